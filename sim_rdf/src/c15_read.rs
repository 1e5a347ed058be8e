//! C15: a reader gives exactly the graph the document denotes, however it is spelled and however
//! its bytes arrive, or it reports the failure.

use crate::fmt::{self, Fmt, READABLE};
use crate::spell::*;
use simkit::*;

fn one(fmt: Fmt) {
    op();
    let (bytes, doc) = any_document(fmt);
    let shown = || String::from_utf8_lossy(&bytes).into_owned();
    slog!("{fmt:?} {} bytes", bytes.len());
    let plan = match draw(4, "device") {
        0 => Plan::perfect(),
        1 | 2 => Plan::benign(),
        _ => Plan::failing(bytes.len() + 1),
    };
    let mut r = Stream::new("in", bytes.clone(), plan);
    match fmt::read(fmt, &mut r) {
        Ok(got) => {
            check!(!r.failed(), "false-success", "{fmt:?}: the device failed after {} of {} bytes but reading reported success", r.pos, bytes.len());
            if let Err(e) = same_documents(&doc, &got) {
                violation("denotes", format!("{fmt:?}: {e}\nof {doc:?}\n{}", shown()));
            }
            probe(match fmt {
                Fmt::Nt => "read-nt",
                Fmt::Nq => "read-nq",
                Fmt::Json => "read-json",
                _ => "read-xml",
            });
        }
        Err(e) => {
            check!(r.failed(), "false-failure", "{fmt:?}: {e}\n{}", shown());
            probe("read-failed");
            // the document is as good as before
            let mut again = Stream::new("again", bytes.clone(), Plan::benign());
            match fmt::read(fmt, &mut again) {
                Ok(got) => {
                    if let Err(e) = same_documents(&doc, &got) {
                        violation("denotes", format!("{fmt:?}, read again: {e}\nof {doc:?}\n{}", shown()));
                    }
                }
                Err(e) => violation("false-failure", format!("{fmt:?}, read again: {e}\n{}", shown())),
            }
        }
    }
}

pub fn scenario() {
    set_switch_den(*pick(&[4u64, 1, 2, 16], "switch-den"));
    preemptible();
    let mut tasks: Vec<Box<dyn FnOnce()>> = vec![];
    for _ in 0..range(1, 3, "callers") {
        tasks.push(Box::new(|| {
            let mut steps = Steps::new(5, 2);
            while steps.more() {
                one(*pick(READABLE, "format"));
            }
        }));
    }
    run_tasks(tasks);
}
