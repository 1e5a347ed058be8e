//! C11: a document is complete and says what its graph says, or its writer reports the failure.

use crate::c12_files::{data_set, parse};
use crate::fmt::*;
use crate::gen::*;
use crate::{iso, ttl};
use rdftk_core::model::graph::Graph;
use rdftk_io::nq::NQuadWriter;
use sim_calls::Writes;
use simkit::*;
use std::rc::Rc;

fn plan(len: usize) -> Plan {
    match draw(6, "device") {
        0 => Plan::benign(),
        1 => Plan { flush_fails: true, ..Plan::benign() },
        _ => Plan::failing(len + 1),
    }
}

/// Every complete line of what arrived is a statement of the graph.
fn check_lines(fmt: Fmt, bytes: &[u8], items: &[S], what: &str) {
    let end = bytes.iter().rposition(|b| *b == b'\n').map_or(0, |i| i + 1);
    let text = String::from_utf8_lossy(&bytes[..end]);
    let got: Vec<S> = match fmt {
        Fmt::Nt => ttl::ntriples(&text),
        _ => ttl::nquads(&text).map(|q| q.into_iter().map(|(s, _)| s).collect()),
    }
    .unwrap_or_else(|e| violation("torn-line", format!("{what}: {e} in {text:?}")));
    let want = iso::expand(items, true);
    check!(got.len() <= want.len(), "torn-line", "{what}: {} statements of {} arrived", got.len(), want.len());
    if items.iter().all(S::flat) {
        for s in &got {
            check!(want.contains(s), "torn-line", "{what}: {s:?} arrived, which the graph does not have");
        }
    }
}

/// One document, to a perfect device, then to a bad one, then again.
fn one(g: &Graph, items: &[S]) {
    op();
    let w = Writer::any(ALL);
    let what = w.name();
    slog!("write {what}");
    let before = of_graph(g);
    let good = Sink::new("good", Plan::perfect());
    if let Err(e) = w.write(&mut good.clone(), g) {
        check!(w.may_refuse(items), "refused", "{what} refused {items:?}: {e}");
        // then on every device, and a failing one's failure is still no success
        let bad = Sink::new("bad", plan(100));
        check!(w.write(&mut bad.clone(), g).is_err(), "false-success", "{what} wrote {items:?}, which it had refused before");
        probe("refused");
        return;
    }
    let check = |bytes: &[u8]| {
        if let Err(e) = w.check_document(bytes, items, g) {
            violation("document", format!("{what}: {e}\nof {items:?}\n{}", String::from_utf8_lossy(bytes)));
        }
    };
    let full = good.bytes();
    check(&full);
    probe("complete");
    let bad = Sink::new("bad", plan(full.len()));
    match w.write(&mut bad.clone(), g) {
        Ok(()) => {
            check!(!bad.failed(), "false-success", "{what} reported success on a device that failed after {} bytes", bad.bytes().len());
            check(&bad.bytes());
        }
        Err(e) => {
            check!(bad.failed(), "false-failure", "{what} failed on a working device: {e}");
            probe("write-failed");
        }
    }
    if matches!(w.fmt, Fmt::Nt | Fmt::Nq) {
        check_lines(w.fmt, &bad.bytes(), items, &what);
    }
    if chance(1, 2, "retry") {
        probe("retried");
        let again = Sink::new("again", Plan::benign());
        match w.write(&mut again.clone(), g) {
            Ok(()) => check(&again.bytes()),
            Err(e) => violation("false-failure", format!("{what} failed on a working device: {e}")),
        }
    }
    check!(of_graph(g) == before, "changed", "{what} changed the graph it wrote");
    let s = w.write_to_string(g).map_err(|e| e.to_string());
    match s {
        Ok(s) => check(s.as_bytes()),
        Err(e) => violation("false-failure", format!("{what}, to a string: {e}")),
    }
}

/// A whole data set, as N-Quads or TriG.
fn set() {
    op();
    let (d, doc) = data_set();
    let len = 60 * doc.iter().map(|(_, s)| s.len()).sum::<usize>();
    let out = Sink::new("quads", plan(len));
    let (what, r, trig) = if chance(1, 2, "trig") {
        let (w, options) = trig_writer();
        (format!("TriG{options}"), w.write_to(&mut out.clone(), &d), Some(w))
    } else {
        ("N-Quads".to_string(), NQuadWriter::default().write_to(&mut out.clone(), &d), None)
    };
    slog!("{what}, {} graphs -> {}", doc.len(), r.is_ok());
    match r {
        Ok(()) => {
            check!(!out.failed(), "false-success", "{what} reported success on a device that failed");
            let r = match &trig {
                Some(w) => check_trig(w, &out.bytes(), &doc),
                None => parse("x.nq", &out.bytes()).and_then(|got| {
                    let (want, got) = (quads(&doc, u32::MAX), quads(&got, u32::MAX));
                    if iso::same(&want, &got) { Ok(()) } else { Err(iso::difference(&want, &got)) }
                }),
            };
            match r {
                Ok(()) => probe(if trig.is_some() { "trig" } else { "quads" }),
                Err(e) => {
                    violation("document", format!("{what}: {e}\nof {doc:?}\n{}", String::from_utf8_lossy(&out.bytes())))
                }
            }
        }
        Err(e) => check!(out.failed(), "false-failure", "{what} failed on a working device: {e}"),
    }
}

pub fn scenario() {
    set_switch_den(*pick(&[4u64, 1, 2, 16], "switch-den"));
    preemptible();
    let (mut g, items) = any_graph(&Shape { max: 10, mean: 4, ..Shape::FULL });
    if chance(1, 3, "named") {
        g.set_name(graph_name(&if chance(1, 2, "blank-name") { any_blank() } else { T::Iri(any_iri_text()) }));
    }
    let (g, items) = (Rc::new(g), Rc::new(items));
    let mut tasks: Vec<Box<dyn FnOnce()>> = vec![];
    for _ in 0..range(1, 3, "callers") {
        let (g, items) = (g.clone(), items.clone());
        tasks.push(Box::new(move || {
            let mut steps = Steps::new(4, 2);
            while steps.more() {
                match draw(6, "what") {
                    0 => set(),
                    1 => {
                        // an edited copy is written by its own
                        op();
                        let mut copy = (*g).clone();
                        let mut all = (*items).clone();
                        for s in any_statements(&Shape { max: 3, mean: 2, ..Shape::FULL }) {
                            if !all.contains(&s) {
                                copy.insert(statement(&s));
                                all.push(s);
                            }
                        }
                        copy.set_prefix_mappings(any_mappings());
                        probe("copy-edited");
                        one(&copy, &all);
                    }
                    _ => one(&g, &items),
                }
            }
        }));
    }
    run_tasks(tasks);
}
