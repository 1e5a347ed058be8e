//! C04: rendering and serialising to a sink that fails says so, and never invents or reorders text.

use crate::c01_map::mutate;
use crate::gen::*;
use crate::world::*;
use rdftk_iri::{IriRef, PrefixedName};
use simkit::*;
use std::cell::RefCell;
use std::fmt::{Display, Write as _};
use std::rc::Rc;

/// The text a perfect sink receives, and the same through failing sinks.
fn render(v: &dyn Display, alternate: bool, expected: Option<String>) {
    op();
    let put = |s: &mut CharSink| if alternate { write!(s, "{v:#}") } else { write!(s, "{v}") };
    let mut good = CharSink::new(None, false);
    let r = put(&mut good);
    check!(r.is_ok(), "perfect-sink-error", "rendering to a perfect sink failed");
    let full = good.text;
    if let Some(e) = expected {
        check!(full == e, "wrong-text", "rendered {full:?}, expected {e:?}");
    }
    let at = draw_usize(full.len() + 2, "fail-at");
    let mut bad = CharSink::new(Some(at), chance(1, 2, "transient"));
    let r = put(&mut bad);
    slog!("render {} bytes, fails at {at} -> {} after {}", full.len(), r.is_ok(), bad.text.len());
    if bad.failed {
        probe("render-failed");
        check!(r.is_err(), "false-success", "the sink failed after {at} bytes but rendering reported success; got {:?} of {full:?}", bad.text);
    } else {
        check!(r.is_ok(), "false-failure", "the sink took everything but rendering failed");
        check!(bad.text == full, "wrong-text", "two renderings differ: {:?} and {full:?}", bad.text);
    }
    check!(full.starts_with(&bad.text), "not-a-prefix", "after a failure the sink holds {:?}, not a prefix of {full:?}", bad.text);
    let mut again = CharSink::new(None, false);
    let r = put(&mut again);
    probe("retried");
    check!(r.is_ok() && again.text == full, "retry-differs", "retry gives {:?}, first gave {full:?}", again.text);
}

fn serialise<T: serde::Serialize>(v: &T) {
    op();
    let good = Sink::new("good", Plan::perfect());
    let r = serde_json::to_writer(good.clone(), v);
    check!(r.is_ok(), "perfect-sink-error", "serialising to a perfect sink failed");
    let full = good.bytes();
    let plan = if chance(1, 3, "benign") { Plan::benign() } else { Plan::failing(full.len() + 1) };
    let bad = Sink::new("bad", plan);
    let r = serde_json::to_writer(bad.clone(), v);
    slog!("serialise {} bytes -> {} after {}", full.len(), r.is_ok(), bad.bytes().len());
    if bad.failed() {
        probe("serialise-failed");
        check!(r.is_err(), "false-success", "the device failed but serialising reported success");
    } else {
        check!(r.is_ok(), "false-failure", "the device took everything but serialising failed");
        check!(bad.bytes() == full, "wrong-text", "two serialisations differ");
    }
    check!(full.starts_with(&bad.bytes()), "not-a-prefix", "after a failure the device holds no prefix of the full text");
    let again = Sink::new("again", Plan::benign());
    let r = serde_json::to_writer(again.clone(), v);
    check!(r.is_ok() && again.bytes() == full, "retry-differs", "retry differs");
}

fn step(w: &RefCell<(rdftk_iri::IriPrefixMap, Model)>, lock: &SimLock) {
    match draw(9, "what") {
        0 => {
            let i = any_iri();
            let t = text(&i);
            if chance(1, 2, "alternate") {
                render(&i, true, Some(t));
            } else {
                render(&i, false, Some(format!("<{t}>")));
            }
        }
        1 => {
            let (t, n) = any_name();
            render(&n, false, Some(t));
            serialise(&n);
        }
        2 => {
            let (t, p) = any_prefix();
            render(&p, false, Some(t));
            serialise(&p);
        }
        3 => {
            let l = any_local();
            let t = format!("{}{}", l.namespace().as_ref(), l.name().as_ref());
            render(&l, false, Some(t));
            serialise(&l);
        }
        4 => {
            let l = any_local();
            let t = format!("{}{}", l.namespace().as_ref(), l.name().as_ref());
            let p = PrefixedName::from(l);
            render(&p, false, Some(t.clone()));
            let r = IriRef::from(p);
            render(&r, false, Some(t));
            serialise(&r);
        }
        5 => {
            let i = any_iri();
            let t = text(&i);
            let r = IriRef::from(&i);
            render(&r, false, Some(format!("<{t}>")));
            serialise(&r);
            serialise(&i);
        }
        6 | 7 => {
            // the copy is rendered while other callers go on editing the original
            let (m, md) = lock.with(|| w.borrow().clone());
            let s = m.to_string();
            // a line per binding, that names the prefix and the namespace and no other
            let listed: Vec<Vec<&str>> = s
                .lines()
                .map(|l| l.split_whitespace().map(|t| t.trim_start_matches('<').trim_end_matches('>')).collect())
                .collect();
            let lines = listed.iter().filter(|l| l.iter().any(|t| t.contains("://") || t.starts_with("urn:"))).count();
            check!(lines == md.pairs.len(), "wrong-text", "{lines} lines for {} bindings: {s}", md.pairs.len());
            for (p, i) in &md.pairs {
                check!(
                    listed.iter().any(|l| l.contains(&p.as_str()) && l.contains(&i.as_str())),
                    "wrong-text",
                    "the rendered map does not list {p} {i}: {s}"
                );
            }
            if chance(1, 2, "how") {
                render(&m, false, Some(s));
            } else {
                serialise(&m);
            }
            audit(&m, &md, "after rendering");
        }
        _ => {
            lock.with(|| {
                let (m, md) = &mut *w.borrow_mut();
                mutate(m, md);
            });
        }
    }
}

pub fn scenario() {
    let w = Rc::new((RefCell::new(initial()), SimLock::new()));
    set_switch_den(*pick(&[3u64, 0, 1, 8], "switch-den"));
    preemptible();
    let mut tasks: Vec<Box<dyn FnOnce()>> = vec![];
    for _ in 0..range(1, 3, "callers") {
        let w = w.clone();
        tasks.push(Box::new(move || {
            let mut steps = Steps::new(10, 5);
            while steps.more() {
                step(&w.0, &w.1);
            }
        }));
    }
    run_tasks(tasks);
}
