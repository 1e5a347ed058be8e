//! C02: compressing and expanding names agree with each other and with the bindings of the moment.

use crate::c01_map::mutate;
use crate::gen::*;
use crate::world::*;
use rdftk_iri::{IriPrefixMap, IriRef, LocalName, PrefixedName};
use simkit::*;
use std::cell::RefCell;
use std::rc::Rc;

struct Shared {
    map: IriPrefixMap,
    model: Model,
    /// Results callers keep across other callers' rebinding: (name, the IRI it stood for).
    kept: Vec<(LocalName, String)>,
    edits: u64,
    saved: Option<(Vec<u8>, Model)>,
}

fn compress(w: &mut Shared) {
    op();
    let i = if !w.model.pairs.is_empty() && chance(1, 2, "in-bound") {
        let n = &w.model.pairs[draw_usize(w.model.pairs.len(), "bound")].1;
        iri(&format!("{n}{}", name_text()))
    } else {
        any_iri()
    };
    let it = text(&i);
    let cbb = !it.contains("//") && !it.starts_with("foo:/");
    if cbb {
        probe("cannot-be-base");
    }
    let r = no_panic("compress-panic", &format!("compress {it}"), || w.map.compress(&i));
    slog!("compress {it} -> {:?}", r.as_ref().map(|l| l.to_string()));
    check!(text(&i) == it, "argument-changed", "compress changed its argument");
    let rr = no_panic("compress-panic", &format!("compress_to_iriref {it}"), || w.map.compress_to_iriref(&i));
    match (&r, &rr) {
        (None, IriRef::Iri(x)) => {
            check!(text(x) == it, "fallback", "fallback of {it} is {}", text(x));
        }
        (Some(l), IriRef::PrefixedName(PrefixedName::Local(x))) => {
            check!(l == x, "fallback", "compress gives {l}, compress_to_iriref {x}");
        }
        _ => violation("fallback", format!("compress {it} gives {r:?} but compress_to_iriref {rr:?}")),
    }
    let Some(l) = r else {
        probe("not-compressed");
        // a name in a bound namespace must compress
        for (p, n) in &w.model.pairs {
            if !expandable(n) {
                continue;
            }
            if let Some(rest) = it.strip_prefix(n.as_str()) {
                if NAMES.contains(&rest) || plain(rest) {
                    violation("not-compressed", format!("{it} is {rest} in {n}, bound to {p}, but was not compressed"));
                }
            }
        }
        return;
    };
    probe("compressed");
    let p = l.namespace().as_ref().to_string();
    let Some(bound) = w.model.ns(&p).map(|s| s.to_string()) else {
        violation("stale-binding", format!("compress {it} gives {l}, but {p} is not bound"))
    };
    check!(it.starts_with(&bound), "wrong-namespace", "compress {it} gives {l}, but {p} is {bound}");
    let back = no_panic("expand-panic", &format!("expand {l}"), || w.map.expand(&l));
    match back {
        Some(b) => check!(text(&b) == it && b == i, "not-inverse", "{it} compresses to {l}, which expands to {}", text(&b)),
        None => violation("not-inverse", format!("{it} compresses to {l}, which does not expand")),
    }
    w.kept.push((l, it));
}

fn expand_one(w: &Shared, l: &LocalName) {
    op();
    let p = l.namespace().as_ref().to_string();
    let n: &str = l.name().as_ref();
    let r = no_panic("expand-panic", &format!("expand {l}"), || w.map.expand(l));
    let expected = match w.model.ns(&p) {
        Some(ns) if expandable(ns) => Some(format!("{ns}{n}")),
        _ => None,
    };
    slog!("expand {l} -> {:?}", r.as_ref().map(text));
    match (&r, &expected) {
        (None, None) => {}
        (Some(a), Some(b)) => check!(text(a) == *b, "wrong-expansion", "{l} expands to {}, expected {b}", text(a)),
        _ => violation("wrong-expansion", format!("{l} expands to {:?}, expected {expected:?}", r.as_ref().map(text))),
    }
    if let (Some(i), true) = (&r, NAMES.contains(&n) || plain(n)) {
        // the other direction, unless another namespace splits the IRI differently
        let c = no_panic("compress-panic", "compress", || w.map.compress(i));
        match c {
            Some(c) => {
                let back = w.map.expand(&c);
                check!(back.as_ref() == Some(i), "not-inverse", "{l} -> {} -> {c} -> {back:?}", text(i));
                check!(c == *l, "not-inverse", "{l} expands to {} which compresses to {c}", text(i));
            }
            None => violation("not-compressed", format!("{l} expands to {} which does not compress", text(i))),
        }
    }
}

fn step(w: &mut Shared) {
    match draw(10, "op") {
        0..=3 => compress(w),
        4..=5 => {
            let l = any_local();
            expand_one(w, &l);
        }
        6 => {
            if !w.kept.is_empty() {
                let k = draw_usize(w.kept.len(), "kept");
                let (l, it) = w.kept[k].clone();
                let p = l.namespace().as_ref().to_string();
                let still = w.model.ns(&p).map(|ns| it.starts_with(ns) && format!("{ns}{}", l.name()) == it);
                if still != Some(true) {
                    probe("stale-prefix");
                }
                expand_one(w, &l);
            }
        }
        7 => {
            // the holder of the map restarts from what it saved before
            if chance(1, 2, "save") || w.saved.is_none() {
                let sink = Sink::new("save", Plan::failing(400));
                if serde_json::to_writer(sink.clone(), &w.map).is_ok() && !sink.failed() {
                    w.saved = Some((sink.bytes(), w.model.clone()));
                }
            } else if let Some((b, m)) = w.saved.clone() {
                fault("restart");
                match serde_json::from_reader(Stream::new("load", b, Plan::benign())) {
                    Ok(map) => {
                        w.map = map;
                        w.model = m;
                        w.edits += 1;
                    }
                    Err(e) => violation("restart-failed", format!("a saved map does not load: {e}")),
                }
            }
        }
        _ => {
            mutate(&mut w.map, &mut w.model);
            w.edits += 1;
        }
    }
}

pub fn scenario() {
    let (map, model) = initial();
    let w = Rc::new(RefCell::new(Shared { map, model, kept: vec![], edits: 0, saved: None }));
    let lock = Rc::new(SimLock::new());
    let callers = range(1, 4, "callers");
    set_switch_den(*pick(&[4u64, 1, 2, 16], "switch-den"));
    preemptible();
    let mut tasks: Vec<Box<dyn FnOnce()>> = vec![];
    for _ in 0..callers {
        let (w, lock) = (w.clone(), lock.clone());
        tasks.push(Box::new(move || {
            let mut seen = 0;
            let mut steps = Steps::new(24, 10);
            while steps.more() {
                if chance(1, 3, "copy-first") {
                    // work on a copy while others go on editing the original
                    let mut mine = lock.with(|| {
                        let w = w.borrow();
                        Shared { map: w.map.clone(), model: w.model.clone(), kept: w.kept.clone(), edits: 0, saved: None }
                    });
                    yield_now("on-copy");
                    step(&mut mine);
                } else {
                    lock.with(|| {
                        let mut w = w.borrow_mut();
                        if w.edits != seen {
                            probe("rebound-between");
                        }
                        step(&mut w);
                        seen = w.edits;
                    });
                }
            }
        }));
    }
    run_tasks(tasks);
    let w = w.borrow();
    audit(&w.map, &w.model, "end");
}
