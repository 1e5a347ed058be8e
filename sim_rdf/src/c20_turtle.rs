//! C20: a Turtle document says exactly what its graph says, in every style.
//! C21: the text of a Turtle document depends on its graph, prefixes and style, on nothing else.

use crate::fmt::{Fmt, Writer};
use crate::gen::*;
use crate::iso;
use rdftk_core::model::graph::Graph;
use rdftk_iri::IriPrefixMap;
use simkit::*;
use std::collections::BTreeSet;
use std::rc::Rc;

/// Blank nodes in trees, chains, rings and knots: what decides where their properties go.
fn blank_structure(shape: &Shape) -> Vec<S> {
    let n = range(1, 7, "blanks");
    let node = |k: u64| T::Blank(format!("n{k}"));
    let link = |from: T, to: T| {
        let o = match draw(8, "link") {
            0 if shape.collections => T::Coll(vec![T::lit("first"), to]),
            1 if shape.collections => T::Coll(vec![T::Coll(vec![to])]),
            _ => to,
        };
        S { s: from, p: any_predicate(shape), o }
    };
    let mut out = vec![];
    for k in 0..n {
        // who uses it?
        let user = match draw(6, "user") {
            0 => Some(T::Iri(any_iri_text())),
            1 | 2 if k > 0 => Some(node(k - 1)),
            3 if k > 0 => Some(node(draw(k, "earlier"))),
            4 => Some(node(draw(n, "any-node"))),
            _ => None,
        };
        if let Some(u) = user {
            out.push(link(u, node(k)));
        }
        if chance(1, 5, "used-again") {
            let u = if chance(1, 2, "iri-user") { T::Iri(any_iri_text()) } else { node(draw(n, "user-node")) };
            out.push(link(u, node(k)));
        }
        // what does it say?
        for _ in 0..draw(3, "own") {
            out.push(S { s: node(k), p: any_predicate(shape), o: any_object(shape, 1) });
        }
    }
    out
}

pub fn items(shape: &Shape) -> Vec<S> {
    let mut v = match draw(4, "content") {
        0 => any_statements(shape),
        1 => vec![],
        _ => any_statements(&Shape { max: 6, mean: 3, ..*shape }),
    };
    if chance(3, 4, "blank-structure") {
        v.extend(blank_structure(shape));
    }
    let mut seen = BTreeSet::new();
    v.retain(|s| seen.insert(s.clone()));
    v
}

fn say(w: &Writer, lock: &SimLock) {
    op();
    let shape = Shape { statements: chance(1, 4, "star"), max: 10, mean: 4, ..Shape::FULL };
    let items = items(&shape);
    let mut g = build(&items, chance(1, 2, "unique"));
    if chance(2, 3, "with-mappings") {
        g.set_prefix_mappings(any_mappings());
    }
    let fails = chance(1, 4, "fails");
    let out = Sink::new("out", if fails { Plan::failing(600) } else { Plan::benign() });
    let r = lock.with(|| no_panic("panic", "the Turtle writer", || w.write(&mut out.clone(), &g)));
    let bytes = out.bytes();
    slog!("{}: {} bytes, {}", w.name(), bytes.len(), r.is_ok());
    match r {
        Ok(()) => {
            check!(!out.failed(), "false-success", "{} reported success on a device that failed", w.name());
            if let Err(e) = w.check_document(&bytes, &items, &g) {
                violation("document", format!("{}: {e}\nof {items:?}\n{}", w.name(), String::from_utf8_lossy(&bytes)));
            }
            probe("written");
            if items.iter().any(|s| matches!(&s.o, T::Blank(_))) {
                probe("blanks");
            }
            if shape.statements && items.iter().any(|s| !iso::expand(std::slice::from_ref(s), true).is_empty() && matches!(s.s, T::Stmt(_))) {
                probe("nested");
            }
        }
        Err(e) => {
            check!(out.failed(), "false-failure", "{} failed on a working device: {e}\nof {items:?}", w.name());
            probe("failed");
        }
    }
}

pub fn says() {
    set_switch_den(*pick(&[4u64, 1, 2, 16], "switch-den"));
    preemptible();
    let writers: Rc<Vec<(Writer, SimLock)>> =
        Rc::new((0..range(1, 2, "writers")).map(|_| (Writer::of(Fmt::Ttl), SimLock::new())).collect());
    let mut tasks: Vec<Box<dyn FnOnce()>> = vec![];
    for _ in 0..range(1, 3, "callers") {
        let writers = writers.clone();
        tasks.push(Box::new(move || {
            let mut steps = Steps::new(6, 3);
            while steps.more() {
                let (w, lock) = pick(&writers, "writer");
                say(w, lock);
            }
        }));
    }
    run_tasks(tasks);
}

/// The same graph, as another caller or process came by it.
fn another(items: &[S], mappings: &[(String, String)], name: &Option<T>) -> Graph {
    let mut rest: Vec<S> = items.to_vec();
    let mut g = if chance(1, 2, "unique") { Graph::unique() } else { Graph::default() };
    while !rest.is_empty() {
        let s = rest.remove(draw_usize(rest.len(), "next"));
        if chance(1, 8, "edited") {
            // something that does not stay
            let extra = S::new(T::iri("http://example.org/gone"), "http://example.org/was", T::lit("here"));
            g.insert(statement(&extra));
            g.remove(&statement(&extra));
        }
        g.insert(statement(&s));
        if chance(1, 8, "twice") {
            g.insert(statement(&s));
        }
    }
    let mut rest: Vec<(String, String)> = mappings.to_vec();
    let mut m = IriPrefixMap::default();
    while !rest.is_empty() {
        let (p, n) = rest.remove(draw_usize(rest.len(), "next-prefix"));
        bind(&mut m, &p, &n);
    }
    g.set_prefix_mappings(m);
    if let Some(n) = name {
        g.set_name(graph_name(n));
    }
    if chance(1, 4, "copy") {
        g.clone()
    } else {
        g
    }
}

/// What is written, how, and where the observer keeps the first text there was of it.
type Case = (Writer, Vec<S>, Vec<(String, String)>, Option<T>, String, SimLock);

fn repeat(c: &Case) {
    op();
    let (w, items, mappings, name, text, lock) = c;
    let g = another(items, mappings, name);
    let own;
    let w = if chance(1, 2, "new-writer") {
        own = w.again();
        &own
    } else {
        w
    };
    let out = Sink::new("out", if chance(1, 6, "fails") { Plan::failing(400) } else { Plan::benign() });
    // one writer takes one document at a time
    let r = lock.with(|| w.write(&mut out.clone(), &g));
    if let Err(e) = r {
        check!(out.failed(), "false-failure", "{} failed on a working device: {e}\nof {items:?}", w.name());
        probe("failed");
        return;
    }
    let bytes = out.bytes();
    slog!("{}: {} bytes", w.name(), bytes.len());
    match Disk.get(text) {
        Some(t) => {
            check!(
                t == bytes,
                "text",
                "{}: another text for the same graph\nof {items:?}\nonce\n{}\nnow\n{}",
                w.name(),
                String::from_utf8_lossy(&t),
                String::from_utf8_lossy(&bytes)
            );
            probe("same-text");
        }
        None => Disk.put_durable(text, bytes),
    }
}

pub fn stable() {
    let shape = Shape { statements: false, max: 10, mean: 5, ..Shape::FULL };
    let cases: Rc<Vec<Case>> = Rc::new(
        (0..range(1, 2, "graphs"))
            .map(|k| {
                let items = items(&shape);
                let mappings: Vec<(String, String)> =
                    any_mappings().mappings().map(|(p, n)| (p.to_string(), iri_text(n))).collect();
                let name = chance(1, 4, "named").then(|| T::Iri(any_iri_text()));
                (Writer::of(Fmt::Ttl), items, mappings, name, format!("observer/text{k}"), SimLock::new())
            })
            .collect(),
    );
    let lives = range(1, 3, "lives");
    for n in 0..lives {
        let crash = *pick(&[0u64, 0, 200], "crash-den");
        let cases = cases.clone();
        process(&format!("p{n}"), crash, move || {
            set_switch_den(*pick(&[4u64, 1, 2, 16], "switch-den"));
            preemptible();
            let mut tasks: Vec<Box<dyn FnOnce()>> = vec![];
            for _ in 0..range(1, 3, "callers") {
                let cases = cases.clone();
                tasks.push(Box::new(move || {
                    let mut steps = Steps::new(4, 2);
                    while steps.more() {
                        repeat(pick(&cases, "graph"));
                    }
                }));
            }
            run_tasks(tasks);
        });
        if n > 0 {
            probe("restarted");
        }
    }
}
