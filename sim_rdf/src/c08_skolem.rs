//! C08: skolemization replaces each blank node, everywhere, by one IRI of its own.

use crate::c06_graph::sorted;
use crate::gen::*;
use crate::iso;
use rdftk_core::model::graph::Graph;
use simkit::entropy::{jump_clock, set_entropy_faults};
use simkit::*;
use std::cell::RefCell;
use std::collections::BTreeSet;
use std::rc::Rc;

const BASES: &[(&str, Option<&str>)] = &[
    ("https://example.com/me", Some("https://example.com/.well-known/genid/")),
    ("http://example.org:8080/x/y?q#f", Some("http://example.org:8080/.well-known/genid/")),
    ("http://example.org/", Some("http://example.org/.well-known/genid/")),
    ("urn:isbn:0451450523", None),
];

fn each_term(t: &T, f: &mut dyn FnMut(&T)) {
    f(t);
    match t {
        T::Stmt(s) => {
            each_term(&s.s, f);
            each_term(&s.o, f);
        }
        T::Coll(c) => c.iter().for_each(|m| each_term(m, f)),
        _ => {}
    }
}

fn map_term(t: &T, f: &dyn Fn(&T) -> T) -> T {
    match t {
        T::Stmt(s) => T::Stmt(Box::new(map_statement(s, f))),
        T::Coll(c) => T::Coll(c.iter().map(|m| map_term(m, f)).collect()),
        other => f(other),
    }
}

fn map_statement(s: &S, f: &dyn Fn(&T) -> T) -> S {
    S { s: map_term(&s.s, f), p: s.p.clone(), o: map_term(&s.o, f) }
}

fn blanks(items: &[S], name: &Option<T>) -> BTreeSet<String> {
    let mut out = BTreeSet::new();
    let mut see = |t: &T| {
        if let T::Blank(b) = t {
            out.insert(b.clone());
        }
    };
    for s in items {
        each_term(&s.s, &mut see);
        each_term(&s.o, &mut see);
    }
    if let Some(n) = name {
        see(n);
    }
    out
}

/// One sortable text per statement, counted.
fn shape_of(items: &[S], hide: &dyn Fn(&T) -> T) -> Vec<S> {
    sorted(items.iter().map(|s| map_statement(s, hide)).collect())
}

fn one(g: &Graph, minted: &RefCell<BTreeSet<String>>) {
    op();
    let (base, start) = *pick(BASES, "base");
    let before = sorted(of_graph(g));
    let name = g.name().map(of_graph_name);
    let down = fault_count("entropy-eio");
    let own = blanks(&before, &name);
    let r = guarded(|| g.skolemize(&iri(base)));
    let starved = fault_count("entropy-eio") > down;
    check!(sorted(of_graph(g)) == before && g.name().map(of_graph_name) == name, "original-changed", "skolemize changed the original graph");
    let sk = match r {
        Ok(Ok(sk)) => sk,
        Ok(Err(e)) => {
            slog!("skolemize {base} -> error {e}");
            probe("refused");
            check!(starved || (start.is_none() && !own.is_empty()), "refused", "skolemize of a graph with blank nodes {own:?} on {base}: {e}");
            return;
        }
        Err(p) => {
            slog!("skolemize {base} -> panic {p}");
            probe("aborted");
            check!(starved, "panic", "skolemize panicked with the entropy source up: {p}");
            return;
        }
    };
    probe("skolemized");
    let got = of_graph(&sk);
    let gname = sk.name().map(of_graph_name);
    slog!("skolemize {base}: {} statements, blanks {own:?}", got.len());
    let left = blanks(&got, &gname);
    check!(left.is_empty(), "left-behind", "blank nodes {left:?} are left behind in {got:?}");
    check!(*sk.prefix_mappings() == *g.prefix_mappings(), "mappings", "the prefix mappings changed");
    check!(got.len() == before.len(), "content", "{} statements became {}", before.len(), got.len());
    check!(gname.is_some() == name.is_some(), "name", "name {name:?} became {gname:?}");
    // What is new?
    let mut known = BTreeSet::new();
    let mut fresh = BTreeSet::new();
    for s in &before {
        each_term(&s.s, &mut |t| drop(known.insert(t.clone())));
        each_term(&s.o, &mut |t| drop(known.insert(t.clone())));
    }
    known.extend(name.clone());
    let mut see = |t: &T| {
        if let T::Iri(i) = t {
            if !known.contains(t) {
                fresh.insert(i.clone());
            }
        }
    };
    for s in &got {
        each_term(&s.s, &mut see);
        each_term(&s.o, &mut see);
    }
    gname.iter().for_each(&mut see);
    check!(fresh.len() == own.len(), "not-one-to-one", "{} blank nodes {own:?} became {} IRIs {fresh:?}", own.len(), fresh.len());
    for f in &fresh {
        let ok = start.is_some_and(|s| f.starts_with(s) && f.len() > s.len() && !f[s.len()..].contains(['/', '?', '#']));
        check!(ok, "malformed", "minted {f} on {base}");
        check!(minted.borrow_mut().insert(f.clone()), "reused", "{f} was minted before");
    }
    // Nothing but the blank nodes changed: the same statements with the new IRIs hidden again, and
    // the same graph with them named as blank nodes.
    let hide = |t: &T| match t {
        T::Blank(_) => T::blank("?"),
        T::Iri(i) if fresh.contains(i) => T::blank("?"),
        o => o.clone(),
    };
    check!(
        shape_of(&before, &hide) == shape_of(&got, &hide),
        "content",
        "{before:?} became {got:?}"
    );
    let back = |t: &T| match t {
        T::Iri(i) if fresh.contains(i) => T::Blank(i.clone()),
        o => o.clone(),
    };
    let mut a = before.clone();
    let mut b: Vec<S> = sorted(got.iter().map(|s| map_statement(s, &back)).collect());
    a.dedup();
    b.dedup();
    if let (Some(n), Some(m)) = (&name, &gname) {
        a.push(S::new(n.clone(), "urn:marker", n.clone()));
        let m = back(m);
        b.push(S::new(m.clone(), "urn:marker", m));
    }
    let (a, b) = (iso::expand(&a, true), iso::expand(&b, true));
    check!(iso::same(&a, &b), "inconsistent", "one blank node was not given one IRI throughout: {before:?} became {got:?}");
}

pub fn scenario() {
    set_switch_den(*pick(&[4u64, 1, 2, 16], "switch-den"));
    preemptible();
    set_entropy_faults(chance(1, 2, "entropy-faults"));
    let minted = Rc::new(RefCell::new(BTreeSet::new()));
    let (mut g, _) = any_graph(&Shape { max: 16, mean: 5, ..Shape::FULL });
    if chance(1, 2, "named") {
        g.set_name(graph_name(&if chance(1, 2, "blank-name") { any_blank() } else { T::Iri(any_iri_text()) }));
    }
    let g = Rc::new(g);
    let callers = range(1, 3, "callers");
    let mut tasks: Vec<Box<dyn FnOnce()>> = vec![];
    for _ in 0..callers {
        let (g, minted) = (g.clone(), minted.clone());
        tasks.push(Box::new(move || {
            let mut steps = Steps::new(4, 2);
            while steps.more() {
                if chance(1, 4, "own-graph") {
                    let (own, _) = any_graph(&Shape { max: 8, mean: 3, ..Shape::FULL });
                    one(&own, &minted);
                } else {
                    one(&g, &minted);
                }
                if chance(1, 8, "clock") {
                    jump_clock(if chance(1, 2, "back") { -1_000_000_000 } else { 3_600_000_000_000 });
                }
            }
        }));
    }
    run_tasks(tasks);
}
