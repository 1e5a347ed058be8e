//! C09: simplifying gives plain triples that say exactly what the graph said.

use crate::c06_graph::sorted;
use crate::gen::*;
use crate::iso;
use rdftk_core::model::graph::Graph;
use rdftk_core::model::statement::{Collection, ObjectNode};
use simkit::entropy::set_entropy_faults;
use simkit::*;
use std::cell::RefCell;
use std::collections::BTreeSet;
use std::rc::Rc;

type Minted = Rc<RefCell<BTreeSet<String>>>;

fn blanks(items: &[S]) -> BTreeSet<String> {
    fn see(t: &T, out: &mut BTreeSet<String>) {
        match t {
            T::Blank(b) => drop(out.insert(b.clone())),
            T::Stmt(s) => {
                see(&s.s, out);
                see(&s.o, out);
            }
            T::Coll(c) => c.iter().for_each(|m| see(m, out)),
            _ => {}
        }
    }
    let mut out = BTreeSet::new();
    for s in items {
        see(&s.s, &mut out);
        see(&s.o, &mut out);
    }
    out
}

/// What was introduced here was introduced nowhere else.
fn fresh(before: &[S], after: &[S], minted: &Minted, what: &str) {
    let own = blanks(before);
    for b in blanks(after).difference(&own) {
        check!(minted.borrow_mut().insert(b.clone()), "reused", "{what}: {b} was introduced elsewhere before");
    }
}

fn check_simple(g: &Graph, original: &[S], name: &Option<T>, what: &str) {
    let got = of_graph(g);
    for s in &got {
        check!(s.flat(), "not-flat", "{what}: {s:?} is not a plain triple");
    }
    let want = iso::expand(original, true);
    let set: G = got.iter().cloned().collect();
    check!(iso::same(&set, &want), "content", "{what}: of {original:?}: {}", iso::difference(&want, &set));
    check!(g.name().map(of_graph_name) == *name, "name", "{what}: name {:?}, expected {name:?}", g.name());
}

/// Done, or stopped loudly because there was no entropy for the new nodes.
fn entropic<R>(what: &str, f: impl FnOnce() -> Result<R, rdftk_core::error::Error>) -> Option<R> {
    let down = fault_count("entropy-eio");
    let r = guarded(f);
    let starved = fault_count("entropy-eio") > down;
    match r {
        Ok(Ok(v)) => Some(v),
        Ok(Err(e)) => {
            check!(starved, "refused", "{what}: {e}");
            probe("aborted");
            None
        }
        Err(p) => {
            check!(starved, "panic", "{what} panicked with the entropy source up: {p}");
            probe("aborted");
            None
        }
    }
}

/// `simplify` of the whole graph.
fn whole(g: &Graph, minted: &Minted) {
    op();
    let before = sorted(of_graph(g));
    let name = g.name().map(of_graph_name);
    let s = entropic("simplify", || g.simplify());
    check!(sorted(of_graph(g)) == before, "original-changed", "simplify changed the original");
    let Some(s) = s else { return };
    check!(*s.prefix_mappings() == *g.prefix_mappings(), "mappings", "the prefix mappings changed");
    slog!("simplify {} -> {}", before.len(), s.len());
    if before.iter().any(|s| !s.flat()) {
        probe("nested");
    }
    let mut distinct = before.clone();
    distinct.dedup();
    check_simple(&s, &distinct, &name, "simplify");
    fresh(&before, &of_graph(&s), minted, "simplify");
    // Plain statements are untouched, as often as they were there (an empty list is `rdf:nil`).
    let simple = of_graph(&s);
    let plain = |x: &S| match &x.o {
        T::Coll(c) if c.is_empty() => S { o: T::Iri(rdf("nil")), ..x.clone() },
        _ => x.clone(),
    };
    for p in before.iter().map(plain).filter(S::flat) {
        let (a, b) = (before.iter().filter(|x| plain(x) == p).count(), simple.iter().filter(|x| **x == p).count());
        check!(b >= 1 && b <= a, "content", "{p:?} was there {a} times and now {b} times");
    }
    // Simplifying what is simple changes nothing.
    let Some(again) = entropic("simplify again", || s.simplify()) else { return };
    let (x, y): (G, G) = (graph_set(&s), graph_set(&again));
    check!(x == y, "content", "simplifying a simple graph changed it: {}", iso::difference(&x, &y));
}

/// The reification of one statement or one collection, taken on its own.
fn single(minted: &Minted) {
    op();
    let shape = Shape { max: 4, mean: 2, ..Shape::FULL };
    let (node, statements, t) = if chance(1, 2, "collection") {
        let n = range(0, 4, "members");
        let t = T::Coll((0..n).map(|_| any_object(&shape, 1)).collect());
        let T::Coll(c) = &t else { unreachable!() };
        let c = Collection::from(c.iter().map(object).collect::<Vec<ObjectNode>>());
        let Some((n, s)) = entropic("reify a collection", || c.reify()) else { return };
        (n, s, t)
    } else {
        let s = any_statement(&shape, 1);
        let Some((n, v)) = entropic("reify a statement", || statement(&s).reify()) else { return };
        (n, v, T::Stmt(Box::new(s)))
    };
    slog!("reify {t:?} -> {} statements", statements.len());
    let made: Vec<S> = statements.iter().map(of_statement).collect();
    fresh(&[S::new(T::iri("urn:t"), "urn:t", t.clone())], &made, minted, "reify");
    probe("reified");
    // A statement that uses the node, plus its description, is the statement that nests the term.
    let user = S::new(T::iri("http://example.org/user"), "http://example.org/uses", of_subject(&node));
    let mut g: Graph = statements.into_iter().collect();
    g.insert(statement(&user));
    let Some(simple) = entropic("simplify", || g.simplify()) else { return };
    check_simple(&simple, &[S { o: t, ..user }], &None, "reify");
}

pub fn scenario() {
    set_switch_den(*pick(&[4u64, 1, 2, 16], "switch-den"));
    preemptible();
    set_entropy_faults(chance(1, 2, "entropy-faults"));
    let (mut g, _) = any_graph(&Shape { max: 14, mean: 5, ..Shape::FULL });
    if chance(1, 3, "named") {
        g.set_name(graph_name(&if chance(1, 2, "blank-name") { any_blank() } else { T::Iri(any_iri_text()) }));
    }
    let g = Rc::new(g);
    let minted: Minted = Default::default();
    let callers = range(1, 3, "callers");
    let mut tasks: Vec<Box<dyn FnOnce()>> = vec![];
    for _ in 0..callers {
        let (g, minted) = (g.clone(), minted.clone());
        tasks.push(Box::new(move || {
            let mut steps = Steps::new(4, 2);
            while steps.more() {
                yield_now("before");
                match draw(3, "what") {
                    0 => whole(&g, &minted),
                    1 => single(&minted),
                    _ => whole(&any_graph(&Shape { max: 6, mean: 3, ..Shape::FULL }).0, &minted),
                }
            }
        }));
    }
    run_tasks(tasks);
}
