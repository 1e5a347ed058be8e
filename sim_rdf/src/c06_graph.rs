//! C06: a graph holds exactly what its history of edits left in it, and every query agrees.

use crate::gen::*;
use rdftk_core::model::features::{Featured, FEATURE_GRAPH_DUPLICATES, FEATURE_RDF_STAR};
use rdftk_core::model::graph::Graph;
use rdftk_core::model::statement::Statement;
use rdftk_iri::IriPrefixMap;
use simkit::*;
use std::cell::{Cell, RefCell};
use std::collections::BTreeSet;
use std::rc::Rc;

const SHAPE: Shape = Shape { max: 8, mean: 3, ..Shape::FULL };

#[derive(Clone)]
pub struct Model {
    pub unique: bool,
    /// Sorted when compared; the order of a graph is not promised.
    pub items: Vec<S>,
    pub name: Option<T>,
    pub mappings: IriPrefixMap,
}

impl Model {
    pub fn new(unique: bool) -> Model {
        Model { unique, items: vec![], name: None, mappings: Default::default() }
    }
    pub fn insert(&mut self, s: S) {
        if !self.unique || !self.items.contains(&s) {
            self.items.push(s);
        }
    }
}

pub fn sorted(mut v: Vec<S>) -> Vec<S> {
    v.sort();
    v
}

fn diff(a: &[S], b: &[S]) -> String {
    let mut rest = b.to_vec();
    let mut out = vec![];
    for x in a {
        match rest.iter().position(|y| y == x) {
            Some(k) => {
                rest.remove(k);
            }
            None => out.push(format!("missing {x:?}")),
        }
    }
    out.extend(rest.iter().map(|x| format!("extra {x:?}")));
    out.truncate(8);
    out.join(" | ")
}

/// The whole content, by every means there is.
pub fn audit(g: &Graph, m: &Model, what: &str) {
    let items = sorted(m.items.clone());
    let got = sorted(of_graph(g));
    check!(got == items, "content", "{what}: {}", diff(&items, &got));
    check!(g.len() == items.len(), "size", "{what}: len {} of {}", g.len(), items.len());
    check!(g.is_empty() == items.is_empty(), "size", "{what}: is_empty {}", g.is_empty());
    let name = g.name().map(of_graph_name);
    check!(name == m.name && g.is_named() == m.name.is_some(), "name", "{what}: name {name:?}, expected {:?}", m.name);
    check!(*g.prefix_mappings() == m.mappings, "mappings", "{what}: prefix mappings changed");
    check!(
        g.supports_feature(&FEATURE_GRAPH_DUPLICATES) != m.unique && g.supports_feature(&FEATURE_RDF_STAR),
        "features",
        "{what}: features of a graph with unique={}",
        m.unique
    );
    let set = |f: &dyn Fn(&S) -> T| -> BTreeSet<T> { items.iter().map(f).collect() };
    let subjects: BTreeSet<T> = g.subjects().into_iter().map(of_subject).collect();
    check!(subjects == set(&|s| s.s.clone()), "subjects", "{what}: subjects {subjects:?}");
    let blank: BTreeSet<T> = g.blank_node_subjects().into_iter().map(of_subject).collect();
    let node: BTreeSet<T> = g.node_subjects().into_iter().map(of_subject).collect();
    for s in &subjects {
        let b = matches!(s, T::Blank(_));
        check!(blank.contains(s) == b && node.contains(s) != b, "subjects", "{what}: {s:?} among blank {blank:?} / others {node:?}");
    }
    check!(blank.len() + node.len() == subjects.len(), "subjects", "{what}: blank {blank:?} others {node:?}");
    let predicates: BTreeSet<T> = g.predicates().into_iter().map(|p| T::Iri(iri_text(p))).collect();
    check!(predicates == set(&|s| T::Iri(s.p.clone())), "predicates", "{what}: predicates {predicates:?}");
    let objects: BTreeSet<T> = g.objects().into_iter().map(of_object).collect();
    check!(objects == set(&|s| s.o.clone()), "objects", "{what}: objects {objects:?}");
}

/// A term that is sometimes in the graph and sometimes not.
fn probe_statement(m: &Model) -> S {
    if !m.items.is_empty() && chance(2, 3, "present") {
        let mut s = m.items[draw_usize(m.items.len(), "which")].clone();
        if chance(1, 4, "other-object") {
            s.o = any_object(&SHAPE, 1);
        }
        s
    } else {
        any_statement(&SHAPE, 0)
    }
}

fn query(g: &Graph, m: &Model) {
    op();
    let q = probe_statement(m);
    let real = statement(&q);
    let (rs, rp, ro) = (subject(&q.s), iri(&q.p), object(&q.o));
    slog!("query {q:?}");
    let holds = m.items.contains(&q);
    check!(g.contains(&real) == holds, "contains", "contains {q:?} is {}, expected {holds}", !holds);
    check!(g.contains_all(&rs, &rp, &ro) == holds, "contains", "contains_all {q:?} is {}", !holds);
    let of_s = m.items.iter().any(|s| s.s == q.s);
    check!(g.contains_subject(&rs) == of_s, "contains", "contains_subject {:?} is {}", q.s, !of_s);
    for mask in 0..8u32 {
        let on = |b: u32| mask & b != 0;
        let got: BTreeSet<S> = g
            .matches(on(1).then_some(&rs), on(2).then_some(&rp), on(4).then_some(&ro))
            .into_iter()
            .map(of_statement)
            .collect();
        let want: BTreeSet<S> = m
            .items
            .iter()
            .filter(|s| (!on(1) || s.s == q.s) && (!on(2) || s.p == q.p) && (!on(4) || s.o == q.o))
            .cloned()
            .collect();
        check!(got == want, "matches", "matches (pattern {mask:03b}) of {q:?} gives {got:?}, expected {want:?}");
        if mask != 7 && mask != 0 && !want.is_empty() {
            probe("wildcard-hit");
        }
    }
    let got: BTreeSet<String> = g.predicates_for(&rs).into_iter().map(iri_text).collect();
    let want: BTreeSet<String> = m.items.iter().filter(|s| s.s == q.s).map(|s| s.p.clone()).collect();
    check!(got == want, "predicates-for", "predicates_for {:?} gives {got:?}, expected {want:?}", q.s);
    let got: BTreeSet<T> = g.objects_for(&rs, &rp).into_iter().map(of_object).collect();
    let want: BTreeSet<T> = m.items.iter().filter(|s| s.s == q.s && s.p == q.p).map(|s| s.o.clone()).collect();
    check!(got == want, "objects-for", "objects_for {:?} {:?} gives {got:?}, expected {want:?}", q.s, q.p);
}

/// A caller's own iterator: it is slow, and it may die half-way.
struct Feed {
    items: Vec<S>,
    at: Rc<Cell<usize>>,
    dies_at: Option<usize>,
}

impl Iterator for Feed {
    type Item = Statement;
    fn next(&mut self) -> Option<Statement> {
        yield_now("feed");
        let k = self.at.get();
        if self.dies_at == Some(k) {
            fault("caller-panic");
            panic!("the caller's iterator died");
        }
        self.at.set(k + 1);
        self.items.get(k).map(statement)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (0, None)
    }
}

pub fn edit(g: &mut Graph, m: &mut Model) {
    op();
    match draw(16, "edit") {
        0..=4 => {
            let s = if !m.items.is_empty() && chance(1, 3, "again") {
                m.items[draw_usize(m.items.len(), "which")].clone()
            } else {
                any_statement(&SHAPE, 0)
            };
            slog!("insert {s:?}");
            if m.items.contains(&s) {
                probe("duplicate-insert");
            }
            g.insert(statement(&s));
            m.insert(s);
        }
        5..=6 => {
            let items = any_statements(&SHAPE);
            let n = items.len();
            let dies_at = chance(1, 4, "dies").then(|| draw_usize(n + 1, "dies-at"));
            slog!("extend {items:?} dies {dies_at:?}");
            let at = Rc::new(Cell::new(0));
            let feed = Feed { items: items.clone(), at: at.clone(), dies_at };
            match guarded(|| g.extend(feed)) {
                Ok(()) => {
                    check!(dies_at.is_none(), "extend", "extend ended without asking for all {n} items");
                    items.into_iter().for_each(|s| m.insert(s));
                }
                Err(e) => {
                    if dies_at.is_none() {
                        violation("panic", format!("extend panicked: {e}"));
                    }
                    // what was handed over before may be in, nothing else
                    probe("extend-died");
                    let got = sorted(of_graph(g));
                    let mut found = None;
                    for k in 0..=dies_at.unwrap_or(0).min(n) {
                        let mut t = m.clone();
                        items[..k].iter().for_each(|s| t.insert(s.clone()));
                        if sorted(t.items.clone()) == got {
                            found = Some(t);
                        }
                    }
                    match found {
                        Some(t) => *m = t,
                        None => violation("content", format!("after a died extend the graph is neither the old content nor it plus what was handed over: {}", diff(&sorted(m.items.clone()), &got))),
                    }
                }
            }
        }
        7 => {
            let (mut other, items) = any_graph(&SHAPE);
            if chance(1, 2, "other-named") {
                other.set_name(graph_name(&if chance(1, 2, "blank") { any_blank() } else { T::Iri(any_iri_text()) }));
            }
            if chance(1, 6, "self") {
                other = g.clone();
            }
            let before = sorted(of_graph(&other));
            slog!("merge {items:?}");
            g.merge(&other);
            check!(sorted(of_graph(&other)) == before, "argument-changed", "merge changed the other graph");
            before.into_iter().for_each(|s| m.insert(s));
        }
        8..=9 => {
            let s = probe_statement(m);
            slog!("remove {s:?}");
            g.remove(&statement(&s));
            if m.items.contains(&s) {
                probe("removed");
            }
            m.items.retain(|x| *x != s);
        }
        10..=11 => {
            let s = probe_statement(m).s;
            slog!("remove_all_for {s:?}");
            let got = sorted(g.remove_all_for(&subject(&s)).iter().map(of_statement).collect());
            let want = sorted(m.items.iter().filter(|x| x.s == s).cloned().collect());
            check!(got == want, "removed-list", "remove_all_for {s:?} reports {got:?}, expected {want:?}");
            if !want.is_empty() && want.len() < m.items.len() {
                probe("removed-subject");
            }
            m.items.retain(|x| x.s != s);
        }
        12 => {
            slog!("dedup");
            let got = sorted(g.dedup().iter().map(of_statement).collect());
            let mut keep: Vec<S> = vec![];
            let mut dropped: Vec<S> = vec![];
            for s in m.items.drain(..) {
                if keep.contains(&s) {
                    dropped.push(s);
                } else {
                    keep.push(s);
                }
            }
            if !dropped.is_empty() {
                probe("dedup-dropped");
            }
            check!(got == sorted(dropped.clone()), "removed-list", "dedup reports {got:?}, expected {dropped:?}");
            m.items = keep;
        }
        13 => {
            if chance(1, 3, "really") {
                slog!("clear");
                g.clear();
                m.items.clear();
            }
        }
        14 => {
            let name = chance(2, 3, "named").then(|| if chance(1, 2, "blank") { any_blank() } else { T::Iri(any_iri_text()) });
            slog!("name {name:?}");
            match &name {
                Some(n) => g.set_name(graph_name(n)),
                None => g.unset_name(),
            }
            m.name = name;
        }
        _ => {
            let map = any_mappings();
            slog!("set mappings");
            g.set_prefix_mappings(map.clone());
            m.mappings = map;
        }
    }
}

pub fn initial() -> (Graph, Model) {
    let unique = chance(1, 2, "unique");
    let mut m = Model::new(unique);
    let name = chance(1, 3, "named").then(|| T::Iri(any_iri_text()));
    let items = any_statements(&SHAPE);
    let real: Vec<Statement> = items.iter().map(statement).collect();
    let mut g = match (unique, &name) {
        (true, Some(n)) => Graph::unique_named(graph_name(n)),
        (true, None) => Graph::unique(),
        (false, Some(n)) => Graph::named(graph_name(n)),
        (false, None) => Graph::default(),
    };
    items.iter().for_each(|s| m.insert(s.clone()));
    match draw(3, "how") {
        0 => g = g.with_statements(real),
        1 => g.extend(real),
        _ if !unique && name.is_none() => g = if chance(1, 2, "from") { Graph::from(real) } else { real.into_iter().collect() },
        _ => real.into_iter().for_each(|s| g.insert(s)),
    }
    m.name = name;
    if chance(1, 3, "with-mappings") {
        let map = any_mappings();
        g = g.with_mappings(map.clone());
        m.mappings = map;
    }
    (g, m)
}

pub fn scenario() {
    set_switch_den(*pick(&[4u64, 1, 2, 16], "switch-den"));
    preemptible();
    let (g, m) = initial();
    audit(&g, &m, "start");
    let w = Rc::new(RefCell::new((g, m)));
    let kept: Rc<RefCell<Vec<(Graph, Model)>>> = Default::default();
    let lock = Rc::new(SimLock::new());
    let callers = range(1, 4, "callers");
    let mut tasks: Vec<Box<dyn FnOnce()>> = vec![];
    for _ in 0..callers {
        let (w, lock, kept) = (w.clone(), lock.clone(), kept.clone());
        tasks.push(Box::new(move || {
            let mut steps = Steps::new(20, 8);
            while steps.more() {
                match draw(8, "op") {
                    0..=4 => lock.with(|| {
                        let w = &mut *w.borrow_mut();
                        edit(&mut w.0, &mut w.1);
                        audit(&w.0, &w.1, "after edit");
                    }),
                    5..=6 => lock.with(|| {
                        let w = &*w.borrow();
                        query(&w.0, &w.1);
                    }),
                    _ => {
                        // a copy lives on while the original is edited, and the other way round
                        let copy = lock.with(|| w.borrow().clone());
                        probe("snapshot");
                        let (mut g, mut m) = copy;
                        if chance(1, 2, "edit-copy") {
                            yield_now("copy");
                            edit(&mut g, &mut m);
                        }
                        query(&g, &m);
                        kept.borrow_mut().push((g, m));
                    }
                }
            }
        }));
    }
    run_tasks(tasks);
    for (g, m) in kept.borrow().iter() {
        audit(g, m, "a copy at the end");
    }
    let w = w.borrow();
    audit(&w.0, &w.1, "end");
    query(&w.0, &w.1);
}
