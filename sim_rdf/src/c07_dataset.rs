//! C07: a data set is the map from names to graphs its history made it.

use crate::c06_graph::{self, Model};
use crate::gen::*;
use rdftk_core::model::data_set::DataSet;
use rdftk_core::model::graph::{Graph, GraphName};
use simkit::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

type Key = Option<T>;

#[derive(Clone)]
struct World {
    set: DataSet,
    model: BTreeMap<Key, Model>,
}

fn any_key() -> Key {
    match draw(6, "graph-name") {
        0 => None,
        1..=3 => Some(T::Iri(pick(&IRIS[..3], "name-iri").to_string())),
        _ => Some(T::Blank(pick(&["b0", "g"], "name-blank").to_string())),
    }
}

fn real(k: &Key) -> Option<GraphName> {
    k.as_ref().map(graph_name)
}

fn audit(w: &World, what: &str) {
    let (d, m) = (&w.set, &w.model);
    check!(d.len() == m.len() && d.is_empty() == m.is_empty(), "size", "{what}: len {} of {}", d.len(), m.len());
    check!(d.graphs().count() == m.len(), "size", "{what}: {} graphs of {}", d.graphs().count(), m.len());
    check!(d.has_default_graph() == m.contains_key(&None), "default", "{what}: has_default_graph {}", d.has_default_graph());
    check!(d.default_graph().is_some() == m.contains_key(&None), "default", "{what}: default_graph");
    let mut all: Vec<Vec<S>> = d.graphs().map(|g| c06_graph::sorted(of_graph(g))).collect();
    all.sort();
    let mut want: Vec<Vec<S>> = m.values().map(|x| c06_graph::sorted(x.items.clone())).collect();
    want.sort();
    check!(all == want, "content", "{what}: the graphs are {all:?}, expected {want:?}");
    for (k, gm) in m {
        let Some(g) = d.graph(&real(k)) else { violation("missing", format!("{what}: no graph {k:?}")) };
        c06_graph::audit(g, gm, what);
    }
    for k in [None, Some(T::iri(IRIS[0])), Some(T::iri(IRIS[1])), Some(T::iri(IRIS[2])), Some(T::blank("b0")), Some(T::blank("g"))] {
        let has = m.contains_key(&k);
        check!(d.contains_graph(&real(&k)) == has && d.graph(&real(&k)).is_some() == has, "lookup", "{what}: contains_graph {k:?} is {}", !has);
        if let Some(n) = real(&k) {
            check!(d.has_graph_named(&n) == has && d.graph_named(&n).is_some() == has, "lookup", "{what}: has_graph_named {k:?} is {}", !has);
        }
    }
}

fn any_named() -> (Graph, Model) {
    let (mut g, mut m) = c06_graph::initial();
    let k = any_key();
    match &k {
        Some(n) => g.set_name(graph_name(n)),
        None => g.unset_name(),
    }
    m.name = k;
    (g, m)
}

fn step(w: &mut World) {
    op();
    match draw(10, "op") {
        0..=2 => {
            let (g, m) = any_named();
            slog!("insert graph {:?} of {}", m.name, m.items.len());
            if w.model.contains_key(&m.name) {
                probe("replaced");
            }
            w.set.insert(g);
            w.model.insert(m.name.clone(), m);
        }
        3 => {
            let n = range(0, 3, "graphs");
            let many: Vec<(Graph, Model)> = (0..n).map(|_| any_named()).collect();
            slog!("extend by {:?}", many.iter().map(|x| x.1.name.clone()).collect::<Vec<_>>());
            w.set.extend(many.iter().map(|x| x.0.clone()).collect());
            for (_, m) in many {
                w.model.insert(m.name.clone(), m);
            }
        }
        4 => {
            let k = any_key();
            slog!("remove {k:?}");
            if w.model.remove(&k).is_some() {
                probe("removed");
            }
            w.set.remove(&real(&k));
        }
        5 => {
            if chance(1, 4, "really") {
                slog!("clear");
                w.set.clear();
                w.model.clear();
            }
        }
        6 => {
            // rebuilt from its graphs, as a loader does
            if w.model.iter().all(|(k, m)| *k == m.name) {
                let mut graphs: Vec<Graph> = w.set.graphs().cloned().collect();
                // and of others, which may have the name of one before them
                for _ in 0..range(0, 3, "more") {
                    let (g, m) = any_named();
                    graphs.push(g);
                    w.model.insert(m.name.clone(), m);
                }
                slog!("rebuild from {:?}", graphs.iter().map(|g| g.name()).collect::<Vec<_>>());
                w.set = match draw(3, "how") {
                    0 => graphs.into_iter().collect(),
                    1 => DataSet::from(graphs),
                    _ => DataSet::from(graphs.into_iter().map(|g| (g.name().cloned(), g)).collect::<HashMap<_, _>>()),
                };
                probe("rebuilt");
            }
        }
        _ => {
            let k = any_key();
            slog!("edit graph {k:?}");
            match (w.set.graph_mut(&real(&k)), w.model.get_mut(&k)) {
                (Some(g), Some(m)) => {
                    c06_graph::edit(g, m);
                    probe("edited-in-place");
                    if m.name != k {
                        probe("renamed-in-place");
                    }
                }
                (None, None) => {}
                (a, _) => violation("lookup", format!("graph_mut {k:?} is {}", a.is_some())),
            }
        }
    }
}

pub fn scenario() {
    set_switch_den(*pick(&[4u64, 1, 2, 16], "switch-den"));
    preemptible();
    let mut w = World { set: DataSet::default(), model: BTreeMap::new() };
    if chance(1, 2, "initial") {
        let (g, m) = any_named();
        w.set = DataSet::from(g);
        w.model.insert(m.name.clone(), m);
    }
    audit(&w, "start");
    let w = Rc::new(RefCell::new(w));
    let kept: Rc<RefCell<Vec<World>>> = Default::default();
    let lock = Rc::new(SimLock::new());
    let callers = range(1, 3, "callers");
    let mut tasks: Vec<Box<dyn FnOnce()>> = vec![];
    for _ in 0..callers {
        let (w, lock, kept) = (w.clone(), lock.clone(), kept.clone());
        tasks.push(Box::new(move || {
            let mut steps = Steps::new(12, 5);
            while steps.more() {
                if chance(1, 6, "copy") {
                    let mut copy = lock.with(|| w.borrow().clone());
                    probe("snapshot");
                    yield_now("copy");
                    step(&mut copy);
                    kept.borrow_mut().push(copy);
                } else {
                    lock.with(|| {
                        let mut w = w.borrow_mut();
                        step(&mut w);
                        audit(&w, "after step");
                    });
                }
            }
        }));
    }
    run_tasks(tasks);
    kept.borrow().iter().for_each(|c| audit(c, "a copy at the end"));
    audit(&w.borrow(), "end");
}
