//! C01: the prefix map stays a two-way mapping and is exactly the history of its bindings.

use crate::gen::*;
use crate::world::*;
use rdftk_iri::{vocab, IriPrefixMap, Namespace, Vocabulary};
use simkit::*;
use std::cell::RefCell;
use std::fmt::Write as _;
use std::rc::Rc;

pub const VOCABS: &[Vocabulary] = &[
    vocab::VOCABULARY_RDF,
    vocab::VOCABULARY_RDF_SCHEMA,
    vocab::VOCABULARY_OWL,
    vocab::VOCABULARY_FOAF,
    vocab::VOCABULARY_XML_SCHEMA,
    Vocabulary::new("a", "https://e.org/a#"),
    Vocabulary::new("foaf", "https://e.org/b#"),
    Vocabulary::new("zz", "http://www.w3.org/1999/02/22-rdf-syntax-ns#"),
];

struct Shared {
    map: IriPrefixMap,
    model: Model,
    copies: Vec<(IriPrefixMap, Model)>,
    disk: Disk,
    /// What the last acknowledged save held.
    saved: Option<Model>,
}

/// One mutation, applied to a map and its model.
pub fn mutate(map: &mut IriPrefixMap, model: &mut Model) {
    op();
    match draw(10, "mutation") {
        9 => {
            if chance(1, 6, "bulk") {
                let n = dict::size(70, "bulk-size");
                slog!("insert {n} more");
                for k in 0..n {
                    let (p, i) = (format!("p{k}:"), format!("https://e.org/n{k}#"));
                    map.insert(ns(&p), iri(&i));
                    model.bind(&p, &i);
                }
            }
        }
        0 | 1 => {
            let (pt, p) = any_prefix();
            let (it, i) = any_namespace_iri();
            slog!("insert {pt} {it}");
            map.insert(p, i);
            model.bind(&pt, &it);
        }
        2 => {
            let (pt, p) = any_prefix();
            slog!("remove {pt}");
            map.remove(&p);
            model.unbind(&pt);
        }
        3 => {
            let (it, i) = any_namespace_iri();
            slog!("set-default {it}");
            map.set_default_namespace(i);
            model.bind(":", &it);
        }
        4 => {
            slog!("remove-default");
            map.remove_default_namespace();
            model.unbind(":");
        }
        5 => {
            let v = pick(VOCABS, "vocab");
            slog!("insert-vocabulary {} {}", v.prefix(), v.iri());
            map.insert_vocabulary(v);
            model.bind(&format!("{}:", v.prefix()), v.iri());
        }
        6 => {
            // the builders take the map by value
            let taken = std::mem::replace(map, IriPrefixMap::empty());
            *map = match draw(3, "builder") {
                0 => {
                    let (pt, p) = any_prefix();
                    let (it, i) = any_namespace_iri();
                    slog!("with {pt} {it}");
                    model.bind(&pt, &it);
                    taken.with(p, i)
                }
                1 => {
                    let (it, i) = any_namespace_iri();
                    slog!("with-default {it}");
                    model.bind(":", &it);
                    taken.with_default(i)
                }
                _ => {
                    let v = pick(VOCABS, "vocab");
                    slog!("with-vocabulary {} {}", v.prefix(), v.iri());
                    model.bind(&format!("{}:", v.prefix()), v.iri());
                    taken.with_vocabulary(v)
                }
            };
        }
        7 => {
            // rebind what is there: same prefix to another namespace, or the reverse
            if let Some((p, i)) = model.pairs.get(draw_usize(model.pairs.len().max(1), "which")).cloned() {
                if chance(1, 2, "side") {
                    let (it, iv) = any_namespace_iri();
                    slog!("rebind prefix {p} to {it}");
                    map.insert(Namespace::new_unchecked(p.clone()), iv);
                    model.bind(&p, &it);
                } else {
                    let (pt, pv) = any_prefix();
                    slog!("rebind namespace {i} to {pt}");
                    map.insert(pv, iri(&i));
                    model.bind(&pt, &i);
                }
            }
        }
        _ => {
            if chance(1, 4, "clear") {
                slog!("clear");
                map.clear();
                model.pairs.clear();
            }
        }
    }
}

fn step(w: &mut Shared) {
    match draw(12, "op") {
        0..=4 => {
            mutate(&mut w.map, &mut w.model);
            audit(&w.map, &w.model, "after a mutation");
        }
        5 => {
            let (pt, _) = any_prefix();
            let (it, _) = any_namespace_iri();
            slog!("lookup {pt} {it}");
            op();
            lookup(&w.map, &w.model, &pt, &it, "lookup");
        }
        6 => {
            slog!("copy");
            op();
            let c = w.map.clone();
            check!(c == w.map, "copy", "a fresh copy differs from its original");
            w.copies.push((c, w.model.clone()));
        }
        7 => {
            if !w.copies.is_empty() {
                let k = draw_usize(w.copies.len(), "copy");
                slog!("mutate copy {k}");
                let (m, md) = &mut w.copies[k];
                mutate(m, md);
                probe("snapshot-diverged");
            }
        }
        8 => {
            // same bindings, another history: equal maps
            op();
            let mut other = IriPrefixMap::empty();
            let mut pairs = w.model.pairs.clone();
            if chance(1, 2, "reverse") {
                pairs.reverse();
            }
            for (p, i) in &pairs {
                other.insert(ns(p), iri(i));
            }
            slog!("compare with a rebuilt map");
            check!(other == w.map, "equality", "maps with the same bindings differ: {:?}", w.model.pairs);
            if !w.model.pairs.is_empty() {
                let (p, _) = w.model.pairs[draw_usize(w.model.pairs.len(), "drop")].clone();
                other.remove(&ns(&p));
                check!(other != w.map, "equality", "maps with different bindings are equal");
            }
        }
        9 => {
            // rendering to a sink that may fail leaves the map as it was
            op();
            let fail = if chance(1, 2, "fails") { Some(draw_usize(200, "fail-at")) } else { None };
            let mut sink = CharSink::new(fail, false);
            let r = write!(sink, "{}", w.map);
            slog!("render -> {}", r.is_ok());
            audit(&w.map, &w.model, "after rendering");
        }
        10 => {
            op();
            let sink = Sink::new("save", if chance(1, 3, "faulty") { Plan::failing(300) } else { Plan::benign() });
            let r = serde_json::to_writer(sink.clone(), &w.map);
            slog!("save -> {}", r.is_ok());
            if r.is_ok() && !sink.failed() {
                w.disk.put("map.tmp", sink.bytes());
                w.disk.sync("map.tmp");
                w.disk.rename("map.tmp", "map");
                w.saved = Some(w.model.clone());
            } else {
                w.disk.put("map.tmp", sink.bytes());
            }
            audit(&w.map, &w.model, "after saving");
        }
        _ => {
            if chance(1, 2, "restart") {
                w.disk.power_loss();
                probe("restart");
                op();
                match (w.disk.get("map"), &w.saved) {
                    (Some(bytes), Some(saved)) => {
                        let r: Result<IriPrefixMap, _> = serde_json::from_reader(Stream::new("load", bytes, Plan::benign()));
                        slog!("restart -> {}", r.is_ok());
                        match r {
                            Ok(m) => {
                                w.map = m;
                                w.model = saved.clone();
                            }
                            Err(e) => violation("acked-lost", format!("saved map does not load: {e}")),
                        }
                    }
                    _ => {
                        slog!("restart empty");
                        w.map = IriPrefixMap::empty();
                        w.model = Model::default();
                    }
                }
                audit(&w.map, &w.model, "after a restart");
            }
        }
    }
    for (k, (m, md)) in w.copies.iter().enumerate() {
        if chance(1, 4, "check-copy") {
            audit(m, md, &format!("copy {k}"));
        }
    }
}

pub fn scenario() {
    let (map, model) = initial();
    let w = Rc::new(RefCell::new(Shared { map, model, copies: vec![], disk: Disk::new(), saved: None }));
    let lock = Rc::new(SimLock::new());
    let callers = range(1, 4, "callers");
    set_switch_den(*pick(&[4u64, 1, 2, 16], "switch-den"));
    preemptible();
    let mut tasks: Vec<Box<dyn FnOnce()>> = vec![];
    for _ in 0..callers {
        let (w, lock) = (w.clone(), lock.clone());
        tasks.push(Box::new(move || {
            let mut steps = Steps::new(24, 10);
            while steps.more() {
                lock.with(|| step(&mut w.borrow_mut()));
            }
        }));
    }
    run_tasks(tasks);
    let w = w.borrow();
    audit(&w.map, &w.model, "end");
    for (k, (m, md)) in w.copies.iter().enumerate() {
        audit(m, md, &format!("copy {k} at the end"));
    }
}
