//! C03: what a save acknowledged is what a later load gives, whatever happens in between; damaged
//! storage gives an error or values that are valid, never a panic.

use crate::c01_map::mutate;
use crate::gen::*;
use crate::world::*;
use rdftk_iri::{Iri, IriPrefixMap, IriRef, LocalName, Name, Namespace, PrefixedName};
use serde::{Deserialize, Serialize};
use simkit::*;
use std::cell::RefCell;
use std::rc::Rc;
use std::str::FromStr;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct Record {
    map: IriPrefixMap,
    refs: Vec<IriRef>,
    names: Vec<Name>,
    spaces: Vec<Namespace>,
    locals: Vec<LocalName>,
    pnames: Vec<PrefixedName>,
    iris: Vec<Iri>,
}

fn any_record() -> (Record, Model) {
    let (mut map, mut model) = initial();
    let mut s = Steps::new(8, 4);
    while s.more() {
        mutate(&mut map, &mut model);
    }
    let mut r = Record { map, refs: vec![], names: vec![], spaces: vec![], locals: vec![], pnames: vec![], iris: vec![] };
    let mut s = Steps::new(10, 4);
    while s.more() {
        match draw(7, "value") {
            0 => r.iris.push(any_iri()),
            1 => r.names.push(any_name().1),
            2 => r.spaces.push(any_prefix().1),
            3 => r.locals.push(any_local()),
            4 => r.pnames.push(if chance(1, 2, "kind") { any_local().into() } else { any_prefix().1.into() }),
            5 => r.refs.push(any_iri().into()),
            _ => r.refs.push(PrefixedName::from(any_local()).into()),
        }
    }
    (r, model)
}

/// Accessors and consumers must cope with every value that got in.
fn exercise(r: &Record, what: &str) {
    let valid_ns = |n: &Namespace| {
        let t = no_panic("loaded-invalid", what, || n.as_ref().to_string());
        check!(Namespace::is_valid_str(&t), "loaded-invalid", "{what}: loaded the invalid namespace {t:?}");
        no_panic("loaded-panics", what, || {
            let named = n.name_string().map(|s| format!("{s}:"));
            check!(named.unwrap_or(":".into()) == t, "loaded-invalid", "{what}: namespace {t:?} has another name");
            n.is_default()
        });
    };
    let valid_name = |n: &Name| {
        check!(Name::is_valid_str(n.as_ref()), "loaded-invalid", "{what}: loaded the invalid name {:?}", n.as_ref());
    };
    let valid_local = |l: &LocalName| {
        valid_ns(l.namespace());
        valid_name(l.name());
        let t = l.to_string();
        check!(LocalName::from_str(&t).ok().as_ref() == Some(l), "loaded-invalid", "{what}: {t:?} does not parse back");
    };
    let valid_p = |p: &PrefixedName| match p {
        PrefixedName::Namespace(n) => valid_ns(n),
        PrefixedName::Local(l) => valid_local(l),
    };
    let valid_iri = |i: &Iri| {
        let t = text(i);
        check!(Iri::from_str(&t).ok().as_ref() == Some(i), "loaded-invalid", "{what}: IRI {t:?} does not parse back to itself");
        no_panic("loaded-panics", &format!("{what}: using {t}"), || {
            let _ = (i.split(), i.namespace(), i.name(), i.looks_like_namespace(), r.map.compress(i));
        });
    };
    r.names.iter().for_each(valid_name);
    r.spaces.iter().for_each(valid_ns);
    r.locals.iter().for_each(valid_local);
    r.pnames.iter().for_each(valid_p);
    r.iris.iter().for_each(valid_iri);
    for x in &r.refs {
        match x {
            IriRef::Iri(i) => valid_iri(i),
            IriRef::PrefixedName(p) => valid_p(p),
        }
    }
    let mut m = Model::default();
    for (p, i) in r.map.mappings() {
        valid_ns(p);
        valid_iri(i);
        m.pairs.push((p.as_ref().to_string(), text(i)));
    }
    let mut one = Model::default();
    for (p, i) in &m.pairs {
        check!(one.ns(p).is_none() && one.prefix(i).is_none(), "loaded-invalid", "{what}: loaded map is not one-to-one: {:?}", m.pairs);
        one.pairs.push((p.clone(), i.clone()));
    }
    audit(&r.map, &m, what);
    for l in &r.locals {
        no_panic("loaded-panics", &format!("{what}: expand {l}"), || r.map.expand(l));
    }
    let _ = no_panic("loaded-panics", what, || format!("{}", r.map));
}

/// The same record as lines of text, through Display and FromStr.
fn to_text(r: &Record) -> String {
    let mut s = String::new();
    for (p, i) in r.map.mappings() {
        s.push_str(&format!("map {p} {i}\n"));
    }
    for i in &r.iris {
        s.push_str(&format!("iri {i}\n"));
    }
    for i in &r.iris {
        s.push_str(&format!("bare {i:#}\n"));
    }
    for n in &r.names {
        s.push_str(&format!("name {n}\n"));
    }
    for n in &r.spaces {
        s.push_str(&format!("space {n}\n"));
    }
    for n in &r.locals {
        s.push_str(&format!("local {n}\n"));
    }
    for n in &r.pnames {
        s.push_str(&format!("pname {n}\n"));
    }
    for n in &r.refs {
        s.push_str(&format!("ref {n}\n"));
    }
    s.push_str("end\n");
    s
}

fn parse_pname(t: &str) -> Option<PrefixedName> {
    if t.ends_with(':') {
        Namespace::from_str(t).ok().map(PrefixedName::Namespace)
    } else {
        LocalName::from_str(t).ok().map(PrefixedName::Local)
    }
}

fn from_text(s: &str) -> Option<Record> {
    let mut r = Record { map: IriPrefixMap::empty(), refs: vec![], names: vec![], spaces: vec![], locals: vec![], pnames: vec![], iris: vec![] };
    let mut bare = vec![];
    let mut ended = false;
    for l in s.lines() {
        if ended {
            return None;
        }
        if l == "end" {
            ended = true;
            continue;
        }
        let (k, t) = l.split_once(' ')?;
        match k {
            "map" => {
                let (p, i) = t.split_once(' ')?;
                r.map.insert(Namespace::from_str(p).ok()?, Iri::from_str(i).ok()?);
            }
            "iri" => r.iris.push(Iri::from_str(t).ok()?),
            "bare" => bare.push(Iri::from_str(t).ok()?),
            "name" => r.names.push(Name::from_str(t).ok()?),
            "space" => r.spaces.push(Namespace::from_str(t).ok()?),
            "local" => r.locals.push(LocalName::from_str(t).ok()?),
            "pname" => r.pnames.push(parse_pname(t)?),
            "ref" => r.refs.push(if t.starts_with('<') {
                IriRef::Iri(Iri::from_str(t).ok()?)
            } else {
                IriRef::PrefixedName(parse_pname(t)?)
            }),
            _ => return None,
        }
    }
    // the IRIs are there twice, with and without brackets
    (ended && bare == r.iris).then_some(r)
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Format {
    Json,
    Pretty,
    Text,
}

struct Store {
    disk: Disk,
    /// name -> last acknowledged record
    acked: Vec<(String, Format, Option<Record>)>,
    /// media damage was injected on this file since the last save
    damaged: Vec<bool>,
}

fn save(w: &mut Store, k: usize) {
    op();
    let (rec, model) = any_record();
    let plan = match draw(4, "device") {
        0 => Plan::perfect(),
        1 | 2 => Plan::benign(),
        _ => Plan::failing(600),
    };
    let sink = Sink::new("save", plan);
    let fmt = w.acked[k].1;
    let ok = match fmt {
        Format::Json => serde_json::to_writer(sink.clone(), &rec).is_ok(),
        Format::Pretty => serde_json::to_writer_pretty(sink.clone(), &rec).is_ok(),
        Format::Text => {
            use std::io::Write;
            let t = to_text(&rec);
            sink.clone().write_all(t.as_bytes()).is_ok()
        }
    };
    slog!("save {k} {fmt:?} -> {ok} {} bytes", sink.bytes().len());
    audit(&rec.map, &model, "after saving");
    check!(!(ok && sink.failed() && !sink.plan.transient), "false-success", "saving reported success on a failed device");
    let name = w.acked[k].0.clone();
    if ok && !sink.failed() {
        if chance(1, 4, "in-place") {
            // overwrite in place, crash before the sync reaches the disk
            w.disk.put(&name, sink.bytes());
            if chance(1, 2, "crash-now") {
                probe("crash");
                w.disk.power_loss();
                w.damaged[k] = true;
                return;
            }
            w.disk.sync(&name);
        } else {
            let tmp = format!("{name}.tmp");
            w.disk.put(&tmp, sink.bytes());
            w.disk.sync(&tmp);
            w.disk.rename(&tmp, &name);
        }
        probe("acked");
        w.acked[k].2 = Some(rec);
        w.damaged[k] = false;
    } else {
        probe("save-failed");
        w.disk.put(&format!("{name}.tmp"), sink.bytes());
    }
}

fn load(w: &Store, k: usize) {
    op();
    let (name, fmt, acked) = &w.acked[k];
    let Some(bytes) = w.disk.get(name) else {
        check!(acked.is_none() || w.damaged[k], "acked-lost", "{name} is gone");
        return;
    };
    let plan = if chance(1, 5, "faulty-read") { Plan::failing(bytes.len() + 1) } else { Plan::benign() };
    let src = Stream::new("load", bytes.clone(), plan);
    let how = draw(3, "load-how");
    let r: Result<Record, String> = no_panic("load-panic", &format!("loading {name}"), || match fmt {
        Format::Json | Format::Pretty => match how {
            0 => serde_json::from_reader(src.clone()).map_err(|e| e.to_string()),
            1 => serde_json::from_slice(&bytes).map_err(|e| e.to_string()),
            _ => serde_json::from_slice::<serde_json::Value>(&bytes)
                .and_then(serde_json::from_value)
                .map_err(|e| e.to_string()),
        },
        Format::Text => {
            use std::io::Read;
            let mut s = String::new();
            match src.clone().read_to_string(&mut s) {
                Ok(_) => from_text(&s).ok_or("text".into()),
                Err(e) => Err(e.to_string()),
            }
        }
    });
    slog!("load {k} {fmt:?} -> {}", r.is_ok());
    match r {
        Ok(rec) => {
            exercise(&rec, "loaded");
            if w.damaged[k] {
                probe("restored-corrupt");
            } else {
                probe("restored");
                match acked {
                    Some(a) => check!(rec == *a, "not-equal", "loaded {rec:?}\nsaved {a:?}"),
                    None => violation("acked-lost", format!("{name} holds a record nobody saved")),
                }
            }
        }
        Err(e) => {
            probe("rejected");
            check!(
                w.damaged[k] || src.failed(),
                "acked-lost",
                "{name} was saved and acknowledged but does not load: {e}; content {:?}",
                String::from_utf8_lossy(&bytes)
            );
        }
    }
}

pub fn scenario() {
    let files = range(1, 3, "files") as usize;
    let mut acked = vec![];
    for k in 0..files {
        acked.push((format!("f{k}"), *pick(&[Format::Json, Format::Text, Format::Pretty], "format"), None));
    }
    let w = Rc::new(RefCell::new(Store { disk: Disk::new(), acked, damaged: vec![false; files] }));
    set_switch_den(*pick(&[0u64, 4, 2], "switch-den"));
    preemptible();
    let media_damage = chance(1, 2, "media-damage");
    let lock = Rc::new(SimLock::new());
    let mut tasks: Vec<Box<dyn FnOnce()>> = vec![];
    for _ in 0..range(1, 3, "callers") {
        let (w, lock) = (w.clone(), lock.clone());
        tasks.push(Box::new(move || {
            let mut steps = Steps::new(12, 6);
            while steps.more() {
                lock.with(|| {
                    let mut w = w.borrow_mut();
                    let k = draw_usize(w.acked.len(), "file");
                    match draw(8, "op") {
                        0..=2 => save(&mut w, k),
                        3..=5 => load(&w, k),
                        6 => {
                            w.disk.power_loss();
                            op();
                        }
                        _ => {
                            if media_damage {
                                let name = w.acked[k].0.clone();
                                if let Some(mut b) = w.disk.get(&name) {
                                    if chance(1, 3, "structured") {
                                        swap_text(&mut b);
                                    } else {
                                        corrupt(&mut b, 3);
                                    }
                                    slog!("damage {k}");
                                    w.disk.put(&name, b);
                                    w.disk.sync(&name);
                                    w.damaged[k] = true;
                                }
                                load(&w, k);
                            }
                        }
                    }
                });
            }
        }));
    }
    run_tasks(tasks);
    let w = w.borrow();
    for k in 0..w.acked.len() {
        load(&w, k);
    }
}

/// A stored string is overwritten by another string of the same file format: damage that leaves
/// the syntax of the file intact, such as a stale or misdirected block.
fn swap_text(b: &mut Vec<u8>) {
    let Ok(s) = String::from_utf8(b.clone()) else { return };
    let from = *pick(&["rdf:", "a:", ":", "https://e.org/a#", "x", "Bag", "owl:", "b:", "type"], "from");
    let to = *pick(&["rdf", "", "a b:", "::", "0:", "x.", "not an iri", "a:b", "é", "-", "b:", "https://e.org/b#", "a.:"], "to");
    let q = |t: &str| format!("\"{t}\"");
    let n = s.replacen(&q(from), &q(to), 1 + draw_usize(2, "times"));
    if n != s {
        fault("misdirected-write");
        *b = n.into_bytes();
    }
}
