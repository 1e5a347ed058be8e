//! C12, C13, C14: N-Triples and N-Quads, RDF/JSON and RDF/XML keep every graph, through files,
//! crashes and other processes.

use crate::fmt::{self, quads, Fmt, Writer};
use crate::gen::*;
use crate::store::{self, Doc};
use crate::{iso, rdfxml, ttl};
use rdftk_core::model::data_set::DataSet;
use rdftk_io::nq::NQuadWriter;
use sim_calls::Writes;
use simkit::*;

pub const SHAPE: Shape = Shape { max: 12, mean: 4, ..Shape::FULL };

fn any_name() -> Option<T> {
    match draw(4, "graph-name") {
        0 => None,
        1 => Some(any_blank()),
        _ => Some(T::Iri(any_iri_text())),
    }
}

pub fn data_set() -> (DataSet, Doc) {
    let mut d = DataSet::default();
    let mut doc: Doc = vec![];
    let most = if chance(1, 6, "many-graphs") { 8 } else { 3 };
    // graphs have blank nodes in common
    let common = chance(1, 4, "common-blanks");
    for _ in 0..range(0, most, "graphs") {
        let name = any_name();
        if doc.iter().any(|(n, _)| *n == name) {
            continue;
        }
        let shape = Shape { max: 8, mean: 3, ..Shape::FULL };
        let (mut g, items) = if common {
            let items = crate::c20_turtle::items(&Shape { max: 3, mean: 1, ..shape });
            (build(&items, chance(1, 2, "unique")), items)
        } else {
            any_graph(&shape)
        };
        if let Some(n) = &name {
            g.set_name(graph_name(n));
        }
        d.insert(g);
        doc.push((name, items));
    }
    (d, doc)
}

fn save(file: &str, tmp: &str) {
    op();
    let plan = match draw(3, "device") {
        0 => Plan::perfect(),
        1 => Plan::benign(),
        _ => Plan::failing(600),
    };
    let fmt = store::format_of(file);
    if fmt == Fmt::Nq && chance(1, 2, "data-set") {
        let (d, doc) = data_set();
        slog!("save {file} {doc:?}");
        if store::save(file, tmp, &doc, plan, |f| NQuadWriter::default().write_to(f, &d).map_err(|e| e.to_string())) {
            probe("quads");
        }
        check!(d.len() == doc.len(), "changed", "saving changed the data set");
        return;
    }
    let (g, mut items) = any_graph(&SHAPE);
    let (mut g, mappings) = (g.clone(), g.prefix_mappings().clone());
    if fmt == Fmt::Xml {
        // RDF/XML cannot name every property nor hold every character
        items.retain(fmt::xml_can);
        g = build(&items, true);
        g.set_prefix_mappings(mappings);
    }
    let mut name = None;
    if fmt == Fmt::Nq {
        name = any_name();
        if let Some(n) = &name {
            g.set_name(graph_name(n));
        }
    }
    let doc = vec![(name, items)];
    let before = of_graph(&g);
    let w = Writer::of(fmt);
    slog!("save {file} by {} {doc:?}", w.name());
    store::save(file, tmp, &doc, plan, |f| w.write(f, &g).map_err(|e| e.to_string()));
    check!(of_graph(&g) == before, "changed", "saving changed the graph");
}

pub fn parse(file: &str, bytes: &[u8]) -> Result<Doc, String> {
    let text = std::str::from_utf8(bytes).map_err(|e| e.to_string())?;
    if store::format_of(file) == Fmt::Nq {
        let mut doc: Doc = vec![];
        for (s, n) in ttl::nquads(text)? {
            match doc.iter_mut().find(|(m, _)| *m == n) {
                Some((_, v)) => v.push(s),
                None => doc.push((n, vec![s])),
            }
        }
        Ok(doc)
    } else {
        Ok(vec![(
            None,
            match store::format_of(file) {
                Fmt::Json => fmt::json(text)?,
                Fmt::Xml => rdfxml::parse(text)?,
                _ => ttl::ntriples(text)?,
            },
        )])
    }
}

fn load(file: &str) {
    op();
    let k = store::known(file);
    let Some(bytes) = Disk.get(file) else {
        check!(k.acked.is_none(), "lost", "{file} is not there any more");
        return;
    };
    let wanted: Vec<G> = [&k.acked, &k.pending].into_iter().flatten().map(|d| quads(d, u32::MAX)).collect();
    let matches = |doc: &Doc| {
        let got = quads(doc, u32::MAX);
        wanted.iter().any(|w| iso::same(w, &got))
    };
    let differ = |doc: &Doc| wanted.iter().map(|w| iso::difference(w, &quads(doc, u32::MAX))).collect::<Vec<_>>().join(" || ");
    // The document itself is valid and says what was saved ...
    match parse(file, &bytes) {
        Ok(doc) => check!(matches(&doc), "document", "{file} does not say what was saved: {}\n{}", differ(&doc), String::from_utf8_lossy(&bytes)),
        Err(e) => violation("document", format!("{file} is not a valid document: {e}")),
    }
    // ... and so does what the library reads.
    let mut r = Stream::new("load", bytes, Plan::benign());
    match fmt::read(store::format_of(file), &mut r) {
        Ok(doc) => {
            check!(matches(&doc), "round-trip", "{file} read back: {}", differ(&doc));
            probe("loaded");
        }
        Err(e) => violation("round-trip", format!("{file} cannot be read back: {e}")),
    }
}

/// Files and the names they are written under first.
type Files = &'static [(&'static str, &'static str)];

fn lifetime(files: Files) {
    set_switch_den(*pick(&[4u64, 1, 2, 16], "switch-den"));
    preemptible();
    let callers = range(1, files.len() as u64, "callers");
    let mut tasks: Vec<Box<dyn FnOnce()>> = vec![];
    for c in 0..callers {
        tasks.push(Box::new(move || {
            let mut steps = Steps::new(5, 3);
            while steps.more() {
                // each caller writes one file and reads them all
                let (file, tmp) = files[c as usize];
                if chance(1, 2, "load") {
                    load(pick(files, "which").0);
                } else {
                    save(file, tmp);
                }
            }
        }));
    }
    run_tasks(tasks);
}

fn scenario_of(files: Files) {
    let lives = range(1, 3, "lives");
    for n in 0..lives {
        let crash = *pick(&[0u64, 0, 200, 40], "crash-den");
        let end = process(&format!("p{n}"), crash, || lifetime(files));
        if n > 0 {
            probe("restarted");
        }
        if end == End::Crashed && chance(1, 2, "power") {
            Disk.power_loss();
        }
    }
    process("last", 0, || {
        for (f, _) in files {
            load(f);
        }
    });
}

pub fn lines() {
    scenario_of(&[("a.nt", "a.tmp"), ("b.nq", "b.tmp"), ("c.nt", "c.tmp")]);
}

pub fn json() {
    scenario_of(&[("a.json", "a.tmp"), ("b.json", "b.tmp"), ("c.json", "c.tmp")]);
}

pub fn xml() {
    scenario_of(&[("a.xml", "a.tmp"), ("b.xml", "b.tmp"), ("c.xml", "c.tmp")]);
}
