//! A store of documents on the simulated disk, as its users keep them: written to a temporary
//! file, synced and renamed; read back by this process or a later one. The observer knows, across
//! crashes, what was acknowledged.

use crate::fmt::Fmt;
use crate::gen::*;
use simkit::*;

/// What a document may hold: graphs by name.
pub type Doc = Vec<(Option<T>, Vec<S>)>;

/// The observer's record of one file: the acknowledged document and one that may be there instead.
#[derive(Clone, Default)]
pub struct Known {
    pub acked: Option<Doc>,
    pub pending: Option<Doc>,
}

fn to_text(t: &T) -> serde_json::Value {
    match t {
        T::Iri(i) => serde_json::json!({ "i": i }),
        T::Blank(b) => serde_json::json!({ "b": b }),
        T::Lit { v, dt, lang } => serde_json::json!({ "v": v, "d": dt, "l": lang }),
        T::Stmt(s) => serde_json::json!({ "s": [to_text(&s.s), s.p, to_text(&s.o)] }),
        T::Coll(c) => serde_json::json!({ "c": c.iter().map(to_text).collect::<Vec<_>>() }),
    }
}

fn of_text(v: &serde_json::Value) -> T {
    let text = |v: &serde_json::Value| v.as_str().map(String::from);
    if let Some(i) = v["i"].as_str() {
        T::iri(i)
    } else if let Some(b) = v["b"].as_str() {
        T::blank(b)
    } else if let Some(x) = v["v"].as_str() {
        T::Lit { v: x.into(), dt: text(&v["d"]), lang: text(&v["l"]) }
    } else if let Some(s) = v["s"].as_array() {
        T::Stmt(Box::new(S { s: of_text(&s[0]), p: text(&s[1]).unwrap(), o: of_text(&s[2]) }))
    } else {
        T::Coll(v["c"].as_array().unwrap().iter().map(of_text).collect())
    }
}

fn doc_text(d: &Option<Doc>) -> serde_json::Value {
    match d {
        None => serde_json::Value::Null,
        Some(d) => d
            .iter()
            .map(|(n, s)| {
                let items: Vec<_> = s.iter().map(|s| to_text(&T::Stmt(Box::new(s.clone())))).collect();
                serde_json::json!([n.as_ref().map(to_text), items])
            })
            .collect(),
    }
}

fn doc_of(v: &serde_json::Value) -> Option<Doc> {
    let item = |v: &serde_json::Value| match of_text(v) {
        T::Stmt(s) => *s,
        _ => unreachable!(),
    };
    v.as_array().map(|d| {
        d.iter()
            .map(|g| ((!g[0].is_null()).then(|| of_text(&g[0])), g[1].as_array().unwrap().iter().map(item).collect()))
            .collect()
    })
}

fn note_name(file: &str) -> String {
    format!("observer/{file}")
}

pub fn known(file: &str) -> Known {
    let b = Disk.get(&note_name(file)).unwrap_or_default();
    let v: serde_json::Value = serde_json::from_slice(&b).unwrap_or_default();
    Known { acked: doc_of(&v["acked"]), pending: doc_of(&v["pending"]) }
}

fn remember(file: &str, k: &Known) {
    let v = serde_json::json!({ "acked": doc_text(&k.acked), "pending": doc_text(&k.pending) });
    Disk.put_durable(&note_name(file), v.to_string().into_bytes());
}

/// Saves by `write` into the file; true when it was acknowledged. `in_place` overwrites the file
/// itself, without a sync, as careless programs do: then anything may be there after a crash.
pub fn save(file: &str, tmp: &str, doc: &Doc, plan: Plan, write: impl FnOnce(&mut FileSink) -> Result<(), String>) -> bool {
    let mut f = FileSink::create(tmp, plan);
    let r = write(&mut f);
    match r {
        Ok(()) => {
            check!(!f.failed() || f.sink.plan.transient, "false-success", "saving {file} succeeded on a device that failed");
            check!(!f.failed(), "false-success", "saving {file} succeeded though a write had failed");
            Disk.sync(tmp);
            // from here on either may be there
            let mut k = known(file);
            k.pending = Some(doc.clone());
            remember(file, &k);
            Disk.rename(tmp, file);
            remember(file, &Known { acked: Some(doc.clone()), pending: None });
            probe("saved");
            true
        }
        Err(e) => {
            check!(f.failed(), "refused", "saving {doc:?} as {file} on a working device: {e}");
            probe("save-failed");
            false
        }
    }
}

/// The format of a file name.
pub fn format_of(file: &str) -> Fmt {
    match file.rsplit('.').next() {
        Some("nt") => Fmt::Nt,
        Some("nq") => Fmt::Nq,
        Some("json") => Fmt::Json,
        _ => Fmt::Xml,
    }
}
