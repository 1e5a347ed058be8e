//! C16, C17: a document that was cut short, torn or corrupted.

use crate::fmt::{self, Fmt, READABLE};
use crate::gen::*;
use crate::spell::*;
use crate::ttl;
use rdftk_core::model::literal::LanguageTag;
use simkit::*;
use std::str::FromStr;

/// Everything that is in the graphs is what the document says, with its own names.
fn within(got: &Doc, doc: &Doc) -> Result<(), String> {
    for (n, v) in got {
        let whole = doc.iter().find(|(m, _)| m == n);
        for s in v {
            if !whole.is_some_and(|(_, w)| w.contains(s)) {
                return Err(format!("{s:?} in graph {n:?}"));
            }
        }
    }
    Ok(())
}

/// A crash cuts the file somewhere, or leaves the tail of it unwritten.
fn torn(fmt: Fmt, file: &str) {
    op();
    let (bytes, doc) = any_document(fmt);
    let at = if chance(1, 3, "near-end") { bytes.len() - draw_usize(bytes.len().min(40) + 1, "from-end") } else { draw_usize(bytes.len() + 1, "at") };
    // (a loss of power is one for all callers: nothing else happens until the file is what it will be)
    let left = atomically(|| {
        Disk.put(file, bytes[..at].to_vec());
        Disk.sync(file);
        match draw(4, "tail") {
            0 => {
                let mut b = bytes[..at].to_vec();
                b.resize(bytes.len(), 0);
                fault("zeroed-tail");
                Disk.put(file, b);
            }
            1 => {
                Disk.put(file, bytes.clone());
                Disk.power_loss();
            }
            _ => fault("truncated-file"),
        }
        Disk.get(file).unwrap_or_default()
    });
    let cut = left != bytes;
    slog!("{fmt:?} {} of {} bytes", left.len(), bytes.len());
    let shown = || String::from_utf8_lossy(&left).into_owned();
    let mut r = Stream::new("in", left.clone(), Plan::benign());
    match fmt::read(fmt, &mut r) {
        Ok(got) if matches!(fmt, Fmt::Nt | Fmt::Nq) => {
            // What is left of the last line can be a statement: `_:a.b` cut to `_:a.` is.
            let mut doc = doc.clone();
            let text = String::from_utf8_lossy(&left).into_owned();
            for (s, n) in text.rsplit('\n').next().and_then(|l| ttl::nquads(l).ok()).unwrap_or_default() {
                match doc.iter_mut().find(|(m, _)| *m == n) {
                    Some((_, v)) => v.push(s),
                    None => doc.push((n, vec![s])),
                }
            }
            if let Err(e) = within(&got, &doc) {
                violation("fabricated", format!("{fmt:?}: {e} came out of {:?} cut from {:?}", shown(), String::from_utf8_lossy(&bytes)));
            }
            // every complete line is there
            let end = left.iter().rposition(|b| *b == b'\n').map_or(0, |i| i + 1);
            let complete = ttl::nquads(&String::from_utf8_lossy(&left[..end])).map_or(0, |v| v.into_iter().collect::<std::collections::BTreeSet<_>>().len());
            let n: usize = got.iter().map(|(_, v)| v.iter().collect::<std::collections::BTreeSet<_>>().len()).sum();
            check!(n >= complete, "lost", "{fmt:?}: {n} statements of {complete} complete lines {:?}", shown());
            probe(if cut { "read-part" } else { "read-whole" });
        }
        // the other formats have an end, without which there is no document
        Ok(got) => match same_documents(&doc, &got) {
            Ok(()) => probe("read-whole"),
            Err(e) => violation("fabricated", format!("{fmt:?}: {e} came out of {:?}", shown())),
        },
        Err(e) => {
            check!(cut, "false-failure", "{fmt:?}: {e} for {:?}", shown());
            probe("refused");
        }
    }
}

pub fn cut() {
    tasks(torn);
}

/// The library keeps these as they are written.
fn canonical(t: &T) -> bool {
    let same = |i: &str| rdftk_iri::Iri::from_str(i).is_ok_and(|n| iri_text(&n) == i);
    match t {
        T::Iri(i) => same(i),
        T::Lit { dt: Some(d), .. } => same(d),
        T::Lit { lang: Some(l), .. } => LanguageTag::from_str(l).is_ok_and(|n| n.to_string() == *l),
        _ => true,
    }
}

fn beyond_rfc3987(t: &T) -> bool {
    let bad = |i: &str| i.chars().any(|c| c <= ' ' || "<>\"{}|\\^`".contains(c));
    match t {
        T::Iri(i) => bad(i),
        T::Lit { dt: Some(d), .. } => bad(d),
        _ => false,
    }
}

/// The media changed some bytes.
fn corrupted(fmt: Fmt, _file: &str) {
    op();
    let (mut bytes, _) = any_document(fmt);
    let before = bytes.clone();
    corrupt(&mut bytes, 3);
    let changed = bytes != before;
    slog!("{fmt:?} {} bytes, changed: {changed}", bytes.len());
    let shown = String::from_utf8_lossy(&bytes).into_owned();
    let mut r = Stream::new("in", bytes.clone(), Plan::benign());
    let got = match fmt::read(fmt, &mut r) {
        Ok(got) => got,
        Err(e) => {
            check!(changed, "false-failure", "{fmt:?}: {e} for {shown:?}");
            let _ = format!("{e} {e:?}");
            probe("refused");
            return;
        }
    };
    probe("accepted");
    // What was accepted is made of valid values ...
    for (n, v) in &got {
        // (the Iri type, by way of the url crate, takes some characters RFC 3987 has not; they
        // have no form in N-Triples)
        if n.iter().chain(v.iter().flat_map(|s| [&s.s, &s.o])).any(beyond_rfc3987) || v.iter().any(|s| beyond_rfc3987(&T::iri(&s.p))) {
            probe("not-an-iri");
            continue;
        }
        let g = no_panic("invalid-value", "rebuilding what was read", || build(v, true));
        check!(g.len() == v.iter().collect::<std::collections::BTreeSet<_>>().len(), "invalid-value", "{fmt:?}: {v:?} of {n:?} rebuilt as {:?}", of_graph(&g));
        // ... that can be stored and read again.
        let w = fmt::Writer::of(Fmt::Nt);
        let out = Sink::new("out", Plan::perfect());
        if let Err(e) = w.write(&mut out.clone(), &g) {
            violation("invalid-value", format!("{fmt:?}: what was read from {shown:?} cannot be written: {e}"));
        }
        if let Err(e) = w.check_document(&out.bytes(), v, &g) {
            violation("invalid-value", format!("{fmt:?}: what was read from {shown:?} is written wrongly: {e}"));
        }
        match fmt::read(Fmt::Nt, &mut Stream::new("again", out.bytes(), Plan::benign())) {
            Ok(again) => {
                let (a, b) = (v.iter().cloned().collect::<G>(), fmt::flatten(again).into_iter().collect::<G>());
                check!(a == b, "invalid-value", "{fmt:?}: read {a:?}, stored and read again {b:?}");
            }
            Err(e) => violation("invalid-value", format!("{fmt:?}: what was read from {shown:?} cannot be read again: {e}")),
        }
    }
    // If the document is still one, it is read as what it says now.
    if matches!(fmt, Fmt::Nt | Fmt::Nq | Fmt::Json) {
        let now: Result<Doc, String> = std::str::from_utf8(&bytes).map_err(|e| e.to_string()).and_then(|t| match fmt {
            Fmt::Nt => Ok(vec![(None, ttl::ntriples(t)?)]),
            Fmt::Json => Ok(vec![(None, fmt::json(t)?)]),
            _ => {
                let mut d: Doc = vec![];
                for (s, n) in ttl::nquads(t)? {
                    match d.iter_mut().find(|(m, _)| *m == n) {
                        Some((_, v)) => v.push(s),
                        None => d.push((n, vec![s])),
                    }
                }
                Ok(d)
            }
        });
        if let Ok(now) = now {
            let plain = now.iter().all(|(n, v)| {
                n.as_ref().is_none_or(canonical)
                    && v.iter().all(|s| canonical(&s.s) && canonical(&T::iri(&s.p)) && canonical(&s.o))
            });
            if plain {
                probe("compared");
                if let Err(e) = same_documents(&now, &got) {
                    violation("misread", format!("{fmt:?}: {e}\nfrom {shown}"));
                }
            }
        }
    }
}

pub fn damaged() {
    tasks(corrupted);
}

fn tasks(f: fn(Fmt, &str)) {
    set_switch_den(*pick(&[4u64, 1, 2, 16], "switch-den"));
    preemptible();
    let mut tasks: Vec<Box<dyn FnOnce()>> = vec![];
    for i in 0..range(1, 3, "callers") {
        tasks.push(Box::new(move || {
            let file = format!("doc{i}");
            let mut steps = Steps::new(6, 3);
            while steps.more() {
                f(*pick(READABLE, "format"), &file);
            }
        }));
    }
    run_tasks(tasks);
}
