//! C25: what a term, statement or name prints as is read as that very thing, and a print that fails
//! says so.

use crate::gen::*;
use crate::{fmt, iso, ttl};
use rdftk_core::model::literal::{DataType, Literal};
use rdftk_core::model::statement::{BlankNode, Collection, ObjectNode};
use rdftk_io::nt::NTripleReader;
use sim_calls::Reads;
use simkit::*;
use std::fmt::{Display, Write as _};
use std::rc::Rc;
use std::str::FromStr;

const SHAPE: Shape = Shape { max: 6, mean: 3, ..Shape::FULL };
const XSD: &str = "http://www.w3.org/2001/XMLSchema#";
/// Without `#`, literals of these print their lexical form only.
const BARE: &[&str] = &[
    "boolean", "long", "int", "short", "byte", "unsignedLong", "unsignedInt", "unsignedShort", "unsignedByte", "float",
    "double", "decimal",
];

/// The complete text, once it is known that it comes the same, or in part and with an error.
fn render(v: &dyn Display, alternate: bool) -> String {
    op();
    let put = |s: &mut CharSink| if alternate { write!(s, "{v:#}") } else { write!(s, "{v}") };
    let mut good = CharSink::new(None, false);
    let r = put(&mut good);
    check!(r.is_ok(), "perfect-sink-error", "rendering to a perfect sink failed");
    let full = good.text;
    let at = draw_usize(full.len() + 2, "fail-at");
    let mut bad = CharSink::new(Some(at), chance(1, 2, "transient"));
    let r = put(&mut bad);
    slog!("render {} bytes, fails at {at} -> {} after {}", full.len(), r.is_ok(), bad.text.len());
    if bad.failed {
        probe("render-failed");
        check!(r.is_err(), "false-success", "the sink failed after {at} bytes but rendering reported success; got {:?} of {full:?}", bad.text);
    } else {
        check!(r.is_ok(), "false-failure", "the sink took everything but rendering failed");
        check!(bad.text == full, "wrong-text", "two renderings differ: {:?} and {full:?}", bad.text);
    }
    check!(full.starts_with(&bad.text), "not-a-prefix", "after a failure the sink holds {:?}, not a prefix of {full:?}", bad.text);
    full
}

/// The IRI of a data type whose literals have a short form, if this is one.
fn short(t: &T) -> Option<&str> {
    match t {
        T::Lit { dt: Some(d), .. } => d.strip_prefix(XSD).filter(|n| *n == "anyURI" || BARE.contains(n)),
        _ => None,
    }
}

/// The same without literals that have a short form.
fn full(t: &T) -> T {
    match t {
        T::Lit { v, .. } if short(t).is_some() => T::typed(v, &format!("{XSD}string")),
        T::Coll(c) => T::Coll(c.iter().map(full).collect()),
        T::Stmt(s) => T::Stmt(Box::new(full_statement(s))),
        other => other.clone(),
    }
}

fn full_statement(s: &S) -> S {
    S { s: full(&s.s), p: s.p.clone(), o: full(&s.o) }
}

fn reads_as(text: &str, got: Result<Vec<S>, String>, want: &S) {
    match got {
        Ok(got) => {
            let (want, got) = (iso::expand(std::slice::from_ref(want), false), iso::expand(&got, false));
            check!(iso::same(&want, &got), "wrong-text", "{text:?}: {}", iso::difference(&want, &got));
        }
        Err(e) => violation("wrong-text", format!("{text:?}, of {want:?}: {e}")),
    }
    probe("read");
}

fn one_statement(s: &S) {
    let st = statement(s);
    let text = render(&st, chance(1, 4, "alternate"));
    reads_as(&text, ttl::printed(&format!("{text} .")), s);
    if s.flat() && chance(1, 2, "as-a-line") {
        // a printed statement is a line of N-Triples
        let device = Stream::new("printed", format!("{text} .\n").into_bytes(), Plan::benign());
        match NTripleReader::default().read_from(&mut { device }) {
            Ok(g) => check!(of_graph(&g) == [s.clone()], "wrong-text", "{text:?} is read as {:?}", of_graph(&g)),
            Err(e) => violation("wrong-text", format!("{text:?} cannot be read: {e}")),
        }
        probe("line");
    }
}

fn one_object(t: &T) {
    let o: ObjectNode = object(t);
    // the short forms are used in nested ones whatever is asked for
    let alternate = chance(1, 2, "alternate") && !matches!(t, T::Iri(_));
    if let (Some(name), T::Lit { v, .. }) = (short(t), t) {
        let text = render(&o, alternate);
        let inner = match (name, alternate) {
            (_, true) => text.strip_prefix('"').and_then(|t| t.strip_suffix(&format!("\"^^<{XSD}{name}>"))),
            ("anyURI", false) => text.strip_prefix('<').and_then(|t| t.strip_suffix('>')),
            _ => Some(&text[..]),
        };
        let got = inner.map(fmt::unescape);
        check!(got == Some(Ok(v.clone())), "wrong-text", "{t:?} prints as {text:?}");
        probe("short");
        return;
    }
    let t = full(t);
    let text = render(&object(&t), alternate);
    reads_as(&text, ttl::printed(&format!("<urn:s> <urn:p> {text} .")), &S::new(T::iri("urn:s"), "urn:p", t));
}

fn one_subject(t: &T) {
    let t = full(t);
    let text = render(&subject(&t), chance(1, 4, "alternate") && !matches!(t, T::Iri(_)));
    reads_as(&text, ttl::printed(&format!("{text} <urn:p> <urn:o> .")), &S::new(t, "urn:p", T::iri("urn:o")));
}

fn one_name() {
    match draw(3, "name") {
        0 => {
            let T::Blank(b) = any_blank() else { unreachable!() };
            let node = blank(&b);
            let text = render(&node, chance(1, 4, "alternate"));
            let texts = [text, String::from(&node), node.to_qname().to_string(), String::from(node.clone())];
            for t in &texts {
                let back = BlankNode::from_str(t);
                check!(back.as_ref().ok() == Some(&node), "wrong-text", "the blank node {b:?} prints as {t:?}, which is {back:?}");
            }
            check!(texts[2] == format!("_:{b}"), "wrong-text", "{b:?} as a qualified name: {}", texts[2]);
        }
        1 => {
            let t = if chance(1, 2, "blank-name") { any_blank() } else { T::Iri(any_iri_text()) };
            let text = render(&graph_name(&t), false);
            reads_as(&text, ttl::printed(&format!("{text} <urn:p> <urn:o> .")), &S::new(t, "urn:p", T::iri("urn:o")));
        }
        _ => {
            let T::Lit { dt: Some(d), .. } = any_lit(&SHAPE) else { return };
            let data_type = DataType::from(iri(&d));
            let text = render(&data_type, false);
            let rdf = rdf("");
            let got = match text.split_once(':') {
                Some(("xsd", l)) => format!("{XSD}{l}"),
                Some(("rdf", l)) => format!("{rdf}{l}"),
                _ => text.clone(),
            };
            check!(got == d, "wrong-text", "the data type {d} prints as {text}");
        }
    }
    probe("name");
}

fn one_value() {
    // a literal alone, and lists of one kind
    let t = any_lit(&SHAPE);
    if chance(1, 2, "list") {
        let members: Vec<T> = (0..range(0, 4, "members")).map(|_| full(&any_object(&SHAPE, 1))).collect();
        let text = render(&Collection::from(members.iter().map(object).collect::<Vec<_>>()), false);
        reads_as(&text, ttl::printed(&format!("<urn:s> <urn:p> {text} .")), &S::new(T::iri("urn:s"), "urn:p", T::Coll(members)));
        return;
    }
    let T::Lit { v, dt, lang } = &t else { unreachable!() };
    let l: Literal = literal(v, dt, lang);
    let text = render(&l, true);
    reads_as(&text, ttl::printed(&format!("<urn:s> <urn:p> {text} .")), &S::new(T::iri("urn:s"), "urn:p", t.clone()));
    if short(&t).is_none() {
        let plain = render(&l, false);
        check!(plain == text, "wrong-text", "{t:?} prints as {plain:?} and {text:?}");
    }
}

pub fn scenario() {
    set_switch_den(*pick(&[4u64, 1, 2, 16], "switch-den"));
    preemptible();
    let shared: Rc<Vec<S>> = Rc::new(any_statements(&SHAPE).iter().map(full_statement).collect());
    let mut tasks: Vec<Box<dyn FnOnce()>> = vec![];
    for _ in 0..range(1, 3, "callers") {
        let shared = shared.clone();
        tasks.push(Box::new(move || {
            let mut steps = Steps::new(10, 4);
            while steps.more() {
                match draw(6, "what") {
                    0 if !shared.is_empty() => one_statement(pick(&shared, "statement")),
                    0 | 1 => one_statement(&full_statement(&any_statement(&SHAPE, 2))),
                    2 => one_object(&any_object(&SHAPE, 2)),
                    3 => one_subject(&any_subject(&SHAPE, 2)),
                    4 => one_value(),
                    _ => one_name(),
                }
            }
        }));
    }
    run_tasks(tasks);
}
