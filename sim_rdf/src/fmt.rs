//! The formats: writers with drawn options, readers, and what a document denotes according to the
//! harness's own parsers.

use crate::gen::*;
use crate::store::Doc;
use crate::{iso, rdfxml, ttl};
use objio::HasOptions;
use rdftk_core::error::Error;
use rdftk_core::model::data_set::DataSet;
use rdftk_core::model::graph::Graph;
use rdftk_io::dot::{DotOptions, DotWriter};
use rdftk_io::json::{JsonOptions, JsonReader, JsonWriter};
use rdftk_io::nq::{NQuadReader, NQuadWriter};
use rdftk_io::nt::{NTripleReader, NTripleWriter};
use rdftk_io::trig::{TrigWriter, TrigWriterOptions};
use rdftk_io::turtle::{TurtleWriter, TurtleWriterOptions};
use rdftk_io::xml::{XmlOptions, XmlReader, XmlWriter};
use sim_calls::{Reads, Writes};
use simkit::*;
use std::collections::BTreeMap;
use std::io::{Read, Write};

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Fmt {
    Nt,
    Nq,
    Ttl,
    Trig,
    Dot,
    Json,
    Xml,
}

pub const ALL: &[Fmt] = &[Fmt::Nt, Fmt::Nq, Fmt::Ttl, Fmt::Trig, Fmt::Dot, Fmt::Json, Fmt::Xml];
/// The formats with a reader.
pub const READABLE: &[Fmt] = &[Fmt::Nt, Fmt::Nq, Fmt::Json, Fmt::Xml];

enum W {
    Nt(NTripleWriter),
    Nq(NQuadWriter),
    Ttl(TurtleWriter),
    Trig(TrigWriter),
    Dot(DotWriter, Look),
    Json(JsonWriter),
    Xml(XmlWriter),
}

/// A writer and a description of its options.
pub struct Writer {
    pub fmt: Fmt,
    pub options: String,
    w: W,
    /// Turtle: IRIs that start with the first are written as if they started with the second.
    rebase: Option<(String, String)>,
}

fn rebased(t: &T, from: &str, to: &str) -> T {
    let text = |i: &str| match i.strip_prefix(from) {
        Some(rest) => format!("{to}{rest}"),
        None => i.to_string(),
    };
    match t {
        T::Iri(i) => T::Iri(text(i)),
        T::Lit { v, dt: Some(d), lang } => T::Lit { v: v.clone(), dt: Some(text(d)), lang: lang.clone() },
        T::Stmt(s) => T::Stmt(Box::new(S { s: rebased(&s.s, from, to), p: text(&s.p), o: rebased(&s.o, from, to) })),
        T::Coll(c) => T::Coll(c.iter().map(|m| rebased(m, from, to)).collect()),
        other => other.clone(),
    }
}

pub fn turtle_options() -> (TurtleWriterOptions, String) {
    let mut o = TurtleWriterOptions::default();
    let mut d = String::new();
    if chance(1, 3, "ttl-base") {
        let b = *pick(
            &[
                "http://example.org/",
                "http://example.org/p/",
                "http://example.org/v#",
                "urn:isbn:",
                "http://example.org/a",
                "http://example.org/x?y/",
                "http://example.org/q?x=1",
            ],
            "base",
        );
        if chance(1, 2, "with") {
            o = o.with_id_base(iri(b));
        } else {
            o.set_id_base(iri(b));
        }
        d += &format!(" base={b}");
        // what is right in a path may be escaped in a query
        if !b.contains('?') && chance(1, 4, "ttl-rebase") {
            let from = *pick(&["http://example.org/", "http://example.org/v", "urn:isbn:0451"], "rebase");
            o.set_convert_to_id_base(iri(from));
            d += &format!(" rebase={from}");
        }
    }
    if chance(1, 3, "sparql-style") {
        if chance(1, 2, "with") {
            o = o.with_sparql_style();
        } else {
            o.set_use_sparql_style(true);
        }
        d += " sparql";
    }
    if chance(1, 4, "intellij-style") {
        if chance(1, 2, "with") {
            o = o.with_intellij_style();
        } else {
            o.set_use_intellij_style(true);
        }
        d += " intellij";
    }
    if chance(1, 3, "no-nesting") {
        if chance(1, 2, "with") {
            o = o.without_nested_blank_nodes();
        } else {
            o.set_nest_blank_nodes(false);
        }
        d += " flat-blanks";
    }
    if chance(1, 3, "type-line") {
        o.set_place_type_on_subject_line(true);
        d += " type-on-line";
    }
    if chance(1, 3, "padding") {
        if chance(1, 2, "with") {
            o = o.with_predicate_padding(true);
        } else {
            o.set_predicate_padding(true);
        }
        d += " padding";
    }
    if chance(1, 3, "indent") {
        let n = *pick(&[1usize, 2, 8, 3, 12, 40], "width");
        if chance(1, 2, "with") {
            o = o.with_indent_width(n);
        } else {
            o.set_indent_width(n);
        }
        d += &format!(" indent={n}");
        if chance(1, 6, "no-width") {
            // no width is refused, or it must do
            let (before, with) = (o.clone(), draw(2, "with") == 0);
            let zero = guarded(|| {
                let mut o = before;
                if with {
                    o.with_indent_width(0)
                } else {
                    o.set_indent_width(0);
                    o
                }
            });
            if let Ok(zero) = zero {
                o = zero;
                d += " then 0";
            }
        }
    }
    (o, d)
}

fn rebase_of(o: &TurtleWriterOptions) -> Option<(String, String)> {
    o.convert_to_id_base().zip(o.id_base()).map(|(f, t)| (iri_text(f), iri_text(t)))
}

fn rebased_all(items: &[S], rebase: &Option<(String, String)>) -> Vec<S> {
    let Some((from, to)) = rebase else { return items.to_vec() };
    let one = |s: &S| match rebased(&T::Stmt(Box::new(s.clone())), from, to) {
        T::Stmt(s) => *s,
        _ => unreachable!(),
    };
    items.iter().map(one).collect()
}

pub fn trig_writer() -> (TrigWriter, String) {
    let (o, mut d) = turtle_options();
    let mut o = TrigWriterOptions::from(o);
    if chance(1, 3, "omit-graph") {
        o.set_omit_graph_keyword(true);
        d += " bare-names";
    }
    (TrigWriter::default().with_options(o), d)
}

/// Whether a TriG document says what the graphs say, lists typed or not in each.
pub fn check_trig(w: &TrigWriter, bytes: &[u8], doc: &Doc) -> Result<(), String> {
    let text = std::str::from_utf8(bytes).map_err(|e| format!("not UTF-8: {e}"))?;
    let rebase = rebase_of(w.options().as_ref());
    let doc: Doc = doc.iter().map(|(n, items)| (n.clone(), rebased_all(items, &rebase))).collect();
    let mut got: Doc = vec![];
    for (s, n) in ttl::trig(text)? {
        match got.iter_mut().find(|(m, _)| *m == n) {
            Some((_, v)) => v.push(s),
            None => got.push((n, vec![s])),
        }
    }
    let got = quads(&got, 0);
    // lists made for nested statements are typed, others are not; but they might be
    let likely = doc.iter().enumerate().fold(0, |m, (i, (_, items))| m | u32::from(items.iter().any(|s| s.nests())) << i);
    for typed in std::iter::once(likely).chain(0..1 << doc.len().min(4)) {
        if iso::same(&quads(&doc, typed), &got) {
            return Ok(());
        }
    }
    Err(iso::difference(&quads(&doc, 0), &got))
}

/// A data set as one graph: each quad a node of its own with four arcs. The lists of the graphs in
/// `typed` (a bit for each) have the type `rdf:List`.
pub fn quads(doc: &Doc, typed: u32) -> G {
    let mut out = G::new();
    let mut n = 0;
    for (i, (name, items)) in doc.iter().enumerate() {
        let own = |t: &T| match t {
            T::Blank(b) if b.starts_with('\u{1}') => T::Blank(format!("{b}\u{4}{i}")),
            o => o.clone(),
        };
        for s in iso::expand(items, typed & 1 << i != 0) {
            n += 1;
            let q = T::Blank(format!("\u{5}{n}"));
            out.insert(S::new(q.clone(), "urn:s", own(&s.s)));
            out.insert(S::new(q.clone(), "urn:p", T::iri(&s.p)));
            out.insert(S::new(q.clone(), "urn:o", own(&s.o)));
            out.insert(S::new(q, "urn:g", name.clone().unwrap_or(T::iri("urn:default"))));
        }
    }
    out
}

impl Writer {
    pub fn any(formats: &[Fmt]) -> Writer {
        Self::of(*pick(formats, "format"))
    }

    pub fn of(fmt: Fmt) -> Writer {
        let mut options = String::new();
        let w = match fmt {
            Fmt::Nt => W::Nt(NTripleWriter::default()),
            Fmt::Nq => W::Nq(NQuadWriter::default()),
            Fmt::Ttl => {
                let (o, d) = turtle_options();
                options = d;
                let mut w = TurtleWriter::default();
                if chance(1, 6, "used-before") {
                    // in another style, for nodes that come again
                    w = w.with_options(turtle_options().0);
                    let items: Vec<S> = (0..7)
                        .map(|k| S::new(T::iri("http://example.org/a"), "http://example.org/v#p", T::Blank(format!("n{k}"))))
                        .collect();
                    if let Err(e) = w.write_to(&mut std::io::sink(), &build(&items, false)) {
                        violation("false-failure", format!("Ttl failed on a working device: {e}"));
                    }
                }
                W::Ttl(w.with_options(o))
            }
            Fmt::Trig => {
                let (w, d) = trig_writer();
                options = d;
                W::Trig(w)
            }
            Fmt::Dot => {
                let (o, look) = Look::any();
                options = format!(" {look:?}");
                W::Dot(if chance(1, 2, "new") { DotWriter::new(o) } else { DotWriter::default().with_options(o) }, look)
            }
            Fmt::Json => {
                let pretty = chance(1, 2, "pretty");
                options = format!(" pretty={pretty}");
                W::Json(JsonWriter::default().with_options(JsonOptions::default().with_pretty_print(pretty)))
            }
            Fmt::Xml => {
                let (striped, pretty) = (chance(1, 2, "striped"), chance(1, 2, "pretty"));
                options = format!(" striped={striped} pretty={pretty}");
                let o = XmlOptions::default();
                let o = if striped { o.striped() } else { o.flat() };
                let o = if pretty { o.pretty() } else { o.plain() };
                W::Xml(XmlWriter::default().with_options(o))
            }
        };
        let rebase = match &w {
            W::Ttl(w) => rebase_of(w.options()),
            W::Trig(w) => rebase_of(w.options().as_ref()),
            _ => None,
        };
        Writer { fmt, options, w, rebase }
    }

    pub fn name(&self) -> String {
        format!("{:?}{}", self.fmt, self.options)
    }

    pub fn write<X: Write>(&self, out: &mut X, g: &Graph) -> Result<(), Error> {
        match &self.w {
            W::Nt(w) => w.write_to(out, g),
            W::Nq(w) => w.write_to(out, g),
            W::Ttl(w) => w.write_to(out, g),
            W::Trig(w) => w.write_to(out, g),
            W::Dot(w, _) => w.write_to(out, g),
            W::Json(w) => w.write_to(out, g),
            W::Xml(w) => w.write_to(out, g),
        }
    }

    /// The document as a string, by the convenience method of the trait.
    pub fn write_to_string(&self, g: &Graph) -> Result<String, Error> {
        match &self.w {
            W::Nt(w) => w.write_string(g),
            W::Nq(w) => w.write_string(g),
            W::Ttl(w) => w.write_string(g),
            W::Trig(w) => w.write_string(g),
            W::Dot(w, _) => w.write_string(g),
            W::Json(w) => w.write_string(g),
            W::Xml(w) => w.write_string(g),
        }
    }

    /// A new writer with the same options.
    pub fn again(&self) -> Writer {
        let w = match &self.w {
            W::Nt(w) => W::Nt(NTripleWriter::default().with_options_of(w)),
            W::Nq(_) => W::Nq(NQuadWriter::default()),
            W::Ttl(w) => W::Ttl(TurtleWriter::default().with_options(w.options().clone())),
            W::Trig(w) => W::Trig(
                TrigWriter::default().with_options(
                    TrigWriterOptions::from(w.options().as_ref().clone())
                        .with_omit_graph_keyword(w.options().omit_graph_keyword()),
                ),
            ),
            W::Dot(_, l) => W::Dot(DotWriter::new(l.options()), l.clone()),
            W::Json(w) => W::Json(JsonWriter::default().with_options(*w.options())),
            W::Xml(w) => W::Xml(XmlWriter::default().with_options(w.options().clone())),
        };
        Writer { fmt: self.fmt, options: self.options.clone(), w, rebase: self.rebase.clone() }
    }

    /// May this graph be refused? RDF/XML cannot name every property nor hold every character.
    pub fn may_refuse(&self, items: &[S]) -> bool {
        self.fmt == Fmt::Xml && items.iter().any(|s| !xml_can(s))
    }

    /// Checks that a complete document says exactly what the graph says.
    pub fn check_document(&self, bytes: &[u8], items: &[S], g: &Graph) -> Result<(), String> {
        let text = std::str::from_utf8(bytes).map_err(|e| format!("not UTF-8: {e}"))?;
        match self.fmt {
            Fmt::Nt => compare(items, true, ttl::ntriples(text)?),
            Fmt::Nq => {
                let name = g.name().map(of_graph_name);
                let got = ttl::nquads(text)?;
                if let Some((s, n)) = got.iter().find(|(_, n)| *n != name) {
                    return Err(format!("{s:?} is in graph {n:?} instead of {name:?}"));
                }
                compare(items, true, got.into_iter().map(|(s, _)| s).collect())
            }
            Fmt::Json => compare(items, true, json(text)?),
            Fmt::Xml => compare(items, true, rdfxml::parse(text)?),
            Fmt::Ttl => compare_turtle(&rebased_all(items, &self.rebase), ttl::turtle(text)?),
            Fmt::Trig => {
                let name = g.name().map(of_graph_name);
                let got = ttl::trig(text)?;
                if let Some((s, n)) = got.iter().find(|(_, n)| *n != name) {
                    return Err(format!("{s:?} is in graph {n:?} instead of {name:?}"));
                }
                compare_turtle(&rebased_all(items, &self.rebase), got.into_iter().map(|(s, _)| s).collect())
            }
            Fmt::Dot => {
                let W::Dot(_, look) = &self.w else { unreachable!() };
                drawing_of(&iso::expand(items, true), dot(text, look, g)?)
            }
        }
    }
}

fn drawing_of(items: &G, got: G) -> Result<(), String> {
    let want = drawn(items);
    if iso::same(&want, &got) {
        Ok(())
    } else {
        Err(iso::difference(&want, &got))
    }
}

/// Checks a drawing in default style of a graph without prefixes.
pub fn check_drawing(bytes: &[u8], items: &[S]) -> Result<(), String> {
    let text = std::str::from_utf8(bytes).map_err(|e| format!("not UTF-8: {e}"))?;
    drawing_of(&iso::expand(items, false), dot(text, &Look::default(), &Graph::default())?)
}

trait WithOptionsOf: Sized {
    fn with_options_of(self, other: &Self) -> Self;
}

impl WithOptionsOf for NTripleWriter {
    fn with_options_of(mut self, other: &Self) -> Self {
        self.set_options(*other.options());
        self
    }
}

fn compare(items: &[S], list_types: bool, got: Vec<S>) -> Result<(), String> {
    let want = iso::expand(items, list_types);
    let got: G = got.into_iter().collect();
    if iso::same(&want, &got) {
        Ok(())
    } else {
        Err(iso::difference(&want, &got))
    }
}

/// Turtle has collections; whether their nodes are typed `rdf:List` is left open, as a collection
/// in parentheses has no types.
fn compare_turtle(items: &[S], got: Vec<S>) -> Result<(), String> {
    let untyped = iso::expand(items, false);
    let flat = iso::expand(&got, false);
    if iso::same(&untyped, &flat) {
        return Ok(());
    }
    let typed = iso::expand(items, true);
    if iso::same(&typed, &flat) {
        return Ok(());
    }
    Err(iso::difference(&untyped, &flat))
}

/// XML 1.1 can say this.
pub fn xml_can(s: &S) -> bool {
    fn term(t: &T) -> bool {
        match t {
            T::Iri(_) | T::Blank(_) => true,
            T::Lit { v, .. } => xml_value(v),
            T::Stmt(s) => xml_can_inner(s),
            T::Coll(c) => c.iter().all(term),
        }
    }
    // the predicate of a nested statement is an object of its reification
    fn xml_can_inner(s: &S) -> bool {
        term(&s.s) && term(&s.o)
    }
    xml_can_inner(s) && xml_nameable(&s.p)
}

// ------------------------------------------------------------------------------------------------
// RDF/JSON
// ------------------------------------------------------------------------------------------------

pub fn json(text: &str) -> Result<Vec<S>, String> {
    let v: serde_json::Value = serde_json::from_str(text).map_err(|e| format!("JSON: {e}"))?;
    let mut out = vec![];
    let top = v.as_object().ok_or("JSON: no object")?;
    for (s, ps) in top {
        let subject = match s.strip_prefix("_:") {
            Some(b) => T::blank(b),
            // the library's documented form of IRIs as subjects, beside that of the format
            None => T::iri(s.strip_prefix('<').and_then(|s| s.strip_suffix('>')).unwrap_or(s)),
        };
        for (p, os) in ps.as_object().ok_or("JSON: subject without object")? {
            for o in os.as_array().ok_or("JSON: predicate without array")? {
                let o = o.as_object().ok_or("JSON: object is none")?;
                let text = |k: &str| o.get(k).map(|v| v.as_str().ok_or(format!("JSON: {k} is no string"))).transpose();
                let value = text("value")?.ok_or("JSON: no value")?;
                let (lang, dt) = (text("lang")?, text("datatype")?);
                let kind = text("type")?.ok_or("JSON: no type")?;
                if kind != "literal" && (lang.is_some() || dt.is_some()) || lang.is_some() && dt.is_some() {
                    return Err("JSON: lang and datatype".into());
                }
                if let Some(k) = o.keys().find(|k| !["value", "type", "lang", "datatype"].contains(&k.as_str())) {
                    return Err(format!("JSON: unknown key {k}"));
                }
                let object = match kind {
                    "uri" => T::iri(value),
                    "bnode" => T::blank(value.strip_prefix("_:").ok_or("JSON: bnode without _:")?),
                    "literal" => T::Lit { v: value.into(), dt: dt.map(Into::into), lang: lang.map(Into::into) },
                    k => return Err(format!("JSON: unknown type {k}")),
                };
                out.push(S { s: subject.clone(), p: p.clone(), o: object });
            }
        }
    }
    Ok(out)
}

// ------------------------------------------------------------------------------------------------
// GraphViz
// ------------------------------------------------------------------------------------------------

const KIND: &str = "urn:dot:kind";

/// What a drawing looks like: the ids of its nodes, and shape and colour of IRIs, blank nodes and
/// literals.
#[derive(Clone, Debug)]
struct Look {
    prefix: String,
    labels: bool,
    iri: (String, String),
    blank: (String, String),
    literal: (String, String),
}

impl Default for Look {
    fn default() -> Self {
        let of = |shape: &str, color: &str| (shape.to_string(), color.to_string());
        Look {
            prefix: String::new(),
            labels: false,
            iri: of("ellipse", "blue"),
            blank: of("circle", "green"),
            literal: of("record", "black"),
        }
    }
}

impl Look {
    fn any() -> (DotOptions, Look) {
        let (mut o, mut l) = (DotOptions::default(), Look::default());
        l.labels = chance(1, 2, "blank-labels");
        l.prefix = pick(&["node_", "", "n-"], "node-prefix").to_string();
        if chance(1, 2, "with") {
            o = o.with_blank_labels(l.labels).with_node_prefix(l.prefix.clone());
        } else {
            o.set_blank_labels(l.labels);
            o.set_node_prefix(l.prefix.clone());
        }
        for i in 0..6 {
            if !chance(1, 6, "look") {
                continue;
            }
            let v = ["box", "red", "diamond", "gray20", "house", "pink"][i].to_string();
            let with = chance(1, 2, "with");
            match i {
                0 if with => o = o.with_iri_shape(v.clone()),
                0 => o.set_iri_shape(v.clone()),
                1 if with => o = o.with_iri_color(v.clone()),
                1 => o.set_iri_color(v.clone()),
                2 if with => o = o.with_blank_shape(v.clone()),
                2 => o.set_blank_shape(v.clone()),
                3 if with => o = o.with_blank_color(v.clone()),
                3 => o.set_blank_color(v.clone()),
                4 if with => o = o.with_literal_shape(v.clone()),
                4 => o.set_literal_shape(v.clone()),
                5 if with => o = o.with_literal_color(v.clone()),
                _ => o.set_literal_color(v.clone()),
            }
            let of = [&mut l.iri, &mut l.blank, &mut l.literal];
            let of = of.into_iter().nth(i / 2).unwrap();
            *if i % 2 == 0 { &mut of.0 } else { &mut of.1 } = v;
        }
        (o, l)
    }

    fn options(&self) -> DotOptions {
        DotOptions::default()
            .with_blank_labels(self.labels)
            .with_node_prefix(self.prefix.clone())
            .with_iri_shape(self.iri.0.clone())
            .with_iri_color(self.iri.1.clone())
            .with_blank_shape(self.blank.0.clone())
            .with_blank_color(self.blank.1.clone())
            .with_literal_shape(self.literal.0.clone())
            .with_literal_color(self.literal.1.clone())
    }

    /// The attributes at the end of a node.
    fn end(of: &(String, String)) -> String {
        format!(",shape={},color={}];", of.0, of.1)
    }
}

/// A drawing as a graph: one blank node per node, labelled.
fn drawn(g: &G) -> G {
    let mut names: BTreeMap<T, T> = BTreeMap::new();
    let mut out = G::new();
    for s in g {
        let mut node = |t: &T| {
            let n = names.len();
            names.entry(t.clone()).or_insert_with(|| T::Blank(format!("\u{3}{n}"))).clone()
        };
        let (a, b) = (node(&s.s), node(&s.o));
        out.insert(S { s: a, p: s.p.clone(), o: b });
    }
    for (t, n) in names {
        let label = match t {
            T::Iri(i) => T::Iri(i),
            T::Blank(_) => T::iri("urn:dot:blank"),
            T::Lit { v, .. } => T::lit(&v),
            _ => unreachable!(),
        };
        out.insert(S { s: n, p: KIND.into(), o: label });
    }
    out
}

/// Attributes and ids are quoted strings; `\"` and the escapes of literals within.
fn quoted(s: &str) -> Result<(String, &str), String> {
    let mut it = s.strip_prefix('"').ok_or_else(|| format!("dot: no string at {s:?}"))?.char_indices();
    let body = &s[1..];
    while let Some((i, c)) = it.next() {
        match c {
            '"' => return Ok((body[..i].to_string(), &body[i + 1..])),
            '\\' => {
                it.next();
            }
            '\n' => return Err("dot: line break in a string".into()),
            _ => {}
        }
    }
    Err(format!("dot: open string {s:?}"))
}

pub fn unescape(s: &str) -> Result<String, String> {
    let mut out = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c != '\\' {
            out.push(c);
            continue;
        }
        match it.next() {
            Some('n') => out.push('\n'),
            Some('r') => out.push('\r'),
            Some('t') => out.push('\t'),
            Some('b') => out.push('\u{8}'),
            Some('f') => out.push('\u{c}'),
            Some(c @ ('"' | '\\' | '\'')) => out.push(c),
            Some(c @ ('u' | 'U')) => {
                let n = if c == 'u' { 4 } else { 8 };
                let h: String = it.by_ref().take(n).collect();
                let c = u32::from_str_radix(&h, 16).ok().and_then(char::from_u32);
                out.push(c.ok_or("dot: bad escape")?);
            }
            c => return Err(format!("dot: bad escape {c:?}")),
        }
    }
    Ok(out)
}

fn dot(text: &str, look: &Look, g: &Graph) -> Result<G, String> {
    let mut prefixes = BTreeMap::new();
    for (p, n) in g.prefix_mappings().mappings() {
        prefixes.insert(p.name_string().unwrap_or("").to_string(), iri_text(n));
    }
    let mut edges: Vec<(String, String, String)> = vec![];
    let mut nodes: BTreeMap<String, T> = BTreeMap::new();
    let mut lines = text.lines().map(str::trim).filter(|l| !l.is_empty());
    if lines.next() != Some("digraph {") {
        return Err("dot: no digraph".into());
    }
    let mut closed = false;
    for l in lines {
        if closed {
            return Err(format!("dot: after the end: {l:?}"));
        }
        if l == "}" {
            closed = true;
            continue;
        }
        if !l.starts_with('"') {
            continue;
        }
        let (a, rest) = quoted(l)?;
        if !a.starts_with(&look.prefix) {
            return Err(format!("dot: id {a:?} without prefix {:?}", look.prefix));
        }
        if let Some(rest) = rest.strip_prefix(" -> ") {
            let (b, rest) = quoted(rest)?;
            let rest = rest.strip_prefix(" [label=").ok_or("dot: edge without label")?;
            let (p, rest) = quoted(rest)?;
            if rest != "];" {
                return Err(format!("dot: after the edge: {rest:?}"));
            }
            let full = match p.split_once(':') {
                Some((q, l)) if prefixes.contains_key(q) => format!("{}{l}", prefixes[q]),
                _ => p,
            };
            edges.push((a, full, b));
        } else {
            let rest = rest.strip_prefix(" [").ok_or("dot: no attributes")?;
            let node = if let Some(rest) = rest.strip_prefix("URL=") {
                let (u, rest) = quoted(rest)?;
                let rest = rest.strip_prefix(",label=").ok_or("dot: no label")?;
                let (l, rest) = quoted(rest)?;
                if l != u || rest != Look::end(&look.iri) {
                    return Err(format!("dot: odd IRI node {l:?} {rest:?}"));
                }
                T::Iri(u)
            } else {
                let rest = rest.strip_prefix("label=").ok_or("dot: no label")?;
                let (l, rest) = quoted(rest)?;
                if rest == Look::end(&look.literal) {
                    T::lit(&unescape(&l)?)
                } else if rest == Look::end(&look.blank) && (if look.labels { l == a } else { l.is_empty() }) {
                    T::iri("urn:dot:blank")
                } else {
                    return Err(format!("dot: odd node {l:?} {rest:?}"));
                }
            };
            if nodes.insert(a.clone(), node).is_some() {
                return Err(format!("dot: node {a:?} twice"));
            }
        }
    }
    if !closed {
        return Err("dot: not closed".into());
    }
    let mut out = G::new();
    let name = |id: &str| T::Blank(format!("\u{3}{id}"));
    for (a, p, b) in &edges {
        for n in [a, b] {
            if !nodes.contains_key(n) {
                return Err(format!("dot: node {n:?} is not there"));
            }
        }
        out.insert(S { s: name(a), p: p.clone(), o: name(b) });
    }
    for (id, l) in nodes {
        if !edges.iter().any(|(a, _, b)| *a == id || *b == id) {
            return Err(format!("dot: node {id:?} has no edge"));
        }
        out.insert(S { s: name(&id), p: KIND.into(), o: l });
    }
    Ok(out)
}

// ------------------------------------------------------------------------------------------------
// Readers
// ------------------------------------------------------------------------------------------------

/// What a reader gives: named graphs (one unnamed for the formats that hold one graph).
pub fn read<X: Read>(fmt: Fmt, r: &mut X) -> Result<Vec<(Option<T>, Vec<S>)>, Error> {
    Ok(read_graphs(fmt, r)?.iter().map(|g| (g.name().map(of_graph_name), of_graph(g))).collect())
}

pub fn read_graphs<X: Read>(fmt: Fmt, r: &mut X) -> Result<Vec<Graph>, Error> {
    match fmt {
        Fmt::Nt => NTripleReader::default().read_from(r).map(|g| vec![g]),
        Fmt::Json => JsonReader::default().read_from(r).map(|g| vec![g]),
        Fmt::Xml => XmlReader::default().read_from(r).map(|g| vec![g]),
        Fmt::Nq => {
            let d: DataSet = NQuadReader::default().read_from(r)?;
            Ok(d.graphs().cloned().collect())
        }
        f => unreachable!("no reader for {f:?}"),
    }
}

/// The statements of all graphs.
pub fn flatten(graphs: Vec<(Option<T>, Vec<S>)>) -> Vec<S> {
    graphs.into_iter().flat_map(|(_, s)| s).collect()
}
