//! Documents as other programs write them: the same graph in the many spellings its format has.
//! Every document is checked against the harness's own parsers before the library sees it.

use crate::fmt::{self, Fmt};
use crate::gen::*;
use crate::ttl::resolve;
use crate::{iso, rdfxml, ttl};
use simkit::*;
use std::collections::{BTreeMap, BTreeSet};

/// What to write: named graphs for N-Quads, one unnamed graph otherwise.
pub type Doc = Vec<(Option<T>, Vec<S>)>;

/// A document of a graph the format can hold, and the graph.
pub fn any_document(fmt: Fmt) -> (Vec<u8>, Doc) {
    let shape = Shape { statements: false, collections: fmt == Fmt::Xml, max: 10, mean: 4, ..Shape::FLAT };
    let mut doc: Doc = vec![];
    if fmt == Fmt::Nq {
        for _ in 0..range(1, 3, "graphs") {
            let name = match draw(4, "graph-name") {
                0 => None,
                1 => Some(any_blank()),
                _ => Some(T::Iri(any_iri_text())),
            };
            let items = any_statements(&shape);
            if !items.is_empty() && doc.iter().all(|(n, _)| *n != name) {
                doc.push((name, items));
            }
        }
    } else {
        let mut items = any_statements(&shape);
        if fmt == Fmt::Xml {
            items.retain(fmt::xml_can);
            items.retain(|s| xml_members(&s.o));
        }
        doc.push((None, items));
    }
    let text = match fmt {
        Fmt::Nt | Fmt::Nq => lines(&doc),
        Fmt::Json => json(&doc[0].1),
        Fmt::Xml => {
            let (text, said) = xml(&doc[0].1);
            doc[0].1.extend(said);
            text
        }
        _ => unreachable!(),
    };
    if let Err(e) = own_reading(fmt, &text, &doc) {
        panic!("the harness's document is wrong: {e}\n{doc:?}\n{text}");
    }
    (text.into_bytes(), doc)
}

/// `parseType="Collection"` holds nodes only.
fn xml_members(t: &T) -> bool {
    match t {
        T::Coll(c) => c.iter().all(|m| matches!(m, T::Iri(_) | T::Blank(_))),
        _ => true,
    }
}

/// The document denotes the graph, by the harness's parsers.
fn own_reading(fmt: Fmt, text: &str, doc: &Doc) -> Result<(), String> {
    let got: Doc = match fmt {
        Fmt::Nq => {
            let mut d: Doc = vec![];
            for (s, n) in ttl::nquads(text)? {
                match d.iter_mut().find(|(m, _)| *m == n) {
                    Some((_, v)) => v.push(s),
                    None => d.push((n, vec![s])),
                }
            }
            d
        }
        Fmt::Nt => vec![(None, ttl::ntriples(text)?)],
        Fmt::Json => vec![(None, fmt::json(text)?)],
        _ => vec![(None, rdfxml::parse(text)?)],
    };
    same_documents(doc, &got)
}

/// Both say the same, up to the names of blank nodes that have none in the document.
pub fn same_documents(want: &Doc, got: &Doc) -> Result<(), String> {
    if want.len() != got.len() && want.iter().any(|(_, v)| !v.is_empty()) {
        return Err(format!("graphs {:?} instead of {:?}", names(got), names(want)));
    }
    for (n, v) in want {
        let g = got.iter().find(|(m, _)| m == n);
        if g.is_none() && !v.is_empty() {
            return Err(format!("no graph {n:?}"));
        }
        let a = iso::expand(v, false);
        let b = iso::expand(g.map_or(&[][..], |g| &g.1), false);
        if !iso::same(&a, &b) {
            return Err(format!("graph {n:?}: {}", iso::difference(&a, &b)));
        }
    }
    Ok(())
}

fn names(d: &Doc) -> Vec<&Option<T>> {
    d.iter().map(|(n, _)| n).collect()
}

fn shuffle<X>(v: &mut [X]) {
    for i in (1..v.len()).rev() {
        let j = i - draw_usize(i + 1, "shuffle");
        v.swap(i, j);
    }
}

// ------------------------------------------------------------------------------------------------
// N-Triples and N-Quads
// ------------------------------------------------------------------------------------------------

fn uchar(c: char) -> String {
    let n = c as u32;
    match draw(4, "uchar") {
        0 if n <= 0xFFFF => format!("\\u{n:04X}"),
        1 if n <= 0xFFFF => format!("\\u{n:04x}"),
        2 => format!("\\U{n:08X}"),
        _ => format!("\\U{n:08x}"),
    }
}

fn nt_string(v: &str, style: u64) -> String {
    let mut out = String::from("\"");
    for c in v.chars() {
        let short = match c {
            '\t' => Some("\\t"),
            '\u{8}' => Some("\\b"),
            '\n' => Some("\\n"),
            '\r' => Some("\\r"),
            '\u{c}' => Some("\\f"),
            '"' => Some("\\\""),
            '\'' => Some("\\'"),
            '\\' => Some("\\\\"),
            _ => None,
        };
        let must = matches!(c, '\n' | '\r' | '"' | '\\');
        match (style, short) {
            // canonical: only what must be
            (0, Some(s)) if must => out.push_str(s),
            (0, _) => out.push(c),
            // as many short escapes as there are
            (1, Some(s)) => out.push_str(s),
            // by number, everything that is not ASCII
            (2, _) if must || !c.is_ascii() || c.is_control() => out.push_str(&uchar(c)),
            // any
            (3, s) => match draw(3, "escape") {
                0 if !must => out.push(c),
                1 => out.push_str(&uchar(c)),
                _ => out.push_str(&s.map_or(if must { uchar(c) } else { c.to_string() }, String::from)),
            },
            (_, Some(s)) if must => out.push_str(s),
            _ => out.push(c),
        }
    }
    out + "\""
}

fn nt_iri(i: &str, style: u64) -> String {
    let mut out = String::from("<");
    for c in i.chars() {
        if style == 3 && chance(1, 12, "iri-uchar") {
            out.push_str(&uchar(c));
        } else {
            out.push(c);
        }
    }
    out + ">"
}

fn nt_term(t: &T, style: u64) -> String {
    match t {
        T::Iri(i) => nt_iri(i, style),
        T::Blank(b) => format!("_:{b}"),
        T::Lit { v, dt, lang } => {
            let v = nt_string(v, style);
            match (dt, lang) {
                (Some(d), _) => format!("{v}^^{}", nt_iri(d, style)),
                (_, Some(l)) => format!("{v}@{l}"),
                _ => v,
            }
        }
        _ => unreachable!(),
    }
}

fn lines(doc: &Doc) -> String {
    let style = draw(4, "escapes");
    let eol = *pick(&["\n", "\r\n", "\n", "\r"], "eol");
    let loose = chance(1, 2, "loose");
    let space = || {
        if loose {
            *pick(&[" ", "\t", "  ", " \t "], "space")
        } else {
            " "
        }
    };
    let mut all: Vec<(Option<&T>, &S)> = doc.iter().flat_map(|(n, v)| v.iter().map(move |s| (n.as_ref(), s))).collect();
    if chance(1, 2, "reorder") {
        shuffle(&mut all);
    }
    let mut out = String::new();
    if loose && chance(1, 4, "head-comment") {
        out += "# <urn:a> <urn:b> \"c\" .";
        out += eol;
    }
    let last = all.len().saturating_sub(1);
    for (i, (name, s)) in all.into_iter().enumerate() {
        if loose && chance(1, 6, "blank-line") {
            out += pick(&["", "   ", "\t", "# comment", "  #\"comment\" ."], "filler");
            out += eol;
        }
        if loose && chance(1, 6, "indented") {
            out += space();
        }
        out += &nt_term(&s.s, style);
        out += space();
        out += &nt_iri(&s.p, style);
        out += space();
        out += &nt_term(&s.o, style);
        if let Some(n) = name {
            out += space();
            out += &nt_term(n, style);
        }
        out += space();
        out += ".";
        if loose && chance(1, 6, "trailing") {
            out += pick(&[" ", "\t", " # comment", "# <urn:x> <urn:y> <urn:z> ."], "trailer");
        }
        if i != last || chance(3, 4, "final-eol") {
            out += eol;
        }
    }
    out
}

// ------------------------------------------------------------------------------------------------
// RDF/JSON
// ------------------------------------------------------------------------------------------------

fn json_string(v: &str, style: u64) -> String {
    let mut out = String::from("\"");
    for c in v.chars() {
        let must = c < ' ' || c == '"' || c == '\\';
        let short = match c {
            '"' => "\\\"",
            '\\' => "\\\\",
            '\n' => "\\n",
            '\r' => "\\r",
            '\t' => "\\t",
            '\u{8}' => "\\b",
            '\u{c}' => "\\f",
            '/' => "\\/",
            _ => "",
        };
        let by_number = match style {
            0 => must && short.is_empty(),
            1 => !c.is_ascii() || must && short.is_empty(),
            _ => chance(1, 3, "by-number") || must && short.is_empty(),
        };
        if by_number {
            let mut b = [0u16; 2];
            for u in c.encode_utf16(&mut b) {
                out += &if chance(1, 2, "upper") { format!("\\u{u:04X}") } else { format!("\\u{u:04x}") };
            }
        } else if must || style > 0 && c == '/' {
            out += short;
        } else {
            out.push(c);
        }
    }
    out + "\""
}

fn json(items: &[S]) -> String {
    let style = draw(3, "escapes");
    let wide = chance(1, 2, "wide");
    let ws = || {
        if wide {
            *pick(&[" ", "", "\n  ", "\t", "\r\n"], "space")
        } else {
            ""
        }
    };
    let mut tree: BTreeMap<&T, BTreeMap<&str, Vec<&T>>> = BTreeMap::new();
    for s in items {
        tree.entry(&s.s).or_default().entry(&s.p).or_default().push(&s.o);
    }
    let mut out = format!("{}{{", ws());
    let mut subjects: Vec<_> = tree.into_iter().collect();
    shuffle(&mut subjects);
    for (i, (s, ps)) in subjects.into_iter().enumerate() {
        if i > 0 {
            out += ",";
        }
        let key = match s {
            T::Blank(b) => format!("_:{b}"),
            T::Iri(i) if chance(1, 6, "bracketed") => format!("<{i}>"),
            T::Iri(i) => i.clone(),
            _ => unreachable!(),
        };
        out += &format!("{}{}{}:{}{{", ws(), json_string(&key, style), ws(), ws());
        let mut ps: Vec<_> = ps.into_iter().collect();
        shuffle(&mut ps);
        for (i, (p, os)) in ps.into_iter().enumerate() {
            if i > 0 {
                out += ",";
            }
            out += &format!("{}{}:{}[", ws(), json_string(p, style), ws());
            for (i, o) in os.into_iter().enumerate() {
                if i > 0 {
                    out += ",";
                }
                let mut keys = match o {
                    T::Iri(i) => vec![("value", i.clone()), ("type", "uri".into())],
                    T::Blank(b) => vec![("value", format!("_:{b}")), ("type", "bnode".into())],
                    T::Lit { v, dt, lang } => {
                        let mut k = vec![("value", v.clone()), ("type", "literal".into())];
                        k.extend(dt.iter().map(|d| ("datatype", d.clone())));
                        k.extend(lang.iter().map(|l| ("lang", l.clone())));
                        k
                    }
                    _ => unreachable!(),
                };
                shuffle(&mut keys);
                let keys: Vec<String> =
                    keys.into_iter().map(|(k, v)| format!("{}\"{k}\"{}:{}{}", ws(), ws(), ws(), json_string(&v, style))).collect();
                out += &format!("{}{{{}{}}}", ws(), keys.join(","), ws());
            }
            out += &format!("{}]", ws());
        }
        out += &format!("{}}}", ws());
    }
    out + ws() + "}" + ws()
}

// ------------------------------------------------------------------------------------------------
// RDF/XML
// ------------------------------------------------------------------------------------------------

struct X<'a> {
    rest: Vec<&'a S>,
    /// blank nodes written without a name, within the one property that refers to them
    nameless: BTreeSet<&'a str>,
    v11: bool,
    /// prefix of the rdf namespace
    r: &'static str,
    loose: bool,
    /// xml:lang is used on elements around properties
    langs: bool,
    entity: bool,
    depth: u32,
    /// `xml:base` is used
    based: bool,
    /// the one in scope
    base: Option<String>,
    ids: BTreeSet<String>,
    /// statements the document makes beside those of the graph
    said: Vec<S>,
}

const V: &str = "http://example.org/v#";
const BASES: &[&str] = &[
    "http://example.org/a",
    "http://example.org/v",
    "http://example.org/v#q",
    "http://example.org/",
    "http://example.org/a#",
    "http://example.org/p/q/r?s",
    "https://example.org/x//y/",
    "http://www.w3.org/2001/XMLSchema#string",
    "urn:x:y",
];

/// Splits a property's IRI where XML can.
fn split(p: &str) -> (String, String) {
    let start = |c: char| c.is_alphabetic() || c == '_';
    let from = p.rfind(['#', '/', ':']).unwrap() + 1;
    let at = p[from..].find(start).map(|i| i + from).unwrap();
    (p[..at].to_string(), p[at..].to_string())
}

impl<'a> X<'a> {
    fn ws(&self) -> String {
        if !self.loose {
            return String::new();
        }
        pick(&["\n", "", "\n    ", " ", "<!-- <b>&amp; -->", "\r\n", "<?pi x?>", "\n<!-- c -->\n"], "space").to_string()
    }

    fn escape(&self, v: &str, attribute: bool, quote: char) -> String {
        let mut out = String::new();
        for c in v.chars() {
            let n = c as u32;
            let must = c == '\r'
                || attribute && matches!(c, '\n' | '\t')
                || self.v11 && (matches!(c, '\u{1}'..='\u{8}' | '\u{b}' | '\u{c}' | '\u{e}'..='\u{1f}' | '\u{7f}'..='\u{9f}' | '\u{2028}'));
            let named = match c {
                '&' => Some("&amp;"),
                '<' => Some("&lt;"),
                '>' => Some("&gt;"),
                '"' if attribute && quote == '"' => Some("&quot;"),
                '\'' if attribute && quote == '\'' => Some("&apos;"),
                _ => None,
            };
            if must || chance(1, 25, "char-ref") {
                out += &match draw(3, "ref") {
                    0 => format!("&#{n};"),
                    1 => format!("&#x{n:X};"),
                    _ => format!("&#x{n:x};"),
                };
            } else if let Some(n) = named {
                out += n;
            } else {
                out.push(c);
            }
        }
        out
    }

    fn attr(&self, name: &str, v: &str) -> String {
        let q = if chance(1, 3, "single-quote") { '\'' } else { '"' };
        let mut e = self.escape(v, true, q);
        if self.entity && chance(1, 2, "entity") {
            if let Some(l) = e.strip_prefix(V) {
                e = format!("&v;{l}");
            }
        }
        format!(" {name}={q}{e}{q}")
    }

    /// The start of a tag, with the attributes in any order.
    fn tag(&self, name: &str, attrs: &str) -> String {
        let mut parts: Vec<&str> = vec![];
        let mut rest = attrs;
        while !rest.is_empty() {
            let open = rest.find(['"', '\'']).unwrap();
            let close = open + 1 + rest[open + 1..].find(&rest[open..open + 1]).unwrap();
            parts.push(&rest[..close + 1]);
            rest = &rest[close + 1..];
        }
        if parts.len() > 1 && chance(1, 2, "attribute-order") {
            shuffle(&mut parts);
        }
        format!("<{name}{}", parts.concat())
    }

    /// An IRI, as it is or relative to the base.
    fn reference(&self, i: &str) -> String {
        let Some(base) = &self.base else { return i.to_string() };
        if chance(1, 2, "absolute") || !i.is_ascii() || i.to_lowercase().contains("%2e") || i.contains(['\\', '|', ' ']) {
            return i.to_string();
        }
        let scheme = &base[..base.find(':').unwrap() + 1];
        let page = base.split('#').next().unwrap();
        let path = page.split('?').next().unwrap();
        let folder = &path[..path.rfind('/').map_or(0, |k| k + 1)];
        let above = folder.strip_suffix('/').and_then(|f| f.rfind('/').map(|k| &folder[..k + 1]));
        let mut of: Vec<String> = vec![];
        let mut rest = |root: Option<&str>, lead: &str| {
            if let Some(rest) = root.and_then(|r| i.strip_prefix(r)) {
                of.push(format!("{lead}{rest}"));
            }
        };
        rest(Some(page), "");
        rest(Some(path), "");
        rest(Some(folder), "");
        rest(Some(folder), "./");
        rest(above, "../");
        rest(Some(scheme), "");
        if let Some(host) = path.find("://").and_then(|k| path[k + 3..].find('/').map(|n| &path[..k + 3 + n])) {
            rest(Some(host), "");
        }
        let odd = |c: &str| c.contains("..") && !c.starts_with("../") || c.contains("/./") || c.ends_with("/.") || c[1.min(c.len())..].contains("//") || c == ".";
        if !page.contains("://") {
            // the code takes no other reference with such a base
            of.retain(|c| c.starts_with('#'));
        }
        of.retain(|c| !odd(c) && !c.split(['/', '?', '#']).next().unwrap().contains(':') && resolve(base, c) == i);
        if of.is_empty() {
            return i.to_string();
        }
        probe("xml-relative");
        pick(&of, "relative").clone()
    }

    /// The part of an IRI that may be an `rdf:ID`.
    fn id<'b>(&self, i: &'b str) -> Option<&'b str> {
        let page = self.base.as_ref()?.split('#').next().unwrap();
        let id = i.strip_prefix(page)?.strip_prefix('#')?;
        let name = id.starts_with(|c: char| c.is_ascii_alphabetic() || c == '_') && id.chars().all(|c| c.is_ascii_alphanumeric() || "-_.".contains(c));
        name.then_some(id)
    }

    /// A base of its own for an element.
    fn own_base(&mut self, chances: u64) -> String {
        if !self.based || !chance(1, chances, "xml-base-here") {
            return String::new();
        }
        let b = *pick(BASES, "base");
        let attr = self.attr("xml:base", &self.reference(b));
        self.base = Some(b.to_string());
        attr
    }

    fn text(&self, v: &str) -> String {
        if v.is_empty() || chance(1, 2, "one-piece") {
            return self.piece(v);
        }
        // the text in pieces, each in a spelling of its own
        let mut out = String::new();
        let mut rest = v;
        while !rest.is_empty() {
            let n = 1 + draw_usize(rest.chars().count().min(6), "piece");
            let at = rest.char_indices().nth(n).map_or(rest.len(), |(i, _)| i);
            out += &self.piece(&rest[..at]);
            rest = &rest[at..];
            if self.loose && chance(1, 6, "between") {
                out += pick(&["<!-- c -->", "<?pi x?>", "<![CDATA[]]>"], "between-what");
            }
        }
        out
    }

    fn piece(&self, v: &str) -> String {
        let special = v.chars().any(|c| c == '\r' || self.v11 && (c == '\u{7f}' || c == '\u{85}' || c == '\u{2028}' || c.is_control() && !matches!(c, '\n' | '\t')));
        if !v.is_empty() && !special && !v.contains("]]>") && chance(1, 4, "cdata") {
            return format!("<![CDATA[{v}]]>");
        }
        self.escape(v, false, '"')
    }

    /// A name and the declaration it needs.
    fn name(&self, iri: &str) -> (String, String) {
        let (ns, local) = split(iri);
        if ns == RDF {
            return (format!("{}:{local}", self.r), String::new());
        }
        match draw(3, "prefix") {
            0 => (format!("n:{local}"), self.attr("xmlns:n", &ns)),
            1 if ns == V => (format!("v:{local}"), String::new()),
            _ => (local, self.attr("xmlns", &ns)),
        }
    }

    /// Takes the statements of a subject, all or some.
    fn take(&mut self, subject: &T, all: bool) -> Vec<&'a S> {
        let mut out = vec![];
        self.rest.retain(|s| {
            let mine = s.s == *subject && (all || !chance(1, 4, "elsewhere"));
            if mine {
                out.push(*s);
            }
            !mine
        });
        out
    }

    /// A node element; `anonymous` when nothing else refers to it.
    fn node(&mut self, subject: &T, anonymous: bool, lang: Option<&str>) -> String {
        self.depth += 1;
        let mine = self.take(subject, anonymous);
        let outer = self.base.clone();
        let out = self.node_of(subject, anonymous, mine, lang);
        self.base = outer;
        self.depth -= 1;
        out
    }

    /// Writes some statements as attributes; gives back the others.
    fn property_attributes(&self, mine: Vec<&'a S>, lang: &Option<String>, attrs: &mut String, all: bool) -> Vec<&'a S> {
        let mut used: Vec<&str> = vec![];
        let mut left = vec![];
        for s in mine {
            let fits = match &s.o {
                T::Lit { dt: None, lang: l, .. } => l == lang && s.p != rdf("type"),
                T::Iri(_) => s.p == rdf("type"),
                _ => false,
            };
            let (ns, local) = split(&s.p);
            if fits && (ns == V || ns == RDF) && !used.contains(&s.p.as_str()) && (all || chance(1, 3, "property-attribute")) {
                used.push(&s.p);
                let prefix = if ns == RDF { self.r } else { "v" };
                let v = &match &s.o {
                    T::Lit { v, .. } => v.clone(),
                    T::Iri(i) => self.reference(i),
                    _ => unreachable!(),
                };
                *attrs += &self.attr(&format!("{prefix}:{local}"), v);
            } else {
                left.push(s);
            }
        }
        left
    }

    fn node_of(&mut self, subject: &T, anonymous: bool, mut mine: Vec<&'a S>, lang: Option<&str>) -> String {
        let (mut name, mut attrs) = (format!("{}:Description", self.r), String::new());
        let type_of = |s: &S| s.p == rdf("type") && matches!(&s.o, T::Iri(i) if i == "http://www.w3.org/2002/07/owl#Class" || i == "http://xmlns.com/foaf/0.1/Person");
        if let Some(i) = mine.iter().position(|s| type_of(s)) {
            if chance(1, 2, "typed-node") {
                let T::Iri(t) = &mine.remove(i).o else { unreachable!() };
                (name, attrs) = self.name(t);
            }
        }
        attrs += &self.own_base(6);
        match subject {
            T::Iri(i) if self.id(i).is_some() && self.ids.insert(i.clone()) => {
                attrs += &self.attr(&format!("{}:ID", self.r), self.id(i).unwrap());
            }
            T::Iri(i) => attrs += &self.attr(&format!("{}:about", self.r), &self.reference(i)),
            T::Blank(b) if !anonymous => attrs += &self.attr(&format!("{}:nodeID", self.r), b),
            _ => {}
        }
        let mut lang = lang.map(String::from);
        if self.langs && chance(1, 3, "node-lang") {
            let l = *pick(&["en", "de", ""], "lang");
            attrs += &self.attr("xml:lang", l);
            lang = (!l.is_empty()).then(|| l.to_string());
        }
        let left = self.property_attributes(mine, &lang, &mut attrs, false);
        if left.is_empty() && chance(1, 2, "empty-tag") {
            return self.tag(&name, &attrs) + "/>";
        }
        let mut out = self.tag(&name, &attrs) + ">";
        let mut li = 0;
        for s in left {
            out += &self.ws();
            out += &self.property(s, lang.as_deref(), &mut li);
        }
        out + &self.ws() + &format!("</{name}{}>", if chance(1, 6, "end-space") { " " } else { "" })
    }

    /// Does it stand here without a name?
    fn nameless(&self, t: &T) -> bool {
        matches!(t, T::Blank(b) if self.nameless.contains(b.as_str()))
    }

    fn property(&mut self, s: &'a S, lang: Option<&str>, li: &mut u32) -> String {
        let outer = self.base.clone();
        let out = self.property_of(s, lang, li);
        self.base = outer;
        out
    }

    fn property_of(&mut self, s: &'a S, lang: Option<&str>, li: &mut u32) -> String {
        let (mut name, mut ns) = self.name(&s.p);
        let r = self.r;
        if s.p == rdf(&format!("_{}", *li + 1)) && chance(1, 2, "li") {
            *li += 1;
            name = format!("{r}:li");
        }
        ns += &self.own_base(10);
        if self.base.is_some() && s.flat() && chance(1, 6, "reify") {
            let page = self.base.as_ref().unwrap().split('#').next().unwrap();
            let id = format!("{page}#reified{}", self.ids.len());
            ns += &self.attr(&format!("{r}:ID"), &id[page.len() + 1..]);
            let n = T::iri(&id);
            self.said.push(S::new(n.clone(), &rdf("type"), T::Iri(rdf("Statement"))));
            self.said.push(S::new(n.clone(), &rdf("subject"), s.s.clone()));
            self.said.push(S::new(n.clone(), &rdf("predicate"), T::iri(&s.p)));
            self.said.push(S::new(n, &rdf("object"), s.o.clone()));
            self.ids.insert(id);
        }
        match &s.o {
            T::Iri(_) | T::Blank(_) => {
                let anonymous = self.nameless(&s.o);
                if anonymous && chance(1, 3, "parse-type-resource") {
                    self.depth += 1;
                    let mut out = self.tag(&name, &(ns + &self.attr(&format!("{r}:parseType"), "Resource"))) + ">";
                    let mut li = 0;
                    for inner in self.take(&s.o, true) {
                        out += &self.ws();
                        out += &self.property(inner, lang, &mut li);
                    }
                    self.depth -= 1;
                    return out + &self.ws() + &format!("</{name}>");
                }
                let fit = |s: &S| {
                    let (ns, _) = split(&s.p);
                    (ns == V || ns == RDF)
                        && match &s.o {
                            T::Lit { dt: None, lang: l, .. } => l.as_deref() == lang && s.p != rdf("type"),
                            T::Iri(_) => s.p == rdf("type"),
                            _ => false,
                        }
                };
                let theirs: Vec<&S> = self.rest.iter().copied().filter(|x| x.s == s.o).collect();
                let distinct = theirs.iter().map(|s| &s.p).collect::<BTreeSet<_>>().len() == theirs.len();
                if !theirs.is_empty() && distinct && theirs.iter().all(|s| fit(s)) && chance(2, 3, "attributes-on-property") {
                    // the whole node is in the attributes of the property
                    let mut attrs = match &s.o {
                        T::Iri(i) => self.attr(&format!("{r}:resource"), &self.reference(i)),
                        T::Blank(b) if !anonymous => self.attr(&format!("{r}:nodeID"), b),
                        _ => String::new(),
                    };
                    let mine = self.take(&s.o, true);
                    let left = self.property_attributes(mine, &lang.map(String::from), &mut attrs, true);
                    assert!(left.is_empty());
                    return self.tag(&name, &(ns + &attrs)) + "/>";
                }
                if anonymous || self.depth < 4 && chance(1, 3, "nested-node") {
                    let (a, n, z) = (self.ws(), self.node(&s.o, anonymous, lang), self.ws());
                    return format!("{}>{a}{n}{z}</{name}>", self.tag(&name, &ns));
                }
                let id = match &s.o {
                    T::Iri(i) => self.attr(&format!("{r}:resource"), &self.reference(i)),
                    T::Blank(b) => self.attr(&format!("{r}:nodeID"), b),
                    _ => unreachable!(),
                };
                let tag = self.tag(&name, &(ns + &id));
                if chance(1, 2, "empty-tag") {
                    format!("{tag}/>")
                } else {
                    format!("{tag}></{name}>")
                }
            }
            T::Coll(c) => {
                let mut out = self.tag(&name, &(ns + &self.attr(&format!("{r}:parseType"), "Collection"))) + ">";
                for m in c {
                    out += &self.ws();
                    let anonymous = self.nameless(m);
                    out += &self.node(m, anonymous, lang);
                }
                out + &self.ws() + &format!("</{name}>")
            }
            T::Lit { v, dt, lang: own } => {
                let mut attrs = ns;
                if let Some(d) = dt {
                    attrs += &self.attr(&format!("{r}:datatype"), &self.reference(d));
                } else if own.as_deref() != lang || chance(1, 4, "repeat-lang") && own.is_some() {
                    attrs += &self.attr("xml:lang", own.as_deref().unwrap_or(""));
                }
                let text = self.text(v);
                if text.is_empty() && chance(1, 2, "empty-tag") {
                    self.tag(&name, &attrs) + "/>"
                } else {
                    format!("{}>{text}</{name}>", self.tag(&name, &attrs))
                }
            }
            T::Stmt(_) => unreachable!(),
        }
    }
}

fn members<'a>(t: &'a T, f: &mut dyn FnMut(&'a str)) {
    match t {
        T::Blank(b) => f(b),
        T::Coll(c) => c.iter().for_each(|m| members(m, f)),
        _ => {}
    }
}

/// Blank nodes that may do without a name: at most one property refers to them, and they are not
/// within themselves.
fn may_be_nameless<'a>(items: &[&'a S]) -> BTreeSet<&'a str> {
    let mut owners: BTreeMap<&str, Vec<&T>> = BTreeMap::new();
    for s in items {
        if let T::Blank(b) = &s.s {
            owners.entry(b).or_default();
        }
        members(&s.o, &mut |b| owners.entry(b).or_default().push(&s.s));
    }
    let above = |b: &str| match owners[b].as_slice() {
        [T::Blank(o)] => Some(o.as_str()),
        _ => None,
    };
    let mut out = BTreeSet::new();
    for (b, o) in &owners {
        let mut at = above(b);
        let mut steps = 0;
        while let Some(x) = at {
            if x == *b || steps > owners.len() {
                break;
            }
            at = above(x);
            steps += 1;
        }
        if o.len() < 2 && at != Some(*b) {
            out.insert(*b);
        }
    }
    out
}

/// Not in XML 1.0, not even by reference.
fn needs_11(v: &str) -> bool {
    v.chars().any(|c| c < ' ' && !matches!(c, '\t' | '\n' | '\r'))
}

/// The document and what it says beside the statements.
fn xml(items: &[S]) -> (String, Vec<S>) {
    // said twice is said once, or a nested node would be needed twice
    let mut seen = G::new();
    let items: Vec<&S> = items.iter().filter(|s| seen.insert((*s).clone())).collect();
    let mut nameless = may_be_nameless(&items);
    nameless.retain(|_| chance(1, 2, "nameless"));
    let must_11 = items.iter().any(|s| match &s.o {
        T::Lit { v, .. } => needs_11(v),
        _ => false,
    });
    let v11 = must_11 || chance(1, 3, "xml-1.1");
    let version = if v11 {
        "<?xml version=\"1.1\" encoding=\"utf-8\"?>"
    } else {
        *pick(&["<?xml version=\"1.0\"?>", "<?xml version='1.0' encoding='UTF-8'?>", "", "<?xml version=\"1.0\" encoding=\"utf-8\" standalone=\"yes\"?>"], "declaration")
    };
    let mut x = X {
        rest: items.clone(),
        nameless,
        v11,
        r: *pick(&["rdf", "r", "RDF"], "rdf-prefix"),
        loose: chance(1, 2, "loose"),
        langs: chance(1, 2, "langs"),
        entity: chance(1, 4, "entities"),
        depth: 0,
        based: chance(1, 2, "xml-base"),
        base: None,
        ids: BTreeSet::new(),
        said: vec![],
    };
    let mut order: Vec<&S> = items.clone();
    if chance(1, 2, "reorder") {
        shuffle(&mut order);
    }
    let mut out = String::from(version);
    if !version.is_empty() && chance(1, 2, "newline") {
        out += "\n";
    }
    if x.entity {
        out += &format!("<!DOCTYPE {}:RDF [<!ENTITY v \"{V}\">]>\n", x.r);
    }
    let mut lang = None;
    let mut attrs = format!("{}{}", x.attr(&format!("xmlns:{}", x.r), RDF), x.attr("xmlns:v", V));
    attrs += &x.own_base(2);
    if x.langs && chance(1, 3, "root-lang") {
        attrs += &x.attr("xml:lang", "en");
        lang = Some("en");
    }
    let mut used = BTreeSet::new();
    for s in &items {
        members(&s.o, &mut |b| drop(used.insert(b)));
    }
    let mut nodes = vec![];
    for s in order {
        let nameless = x.nameless(&s.s);
        if nameless && matches!(&s.s, T::Blank(b) if used.contains(b.as_str())) {
            continue; // it is within the property that refers to it
        }
        while x.rest.contains(&s) {
            nodes.push(x.node(&s.s, nameless, lang));
        }
    }
    let twice = nodes.first().is_some_and(|n| n[..n.find('>').unwrap()].contains("xml:base=")) && attrs.contains("xml:base=");
    if nodes.len() == 1 && lang.is_none() && !twice && chance(1, 2, "no-rdf-element") {
        // the one node is the root
        probe("xml-node-as-root");
        let name = nodes[0].find(|c: char| c.is_whitespace() || c == '/' || c == '>').unwrap();
        out += &format!("{}{attrs}{}", &nodes[0][..name], &nodes[0][name..]);
    } else {
        out += &(x.tag(&format!("{}:RDF", x.r), &attrs) + ">");
        for n in nodes {
            out += &x.ws();
            out += &n;
        }
        out += &x.ws();
        out += &format!("</{}:RDF>", x.r);
    }
    out += pick(&["", "\n", "<!-- end -->"], "end");
    (out, x.said)
}
