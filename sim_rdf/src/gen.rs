//! The harness's own RDF terms, generators for them, and their conversion from and to the
//! library's types. What a document or a graph denotes is always decided on these terms.

use rdftk_core::model::graph::{Graph, GraphName};
use rdftk_core::model::literal::{DataType, LanguageTag, Literal};
use rdftk_core::model::statement::{BlankNode, Collection, ObjectNode, Statement, SubjectNode};
use rdftk_iri::{Iri, IriPrefixMap, Namespace};
use simkit::*;
use std::collections::BTreeSet;
use std::fmt;
use std::str::FromStr;

pub const RDF: &str = "http://www.w3.org/1999/02/22-rdf-syntax-ns#";
pub const RDFS: &str = "http://www.w3.org/2000/01/rdf-schema#";
pub const OWL: &str = "http://www.w3.org/2002/07/owl#";
pub const XSD: &str = "http://www.w3.org/2001/XMLSchema#";

pub fn rdf(name: &str) -> String {
    format!("{RDF}{name}")
}

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum T {
    Iri(String),
    Blank(String),
    Lit { v: String, dt: Option<String>, lang: Option<String> },
    Stmt(Box<S>),
    Coll(Vec<T>),
}

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct S {
    pub s: T,
    pub p: String,
    pub o: T,
}

pub type G = BTreeSet<S>;

impl fmt::Debug for T {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            T::Iri(i) => write!(f, "<{i}>"),
            T::Blank(b) => write!(f, "_:{b}"),
            T::Lit { v, dt, lang } => {
                write!(f, "{v:?}")?;
                if let Some(d) = dt {
                    write!(f, "^^<{d}>")?;
                }
                if let Some(l) = lang {
                    write!(f, "@{l}")?;
                }
                Ok(())
            }
            T::Stmt(s) => write!(f, "<<{s:?}>>"),
            T::Coll(c) => {
                write!(f, "(")?;
                for t in c {
                    write!(f, " {t:?}")?;
                }
                write!(f, " )")
            }
        }
    }
}

impl fmt::Debug for S {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?} <{}> {:?}", self.s, self.p, self.o)
    }
}

impl T {
    pub fn flat(&self) -> bool {
        !matches!(self, T::Stmt(_) | T::Coll(_))
    }
    pub fn lit(v: &str) -> T {
        T::Lit { v: v.into(), dt: None, lang: None }
    }
    pub fn typed(v: &str, dt: &str) -> T {
        T::Lit { v: v.into(), dt: Some(dt.into()), lang: None }
    }
    pub fn iri(i: &str) -> T {
        T::Iri(i.into())
    }
    pub fn blank(b: &str) -> T {
        T::Blank(b.into())
    }
}

impl S {
    pub fn new(s: T, p: &str, o: T) -> S {
        S { s, p: p.into(), o }
    }
    pub fn flat(&self) -> bool {
        self.s.flat() && self.o.flat()
    }

    /// Is there a statement in it?
    pub fn nests(&self) -> bool {
        fn within(t: &T) -> bool {
            match t {
                T::Stmt(_) => true,
                T::Coll(c) => c.iter().any(within),
                _ => false,
            }
        }
        within(&self.s) || within(&self.o)
    }
}

// ------------------------------------------------------------------------------------------------
// To and from the library
// ------------------------------------------------------------------------------------------------

pub fn iri(text: &str) -> Iri {
    match Iri::from_str(text) {
        Ok(n) => n,
        Err(e) => violation("valid-input-rejected", format!("Iri {text:?}: {e}")),
    }
}

pub fn iri_text(i: &Iri) -> String {
    let s: &str = i.as_ref();
    s.to_string()
}

pub fn blank(label: &str) -> BlankNode {
    match BlankNode::from_str(label) {
        Ok(b) => b,
        Err(e) => violation("valid-input-rejected", format!("BlankNode {label:?}: {e}")),
    }
}

pub fn literal(v: &str, dt: &Option<String>, lang: &Option<String>) -> Literal {
    match (dt, lang) {
        (Some(d), _) => Literal::with_data_type(v, DataType::from(iri(d))),
        (None, Some(l)) => match LanguageTag::from_str(l) {
            Ok(t) => Literal::with_language(v, t),
            Err(e) => violation("valid-input-rejected", format!("language {l:?}: {e:?}")),
        },
        _ => Literal::plain(v),
    }
}

pub fn subject(t: &T) -> SubjectNode {
    match t {
        T::Iri(i) => iri(i).into(),
        T::Blank(b) => blank(b).into(),
        T::Stmt(s) => statement(s).into(),
        _ => unreachable!("not a subject"),
    }
}

pub fn object(t: &T) -> ObjectNode {
    match t {
        T::Iri(i) => iri(i).into(),
        T::Blank(b) => blank(b).into(),
        T::Lit { v, dt, lang } => literal(v, dt, lang).into(),
        T::Stmt(s) => statement(s).into(),
        T::Coll(c) => Collection::from(c.iter().map(object).collect::<Vec<_>>()).into(),
    }
}

pub fn statement(s: &S) -> Statement {
    Statement::new(subject(&s.s), iri(&s.p), object(&s.o))
}

pub fn of_subject(n: &SubjectNode) -> T {
    match n {
        SubjectNode::Blank(b) => T::Blank(b.as_ref().to_string()),
        SubjectNode::Resource(i) => T::Iri(iri_text(i)),
        SubjectNode::Statement(s) => T::Stmt(Box::new(of_statement(s))),
    }
}

pub fn of_literal(l: &Literal) -> T {
    T::Lit {
        v: l.unescaped_form(),
        dt: l.data_type().map(|d| iri_text(d.as_iri())),
        lang: l.language().map(|l| l.to_string()),
    }
}

pub fn of_object(n: &ObjectNode) -> T {
    match n {
        ObjectNode::Blank(b) => T::Blank(b.as_ref().to_string()),
        ObjectNode::Resource(i) => T::Iri(iri_text(i)),
        ObjectNode::Literal(l) => of_literal(l),
        ObjectNode::Collection(c) => T::Coll(c.iter().map(of_object).collect()),
        ObjectNode::Statement(s) => T::Stmt(Box::new(of_statement(s))),
    }
}

pub fn of_statement(s: &Statement) -> S {
    S { s: of_subject(s.subject()), p: iri_text(s.predicate()), o: of_object(s.object()) }
}

pub fn of_graph(g: &Graph) -> Vec<S> {
    g.statements().map(of_statement).collect()
}

pub fn graph_set(g: &Graph) -> G {
    g.statements().map(of_statement).collect()
}

pub fn graph_name(t: &T) -> GraphName {
    match t {
        T::Iri(i) => GraphName::from(iri(i)),
        T::Blank(b) => GraphName::from(blank(b)),
        _ => unreachable!("not a graph name"),
    }
}

pub fn of_graph_name(n: &GraphName) -> T {
    match n {
        GraphName::BNode(b) => T::Blank(b.as_ref().to_string()),
        GraphName::Iri(i) => T::Iri(iri_text(i)),
    }
}

// ------------------------------------------------------------------------------------------------
// Generators
// ------------------------------------------------------------------------------------------------

pub const IRIS: &[&str] = &[
    "http://example.org/a",
    "http://example.org/b",
    "http://example.org/c",
    "http://example.org/a#x",
    "http://example.org/p/me",
    "http://example.org/",
    "urn:isbn:0451450523",
    "mailto:someone@example.org",
    "http://example.org/q?x=1&y=2",
    "http://example.org/it's(1)",
    "http://example.org/%C3%A9",
    "http://www.w3.org/1999/02/22-rdf-syntax-ns#nil",
    "http://www.w3.org/2002/07/owl#Class",
    "http://xmlns.com/foaf/0.1/Person",
    "http://example.org/v#1st",
    "http://example.org/v#a.b.",
    "http://example.org/v#a-b",
    "http://example.org/v#",
    "http://example.org/ns/x/y",
    "http://example.org/a,b;c=d",
    "tag:example.org,2024:x",
    "http://example.org/v#a/b",
    "http://example.org/v#a:b",
    "http://example.org/A",
    "http://example.org/r?to=http://example.org/v#p",
    "http://example.org/x?y/z",
];

pub const PREDICATES: &[&str] = &[
    "http://example.org/v#p",
    "http://example.org/v#q",
    "http://example.org/v/name",
    "http://www.w3.org/1999/02/22-rdf-syntax-ns#type",
    "http://www.w3.org/2000/01/rdf-schema#label",
    "http://www.w3.org/2000/01/rdf-schema#subClassOf",
    "http://www.w3.org/2002/07/owl#equivalentClass",
    "http://xmlns.com/foaf/0.1/knows",
    "http://www.w3.org/1999/02/22-rdf-syntax-ns#value",
    "http://www.w3.org/1999/02/22-rdf-syntax-ns#_1",
    "urn:ex:rel",
    "http://other.example/x-y_z.w",
    "http://www.w3.org/2000/01/rdf-schema#subPropertyOf",
    "http://www.w3.org/2000/01/rdf-schema#comment",
    "http://www.w3.org/2000/01/rdf-schema#domain",
    "http://purl.org/dc/terms/title",
    "http://www.w3.org/2004/02/skos/core#prefLabel",
];

/// Properties RDF/XML cannot name.
pub const NO_XML_NAME: &[&str] =
    &[
        "http://example.org/v#",
        "http://example.org/v/12",
        "http://example.org/p/(x)",
        "http://www.w3.org/1999/02/22-rdf-syntax-ns#li",
        "http://www.w3.org/1999/02/22-rdf-syntax-ns#ID",
        "http://www.w3.org/1999/02/22-rdf-syntax-ns#bagID",
        "http://www.w3.org/1999/02/22-rdf-syntax-ns#aboutEach",
        "http://www.w3.org/1999/02/22-rdf-syntax-ns#Description",
    ];

pub const BLANKS: &[&str] = &["b0", "b1", "x", "n1", "b.0", "_z", "0a", "é", "genid-1", "b..0", "a·b"];

/// The ends of the ranges of characters a blank node's label may have.
pub const NAME_EDGES: &[char] = &[
    '\u{b7}', '\u{c0}', '\u{d6}', '\u{d8}', '\u{f6}', '\u{f8}', '\u{2ff}', '\u{300}', '\u{36f}', '\u{370}', '\u{37d}', '\u{37f}', '\u{1fff}', '\u{200c}', '\u{200d}',
    '\u{203f}', '\u{2040}', '\u{2070}', '\u{218f}', '\u{2c00}', '\u{2fef}', '\u{3001}', '\u{d7ff}', '\u{f900}', '\u{fdcf}', '\u{fdf0}', '\u{fffd}', '\u{10000}', '\u{effff}',
];

pub const VALUES: &[&str] = &[
    "a",
    "b",
    "",
    "hello world",
    "line1\nline2",
    "tab\there",
    "say \"hi\"",
    "back\\slash",
    "back\\n",
    "cr\rlf\r\n",
    "é",
    "日本語",
    "\u{1F600}",
    "\u{10FFFF}\u{F0000}",
    "\u{D7FF}\u{E000}\u{FFFD}\u{10000}",
    "e\u{301}",
    "\u{7f}",
    "\u{85}\u{2028}",
    "\u{feff}x",
    "  padded  ",
    " ",
    "<b>&amp;</b>",
    "]]>",
    "it's",
    "'''",
    "\"\"\"",
    "{x|y}",
    "_:b0",
    "<http://example.org/a>",
    "# no comment",
    "1",
    "-0.50",
    "1e6",
    "true",
    "NaN",
    "@en",
    "end\\",
    "\"",
    "2024-02-29",
    ".",
    "\n",
    "\\u0041",
    "$1",
];

/// Characters XML cannot represent, or only by reference.
pub const CONTROLS: &[&str] =
    &["nul\u{0}", "\u{1}\u{b}\u{1f}", "\u{8}\u{c}", "\u{9f}", "\u{fffe}", "\u{ffff}"];

pub const DATATYPES: &[&str] = &[
    "http://www.w3.org/2001/XMLSchema#string",
    "http://www.w3.org/2001/XMLSchema#int",
    "http://www.w3.org/2001/XMLSchema#integer",
    "http://www.w3.org/2001/XMLSchema#long",
    "http://www.w3.org/2001/XMLSchema#decimal",
    "http://www.w3.org/2001/XMLSchema#double",
    "http://www.w3.org/2001/XMLSchema#float",
    "http://www.w3.org/2001/XMLSchema#boolean",
    "http://www.w3.org/2001/XMLSchema#anyURI",
    "http://www.w3.org/2001/XMLSchema#date",
    "http://www.w3.org/2001/XMLSchema#dateTime",
    "http://www.w3.org/2001/XMLSchema#unsignedByte",
    "http://www.w3.org/2001/XMLSchema#short",
    "http://www.w3.org/2001/XMLSchema#hexBinary",
    "http://www.w3.org/2001/XMLSchema#base64Binary",
    "http://www.w3.org/2001/XMLSchema#duration",
    "http://www.w3.org/2001/XMLSchema#QName",
    "http://www.w3.org/2001/XMLSchema#language",
    "http://www.w3.org/2001/XMLSchema#time",
    "http://www.w3.org/2001/XMLSchema#Name",
    "http://www.w3.org/2001/XMLSchema#byte",
    "http://www.w3.org/2001/XMLSchema#unsignedLong",
    "http://www.w3.org/2001/XMLSchema#unsignedInt",
    "http://www.w3.org/2001/XMLSchema#unsignedShort",
    "http://www.w3.org/1999/02/22-rdf-syntax-ns#XMLLiteral",
    "http://example.org/dt#mine",
    "urn:dt:x",
];

/// XML 1.1 has all of these characters.
pub fn xml_value(v: &str) -> bool {
    !v.contains(['\0', '\u{fffe}', '\u{ffff}'])
}

pub const LANGS: &[&str] = &["en", "de", "en-US", "zh-Hant", "de-CH-1996", "sl-Latn-IT-nedis-x-ab"];

/// What a generated graph may contain.
#[derive(Clone, Copy)]
pub struct Shape {
    pub statements: bool,
    pub collections: bool,
    pub blanks: bool,
    pub controls: bool,
    pub odd_predicates: bool,
    pub max: u64,
    pub mean: u64,
}

impl Shape {
    pub const FLAT: Shape =
        Shape { statements: false, collections: false, blanks: true, controls: true, odd_predicates: true, max: 24, mean: 6 };
    pub const FULL: Shape = Shape { statements: true, collections: true, ..Shape::FLAT };
}

/// Most choices come from the front of the pools, so that terms collide.
pub fn from_pool(pool: &'static [&'static str], front: usize, label: &'static str) -> &'static str {
    let n = if chance(1, 4, "whole-pool") { pool.len() } else { front.min(pool.len()) };
    pool[draw_usize(n, label)]
}

/// A word of few kinds: short ones that collide, words of the code under test, long ones.
fn word() -> String {
    match draw(8, "word") {
        0..=2 => pick(&["a", "b", "x1", "name", "A", "É"], "short").to_string(),
        3..=4 => dict::string("code-word").to_string(),
        5 => format!("{}{}", "w".repeat(dict::size(300, "word-size") as usize), pick(&["", "x", "1"], "word-end")),
        6 => format!("{}{}", draw(12, "number"), pick(&["", "a", "-", "_"], "number-end")),
        _ => (0..range(1, 5, "chars")).map(|_| *pick(&WORD_CHARS, "char")).collect(),
    }
}

const WORD_CHARS: [char; 24] = [
    'a', 'Z', '0', '9', '-', '_', '.', '~', '!', '$', '\'', '(', ')', '*', '+', ',', ';', '=', ':', '@', 'é', '·', 'z', '&',
];

/// The word with nothing but characters that stand for themselves in a path.
fn path_word() -> String {
    let w: String = word().chars().filter(|c| c.is_ascii_alphanumeric() || "-_.~!$'()*+,;=:@&".contains(*c)).collect();
    if w.trim_matches('.').is_empty() { "w".into() } else { w }
}

const STEMS: &[&str] = &[
    "http://example.org/",
    "http://example.org/v#",
    "http://example.org/ns/",
    "http://example.org/p/",
    "https://example.org/",
    "http://example.org:8080/",
    "http://user:pw@example.org/",
    "http://[2001:db8::1]/",
    "http://example.org/?q=",
    "http://example.org/?x=1&y=2#",
    "file:///tmp/",
    "urn:ex:",
    "urn:isbn:",
    "tag:example.org,2024:",
    "mailto:",
    "http://www.w3.org/1999/02/22-rdf-syntax-ns#",
    "http://www.w3.org/2000/01/rdf-schema#",
    "http://www.w3.org/2001/XMLSchema#",
    "http://www.w3.org/2002/07/owl#",
];

/// Names the RDF formats give a part to; the first ones are no properties in RDF/XML.
const RDF_TERMS: &[&str] = &[
    "li", "Description", "RDF", "ID", "about", "parseType", "resource", "nodeID", "datatype", "aboutEach", "aboutEachPrefix", "bagID", //
    "first", "rest", "nil", "List", "Statement", "subject", "predicate", "object", "Bag", "Seq", "Alt", "_1", "_2", "_10", "_0", "_01",
    "value", "type", "Property", "langString", "XMLLiteral", "HTML", "JSON", "PlainLiteral", "direction", "language",
];

/// An IRI put together: only ones that are their own canonical form.
fn made_iri() -> Option<String> {
    if chance(1, 6, "rdf-term") {
        return Some(rdf(pick(RDF_TERMS, "rdf-name")));
    }
    let mut t = pick(STEMS, "stem").to_string();
    let mut steps = Steps::new(4, 1);
    while steps.more() {
        t += &path_word();
        t += pick(&["", "/", "//", "%C3%A9", ":"], "between");
    }
    match draw(4, "iri-tail") {
        1 if !t.contains(['?', '#']) => t += &format!("?{}", path_word()),
        2 if !t.contains('#') => t += &format!("#{}", path_word()),
        3 if !t.contains('#') => t.push('#'),
        _ => {}
    }
    Iri::from_str(&t).ok().filter(|i| iri_text(i) == t).map(|_| t)
}

pub fn any_iri_text() -> String {
    if chance(1, 16, "made-iri") {
        if let Some(i) = made_iri() {
            return i;
        }
    }
    from_pool(IRIS, 4, "iri").to_string()
}

/// Nobody can doubt that RDF/XML can name this property: after the last `#` or `/` comes a name.
pub fn xml_nameable(p: &str) -> bool {
    if p.strip_prefix(RDF).is_some_and(|n| RDF_TERMS[..12].contains(&n)) {
        return false;
    }
    let n = &p[p.rfind(['#', '/', ':']).map_or(0, |k| k + 1)..];
    let first = n.chars().next();
    first.is_some_and(|c| c.is_ascii_alphabetic() || c == '_')
        && n.chars().all(|c| c.is_ascii_alphanumeric() || "-_.".contains(c))
}

pub fn any_predicate(shape: &Shape) -> String {
    if shape.odd_predicates && chance(1, 40, "odd-predicate") {
        return pick(NO_XML_NAME, "no-xml-name").to_string();
    }
    if chance(1, 20, "made-predicate") {
        if let Some(p) = made_iri() {
            if shape.odd_predicates || xml_nameable(&p) {
                return p;
            }
        }
    }
    from_pool(PREDICATES, 4, "predicate").to_string()
}

pub fn any_blank() -> T {
    if chance(1, 20, "made-blank") {
        let w: String = word().chars().filter(|c| c.is_alphanumeric() || "-_.·".contains(*c)).collect();
        // never the name of another node by chance: generated ones start with B or g
        let end = if chance(1, 4, "blank-edge") { String::from(*pick(NAME_EDGES, "name-edge")) } else { String::new() };
        return T::Blank(format!("m{}{end}", w.trim_end_matches('.')));
    }
    T::Blank(from_pool(BLANKS, 4, "blank").to_string())
}

/// Is this a name a generator here may have given?
pub fn own_blank(b: &str) -> bool {
    BLANKS.contains(&b) || b.starts_with('m')
}

pub fn any_value(shape: &Shape) -> String {
    if shape.controls && chance(1, 30, "control") {
        return pick(CONTROLS, "control-value").to_string();
    }
    match draw(14, "value-shape") {
        13 => {
            // a text of the code under test, alone or within
            let (a, b) = if chance(1, 2, "within") { (*pick(VALUES, "value"), *pick(VALUES, "value")) } else { ("", "") };
            let v = format!("{a}{}{b}", dict::string("code-text"));
            if shape.controls || xml_value(&v) { v } else { String::new() }
        }
        12 => {
            // many of one character
            let c = match draw(10, "run-of") {
                0 => '"',
                1 => '\\',
                2 => '\n',
                3 => ' ',
                4 => 'é',
                5 => '\u{1F600}',
                6 => ']',
                7 => 'a',
                8 => '\'',
                _ => dict::character("code-char"),
            };
            let c = if shape.controls || xml_value(&c.to_string()) { c } else { 'x' };
            let n = if chance(1, 4, "long-run") { dict::size(1100, "run") } else { draw(9, "run") } as usize;
            format!("{}{}{}", pick(&["", "a", "\n"], "run-head"), c.to_string().repeat(n), pick(&["", "b", "\n", "\""], "run-tail"))
        }
        11 => {
            // long enough for several transfers
            let n = if chance(1, 2, "odd-size") { dict::size(2100, "long") as usize } else { *pick(&[70usize, 300, 1100], "long") };
            let end = *pick(&["end", "end1", "End", "\n", "\"", "\\"], "long-end");
            pick(VALUES, "value").chars().cycle().take(n).chain(end.chars()).collect()
        }
        10 => format!("{}{}", pick(VALUES, "value"), pick(VALUES, "value")),
        9 => {
            let mut v = String::new();
            for _ in 0..range(1, 4, "value-chars") {
                let c = match draw(6, "char-class") {
                    0 => 0x20 + draw(0x5f, "ascii") as u32,
                    1 => 0xA0 + draw(0x500, "bmp") as u32,
                    2 => 0x2000 + draw(0x70, "punct") as u32,
                    3 => 0x10000 + draw(0x400, "astral") as u32,
                    4 => *pick(&[0x9u32, 0xA, 0xD, 0x22, 0x27, 0x5C, 0x3C, 0x26, 0x7F, 0xFFFD], "special"),
                    _ => 0x300 + draw(0x70, "combining") as u32,
                };
                v.push(char::from_u32(c).unwrap_or('?'));
            }
            v
        }
        _ => from_pool(VALUES, 9, "value").to_string(),
    }
}

pub fn any_lit(shape: &Shape) -> T {
    let v = any_value(shape);
    match draw(5, "lit-kind") {
        0..=1 => T::Lit { v, dt: None, lang: None },
        2 => T::Lit { v, dt: None, lang: Some(from_pool(LANGS, 2, "lang").to_string()) },
        3 => {
            let dt = if chance(1, 12, "made-datatype") { made_iri() } else { None };
            let dt = dt.unwrap_or_else(|| pick(DATATYPES, "datatype").to_string());
            T::Lit { v, dt: Some(dt), lang: None }
        }
        _ => {
            // a value of its type
            let (v, d) = *pick(
                &[
                    ("1", "int"),
                    ("1", "integer"),
                    ("1", "long"),
                    ("1", "short"),
                    ("1", "unsignedByte"),
                    ("1.5", "decimal"),
                    ("1.5", "double"),
                    ("1.5e0", "double"),
                    ("1.5", "float"),
                    ("true", "boolean"),
                    ("1", "boolean"),
                    ("NaN", "double"),
                    ("-INF", "float"),
                    ("http://example.org/a", "anyURI"),
                    ("2024-02-29", "date"),
                    ("007", "integer"),
                    ("+5", "integer"),
                    ("5.", "decimal"),
                    (".5", "decimal"),
                    ("1E5", "double"),
                    ("1e5", "decimal"),
                    ("", "int"),
                    ("x", "int"),
                    ("1 ", "integer"),
                    ("TRUE", "boolean"),
                    ("0", "boolean"),
                    ("+-1.5", "decimal"),
                    ("--.5", "decimal"),
                    ("+.5", "decimal"),
                    ("１.５", "decimal"),
                    ("1.5.2", "decimal"),
                    ("1_0.5", "decimal"),
                    (".", "decimal"),
                ],
                "typed-value",
            );
            T::typed(v, &format!("{XSD}{d}"))
        }
    }
}

pub fn any_subject(shape: &Shape, depth: u32) -> T {
    if shape.statements && depth < 3 && chance(1, 10, "nested-subject") {
        return T::Stmt(Box::new(any_statement(shape, depth + 1)));
    }
    if shape.blanks && chance(2, 5, "blank-subject") {
        any_blank()
    } else {
        T::Iri(any_iri_text())
    }
}

pub fn any_object(shape: &Shape, depth: u32) -> T {
    if shape.statements && depth < 3 && chance(1, 10, "nested-object") {
        return T::Stmt(Box::new(any_statement(shape, depth + 1)));
    }
    if shape.collections && depth < 3 && chance(1, 10, "collection") {
        if depth == 0 && chance(1, 24, "odd-collection") {
            if chance(1, 3, "deep") {
                // a collection in a collection in ...
                let mut t = any_object(shape, 3);
                for _ in 0..range(1, 9, "levels") {
                    t = T::Coll(if chance(1, 2, "alone") { vec![t] } else { vec![T::lit("m"), t] });
                }
                return t;
            }
            let n = dict::size(70, "collection-size");
            let same = chance(1, 3, "same-member").then(|| any_object(shape, 3));
            return T::Coll((0..n).map(|i| same.clone().unwrap_or_else(|| T::lit(&i.to_string()))).collect());
        }
        let n = draw(4, "collection-len");
        return T::Coll((0..n).map(|_| any_object(shape, depth + 1)).collect());
    }
    match draw(5, "object-kind") {
        0 => T::Iri(any_iri_text()),
        1..=2 => any_lit(shape),
        _ if shape.blanks => any_blank(),
        _ => T::Iri(any_iri_text()),
    }
}

pub fn any_statement(shape: &Shape, depth: u32) -> S {
    let s = any_subject(shape, depth);
    let p = any_predicate(shape);
    let o = any_object(shape, depth);
    S { s, p, o }
}

/// A term that could be mistaken for the given one.
pub fn near_term(t: &T, subject: bool) -> T {
    match t {
        T::Iri(i) => match draw(if subject { 3 } else { 5 }, "near-iri") {
            0 => T::Iri(format!("{i}{}", pick(&["x", "1", "/", "X"], "tail"))),
            1 => T::Blank("a".into()),
            2 => T::Iri(any_iri_text()),
            3 => T::lit(i),
            _ => T::typed(i, &format!("{XSD}anyURI")),
        },
        T::Blank(b) => match draw(if subject { 2 } else { 4 }, "near-blank") {
            0 => T::Blank(format!("{b}{}", pick(&["x", "1", "_"], "tail"))),
            1 => T::Blank(if b.starts_with('b') { b.replacen('b', "B", 1) } else { format!("b{b}") }),
            2 => T::lit(b),
            _ => T::lit(&format!("_:{b}")),
        },
        T::Lit { v, dt, lang } => {
            let (mut v, mut dt, mut lang) = (v.clone(), dt.clone(), lang.clone());
            match draw(7, "near-literal") {
                0 => v.push_str(pick(&["x", " ", "0", "\n", "\"", "e\u{301}"], "tail")),
                1 => v.insert_str(0, pick(&[" ", "x", "\n", "\""], "head")),
                2 => drop(v.pop()),
                3 => v = if v.chars().any(char::is_lowercase) { v.to_uppercase() } else { v.to_lowercase() },
                4 => (dt, lang) = (None, None),
                5 => (dt, lang) = (None, Some(pick(LANGS, "lang").to_string())),
                _ => (dt, lang) = (Some(pick(DATATYPES, "datatype").to_string()), None),
            }
            T::Lit { v, dt, lang }
        }
        T::Coll(c) => {
            let mut c = c.clone();
            match draw(6, "near-collection") {
                4..=5 if !c.is_empty() => {
                    let k = draw_usize(c.len(), "member");
                    c[k] = near_term(&c[k], false);
                }
                0 => drop(c.pop()),
                1 => c.reverse(),
                2 if !c.is_empty() => c.push(c[0].clone()),
                _ => c = vec![T::Coll(c)],
            }
            T::Coll(c)
        }
        T::Stmt(s) => T::Stmt(Box::new(near(s))),
    }
}

/// A statement that differs from the given one in one term, a little.
pub fn near(st: &S) -> S {
    let mut s = st.clone();
    match draw(5, "near") {
        0..=2 => s.o = near_term(&s.o, false),
        3 => s.s = near_term(&s.s, true),
        _ if s.p.ends_with(|c: char| c.is_ascii_alphanumeric()) && !NO_XML_NAME.contains(&s.p.as_str()) => {
            s.p += pick(&["x", "1", "X"], "tail")
        }
        _ => s.o = near_term(&s.o, false),
    }
    s
}

/// Many statements of one pattern.
fn crowd(shape: &Shape, out: &mut Vec<S>) {
    let n = dict::size(if chance(1, 4, "large") { 270 } else { 40 }, "crowd");
    let st = S { s: any_subject(shape, 3), p: any_predicate(shape), o: any_object(shape, 3) };
    let stem = pick(&["http://example.org/", "http://example.org/v#", "urn:ex:"], "crowd-stem");
    let kind = draw(if shape.blanks { 8 } else { 5 }, "crowd-kind");
    for i in 0..n {
        let mut s = st.clone();
        match kind {
            0 => s.o = T::lit(&format!("v{i}")),
            1 => s.o = T::Iri(format!("{stem}o{i}")),
            2 => s.s = T::Iri(format!("{stem}s{i}")),
            3 => s.p = format!("{stem}p{i}"),
            4 => s = S::new(T::Iri(format!("{stem}s{}", i / 3)), &format!("{stem}p{}", i % 3), T::lit(&i.to_string())),
            5 => s.s = T::Blank(format!("m{i}")),
            6 => s.o = T::Blank(format!("m{i}")),
            _ => s = S::new(T::Blank(format!("m{i}")), &st.p, T::Blank(format!("m{}", i + 1))),
        }
        out.push(s);
    }
}

/// A statement in a statement in ...
fn deep_statement(shape: &Shape) -> S {
    let mut s = any_statement(shape, 3);
    for _ in 0..range(2, 8, "levels") {
        let t = T::Stmt(Box::new(s));
        let p = any_predicate(shape);
        s = if chance(1, 2, "as-subject") { S { s: t, p, o: any_object(shape, 3) } } else { S { s: any_subject(shape, 3), p, o: t } };
    }
    s
}

/// Statements in insertion order; only flat ones may occur more than once.
pub fn any_statements(shape: &Shape) -> Vec<S> {
    let mut out: Vec<S> = vec![];
    if chance(1, 100, "with-crowd") {
        crowd(shape, &mut out);
        if chance(1, 3, "two-crowds") {
            crowd(shape, &mut out);
        }
    }
    let mut steps = Steps::new(shape.max, shape.mean);
    while steps.more() {
        let st = if !out.is_empty() && chance(1, 12, "again") {
            out[draw_usize(out.len(), "which")].clone()
        } else if !out.is_empty() && chance(1, 8, "near-another") {
            near(&out[draw_usize(out.len(), "which")])
        } else if shape.statements && chance(1, 60, "deep-statement") {
            deep_statement(shape)
        } else {
            any_statement(shape, 0)
        };
        if st.flat() || !out.contains(&st) {
            out.push(st);
        }
    }
    out
}

pub fn bind(m: &mut IriPrefixMap, prefix: &str, namespace: &str) {
    match Namespace::from_str(prefix) {
        Ok(p) => m.insert(p, iri(namespace)),
        Err(e) => violation("valid-input-rejected", format!("prefix {prefix:?}: {e}")),
    }
}

const ODD_PREFIXES: &[&str] = &[
    ":", "rdf:", "rdfs:", "xsd:", "owl:", "xml:", "xmlns:", "ns0:", "ns1:", "ns2:", "é:", "a.b:", "a-b:", "A:", "a:", "v:", "e:", "p:", "ns:",
    "b0:", "foaf:",
];

const ODD_NAMESPACES: &[&str] = &[
    "http://example.org/",
    "http://example.org/v",
    "http://example.org/v#",
    "http://example.org/v#a",
    "http://example.org/p/",
    "http://example.org/ns/",
    "http://example.org/ns/x/",
    "http://example.org/a",
    "http://example.org/?x=1&y=2#",
    "http://example.org/q?x=1&y=",
    "http://example.org/it's/",
    "http://example.org/%C3%A9/",
    "urn:ex:",
    "urn:isbn:",
    "mailto:",
    "http://www.w3.org/1999/02/22-rdf-syntax-ns#",
    "http://www.w3.org/2000/01/rdf-schema#",
    "http://www.w3.org/2001/XMLSchema#",
    "http://www.w3.org/2002/07/owl#",
    "http://www.w3.org/XML/1998/namespace#",
    "http://xmlns.com/foaf/0.1/",
    "http://other.example/",
];

pub fn any_mappings() -> IriPrefixMap {
    let mut m = if chance(1, 3, "common") { IriPrefixMap::common() } else { IriPrefixMap::default() };
    if chance(1, 2, "w3c") {
        for (p, n) in [("rdf:", RDF), ("rdfs:", RDFS), ("owl:", OWL), ("xsd:", XSD)] {
            bind(&mut m, p, n);
        }
    }
    if chance(1, 6, "odd-prefixes") {
        let mut steps = Steps::new(12, 3);
        while steps.more() {
            bind(&mut m, pick(ODD_PREFIXES, "odd-prefix"), pick(ODD_NAMESPACES, "odd-namespace"));
        }
        if chance(1, 4, "made-prefix") {
            // what is no prefix is refused
            let middle: String = (0..draw(3, "middle")).map(|_| *pick(&['.', '-', '0', '_', '.'], "joint")).collect();
            let edge = *pick(NAME_EDGES, "name-edge");
            let end = *pick(&["", ".", "-", "z", ":", "_"], "prefix-end");
            let p = if chance(1, 2, "edge-first") { format!("{edge}{middle}{end}:") } else { format!("p{middle}{edge}{end}:") };
            if let Ok(p) = Namespace::from_str(&p) {
                m.insert(p, iri(pick(ODD_NAMESPACES, "odd-namespace")));
            }
        }
    }
    if chance(1, 60, "many-prefixes") {
        for i in 0..dict::size(70, "prefixes") {
            bind(&mut m, &format!("p{i}:"), &format!("http://example.org/p{i}#"));
        }
    }
    if chance(1, 2, "own-prefix") {
        for (p, n) in [
            ("v:", "http://example.org/v#"),
            ("e:", "http://example.org/"),
            ("ns:", "http://example.org/ns/"),
            (":", "http://example.org/p/"),
        ] {
            if chance(1, 2, "bind") {
                bind(&mut m, p, n);
            }
        }
    }
    m
}

/// A graph of the given statements.
pub fn build(statements: &[S], unique: bool) -> Graph {
    let mut g = if unique { Graph::unique() } else { Graph::default() };
    for s in statements {
        g.insert(statement(s));
    }
    g
}

pub fn any_graph(shape: &Shape) -> (Graph, Vec<S>) {
    let statements = any_statements(shape);
    let mut g = build(&statements, chance(1, 2, "unique"));
    if chance(1, 2, "with-mappings") {
        g.set_prefix_mappings(any_mappings());
    }
    (g, statements)
}
