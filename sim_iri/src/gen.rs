//! Generators. Texts come with the canonical form this harness expects, written down by hand, so
//! the oracles do not ask the code under test what its own input was.

use rdftk_iri::{Iri, LocalName, Name, Namespace};
use simkit::*;
use std::str::FromStr;

/// (text handed to the library, canonical text)
pub const NAMESPACES: &[(&str, &str)] = &[
    ("https://e.org/a#", "https://e.org/a#"),
    ("https://e.org/a/", "https://e.org/a/"),
    ("<https://e.org/b#>", "https://e.org/b#"),
    ("http://e.org/a#", "http://e.org/a#"),
    ("HTTPS://E.org/a#", "https://e.org/a#"),
    ("https://e.org:443/a/", "https://e.org/a/"),
    ("https://e.org", "https://e.org/"),
    ("https://e.org/", "https://e.org/"),
    ("https://e.org/a/b/", "https://e.org/a/b/"),
    ("https://e.org/?q#", "https://e.org/?q#"),
    ("http://www.w3.org/1999/02/22-rdf-syntax-ns#", "http://www.w3.org/1999/02/22-rdf-syntax-ns#"),
    ("http://www.w3.org/2000/01/rdf-schema#", "http://www.w3.org/2000/01/rdf-schema#"),
    ("http://xmlns.com/foaf/0.1/", "http://xmlns.com/foaf/0.1/"),
    ("https://e.org/a", "https://e.org/a"),
    ("https://e.org/a?x=1", "https://e.org/a?x=1"),
    ("https://e.org/a/?x=1", "https://e.org/a/?x=1"),
    ("urn:x:", "urn:x:"),
    ("http://e.org:8080/p/", "http://e.org:8080/p/"),
    ("https://e.org/a/#", "https://e.org/a/#"),
];

/// Those a prefixed name can be expanded in: they end in `#`, or in `/` without a query.
pub fn expandable(canonical: &str) -> bool {
    canonical.ends_with('#') || (canonical.ends_with('/') && !canonical.contains('?'))
}

pub const PREFIXES: &[&str] = &[":", "a:", "b:", "rdf:", "rdfs:", "foaf:", "aa:", "a.b:", "A:", "é:", "x-1:"];

pub const NAMES: &[&str] =
    &["x", "y", "Bag", "_u", "0n", "a-b", "a.b", "n_1", "type", "label", "a..b", "Z9"];

/// A run of letters, digits, `_` and `-` that starts with a letter or `_`: a name by any account.
pub fn plain(n: &str) -> bool {
    let mut c = n.chars();
    c.next().is_some_and(|c| c.is_ascii_alphabetic() || c == '_') && c.all(|c| c.is_ascii_alphanumeric() || c == '_' || c == '-')
}

/// A word that is plain: short, long, or one the code under test is written with.
fn word() -> String {
    let mut w = String::new();
    match draw(4, "word") {
        0 => {
            let d: String = dict::string("word-text").chars().filter(|c| c.is_ascii_alphanumeric() || *c == '_' || *c == '-').take(64).collect();
            if plain(&d) {
                return d;
            }
            w.push('n');
            w.push_str(&d);
        }
        1 => {
            let n = 1 + dict::size(300, "word-length");
            for k in 0..n {
                w.push((b'a' + (k % 26) as u8) as char);
            }
        }
        _ => {
            w.push(*pick(&['a', 'Z', '_', 'm'], "word-start"));
            let mut more = Steps::new(12, 4);
            while more.more() {
                w.push(*pick(&['a', 'b', 'X', '0', '9', '_', '-', 'q'], "word-char"));
            }
        }
    }
    w
}

/// A name: one of the list, or a plain word.
pub fn name_text() -> String {
    if chance(1, 4, "made-name") { word() } else { pick(NAMES, "name").to_string() }
}

/// An absolute IRI already in canonical form.
fn made_iri_text() -> String {
    let mut s = pick(&["https://e.org/", "http://e.org/", "https://x.example/", "ftp://e.org/", "https://e.org:8443/"], "stem").to_string();
    let mut more = Steps::new(6, 2);
    while more.more() {
        s.push_str(&word());
        s.push('/');
    }
    if chance(1, 6, "made-query") {
        s.push_str("?q=");
        s.push_str(&word());
    }
    match draw(3, "made-tail") {
        0 => s.push('#'),
        1 => {
            s.push('#');
            s.push_str(&word());
        }
        _ if !s.contains('?') => s.push_str(&word()),
        _ => {}
    }
    s
}

pub fn ns(text: &str) -> Namespace {
    match Namespace::from_str(text) {
        Ok(n) => n,
        Err(e) => violation("valid-input-rejected", format!("Namespace {text:?}: {e}")),
    }
}

pub fn name(text: &str) -> Name {
    match Name::from_str(text) {
        Ok(n) => n,
        Err(e) => violation("valid-input-rejected", format!("Name {text:?}: {e}")),
    }
}

pub fn iri(text: &str) -> Iri {
    match Iri::from_str(text) {
        Ok(n) => n,
        Err(e) => violation("valid-input-rejected", format!("Iri {text:?}: {e}")),
    }
}

pub fn text(i: &Iri) -> String {
    let s: &str = i.as_ref();
    s.to_string()
}

/// A prefix (its text) and the value, built in one of the ways the API offers.
pub fn any_prefix() -> (String, Namespace) {
    let made;
    let p = if chance(1, 8, "made-prefix") {
        let w = word();
        made = format!("{}:", if w.starts_with(|c: char| c.is_ascii_alphabetic()) { w } else { format!("p{w}") });
        &made
    } else {
        *pick(PREFIXES, "prefix")
    };
    let v = match draw(4, "prefix-how") {
        0 => ns(p),
        1 => Namespace::new_unchecked(p),
        2 if p != ":" => Namespace::new_unchecked(p.trim_end_matches(':')),
        2 => Namespace::new_default(),
        _ if p != ":" => match Namespace::new_named(p.trim_end_matches(':')) {
            Ok(n) => n,
            Err(e) => violation("valid-input-rejected", format!("new_named {p:?}: {e}")),
        },
        _ => Namespace::new_default(),
    };
    (p.to_string(), v)
}

pub fn any_namespace_iri() -> (String, Iri) {
    if chance(1, 8, "made-ns") {
        let mut t = made_iri_text();
        // a fragment that is not empty makes no namespace
        t.truncate(t.find('#').map_or(t.len(), |at| at + 1));
        if !t.ends_with(['#', '/']) {
            t.push(if t.contains('?') { '#' } else { *pick(&['#', '/'], "made-end") });
        }
        let v = iri(&t);
        check!(text(&v) == t, "iri-canonical", "{t:?} parsed to {:?}", text(&v));
        return (t, v);
    }
    let (t, c) = *pick(NAMESPACES, "ns-iri");
    let v = iri(t);
    check!(text(&v) == c, "iri-canonical", "{t:?} parsed to {:?}, expected {c:?}", text(&v));
    (c.to_string(), v)
}

pub fn any_name() -> (String, Name) {
    let n = name_text();
    let v = if chance(1, 3, "name-how") { Name::new_unchecked(&n) } else { name(&n) };
    (n, v)
}

pub fn any_local() -> LocalName {
    let (_, p) = any_prefix();
    let (_, n) = any_name();
    match draw(3, "local-how") {
        0 => LocalName::new(p, n),
        1 => p.qualify(&n),
        _ => n.qualify(&p),
    }
}

/// Any IRI at all: namespaces, names in them, and shapes without a name.
pub const ODD_IRIS: &[&str] = &[
    "urn:isbn:0451450523",
    "mailto:someone@example.org",
    "urn:x",
    "data:text/plain,hi",
    "https://e.org/a/b?q=1",
    "https://e.org/?q=1#frag",
    "https://e.org/a#",
    "https://e.org/a/#",
    "https://e.org/a/x#",
    "https://e.org/a/%20",
    "https://e.org/a#%C3%A9",
    "https://e.org/a/b.",
    "https://e.org/a/.b",
    "https://e.org//x",
    "https://e.org/a//x",
    "file:///tmp/x",
    "file:///C:/x",
    "foo://h/x",
    "foo://h",
    "foo:/x/y",
    "foo:/.//x",
    "https://u:p@e.org/a/x",
    "https://e.org/a/x#y/z",
    "https://e.org/a#b#c",
    "https://[::1]/x",
    "https://e.org/a/-x",
    "https://e.org/a/x:y",
    "https://e.org/a?x#y",
    "urn:a#b",
    "tag:e.org,2024:x#y",
    "foo:x/y",
];

pub fn any_iri() -> Iri {
    match draw(6, "iri-shape") {
        5 => {
            let t = made_iri_text();
            let v = iri(&t);
            check!(text(&v) == t, "iri-canonical", "{t:?} parsed to {:?}", text(&v));
            v
        }
        4 => {
            // a name put in front of the query or fragment of a namespace
            let (c, _) = *pick(NAMESPACES, "ns-iri");
            let c = c.trim_start_matches('<').trim_end_matches('>');
            let at = c.find(['?', '#']).unwrap_or(c.len());
            iri(&format!("{}{}{}", &c[..at], name_text(), &c[at..]))
        }
        0 => {
            let (c, _) = *pick(NAMESPACES, "ns-iri");
            let c = c.trim_start_matches('<').trim_end_matches('>');
            iri(&format!("{c}{}", name_text()))
        }
        1 => any_namespace_iri().1,
        2 => iri(pick(ODD_IRIS, "odd")),
        _ => {
            let (c, _) = *pick(NAMESPACES, "ns-iri");
            let c = c.trim_start_matches('<').trim_end_matches('>');
            iri(&format!("{c}{}{}", name_text(), pick(&["", "#", "/", "?q", "#z", "/w", ".", "%41"], "tail")))
        }
    }
}
