//! The harness's own reading of RDF/XML: an XML parser (1.0 and 1.1, namespaces) and the RDF/XML
//! grammar. Strict: whatever it does not know is an error.

use crate::gen::*;
use crate::ttl::resolve;
use std::collections::BTreeMap;

pub const XML: &str = "http://www.w3.org/XML/1998/namespace";

#[derive(Debug, Clone)]
pub enum Node {
    El(El),
    Text(String),
}

/// (namespace, local name)
pub type Name = (String, String);

#[derive(Debug, Clone)]
pub struct El {
    pub name: Name,
    pub attrs: Vec<(Name, String)>,
    pub children: Vec<Node>,
}

type R<X> = Result<X, String>;

struct P {
    c: Vec<char>,
    i: usize,
    v11: bool,
    entities: BTreeMap<String, String>,
}

fn name_start(c: char) -> bool {
    matches!(c, ':' | '_' | 'A'..='Z' | 'a'..='z' | '\u{C0}'..='\u{D6}' | '\u{D8}'..='\u{F6}' | '\u{F8}'..='\u{2FF}'
        | '\u{370}'..='\u{37D}' | '\u{37F}'..='\u{1FFF}' | '\u{200C}'..='\u{200D}' | '\u{2070}'..='\u{218F}'
        | '\u{2C00}'..='\u{2FEF}' | '\u{3001}'..='\u{D7FF}' | '\u{F900}'..='\u{FDCF}' | '\u{FDF0}'..='\u{FFFD}'
        | '\u{10000}'..='\u{EFFFF}')
}

fn name_char(c: char) -> bool {
    name_start(c)
        || matches!(c, '-' | '.' | '0'..='9' | '\u{B7}' | '\u{300}'..='\u{36F}' | '\u{203F}'..='\u{2040}')
}

impl P {
    fn err<X>(&self, m: &str) -> R<X> {
        let from = self.i.saturating_sub(30);
        let at: String = self.c[from..(self.i + 20).min(self.c.len())].iter().collect();
        Err(format!("XML: {m} near {at:?}"))
    }
    fn peek(&self) -> Option<char> {
        self.c.get(self.i).copied()
    }
    fn at(&self, s: &str) -> bool {
        s.chars().enumerate().all(|(k, x)| self.c.get(self.i + k) == Some(&x))
    }
    fn eat(&mut self, s: &str) -> bool {
        if self.at(s) {
            self.i += s.chars().count();
            true
        } else {
            false
        }
    }
    fn expect(&mut self, s: &str) -> R<()> {
        if self.eat(s) {
            Ok(())
        } else {
            self.err(&format!("expected {s:?}"))
        }
    }
    fn ws(&mut self) -> bool {
        let from = self.i;
        while matches!(self.peek(), Some(' ' | '\t' | '\n' | '\r')) {
            self.i += 1;
        }
        self.i > from
    }
    /// A character standing for itself.
    fn literal_char(&self, c: char) -> bool {
        if self.v11 {
            matches!(c, '\t' | '\n' | '\r' | '\u{85}' | ' '..='\u{7E}' | '\u{A0}'..='\u{D7FF}' | '\u{E000}'..='\u{FFFD}' | '\u{10000}'..)
        } else {
            matches!(c, '\t' | '\n' | '\r' | ' '..='\u{D7FF}' | '\u{E000}'..='\u{FFFD}' | '\u{10000}'..)
        }
    }
    fn referable_char(&self, c: char) -> bool {
        if self.v11 {
            c != '\0' && c != '\u{FFFE}' && c != '\u{FFFF}'
        } else {
            self.literal_char(c)
        }
    }
    fn name(&mut self) -> R<String> {
        let mut n = String::new();
        while let Some(c) = self.peek() {
            if n.is_empty() && name_start(c) || !n.is_empty() && name_char(c) {
                n.push(c);
                self.i += 1;
            } else {
                break;
            }
        }
        if n.is_empty() {
            self.err("expected a name")
        } else {
            Ok(n)
        }
    }
    fn reference(&mut self) -> R<String> {
        self.expect("&")?;
        if self.eat("#") {
            let hex = self.eat("x");
            let mut d = String::new();
            while let Some(c) = self.peek() {
                if c == ';' {
                    break;
                }
                d.push(c);
                self.i += 1;
            }
            self.expect(";")?;
            let n = u32::from_str_radix(&d, if hex { 16 } else { 10 }).ok().and_then(char::from_u32);
            return match n {
                Some(c) if self.referable_char(c) => Ok(c.to_string()),
                _ => self.err("bad character reference"),
            };
        }
        let n = self.name()?;
        self.expect(";")?;
        Ok(match n.as_str() {
            "amp" => "&".into(),
            "lt" => "<".into(),
            "gt" => ">".into(),
            "quot" => "\"".into(),
            "apos" => "'".into(),
            other => match self.entities.get(other) {
                Some(v) => v.clone(),
                None => return self.err("unknown entity"),
            },
        })
    }
    fn quoted(&mut self, attribute: bool) -> R<String> {
        let q = match self.peek() {
            Some(q @ ('"' | '\'')) => q,
            _ => return self.err("expected a quote"),
        };
        self.i += 1;
        let mut v = String::new();
        loop {
            match self.peek() {
                None => return self.err("open attribute"),
                Some(c) if c == q => {
                    self.i += 1;
                    return Ok(v);
                }
                Some('<') if attribute => return self.err("'<' in an attribute"),
                Some('&') => v.push_str(&self.reference()?),
                Some('\t' | '\n' | '\r') if attribute => {
                    v.push(' ');
                    self.i += 1;
                }
                Some(c) if self.literal_char(c) => {
                    v.push(c);
                    self.i += 1;
                }
                _ => return self.err("character not allowed"),
            }
        }
    }
    fn misc(&mut self) -> R<()> {
        loop {
            self.ws();
            if self.at("<!--") {
                self.comment()?;
            } else if self.at("<?") {
                self.pi()?;
            } else {
                return Ok(());
            }
        }
    }
    fn until(&mut self, end: &str) -> R<String> {
        let mut v = String::new();
        while !self.at(end) {
            match self.peek() {
                Some(c) if self.literal_char(c) => v.push(c),
                _ => return self.err("open or bad content"),
            }
            self.i += 1;
        }
        self.expect(end)?;
        Ok(v)
    }
    fn comment(&mut self) -> R<()> {
        self.expect("<!--")?;
        let t = self.until("--")?;
        let _ = t;
        self.expect(">")
    }
    fn pi(&mut self) -> R<()> {
        self.expect("<?")?;
        if self.name()?.eq_ignore_ascii_case("xml") {
            return self.err("misplaced declaration");
        }
        self.until("?>").map(|_| ())
    }
    fn declaration(&mut self) -> R<()> {
        if !self.at("<?xml ") {
            return Ok(());
        }
        self.expect("<?xml")?;
        self.ws();
        self.expect("version=")?;
        match self.quoted(true)?.as_str() {
            "1.0" => {}
            "1.1" => self.v11 = true,
            _ => return self.err("bad version"),
        }
        if self.ws() && self.eat("encoding=") {
            if !self.quoted(true)?.eq_ignore_ascii_case("utf-8") {
                return self.err("encoding");
            }
            self.ws();
        }
        if self.eat("standalone=") {
            self.quoted(true)?;
            self.ws();
        }
        self.expect("?>")
    }
    fn doctype(&mut self) -> R<()> {
        if !self.eat("<!DOCTYPE") {
            return Ok(());
        }
        self.ws();
        self.name()?;
        self.ws();
        if self.eat("[") {
            loop {
                self.ws();
                if self.eat("]") {
                    break;
                }
                self.expect("<!ENTITY")?;
                self.ws();
                let n = self.name()?;
                self.ws();
                let v = self.quoted(false)?;
                self.ws();
                self.expect(">")?;
                self.entities.insert(n, v);
            }
            self.ws();
        }
        self.expect(">")
    }

    fn element(&mut self, outer: &BTreeMap<String, String>) -> R<El> {
        self.expect("<")?;
        let raw = self.name()?;
        let mut attrs: Vec<(String, String)> = vec![];
        let mut ns = outer.clone();
        let empty = loop {
            let spaced = self.ws();
            if self.eat("/>") {
                break true;
            }
            if self.eat(">") {
                break false;
            }
            if !spaced {
                return self.err("expected white space");
            }
            let n = self.name()?;
            self.ws();
            self.expect("=")?;
            self.ws();
            let v = self.quoted(true)?;
            if attrs.iter().any(|a| a.0 == n) {
                return self.err("attribute repeated");
            }
            if n == "xmlns" {
                ns.insert(String::new(), v.clone());
            } else if let Some(p) = n.strip_prefix("xmlns:") {
                if v.is_empty() && !self.v11 {
                    return self.err("empty namespace");
                }
                ns.insert(p.into(), v.clone());
            }
            attrs.push((n, v));
        };
        let resolve_name = |raw: &str, element: bool| -> R<Name> {
            match raw.split_once(':') {
                Some((p, l)) => {
                    if p.is_empty() || !l.starts_with(|c| name_start(c) && c != ':') || l.contains(':') {
                        return Err(format!("XML: bad qualified name {raw}"));
                    }
                    match ns.get(p) {
                        Some(n) if !n.is_empty() => Ok((n.clone(), l.into())),
                        _ => Err(format!("XML: undeclared prefix in {raw}")),
                    }
                }
                None if element => Ok((ns.get("").cloned().unwrap_or_default(), raw.into())),
                None => Ok((String::new(), raw.into())),
            }
        };
        let name = resolve_name(&raw, true)?;
        let mut resolved = vec![];
        for (n, v) in attrs {
            if n != "xmlns" && !n.starts_with("xmlns:") {
                let n = resolve_name(&n, false)?;
                if resolved.iter().any(|(m, _): &(Name, String)| *m == n) {
                    return self.err("attribute repeated");
                }
                resolved.push((n, v));
            }
        }
        let mut el = El { name, attrs: resolved, children: vec![] };
        if empty {
            return Ok(el);
        }
        let mut text = String::new();
        loop {
            if self.at("</") {
                self.expect("</")?;
                if self.name()? != raw {
                    return self.err("mismatched end tag");
                }
                self.ws();
                self.expect(">")?;
                if !text.is_empty() {
                    el.children.push(Node::Text(text));
                }
                return Ok(el);
            } else if self.at("<!--") {
                self.comment()?;
            } else if self.eat("<![CDATA[") {
                text.push_str(&self.until("]]>")?);
            } else if self.at("<?") {
                self.pi()?;
            } else if self.at("<") {
                if !text.is_empty() {
                    el.children.push(Node::Text(std::mem::take(&mut text)));
                }
                el.children.push(Node::El(self.element(&ns)?));
            } else if self.at("]]>") {
                return self.err("']]>' in content");
            } else {
                match self.peek() {
                    Some('&') => text.push_str(&self.reference()?),
                    Some(c) if self.literal_char(c) => {
                        text.push(c);
                        self.i += 1;
                    }
                    _ => return self.err("unexpected end or character"),
                }
            }
        }
    }
}

pub fn xml(text: &str) -> R<El> {
    let v11 = text.starts_with("<?xml") && text.split("?>").next().unwrap_or("").contains("1.1");
    let mut t = text.replace("\r\n", "\n");
    if v11 {
        t = t.replace("\r\u{85}", "\n").replace(['\u{85}', '\u{2028}'], "\n");
    }
    t = t.replace('\r', "\n");
    let mut p = P { c: t.chars().collect(), i: 0, v11: false, entities: BTreeMap::new() };
    p.declaration()?;
    p.misc()?;
    p.doctype()?;
    p.misc()?;
    let ns = [("xml".to_string(), XML.to_string())].into_iter().collect();
    let e = p.element(&ns)?;
    p.misc()?;
    if p.i < p.c.len() {
        return p.err("content after the document element");
    }
    Ok(e)
}

// ------------------------------------------------------------------------------------------------
// RDF/XML
// ------------------------------------------------------------------------------------------------

struct X {
    out: Vec<S>,
    next: u32,
}

#[derive(Clone)]
struct Ctx {
    base: String,
    lang: Option<String>,
}

fn is(n: &Name, local: &str) -> bool {
    n.0 == RDF && n.1 == local
}

fn attr<'a>(e: &'a El, ns: &str, local: &str) -> Option<&'a str> {
    e.attrs.iter().find(|(n, _)| n.0 == ns && n.1 == local).map(|(_, v)| v.as_str())
}

const SYNTAX: &[&str] = &["about", "ID", "nodeID", "resource", "parseType", "datatype", "RDF", "Description", "li", "aboutEach", "aboutEachPrefix", "bagID"];

impl X {
    fn fresh(&mut self) -> T {
        self.next += 1;
        T::Blank(format!("\u{2}{}", self.next))
    }

    fn inherit(&self, e: &El, c: &Ctx) -> Ctx {
        let mut c = c.clone();
        if let Some(b) = attr(e, XML, "base") {
            c.base = resolve(&c.base, b);
        }
        if let Some(l) = attr(e, XML, "lang") {
            c.lang = (!l.is_empty()).then(|| l.to_string());
        }
        c
    }

    fn iri(&self, c: &Ctx, r: &str) -> R<String> {
        let i = resolve(&c.base, r);
        let relative = !i.contains(':') || i.split(':').next().unwrap_or("").contains(['/', '?', '#']);
        if relative {
            return Err(format!("RDF/XML: relative IRI {r:?} without base"));
        }
        if i.contains([' ', '<', '>', '"', '{', '}', '|', '\\', '^', '`']) || i.chars().any(|c| c <= '\u{20}') {
            return Err(format!("RDF/XML: not an IRI {i:?}"));
        }
        Ok(i)
    }

    fn node(&mut self, e: &El, outer: &Ctx) -> R<T> {
        let c = self.inherit(e, outer);
        if e.name.0 == RDF && SYNTAX.contains(&e.name.1.as_str()) && e.name.1 != "Description" {
            return Err(format!("RDF/XML: rdf:{} as a node", e.name.1));
        }
        if e.name.0.is_empty() {
            return Err("RDF/XML: node element without namespace".into());
        }
        let ids: Vec<&str> = ["about", "ID", "nodeID"].into_iter().filter(|a| attr(e, RDF, a).is_some()).collect();
        let subject = match ids.as_slice() {
            [] => self.fresh(),
            ["about"] => T::Iri(self.iri(&c, attr(e, RDF, "about").unwrap())?),
            ["ID"] => T::Iri(self.iri(&c, &format!("#{}", attr(e, RDF, "ID").unwrap()))?),
            ["nodeID"] => T::Blank(attr(e, RDF, "nodeID").unwrap().to_string()),
            _ => return Err("RDF/XML: two identities".into()),
        };
        if !is(&e.name, "Description") {
            self.out.push(S::new(subject.clone(), &rdf("type"), T::Iri(format!("{}{}", e.name.0, e.name.1))));
        }
        self.property_attributes(e, &subject, &c)?;
        self.properties(e, &subject, &c)?;
        Ok(subject)
    }

    fn property_attributes(&mut self, e: &El, subject: &T, c: &Ctx) -> R<()> {
        for (n, v) in &e.attrs {
            if n.0 == XML || n.0 == RDF && ["about", "ID", "nodeID", "resource", "datatype", "parseType"].contains(&n.1.as_str()) {
                continue;
            }
            if n.0.is_empty() {
                return Err(format!("RDF/XML: attribute {} without namespace", n.1));
            }
            if n.0 == RDF && SYNTAX.contains(&n.1.as_str()) {
                return Err(format!("RDF/XML: rdf:{} as an attribute", n.1));
            }
            if is(n, "type") {
                let t = T::Iri(self.iri(c, v)?);
                self.out.push(S::new(subject.clone(), &rdf("type"), t));
            } else {
                self.out.push(S::new(
                    subject.clone(),
                    &format!("{}{}", n.0, n.1),
                    T::Lit { v: v.clone(), dt: None, lang: c.lang.clone() },
                ));
            }
        }
        Ok(())
    }

    fn nodes(&mut self, e: &El, c: &Ctx) -> R<Vec<T>> {
        let mut out = vec![];
        for n in &e.children {
            match n {
                Node::El(e) => out.push(self.node(e, c)?),
                Node::Text(t) if t.trim_matches([' ', '\t', '\n', '\r']).is_empty() => {}
                Node::Text(t) => return Err(format!("RDF/XML: text {t:?} among nodes")),
            }
        }
        Ok(out)
    }

    fn properties(&mut self, e: &El, subject: &T, c: &Ctx) -> R<()> {
        let mut li = 0;
        for n in &e.children {
            match n {
                Node::El(p) => self.property(p, subject, c, &mut li)?,
                Node::Text(t) if t.trim_matches([' ', '\t', '\n', '\r']).is_empty() => {}
                Node::Text(t) => return Err(format!("RDF/XML: text {t:?} among properties")),
            }
        }
        Ok(())
    }

    fn property(&mut self, e: &El, subject: &T, outer: &Ctx, li: &mut u32) -> R<()> {
        let c = self.inherit(e, outer);
        if e.name.0.is_empty() {
            return Err(format!("RDF/XML: property {} without namespace", e.name.1));
        }
        let predicate = if is(&e.name, "li") {
            *li += 1;
            rdf(&format!("_{li}"))
        } else if e.name.0 == RDF && SYNTAX.contains(&e.name.1.as_str()) {
            return Err(format!("RDF/XML: rdf:{} as a property", e.name.1));
        } else {
            format!("{}{}", e.name.0, e.name.1)
        };
        let elements: Vec<&El> =
            e.children.iter().filter_map(|n| if let Node::El(e) = n { Some(e) } else { None }).collect();
        let object = match attr(e, RDF, "parseType") {
            Some("Resource") => {
                let b = self.fresh();
                self.out.push(S { s: subject.clone(), p: predicate.clone(), o: b.clone() });
                self.properties(e, &b, &c)?;
                return self.reify(e, &c, subject, &predicate, &b);
            }
            Some("Collection") => {
                let members = self.nodes(e, &c)?;
                let mut rest = T::Iri(rdf("nil"));
                for m in members.into_iter().rev() {
                    let b = self.fresh();
                    self.out.push(S { s: b.clone(), p: rdf("first"), o: m });
                    self.out.push(S { s: b.clone(), p: rdf("rest"), o: rest });
                    rest = b;
                }
                rest
            }
            Some(_) => return Err("RDF/XML: XML literals are not compared".into()),
            None => {
                let resource = attr(e, RDF, "resource");
                let node_id = attr(e, RDF, "nodeID");
                if !elements.is_empty() {
                    if resource.or(node_id).or(attr(e, RDF, "datatype")).is_some() {
                        return Err("RDF/XML: resource with content".into());
                    }
                    let mut m = self.nodes(e, &c)?;
                    if m.len() != 1 {
                        return Err("RDF/XML: several nodes in one property".into());
                    }
                    m.remove(0)
                } else {
                    let text: String =
                        e.children.iter().map(|n| if let Node::Text(t) = n { t.as_str() } else { "" }).collect();
                    let own = e.attrs.iter().any(|(n, _)| {
                        n.0 != XML
                            && !(n.0 == RDF
                                && ["ID", "nodeID", "resource", "datatype"].contains(&n.1.as_str()))
                    });
                    if resource.is_some() || node_id.is_some() || own {
                        if !text.is_empty() {
                            return Err("RDF/XML: resource with content".into());
                        }
                        if resource.is_some() && node_id.is_some() || attr(e, RDF, "datatype").is_some() {
                            return Err("RDF/XML: two identities".into());
                        }
                        let o = match (resource, node_id) {
                            (Some(r), _) => T::Iri(self.iri(&c, r)?),
                            (_, Some(b)) => T::Blank(b.to_string()),
                            _ => self.fresh(),
                        };
                        self.property_attributes(e, &o, &c)?;
                        o
                    } else if let Some(d) = attr(e, RDF, "datatype") {
                        T::Lit { v: text, dt: Some(self.iri(&c, d)?), lang: None }
                    } else {
                        T::Lit { v: text, dt: None, lang: c.lang.clone() }
                    }
                }
            }
        };
        self.out.push(S { s: subject.clone(), p: predicate.clone(), o: object.clone() });
        self.reify(e, &c, subject, &predicate, &object)
    }

    fn reify(&mut self, e: &El, c: &Ctx, s: &T, p: &str, o: &T) -> R<()> {
        if let Some(id) = attr(e, RDF, "ID") {
            let n = T::Iri(self.iri(c, &format!("#{id}"))?);
            self.out.push(S::new(n.clone(), &rdf("type"), T::Iri(rdf("Statement"))));
            self.out.push(S { s: n.clone(), p: rdf("subject"), o: s.clone() });
            self.out.push(S { s: n.clone(), p: rdf("predicate"), o: T::iri(p) });
            self.out.push(S { s: n, p: rdf("object"), o: o.clone() });
        }
        Ok(())
    }
}

/// The triples an RDF/XML document denotes.
pub fn parse(text: &str) -> R<Vec<S>> {
    let e = xml(text)?;
    let mut x = X { out: vec![], next: 0 };
    let c = Ctx { base: String::new(), lang: None };
    if is(&e.name, "RDF") {
        let c = x.inherit(&e, &c);
        x.nodes(&e, &c)?;
    } else {
        x.node(&e, &c)?;
    }
    Ok(x.out)
}
