//! A strict parser of Turtle (with RDF-star), N-Triples and N-Quads, written from the W3C grammars:
//! the oracle for what a written document says.

use crate::gen::*;
use std::collections::BTreeMap;

pub fn ntriples(text: &str) -> Result<Vec<S>, String> {
    lines(text, false).map(|v| v.into_iter().map(|(s, _)| s).collect())
}

pub fn nquads(text: &str) -> Result<Vec<(S, Option<T>)>, String> {
    lines(text, true)
}

fn lines(text: &str, quads: bool) -> Result<Vec<(S, Option<T>)>, String> {
    let mut out = vec![];
    for (i, line) in text.split(['\n', '\r']).enumerate() {
        let mut p = P::new(line);
        p.skip_blank();
        if p.at_end() || p.peek() == Some('#') {
            continue;
        }
        let r = (|| {
            let s = p.nt_node(false)?;
            p.skip_blank();
            let T::Iri(pred) = p.nt_iri()? else { unreachable!() };
            p.skip_blank();
            let o = p.nt_node(true)?;
            p.skip_blank();
            let g = if quads && p.peek() != Some('.') { Some(p.nt_node(false)?) } else { None };
            p.skip_blank();
            p.expect('.')?;
            p.skip_blank();
            if !p.at_end() && p.peek() != Some('#') {
                return p.fail("end of line");
            }
            Ok((S { s, p: pred, o }, g))
        })();
        out.push(r.map_err(|e: String| format!("line {}: {e} in {line:?}", i + 1))?);
    }
    Ok(out)
}

/// The triples of a Turtle document, nested (RDF-star) terms kept, collections as list nodes.
pub fn turtle(text: &str) -> Result<Vec<S>, String> {
    let mut p = P::new(text);
    p.document().map_err(|e| {
        let before: String = p.c[p.i.saturating_sub(60)..p.i].iter().collect();
        let after: String = p.c[p.i..(p.i + 40).min(p.c.len())].iter().collect();
        format!("{e} at {before:?} >>> {after:?}")
    })?;
    Ok(p.out)
}

/// Triples as the library prints them: lists may be in quoted triples too.
pub fn printed(text: &str) -> Result<Vec<S>, String> {
    let mut p = P::new(text);
    p.lists_quoted = true;
    p.document()?;
    Ok(p.out)
}

/// The quads of a TriG document, terms as in `turtle`.
pub fn trig(text: &str) -> Result<Vec<(S, Option<T>)>, String> {
    let mut p = P::new(text);
    let mut out = vec![];
    p.blocks(&mut out).map_err(|e| {
        let before: String = p.c[p.i.saturating_sub(60)..p.i].iter().collect();
        let after: String = p.c[p.i..(p.i + 40).min(p.c.len())].iter().collect();
        format!("{e} at {before:?} >>> {after:?}")
    })?;
    Ok(out)
}

struct P {
    c: Vec<char>,
    i: usize,
    prefixes: BTreeMap<String, String>,
    base: Option<String>,
    out: Vec<S>,
    anon: u32,
    lists_quoted: bool,
}

type R<X> = Result<X, String>;

fn is_base(c: char) -> bool {
    matches!(c, 'A'..='Z' | 'a'..='z' | '\u{C0}'..='\u{D6}' | '\u{D8}'..='\u{F6}' | '\u{F8}'..='\u{2FF}'
        | '\u{370}'..='\u{37D}' | '\u{37F}'..='\u{1FFF}' | '\u{200C}'..='\u{200D}' | '\u{2070}'..='\u{218F}'
        | '\u{2C00}'..='\u{2FEF}' | '\u{3001}'..='\u{D7FF}' | '\u{F900}'..='\u{FDCF}'
        | '\u{FDF0}'..='\u{FFFD}' | '\u{10000}'..='\u{EFFFF}')
}

fn is_u(c: char) -> bool {
    is_base(c) || c == '_'
}

fn is_pn(c: char) -> bool {
    is_u(c) || c == '-' || c.is_ascii_digit() || c == '\u{B7}' || ('\u{300}'..='\u{36F}').contains(&c)
        || ('\u{203F}'..='\u{2040}').contains(&c)
}

impl P {
    fn new(text: &str) -> P {
        P { c: text.chars().collect(), i: 0, prefixes: BTreeMap::new(), base: None, out: vec![], anon: 0, lists_quoted: false }
    }
    fn at_end(&self) -> bool {
        self.i >= self.c.len()
    }
    fn peek(&self) -> Option<char> {
        self.c.get(self.i).copied()
    }
    fn peek_at(&self, n: usize) -> Option<char> {
        self.c.get(self.i + n).copied()
    }
    fn next(&mut self) -> Option<char> {
        let c = self.peek();
        self.i += c.is_some() as usize;
        c
    }
    fn fail<X>(&self, wanted: &str) -> R<X> {
        Err(format!("expected {wanted}, found {:?} at char {}", self.peek(), self.i))
    }
    fn expect(&mut self, c: char) -> R<()> {
        if self.peek() == Some(c) {
            self.i += 1;
            Ok(())
        } else {
            self.fail(&format!("{c:?}"))
        }
    }
    fn looking_at(&self, s: &str) -> bool {
        s.chars().enumerate().all(|(k, ch)| self.peek_at(k) == Some(ch))
    }
    fn keyword(&self, s: &str) -> bool {
        s.chars().enumerate().all(|(k, ch)| self.peek_at(k).is_some_and(|c| c.eq_ignore_ascii_case(&ch)))
            && self.peek_at(s.len()).is_none_or(|c| c.is_whitespace() || c == '<')
    }
    /// Spaces and tabs.
    fn skip_blank(&mut self) {
        while matches!(self.peek(), Some(' ' | '\t')) {
            self.i += 1;
        }
    }
    /// White space and comments.
    fn ws(&mut self) {
        loop {
            match self.peek() {
                Some(' ' | '\t' | '\r' | '\n') => self.i += 1,
                Some('#') => {
                    while !matches!(self.peek(), None | Some('\n' | '\r')) {
                        self.i += 1;
                    }
                }
                _ => return,
            }
        }
    }

    fn uchar(&mut self, n: usize) -> R<char> {
        let mut v = 0u32;
        for _ in 0..n {
            let Some(d) = self.peek().and_then(|c| c.to_digit(16)) else { return self.fail("hex digit") };
            v = v.wrapping_mul(16).wrapping_add(d);
            self.i += 1;
        }
        char::from_u32(v).ok_or_else(|| format!("\\u escape {v:X} is no character"))
    }

    fn iriref(&mut self) -> R<String> {
        self.expect('<')?;
        let mut s = String::new();
        loop {
            match self.next() {
                Some('>') => return Ok(s),
                Some('\\') => match self.next() {
                    Some('u') => s.push(self.uchar(4)?),
                    Some('U') => s.push(self.uchar(8)?),
                    _ => return self.fail("escape in IRI"),
                },
                Some(c) if c > ' ' && !"<\"{}|^`".contains(c) => s.push(c),
                _ => {
                    self.i -= 1;
                    return self.fail("IRI character");
                }
            }
        }
    }

    fn nt_iri(&mut self) -> R<T> {
        let i = self.iriref()?;
        let scheme = i.split(':').next().unwrap_or("");
        if !i.contains(':') || scheme.is_empty() || !scheme.starts_with(|c: char| c.is_ascii_alphabetic())
            || !scheme.chars().all(|c| c.is_ascii_alphanumeric() || "+-.".contains(c))
        {
            return Err(format!("<{i}> is not absolute"));
        }
        Ok(T::Iri(i))
    }

    fn blank_label(&mut self) -> R<T> {
        self.expect('_')?;
        self.expect(':')?;
        let mut s = String::new();
        match self.peek() {
            Some(c) if is_u(c) || c.is_ascii_digit() => {
                s.push(c);
                self.i += 1;
            }
            _ => return self.fail("blank node label"),
        }
        while let Some(c) = self.peek() {
            if is_pn(c) || (c == '.' && self.dot_goes_on(|c| is_pn(c))) {
                s.push(c);
                self.i += 1;
            } else {
                break;
            }
        }
        Ok(T::Blank(s))
    }

    /// After the dots at the current position comes a character of the name.
    fn dot_goes_on(&self, f: impl Fn(char) -> bool) -> bool {
        let mut k = 0;
        while self.peek_at(k) == Some('.') {
            k += 1;
        }
        self.peek_at(k).is_some_and(f)
    }

    fn nt_node(&mut self, literals: bool) -> R<T> {
        match self.peek() {
            Some('<') => self.nt_iri(),
            Some('_') => self.blank_label(),
            Some('"') if literals => {
                let v = self.string()?;
                self.literal_tail(v, true)
            }
            _ => self.fail("term"),
        }
    }

    /// Any of the four string forms (N-Triples callers only get here with one `"`).
    fn string(&mut self) -> R<String> {
        let q = self.next().unwrap();
        let long = self.peek() == Some(q) && self.peek_at(1) == Some(q);
        if long {
            self.i += 2;
        }
        let mut s = String::new();
        loop {
            match self.next() {
                None => return self.fail("end of string"),
                Some('\\') => match self.next() {
                    Some('t') => s.push('\t'),
                    Some('b') => s.push('\u{8}'),
                    Some('n') => s.push('\n'),
                    Some('r') => s.push('\r'),
                    Some('f') => s.push('\u{c}'),
                    Some(c @ ('"' | '\'' | '\\')) => s.push(c),
                    Some('u') => s.push(self.uchar(4)?),
                    Some('U') => s.push(self.uchar(8)?),
                    _ => {
                        self.i -= 1;
                        return self.fail("string escape");
                    }
                },
                Some(c) if c == q => {
                    if !long {
                        return Ok(s);
                    }
                    if self.peek() == Some(q) && self.peek_at(1) == Some(q) {
                        self.i += 2;
                        return Ok(s);
                    }
                    s.push(c);
                }
                Some('\n' | '\r') if !long => {
                    self.i -= 1;
                    return self.fail("string character");
                }
                Some(c) => s.push(c),
            }
        }
    }

    fn literal_tail(&mut self, v: String, nt: bool) -> R<T> {
        if self.peek() == Some('@') {
            self.i += 1;
            let mut l = String::new();
            while let Some(c) = self.peek() {
                let ok = c.is_ascii_alphabetic()
                    || (c.is_ascii_digit() && l.contains('-'))
                    || (c == '-' && !l.is_empty() && !l.ends_with('-'));
                if !ok {
                    break;
                }
                l.push(c);
                self.i += 1;
            }
            if l.is_empty() || l.ends_with('-') {
                return self.fail("language tag");
            }
            return Ok(T::Lit { v, dt: None, lang: Some(l) });
        }
        if self.looking_at("^^") {
            self.i += 2;
            let T::Iri(d) = (if nt { self.nt_iri()? } else { self.iri()? }) else { unreachable!() };
            return Ok(T::Lit { v, dt: Some(d), lang: None });
        }
        Ok(T::Lit { v, dt: None, lang: None })
    }

    // --------------------------------------------------------------------------------------------

    /// Whether there was a directive here.
    fn any_directive(&mut self) -> R<bool> {
        if self.looking_at("@prefix") || self.looking_at("@base") {
            let prefix = self.looking_at("@prefix");
            self.i += if prefix { 7 } else { 5 };
            self.directive(prefix)?;
            self.ws();
            self.expect('.')?;
        } else if self.keyword("PREFIX") || self.keyword("BASE") {
            let prefix = self.keyword("PREFIX");
            self.i += if prefix { 6 } else { 4 };
            self.directive(prefix)?;
        } else {
            return Ok(false);
        }
        Ok(true)
    }

    /// TriG: graphs in braces, and triples of the default graph without.
    fn blocks(&mut self, out: &mut Vec<(S, Option<T>)>) -> R<()> {
        loop {
            self.ws();
            if self.at_end() {
                return Ok(());
            }
            if self.any_directive()? {
                continue;
            }
            let keyword = self.keyword("GRAPH");
            if keyword {
                self.i += 5;
                self.ws();
            }
            let start = self.i;
            let name = match self.peek() {
                Some('{') if !keyword => None,
                Some('[') => {
                    self.i += 1;
                    self.ws();
                    if self.peek() == Some(']') {
                        self.i += 1;
                        Some(self.anon())
                    } else {
                        None
                    }
                }
                Some('_') => Some(self.blank_label()?),
                Some('(') => None,
                Some('<') if self.looking_at("<<") => None,
                _ => Some(self.iri()?),
            };
            self.ws();
            if self.peek() == Some('{') {
                self.i += 1;
                loop {
                    self.ws();
                    if self.peek() == Some('}') {
                        self.i += 1;
                        break;
                    }
                    self.triples()?;
                    self.ws();
                    match self.peek() {
                        Some('.') => self.i += 1,
                        Some('}') => {}
                        _ => return self.fail("'.' or '}'"),
                    }
                }
                out.extend(self.out.drain(..).map(|s| (s, name.clone())));
            } else if keyword {
                return self.fail("'{'");
            } else {
                self.i = start;
                self.triples()?;
                self.ws();
                self.expect('.')?;
                out.extend(self.out.drain(..).map(|s| (s, None)));
            }
        }
    }

    fn document(&mut self) -> R<()> {
        loop {
            self.ws();
            if self.at_end() {
                return Ok(());
            }
            if !self.any_directive()? {
                self.triples()?;
                self.ws();
                self.expect('.')?;
            }
        }
    }

    fn directive(&mut self, prefix: bool) -> R<()> {
        self.ws();
        if prefix {
            let p = self.pn_prefix();
            self.expect(':')?;
            self.ws();
            let i = self.iriref()?;
            let i = self.resolve(i)?;
            self.prefixes.insert(p, i);
        } else {
            let i = self.iriref()?;
            let i = self.resolve(i)?;
            self.base = Some(i);
        }
        Ok(())
    }

    fn pn_prefix(&mut self) -> String {
        let mut s = String::new();
        if !self.peek().is_some_and(is_base) {
            return s;
        }
        while let Some(c) = self.peek() {
            if is_pn(c) || (c == '.' && self.dot_goes_on(is_pn)) {
                s.push(c);
                self.i += 1;
            } else {
                break;
            }
        }
        s
    }

    fn iri(&mut self) -> R<T> {
        if self.peek() == Some('<') {
            let i = self.iriref()?;
            return self.resolve(i).map(T::Iri);
        }
        let p = self.pn_prefix();
        if self.peek() != Some(':') {
            return self.fail("IRI or prefixed name");
        }
        self.i += 1;
        let Some(ns) = self.prefixes.get(&p).cloned() else { return Err(format!("prefix {p:?} is not declared")) };
        let mut local = String::new();
        loop {
            match self.peek() {
                Some('%') => {
                    let hex = |c: Option<char>| c.is_some_and(|c| c.is_ascii_hexdigit());
                    if !hex(self.peek_at(1)) || !hex(self.peek_at(2)) {
                        return self.fail("percent escape");
                    }
                    for _ in 0..3 {
                        local.push(self.next().unwrap());
                    }
                }
                Some('\\') => {
                    self.i += 1;
                    match self.next() {
                        Some(c) if "_~.-!$&'()*+,;=/?#@%".contains(c) => local.push(c),
                        _ => return self.fail("escape in local name"),
                    }
                }
                Some(c) if c == ':' || is_u(c) || c.is_ascii_digit() || (!local.is_empty() && is_pn(c)) => {
                    local.push(c);
                    self.i += 1;
                }
                Some('.') if !local.is_empty()
                    && self.dot_goes_on(|c| is_pn(c) || c == ':' || c == '%' || c == '\\') =>
                {
                    local.push('.');
                    self.i += 1;
                }
                _ => break,
            }
        }
        Ok(T::Iri(format!("{ns}{local}")))
    }

    fn resolve(&self, i: String) -> R<String> {
        let scheme = i.split([':', '/', '?', '#']).next().unwrap_or("");
        let absolute = i[scheme.len()..].starts_with(':')
            && scheme.starts_with(|c: char| c.is_ascii_alphabetic())
            && scheme.chars().all(|c| c.is_ascii_alphanumeric() || "+-.".contains(c));
        if absolute {
            return Ok(i);
        }
        let Some(base) = &self.base else { return Err(format!("<{i}> is relative, and there is no base")) };
        Ok(resolve(base, &i))
    }

    fn anon(&mut self) -> T {
        self.anon += 1;
        T::Blank(format!("\u{2}{}", self.anon))
    }

    fn triples(&mut self) -> R<()> {
        if self.peek() == Some('[') {
            let (s, properties) = self.bracket()?;
            self.ws();
            if properties && matches!(self.peek(), Some('.' | '}')) {
                return Ok(());
            }
            return self.predicate_objects(&s);
        }
        let s = match self.peek() {
            Some('(') => self.collection()?,
            Some('_') => self.blank_label()?,
            Some('<') if self.looking_at("<<") => self.quoted()?,
            _ => self.iri()?,
        };
        self.predicate_objects(&s)
    }

    fn bracket(&mut self) -> R<(T, bool)> {
        self.expect('[')?;
        let n = self.anon();
        self.ws();
        if self.peek() == Some(']') {
            self.i += 1;
            return Ok((n, false));
        }
        self.predicate_objects(&n)?;
        self.ws();
        self.expect(']')?;
        Ok((n, true))
    }

    fn verb(&mut self) -> R<String> {
        if self.peek() == Some('a')
            && self.peek_at(1).is_none_or(|c| c.is_whitespace() || "<\"'_[(".contains(c))
        {
            self.i += 1;
            return Ok(rdf("type"));
        }
        match self.iri()? {
            T::Iri(i) => Ok(i),
            _ => unreachable!(),
        }
    }

    fn predicate_objects(&mut self, s: &T) -> R<()> {
        loop {
            self.ws();
            let p = self.verb()?;
            loop {
                self.ws();
                let o = self.object()?;
                self.out.push(S { s: s.clone(), p: p.clone(), o });
                self.ws();
                if self.peek() != Some(',') {
                    break;
                }
                self.i += 1;
            }
            let mut more = false;
            while self.peek() == Some(';') {
                self.i += 1;
                self.ws();
                more = true;
            }
            if !more || matches!(self.peek(), Some('.' | ']' | '}') | None) {
                return Ok(());
            }
        }
    }

    fn collection(&mut self) -> R<T> {
        self.expect('(')?;
        let mut members = vec![];
        loop {
            self.ws();
            if self.peek() == Some(')') {
                self.i += 1;
                break;
            }
            members.push(self.object()?);
        }
        let mut rest = T::Iri(rdf("nil"));
        for m in members.into_iter().rev() {
            let n = self.anon();
            self.out.push(S { s: n.clone(), p: rdf("first"), o: m });
            self.out.push(S { s: n.clone(), p: rdf("rest"), o: rest });
            rest = n;
        }
        Ok(rest)
    }

    fn quoted(&mut self) -> R<T> {
        self.i += 2;
        self.ws();
        let s = match self.peek() {
            Some('_') => self.blank_label()?,
            Some('<') if self.looking_at("<<") => self.quoted()?,
            _ => self.iri()?,
        };
        self.ws();
        let p = self.verb()?;
        self.ws();
        let o = match self.peek() {
            Some('[' | '(') if !self.lists_quoted => return self.fail("quoted object"),
            _ => self.object()?,
        };
        self.ws();
        if !self.looking_at(">>") {
            return self.fail(">>");
        }
        self.i += 2;
        Ok(T::Stmt(Box::new(S { s, p, o })))
    }

    fn object(&mut self) -> R<T> {
        match self.peek() {
            Some('"' | '\'') => {
                let v = self.string()?;
                self.literal_tail(v, false)
            }
            Some('[') => self.bracket().map(|b| b.0),
            Some('(') => self.collection(),
            Some('_') => self.blank_label(),
            Some('<') if self.looking_at("<<") => self.quoted(),
            Some('+' | '-' | '.' | '0'..='9') => self.number(),
            _ => {
                for b in ["true", "false"] {
                    if self.looking_at(b) && !self.peek_at(b.len()).is_some_and(|c| is_pn(c) || c == ':') {
                        self.i += b.len();
                        return Ok(T::typed(b, &format!("{XSD}boolean")));
                    }
                }
                self.iri()
            }
        }
    }

    fn number(&mut self) -> R<T> {
        let mut s = String::new();
        if matches!(self.peek(), Some('+' | '-')) {
            s.push(self.next().unwrap());
        }
        let mut digits = 0;
        while self.peek().is_some_and(|c| c.is_ascii_digit()) {
            s.push(self.next().unwrap());
            digits += 1;
        }
        let exponent = |p: &P, at: usize| {
            matches!(p.peek_at(at), Some('e' | 'E'))
                && (p.peek_at(at + 1).is_some_and(|c| c.is_ascii_digit())
                    || (matches!(p.peek_at(at + 1), Some('+' | '-'))
                        && p.peek_at(at + 2).is_some_and(|c| c.is_ascii_digit())))
        };
        let mut kind = "integer";
        if self.peek() == Some('.')
            && (self.peek_at(1).is_some_and(|c| c.is_ascii_digit()) || (digits > 0 && exponent(self, 1)))
        {
            kind = "decimal";
            s.push('.');
            self.i += 1;
            while self.peek().is_some_and(|c| c.is_ascii_digit()) {
                s.push(self.next().unwrap());
                digits += 1;
            }
        }
        if digits == 0 {
            return self.fail("number");
        }
        if exponent(self, 0) {
            kind = "double";
            s.push(self.next().unwrap());
            if matches!(self.peek(), Some('+' | '-')) {
                s.push(self.next().unwrap());
            }
            while self.peek().is_some_and(|c| c.is_ascii_digit()) {
                s.push(self.next().unwrap());
            }
        }
        if self.peek().is_some_and(|c| is_pn(c) || c == ':') {
            return self.fail("end of number");
        }
        Ok(T::typed(&s, &format!("{XSD}{kind}")))
    }
}

/// RFC 3986, 5.2.
pub fn resolve(base: &str, reference: &str) -> String {
    let split = |s: &str| -> (Option<String>, Option<String>, String, Option<String>, Option<String>) {
        let (s, frag) = match s.split_once('#') {
            Some((a, b)) => (a.to_string(), Some(b.to_string())),
            None => (s.to_string(), None),
        };
        let (s, query) = match s.split_once('?') {
            Some((a, b)) => (a.to_string(), Some(b.to_string())),
            None => (s, None),
        };
        let (scheme, s) = match s.split_once(':') {
            Some((a, b)) if !a.is_empty() && !a.contains('/') => (Some(a.to_string()), b.to_string()),
            _ => (None, s),
        };
        let (auth, path) = match s.strip_prefix("//") {
            Some(r) => match r.find('/') {
                Some(k) => (Some(r[..k].to_string()), r[k..].to_string()),
                None => (Some(r.to_string()), String::new()),
            },
            None => (None, s),
        };
        (scheme, auth, path, query, frag)
    };
    let (bs, ba, bp, bq, _) = split(base);
    let (rs, ra, rp, rq, rf) = split(reference);
    let (s, a, p, q) = if rs.is_some() {
        (rs, ra, dots(&rp), rq)
    } else if ra.is_some() {
        (bs, ra, dots(&rp), rq)
    } else if rp.is_empty() {
        let q = if rq.is_some() { rq } else { bq };
        (bs, ba, bp, q)
    } else if rp.starts_with('/') {
        (bs, ba, dots(&rp), rq)
    } else {
        let merged = if ba.is_some() && bp.is_empty() {
            format!("/{rp}")
        } else {
            format!("{}{rp}", &bp[..bp.rfind('/').map_or(0, |k| k + 1)])
        };
        (bs, ba, dots(&merged), rq)
    };
    let mut out = String::new();
    if let Some(s) = s {
        out += &s;
        out.push(':');
    }
    if let Some(a) = a {
        out += "//";
        out += &a;
    }
    out += &p;
    if let Some(q) = q {
        out.push('?');
        out += &q;
    }
    if let Some(f) = rf {
        out.push('#');
        out += &f;
    }
    out
}

fn dots(path: &str) -> String {
    let mut out: Vec<&str> = vec![];
    let mut parts = path.split('/').peekable();
    while let Some(seg) = parts.next() {
        let last = parts.peek().is_none();
        match seg {
            "." => {
                if last {
                    out.push("");
                }
            }
            ".." => {
                if out.len() > 1 {
                    out.pop();
                }
                if last {
                    out.push("");
                }
            }
            s => out.push(s),
        }
    }
    out.join("/")
}
