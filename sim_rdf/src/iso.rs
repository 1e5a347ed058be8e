//! What statements denote as triples, and whether two sets of triples are the same graph up to the
//! names of their blank nodes.

use crate::gen::*;
use std::collections::{BTreeMap, BTreeSet};

/// Replaces nested statements by their reification and collections by their list nodes. Fresh
/// nodes are `\u{1}n`, which no generator and no parser produces.
pub fn expand(statements: &[S], list_types: bool) -> G {
    let mut x = Expander { next: 0, list_types, out: G::new() };
    for s in statements {
        let sub = x.term(&s.s);
        let obj = x.term(&s.o);
        x.out.insert(S { s: sub, p: s.p.clone(), o: obj });
    }
    x.out
}

struct Expander {
    next: u32,
    list_types: bool,
    out: G,
}

impl Expander {
    fn fresh(&mut self) -> T {
        self.next += 1;
        T::Blank(format!("\u{1}{}", self.next))
    }

    fn term(&mut self, t: &T) -> T {
        match t {
            T::Stmt(st) => {
                let n = self.fresh();
                self.out.insert(S::new(n.clone(), &rdf("type"), T::Iri(rdf("Statement"))));
                let s = self.term(&st.s);
                self.out.insert(S { s: n.clone(), p: rdf("subject"), o: s });
                self.out.insert(S { s: n.clone(), p: rdf("predicate"), o: T::Iri(st.p.clone()) });
                let o = self.term(&st.o);
                self.out.insert(S { s: n.clone(), p: rdf("object"), o });
                n
            }
            T::Coll(c) => {
                let mut rest = T::Iri(rdf("nil"));
                for m in c.iter().rev() {
                    let n = self.fresh();
                    if self.list_types {
                        self.out.insert(S::new(n.clone(), &rdf("type"), T::Iri(rdf("List"))));
                    }
                    let f = self.term(m);
                    self.out.insert(S { s: n.clone(), p: rdf("first"), o: f });
                    self.out.insert(S { s: n.clone(), p: rdf("rest"), o: rest });
                    rest = n;
                }
                rest
            }
            other => other.clone(),
        }
    }
}

fn blanks(g: &G) -> BTreeSet<&str> {
    let mut b = BTreeSet::new();
    for s in g {
        for t in [&s.s, &s.o] {
            if let T::Blank(l) = t {
                b.insert(l.as_str());
            }
        }
    }
    b
}

type Colours<'a> = BTreeMap<&'a str, u64>;

fn mix(h: u64, v: u64) -> u64 {
    let mut z = (h ^ v).wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

fn hash_text(s: &str) -> u64 {
    s.bytes().fold(0xcbf2_9ce4_8422_2325, |h, b| (h ^ b as u64).wrapping_mul(0x100_0000_01b3))
}

fn colour(t: &T, c: &Colours<'_>) -> u64 {
    match t {
        T::Blank(b) => mix(1, c[b.as_str()]),
        other => mix(2, hash_text(&format!("{other:?}"))),
    }
}

fn refine<'a>(g: &'a G, mut c: Colours<'a>) -> Colours<'a> {
    let mut classes = 0;
    loop {
        let mut next: BTreeMap<&str, Vec<u64>> = c.iter().map(|(k, v)| (*k, vec![mix(3, *v)])).collect();
        for s in g {
            let p = hash_text(&s.p);
            let (cs, co) = (colour(&s.s, &c), colour(&s.o, &c));
            let own = s.s == s.o;
            if let T::Blank(b) = &s.s {
                next.get_mut(b.as_str()).unwrap().push(mix(mix(mix(4, p), co), own as u64));
            }
            if let T::Blank(b) = &s.o {
                next.get_mut(b.as_str()).unwrap().push(mix(mix(mix(5, p), cs), own as u64));
            }
        }
        c = next
            .into_iter()
            .map(|(k, mut v)| {
                let head = v.remove(0);
                v.sort_unstable();
                (k, v.into_iter().fold(head, mix))
            })
            .collect();
        let n = c.values().collect::<BTreeSet<_>>().len();
        if n == classes {
            return c;
        }
        classes = n;
    }
}

fn classes<'a>(c: &Colours<'a>) -> BTreeMap<u64, Vec<&'a str>> {
    let mut m: BTreeMap<u64, Vec<&str>> = BTreeMap::new();
    for (k, v) in c {
        m.entry(*v).or_default().push(k);
    }
    m
}

fn rename(g: &G, map: &BTreeMap<&str, &str>) -> G {
    let t = |t: &T| match t {
        T::Blank(b) => T::Blank(map[b.as_str()].to_string()),
        o => o.clone(),
    };
    g.iter().map(|s| S { s: t(&s.s), p: s.p.clone(), o: t(&s.o) }).collect()
}

fn search(a: &G, b: &G, ca: Colours<'_>, cb: Colours<'_>, budget: &mut u32) -> bool {
    let ca = refine(a, ca);
    let cb = refine(b, cb);
    let (ka, kb) = (classes(&ca), classes(&cb));
    if ka.len() != kb.len() || ka.iter().zip(&kb).any(|((x, v), (y, w))| x != y || v.len() != w.len()) {
        return false;
    }
    let split = ka.iter().filter(|(_, v)| v.len() > 1).min_by_key(|(_, v)| v.len());
    let Some((key, members)) = split else {
        let map: BTreeMap<&str, &str> = ka.iter().map(|(k, v)| (v[0], kb[k][0])).collect();
        return rename(a, &map) == *b;
    };
    let pin = mix(7, *key);
    for other in &kb[key] {
        if *budget == 0 {
            // only pairs that are not the same get this far
            return false;
        }
        *budget -= 1;
        let (mut xa, mut xb) = (ca.clone(), cb.clone());
        xa.insert(members[0], pin);
        xb.insert(other, pin);
        if search(a, b, xa, xb, budget) {
            return true;
        }
    }
    false
}

/// The same graph up to blank node names.
pub fn same(a: &G, b: &G) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let start = |g: &'_ G| -> Vec<String> { blanks(g).into_iter().map(String::from).collect() };
    let (na, nb) = (start(a), start(b));
    if na.len() != nb.len() {
        return false;
    }
    let ground = |g: &G| -> Vec<S> {
        g.iter().filter(|s| !matches!(s.s, T::Blank(_)) && !matches!(s.o, T::Blank(_))).cloned().collect()
    };
    if ground(a) != ground(b) {
        return false;
    }
    let ca = na.iter().map(|k| (k.as_str(), 0)).collect();
    let cb = nb.iter().map(|k| (k.as_str(), 0)).collect();
    search(a, b, ca, cb, &mut 2_000)
}

/// One line per difference, for reports: triples without blank nodes first.
pub fn difference(expected: &G, got: &G) -> String {
    let mut lines = vec![];
    for s in expected.difference(got) {
        lines.push(format!("expected {s:?}"));
    }
    for s in got.difference(expected) {
        lines.push(format!("got {s:?}"));
    }
    lines.truncate(12);
    lines.join(" | ")
}
