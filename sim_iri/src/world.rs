//! The prefix map together with its reference model: a list of (prefix, namespace) pairs.

use crate::gen;
use rdftk_iri::{Iri, IriPrefixMap, Namespace};
use simkit::*;
use std::collections::BTreeSet;

#[derive(Clone, Default, Debug, PartialEq, Eq)]
pub struct Model {
    pub pairs: Vec<(String, String)>,
}

impl Model {
    pub fn bind(&mut self, p: &str, i: &str) {
        if self.pairs.iter().any(|(a, b)| a == p && b != i) {
            probe("evict-by-prefix");
        }
        if self.pairs.iter().any(|(a, b)| a != p && b == i) {
            probe("evict-by-iri");
        }
        self.pairs.retain(|(a, b)| a != p && b != i);
        self.pairs.push((p.into(), i.into()));
    }
    pub fn unbind(&mut self, p: &str) {
        self.pairs.retain(|(a, _)| a != p);
    }
    pub fn ns(&self, p: &str) -> Option<&str> {
        self.pairs.iter().find(|(a, _)| a == p).map(|(_, b)| b.as_str())
    }
    pub fn prefix(&self, i: &str) -> Option<&str> {
        self.pairs.iter().find(|(_, b)| b == i).map(|(a, _)| a.as_str())
    }
    pub fn set(&self) -> BTreeSet<(String, String)> {
        self.pairs.iter().cloned().collect()
    }
}

pub fn observed(map: &IriPrefixMap) -> Vec<(String, String)> {
    map.mappings().map(|(p, i)| (p.as_ref().to_string(), gen::text(i))).collect()
}

/// Everything observable about `map` agrees with `model`.
pub fn audit(map: &IriPrefixMap, model: &Model, when: &str) {
    op();
    let pairs = observed(map);
    let set: BTreeSet<_> = pairs.iter().cloned().collect();
    check!(set.len() == pairs.len(), "enumeration", "{when}: a mapping is listed twice: {pairs:?}");
    check!(set == model.set(), "bindings", "{when}: map holds {pairs:?}, expected {:?}", model.pairs);
    check!(map.len() == model.pairs.len(), "size", "{when}: len {} expected {}", map.len(), model.pairs.len());
    check!(map.is_empty() == model.pairs.is_empty(), "size", "{when}: is_empty {}", map.is_empty());
    let ps: Vec<String> = map.prefixes().map(|p| p.as_ref().to_string()).collect();
    let is: Vec<String> = map.iris().map(gen::text).collect();
    let mut a: Vec<_> = ps.clone();
    let mut b: Vec<_> = model.pairs.iter().map(|p| p.0.clone()).collect();
    a.sort();
    b.sort();
    check!(a == b, "enumeration", "{when}: prefixes {a:?} expected {b:?}");
    let mut a: Vec<_> = is.clone();
    let mut b: Vec<_> = model.pairs.iter().map(|p| p.1.clone()).collect();
    a.sort();
    b.sort();
    check!(a == b, "enumeration", "{when}: namespaces {a:?} expected {b:?}");
    for (p, i) in &model.pairs {
        lookup(map, model, p, i, when);
    }
    let d = map.get_default_namespace().map(gen::text);
    check!(d.as_deref() == model.ns(":"), "default", "{when}: default {d:?} expected {:?}", model.ns(":"));
}

pub fn lookup(map: &IriPrefixMap, model: &Model, p: &str, i: &str, when: &str) {
    let got = map.get_namespace(&Namespace::new_unchecked(p)).map(gen::text);
    check!(got.as_deref() == model.ns(p), "lookup-prefix", "{when}: {p:?} -> {got:?}, expected {:?}", model.ns(p));
    let key: Iri = gen::iri(i);
    let got = map.get_prefix(&key).map(|p| p.as_ref().to_string());
    check!(got.as_deref() == model.prefix(i), "lookup-iri", "{when}: {i:?} -> {got:?}, expected {:?}", model.prefix(i));
}

/// A starting map: empty, or one of the predefined ones, whose content is taken over as it is.
pub fn initial() -> (IriPrefixMap, Model) {
    let map = match draw(3, "initial") {
        0 => IriPrefixMap::empty(),
        1 => IriPrefixMap::default(),
        _ => IriPrefixMap::common(),
    };
    let mut m = Model::default();
    for (p, i) in observed(&map) {
        check!(m.ns(&p).is_none() && m.prefix(&i).is_none(), "bindings", "initial map is not one-to-one: {p} {i}");
        m.pairs.push((p, i));
    }
    audit(&map, &m, "initial");
    (map, m)
}
