//! C23: sorted and hashed indexes hold exactly the distinct terms and statements put into them, in
//! one order that every caller and process agrees on.

use crate::gen::*;
use rdftk_core::model::graph::GraphName;
use rdftk_core::model::literal::{DataType, Literal};
use rdftk_core::model::statement::{BlankNode, Collection, ObjectNode, Statement, SubjectNode};
use rdftk_iri::{Iri, Name};
use simkit::*;
use std::cell::RefCell;
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::fmt::Debug;
use std::hash::{DefaultHasher, Hash, Hasher};
use std::rc::Rc;
use std::str::FromStr;
use std::sync::Arc;

const SHAPE: Shape = Shape { max: 10, mean: 5, ..Shape::FULL };

// ------------------------------------------------------------------------------------------------
// The same term by any of the ways to make it
// ------------------------------------------------------------------------------------------------

fn a_literal(t: &T) -> Literal {
    match t {
        T::Lit { v, dt: Some(d), .. } if chance(1, 2, "by-type-iri") => Literal::with_data_type_iri(v.as_str(), iri(d)),
        T::Lit { v, dt, lang } => literal(v, dt, lang),
        _ => unreachable!(),
    }
}

fn a_collection(c: &[T]) -> Collection {
    if c.len() == 1 && chance(1, 2, "of-one") {
        let by_ref = chance(1, 2, "by-reference");
        macro_rules! of {
            ($v:expr) => {{
                let v = $v;
                if by_ref {
                    Collection::from(&v)
                } else {
                    Collection::from(v)
                }
            }};
        }
        return match &c[0] {
            _ if chance(1, 4, "of-a-node") => of!(an_object(&c[0])),
            T::Iri(i) => of!(iri(i)),
            T::Blank(b) if chance(1, 2, "by-name") => of!(a_name(b)),
            T::Blank(b) => of!(a_blank(b)),
            T::Stmt(s) if chance(1, 2, "shared") => of!(Arc::new(a_statement(s))),
            T::Stmt(s) => of!(a_statement(s)),
            T::Lit { .. } => of!(a_literal(&c[0])),
            T::Coll(_) => of!(an_object(&c[0])),
        };
    }
    if c.is_empty() && chance(1, 2, "nil") {
        return Collection::nil();
    }
    match draw(3, "collection-way") {
        0 => c.iter().map(an_object).collect(),
        1 => Collection::from(Vec::from(a_collection(c))),
        _ => Collection::from(c.iter().map(an_object).collect::<Vec<_>>()),
    }
}

fn a_name(b: &str) -> Name {
    match Name::from_str(b) {
        Ok(n) => n,
        Err(e) => violation("valid-input-rejected", format!("Name {b:?}: {e}")),
    }
}

fn a_blank(b: &str) -> BlankNode {
    match draw(4, "blank-way") {
        0 => blank(&format!("_:{b}")),
        1 => BlankNode::from(a_name(b)),
        2 => BlankNode::from(&a_name(b)),
        _ => blank(b),
    }
}

fn an_object(t: &T) -> ObjectNode {
    let by_ref = chance(1, 2, "by-reference");
    macro_rules! node {
        ($v:expr) => {{
            let v = $v;
            if by_ref {
                ObjectNode::from(&v)
            } else {
                ObjectNode::from(v)
            }
        }};
    }
    match t {
        T::Iri(i) => node!(iri(i)),
        T::Blank(b) if chance(1, 3, "by-name") => node!(a_name(b)),
        T::Blank(b) => node!(a_blank(b)),
        T::Lit { .. } => node!(a_literal(t)),
        T::Coll(c) => node!(a_collection(c)),
        T::Stmt(s) if chance(1, 2, "shared") => node!(Arc::new(a_statement(s))),
        T::Stmt(s) => node!(a_statement(s)),
    }
}

fn a_subject(t: &T) -> SubjectNode {
    let by_ref = chance(1, 2, "by-reference");
    macro_rules! node {
        ($v:expr) => {{
            let v = $v;
            if by_ref {
                SubjectNode::from(&v)
            } else {
                SubjectNode::from(v)
            }
        }};
    }
    if chance(1, 4, "from-object") {
        match an_object(t).to_subject() {
            Some(s) => return s,
            None => violation("conversion", format!("{t:?} is no subject")),
        }
    }
    match t {
        T::Iri(i) => node!(iri(i)),
        T::Blank(b) if chance(1, 3, "by-name") => node!(a_name(b)),
        T::Blank(b) => node!(a_blank(b)),
        T::Stmt(s) if chance(1, 2, "shared") => node!(Arc::new(a_statement(s))),
        T::Stmt(s) => node!(a_statement(s)),
        _ => unreachable!(),
    }
}

fn a_statement(s: &S) -> Statement {
    match draw(3, "statement-way") {
        0 => {
            // changed into it from another
            let mut st = Statement::rdf_type(iri("urn:x"), iri("urn:y"));
            st.set_subject(a_subject(&s.s));
            st.set_predicate(iri(&s.p));
            st.set_object(an_object(&s.o));
            st
        }
        1 if s.p == rdf("type") => Statement::rdf_type(a_subject(&s.s), an_object(&s.o)),
        _ => Statement::new(a_subject(&s.s), iri(&s.p), an_object(&s.o)),
    }
}

// ------------------------------------------------------------------------------------------------
// Kinds of keys
// ------------------------------------------------------------------------------------------------

trait Key: Ord + Hash + Clone + Debug {
    type Model: Ord + Clone + Debug;
    const KIND: &'static str;
    fn make(m: &Self::Model) -> Self;
    fn model(&self) -> Self::Model;
    /// Checks the comparisons with other types.
    fn across(&self, _: &Self::Model, _other: &Self::Model) {}
}

impl Key for Statement {
    type Model = S;
    const KIND: &'static str = "statement";
    fn make(m: &S) -> Self {
        a_statement(m)
    }
    fn model(&self) -> S {
        of_statement(self)
    }
    fn across(&self, m: &S, _: &S) {
        let nested = matches!(m.s, T::Stmt(_)) || matches!(m.o, T::Stmt(_));
        check!(self.is_nested() == nested, "comparison", "{m:?} is nested: {}", self.is_nested());
    }
}

impl Key for ObjectNode {
    type Model = T;
    const KIND: &'static str = "object";
    fn make(m: &T) -> Self {
        an_object(m)
    }
    fn model(&self) -> T {
        of_object(self)
    }
    fn across(&self, m: &T, o: &T) {
        let got = match o {
            T::Iri(i) => *self == iri(i),
            T::Blank(b) => *self == blank(b),
            T::Lit { .. } => *self == a_literal(o),
            T::Coll(c) => *self == a_collection(c),
            T::Stmt(s) if chance(1, 2, "shared") => *self == Arc::new(a_statement(s)),
            T::Stmt(s) => *self == a_statement(s),
        };
        check!(got == (m == o), "comparison", "the object {m:?} == the term {o:?}: {got}");
        let is = [self.is_resource(), self.is_blank(), self.is_literal(), self.is_collection(), self.is_statement()];
        let has = [
            self.as_resource().is_some(),
            self.as_blank().is_some(),
            self.as_literal().is_some(),
            self.as_collection().is_some(),
            self.as_statement().is_some(),
        ];
        let want = [
            matches!(m, T::Iri(_)),
            matches!(m, T::Blank(_)),
            matches!(m, T::Lit { .. }),
            matches!(m, T::Coll(_)),
            matches!(m, T::Stmt(_)),
        ];
        check!(is == want && has == want, "conversion", "{m:?} is {is:?}, as {has:?}");
        let back = self.to_subject().map(|s| of_subject(&s));
        let want = if matches!(m, T::Lit { .. } | T::Coll(_)) { None } else { Some(m.clone()) };
        check!(back == want, "conversion", "{m:?} as a subject: {back:?}");
    }
}

impl Key for SubjectNode {
    type Model = T;
    const KIND: &'static str = "subject";
    fn make(m: &T) -> Self {
        a_subject(m)
    }
    fn model(&self) -> T {
        of_subject(self)
    }
    fn across(&self, m: &T, o: &T) {
        let got = match o {
            T::Iri(i) => *self == iri(i),
            T::Blank(b) => *self == blank(b),
            T::Stmt(s) if chance(1, 2, "shared") => *self == Arc::new(a_statement(s)),
            T::Stmt(s) => *self == a_statement(s),
            _ => return,
        };
        check!(got == (m == o), "comparison", "the subject {m:?} == the term {o:?}: {got}");
        let is = [self.is_resource(), self.is_blank(), self.is_statement()];
        let has = [self.as_resource().is_some(), self.as_blank().is_some(), self.as_statement().is_some()];
        let want = [matches!(m, T::Iri(_)), matches!(m, T::Blank(_)), matches!(m, T::Stmt(_))];
        check!(is == want && has == want, "conversion", "{m:?} is {is:?}, as {has:?}");
        check!(of_object(&self.to_object()) == *m, "conversion", "{m:?} as an object: {:?}", self.to_object());
    }
}

impl Key for Literal {
    type Model = T;
    const KIND: &'static str = "literal";
    fn make(m: &T) -> Self {
        a_literal(m)
    }
    fn model(&self) -> T {
        of_literal(self)
    }
}

impl Key for DataType {
    type Model = String;
    const KIND: &'static str = "data type";
    fn make(m: &String) -> Self {
        DataType::from(iri(m))
    }
    fn model(&self) -> String {
        iri_text(self.as_iri())
    }
}

impl Key for Iri {
    type Model = String;
    const KIND: &'static str = "IRI";
    fn make(m: &String) -> Self {
        iri(m)
    }
    fn model(&self) -> String {
        iri_text(self)
    }
}

impl Key for BlankNode {
    type Model = String;
    const KIND: &'static str = "blank node";
    fn make(m: &String) -> Self {
        a_blank(m)
    }
    fn model(&self) -> String {
        self.as_ref().to_string()
    }
}

impl Key for Collection {
    type Model = Vec<T>;
    const KIND: &'static str = "collection";
    fn make(m: &Vec<T>) -> Self {
        a_collection(m)
    }
    fn model(&self) -> Vec<T> {
        self.iter().map(of_object).collect()
    }
    fn across(&self, m: &Vec<T>, _: &Vec<T>) {
        check!(self.len() == m.len() && self.is_empty() == m.is_empty(), "conversion", "{m:?} has {} members", self.len());
    }
}

// ------------------------------------------------------------------------------------------------
// Indexes
// ------------------------------------------------------------------------------------------------

fn hash_of<K: Hash>(k: &K) -> u64 {
    let mut h = DefaultHasher::new();
    k.hash(&mut h);
    h.finish()
}

/// Two keys made separately.
fn pair<K: Key>(m: &K::Model, n: &K::Model) -> Ordering {
    let (a, b) = (K::make(m), K::make(n));
    let c = a.cmp(&b);
    let what = K::KIND;
    check!(a.model() == *m, "conversion", "the {what} {m:?} is {:?}", a.model());
    check!((a == b) == (m == n), "equality", "the {what} {m:?} == {n:?}: {}", a == b);
    check!((a != b) == (m != n), "equality", "the {what} {m:?} != {n:?}: {}", a != b);
    check!((c == Ordering::Equal) == (m == n), "order", "the {what} {m:?} is {c:?} to {n:?}");
    check!(b.cmp(&a) == c.reverse(), "order", "the {what} {m:?} is {c:?} to {n:?}, which is {:?} to it", b.cmp(&a));
    check!(a.partial_cmp(&b) == Some(c), "order", "the {what} {m:?} is {c:?} but partially {:?} to {n:?}", a.partial_cmp(&b));
    if m == n {
        check!(hash_of(&a) == hash_of(&b), "hash", "two hashes of the {what} {m:?}");
    }
    let d = a.clone();
    check!(d == a && d.cmp(&b) == c && hash_of(&d) == hash_of(&a), "copy", "the copy of {what} {m:?} is another one: {d:?}");
    a.across(m, n);
    c
}

/// Every order there was of some keys, kept where crashes cannot reach it.
fn same_order<M: Ord + Clone + Debug>(kind: &str, sorted: &[M]) {
    let name = format!("observer/order of {kind}");
    let known = String::from_utf8(Disk.get(&name).unwrap_or_default()).unwrap();
    let place: BTreeMap<String, usize> = sorted.iter().enumerate().map(|(i, m)| (format!("{m:?}"), i)).collect();
    let lines: Vec<&str> = known.lines().collect();
    for l in &lines {
        let earlier: Vec<String> = serde_json::from_str(l).unwrap();
        let places: Vec<usize> = earlier.iter().filter_map(|m| place.get(m)).copied().collect();
        check!(places.is_sorted(), "order", "the {kind} order {sorted:?} is not that of {earlier:?}");
        if places.len() > 1 {
            probe("same-order");
        }
    }
    if sorted.len() > 1 && lines.len() < 8 {
        let me: Vec<String> = sorted.iter().map(|m| format!("{m:?}")).collect();
        Disk.put_durable(&name, format!("{known}{}\n", serde_json::to_string(&me).unwrap()).into_bytes());
    }
}

struct Index<K: Key> {
    sorted: BTreeSet<K>,
    hashed: HashSet<K>,
    counted: BTreeMap<K, usize>,
    listed: Vec<K>,
    model: BTreeMap<K::Model, usize>,
}

impl<K: Key> Index<K> {
    fn new() -> Self {
        Index { sorted: BTreeSet::new(), hashed: HashSet::new(), counted: BTreeMap::new(), listed: vec![], model: BTreeMap::new() }
    }

    fn step(&mut self, universe: &[K::Model]) {
        op();
        let m = pick(universe, "key");
        let n = pick(universe, "other-key");
        let what = K::KIND;
        let known = self.model.contains_key(m);
        match draw(6, "index-step") {
            0..=2 => {
                let (a, b) = (self.sorted.insert(K::make(m)), self.hashed.insert(K::make(m)));
                check!(a != known && b != known, "index", "inserting the {what} {m:?}: new to the sorted one {a}, to the hashed one {b}; known {known}");
                *self.counted.entry(K::make(m)).or_default() += 1;
                *self.model.entry(m.clone()).or_default() += 1;
                self.listed.push(K::make(m));
                probe(if known { "known" } else { "inserted" });
            }
            3 => {
                let (a, b) = (self.sorted.remove(&K::make(m)), self.hashed.remove(&K::make(m)));
                let c = self.counted.remove(&K::make(m));
                let gone = self.model.remove(m);
                check!(a == known && b == known && c == gone, "index", "removing the {what} {m:?}: {a} {b} {c:?}; known {known}");
                let k = K::make(m);
                self.listed.retain(|l| *l != k);
                if known {
                    probe("removed");
                }
            }
            4 => {
                // the order of any three
                let (x, y, z) = (m, n, pick(universe, "third-key"));
                let (xy, yz, xz) = (pair::<K>(x, y), pair::<K>(y, z), pair::<K>(x, z));
                let fine = match (xy, yz) {
                    (Ordering::Equal, o) | (o, Ordering::Equal) => xz == o,
                    (a, b) => a != b || xz == a,
                };
                check!(fine, "order", "the {what}s {x:?} {xy:?} {y:?} {yz:?} {z:?}, but the first is {xz:?} to the last");
            }
            _ => {
                let mut v = self.listed.clone();
                v.sort();
                v.dedup();
                let got: Vec<K::Model> = v.iter().map(K::model).collect();
                let want: BTreeSet<&K::Model> = self.model.keys().collect();
                check!(got.len() == want.len() && got.iter().collect::<BTreeSet<_>>() == want, "index", "sorted and without doubles: {got:?} instead of {want:?}");
                for m in universe {
                    check!(v.binary_search(&K::make(m)).is_ok() == self.model.contains_key(m), "index", "searching {m:?} among {got:?}");
                }
                same_order(K::KIND, &got);
            }
        }
        let sorted: Vec<K::Model> = self.sorted.iter().map(K::model).collect();
        let want: BTreeSet<&K::Model> = self.model.keys().collect();
        check!(sorted.len() == want.len() && sorted.iter().collect::<BTreeSet<_>>() == want, "index", "the sorted index has {sorted:?} instead of {want:?}");
        let hashed: Vec<K::Model> = self.hashed.iter().map(K::model).collect();
        check!(hashed.len() == want.len() && hashed.iter().collect::<BTreeSet<_>>() == want, "index", "the hashed index has {hashed:?} instead of {want:?}");
        let k = K::make(n);
        let is = self.model.contains_key(n);
        check!(self.sorted.contains(&k) == is && self.hashed.contains(&k) == is, "index", "the {what} {n:?} is there: {is}");
        check!(self.counted.get(&k) == self.model.get(n), "index", "the {what} {n:?} was counted {:?} times", self.counted.get(&k));
        same_order(K::KIND, &sorted);
    }
}

fn terms(t: &T, out: &mut Vec<T>) {
    out.push(t.clone());
    match t {
        T::Stmt(s) => {
            terms(&s.s, out);
            terms(&s.o, out);
        }
        T::Coll(c) => c.iter().for_each(|m| terms(m, out)),
        _ => {}
    }
}

/// What this run is about: made once, the same for all its processes.
struct Universe {
    statements: Vec<S>,
    objects: Vec<T>,
    subjects: Vec<T>,
    literals: Vec<T>,
    collections: Vec<Vec<T>>,
    iris: Vec<String>,
    blanks: Vec<String>,
    types: Vec<String>,
}

fn distinct<M: Ord + Clone>(v: Vec<M>, max: usize) -> Vec<M> {
    let mut seen = BTreeSet::new();
    let mut v: Vec<M> = v.into_iter().filter(|m| seen.insert(m.clone())).collect();
    v.truncate(max);
    v
}

fn universe() -> Universe {
    let mut statements = any_statements(&SHAPE);
    statements.push(any_statement(&SHAPE, 0));
    for _ in 0..draw(4, "near-ones") {
        let s = near(&statements[draw_usize(statements.len(), "which")]);
        statements.push(s);
    }
    let statements = distinct(statements, 14);
    let mut all = vec![];
    for s in &statements {
        terms(&s.s, &mut all);
        terms(&s.o, &mut all);
        all.push(T::Iri(s.p.clone()));
    }
    let near_ones: Vec<T> = (0..draw(5, "near-terms")).map(|_| near_term(pick(&all, "which"), false)).collect();
    all.extend(near_ones);
    all.push(any_lit(&SHAPE));
    all.push(any_blank());
    let objects = distinct(all, 16);
    let mut literals: Vec<T> = objects.iter().filter(|t| matches!(t, T::Lit { .. })).cloned().collect();
    for _ in 0..3 {
        let l = any_lit(&SHAPE);
        literals.push(l);
    }
    let types = literals.iter().filter_map(|t| if let T::Lit { dt, .. } = t { dt.clone() } else { None });
    let types = types.chain((0..3).map(|_| pick(DATATYPES, "datatype").to_string())).collect();
    Universe {
        subjects: objects.iter().filter(|t| matches!(t, T::Iri(_) | T::Blank(_) | T::Stmt(_))).cloned().collect(),
        collections: distinct(
            objects.iter().filter_map(|t| if let T::Coll(c) = t { Some(c.clone()) } else { None }).chain([vec![], objects.clone()]).collect(),
            8,
        ),
        iris: distinct(objects.iter().filter_map(|t| if let T::Iri(i) = t { Some(i.clone()) } else { None }).collect(), 12),
        blanks: distinct(objects.iter().filter_map(|t| if let T::Blank(b) = t { Some(b.clone()) } else { None }).chain(["b0".into()]).collect(), 12),
        literals: distinct(literals, 12),
        types: distinct(types, 12),
        statements,
        objects,
    }
}

/// Graph names have no order.
fn names(u: &Universe) {
    op();
    let mut index: HashMap<GraphName, T> = HashMap::new();
    let mut model: BTreeMap<T, T> = BTreeMap::new();
    let named: Vec<T> = u.subjects.iter().filter(|t| t.flat()).cloned().collect();
    for _ in 0..range(1, 6, "names") {
        let t = pick(&named, "name");
        let n = match draw(3, "name-way") {
            0 => GraphName::from(a_subject(t)),
            1 => match t {
                T::Iri(i) => GraphName::named(iri(i)),
                T::Blank(b) => GraphName::blank_named(b).unwrap_or_else(|e| violation("conversion", format!("{b:?}: {e}"))),
                _ => unreachable!(),
            },
            _ => match t {
                T::Iri(i) => GraphName::from(&iri(i)),
                T::Blank(b) => GraphName::from(&blank(b)),
                _ => unreachable!(),
            },
        };
        check!(of_graph_name(&n) == *t, "conversion", "the name {t:?} is {n:?}");
        check!(
            n.is_iri() == matches!(t, T::Iri(_)) && n.is_blank() == matches!(t, T::Blank(_)) && n.as_iri().is_some() == n.is_iri() && n.as_blank().is_some() == n.is_blank(),
            "conversion",
            "the name {t:?}: {n:?}"
        );
        let (old, was) = (index.insert(n, t.clone()), model.insert(t.clone(), t.clone()));
        check!(old == was, "index", "naming {t:?}: {old:?}");
    }
    for t in &named {
        check!(index.get(&graph_name(t)) == model.get(t), "index", "the name {t:?}: {:?}", index.get(&graph_name(t)));
    }
}

struct Shared {
    lock: SimLock,
    statements: RefCell<Index<Statement>>,
    objects: RefCell<Index<ObjectNode>>,
}

fn lifetime(u: &Rc<Universe>) {
    set_switch_den(*pick(&[4u64, 1, 2, 16], "switch-den"));
    preemptible();
    let shared = Rc::new(Shared { lock: SimLock::new(), statements: RefCell::new(Index::new()), objects: RefCell::new(Index::new()) });
    let mut tasks: Vec<Box<dyn FnOnce()>> = vec![];
    for _ in 0..range(1, 3, "callers") {
        let (u, shared) = (u.clone(), shared.clone());
        tasks.push(Box::new(move || {
            let mut steps = Steps::new(14, 5);
            let mut subjects = Index::<SubjectNode>::new();
            let mut literals = Index::<Literal>::new();
            let mut types = Index::<DataType>::new();
            let mut iris = Index::<Iri>::new();
            let mut blanks = Index::<BlankNode>::new();
            let mut collections = Index::<Collection>::new();
            while steps.more() {
                match draw(12, "which-index") {
                    0..=2 => shared.lock.with(|| shared.statements.borrow_mut().step(&u.statements)),
                    3..=4 => shared.lock.with(|| shared.objects.borrow_mut().step(&u.objects)),
                    5 if !u.subjects.is_empty() => subjects.step(&u.subjects),
                    6 => literals.step(&u.literals),
                    7 => types.step(&u.types),
                    8 if !u.iris.is_empty() => iris.step(&u.iris),
                    9 => blanks.step(&u.blanks),
                    10 => collections.step(&u.collections),
                    _ => names(&u),
                }
            }
        }));
    }
    run_tasks(tasks);
}

pub fn scenario() {
    let u = Rc::new(universe());
    slog!("{:?}\n{:?}", u.statements, u.objects);
    let lives = range(1, 3, "lives");
    for n in 0..lives {
        let crash = *pick(&[0u64, 0, 200, 40], "crash-den");
        let u = u.clone();
        process(&format!("p{n}"), crash, move || lifetime(&u));
        if n > 0 {
            probe("restarted");
        }
    }
}
