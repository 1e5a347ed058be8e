//! C19: a resource turns into exactly the statements its builder was told.

use crate::c06_graph::sorted;
use crate::gen::*;
use crate::iso;
use rdftk_core::model::graph::Graph;
use rdftk_core::model::literal::{DataType, LanguageTag, Literal};
use rdftk_core::model::resource::{Predicate, Resource};
use rdftk_core::model::statement::Statement;
use simkit::entropy::{jump_clock, set_entropy_faults};
use simkit::*;
use std::cell::RefCell;
use std::collections::BTreeSet;
use std::rc::Rc;
use std::str::FromStr;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

/// What a builder was told. A fresh node is a blank node named `\u{1}n`.
#[derive(Clone, Debug)]
struct Told {
    subject: T,
    said: Vec<(String, Value)>,
}

#[derive(Clone, Debug)]
enum Value {
    Lit(T),
    Res(Told),
    Lits(String, Vec<T>),
    Ress(String, Vec<Told>),
}

/// A builder and what it was told.
#[derive(Clone)]
struct Built {
    real: Resource,
    told: Told,
}

const SHAPE: Shape = Shape { max: 4, mean: 2, collections: false, ..Shape::FULL };

static ANON: AtomicU64 = AtomicU64::new(0);

fn real_literal(t: &T) -> Literal {
    match t {
        T::Lit { v, dt, lang } => literal(v, dt, lang),
        _ => unreachable!(),
    }
}

fn any_kind() -> (usize, String) {
    match draw_usize(4, "container") {
        0 => (0, rdf("Alt")),
        1 => (1, rdf("Bag")),
        2 => (2, rdf("Seq")),
        _ => (3, any_iri_text()),
    }
}

fn some(max: u64, label: &'static str) -> u64 {
    if chance(1, 6, "many") { range(9, 13, label) } else { draw(max + 1, label) }
}

/// A resource with a subject and nothing said, or `None` when there was no entropy for it.
fn start(depth: u32) -> Option<Built> {
    let (real, subject) = match draw(4, "resource-kind") {
        0 => {
            let i = any_iri_text();
            (Resource::individual(iri(&i)), T::Iri(i))
        }
        1 => {
            let t = any_blank();
            let T::Blank(b) = &t else { unreachable!() };
            (Resource::semi_anonymous(blank(b)), t)
        }
        2 => {
            let s = any_subject(&SHAPE, depth);
            (Resource::new(subject(&s)), s)
        }
        _ => {
            let real = attempt("Resource::anonymous", Resource::anonymous)?;
            let n = ANON.fetch_add(1, Relaxed);
            (real, T::Blank(format!("\u{1}a{n}")))
        }
    };
    Some(Built { real, told: Told { subject, said: vec![] } })
}

fn any_built(depth: u32) -> Option<Built> {
    let mut b = start(depth)?;
    let mut steps = Steps::new(if depth == 0 { 8 } else { 3 }, if depth == 0 { 4 } else { 1 });
    while steps.more() {
        tell(&mut b, depth)?;
    }
    Some(b)
}

fn several(depth: u32) -> Option<Vec<Built>> {
    let n = some(3, "members");
    let mut v: Vec<Built> = vec![];
    for _ in 0..n {
        // the same one twice, or another one
        let b = if !v.is_empty() && chance(1, 4, "again") { v[draw_usize(v.len(), "which")].clone() } else { any_built(depth + 1)? };
        v.push(b);
    }
    Some(v)
}

fn any_lits() -> Vec<T> {
    (0..some(3, "members")).map(|_| any_lit(&SHAPE)).collect()
}

fn any_property() -> String {
    if chance(1, 5, "type") { rdf("type") } else { any_predicate(&SHAPE) }
}

/// One call of one of the builder's methods.
fn tell(b: &mut Built, depth: u32) -> Option<()> {
    let p = any_property();
    let name = iri(&p);
    let r = &mut b.real;
    let choices = if depth < 3 { 13 } else { 8 };
    let value = match draw(choices, "say") {
        0 => {
            let t = any_lit(&SHAPE);
            let l = real_literal(&t);
            match draw(3, "method") {
                0 => r.property(name, l),
                1 => r.value_of(name, l),
                _ => r.literal(name, l),
            };
            Value::Lit(t)
        }
        1 => {
            let v = any_value(&SHAPE);
            r.literal_str(name, &v);
            Value::Lit(T::lit(&v))
        }
        2 => {
            let (v, dt) = (any_value(&SHAPE), pick(DATATYPES, "datatype").to_string());
            r.literal_typed_str(name, &v, DataType::from(iri(&dt)));
            Value::Lit(T::typed(&v, &dt))
        }
        3 => {
            let (v, lang) = (any_value(&SHAPE), pick(LANGS, "lang").to_string());
            if chance(1, 2, "str") {
                r.literal_language_str_str(name, &v, &lang);
            } else {
                r.literal_language_str(name, &v, LanguageTag::from_str(&lang).unwrap());
            }
            Value::Lit(T::Lit { v, dt: None, lang: Some(lang) })
        }
        4 => {
            let i = any_iri_text();
            r.resource_named(name, iri(&i));
            Value::Res(Told { subject: T::Iri(i), said: vec![] })
        }
        5 => {
            let t = any_blank();
            let T::Blank(l) = &t else { unreachable!() };
            r.resource_blank_named(name, &blank(l));
            Value::Res(Told { subject: t, said: vec![] })
        }
        6 => {
            let i = any_iri_text();
            r.instance_of(iri(&i));
            b.told.said.push((rdf("type"), Value::Res(Told { subject: T::Iri(i), said: vec![] })));
            return Some(());
        }
        7 => {
            let v = any_lits();
            let l: Vec<Literal> = v.iter().map(real_literal).collect();
            let (k, kind) = any_kind();
            match k {
                0 => r.property_alternatives(name, &l),
                1 => r.property_bag(name, &l),
                2 => r.property_sequence(name, &l),
                _ => r.property_container(name, &l, iri(&kind)),
            };
            probe("container");
            Value::Lits(kind, v)
        }
        8 | 9 => {
            let n = any_built(depth + 1)?;
            b.real.resource(name, n.real);
            probe("nested");
            Value::Res(n.told)
        }
        10 => {
            let v = several(depth)?;
            let l: Vec<Resource> = v.iter().map(|b| b.real.clone()).collect();
            let (k, kind) = any_kind();
            let r = &mut b.real;
            match k {
                0 => r.resource_alternatives(name, &l),
                1 => r.resource_bag(name, &l),
                2 => r.resource_sequence(name, &l),
                _ => r.resource_container(name, &l, iri(&kind)),
            };
            probe("container-of-resources");
            Value::Ress(kind, v.into_iter().map(|b| b.told).collect())
        }
        _ => {
            let (q, said) = any_predicate_builder(&p, depth)?;
            b.real.predicate(q);
            probe("predicate");
            b.told.said.extend(said.into_iter().map(|v| (p.clone(), v)));
            return Some(());
        }
    };
    b.told.said.push((p, value));
    Some(())
}

fn any_predicate_builder(p: &str, depth: u32) -> Option<(Predicate, Vec<Value>)> {
    let mut q = Predicate::new(iri(p));
    let mut said = vec![];
    let n = if depth == 0 && chance(1, 12, "many-objects") { dict::size(70, "object-count") } else { draw(4, "objects") };
    for _ in 0..n {
        said.push(match draw(6, "object") {
            0 => {
                let t = any_lit(&SHAPE);
                q.property(real_literal(&t));
                Value::Lit(t)
            }
            1 => {
                let i = any_iri_text();
                q.resource_named(iri(&i));
                Value::Res(Told { subject: T::Iri(i), said: vec![] })
            }
            2 => {
                let t = any_blank();
                let T::Blank(l) = &t else { unreachable!() };
                q.resource_blank_named(&blank(l));
                Value::Res(Told { subject: t, said: vec![] })
            }
            3 => {
                let v = any_lits();
                let l: Vec<Literal> = v.iter().map(real_literal).collect();
                let (k, kind) = any_kind();
                match k {
                    0 => q.property_alternatives(&l),
                    1 => q.property_bag(&l),
                    2 => q.property_sequence(&l),
                    _ => q.property_container(&l, iri(&kind)),
                };
                Value::Lits(kind, v)
            }
            4 => {
                let n = any_built(depth + 1)?;
                q.resource(n.real);
                Value::Res(n.told)
            }
            _ => {
                let v = several(depth)?;
                let l: Vec<Resource> = v.iter().map(|b| b.real.clone()).collect();
                let (k, kind) = any_kind();
                match k {
                    0 => q.resource_alternatives(&l),
                    1 => q.resource_bag(&l),
                    2 => q.resource_sequence(&l),
                    _ => q.resource_container(&l, iri(&kind)),
                };
                Value::Ress(kind, v.into_iter().map(|b| b.told).collect())
            }
        });
    }
    Some((q, said))
}

/// The statements a resource stands for, in any order; containers get fresh nodes.
fn meaning(t: &Told, next: &mut u64, out: &mut Vec<S>) {
    for (p, v) in &t.said {
        let o = match v {
            Value::Lit(l) => l.clone(),
            Value::Res(r) => {
                meaning(r, next, out);
                r.subject.clone()
            }
            Value::Lits(kind, v) => {
                let n = container(kind, next, out);
                for (i, m) in v.iter().enumerate() {
                    out.push(S::new(n.clone(), &rdf(&format!("_{}", i + 1)), m.clone()));
                }
                n
            }
            Value::Ress(kind, v) => {
                let n = container(kind, next, out);
                for (i, m) in v.iter().enumerate() {
                    meaning(m, next, out);
                    out.push(S::new(n.clone(), &rdf(&format!("_{}", i + 1)), m.subject.clone()));
                }
                n
            }
        };
        out.push(S { s: t.subject.clone(), p: p.clone(), o });
    }
}

fn container(kind: &str, next: &mut u64, out: &mut Vec<S>) -> T {
    *next += 1;
    let n = T::Blank(format!("\u{1}c{next}"));
    out.push(S::new(n.clone(), &rdf("type"), T::iri(kind)));
    n
}

/// Names the builder chose stay names: only fresh nodes are nodes to be matched.
fn settle(t: &T, fresh: &dyn Fn(&str) -> bool) -> T {
    match t {
        T::Blank(b) if !fresh(b) => T::Iri(format!("_:{b}")),
        T::Stmt(s) => T::Stmt(Box::new(S { s: settle(&s.s, &|_| false), p: s.p.clone(), o: settle(&s.o, &|_| false) })),
        T::Coll(c) => T::Coll(c.iter().map(|m| settle(m, &|_| false)).collect()),
        other => other.clone(),
    }
}

fn settled(v: &[S], fresh: &dyn Fn(&str) -> bool) -> Vec<S> {
    v.iter().map(|s| S { s: settle(&s.s, fresh), p: s.p.clone(), o: settle(&s.o, fresh) }).collect()
}

/// Statements without the names of fresh nodes, to be counted.
fn counted(v: &[S]) -> Vec<S> {
    let hide = |t: &T| if matches!(t, T::Blank(_)) { T::blank("?") } else { t.clone() };
    sorted(v.iter().map(|s| S { s: hide(&s.s), p: s.p.clone(), o: hide(&s.o) }).collect())
}

fn attempt<R>(what: &str, f: impl FnOnce() -> R) -> Option<R> {
    let down = fault_count("entropy-eio");
    match guarded(f) {
        Ok(r) => Some(r),
        Err(p) => {
            check!(fault_count("entropy-eio") > down, "panic", "{what} panicked with the entropy source up: {p}");
            probe("aborted");
            None
        }
    }
}

/// What one caller has seen of its own resources, all conversions together.
#[derive(Default)]
struct Seen {
    next: u64,
    want: Vec<S>,
    got: Vec<S>,
}

impl Seen {
    fn compare(&self, want: &[S], got: &[S], about: &Told) {
        let (w, g) = (settle_want(want), settle_got(got));
        let (cw, cg) = (counted(&w), counted(&g));
        check!(cw == cg, "statements", "{about:?} became {got:?}: {}", iso::difference(&cw.into_iter().collect(), &cg.into_iter().collect()));
        let (w, g): (G, G) = (w.into_iter().collect(), g.into_iter().collect());
        check!(iso::same(&w, &g), "statements", "{about:?} became {got:?}");
    }

    /// Conversions share the anonymous nodes of the resources, and no container.
    fn together(&self) {
        let (w, g): (G, G) = (settle_want(&self.want).into_iter().collect(), settle_got(&self.got).into_iter().collect());
        let fresh = |g: &G| -> BTreeSet<String> {
            g.iter()
                .flat_map(|s| [&s.s, &s.o])
                .filter_map(|t| if let T::Blank(b) = t { Some(b.clone()) } else { None })
                .collect()
        };
        let (fw, fg) = (fresh(&w).len(), fresh(&g).len());
        check!(fw == fg, "shared-nodes", "several conversions have {fg} fresh nodes between them and not {fw}: {:?}", self.got);
        check!(iso::same(&w, &g), "shared-nodes", "several conversions mix their nodes: {:?} for {:?}", self.got, self.want);
    }
}

fn convert(seen: &RefCell<Seen>, b: &Built) {
    op();
    let own = b.told.said.iter().any(|(p, _)| *p == rdf("type"));
    check!(b.real.is_an_individual() == own, "individual", "is_an_individual() is {} for {:?}", !own, b.told);
    let named = matches!(b.told.subject, T::Iri(_));
    check!(b.real.is_a_resource() == named, "individual", "is_a_resource() is {} for {:?}", !named, b.told);
    let Some(v) = attempt("Resource into statements", || Vec::<Statement>::from(b.real.clone())) else { return };
    let got: Vec<S> = v.iter().map(of_statement).collect();
    slog!("{:?} -> {} statements", b.told, got.len());
    let mut want = vec![];
    let mut seen = seen.borrow_mut();
    meaning(&b.told, &mut seen.next, &mut want);
    seen.compare(&want, &got, &b.told);
    seen.want.extend(want);
    seen.got.extend(got);
    probe("converted");
}

fn settle_want(v: &[S]) -> Vec<S> {
    settled(v, &|b| b.starts_with('\u{1}'))
}

fn settle_got(v: &[S]) -> Vec<S> {
    settled(v, &|b| !own_blank(b))
}

pub fn scenario() {
    set_entropy_faults(chance(1, 3, "entropy-faults"));
    set_switch_den(*pick(&[4u64, 1, 2, 16], "switch-den"));
    preemptible();
    ANON.store(0, Relaxed);
    let mut common: Vec<Built> = vec![];
    for _ in 0..range(0, 2, "common") {
        common.extend(any_built(0));
    }
    let common = Rc::new(common);
    let seen = Rc::new(RefCell::new(Seen::default()));
    let callers = range(1, 3, "callers");
    let mut tasks: Vec<Box<dyn FnOnce()>> = vec![];
    for _ in 0..callers {
        let (common, seen) = (common.clone(), seen.clone());
        tasks.push(Box::new(move || {
            let mut mine: Vec<Built> = vec![];
            let mut steps = Steps::new(5, 3);
            while steps.more() {
                yield_now("between");
                match draw(5, "step") {
                    0..=1 => mine.extend(any_built(0)),
                    2 if !mine.is_empty() => {
                        // one more thing said of one that may have been converted, or of its copy
                        let k = draw_usize(mine.len(), "mine");
                        if chance(1, 2, "copy") {
                            let mut c = mine[k].clone();
                            if tell(&mut c, 1).is_some() {
                                mine.push(c);
                            }
                        } else {
                            let keep = mine[k].clone();
                            if tell(&mut mine[k], 1).is_none() {
                                mine[k] = keep;
                            }
                        }
                    }
                    3 if !common.is_empty() => {
                        let b = &common[draw_usize(common.len(), "common-which")];
                        if chance(1, 2, "extend-copy") {
                            let mut c = b.clone();
                            if tell(&mut c, 1).is_some() {
                                mine.push(c);
                            }
                        }
                        convert(&seen, b);
                    }
                    _ => {
                        if let Some(b) = mine.last() {
                            convert(&seen, b);
                        }
                    }
                }
                if chance(1, 10, "clock") {
                    jump_clock(if chance(1, 2, "back") { -86_400_000_000_000 } else { 3_600_000_000_000 });
                }
            }
            for b in &mine {
                convert(&seen, b);
                yield_now("between");
            }
        }));
    }
    run_tasks(tasks);
    let s = seen.borrow();
    {
        s.together();
        // The statements make the graph they are expected to make.
        let mut g = Graph::default();
        let wanted: G = s.got.iter().cloned().collect();
        for st in &s.got {
            g.insert(statement(st));
        }
        check!(graph_set(&g) == wanted, "statements", "the graph of the statements lacks some: {}", iso::difference(&wanted, &graph_set(&g)));
    }
}
