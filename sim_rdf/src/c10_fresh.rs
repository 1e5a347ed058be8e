//! C10: a generated blank node is none that any graph, of this process or an earlier one, has.

use crate::fmt::{self, Fmt, Writer};
use crate::gen::*;
use crate::iso;
use rdftk_core::model::graph::GraphName;
use rdftk_core::model::resource::Resource;
use rdftk_core::model::statement::{BlankNode, Collection, Statement};
use simkit::entropy::{jump_clock, set_entropy_faults};
use simkit::*;
use std::cell::RefCell;
use std::collections::BTreeSet;
use std::ops::RangeInclusive;
use std::rc::Rc;

/// Blank node names documents of other programs, or other versions of this one, may well have.
const FOREIGN: &[&str] = &["B1", "B2", "B3", "b1", "b0", "B0", "B00000000000000000000000000000001", "genid1", "_1", "node1"];

const SHAPE: Shape = Shape { max: 6, mean: 3, controls: false, odd_predicates: false, ..Shape::FULL };

fn each_blank(t: &T, f: &mut dyn FnMut(&str)) {
    match t {
        T::Blank(b) => f(b),
        T::Stmt(s) => {
            each_blank(&s.s, f);
            each_blank(&s.o, f);
        }
        T::Coll(c) => c.iter().for_each(|m| each_blank(m, f)),
        _ => {}
    }
}

fn labels(items: &[S]) -> BTreeSet<String> {
    let mut out = BTreeSet::new();
    for s in items {
        each_blank(&s.s, &mut |b| drop(out.insert(b.to_string())));
        each_blank(&s.o, &mut |b| drop(out.insert(b.to_string())));
    }
    out
}

/// Every blank node name there ever was. It is the observer's, not the processes': kept where
/// crashes cannot reach it.
#[derive(Clone, Default)]
struct Ledger(Rc<RefCell<BTreeSet<String>>>);

const LEDGER: &str = "observer/ledger";

impl Ledger {
    fn open() -> Ledger {
        let b = Disk.get(LEDGER).unwrap_or_default();
        let t = String::from_utf8(b).unwrap();
        Ledger(Rc::new(RefCell::new(t.lines().map(String::from).collect())))
    }
    fn note(&self, names: &BTreeSet<String>) {
        self.0.borrow_mut().extend(names.iter().cloned());
        let all: Vec<String> = self.0.borrow().iter().cloned().collect();
        Disk.put_durable(LEDGER, all.join("\n").into_bytes());
    }
    /// `new` were minted just now by one operation that had to mint `count`.
    fn minted(&self, what: &str, new: &BTreeSet<String>, count: usize) {
        self.minted_about(what, new, count..=count)
    }
    fn minted_about(&self, what: &str, new: &BTreeSet<String>, count: RangeInclusive<usize>) {
        slog!("{what}: minted {new:?}");
        for n in new {
            check!(!self.0.borrow().contains(n), "not-fresh", "{what} minted the blank node {n:?}, which there was already");
        }
        check!(count.contains(&new.len()), "not-fresh", "{what} minted {new:?} where it needs {count:?} new blank nodes");
        self.note(new);
    }
}

/// The nodes an operation made, or none when the entropy source failed under it.
fn attempt<R>(what: &str, f: impl FnOnce() -> R) -> Option<R> {
    let down = fault_count("entropy-eio");
    match guarded(f) {
        Ok(r) => Some(r),
        Err(p) => {
            check!(fault_count("entropy-eio") > down, "panic", "{what} panicked with the entropy source up: {p}");
            probe("aborted");
            None
        }
    }
}

fn fresh_needed(items: &[S]) -> usize {
    labels(&iso::expand(items, true).into_iter().collect::<Vec<_>>()).iter().filter(|l| l.starts_with('\u{1}')).count()
}

/// Statements nested in statements only.
fn nested(s: &S) -> usize {
    [&s.s, &s.o].into_iter().map(|t| if let T::Stmt(s) = t { 1 + nested(s) } else { 0 }).sum()
}

fn one(ledger: &Ledger) {
    op();
    match draw(7, "mint") {
        0 => {
            if let Some(b) = attempt("generate", BlankNode::generate) {
                ledger.minted("generate", &[b.as_ref().to_string()].into(), 1);
            }
        }
        1 => {
            if let Some(GraphName::BNode(b)) = attempt("GraphName::blank", GraphName::blank) {
                ledger.minted("GraphName::blank", &[b.as_ref().to_string()].into(), 1);
            }
        }
        2 => {
            // reify one statement
            let s = any_statement(&SHAPE, 0);
            let known = labels(std::slice::from_ref(&s));
            ledger.note(&known);
            let Some(r) = attempt("reify", || statement(&s).reify()) else { return };
            let (_, v) = match r {
                Ok(r) => r,
                Err(e) => violation("refused", format!("reify {s:?}: {e}")),
            };
            let out: Vec<S> = v.iter().map(of_statement).collect();
            let new = labels(&out).difference(&known).cloned().collect();
            let user = S::new(T::iri("urn:x"), "urn:y", T::Stmt(Box::new(s)));
            // It may leave the collections of the statement to `simplify`.
            ledger.minted_about("reify", &new, nested(&user)..=fresh_needed(&[user]));
        }
        3 => {
            let c: Vec<T> = (0..range(1, 4, "members")).map(|_| any_object(&SHAPE, 1)).collect();
            let user = S::new(T::iri("urn:x"), "urn:y", T::Coll(c.clone()));
            let known = labels(std::slice::from_ref(&user));
            ledger.note(&known);
            let r = attempt("Collection::reify", || Collection::from(c.iter().map(object).collect::<Vec<_>>()).reify());
            let Some(r) = r else { return };
            let (_, v) = match r {
                Ok(r) => r,
                Err(e) => violation("refused", format!("reify {c:?}: {e}")),
            };
            let out: Vec<S> = v.iter().map(of_statement).collect();
            let new = labels(&out).difference(&known).cloned().collect();
            // It may leave what is nested in the members to `simplify`.
            ledger.minted_about("Collection::reify", &new, c.len()..=fresh_needed(&[user]));
        }
        4 => {
            let (g, items) = any_graph(&SHAPE);
            let known = labels(&items);
            ledger.note(&known);
            let Some(r) = attempt("simplify", || g.simplify()) else { return };
            let out = match r {
                Ok(r) => of_graph(&r),
                Err(e) => violation("refused", format!("simplify {items:?}: {e}")),
            };
            let new = labels(&out).difference(&known).cloned().collect();
            ledger.minted("simplify", &new, fresh_needed(&items));
        }
        5 => {
            let alternatives = ["1", "2"].map(|v| rdftk_core::model::literal::Literal::plain(v));
            let r = attempt("Resource::anonymous", || {
                let mut r = Resource::anonymous();
                r.value_of(iri("http://example.org/v#p"), rdftk_core::model::literal::Literal::plain("x"));
                r.property_bag(iri("http://example.org/v#q"), &alternatives);
                r
            });
            let Some(r) = r else { return };
            let Some(v) = attempt("Resource into statements", || Vec::<Statement>::from(r)) else { return };
            let out: Vec<S> = v.iter().map(of_statement).collect();
            ledger.minted("Resource", &labels(&out), 2);
        }
        _ => {
            // a document with named and unnamed nodes
            let named = *pick(FOREIGN, "named");
            ledger.note(&[named.to_string()].into());
            let n = range(1, 3, "unnamed");
            let mut doc = format!(
                "<rdf:RDF xmlns:rdf=\"{RDF}\" xmlns:v=\"http://example.org/v#\"><rdf:Description rdf:nodeID=\"{named}\"><v:p>x</v:p></rdf:Description>"
            );
            for i in 0..n {
                doc += &format!("<rdf:Description><v:p>{i}</v:p><v:q rdf:parseType=\"Resource\"><v:p>{i}</v:p></v:q></rdf:Description>");
            }
            doc += "</rdf:RDF>";
            let mut r = Stream::new("doc", doc.into_bytes(), Plan::benign());
            let Some(r) = attempt("XmlReader", || fmt::read(Fmt::Xml, &mut r)) else { return };
            let out = match r {
                Ok(r) => fmt::flatten(r),
                Err(e) => violation("refused", format!("XML: {e}")),
            };
            check!(out.len() == (1 + 3 * n) as usize, "not-fresh", "nodes of the document merged: {out:?}");
            let new = labels(&out).into_iter().filter(|l| l != named).collect();
            ledger.minted("XmlReader", &new, 2 * n as usize);
        }
    }
}

/// One process: mints nodes from several callers; loads, extends and saves the stored graph.
fn lifetime(number: u64) {
    set_entropy_faults(chance(1, 3, "entropy-faults"));
    set_switch_den(*pick(&[4u64, 1, 2, 16], "switch-den"));
    preemptible();
    let ledger = Ledger::open();
    let callers = range(1, 3, "callers");
    let mut tasks: Vec<Box<dyn FnOnce()>> = vec![];
    for _ in 0..callers {
        let ledger = ledger.clone();
        tasks.push(Box::new(move || {
            let mut steps = Steps::new(4, 2);
            while steps.more() {
                one(&ledger);
                if chance(1, 8, "clock") {
                    jump_clock(if chance(1, 2, "back") { -86_400_000_000_000 } else { 3_600_000_000_000 });
                }
            }
        }));
    }
    run_tasks(tasks);
    if chance(2, 3, "extend-stored") {
        extend(&ledger, number);
    }
}

/// Loads the stored graph, adds a nested statement and stores the result.
fn extend(ledger: &Ledger, number: u64) {
    op();
    let bytes = Disk.get("graph.nt").unwrap_or_default();
    let mut r = Stream::new("load", bytes, Plan::benign());
    let loaded = match fmt::read(Fmt::Nt, &mut r) {
        Ok(g) => fmt::flatten(g),
        Err(e) => violation("refused", format!("reading what was saved: {e}")),
    };
    probe("reloaded");
    let mut items = loaded.clone();
    items.push(any_statement(&SHAPE, 0));
    items.push(S::new(T::iri(&format!("urn:run:{number}")), "urn:y", T::Stmt(Box::new(any_statement(&SHAPE, 2)))));
    ledger.note(&labels(&items));
    let g = build(&items, true);
    let Some(simple) = attempt("simplify", || g.simplify()) else { return };
    let simple = match simple {
        Ok(s) => s,
        Err(e) => violation("refused", format!("simplify {items:?}: {e}")),
    };
    let known = labels(&items);
    let new: BTreeSet<String> = labels(&of_graph(&simple)).difference(&known).cloned().collect();
    ledger.minted("simplify of the stored graph", &new, fresh_needed(&items));
    let mut f = FileSink::create("graph.tmp", Plan::benign());
    if let Err(e) = Writer::of(Fmt::Nt).write(&mut f, &simple) {
        violation("refused", format!("saving: {e}"));
    }
    Disk.sync("graph.tmp");
    Disk.rename("graph.tmp", "graph.nt");
    // What is stored says what the loaded graph and the additions said.
    let text = String::from_utf8(Disk.get("graph.nt").unwrap()).unwrap();
    let (want, got) = (iso::expand(&items, true), crate::ttl::ntriples(&text).map(|v| v.into_iter().collect::<G>()));
    match got {
        Ok(got) => check!(iso::same(&want, &got), "merged", "the stored graph changed its meaning: {}", iso::difference(&want, &got)),
        Err(e) => violation("merged", format!("the stored graph is unreadable: {e}")),
    }
    probe("stored");
}

pub fn scenario() {
    // A graph another program saved.
    let mut items = any_statements(&Shape { max: 5, mean: 2, ..Shape::FLAT });
    for _ in 0..range(0, 3, "foreign") {
        items.push(S::new(T::blank(pick(FOREIGN, "foreign-name")), "http://example.org/v#p", T::lit("foreign")));
    }
    let mut f = FileSink::create("graph.nt", Plan::perfect());
    if let Err(e) = Writer::of(Fmt::Nt).write(&mut f, &build(&items, true)) {
        violation("refused", format!("saving: {e}"));
    }
    Disk.sync("graph.nt");
    Ledger::default().note(&labels(&items));
    let lives = range(1, 3, "lives");
    for n in 0..lives {
        let crash = *pick(&[0u64, 0, 60, 15], "crash-den");
        let end = process(&format!("p{n}"), crash, || lifetime(n));
        if n > 0 {
            probe("restarted");
        }
        if end == End::Crashed && chance(1, 3, "power") {
            Disk.power_loss();
        }
    }
}
