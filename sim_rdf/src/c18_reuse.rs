//! C18: what a writer or reader did before has no influence on what it does next.

use crate::fmt::*;
use crate::gen::*;
use crate::iso;
use simkit::*;
use std::cell::{Cell, RefCell};
use std::rc::Rc;

struct Used {
    w: Writer,
    lock: SimLock,
    /// 0 = new, 1 = wrote something, 2 = failed last
    state: Cell<u8>,
}

fn write(u: &Used, pool: &RefCell<Vec<S>>) {
    op();
    // graphs share statements, so that what is left of one would fit another
    let mut items: Vec<S> = {
        let pool = pool.borrow();
        let n = range(0, 4, "shared");
        (0..n).map(|_| pick(&pool, "statement").clone()).collect()
    };
    items.extend(any_statements(&Shape { max: 4, mean: 2, ..Shape::FULL }));
    // said twice is said once
    let mut seen = G::new();
    items.retain(|s| seen.insert(s.clone()));
    let mut g = build(&items, chance(1, 2, "unique"));
    if chance(1, 2, "with-mappings") {
        g.set_prefix_mappings(any_mappings());
    }
    if chance(1, 4, "named") {
        g.set_name(graph_name(&T::Iri(any_iri_text())));
    }
    let fails = chance(1, 3, "fails");
    let out = Sink::new("out", if fails { Plan::failing(500) } else { Plan::benign() });
    let what = format!("{} (state {})", u.w.name(), u.state.get());
    let mut written = false;
    u.lock.with(|| {
        let r = u.w.write(&mut out.clone(), &g);
        slog!("{what}: {} bytes, {}", out.bytes().len(), r.is_ok());
        match r {
            Ok(()) => {
                check!(!out.failed(), "false-success", "{what} reported success on a device that failed");
                if let Err(e) = u.w.check_document(&out.bytes(), &items, &g) {
                    // is it the writer's past?
                    let fresh = Sink::new("fresh", Plan::perfect());
                    let again = u.w.again().write(&mut fresh.clone(), &g).map_err(|e| e.to_string());
                    let fresh = again.and_then(|()| u.w.again().check_document(&fresh.bytes(), &items, &g));
                    let bytes = out.bytes();
                    violation("history", format!("{what}: {e} (a new writer: {fresh:?})\nof {items:?}\n{}", String::from_utf8_lossy(&bytes)));
                }
                match u.state.get() {
                    1 => probe("after-other"),
                    2 => probe("after-failure"),
                    _ => {}
                }
                u.state.set(1);
                written = true;
            }
            Err(e) => {
                check!(out.failed() || u.w.may_refuse(&items), "history", "{what} failed on a working device: {e}");
                u.state.set(2);
            }
        }
    });
    if written && READABLE.contains(&u.w.fmt) {
        // readers have a past as well
        let mut r = Stream::new("in", out.bytes(), Plan::benign());
        match read(u.w.fmt, &mut r) {
            Ok(got) => {
                let (want, got) = (iso::expand(&items, true), flatten(got).into_iter().collect::<G>());
                check!(iso::same(&want, &got), "history", "{what} read back: {}", iso::difference(&want, &got));
                probe("read-again");
            }
            Err(e) => violation("history", format!("{what} read back: {e}")),
        }
    }
}

pub fn scenario() {
    set_switch_den(*pick(&[4u64, 1, 2, 16], "switch-den"));
    preemptible();
    let writers: Rc<Vec<Used>> = Rc::new(
        (0..range(1, 3, "writers")).map(|_| Used { w: Writer::any(ALL), lock: SimLock::new(), state: Cell::new(0) }).collect(),
    );
    let pool = Rc::new(RefCell::new(any_statements(&Shape { max: 8, mean: 5, ..Shape::FULL })));
    if pool.borrow().is_empty() {
        pool.borrow_mut().push(any_statement(&Shape::FULL, 0));
    }
    let mut tasks: Vec<Box<dyn FnOnce()>> = vec![];
    for _ in 0..range(1, 3, "callers") {
        let (writers, pool) = (writers.clone(), pool.clone());
        tasks.push(Box::new(move || {
            let mut steps = Steps::new(6, 3);
            while steps.more() {
                write(pick(&writers, "writer"), &pool);
            }
        }));
    }
    run_tasks(tasks);
}
