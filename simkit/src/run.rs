//! One run: the decision tape, the cooperative scheduler, the event log and the outcome.

use crate::{fnv, Rng, FNV0};
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicI32, Ordering};
use std::sync::{Condvar, Mutex, MutexGuard};

pub const MAX_TAPE: usize = 60_000;
pub const MAX_STEPS: u64 = 400_000;
const MAX_LOG: usize = 3_000;

#[derive(Clone, Debug)]
pub enum Source {
    Seed(u64),
    Tape(Vec<u64>),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Violation {
    /// What kind of failure this is; stable across minimisation, and what known findings match on.
    pub class: String,
    pub detail: String,
}

#[derive(Clone, Debug, Default)]
pub struct Outcome {
    pub tape: Vec<u64>,
    pub decisions: u64,
    pub labels: Vec<String>,
    pub spans: Vec<(usize, usize)>,
    pub log: Vec<String>,
    pub log_hash: u64,
    pub sched_hash: u64,
    pub switches: u64,
    pub steps: u64,
    pub ops: u64,
    pub sim_ns: u64,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub violation: Option<Violation>,
    pub harness_error: Option<String>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Status {
    Runnable,
    Blocked(u64),
    /// Waits for this word to be other than this.
    Futex(usize, u32),
    Joining,
    Done,
}

pub(crate) struct Sim {
    src: Source,
    rng: Rng,
    pub(crate) out: Outcome,
    labels: Vec<&'static str>,
    open: Vec<usize>,
    status: Vec<Status>,
    current: usize,
    switch_den: u64,
    aborting: bool,
    pub(crate) hash_seed: u64,
    pub(crate) hash_ctr: u64,
    pub(crate) entropy_rng: Rng,
    pub(crate) entropy_last: u64,
    pub(crate) entropy_faulty: bool,
    pub(crate) wall_ns: i64,
    /// Steps that moved a byte, and thus were progress.
    moved: u64,
    next_lock: u64,
    depth_quiet: u32,
    pub(crate) files: BTreeMap<String, crate::io::FileState>,
    /// Where a simulated process reports to; one in `crash_den` scheduling points is its last.
    report_to: Option<i32>,
    crash_den: u64,
}

pub(crate) static SIM: Mutex<Option<Sim>> = Mutex::new(None);
static CV: Condvar = Condvar::new();

thread_local! {
    static ME: Cell<Option<usize>> = const { Cell::new(None) };
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

struct ViolationPayload;
struct AbortPayload;

pub fn in_sim() -> bool {
    ME.try_with(|m| m.get().is_some()).unwrap_or(false)
}

pub(crate) fn guard() -> MutexGuard<'static, Option<Sim>> {
    match SIM.lock() {
        Ok(g) => g,
        Err(p) => p.into_inner(),
    }
}

pub(crate) fn with<R>(f: impl FnOnce(&mut Sim) -> R) -> R {
    let mut g = guard();
    f(g.as_mut().expect("not inside a simulated run"))
}

impl Sim {
    pub(crate) fn draw(&mut self, n: u64, label: &'static str) -> u64 {
        if n <= 1 {
            return 0;
        }
        let i = self.out.tape.len();
        let v = if i >= MAX_TAPE {
            0
        } else {
            match &self.src {
                Source::Seed(_) => self.rng.next() % n,
                Source::Tape(t) => t.get(i).copied().unwrap_or(0).min(n - 1),
            }
        };
        if i < MAX_TAPE {
            self.out.tape.push(v);
            self.labels.push(label);
        }
        v
    }

    pub(crate) fn chance(&mut self, num: u64, den: u64, label: &'static str) -> bool {
        num > 0 && self.draw(den, label) >= den - num.min(den - 1)
    }

    pub(crate) fn log(&mut self, line: String) {
        let line = format!("{:06} t{} {}", self.out.steps, self.current, line);
        self.out.log_hash = fnv(self.out.log_hash, line.as_bytes());
        if self.out.log.len() < MAX_LOG {
            self.out.log.push(line);
        }
    }

    pub(crate) fn fault(&mut self, kind: &str) {
        *self.out.faults.entry(kind.to_string()).or_insert(0) += 1;
        self.log(format!("FAULT {kind}"));
    }
}

// ------------------------------------------------------------------------------------------------
// What scenarios call
// ------------------------------------------------------------------------------------------------

/// A choice in `0..n`; 0 is the simplest alternative.
pub fn draw(n: u64, label: &'static str) -> u64 {
    with(|s| s.draw(n, label))
}

pub fn draw_usize(n: usize, label: &'static str) -> usize {
    draw(n as u64, label) as usize
}

/// A choice in `lo..=hi`; `lo` is the simplest.
pub fn range(lo: u64, hi: u64, label: &'static str) -> u64 {
    lo + draw(hi - lo + 1, label)
}

/// True with probability num/den; false is the simplest.
pub fn chance(num: u64, den: u64, label: &'static str) -> bool {
    with(|s| s.chance(num, den, label))
}

pub fn pick<'a, T>(items: &'a [T], label: &'static str) -> &'a T {
    &items[draw_usize(items.len(), label)]
}

pub fn log_line(line: String) {
    if in_sim() {
        with(|s| s.log(line));
    }
}

pub fn fault(kind: &str) {
    with(|s| s.fault(kind));
}

/// How often this fault has fired in this run.
pub fn fault_count(kind: &str) -> u64 {
    with(|s| s.out.faults.get(kind).copied().unwrap_or(0))
}

/// Counts "this rare condition was reached".
pub fn probe(name: &str) {
    with(|s| *s.out.probes.entry(name.to_string()).or_insert(0) += 1);
}

/// Counts one operation of the workload on the code under test.
pub fn op() {
    with(|s| s.out.ops += 1);
}

/// Advances the simulated clock.
pub fn advance(ns: u64) {
    with(|s| {
        s.out.sim_ns = s.out.sim_ns.saturating_add(ns);
        s.wall_ns = s.wall_ns.saturating_add(ns as i64);
    });
}

pub fn violation(class: &str, detail: String) -> ! {
    with(|s| {
        if s.out.violation.is_none() && !s.aborting {
            s.log(format!("VIOLATION {class}: {detail}"));
            s.out.violation = Some(Violation { class: class.to_string(), detail });
        }
        s.aborting = true;
        finish(s);
    });
    std::panic::panic_any(ViolationPayload)
}

/// One step of a workload whose length the tape decides: everything drawn until the next call (or
/// the end of the loop) is one span the minimiser can delete as a whole.
pub struct Steps {
    left: u64,
    den: u64,
    open: bool,
}

impl Steps {
    /// At most `max` steps, about `mean` on average.
    pub fn new(max: u64, mean: u64) -> Self {
        Steps { left: max, den: mean.max(1) + 1, open: false }
    }

    pub fn more(&mut self) -> bool {
        with(|s| {
            if self.open {
                close_span(s);
                self.open = false;
            }
            if self.left == 0 {
                return false;
            }
            self.left -= 1;
            s.open.push(s.out.tape.len());
            self.open = true;
            // 0 means stop, so an exhausted tape ends the workload.
            if s.draw(self.den, "more") == 0 {
                close_span(s);
                self.open = false;
                false
            } else {
                true
            }
        })
    }
}

fn close_span(s: &mut Sim) {
    if let Some(b) = s.open.pop() {
        let e = s.out.tape.len();
        if e > b {
            s.out.spans.push((b, e));
        }
    }
}

/// Runs `f`; everything it draws is one span.
pub fn span<R>(f: impl FnOnce() -> R) -> R {
    with(|s| s.open.push(s.out.tape.len()));
    let r = f();
    with(close_span);
    r
}

/// Calls into the code under test and turns a panic into `Err(message)`.
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(p) => {
            if p.is::<ViolationPayload>() || p.is::<AbortPayload>() {
                resume_unwind(p)
            }
            let (msg, loc) = take_panic(&p);
            Err(format!("{msg} at {loc}"))
        }
    }
}

/// Re-throws everything but library panics: `class` is reported for those.
pub fn no_panic<R>(class: &str, what: &str, f: impl FnOnce() -> R) -> R {
    match guarded(f) {
        Ok(v) => v,
        Err(e) => violation(class, format!("{what} panicked: {e}")),
    }
}

fn take_panic(p: &Box<dyn Any + Send>) -> (String, String) {
    LAST_PANIC
        .with(|l| l.borrow_mut().take())
        .unwrap_or_else(|| (panic_text(p.as_ref()), "unknown".into()))
}

fn panic_text(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "non-string panic".into()
    }
}

// ------------------------------------------------------------------------------------------------
// Scheduling
// ------------------------------------------------------------------------------------------------

/// How often a scheduling point switches tasks: one in `den`; 0 = never.
pub fn set_switch_den(den: u64) {
    with(|s| s.switch_den = den);
}

fn abort_check(s: &Sim) -> bool {
    s.aborting && !std::thread::panicking()
}

fn wait_for_turn(mut g: MutexGuard<'static, Option<Sim>>, me: usize) {
    loop {
        let s = g.as_mut().unwrap();
        if abort_check(s) {
            drop(g);
            std::panic::panic_any(AbortPayload);
        }
        if s.aborting || (s.current == me && s.status[me] == Status::Runnable) {
            return;
        }
        g = match CV.wait(g) {
            Ok(g) => g,
            Err(p) => p.into_inner(),
        };
    }
}

fn runnable_others(s: &mut Sim, me: usize) -> Vec<usize> {
    for st in s.status.iter_mut() {
        if let Status::Futex(word, expected) = *st {
            if futex_word(word) != expected {
                *st = Status::Runnable;
            }
        }
    }
    (0..s.status.len()).filter(|i| *i != me && s.status[*i] == Status::Runnable).collect()
}

fn note_switch(s: &mut Sim, to: usize, label: &str) {
    if s.current != to {
        s.out.switches += 1;
        s.current = to;
    }
    s.out.sched_hash = fnv(fnv(s.out.sched_hash, &[to as u8]), label.as_bytes());
}

/// A step of a process outside, the `n`th of those the scenario schedules itself.
pub fn outside_step(n: usize, switched: bool, label: &str) {
    let mut g = guard();
    let s = g.as_mut().unwrap();
    s.out.switches += switched as u64;
    s.out.sched_hash = fnv(fnv(s.out.sched_hash, &[n as u8]), label.as_bytes());
}

/// A device took or gave bytes, or was made to interrupt its caller. The steps of a run are limited,
/// these less so.
pub(crate) fn moved() {
    with(|s| s.moved = (s.moved + 1).min(10 * MAX_STEPS));
}

/// A point at which the simulator may hand control to another task. The simulated clock moves.
pub fn yield_now(label: &'static str) {
    let Some(me) = ME.with(|m| m.get()) else { return };
    if std::thread::panicking() {
        return;
    }
    let mut g = guard();
    let s = g.as_mut().unwrap();
    if abort_check(s) {
        drop(g);
        std::panic::panic_any(AbortPayload);
    }
    s.out.steps += 1;
    s.out.sim_ns += 20_000;
    s.wall_ns += 20_000;
    if s.out.steps > MAX_STEPS + s.moved {
        let steps = s.out.steps;
        drop(g);
        violation("no-progress", format!("{steps} simulated steps (at {label})"));
    }
    if let (Some(fd), true) = (s.report_to, s.crash_den > 0) {
        if s.chance(1, s.crash_den, "crash") {
            s.fault("process-crash");
            s.log(format!("process dies at {label}"));
            report(s, fd, true);
        }
    }
    if s.depth_quiet > 0 {
        return;
    }
    let others = runnable_others(s, me);
    if others.is_empty() || s.switch_den == 0 {
        return;
    }
    let den = s.switch_den;
    if s.chance(1, den, "switch") {
        let k = s.draw(others.len() as u64, "switch-to") as usize;
        note_switch(s, others[k], label);
        CV.notify_all();
        wait_for_turn(g, me);
    } else {
        s.out.sched_hash = fnv(s.out.sched_hash, &[255]);
    }
}

/// Chooses the caller to preempt the current one with, if there is any; the hand-over itself is the
/// closure's.
pub(crate) fn preempt_to(label: &'static str) -> Option<impl FnOnce()> {
    let me = ME.with(|m| m.get())?;
    let to = with(|s| {
        if s.aborting || s.depth_quiet > 0 || s.current != me {
            return None;
        }
        let others = runnable_others(s, me);
        if others.is_empty() {
            return None;
        }
        let k = s.draw(others.len() as u64, "preempt-by") as usize;
        Some(others[k])
    })?;
    Some(move || {
        let mut g = guard();
        let s = g.as_mut().unwrap();
        s.out.steps += 1;
        s.out.sim_ns += 20_000;
        s.wall_ns += 20_000;
        *s.out.probes.entry(format!("preempted-at-{label}")).or_insert(0) += 1;
        s.log(format!("preempted at {label} by t{to}"));
        note_switch(s, to, label);
        CV.notify_all();
        wait_for_turn(g, me);
    })
}

fn futex_word(word: usize) -> u32 {
    // SAFETY: the word a caller waits on stays alive while it waits.
    unsafe { (*(word as *const std::sync::atomic::AtomicU32)).load(Ordering::SeqCst) }
}

/// The scheduler's own lock and condition variable.
pub(crate) fn is_scheduler(word: usize) -> bool {
    let within = |p: usize, n: usize| word >= p && word < p + n;
    within(&raw const SIM as usize, size_of_val(&SIM)) || within(&raw const CV as usize, size_of_val(&CV))
}

/// A caller waits on a lock of the code under test; gives an error number.
pub(crate) fn futex_wait(word: usize, expected: u32, timeout: bool) -> i32 {
    let me = ME.with(|m| m.get()).expect("a caller");
    let mut g = guard();
    let s = g.as_mut().unwrap();
    if futex_word(word) != expected {
        return libc::EAGAIN;
    }
    *s.out.probes.entry("waited-for-a-lock".into()).or_insert(0) += 1;
    if timeout {
        let others = runnable_others(s, me);
        if !others.is_empty() {
            let k = s.draw(others.len() as u64, "next") as usize;
            note_switch(s, others[k], "timed-wait");
            CV.notify_all();
            wait_for_turn(g, me);
        }
        return libc::ETIMEDOUT;
    }
    s.status[me] = Status::Futex(word, expected);
    hand_over(s, me);
    CV.notify_all();
    wait_for_turn(g, me);
    0
}

/// Gives the number of callers that wait no longer.
pub(crate) fn futex_wake(word: usize, count: usize) -> usize {
    let mut woken = 0;
    if let Some(s) = guard().as_mut() {
        for st in s.status.iter_mut() {
            if woken < count && matches!(st, Status::Futex(w, _) if *w == word) {
                *st = Status::Runnable;
                woken += 1;
            }
        }
    }
    woken
}

/// No task switch happens inside `f` (an operation the callers perform under a lock).
pub fn atomically<R>(f: impl FnOnce() -> R) -> R {
    struct Guard;
    impl Drop for Guard {
        fn drop(&mut self) {
            if let Some(s) = guard().as_mut() {
                s.depth_quiet = s.depth_quiet.saturating_sub(1);
            }
        }
    }
    with(|s| s.depth_quiet += 1);
    let _g = Guard;
    f()
}

struct AssertSend<T>(T);
// Exactly one task runs at any instant and every hand-over goes through the SIM mutex, so the
// tasks are coroutines: what they share is never touched concurrently.
unsafe impl<T> Send for AssertSend<T> {}
impl<T> AssertSend<T> {
    fn into(self) -> T {
        self.0
    }
}

/// Runs the given closures as caller tasks until all are done, interleaved by the simulator.
pub fn run_tasks(tasks: Vec<Box<dyn FnOnce()>>) {
    let me = ME.with(|m| m.get()).expect("run_tasks outside a run");
    let mut handles = Vec::new();
    for f in tasks {
        let id = with(|s| {
            s.status.push(Status::Runnable);
            s.status.len() - 1
        });
        let f = AssertSend(f);
        let h = std::thread::Builder::new()
            .stack_size(4 << 20)
            .spawn(move || {
                let f = f.into();
                ME.with(|m| m.set(Some(id)));
                let r = catch_unwind(AssertUnwindSafe(|| {
                    wait_for_turn(guard(), id);
                    f();
                }));
                if let Err(p) = r {
                    record_panic(p);
                }
                let mut g = guard();
                let s = g.as_mut().unwrap();
                s.status[id] = Status::Done;
                if !s.aborting {
                    hand_over(s, id);
                }
                ME.with(|m| m.set(None));
                CV.notify_all();
            })
            .expect("spawn task");
        handles.push(h);
    }
    {
        let mut g = guard();
        let s = g.as_mut().unwrap();
        s.status[me] = Status::Joining;
        hand_over(s, me);
        CV.notify_all();
        // Wait until every task is done.
        loop {
            let s = g.as_mut().unwrap();
            let all = s.status.iter().enumerate().all(|(i, st)| i == me || *st == Status::Done);
            if all {
                s.status[me] = Status::Runnable;
                s.current = me;
                break;
            }
            g = match CV.wait(g) {
                Ok(g) => g,
                Err(p) => p.into_inner(),
            };
        }
    }
    for h in handles {
        let _ = h.join();
    }
    if with(|s| s.aborting) {
        std::panic::panic_any(AbortPayload);
    }
}

/// The current task cannot go on: choose who runs next.
fn hand_over(s: &mut Sim, me: usize) {
    let others = runnable_others(s, me);
    if others.is_empty() {
        let joining = s.status.iter().position(|st| *st == Status::Joining);
        let blocked = s.status.iter().any(|st| matches!(st, Status::Blocked(_)));
        if s.status.iter().any(|st| matches!(st, Status::Futex(..))) && s.out.violation.is_none() {
            s.log("DEADLOCK".into());
            let detail = "the callers wait for each other for ever, inside the code under test".into();
            s.out.violation = Some(Violation { class: "deadlock".into(), detail });
            s.aborting = true;
            finish(s);
        } else if blocked && s.out.violation.is_none() {
            s.out.harness_error.get_or_insert("deadlock among simulated tasks".into());
            s.aborting = true;
            finish(s);
        } else if let Some(j) = joining {
            s.current = j;
        }
        return;
    }
    let k = s.draw(others.len() as u64, "next") as usize;
    note_switch(s, others[k], "hand-over");
}

/// A lock between simulated tasks.
pub struct SimLock {
    id: u64,
    held: Cell<bool>,
}

impl Default for SimLock {
    fn default() -> Self {
        Self::new()
    }
}

impl SimLock {
    pub fn new() -> Self {
        let id = with(|s| {
            s.next_lock += 1;
            s.next_lock
        });
        SimLock { id, held: Cell::new(false) }
    }

    pub fn with<R>(&self, f: impl FnOnce() -> R) -> R {
        yield_now("lock");
        let me = ME.with(|m| m.get()).unwrap();
        while self.held.get() {
            let mut g = guard();
            let s = g.as_mut().unwrap();
            s.status[me] = Status::Blocked(self.id);
            hand_over(s, me);
            CV.notify_all();
            wait_for_turn(g, me);
        }
        self.held.set(true);
        struct Rel<'a>(&'a SimLock);
        impl Drop for Rel<'_> {
            fn drop(&mut self) {
                self.0.held.set(false);
                if let Some(s) = guard().as_mut() {
                    for st in s.status.iter_mut() {
                        if *st == Status::Blocked(self.0.id) {
                            *st = Status::Runnable;
                        }
                    }
                }
            }
        }
        let r = {
            let _rel = Rel(self);
            f()
        };
        yield_now("unlock");
        r
    }
}

fn record_panic(p: Box<dyn Any + Send>) {
    let text = take_panic_opt();
    let mut g = guard();
    let s = g.as_mut().unwrap();
    if p.is::<ViolationPayload>() || p.is::<AbortPayload>() {
        // recorded by `violation`
    } else if s.out.violation.is_none() && s.out.harness_error.is_none() && !s.aborting {
        let (msg, loc) = text.unwrap_or_else(|| (panic_text(p.as_ref()), "unknown".into()));
        if is_harness(&loc) {
            s.log(format!("HARNESS PANIC {msg} at {loc}"));
            s.out.harness_error = Some(format!("{msg} at {loc}"));
        } else {
            s.log(format!("PANIC {msg} at {loc}"));
            s.out.violation =
                Some(Violation { class: "panic".into(), detail: format!("{msg} at {loc}") });
        }
    }
    s.aborting = true;
    finish(s);
    CV.notify_all();
}

/// Where the outcome of the run of this process goes; -1 = nowhere.
static RUN_FD: AtomicI32 = AtomicI32::new(-1);

/// The run is decided: its outcome is handed over as it stands, and the process is gone, so that
/// nothing of what the tasks left unfinished -- some of them inside calls that cannot unwind -- has
/// a say any more.
fn finish(s: &mut Sim) {
    if let Some(fd) = s.report_to {
        report(s, fd, false);
    }
    let fd = RUN_FD.load(Ordering::Relaxed);
    if fd >= 0 {
        settle(s);
        send(&s.out.to_json(true), fd);
    }
}

fn settle(s: &mut Sim) {
    while !s.open.is_empty() {
        close_span(s);
    }
    s.out.decisions = s.out.tape.len() as u64;
    s.out.labels = s.labels.iter().map(|l| l.to_string()).collect();
}

fn send(v: &serde_json::Value, fd: i32) -> ! {
    let text = v.to_string();
    let mut b = text.as_bytes();
    // SAFETY: plain libc calls.
    unsafe {
        while !b.is_empty() {
            let n = libc::write(fd, b.as_ptr().cast(), b.len());
            if n <= 0 {
                break;
            }
            b = &b[n as usize..];
        }
        libc::_exit(0)
    }
}

fn take_panic_opt() -> Option<(String, String)> {
    LAST_PANIC.with(|l| l.borrow_mut().take())
}

fn is_harness(loc: &str) -> bool {
    let l = loc.trim_start_matches("./");
    l.starts_with("src/") || l.contains("simkit/src/") || l.contains("sim_iri/src/") || l.contains("sim_rdf/src/")
}

pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if !in_sim() {
            default(info);
            return;
        }
        let p = info.payload();
        if p.is::<ViolationPayload>() || p.is::<AbortPayload>() {
            return;
        }
        let msg = panic_text(p);
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_else(|| "unknown".into());
        let _ = LAST_PANIC.try_with(|l| *l.borrow_mut() = Some((msg, loc)));
    }));
}

/// How a simulated process came to its end.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum End {
    Finished,
    Crashed,
}

/// Runs `f` in a process of its own: it starts from the state of this one -- no static counter or
/// cache of an earlier process reaches it -- with new hash keys, and all it leaves behind is what
/// it put on the `Disk`. One in `crash_den` scheduling points (0 = none) is a crash.
/// Call it from the root task only.
pub fn process(name: &str, crash_den: u64, f: impl FnOnce()) -> End {
    with(|s| {
        assert!(s.report_to.is_none(), "nested processes");
        s.hash_seed = s.draw(1 << 16, "hash-seed");
        s.hash_ctr = 0;
        s.log(format!("process {name} starts"));
        s.open.push(s.out.tape.len());
    });
    let mut fds = [0i32; 2];
    // SAFETY: as in `execute`.
    let (text, status) = unsafe {
        assert!(libc::pipe(fds.as_mut_ptr()) == 0, "pipe");
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            libc::close(fds[0]);
            with(|s| {
                s.report_to = Some(fds[1]);
                s.crash_den = crash_den;
            });
            if let Err(p) = catch_unwind(AssertUnwindSafe(f)) {
                record_panic(p);
            }
            let mut g = guard();
            report(g.as_mut().unwrap(), fds[1], false);
        }
        libc::close(fds[1]);
        let mut text: Vec<u8> = Vec::new();
        let mut buf = vec![0u8; 1 << 16];
        loop {
            let n = libc::read(fds[0], buf.as_mut_ptr().cast(), buf.len());
            if n <= 0 {
                break;
            }
            text.extend_from_slice(&buf[..n as usize]);
        }
        libc::close(fds[0]);
        let mut status = 0;
        while libc::waitpid(pid, &mut status, 0) < 0 {}
        (text, status)
    };
    let Ok(v) = serde_json::from_slice::<serde_json::Value>(&text) else {
        violation("process-death", format!("a simulated process ended with wait status {status:#x}"));
    };
    let crashed = v["crashed"].as_bool().unwrap_or(false);
    let aborting = with(|s| {
        adopt(s, &v);
        close_span(s);
        s.log(format!("process {name} {}", if crashed { "crashed" } else { "ends" }));
        s.aborting
    });
    if aborting {
        std::panic::panic_any(AbortPayload);
    }
    if crashed {
        End::Crashed
    } else {
        End::Finished
    }
}

/// A simulated process hands its part of the run back, and is gone.
fn report(s: &mut Sim, fd: i32, crashed: bool) -> ! {
    let mut v = s.out.to_json(true);
    v["crashed"] = crashed.into();
    v["labels"] = s.labels.iter().map(|l| l.to_string()).collect::<Vec<_>>().into();
    v["rng"] = s.rng.0.into();
    v["entropy"] = serde_json::json!([s.entropy_rng.0, s.entropy_last, s.entropy_faulty]);
    v["wall"] = s.wall_ns.into();
    v["moved"] = s.moved.into();
    v["aborting"] = s.aborting.into();
    v["switch_den"] = s.switch_den.into();
    v["next_lock"] = s.next_lock.into();
    v["files"] = s
        .files
        .iter()
        .map(|(k, f)| serde_json::json!([k, f.durable, f.cached]))
        .collect::<Vec<_>>()
        .into();
    send(&v, fd)
}

fn adopt(s: &mut Sim, v: &serde_json::Value) {
    let open = std::mem::take(&mut s.open);
    s.out = Outcome::from_json(v);
    s.open = open;
    // the tape is the run's, so its labels are the labels of the same static texts
    let known = s.labels.len();
    for l in s.out.labels.drain(..).skip(known) {
        s.labels.push(Box::leak(l.into_boxed_str()));
    }
    s.rng = Rng(v["rng"].as_u64().unwrap());
    s.entropy_rng = Rng(v["entropy"][0].as_u64().unwrap());
    s.entropy_last = v["entropy"][1].as_u64().unwrap();
    s.entropy_faulty = v["entropy"][2].as_bool().unwrap();
    s.wall_ns = v["wall"].as_i64().unwrap();
    s.moved = v["moved"].as_u64().unwrap();
    s.aborting = v["aborting"].as_bool().unwrap();
    s.switch_den = v["switch_den"].as_u64().unwrap();
    s.next_lock = v["next_lock"].as_u64().unwrap();
    let bytes = |v: &serde_json::Value| -> Option<Vec<u8>> {
        v.as_array().map(|a| a.iter().map(|b| b.as_u64().unwrap() as u8).collect())
    };
    s.files = v["files"]
        .as_array()
        .unwrap()
        .iter()
        .map(|f| {
            let st = crate::io::FileState { durable: bytes(&f[1]), cached: bytes(&f[2]) };
            (f[0].as_str().unwrap().to_string(), st)
        })
        .collect();
}

/// Why a run gave no outcome.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Died {
    /// It did not end in time.
    Hang,
    /// The process ended: stack overflow, abort, double panic, out of memory.
    Death(i32),
}

impl Died {
    pub fn class(self) -> &'static str {
        match self {
            Died::Hang => "hang",
            Died::Death(_) => "process-death",
        }
    }
}

/// Executes one run in a forked child, so every run starts from the same process state (static
/// counters, caches and hash keys included) and takes nothing with it when it hangs or dies.
/// `full` also brings back the tape and the event log. Call it from a single-threaded process.
pub fn execute(scenario: fn(), src: Source, timeout_s: u64, full: bool) -> Result<Outcome, Died> {
    let mut fds = [0i32; 2];
    // SAFETY: plain libc calls; the child only touches its own copy and leaves by _exit.
    unsafe {
        assert!(libc::pipe(fds.as_mut_ptr()) == 0, "pipe");
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            libc::close(fds[0]);
            RUN_FD.store(fds[1], Ordering::Relaxed);
            let out = execute_here(scenario, src);
            let full = full || out.violation.is_some();
            send(&out.to_json(full), fds[1])
        }
        libc::close(fds[1]);
        let end = std::time::Instant::now() + std::time::Duration::from_secs(timeout_s);
        let mut text: Vec<u8> = Vec::new();
        let mut buf = vec![0u8; 1 << 16];
        let mut hung = false;
        loop {
            let left = end.saturating_duration_since(std::time::Instant::now()).as_millis() as i32;
            let mut p = libc::pollfd { fd: fds[0], events: libc::POLLIN, revents: 0 };
            let r = libc::poll(&mut p, 1, left.max(0));
            if r == 0 {
                hung = true;
                libc::kill(pid, libc::SIGKILL);
                break;
            }
            if r < 0 {
                continue;
            }
            let n = libc::read(fds[0], buf.as_mut_ptr().cast(), buf.len());
            if n <= 0 {
                break;
            }
            text.extend_from_slice(&buf[..n as usize]);
        }
        libc::close(fds[0]);
        let mut status = 0;
        while libc::waitpid(pid, &mut status, 0) < 0 {}
        if hung {
            return Err(Died::Hang);
        }
        match serde_json::from_slice::<serde_json::Value>(&text) {
            Ok(v) => Ok(Outcome::from_json(&v)),
            Err(_) => Err(Died::Death(status)),
        }
    }
}

impl Outcome {
    fn to_json(&self, full: bool) -> serde_json::Value {
        let none: &[String] = &[];
        serde_json::json!({
            "tape": if full { &self.tape[..] } else { &[] },
            "decisions": self.decisions,
            "labels": if full { &self.labels[..] } else { none },
            "spans": if full { &self.spans[..] } else { &[] },
            "log": if full { &self.log[..] } else { none },
            "log_hash": self.log_hash, "sched_hash": self.sched_hash, "switches": self.switches,
            "steps": self.steps, "ops": self.ops, "sim_ns": self.sim_ns, "faults": self.faults,
            "probes": self.probes, "harness": self.harness_error,
            "violation": self.violation.as_ref().map(|v| [&v.class, &v.detail]),
        })
    }

    fn from_json(v: &serde_json::Value) -> Outcome {
        let n = |k: &str| v[k].as_u64().unwrap_or(0);
        let strings = |k: &str| -> Vec<String> {
            v[k].as_array()
                .map(|a| a.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect())
                .unwrap_or_default()
        };
        let counts = |k: &str| -> BTreeMap<String, u64> {
            v[k].as_object()
                .map(|o| o.iter().map(|(k, c)| (k.clone(), c.as_u64().unwrap_or(0))).collect())
                .unwrap_or_default()
        };
        Outcome {
            tape: v["tape"]
                .as_array()
                .map(|a| a.iter().map(|x| x.as_u64().unwrap_or(0)).collect())
                .unwrap_or_default(),
            decisions: n("decisions"),
            labels: strings("labels"),
            spans: v["spans"]
                .as_array()
                .map(|a| {
                    a.iter()
                        .map(|p| (p[0].as_u64().unwrap_or(0) as usize, p[1].as_u64().unwrap_or(0) as usize))
                        .collect()
                })
                .unwrap_or_default(),
            log: strings("log"),
            log_hash: n("log_hash"),
            sched_hash: n("sched_hash"),
            switches: n("switches"),
            steps: n("steps"),
            ops: n("ops"),
            sim_ns: n("sim_ns"),
            faults: counts("faults"),
            probes: counts("probes"),
            violation: v["violation"].as_array().map(|a| Violation {
                class: a[0].as_str().unwrap_or("?").into(),
                detail: a[1].as_str().unwrap_or("").into(),
            }),
            harness_error: v["harness"].as_str().map(|s| s.to_string()),
        }
    }
}

/// Executes one run in this process, on a fresh thread.
pub fn execute_here(scenario: fn(), src: Source) -> Outcome {
    let seed = match &src {
        Source::Seed(s) => *s,
        Source::Tape(_) => 0,
    };
    *guard() = Some(Sim {
        src,
        rng: Rng(seed),
        out: Outcome { log_hash: FNV0, sched_hash: FNV0, ..Default::default() },
        labels: Vec::new(),
        open: Vec::new(),
        status: vec![Status::Runnable],
        current: 0,
        switch_den: 0,
        aborting: false,
        hash_seed: 0,
        hash_ctr: 0,
        entropy_rng: Rng(0),
        entropy_last: 0,
        entropy_faulty: false,
        wall_ns: 1_700_000_000_000_000_000,
        moved: 0,
        next_lock: 0,
        depth_quiet: 0,
        files: BTreeMap::new(),
        report_to: None,
        crash_den: 0,
    });
    let h = std::thread::Builder::new()
        .stack_size(4 << 20)
        .spawn(move || {
            ME.with(|m| m.set(Some(0)));
            let r = catch_unwind(AssertUnwindSafe(|| {
                with(|s| {
                    s.hash_seed = s.draw(1 << 16, "hash-seed");
                    let e = s.draw(1 << 16, "entropy-seed");
                    s.entropy_rng = Rng(crate::mix(e ^ 0xE17));
                });
                scenario()
            }));
            if let Err(p) = r {
                record_panic(p);
            }
            ME.with(|m| m.set(None));
        })
        .expect("spawn run");
    let _ = h.join();
    let mut g = guard();
    let mut sim = g.take().unwrap();
    settle(&mut sim);
    sim.out
}
