//! C24: `rdftk convert` and `rdftk draw` give a document that says what the input says, or fail
//! visibly; and what they fail to read or to write takes nothing else with it.
//!
//! The program itself runs, one process for each command, chained by pipes. Every call of theirs on
//! a file, a stream, the clock or for entropy waits in the seam (cli/seam.c) until the simulator
//! has chosen the process that goes on and what becomes of its call.

use crate::fmt::{self, Fmt};
use crate::gen::*;
use crate::spell::{any_document, same_documents, Doc};
use crate::{iso, rdfxml, ttl};
use simkit::*;
use std::fs::File;
use std::io::{Read, Write};
use std::os::fd::{AsRawFd, OwnedFd};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::PathBuf;
use std::process::{Child, Command, ExitStatus, Stdio};

const ASK: i32 = 198;
const TOLD: i32 = 199;

#[derive(Clone, Debug)]
struct Ask {
    op: u32,
    fd: i32,
    n: u64,
    flags: u64,
    before: i64,
    path: String,
}

const OPS: &[&str] = &["?", "open", "read", "write", "close", "sync", "rename", "unlink", "truncate", "entropy", "blocked"];

#[derive(Debug)]
enum State {
    Asks(Ask),
    Blocked,
    Ended(ExitStatus),
}

/// What goes wrong for one process.
#[derive(Clone, Debug, Default)]
struct Faults {
    /// One in so many transfers is short, is interrupted.
    short: u64,
    interrupt: u64,
    /// The call at which something fails for good, among those of one kind (0: of all), and how.
    at: Option<u64>,
    kind: u32,
    kill: bool,
    sticky: bool,
}

impl Faults {
    fn any() -> Faults {
        let mut f = Faults::default();
        let level = draw(4, "process-faults");
        if level > 0 {
            f.short = *pick(&[0u64, 3, 1], "short");
            f.interrupt = *pick(&[0u64, 9], "interrupt");
        }
        if level == 3 {
            f.kind = *pick(&[0u32, 3, 2, 1], "failing-call");
            f.at = Some(draw(if f.kind == 0 { 24 } else { 6 }, "fails-at"));
            f.kill = chance(1, 4, "kill");
            f.sticky = chance(1, 2, "sticky");
        }
        f
    }
}

struct Proc {
    name: String,
    child: Child,
    ask: File,
    told: File,
    state: State,
    faults: Faults,
    calls: u64,
    entropy: u64,
    /// What failed: never, while reading, or later.
    failed_reading: bool,
    failed_else: bool,
    killed: bool,
    input: Option<i32>,
}

fn cli() -> (PathBuf, PathBuf) {
    let dir = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or("/verif".into())).join("cli/target");
    (dir.join("sim/debug/rdftk"), dir.join("seam.so"))
}

impl Proc {
    fn start(name: &str, args: &[String], stdin: Stdio, stdout: Stdio, env: &[(&str, &str)], faults: Faults) -> Proc {
        let (program, seam) = cli();
        let (ask, ask_w) = pipe();
        let (told_r, told) = pipe();
        let (a, t) = (ask_w.as_raw_fd(), told_r.as_raw_fd());
        let mut c = Command::new(&program);
        c.args(args).env_clear().env("LD_PRELOAD", &seam).envs(env.iter().copied());
        c.stdin(stdin).stdout(stdout).stderr(File::create(format!("{name}.err")).unwrap());
        // SAFETY: calls that are safe between fork and exec.
        unsafe {
            c.pre_exec(move || {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                libc::dup2(a, ASK);
                libc::dup2(t, TOLD);
                Ok(())
            });
        }
        let child = c.spawn().unwrap_or_else(|e| panic!("{program:?}: {e}"));
        let mut p = Proc {
            name: name.into(),
            child,
            ask: File::from(ask),
            told: File::from(told),
            state: State::Blocked,
            faults,
            calls: 0,
            entropy: mix(draw(1 << 20, "entropy-seed")),
            failed_reading: false,
            failed_else: false,
            killed: false,
            input: None,
        };
        drop((ask_w, told_r));
        slog!("{name}: rdftk {}", args.join(" "));
        p.wait();
        p
    }

    /// Until the process asks again or is no more.
    fn wait(&mut self) {
        let mut b = [0u8; 96];
        self.state = match self.ask.read_exact(&mut b) {
            Err(_) => {
                let st = self.child.wait().unwrap();
                slog!("{}: {st}", self.name);
                State::Ended(st)
            }
            Ok(()) => {
                let u64_at = |i: usize| u64::from_le_bytes(b[i..i + 8].try_into().unwrap());
                let u32_at = |i: usize| u32::from_le_bytes(b[i..i + 4].try_into().unwrap());
                let path: Vec<u8> = b[32..].iter().copied().take_while(|c| *c != 0).collect();
                let a = Ask {
                    op: u32_at(0),
                    fd: u32_at(4) as i32,
                    n: u64_at(8),
                    flags: u64_at(16),
                    before: u64_at(24) as i64,
                    path: String::from_utf8_lossy(&path).into_owned(),
                };
                match a.op {
                    10 => State::Blocked,
                    _ => State::Asks(a),
                }
            }
        };
    }

    fn tell(&mut self, action: i32, n: u64, data: &[u8]) {
        let mut b = [0u8; 80];
        b[..4].copy_from_slice(&action.to_le_bytes());
        b[8..16].copy_from_slice(&n.to_le_bytes());
        b[16..16 + data.len()].copy_from_slice(data);
        let _ = self.told.write_all(&b);
        self.wait();
    }

    /// One call of this process goes on; true if anything came of it.
    fn step(&mut self) -> bool {
        op();
        advance(1_000_000);
        let State::Asks(a) = &self.state else {
            self.tell(0, 0, &[]);
            return !matches!(self.state, State::Blocked);
        };
        let a = a.clone();
        if a.op == 2 && a.before >= 0 && self.input.is_none() {
            self.input = Some(a.fd);
        }
        if a.op == 9 {
            let data: Vec<u8> = (0..a.n.min(64)).map(|i| (mix(self.entropy + i) >> 7) as u8).collect();
            self.entropy += 64;
            self.tell(0, 0, &data);
            return true;
        }
        let reading = a.op == 2 || a.op == 1 && a.flags & libc::O_ACCMODE as u64 == libc::O_RDONLY as u64;
        let counts = self.faults.kind == 0 || self.faults.kind == a.op;
        let fails = match self.faults.at {
            None => false,
            _ if !counts => false,
            Some(at) => self.calls == at || self.calls > at && self.faults.sticky && (self.failed_reading == reading),
        };
        self.calls += counts as u64;
        if fails && self.faults.kill {
            slog!("{}: killed at {} {} {}", self.name, OPS[a.op as usize], a.fd, a.path);
            fault("kill");
            self.killed = true;
            self.tell(2, 0, &[]);
            return true;
        }
        // what close gives is not seen by any program in this language
        if fails && a.op != 4 {
            let e = match a.op {
                1 => *pick(&[libc::EACCES, libc::EMFILE, libc::ENOSPC, libc::EIO], "open-error"),
                2 => *pick(&[libc::EIO, libc::EISDIR, libc::ENXIO], "read-error"),
                3 => *pick(&[libc::ENOSPC, libc::EIO, libc::EPIPE, libc::EDQUOT], "write-error"),
                _ => libc::EIO,
            };
            slog!("{}: {} {} {} fails with {e}", self.name, OPS[a.op as usize], a.fd, a.path);
            fault(["", "open-error", "read-error", "write-error", "", "sync-error", "rename-error", "unlink-error", "truncate-error"][a.op as usize]);
            if reading {
                self.failed_reading = true;
            } else {
                self.failed_else = true;
            }
            self.tell(1, e as u64, &[]);
            return true;
        }
        if (a.op == 2 || a.op == 3) && a.n > 0 {
            if self.faults.interrupt > 0 && chance(1, self.faults.interrupt, "interrupted") {
                fault("interrupted");
                self.tell(1, libc::EINTR as u64, &[]);
                return true;
            }
            if a.n > 1 && self.faults.short > 0 && chance(1, self.faults.short, "short") {
                let n = 1 + draw(a.n.min(200) - 1, "short-by");
                fault("short-transfer");
                self.tell(0, n, &[]);
                return !matches!(self.state, State::Blocked);
            }
        }
        self.tell(0, a.n, &[]);
        !matches!(self.state, State::Blocked)
    }

    fn status(&self) -> ExitStatus {
        let State::Ended(st) = self.state else { unreachable!() };
        st
    }

    fn said(&self) -> String {
        String::from_utf8_lossy(&std::fs::read(format!("{}.err", self.name)).unwrap()).into_owned()
    }
}

fn pipe() -> (OwnedFd, OwnedFd) {
    let (r, w) = std::io::pipe().unwrap();
    (r.into(), w.into())
}

/// Lets the processes go on, one call at a time, until all have ended.
fn run(procs: &mut [Proc]) {
    let mut stuck: Vec<bool> = vec![false; procs.len()];
    let mut last = 0;
    loop {
        let ready: Vec<usize> = (0..procs.len()).filter(|i| !matches!(procs[*i].state, State::Ended(_)) && !stuck[*i]).collect();
        if ready.is_empty() {
            let left: Vec<&str> = procs.iter().filter(|p| !matches!(p.state, State::Ended(_))).map(|p| p.name.as_str()).collect();
            check!(left.is_empty(), "hang", "{left:?} wait for each other");
            return;
        }
        let i = ready[draw_usize(ready.len(), "process-step")];
        outside_step(i, i != last, if let State::Asks(a) = &procs[i].state { OPS[a.op as usize] } else { "retry" });
        last = i;
        if procs[i].step() {
            stuck.iter_mut().for_each(|s| *s = false);
        } else {
            stuck[i] = true;
        }
    }
}

// ------------------------------------------------------------------------------------------------
// Commands
// ------------------------------------------------------------------------------------------------

fn option(f: Fmt) -> &'static str {
    match f {
        Fmt::Nt => "n-triples",
        Fmt::Nq => "n-quads",
        Fmt::Ttl => "turtle",
        Fmt::Json => "json",
        Fmt::Xml => "xml",
        Fmt::Trig => "trig",
        Fmt::Dot => unreachable!(),
    }
}

fn flag(args: &mut Vec<String>, short: &str, long: &str, value: &str) {
    match draw(4, "flag-style") {
        0 => args.extend([short.into(), value.into()]),
        1 => args.extend([long.into(), value.into()]),
        2 => args.push(format!("{short}{value}")),
        _ => args.push(format!("{long}={value}")),
    }
}

/// What a document of this format denotes, by the harness's parsers.
fn denotes(f: Fmt, bytes: &[u8]) -> Result<Doc, String> {
    let text = std::str::from_utf8(bytes).map_err(|e| e.to_string())?;
    Ok(match f {
        Fmt::Nt => vec![(None, ttl::ntriples(text)?)],
        Fmt::Json => vec![(None, fmt::json(text)?)],
        Fmt::Xml => vec![(None, rdfxml::parse(text)?)],
        Fmt::Ttl => vec![(None, ttl::turtle(text)?)],
        Fmt::Nq | Fmt::Trig => {
            let mut doc: Doc = vec![];
            for (s, n) in if f == Fmt::Nq { ttl::nquads(text)? } else { ttl::trig(text)? } {
                match doc.iter_mut().find(|(m, _)| *m == n) {
                    Some((_, v)) => v.push(s),
                    None => doc.push((n, vec![s])),
                }
            }
            doc
        }
        Fmt::Dot => unreachable!(),
    })
}

/// A document says the same as the input did.
fn same(f: Fmt, bytes: &[u8], doc: &Doc) -> Result<(), String> {
    if f == Fmt::Dot {
        let items: Vec<S> = doc.iter().flat_map(|(_, v)| v.iter().cloned()).collect();
        return fmt::check_drawing(bytes, &items);
    }
    let got = denotes(f, bytes)?;
    let full = |d: &Doc| -> Doc { d.iter().filter(|(_, v)| !v.is_empty()).cloned().collect() };
    same_documents(&full(doc), &full(&got))
}

/// Can the format say this?
fn can(f: Fmt, doc: &Doc) -> bool {
    match f {
        Fmt::Nq | Fmt::Trig => true,
        Fmt::Xml => !named(doc) && doc.iter().all(|(_, v)| v.iter().all(fmt::xml_can)),
        _ => !named(doc),
    }
}

fn named(doc: &Doc) -> bool {
    doc.iter().any(|(n, v)| n.is_some() && !v.is_empty())
}

struct Stage {
    draw: bool,
    from: Fmt,
    to: Fmt,
}

fn any_stages(first: Fmt, doc: &Doc) -> Vec<Stage> {
    let mut stages = vec![];
    let mut from = first;
    loop {
        let last = !chance(1, 4, "another-stage") || stages.len() == 3;
        // a data set with named graphs goes on as one, or not at all
        let to = if named(doc) && !chance(1, 6, "names-lost") {
            if last && chance(1, 2, "trig") { Fmt::Trig } else { Fmt::Nq }
        } else if last && (from != Fmt::Nq || chance(1, 2, "draw-set")) && chance(1, 6, "draw") {
            stages.push(Stage { draw: true, from, to: Fmt::Dot });
            return stages;
        } else {
            *pick(if last { &[Fmt::Nt, Fmt::Json, Fmt::Xml, Fmt::Ttl, Fmt::Nq, Fmt::Trig] } else { &[Fmt::Nt, Fmt::Json, Fmt::Xml, Fmt::Nq] }, "to")
        };
        stages.push(Stage { draw: false, from, to });
        if last {
            return stages;
        }
        from = to;
    }
}

/// Makes a document of the format that it is not one of it.
fn spoil(f: Fmt, bytes: &mut Vec<u8>) {
    match f {
        Fmt::Nt | Fmt::Nq => {
            let line = *pick(&["<urn:x> <urn:y> .\n", "_:a _:b _:c .\n", "\"a\" <urn:x> <urn:y> .\n", "<urn:x> <urn:y> \"a .\n", "}\n"], "wrong-line");
            if chance(1, 2, "at-end") {
                if !bytes.is_empty() {
                    bytes.push(b'\n');
                }
                bytes.extend(line.bytes());
            } else {
                bytes.splice(0..0, line.bytes());
            }
        }
        _ => match draw(3, "spoil") {
            0 => bytes.extend(b"<<{"),
            1 => {
                let end = bytes.iter().rposition(|b| !b.is_ascii_whitespace()).unwrap_or(0);
                bytes.truncate(end);
            }
            _ => bytes.clear(),
        },
    }
}

fn one(n: u64) {
    let first = *pick(&[Fmt::Nt, Fmt::Nq, Fmt::Json, Fmt::Xml], "first");
    let (mut bytes, doc) = any_document(first);
    let stages = any_stages(first, &doc);
    // comments after the document could hide what is cut off or hung on
    let spoiled = chance(1, 8, "spoiled");
    if spoiled {
        spoil(first, &mut bytes);
        if denotes(first, &bytes).is_ok() {
            return;
        }
    }
    let missing = !spoiled && chance(1, 20, "missing");
    let (input, mut output) = (format!("in{n}"), format!("out{n}"));
    let _ = std::fs::remove_file(&input);
    if !missing {
        std::fs::write(&input, &bytes).unwrap();
    }
    let in_place = stages.len() == 1 && !missing && chance(1, 6, "in-place");
    if in_place {
        output = input.clone();
    } else if chance(1, 2, "old-output") {
        let old: String = (0..range(1, 3000, "old-length")).map(|i| (b'a' + (i % 26) as u8) as char).collect();
        std::fs::write(&output, old).unwrap();
    } else {
        let _ = std::fs::remove_file(&output);
    }
    let before = std::fs::read(&output).ok();
    slog!("{first:?} {} bytes{}{}", bytes.len(), if spoiled { " spoiled" } else { "" }, if missing { " missing" } else { "" });
    let (mut from_stdin, mut to_stdout) = (false, false);
    let mut procs: Vec<Proc> = vec![];
    let mut upstream: Option<Stdio> = None;
    let log = *pick(&["", "", "tracing", "errors", "information", "none"], "log-filter");
    let env = *pick(&[&[][..], &[("RUST_LOG", "trace")], &[("NO_COLOR", "1"), ("RUST_BACKTRACE", "1")]], "env");
    for (i, s) in stages.iter().enumerate() {
        let (is_first, is_last) = (i == 0, i + 1 == stages.len());
        let mut args: Vec<String> = vec![];
        if !log.is_empty() {
            args.push(format!("--log-filter={log}"));
        }
        args.push(if s.draw { "draw" } else { "convert" }.into());
        let mut flags: Vec<(&str, &str, String)> = vec![("-f", "--from", option(s.from).into())];
        if !s.draw && (s.to != Fmt::Ttl || chance(1, 2, "say-turtle")) {
            flags.push(("-t", "--to", option(s.to).into()));
        }
        let mut stdin = Stdio::null();
        if !is_first {
            stdin = upstream.take().unwrap();
            if chance(1, 4, "say-stdin") {
                flags.push(("-i", "--input", "-".into()));
            }
        } else if !missing && !in_place && chance(1, 3, "stdin") {
            from_stdin = true;
            stdin = File::open(&input).unwrap().into();
        } else {
            flags.push(("-i", "--input", input.clone()));
        }
        let mut stdout = Stdio::null();
        if !is_last {
            let (r, w) = pipe();
            upstream = Some(r.into());
            stdout = w.into();
            if chance(1, 4, "say-stdout") {
                flags.push(("-o", "--output", "-".into()));
            }
        } else if !in_place && chance(1, 2, "stdout") {
            to_stdout = true;
            stdout = File::create(&output).unwrap().into();
        } else {
            flags.push(("-o", "--output", output.clone()));
        }
        for k in (1..flags.len()).rev() {
            let j = draw_usize(k + 1, "flag-order");
            flags.swap(k, j);
        }
        for (a, b, v) in flags {
            flag(&mut args, a, b, &v);
        }
        procs.push(Proc::start(&format!("p{n}.{i}"), &args, stdin, stdout, env, Faults::any()));
    }
    run(&mut procs);
    judge(&stages, &procs, &bytes, &doc, Case { input, output, before, spoiled, missing, in_place, from_stdin, to_stdout });
}

struct Case {
    input: String,
    output: String,
    before: Option<Vec<u8>>,
    spoiled: bool,
    missing: bool,
    in_place: bool,
    from_stdin: bool,
    to_stdout: bool,
}

fn judge(stages: &[Stage], procs: &[Proc], bytes: &[u8], doc: &Doc, c: Case) {
    let all_ok = procs.iter().all(|p| p.status().success());
    let all_well = procs.iter().all(|p| !p.killed && !p.failed_reading && !p.failed_else);
    let shown = || String::from_utf8_lossy(bytes).into_owned();
    for (s, p) in stages.iter().zip(procs) {
        let what = format!("{} of {:?} to {:?}", if s.draw { "draw" } else { "convert" }, s.from, s.to);
        let st = p.status();
        match st.signal() {
            Some(sig) => check!(p.killed, "panic", "{what} died of signal {sig}: {}\n{}", p.said(), shown()),
            None => {
                check!(st.code() != Some(101), "panic", "{what} panicked: {}\n{}", p.said(), shown());
                check!(st.success() || !p.said().is_empty(), "silent", "{what} ended with {st} and no message");
                if p.failed_reading {
                    check!(!st.success(), "false-success", "{what} could not read its input and ended with {st}");
                }
            }
        }
    }
    let now = std::fs::read(&c.output).ok();
    if !c.in_place {
        let same = std::fs::read(&c.input).ok() == if c.missing { None } else { Some(bytes.to_vec()) };
        check!(same, "input", "the input file was changed");
    }
    // nothing came in: nothing is taken away
    let first = &procs[0];
    if stages.len() == 1 && !c.to_stdout && (c.spoiled || c.missing || first.failed_reading) {
        check!(now == c.before, "output-lost", "the input could not be read, and the output has {:?} bytes instead of the {:?} it had", now.as_ref().map(Vec::len), c.before.as_ref().map(Vec::len));
        probe("output-kept");
    }
    if c.spoiled || c.missing {
        check!(!first.status().success(), "false-success", "no document, yet {}: {}\n{}", first.status(), first.said(), shown());
        probe(if c.missing { "missing" } else { "spoiled" });
        return;
    }
    let last = stages.last().unwrap();
    if all_ok {
        if let Err(e) = same(last.to, now.as_deref().unwrap_or(b""), doc) {
            let chain: Vec<String> = stages.iter().map(|s| format!("{:?}", s.from)).collect();
            violation(
                "denotes",
                format!("{} to {:?}: success, but {e}\nof {doc:?}\n{}\nbecame\n{}", chain.join(" to "), last.to, shown(), now.map(|n| String::from_utf8_lossy(&n).into_owned()).unwrap_or_default()),
            );
        }
        probe(if last.draw { "drawn" } else { "converted" });
        if c.in_place {
            probe("in-place");
        }
        if stages.len() > 1 {
            probe("chained");
        }
        if c.from_stdin && c.to_stdout {
            probe("filter");
        }
    } else if all_well {
        // a data set need not have a drawing
        let possible = stages.iter().all(|s| can(s.to, doc) && !(s.draw && s.from == Fmt::Nq));
        let said: Vec<String> = procs.iter().map(Proc::said).collect();
        check!(!possible, "false-failure", "{:?} to {:?}: {}\n{}", stages[0].from, last.to, said.join("\n"), shown());
        probe("refused");
    } else {
        probe("failed");
    }
}

pub fn scenario() {
    let dir = scratch();
    let mut steps = Steps::new(3, 1);
    let mut n = 0;
    while steps.more() {
        one(n);
        n += 1;
    }
    std::env::set_current_dir("/").unwrap();
    let _ = std::fs::remove_dir_all(dir);
}

/// An empty directory of this worker's own, which is the current one from now on.
fn scratch() -> PathBuf {
    let base = std::env::var("SIM_SCRATCH").unwrap_or("/dev/shm".into());
    // SAFETY: no arguments, no state.
    let dir = PathBuf::from(base).join(format!("rdftk-sim.{}", unsafe { libc::getppid() }));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    std::env::set_current_dir(&dir).unwrap();
    dir
}
