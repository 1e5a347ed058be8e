//! Simulated devices: byte sinks and sources, character sinks, and a disk with a volatile cache.

use crate::run::*;
use std::cell::RefCell;
use std::io::{Error, ErrorKind, Read, Result, Write};
use std::rc::Rc;

/// Error kinds a device can report; never `Interrupted`, which `write_all`/`read_to_end` retry.
pub const KINDS: [ErrorKind; 7] = [
    ErrorKind::Other,
    ErrorKind::StorageFull,
    ErrorKind::BrokenPipe,
    ErrorKind::ConnectionReset,
    ErrorKind::TimedOut,
    ErrorKind::WouldBlock,
    ErrorKind::PermissionDenied,
];

fn kind_name(k: ErrorKind) -> &'static str {
    match k {
        ErrorKind::StorageFull => "enospc",
        ErrorKind::BrokenPipe => "epipe",
        ErrorKind::ConnectionReset => "econnreset",
        ErrorKind::TimedOut => "etimedout",
        ErrorKind::WouldBlock => "eagain",
        ErrorKind::PermissionDenied => "eperm",
        _ => "eio",
    }
}

/// What a device does to its user. All-zero = a perfect device.
#[derive(Clone, Debug, Default)]
pub struct Plan {
    /// One in `short_den` transfers is cut short (0 = never).
    pub short_den: u64,
    /// One in `eintr_den` calls is interrupted (0 = never).
    pub eintr_den: u64,
    /// One in `stall_den` calls takes seconds of simulated time.
    pub stall_den: u64,
    /// Fail once this many bytes went through.
    pub fail_at: Option<usize>,
    pub fail_kind: usize,
    /// The failure goes away after the first report.
    pub transient: bool,
    /// A full disk: `write` returns `Ok(0)` from `fail_at` on instead of an error.
    pub zero_write: bool,
    /// `flush` reports an error.
    pub flush_fails: bool,
}

impl Plan {
    pub fn perfect() -> Self {
        Self::default()
    }

    /// Short transfers, interruptions and stalls only: nothing a correct caller may notice.
    pub fn benign() -> Self {
        let short = *pick(&[0u64, 6, 2, 1], "short");
        let eintr = *pick(&[0u64, 8, 3], "eintr");
        let stall = *pick(&[0u64, 16], "stall");
        Plan { short_den: short, eintr_den: eintr, stall_den: stall, ..Default::default() }
    }

    /// Benign faults plus one hard failure somewhere in the first `len` bytes.
    pub fn failing(len: usize) -> Self {
        let mut p = if chance(1, 2, "mixed") { Self::benign() } else { Self::perfect() };
        p.fail_at = Some(draw_usize(len.max(1), "fail-at"));
        p.fail_kind = draw_usize(KINDS.len(), "fail-kind");
        p.transient = chance(1, 3, "transient");
        p.zero_write = chance(1, 6, "zero-write");
        p
    }

    pub fn can_fail(&self) -> bool {
        self.fail_at.is_some() || self.flush_fails
    }
}

#[derive(Default, Debug)]
pub struct DeviceState {
    /// Bytes the device accepted.
    pub data: Vec<u8>,
    pub calls: u64,
    pub flushes: u64,
    /// A hard failure was reported to the user.
    pub failed: bool,
    pub hurt: u64,
}

/// A byte sink. Clones share the state, so a test can look after handing one away.
#[derive(Clone)]
pub struct Sink {
    pub plan: Plan,
    pub state: Rc<RefCell<DeviceState>>,
    pub name: &'static str,
}

impl Sink {
    pub fn new(name: &'static str, plan: Plan) -> Self {
        Sink { plan, state: Default::default(), name }
    }
    pub fn bytes(&self) -> Vec<u8> {
        self.state.borrow().data.clone()
    }
    pub fn failed(&self) -> bool {
        self.state.borrow().failed
    }
}

fn pre(name: &'static str, plan: &Plan, st: &RefCell<DeviceState>) -> Result<()> {
    yield_now(name);
    st.borrow_mut().calls += 1;
    if plan.stall_den > 0 && chance(1, plan.stall_den, "stall") {
        fault("stall");
        advance(2_000_000_000);
    }
    if plan.eintr_den > 0 && chance(1, plan.eintr_den + 1, "eintr") {
        fault("eintr");
        st.borrow_mut().hurt += 1;
        moved();
        return Err(Error::from(ErrorKind::Interrupted));
    }
    Ok(())
}

impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        pre(self.name, &self.plan, &self.state)?;
        if buf.is_empty() {
            return Ok(0);
        }
        let mut n = buf.len();
        if self.plan.short_den > 0 && n > 1 && chance(1, self.plan.short_den, "short") {
            n = 1 + draw_usize(n - 1, "short-len");
            fault("short-write");
            self.state.borrow_mut().hurt += 1;
        }
        let mut st = self.state.borrow_mut();
        if let Some(at) = self.plan.fail_at {
            if st.data.len() >= at && !(self.plan.transient && st.failed) {
                st.failed = true;
                st.hurt += 1;
                if self.plan.zero_write {
                    fault("write-zero");
                    return Ok(0);
                }
                let k = KINDS[self.plan.fail_kind];
                fault(&format!("write-{}", kind_name(k)));
                return Err(Error::new(k, "simulated device failure"));
            }
            if st.data.len() < at {
                if st.data.len() + n > at && n > 1 {
                    fault("torn-write");
                }
                n = n.min(at - st.data.len());
            }
        }
        st.data.extend_from_slice(&buf[..n]);
        moved();
        Ok(n)
    }

    fn flush(&mut self) -> Result<()> {
        pre("flush", &Plan { eintr_den: 0, ..self.plan.clone() }, &self.state)?;
        let mut st = self.state.borrow_mut();
        st.flushes += 1;
        if self.plan.flush_fails {
            st.failed = true;
            fault("flush-eio");
            return Err(Error::new(ErrorKind::Other, "simulated flush failure"));
        }
        Ok(())
    }
}

/// A byte source over fixed content.
#[derive(Clone)]
pub struct Stream {
    pub plan: Plan,
    pub content: Rc<Vec<u8>>,
    pub pos: usize,
    pub eofs: u64,
    pub state: Rc<RefCell<DeviceState>>,
    pub name: &'static str,
}

impl Stream {
    pub fn new(name: &'static str, content: Vec<u8>, plan: Plan) -> Self {
        Stream {
            plan,
            content: Rc::new(content),
            pos: 0,
            eofs: 0,
            state: Default::default(),
            name,
        }
    }
    pub fn failed(&self) -> bool {
        self.state.borrow().failed
    }
}

impl Read for Stream {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        pre(self.name, &self.plan, &self.state)?;
        if buf.is_empty() {
            return Ok(0);
        }
        let mut st = self.state.borrow_mut();
        if let Some(at) = self.plan.fail_at {
            if self.pos >= at && !(self.plan.transient && st.failed) {
                st.failed = true;
                st.hurt += 1;
                let k = KINDS[self.plan.fail_kind];
                fault(&format!("read-{}", kind_name(k)));
                return Err(Error::new(k, "simulated device failure"));
            }
        }
        let mut n = buf.len().min(self.content.len() - self.pos);
        if n == 0 {
            self.eofs += 1;
            if self.eofs > 5_000 {
                drop(st);
                violation("no-progress", "reads past the end of the input without end".into());
            }
            return Ok(0);
        }
        if self.plan.short_den > 0 && n > 1 && chance(1, self.plan.short_den, "short") {
            n = 1 + draw_usize((n - 1).min(64), "short-len");
            fault("short-read");
            st.hurt += 1;
        }
        if let Some(at) = self.plan.fail_at {
            if self.pos < at {
                n = n.min(at - self.pos);
            }
        }
        buf[..n].copy_from_slice(&self.content[self.pos..self.pos + n]);
        self.pos += n;
        st.data.extend_from_slice(&buf[..n]);
        moved();
        Ok(n)
    }
}

/// A character sink (`fmt::Write`) that fails once `fail_at` bytes went through.
pub struct CharSink {
    pub text: String,
    pub fail_at: Option<usize>,
    pub transient: bool,
    pub failed: bool,
    pub calls: u64,
}

impl CharSink {
    pub fn new(fail_at: Option<usize>, transient: bool) -> Self {
        CharSink { text: String::new(), fail_at, transient, failed: false, calls: 0 }
    }
}

impl std::fmt::Write for CharSink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        yield_now("fmt");
        self.calls += 1;
        if let Some(at) = self.fail_at {
            if self.text.len() + s.len() > at && !(self.transient && self.failed) {
                self.failed = true;
                fault("fmt-error");
                return Err(std::fmt::Error);
            }
        }
        self.text.push_str(s);
        moved();
        Ok(())
    }
}

// ------------------------------------------------------------------------------------------------
// Disk
// ------------------------------------------------------------------------------------------------

#[derive(Clone, Default, Debug)]
pub(crate) struct FileState {
    pub(crate) durable: Option<Vec<u8>>,
    /// What readers see; differs from `durable` until synced.
    pub(crate) cached: Option<Vec<u8>>,
}

/// The run's disk: files with a write-back cache. What was synced is sure to survive a power
/// failure; of the rest an arbitrary prefix may. The death of a process alone loses nothing.
#[derive(Clone, Copy, Default)]
pub struct Disk;

impl Disk {
    pub fn new() -> Self {
        Disk
    }

    /// Replaces the cached content (what a program that streams into the file leaves behind).
    pub fn put(&self, name: &str, bytes: Vec<u8>) {
        with(|s| s.files.entry(name.into()).or_default().cached = Some(bytes));
    }

    /// Content that is on the medium at once: another program's, or the observer's notes.
    pub fn put_durable(&self, name: &str, bytes: Vec<u8>) {
        with(|s| {
            s.files.insert(name.into(), FileState { durable: Some(bytes.clone()), cached: Some(bytes) });
        });
    }

    pub fn append(&self, name: &str, bytes: &[u8]) {
        with(|s| {
            let f = s.files.entry(name.into()).or_default();
            f.cached.get_or_insert_default().extend_from_slice(bytes);
        });
    }

    pub fn sync(&self, name: &str) {
        yield_now("fsync");
        advance(1_000_000);
        with(|s| {
            if let Some(f) = s.files.get_mut(name) {
                f.durable = f.cached.clone();
            }
        });
    }

    pub fn get(&self, name: &str) -> Option<Vec<u8>> {
        with(|s| s.files.get(name).and_then(|f| f.cached.clone()))
    }

    /// A rename is durable at once (a journalling file system with ordered metadata).
    pub fn rename(&self, from: &str, to: &str) {
        yield_now("rename");
        with(|s| {
            if let Some(f) = s.files.remove(from) {
                s.files.insert(to.into(), f);
            }
        });
    }

    /// Power loss: un-synced content is lost, kept, or torn.
    pub fn power_loss(&self) {
        fault("power-loss");
        let names: Vec<String> = with(|s| s.files.keys().cloned().collect());
        for n in names {
            let Some((durable, cached)) = with(|s| {
                let f = &s.files[&n];
                (f.cached != f.durable).then(|| (f.durable.clone(), f.cached.clone()))
            }) else {
                continue;
            };
            let c = cached.clone().unwrap_or_default();
            let left = match draw(4, "crash-mode") {
                0 => durable,
                1 => cached,
                2 => {
                    let k = draw_usize(c.len() + 1, "torn-at");
                    fault("torn-file");
                    Some(c[..k].to_vec())
                }
                _ => {
                    // the length reached the disk, the tail of the data did not
                    let k = draw_usize(c.len() + 1, "torn-at");
                    fault("zeroed-tail");
                    let mut v = c[..k].to_vec();
                    v.resize(c.len(), 0);
                    Some(v)
                }
            };
            with(|s| {
                let f = s.files.get_mut(&n).unwrap();
                f.cached = left.clone();
                f.durable = left;
            });
        }
    }
}

/// A file being written: what was accepted is in the file system's cache even if the process dies.
pub struct FileSink {
    pub name: String,
    pub sink: Sink,
}

impl FileSink {
    /// Creates or truncates the file.
    pub fn create(name: &str, plan: Plan) -> Self {
        yield_now("create");
        Disk.put(name, vec![]);
        FileSink { name: name.into(), sink: Sink::new("file", plan) }
    }
    pub fn failed(&self) -> bool {
        self.sink.failed()
    }
}

impl Write for FileSink {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        let n = self.sink.write(buf)?;
        Disk.append(&self.name, &buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> Result<()> {
        self.sink.flush()
    }
}

/// Flips bits, drops, duplicates or overwrites stored bytes.
pub fn corrupt(bytes: &mut Vec<u8>, max_hits: u64) {
    let hits = range(1, max_hits, "hits");
    for _ in 0..hits {
        if bytes.is_empty() {
            return;
        }
        let i = draw_usize(bytes.len(), "at");
        match draw(6, "corruption") {
            0 => {
                bytes[i] ^= 1 << draw(8, "bit");
                fault("bit-flip");
            }
            1 => {
                bytes[i] = draw(256, "byte") as u8;
                fault("byte-overwrite");
            }
            2 => {
                let n = range(1, 8, "len") as usize;
                let e = (i + n).min(bytes.len());
                bytes.drain(i..e);
                fault("bytes-lost");
            }
            3 => {
                let n = range(1, 16, "len") as usize;
                let e = (i + n).min(bytes.len());
                let part = bytes[i..e].to_vec();
                let at = draw_usize(bytes.len() + 1, "dup-at");
                for (k, b) in part.into_iter().enumerate() {
                    bytes.insert(at + k, b);
                }
                fault("bytes-duplicated");
            }
            4 => {
                // a structural character lands where it does not belong
                bytes[i] = *pick(b"\"'\\<>{}[]:,._/=&;#@^ \n\t0-", "char");
                fault("byte-overwrite");
            }
            _ => {
                let n = range(1, 8, "len") as usize;
                let e = (i + n).min(bytes.len());
                for b in &mut bytes[i..e] {
                    *b = 0;
                }
                fault("bytes-zeroed");
            }
        }
    }
}
