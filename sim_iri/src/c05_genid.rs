//! C05: minted identifiers are well formed, in the authority of their base, and never repeated.

use crate::gen::*;
use rdftk_iri::Iri;
use simkit::*;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

/// (base, what a minted IRI starts with; None = must be refused)
const BASES: &[(&str, Option<&str>)] = &[
    ("https://example.org/", Some("https://example.org/")),
    ("https://example.org/a/b/c?q=1#frag", Some("https://example.org/")),
    ("http://example.org:8080/x#", Some("http://example.org:8080/")),
    ("https://u:p@example.org/deep/er/", Some("https://u:p@example.org/")),
    ("http://[::1]:81/a", Some("http://[::1]:81/")),
    ("http://192.168.0.1", Some("http://192.168.0.1/")),
    ("foo://host/x", Some("foo://host/")),
    ("https://example.org/.well-known/genid/0123", Some("https://example.org/")),
    ("file:///tmp/x", Some("file:///")),
    ("https://xn--bcher-kva.example/", Some("https://xn--bcher-kva.example/")),
    ("urn:isbn:0451450523", None),
    ("mailto:x@example.org", None),
];

struct Minted {
    ids: BTreeMap<String, (u64, String)>,
    serial: u64,
}

fn mint(w: &RefCell<Minted>, base: &Iri, bt: &str, start: Option<&str>) {
    op();
    let before = text(base);
    let down = fault_count("entropy-eio");
    let r = guarded(|| base.genid());
    // Another caller's failure may be counted too, which only makes this more lenient.
    let starved = fault_count("entropy-eio") > down;
    check!(text(base) == before, "base-changed", "minting changed its base {before}");
    let id = match r {
        Ok(Ok(id)) => id,
        Ok(Err(e)) => {
            slog!("genid {bt} -> error {e}");
            probe("mint-refused");
            // With the entropy source up, only a base that cannot be one is a reason.
            check!(start.is_none() || starved, "refused", "{bt} is a base, but minting failed: {e}");
            return;
        }
        Err(p) => {
            slog!("genid {bt} -> panic {p}");
            probe("mint-aborted");
            // Out of entropy, failing loudly is all it can do.
            check!(starved, "genid-panic", "minting on {bt} panicked with the entropy source up: {p}");
            return;
        }
    };
    let t = text(&id);
    probe("minted");
    let Some(start) = start else {
        violation("malformed", format!("{bt} cannot be a base, but gave {t}"));
    };
    let want = format!("{start}.well-known/genid/");
    let Some(hex) = t.strip_prefix(&want) else {
        violation("malformed", format!("minted {t} does not start with {want}"));
    };
    check!(
        hex.len() == 32 && hex.bytes().all(|b| matches!(b, b'0'..=b'9' | b'a'..=b'f')),
        "malformed",
        "minted {t}: not 32 lower-case hexadecimal digits"
    );
    check!(&hex[12..13] == "4" && "89ab".contains(&hex[16..17]), "malformed", "minted {t}: not a random (v4) identifier");
    let mut w = w.borrow_mut();
    w.serial += 1;
    let n = w.serial;
    slog!("genid {bt} -> number {n}");
    if let Some((k, b)) = w.ids.insert(hex.to_string(), (n, bt.to_string())) {
        violation("duplicate", format!("identifier {hex} of mint {n} on {bt} was already given to mint {k} on {b}"));
    }
}

/// What earlier processes minted. It is the observer's: kept where no crash reaches it.
const LEDGER: &str = "observer/ledger";

fn life(faulty: bool) {
    let known = String::from_utf8(Disk.get(LEDGER).unwrap_or_default()).unwrap();
    let ids: BTreeMap<_, _> = known.lines().map(|l| (l.to_string(), (0, "an earlier process".to_string()))).collect();
    let w = Rc::new(RefCell::new(Minted { ids, serial: 0 }));
    set_switch_den(*pick(&[1u64, 2, 4, 0], "switch-den"));
    preemptible();
    let mut tasks: Vec<Box<dyn FnOnce()>> = vec![];
    for _ in 0..range(1, 5, "callers") {
        let w = w.clone();
        tasks.push(Box::new(move || {
            let mut steps = Steps::new(10, 5);
            while steps.more() {
                if chance(1, 8, "clock") {
                    let d = draw(5, "by") as i64 - 2;
                    entropy::jump_clock(d * 1_000_000_000);
                }
                let (bt, start) = *pick(BASES, "base");
                let base = iri(bt);
                mint(&w, &base, bt, start);
                if chance(1, 96, "burst") {
                    probe("burst");
                    let n = if chance(1, 24, "big-burst") { 9_000 } else { range(1, 300, "burst-len") };
                    entropy::set_entropy_faults(false);
                    for _ in 0..n {
                        mint(&w, &base, bt, start);
                    }
                    entropy::set_entropy_faults(faulty);
                }
                if chance(1, 3, "again") {
                    mint(&w, &base, bt, start);
                }
            }
        }));
    }
    run_tasks(tasks);
    let all: Vec<String> = w.borrow().ids.keys().cloned().collect();
    Disk.put_durable(LEDGER, all.join("\n").into_bytes());
}

pub fn scenario() {
    let faulty = chance(2, 3, "entropy-faults");
    entropy::set_entropy_faults(faulty);
    // processes come and go; what was minted stays
    let lives = range(1, 3, "lives");
    if lives == 1 {
        return life(faulty);
    }
    for n in 0..lives {
        if n > 0 {
            fault("restart");
            entropy::jump_clock(-(draw(3, "jump") as i64) * 3_600_000_000_000);
        }
        process("life", 0, || life(faulty));
    }
}
