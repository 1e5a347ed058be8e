//! Simulation checks of `rdftk_iri`.

mod c01_map;
mod c02_compress;
mod c03_storage;
mod c04_render;
mod c05_genid;
mod gen;
mod world;

use simkit::Property;

simkit::define_os_seams!();

const REAL: &[&str] = &[
    "rdftk_iri (Iri, IriRef, Namespace, Name, LocalName, PrefixedName, IriPrefixMap, vocab)",
    "bimap, url, serde derives, uuid, getrandom, std collections",
];
const STUBS: &[&str] = &[
    "callers: cooperative tasks, one baton, scheduler decides every switch",
    "storage: simkit::Disk with write-back cache, crash and torn writes",
    "byte and character sinks/sources: simkit::Sink, Stream, CharSink",
    "entropy and hash keys: the process's getrandom symbol",
    "clock: the process's clock_gettime symbol",
];
const ASSUME: &[&str] = &[
    "callers share a map under a lock (the API takes &mut self), so interleaving is between calls and inside rendering/serialisation callbacks",
    "stable toolchain, default features (std, genid, serde)",
];

static PROPS: &[Property] = &[
    Property {
        id: "C01",
        scenario: c01_map::scenario,
        runs: 120_000,
        thorough: 60,
        rule: "A run is a random history of 1-4 callers binding, rebinding, removing, copying, saving, crash-restarting and rendering one shared prefix map, compared after every operation with a two-way model.",
        real: REAL,
        stubs: STUBS,
        assumptions: ASSUME,
        must_reach: &["evict-by-prefix", "evict-by-iri", "snapshot-diverged", "restart", "fmt-error"],
    },
    Property {
        id: "C02",
        scenario: c02_compress::scenario,
        runs: 120_000,
        thorough: 60,
        rule: "A run is a random history of 1-4 callers compressing and expanding names over a map other callers rebind in between.",
        real: REAL,
        stubs: STUBS,
        assumptions: ASSUME,
        must_reach: &["compressed", "not-compressed", "stale-prefix", "cannot-be-base", "rebound-between", "restart"],
    },
    Property {
        id: "C03",
        scenario: c03_storage::scenario,
        runs: 120_000,
        thorough: 60,
        rule: "A run is a random history of saves, loads, crashes and media corruption of maps, names and IRIs on a simulated disk, over short, interrupted, failing and full devices.",
        real: REAL,
        stubs: STUBS,
        assumptions: ASSUME,
        must_reach: &["acked", "restored", "rejected", "restored-corrupt", "save-failed", "crash", "torn-file"],
    },
    Property {
        id: "C04",
        scenario: c04_render::scenario,
        runs: 120_000,
        thorough: 60,
        rule: "A run renders or serialises random values and maps, from 1-3 interleaved callers, to sinks that fail at an arbitrary byte, and retries.",
        real: REAL,
        stubs: STUBS,
        assumptions: ASSUME,
        must_reach: &["fmt-error", "render-failed", "retried", "serialise-failed"],
    },
    Property {
        id: "C05",
        scenario: c05_genid::scenario,
        runs: 60_000,
        thorough: 60,
        rule: "A run interleaves 1-5 callers minting identifiers under entropy interruptions, short reads and failures, clock jumps and restarts.",
        real: REAL,
        stubs: STUBS,
        assumptions: ASSUME,
        must_reach: &["minted", "entropy-eintr", "entropy-short", "entropy-eio", "mint-refused", "clock-jump", "burst"],
    },
];

fn prewarm() {
    let _ = rdftk_iri::IriPrefixMap::common().to_string();
    let _ = serde_json::to_string(&rdftk_iri::IriPrefixMap::common());
    let _ = std::collections::HashMap::<u8, u8>::new();
    let _ = <rdftk_iri::Iri as std::str::FromStr>::from_str("http://example.org/").unwrap().genid();
}

fn main() {
    simkit::main_with("sim_iri", PROPS, prewarm)
}
