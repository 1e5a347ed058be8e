//! Simulation checks of `rdftk_core` and `rdftk_io`.

mod c06_graph;
mod c07_dataset;
mod c08_skolem;
mod c09_simplify;
mod c10_fresh;
mod c11_sinks;
mod c12_files;
mod c15_read;
mod c16_torn;
mod c18_reuse;
mod c19_resource;
mod c20_turtle;
mod c22_values;
mod c23_order;
mod c24_cli;
mod c25_text;
mod fmt;
mod gen;
mod iso;
mod rdfxml;
mod spell;
mod store;
mod ttl;

use simkit::Property;

simkit::define_os_seams!();

const REAL: &[&str] = &[
    "rdftk_core (Graph, DataSet, Statement, nodes, Collection, Literal, Resource)",
    "rdftk_io (N-Triples, N-Quads, Turtle, Dot, RDF/JSON, RDF/XML)",
    "rdftk_iri, rdftk_names",
    "pest, serde_json, xml-rs, unique_id, uuid, getrandom, std collections",
];
const STUBS: &[&str] = &[
    "callers: cooperative tasks, one baton, scheduler decides every switch",
    "byte sinks and sources: simkit::Sink, Stream; storage: simkit::Disk",
    "hash keys, entropy: the process's getrandom symbol",
    "clock: the process's clock_gettime symbol",
];
const ASSUME: &[&str] = &[
    "callers share graphs under a lock or immutably (the API takes &mut self to edit), so interleaving is between calls and inside the callers' readers, writers and iterators",
    "terms are valid: IRIs per RFC 3987, language tags in canonical form, blank node names per the library's grammar",
    "stable toolchain, default features",
];

static PROPS: &[Property] = &[
    Property {
        id: "C06",
        scenario: c06_graph::scenario,
        runs: 36_000,
        thorough: 60,
        rule: "A run is a random history of 1-4 callers editing one shared graph (and copies of it) and querying it by every accessor, some with iterators that yield or die half-way; every query is compared with a model after every edit.",
        real: REAL,
        stubs: STUBS,
        assumptions: ASSUME,
        must_reach: &["duplicate-insert", "extend-died", "removed", "removed-subject", "dedup-dropped", "snapshot", "wildcard-hit"],
    },
    Property {
        id: "C07",
        scenario: c07_dataset::scenario,
        runs: 36_000,
        thorough: 60,
        rule: "A run is a random history of 1-3 callers inserting, replacing, removing, editing and rebuilding the graphs of a shared data set and copies of it, compared with a model after every step.",
        real: REAL,
        stubs: STUBS,
        assumptions: ASSUME,
        must_reach: &["replaced", "removed", "rebuilt", "edited-in-place", "renamed-in-place", "snapshot"],
    },
    Property {
        id: "C08",
        scenario: c08_skolem::scenario,
        runs: 36_000,
        thorough: 60,
        rule: "A run interleaves 1-3 callers skolemizing shared and own graphs on several bases while entropy requests are interrupted, cut short or fail and the clock jumps.",
        real: REAL,
        stubs: STUBS,
        assumptions: ASSUME,
        must_reach: &["skolemized", "refused", "aborted"],
    },
    Property {
        id: "C09",
        scenario: c09_simplify::scenario,
        runs: 36_000,
        thorough: 60,
        rule: "A run interleaves 1-3 callers simplifying shared and own graphs and reifying single statements and collections, with blank nodes minted in every order while entropy requests are interrupted, cut short or fail.",
        real: REAL,
        stubs: STUBS,
        assumptions: ASSUME,
        must_reach: &["nested", "reified", "aborted"],
    },
    Property {
        id: "C10",
        scenario: c10_fresh::scenario,
        runs: 18_000,
        thorough: 60,
        rule: "A run is 1-3 process lifetimes over one disk; in each, 1-3 callers mint blank nodes in every way the library has while entropy fails and clocks jump, and the stored graph is loaded, extended with nested statements and saved; processes crash anywhere.",
        real: REAL,
        stubs: STUBS,
        assumptions: ASSUME,
        must_reach: &["restarted", "reloaded", "stored", "aborted"],
    },
    Property {
        id: "C11",
        scenario: c11_sinks::scenario,
        runs: 30_000,
        thorough: 60,
        rule: "A run interleaves 1-3 callers writing shared graphs and data sets, in every format and style, to devices that are short, interrupted, slow, full or fail at any byte, while others edit copies of the graphs.",
        real: REAL,
        stubs: STUBS,
        assumptions: ASSUME,
        must_reach: &["complete", "write-failed", "retried", "refused", "quads", "copy-edited"],
    },
    Property {
        id: "C12",
        scenario: c12_files::lines,
        runs: 24_000,
        thorough: 60,
        rule: "A run is 1-3 process lifetimes over one disk; in each, 1-3 callers save graphs as N-Triples and data sets as N-Quads over short, interrupted and failing devices, and load what is stored; processes crash anywhere and power fails.",
        real: REAL,
        stubs: STUBS,
        assumptions: ASSUME,
        must_reach: &["saved", "loaded", "restarted", "save-failed", "quads"],
    },
    Property {
        id: "C13",
        scenario: c12_files::json,
        runs: 24_000,
        thorough: 60,
        rule: "A run is 1-3 process lifetimes over one disk; in each, 1-3 callers save graphs as RDF/JSON, compact and pretty, over short, interrupted and failing devices, and load what is stored; processes crash anywhere and power fails.",
        real: REAL,
        stubs: STUBS,
        assumptions: ASSUME,
        must_reach: &["saved", "loaded", "restarted", "save-failed"],
    },
    Property {
        id: "C14",
        scenario: c12_files::xml,
        runs: 18_000,
        thorough: 60,
        rule: "A run is 1-3 process lifetimes over one disk; in each, 1-3 callers save graphs as RDF/XML, flat and striped, plain and pretty, over short, interrupted and failing devices, and load what is stored; processes crash anywhere and power fails.",
        real: REAL,
        stubs: STUBS,
        assumptions: ASSUME,
        must_reach: &["saved", "loaded", "restarted", "save-failed"],
    },
    Property {
        id: "C15",
        scenario: c15_read::scenario,
        runs: 50_000,
        thorough: 60,
        rule: "A run interleaves 1-3 callers reading documents of random graphs in random spellings of N-Triples, N-Quads, RDF/JSON and RDF/XML from devices that are short, interrupted, slow or fail at any byte.",
        real: REAL,
        stubs: STUBS,
        assumptions: ASSUME,
        must_reach: &["read-nt", "read-nq", "read-json", "read-xml", "xml-node-as-root", "xml-relative", "read-failed"],
    },
    Property {
        id: "C16",
        scenario: c16_torn::cut,
        runs: 30_000,
        thorough: 60,
        rule: "A run interleaves 1-3 callers reading documents that a crash cut short, tore or left with a zeroed tail, at random positions of random documents in every readable format.",
        real: REAL,
        stubs: STUBS,
        assumptions: ASSUME,
        must_reach: &["read-part", "read-whole", "refused"],
    },
    Property {
        id: "C17",
        scenario: c16_torn::damaged,
        runs: 36_000,
        thorough: 60,
        rule: "A run interleaves 1-3 callers reading documents in which the media flipped, lost, doubled, zeroed or overwrote bytes; what is accepted is checked, stored and read again.",
        real: REAL,
        stubs: STUBS,
        assumptions: ASSUME,
        must_reach: &["accepted", "refused", "compared"],
    },
    Property {
        id: "C18",
        scenario: c18_reuse::scenario,
        runs: 24_000,
        thorough: 60,
        rule: "A run uses a few writers and readers again and again, from 1-3 callers, over graphs that share names, prefixes and blank nodes, with failing devices and refused graphs in between; every document is compared with what its own graph says.",
        real: REAL,
        stubs: STUBS,
        assumptions: ASSUME,
        must_reach: &["after-failure", "after-other", "read-again"],
    },
    Property {
        id: "C19",
        scenario: c19_resource::scenario,
        runs: 30_000,
        thorough: 60,
        rule: "A run interleaves 1-3 callers building own and shared resources by every builder method, copying, extending and converting them, while entropy requests are interrupted, cut short or fail and the clock jumps; each conversion, and all together, are compared with what the builders were told.",
        real: REAL,
        stubs: STUBS,
        assumptions: ASSUME,
        must_reach: &["converted", "container", "container-of-resources", "nested", "predicate", "aborted"],
    },
    Property {
        id: "C20",
        scenario: c20_turtle::says,
        runs: 30_000,
        thorough: 60,
        rule: "A run interleaves 1-3 callers writing graphs, rich in trees, chains, rings and knots of blank nodes, with 1-2 shared Turtle writers of random style to devices that are short, interrupted, slow, full or fail at any byte; every document is parsed by the harness and compared with its graph.",
        real: REAL,
        stubs: STUBS,
        assumptions: ASSUME,
        must_reach: &["written", "blanks", "nested", "failed"],
    },
    Property {
        id: "C21",
        scenario: c20_turtle::stable,
        runs: 18_000,
        thorough: 60,
        rule: "A run is 1-3 process lifetimes, with hash keys of their own, in which 1-3 callers come by the same graphs in different orders and ways and write them with new and used Turtle writers of one style to imperfect devices; every complete text is compared with the first.",
        real: REAL,
        stubs: STUBS,
        assumptions: ASSUME,
        must_reach: &["same-text", "restarted", "failed"],
    },
    Property {
        id: "C22",
        scenario: c22_values::scenario,
        runs: 30_000,
        thorough: 60,
        rule: "A run is 1-3 process lifetimes over one disk in which 1-3 callers make literals of native values of every type, save them in every readable format over short, interrupted and failing devices and load what is stored; processes crash anywhere and power fails. Each literal, new or loaded, is compared with the native value it was made of and with values near it, by the harness's reading of XML Schema and by the library's comparisons and conversions.",
        real: REAL,
        stubs: STUBS,
        assumptions: ASSUME,
        must_reach: &["saved", "loaded", "restarted", "save-failed", "bytes-back", "refused", "mistyped"],
    },
    Property {
        id: "C23",
        scenario: c23_order::scenario,
        runs: 30_000,
        thorough: 60,
        rule: "A run is 1-3 process lifetimes, with hash keys of their own, in which 1-3 callers keep sorted and hashed indexes of statements, terms and graph names through random histories of insertions and removals; each index is compared with a model after every step, and the order of each sorted one with that of every other caller and process.",
        real: REAL,
        stubs: STUBS,
        assumptions: ASSUME,
        must_reach: &["inserted", "known", "removed", "restarted", "same-order"],
    },
    Property {
        id: "C24",
        scenario: c24_cli::scenario,
        runs: 48_000,
        thorough: 60,
        rule: "A run is 1-3 pipelines of the command line program, each of 1-4 real processes whose system calls on files, streams, clock and entropy the simulator grants one at a time, cuts short, interrupts, fails or makes the last; exit status, messages, input and output files are checked against the document put in.",
        real: &["rdftk_cli (the program itself, in processes of its own)", "rdftk_core, rdftk_io, rdftk_iri, clap, clio, tracing", "the kernel's files and pipes"],
        stubs: &["the shell: starts the processes and connects them", "scheduling of the processes, failures of system calls, clock, entropy: LD_PRELOAD seam granted by the simulator"],
        assumptions: &["input formats that have a reader; output formats that have a writer", "stable toolchain, default features"],
        must_reach: &["converted", "drawn", "chained", "filter", "in-place", "failed", "spoiled", "missing", "output-kept", "kill", "write-error", "read-error", "short-transfer"],
    },
    Property {
        id: "C25",
        scenario: c25_text::scenario,
        runs: 60_000,
        thorough: 60,
        rule: "A run interleaves 1-3 callers printing shared and own statements, terms, lists, literals, data types and names, in both forms, to sinks that fail at any character, and reading what was printed.",
        real: REAL,
        stubs: STUBS,
        assumptions: ASSUME,
        must_reach: &["render-failed", "read", "line", "short", "name"],
    },
];

fn prewarm() {
    let _ = rdftk_core::model::statement::BlankNode::generate();
    let _ = std::collections::HashMap::<u8, u8>::new();
}

fn main() {
    simkit::main_with("sim_rdf", PROPS, prewarm)
}
