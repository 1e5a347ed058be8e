PROPS = [
dict(id="C01", title="A prefix map is always one-to-one and equals the history of its bindings",
 statement="After any sequence of binds, rebinds, removals, clears, default-namespace changes and restores from a saved copy, issued by any number of callers in any order, each prefix of a prefix map stands for exactly one namespace and each namespace has exactly one prefix, and both lookups, the enumerations, the size and equality all report exactly the most recent bindings: a newer binding evicts any older binding of the same prefix and of the same namespace. Copying, rendering or saving a map never changes it, and a copy and its original never affect each other afterwards.",
 over=["histories","schedules","crash_points","fault_sequences"],
 qtext="every interleaved history of map operations by any number of callers, with renderings and saves that fail at any byte and crash-restarts at any point",
 why="The tests insert a handful of mappings into a fresh map once and look them up; none rebinds a prefix or a namespace that is in use, interleaves callers, copies then mutates, or restarts from a save.",
 files=["rdftk_iri/src/map.rs","rdftk_iri/src/pname.rs","rdftk_iri/src/iri.rs"],
 mech=[("two-way tree map of Namespace and Iri","rdftk_iri/src/map.rs: IriPrefixMap.map"),("insert/remove/set_default_namespace delegate to the two-way map","rdftk_iri/src/map.rs")],
 observe=["IriPrefixMap::{get_namespace,get_prefix,get_default_namespace,mappings,prefixes,iris,len,is_empty}","PartialEq","Clone"]),
dict(id="C02", title="Compressing and expanding names are inverse under the current bindings",
 statement="At any moment of any history of a prefix map, if an IRI compresses to a prefixed name then that name's prefix is bound at that moment and expanding the name gives exactly the same IRI; a name in a bound namespace that ends in '#' or '/' always compresses and expands, and anything else falls back to the full IRI unchanged. An expansion always uses the bindings of the moment it is asked for, never those of an earlier moment, and no IRI that parses makes any of these operations panic.",
 over=["histories","schedules","inputs","fault_sequences"],
 qtext="every IRI and name, at every point of every interleaved history of rebinding by other callers, including restarts from a saved map",
 why="The tests compress and expand five fixed names in one fixed map; they never rebind between compress and expand and never try IRIs without a host or a path, or with empty fragments.",
 files=["rdftk_iri/src/map.rs","rdftk_iri/src/iri.rs"],
 mech=[("splitting an IRI into namespace and name","rdftk_iri/src/iri.rs: Iri::split"),("joining namespace and name","rdftk_iri/src/iri.rs: Iri::make_name"),("lookup by namespace / by prefix","rdftk_iri/src/map.rs: compress, expand, compress_to_iriref")],
 observe=["IriPrefixMap::{compress,compress_to_iriref,expand}","Iri::{split,make_name}"]),
dict(id="C03", title="Acknowledged saves restore exactly; damaged saves never yield invalid values",
 statement="A prefix map, IRI, name, prefixed name or reference whose serialisation (serde, or text through its display and parse forms) was completely written is restored equal from it after any crash or restart and through any short or interrupted reads. If the stored bytes were torn, truncated or corrupted, restoring either fails with an error or gives values that satisfy the same validity rules as values built through the checking constructors; it never panics and never gives a value on which a later operation panics.",
 over=["crash_points","fault_sequences","inputs","histories"],
 qtext="every value and map, every crash point of a save, every pattern of short, interrupted or failing I/O and every stored-byte corruption",
 why="The tests round-trip a few clean values through an in-memory string; none cuts, damages or crashes the storage in between.",
 files=["rdftk_iri/src/map.rs","rdftk_iri/src/pname.rs","rdftk_iri/src/iri.rs"],
 mech=[("serde derives; names are validated when deserialised","rdftk_iri/src/pname.rs: Namespace, Name"),("Display and FromStr of every value type","rdftk_iri/src/pname.rs, iri.rs")],
 observe=["serde_json of the values","to_string / from_str"]),
dict(id="C04", title="Rendering to a failing sink reports the failure and delivers only a prefix",
 statement="When a sink (character or byte) fails at any point while an IRI, name, prefixed name, reference or prefix map is rendered or serialised to it, the operation reports the failure and never success, and what the sink received is a prefix of the complete text. If the sink accepts everything the operation succeeds with exactly the complete text, and repeating it after a failure, or while other callers edit the original of a copy, gives the same complete text again.",
 over=["fault_sequences","schedules","inputs"],
 qtext="every value, every byte position and kind of sink failure, every pattern of short and interrupted writes, every interleaving with callers editing the original map",
 why="The tests only render to strings, which never fail.",
 files=["rdftk_iri/src/map.rs","rdftk_iri/src/pname.rs","rdftk_iri/src/iri.rs"],
 mech=[("Display implementations propagate the formatter's errors","rdftk_iri/src/map.rs, pname.rs, iri.rs")],
 observe=["write!(sink, value)","serde_json::to_writer"]),
dict(id="C05", title="Minted identifiers are well formed, in their base's authority and never repeat",
 statement="Every IRI minted from a base has the scheme and authority of that base, the path /.well-known/genid/ followed by 32 lower-case hexadecimal digits of a random (version 4) identifier, and no query or fragment; minting never changes the base, and bases that cannot carry a path are refused with an error. No identifier is ever minted twice by any callers, across restarts and clock changes, and when the entropy source is interrupted or short the result is still complete, while if it is down minting fails loudly instead of returning an identifier.",
 over=["schedules","fault_sequences","crash_points"],
 qtext="every interleaving of callers, every pattern of interrupted, short and failing entropy requests, clock jumps and restarts",
 why="The only test mints one identifier and looks at its length.",
 files=["rdftk_iri/src/iri.rs"],
 mech=[("random UUID joined to the base","rdftk_iri/src/iri.rs: Iri::genid")],
 observe=["Iri::genid"]),
]
