CORE = "rdftk_core/src/model/"
IO = "rdftk_io/src/"
PROPS = [
dict(id="C06", title="A graph is exactly what its history of edits left, however it is queried",
 statement="After any history of inserts, extensions, removals (of one statement, of all statements of a subject), clears, deduplications, renames and prefix-map changes by any number of callers, including bulk inserts whose source of statements dies half-way, a graph holds exactly the statements that history left in it: a graph that refuses duplicates holds each once, any other as often as it was inserted, and removing a statement removes every copy of it. Every query (membership, size, subjects, predicates and objects, blank and other subjects, matching on any combination of subject, predicate and object with any of them left open) answers exactly from those statements, and the feature flags a graph reports describe how it behaves. Copies are independent of their original, and no query changes a graph.",
 over=["histories","schedules","fault_sequences"],
 qtext="every interleaved history of edits and queries by any number of callers, with statement sources that yield or die at any point",
 why="The tests build one small graph and query it once or twice; none removes by subject, leaves a position open in a match, deduplicates, interrupts a bulk insert, copies and then edits, or interleaves callers.",
 files=[CORE+"graph.rs", CORE+"statement.rs"],
 mech=[("statement list with an optional uniqueness check",CORE+"graph.rs: Graph.insert, extend, dedup"),("matching and removal",CORE+"graph.rs: Graph.matches, remove_all_for")],
 observe=["Graph::{contains,len,is_empty,statements,matches,subjects,predicates,objects,predicates_for,objects_for,filter,blank_nodes,has_feature,...}"]),
dict(id="C07", title="A data set is the map from names to graphs that its history made",
 statement="After any history by any number of callers of inserting graphs (named and unnamed), replacing a graph of the same name, removing, clearing, editing graphs in place and rebuilding from iterators, a data set holds for each name (and for no name) at most one graph: the one most recently stored under it, with the edits made to it there and nothing else. Every lookup and enumeration agrees with that, a graph found under a name carries that name, and copies of the data set or of its graphs are independent of it.",
 over=["histories","schedules"],
 qtext="every interleaved history of data-set edits by any number of callers",
 why="The tests insert a few graphs once; none replaces, removes, edits in place or interleaves callers.",
 files=[CORE+"data_set.rs", CORE+"graph.rs"],
 mech=[("map keyed by optional graph name",CORE+"data_set.rs")],
 observe=["DataSet::{graph,graph_mut,insert,remove,contains_graph,graphs,len,...}"]),
dict(id="C08", title="Skolemizing replaces each blank node, everywhere, by one fresh IRI of its own",
 statement="Skolemizing a graph on a base gives a graph without blank nodes, at any depth of nested statements and collections, in which every occurrence of one blank node became the same IRI, different blank nodes became different IRIs, and everything else (the other terms, the name, the prefix map, the statement count) is as it was; each IRI is under the well-known genid path of the base, was never issued before to any caller, and appears nowhere in the original. The original graph is not changed, a base that cannot carry a path is refused with an error, and when the entropy source is interrupted or short the result is still complete, while if it is down the operation fails loudly and gives no graph.",
 over=["schedules","fault_sequences","inputs"],
 qtext="every graph, every interleaving of callers, every pattern of interrupted, short and failing entropy requests",
 why="The only test skolemizes one flat graph and prints it; nothing checks consistency, nesting or failures.",
 files=[CORE+"graph.rs", CORE+"statement.rs", "rdftk_iri/src/iri.rs"],
 mech=[("one mapping from blank node to genid IRI for the whole graph",CORE+"graph.rs: Graph.skolemize")],
 observe=["Graph::skolemize"]),
dict(id="C09", title="Simplifying gives plain triples that say exactly what the graph said",
 statement="Simplifying a graph, reifying a statement or flattening a collection gives only plain triples in which every nested statement is described by exactly one node with its type, subject, predicate and object, to any depth, and every collection is a well-formed list of its members in order ending in the empty list; the same nested statement or collection within one graph is described consistently, and every plain statement of the graph is still there. The nodes introduced occur nowhere else, in this graph or in any other that callers simplify at the same time, and the name and prefix map are kept and the original graph is unchanged, also when the entropy source fails, which stops the operation loudly.",
 over=["inputs","schedules","histories","fault_sequences"],
 qtext="every graph with statements and collections nested to any depth, every interleaving of callers that mint blank nodes, and every pattern of entropy failures",
 why="The tests reify one statement and compare counts; no test nests deeper than one level, mixes collections with statements or runs callers together.",
 files=[CORE+"graph.rs", CORE+"statement.rs", CORE+"statement/collection.rs"],
 mech=[("reification and list unfolding",CORE+"statement.rs: Statement.reify; "+CORE+"statement/collection.rs"),("repeated until nothing is nested",CORE+"graph.rs: Graph.simplify")],
 observe=["Graph::simplify","Statement::reify","Collection::reify"]),
dict(id="C10", title="A generated blank node is none that any graph, now or earlier, already has",
 statement="Every blank node the library generates, in whichever way (directly, through a builder, by simplifying, reifying or flattening, or while reading a document), differs from every other one generated by any caller in this or any earlier process, so that a graph stored by one process and extended by a later one never has two things merged. It can be stored and read back under its own name, and when the entropy source is interrupted, short or down, generation still succeeds or fails loudly and never repeats a node.",
 over=["schedules","crash_points","fault_sequences","histories"],
 qtext="every interleaving of callers, every sequence of process restarts and crashes, every pattern of entropy failures and clock jumps",
 why="Tests live in one process and look at one blank node at a time.",
 files=[CORE+"statement/bnode.rs", CORE+"resource.rs", CORE+"statement.rs"],
 mech=[("random identifiers",CORE+"statement/bnode.rs: BlankNode::generate")],
 observe=["BlankNode::generate","Graph::simplify","Resource builders","readers"]),
dict(id="C11", title="A writer delivers the whole document or reports the failure",
 statement="When any graph or data set is written, in any format and style, to a device that is short, interrupted or slow, the device receives exactly a complete document that says what the graph says; when the device fails or fills up at any byte, the writer reports the failure and never success, what arrived is no complete document that claims otherwise, and writing again to a working device gives the complete document. A graph a format cannot express is refused with an error rather than written wrongly, no writer panics, and writing never changes the graph, nor does it matter what other callers do with copies of it meanwhile.",
 over=["fault_sequences","schedules","inputs"],
 qtext="every graph and style, every position and kind of device failure, every pattern of short, interrupted and slow writes, every interleaving of callers",
 why="Tests write a few fixed graphs to memory or standard output, which never fail, and mostly do not look at the result.",
 files=[IO+"nt/writer.rs", IO+"nq/writer.rs", IO+"turtle/writer.rs", IO+"json/writer.rs", IO+"xml/writer.rs", IO+"dot/writer.rs"],
 mech=[("every write is checked; nothing is buffered past the return",IO+"*/writer.rs")],
 observe=["ObjectWriter::write of every writer"]),
dict(id="C12", title="N-Triples and N-Quads files keep every graph and data set",
 statement="A graph saved as N-Triples or a data set saved as N-Quads, once the save is acknowledged and synced, is loaded equal (same statements, blank node names, literals with their data types and language tags, and graph names) by the same or any later process, over any pattern of short and interrupted reads and after any crash. A save that reports failure leaves no file that loads as something else than a part of that graph.",
 over=["histories","crash_points","fault_sequences","schedules","inputs"],
 qtext="every graph and data set, every crash point and device failure, every interleaving of saves and loads by several callers and processes",
 why="No test reads back what was written; the readers are tested on fixed documents and the writers on fixed graphs, on devices that never fail.",
 files=[IO+"nt/writer.rs", IO+"nt/reader.rs", IO+"nq/writer.rs", IO+"nq/reader.rs", IO+"common/parser/ntriples.rs", IO+"common/parser/nquads.rs", IO+"common/common.pest", CORE+"literal.rs"],
 mech=[("escaping and full forms of terms",CORE+"literal.rs; "+IO+"nt/writer.rs"),("grammar and unescaping",IO+"common/common.pest; "+IO+"common/parser/ntriples.rs")],
 observe=["NTripleWriter","NTripleReader","NQuadWriter","NQuadReader"]),
dict(id="C13", title="RDF/JSON files keep every graph",
 statement="A graph saved as RDF/JSON, compact or pretty, once the save is acknowledged and synced, is loaded equal up to the naming of blank nodes (same statements, literals with their data types and language tags, and shared blank nodes still shared) by the same or any later process, over any pattern of short and interrupted reads and after any crash. A save that reports failure leaves no file that loads as a different graph.",
 over=["histories","crash_points","fault_sequences","schedules","inputs"],
 qtext="every graph, every crash point and device failure, every interleaving of saves and loads by several callers and processes",
 why="The tests compare a few fixed documents; none reads back what was written or meets a failing device.",
 files=[IO+"json/writer.rs", IO+"json/reader.rs", IO+"json/syntax.rs"],
 mech=[("subjects, predicates and objects as nested maps",IO+"json/writer.rs"),("value, type, datatype and lang keys",IO+"json/reader.rs")],
 observe=["JsonWriter","JsonReader"]),
dict(id="C14", title="RDF/XML files keep every graph they can express",
 statement="A graph saved as RDF/XML, flat or striped, plain or pretty, with any prefix map, once the save is acknowledged and synced, is loaded equal up to the naming of blank nodes (same statements, literals with data types and language tags, lists and containers, shared blank nodes still shared) by the same or any later process, over any pattern of short and interrupted reads and after any crash. A graph RDF/XML cannot express (a property whose IRI has no name part, a character XML does not have) is refused with an error, and a save that reports failure leaves no file that loads as a different graph.",
 over=["histories","crash_points","fault_sequences","schedules","inputs"],
 qtext="every graph and prefix map, every crash point and device failure, every interleaving of saves and loads by several callers and processes",
 why="The tests compare a few fixed documents; none reads back what was written or meets a failing device.",
 files=[IO+"xml/writer.rs", IO+"xml/reader.rs", IO+"xml/syntax.rs"],
 mech=[("element names from prefix map or generated namespaces; striping",IO+"xml/writer.rs"),("node and property element stack",IO+"xml/reader.rs")],
 observe=["XmlWriter","XmlReader"]),
dict(id="C15", title="A reader gives exactly the graph the document denotes, or reports the failure",
 statement="A well-formed N-Triples, N-Quads, RDF/JSON or RDF/XML document, in whichever of its legal spellings (white space, comments, escapes, order, and in RDF/XML typed nodes, nested nodes, property attributes, inherited language, base and identifiers, containers, collections, reification), is read as exactly the graph or data set it denotes, however its bytes arrive (short, interrupted or slow). If the device fails the reader reports the failure and gives no graph.",
 over=["inputs","fault_sequences","schedules"],
 qtext="every graph in every legal spelling, every pattern of short, interrupted, slow and failing reads, every interleaving of callers",
 why="The tests read a few fixed documents from memory and mostly check that something was parsed.",
 files=[IO+"nt/reader.rs", IO+"nq/reader.rs", IO+"json/reader.rs", IO+"xml/reader.rs", IO+"common/parser/ntriples.rs", IO+"common/parser/nquads.rs", IO+"common/common.pest"],
 mech=[("grammar-driven line parser",IO+"common/parser"),("event-driven RDF/XML state machine",IO+"xml/reader.rs"),("RDF/JSON maps",IO+"json/reader.rs")],
 observe=["ObjectReader::read of every reader"],
 note="Samples seeded spellings and device behaviour. RDF/XML is read within what the reader claims: documents with an rdf:RDF root, absolute IRIs, no literal-content parse types."),
dict(id="C16", title="A cut-off or torn document never yields statements it does not contain",
 statement="A document that a crash cut off at any byte, tore or left with a zeroed tail is refused with an error or gives only statements of the original (for the line formats, every complete line; for the formats with an end, everything or an error), and an undamaged document is never refused. Reading it never panics and never hangs.",
 over=["crash_points","inputs","schedules"],
 qtext="every document in every readable format, cut at every byte, torn or with a zeroed tail",
 why="The tests only read complete documents.",
 files=[IO+"nt/reader.rs", IO+"nq/reader.rs", IO+"json/reader.rs", IO+"xml/reader.rs", IO+"common/parser/ntriples.rs", IO+"common/parser/nquads.rs"],
 mech=[("end of input is part of the grammar",IO+"common/common.pest"),("unclosed documents are errors",IO+"xml/reader.rs, "+IO+"json/reader.rs")],
 observe=["ObjectReader::read of every reader"]),
dict(id="C17", title="Corrupted documents never panic a reader or yield invalid values",
 statement="Reading a document in which bytes were flipped, lost, doubled, zeroed or overwritten never panics or hangs: it fails with an error or gives a graph whose terms all obey the rules of the checking constructors, so that it can be rebuilt, stored and read again as the same graph. If the damaged text is still a well-formed N-Triples, N-Quads or RDF/JSON document, the graph is exactly what it now says.",
 over=["fault_sequences","inputs","schedules"],
 qtext="every document in every readable format with any bytes changed, lost or added",
 why="The tests only read well-formed documents.",
 files=[IO+"nt/reader.rs", IO+"nq/reader.rs", IO+"json/reader.rs", IO+"xml/reader.rs", IO+"common/parser/ntriples.rs", IO+"common/parser/nquads.rs"],
 mech=[("every conversion of input text is checked",IO+"*/reader.rs, "+IO+"common/parser")],
 observe=["ObjectReader::read of every reader"],
 note="Samples seeded damage. IRIs with characters that RFC 3987 has not, but the url crate takes, are left out of the store-and-read-again part."),
dict(id="C18", title="What a writer or reader did before has no influence on what it does next",
 statement="A writer or reader used again and again, by any number of callers in any order, for graphs that share statements, names, prefixes and blank nodes, and after saves that failed half-way or graphs that were refused, gives for each graph exactly a document (or graph) that a new writer or reader could have given for it alone. Nothing of an earlier graph, of its prefixes or of a failure shows in a later document.",
 over=["histories","fault_sequences","schedules"],
 qtext="every history of uses of one writer or reader, with failures and refusals at any point",
 why="Tests use each writer once.",
 files=[IO+"nt/writer.rs", IO+"nq/writer.rs", IO+"turtle/writer.rs", IO+"json/writer.rs", IO+"xml/writer.rs", IO+"dot/writer.rs"],
 mech=[("state of a document is reset or local to one write",IO+"dot/writer.rs, "+IO+"turtle/writer.rs, "+IO+"xml/writer.rs")],
 observe=["ObjectWriter::write, ObjectReader::read used repeatedly"]),
dict(id="C19", title="A resource turns into exactly the statements its builder was told",
 statement="Whatever sequence of builder calls made a Resource (values, nested resources, containers of either, predicates built apart, types), its conversion gives exactly one statement per thing said, a nested resource being linked by its own subject with all its statements, and a container by a node of its own that has the container's type and its members as rdf:_1 to rdf:_n in order. Containers of different mentions or conversions never share a node, an anonymous resource keeps its node wherever it is used, copies are independent, and if the entropy for a node fails the call panics before anything is given out.",
 over=["inputs","histories","fault_sequences","schedules"],
 qtext="every sequence of builder calls, copies and conversions, every nesting, every interleaving of callers that mint nodes, every entropy failure",
 why="The tests build two fixed resources and count the statements; nested resources were linked to their owner and members were counted from 0 without a test noticing.",
 files=[CORE+"resource.rs", CORE+"statement/bnode.rs"],
 mech=[("recursive flattening of predicate/object lists; containers as fresh blank nodes",CORE+"resource.rs flatten")],
 observe=["Vec<Statement>::from(Resource)","Resource::is_an_individual","Resource::is_a_resource"]),
dict(id="C20", title="A Turtle document says exactly what its graph says",
 statement="The Turtle document of a graph, in every style (nested blank nodes or not, sparql style or not, any base, prefix map and indentation), written over any pattern of short, interrupted and slow writes, is well-formed Turtle and denotes exactly the triples of the graph up to the names of blank nodes, nested statements and collections standing for what RDF says they do. If the device fails the writer says so, and writing never panics or hangs, whatever rings and knots the blank nodes form.",
 over=["inputs","fault_sequences","schedules","histories"],
 qtext="every graph, prefix map, base and style, every pattern of short, interrupted, slow and failing writes, every interleaving of callers of shared writers",
 why="The tests compare fixed documents of a few small graphs and no part of the library can read Turtle back; multi-line values, cyclic blank nodes, base and prefix shortening are never parsed again.",
 files=[IO+"turtle/writer.rs", CORE+"literal.rs"],
 mech=[("subject by subject, blank nodes nested where they can be",IO+"turtle/writer.rs"),("shortening by prefix and base",IO+"turtle/writer.rs")],
 observe=["TurtleWriter::write"]),
dict(id="C21", title="Turtle text depends on graph, prefixes and style, and on nothing else",
 statement="Two Turtle documents of the same graph with the same prefix map in the same style are the same text byte for byte, whichever process wrote them, with whatever hash keys, in whatever order the statements and prefixes were inserted, and whatever the writer wrote before, so that saved documents can be compared and versioned. Only the names generated for the reification of nested statements differ from one document to the next.",
 over=["histories","schedules","crash_points"],
 qtext="every order of insertion, every process restart and set of hash keys, every history of the writer",
 why="One run of a test has one set of hash keys; an order that depends on them shows as a flaky test at best.",
 files=[IO+"turtle/writer.rs", CORE+"graph.rs"],
 mech=[("sorted subjects, predicates and prefixes",IO+"turtle/writer.rs")],
 observe=["TurtleWriter::write in several processes"]),
dict(id="C22", title="A native value kept as a typed literal stays that value wherever it is read",
 statement="A native value (boolean, number, decimal, duration, language tag, name, IRI, text, bytes) made into a literal has the data type of that value and a lexical form that type allows and that says exactly this value; the literal compares equal with the value and with no other, and turns back into it where there is a way back. All this still holds after the literal went through a file of any readable format, over short, interrupted and failing devices, crashes at any point and restarts, whichever program wrote it. A text that is no value of its type is refused, never misread, and nothing panics.",
 over=["inputs","fault_sequences","crash_points","schedules"],
 qtext="every native value of every type there is a conversion for, every device behaviour and crash between writing and reading, every interleaving of callers",
 why="The tests convert two or three values of each type in memory; extremes (NaN, infinities, i64::MIN, sub-microsecond durations), quoting characters, and a value read back from a file are never compared.",
 files=[CORE+"literal.rs"],
 mech=[("From, PartialEq and TryFrom implementations of Literal and DataType; hex and base64 codecs",CORE+"literal.rs")],
 observe=["Literal::from(value)","Literal == value","TryFrom<Literal> for Vec<u8> and Iri","Literal::unescaped_form"],
 note="Samples seeded values and device behaviour. Values of which XSD has more than one lexical form may take any of them. How white space within hexBinary is taken is left open."),
dict(id="C23", title="Indexes of terms hold exactly the distinct ones, in one order all agree on",
 statement="Sorted and hashed indexes of statements, subjects, objects, literals, data types, collections, IRIs and blank nodes hold exactly the distinct ones put into them, whichever of the ways there are made each of them: equality is RDF term equality, equal terms hash alike, the order is total, and comparison across types agrees with it. Every caller, and every process after a crash or restart, whatever its hash keys, finds the same keys in the same order, and looks up exactly what was put there.",
 over=["histories","schedules","crash_points","inputs"],
 qtext="every history of insertions, removals and lookups, every way to build a term, every interleaving of callers, every restart and set of hash keys",
 why="The tests compare a few pairs; laws between Eq, Ord and Hash are statements about all pairs and triples of terms, and about terms built differently.",
 files=[CORE+"literal.rs", CORE+"statement.rs", CORE+"statement/subject.rs", CORE+"statement/object.rs", CORE+"statement/bnode.rs", CORE+"statement/collection.rs", CORE+"graph.rs"],
 mech=[("derived and hand-written Eq, Ord and Hash",CORE+"statement/*.rs, "+CORE+"literal.rs")],
 observe=["BTreeMap, BTreeSet, HashMap and HashSet keyed by terms and statements","== and cmp between them"]),
dict(id="C24", title="The rdftk command gives what its input says, or fails visibly and harms nothing",
 statement="rdftk convert and rdftk draw, alone or chained by pipes, reading from a file or standard input and writing to a file or standard output, in any order and form of their options, either end with success and a complete output document that says exactly what the input document says (as a drawing, its nodes and arcs), or end with another status and a message on standard error: never with a panic, never with success after an input that cannot be read or output that cannot be written, and with nothing but the document on standard output. The input file is not changed unless it is the output as well, and whatever the output file held is still there when the input is missing, not a document or cannot be read. A conversion that meets no failure and that the output format can express succeeds.",
 over=["inputs","fault_sequences","schedules","crash_points"],
 qtext="every input document, pair of formats, chain of commands, interleaving of the processes and every failure, interruption, short transfer or kill at any system call",
 why="No test runs the program; whether it loses output or input is decided by the one system call that fails, and by what was done before it.",
 files=["rdftk_cli/src/main.rs","rdftk_cli/src/commands/mod.rs","rdftk_cli/src/commands/representations.rs","rdftk_cli/src/commands/draw.rs"],
 mech=[("reading, then creating, writing and flushing the output","rdftk_cli/src/commands/representations.rs: ConvertCmd::execute, rdftk_cli/src/commands/draw.rs: DrawCmd::execute"),("errors, log and exit status","rdftk_cli/src/main.rs")],
 observe=["exit status, standard output, standard error and files of the rdftk program"]),
dict(id="C25", title="What a term or statement prints as is that very thing, or fails visibly",
 statement="The text a statement, subject, object, literal, collection, graph name, blank node or data type prints as denotes exactly that thing, whatever characters its literals have and however deep it is nested: the same text every time, and the printed text of a plain statement, followed by a full stop, is a line of N-Triples that is read back equal, while a printed blank node can be parsed again. When the sink the text goes to fails at any point, printing reports the failure, never success, and what arrived is a beginning of the text. The interleaving with other callers printing the same shared terms makes no difference.",
 over=["inputs","fault_sequences","schedules"],
 qtext="every term and statement, every point at which the sink fails, every interleaving of callers that print shared terms",
 why="The tests print a few fixed statements to a string, which never fails; none reads a printed term back, and characters that need escaping inside nested terms are in none.",
 files=[CORE+"statement.rs", CORE+"literal.rs", CORE+"graph.rs", CORE+"statement/subject.rs", CORE+"statement/object.rs", CORE+"statement/bnode.rs", CORE+"statement/collection.rs"],
 mech=[("Display of terms; every write to the formatter is checked",CORE+"statement/*.rs, "+CORE+"literal.rs")],
 observe=["Display of Statement, SubjectNode, ObjectNode, Literal, Collection, GraphName, BlankNode, DataType","BlankNode::from_str"],
 note="Samples seeded terms and sinks. Literals of numbers, booleans and IRIs have a bare form without their data type; for these only the lexical form is asked for."),
]
