NA = [
dict(prop=dict(id="N01", title="Names, prefixes and IRIs accepted are exactly those of their grammars",
  statement="A string is accepted as a prefix, local name or prefixed name exactly when it matches the corresponding Turtle/SPARQL production, and as an IRI exactly when it is a valid absolute URL; acceptance by the parser and by the validity predicates agree.",
  over=["inputs"], qtext="every string",
  why="The property tests sample generated strings; the space is every Unicode string.",
  files=["rdftk_iri/src/pname.rs","rdftk_iri/src/iri.rs"],
  mech=[("character classes and from_str","rdftk_iri/src/pname.rs")], observe=["from_str","is_valid_str"]),
 reason="A pure function of one string: no schedule, clock, fault, I/O or history it could depend on, so simulation has nothing to decide."),
dict(prop=dict(id="N03", title="IRI editing changes one component and leaves the others alone",
  statement="Replacing the path or fragment of an IRI, or removing its fragment, changes only that component and leaves scheme, authority, query and the other components as they were.",
  over=["inputs"], qtext="every IRI and replacement",
  why="Tests try one IRI each.",
  files=["rdftk_iri/src/iri.rs"], mech=[("with_new_path, with_new_fragment, with_no_fragment","rdftk_iri/src/iri.rs")],
  observe=["Iri::{with_new_path,with_new_fragment,with_empty_fragment,with_no_fragment}"]),
 reason="A pure function of its arguments; nothing for a simulator to schedule or fault."),
]
