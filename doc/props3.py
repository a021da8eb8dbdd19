from gen import P
from props1 import TVW

def RDF(*names):
    return [f"spdx/v2/{v}/rdf/reader/{n}.go" for v in ("v2_2", "v2_3") for n in names]

P("C14", "RDF/XML is read as the document its graph describes, or not at all",
  "Reading RDF/XML of SPDX 2.2 or 2.3 gives exactly the document the graph describes - elements, relationships, annotations, checksums, ranges and texts, once each and in any order - however the graph is spelled: nodes nested, listed or referred to by rdf:resource or rdf:nodeID, in any order, with any prefixes, quotes, references or CDATA. Text that is cut off, and documents with properties, types, identifiers, actors or versions that SPDX does not know, are errors, and leave the target document unchanged.",
  ["inputs"],
  "Every document of the two versions, in every spelling of its graph as typed nodes, and every single fault of the kinds named.",
  "The tests read one sample document and call the parsers of single nodes.",
  ["rdf/reader.go", "rdf/xml.go"] + RDF("parser", "parse_spdx_document", "parse_package", "parse_file", "parse_snippet_info", "parse_relationship", "parse_annotation", "parse_creation_info", "parse_review", "parse_other_license_info", "utils", "license_utils"),
  [("XML text and node identities settled before the graph is built", "rdf/xml.go"), ("one parse per node, kept in a cache by colour", "spdx/v2/v2_3/rdf/reader/parse_package.go, parse_file.go"), ("elements nothing refers to", "spdx/v2/v2_3/rdf/reader/parser.go")],
  "property-based testing (rapid): drawn graphs in drawn spellings, compared with the document drawn; and faults",
  "rdf:Description, xmlns on inner elements, XML comments and surrounding white space of texts are left out: the third-party parser does not read them.")

P("C15", "Licences in RDF are read as equivalent licence expressions",
  "A licence in RDF - a listed or extracted licence, described or only referred to, NONE, NOASSERTION, a conjunctive or disjunctive set, an exception or an or-later operator, nested in any way and used in any number of places - is read as a licence expression with the same meaning, up to the order of the members of sets.",
  ["inputs"],
  "Every licence expression, in every field of packages, files and snippets that holds licences.",
  "The tests read sets of two plain licences.",
  RDF("parse_license", "license_utils", "types", "utils"),
  [("nested sets in brackets, operators applied to members", "spdx/v2/v2_3/rdf/reader/license_utils.go, parse_license.go")],
  "property-based testing (rapid): drawn expression graphs, compared by a canonical form of expressions",
  "The '+' of or-later operators is dropped, as an existing test demands: a known finding.")

P("C13", "No input makes reading, or using what was read, panic or hang",
  "Whatever bytes a JSON, YAML, tag-value or RDF reader is given, it returns a document or an error, and neither panics nor runs forever. Whatever document it returns - null elements, odd identifiers, cycles and all - can be converted, written in every format, validated, searched for described packages, compared, reported and summed up, with a result or an error and again no panic.",
  ["inputs"],
  "Every input, in the four formats, read as each of the three versions.",
  "The tests read well-formed samples and single malformed lines.",
  ["json/reader.go", "yaml/reader.go", "tagvalue/reader.go", "rdf/reader.go", "tagvalue/reader/reader.go", "convert/chain.go", "spdxlib/documents.go", "spdxlib/described_elements.go", "licensediff/licensediff.go", "reporter/reporter.go"] + TVW + RDF("parse_license", "parse_package", "parse_file", "parse_relationship"),
  [("nil and missing parts skipped or reported", "spdx/v2/v2_3/tagvalue/writer, spdxlib, json/reader.go"), ("cycles of nodes recognised by colour", "spdx/v2/v2_3/rdf/reader/parse_license.go")],
  "property-based testing (rapid) and mutation fuzzing of structured inputs: crash and timeout oracle",
  "Inputs are mutated spellings of drawn documents, so deep states are reached; wholly random bytes are a small part of them.")

P("C27", "A built document says the same through every format, version and tool",
  "A document built from any directory, with or without a search for licence IDs, stays the same document when it is written and read again in JSON, YAML and tag-value any number of times, converted to SPDX 2.2 and back on the way or not. At every stage it is valid, describes exactly its package, its files give the verification code it states, its report stays the same, and comparing its licences with the original's finds no difference.",
  ["inputs", "histories"],
  "Every directory, ignore pattern and creator, and every sequence of formats and versions.",
  "The tests try each function alone on its own sample; none passes a built document on to a writer, a reader or another tool.",
  ["builder/build.go", "idsearcher/idsearcher.go", "json/writer.go", "yaml/writer.go", "tagvalue/writer.go", "json/reader.go", "yaml/reader.go", "tagvalue/reader.go", "convert/chain.go", "spdxlib/documents.go", "spdxlib/described_elements.go", "utils/verification.go", "reporter/reporter.go", "licensediff/licensediff.go"],
  [("the document model all of them share", "spdx/v2/v2_3")],
  "property-based testing (rapid): drawn pipelines over drawn directories, with metamorphic oracles at each stage",
  "Package names are ones identifiers allow, as the builder makes an identifier of them.")
