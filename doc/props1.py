# properties.jsonl, MANIFEST.json: one entry per property.
# P(id, title, statement, over, text, why, files, mechanism[(name, where)], technique, note)
from gen import P

J = ["json/reader.go", "json/writer.go", "json/marshal/json.go", "spdx/v2/v2_1/document.go", "spdx/v2/v2_2/document.go", "spdx/v2/v2_3/document.go",
     "spdx/v2/v2_2/package.go", "spdx/v2/v2_3/package.go", "spdx/v2/v2_2/file.go", "spdx/v2/v2_3/file.go",
     "spdx/v2/common/identifier.go", "spdx/v2/common/creation_info.go", "spdx/v2/common/annotation.go", "spdx/v2/common/package.go"]
TVR = ["tagvalue/reader.go", "tagvalue/reader/reader.go", "spdx/v2/v2_1/tagvalue/reader/parser.go", "spdx/v2/v2_2/tagvalue/reader/parser.go",
       "spdx/v2/v2_3/tagvalue/reader/parser.go", "spdx/v2/v2_3/tagvalue/reader/parse_package.go", "spdx/v2/v2_3/tagvalue/reader/parse_file.go",
       "spdx/v2/v2_3/tagvalue/reader/parse_snippet.go", "spdx/v2/v2_3/tagvalue/reader/util.go"]
TVW = ["tagvalue/writer.go", "spdx/v2/v2_1/tagvalue/writer", "spdx/v2/v2_2/tagvalue/writer", "spdx/v2/v2_3/tagvalue/writer"]

P("C01", "JSON written for a document reads back as the same document",
  "Writing any SPDX 2.1, 2.2 or 2.3 document as JSON, with any combination of the write options (indentation, HTML escaping), and reading the result into that version's model gives a document equal in every field JSON has a place for; the options do what they say, and writing leaves the document it is given unchanged. JSON has no place for reviews, the snippet map of a file, the identifier an annotation is about, and a snippet's attribution texts.",
  ["inputs", "configurations"],
  "Every document of the three models whose text is valid UTF-8 (control characters, quotes, backslashes, <, >, &, non-BMP characters included), whose identifiers carry no SPDXRef-/DocumentRef- prefix of their own and whose actor types hold no colon; every combination of write options.",
  "The tests round-trip one fixed example document per version, with tame text; escaping, empty against missing, and combinations of optional fields are not sampled.",
  J, [("custom MarshalJSON/UnmarshalJSON of documents, packages, files, identifiers and actors", "spdx/v2/*/document.go, package.go, file.go; spdx/v2/common"), ("HTML escaping switched off on every level", "json/marshal/json.go")],
  "property-based testing (rapid): JSON write/read round trip over generated documents",
  "Generated-input search; the comparison is by reflection over every field of the models except the ones listed as having no place in JSON.")

P("C02", "JSON keys and values are those of the SPDX schema, in any spelling",
  "The JSON written for a document is, key for key and value for value, the JSON the SPDX 2.1, 2.2 or 2.3 schema prescribes for it. Conversely, JSON that means this - whatever its white space, key order, string escapes (\\uXXXX, surrogate pairs, \\/) or extra unknown keys - is read as exactly that document.",
  ["inputs"],
  "As for C01; on the reading side also every JSON spelling of the same value.",
  "The tests compare with a handful of golden files; a key misspelt alike in the reader and the writer passes every round trip, and escapes other than those Go's encoder writes are never read.",
  J, [("struct tags and custom (un)marshallers", "spdx/v2/v2_*/*.go"), ("string decoding of identifiers and actors", "spdx/v2/common")],
  "property-based testing (rapid): differential against an independent JSON renderer written from the SPDX schema",
  "The oracle is a second renderer that shares no code with the library.")

P("C03", "JSON and YAML shorthands mean the relationships they stand for",
  "On reading SPDX 2.2 and 2.3 JSON or YAML, each entry of documentDescribes means a DESCRIBES relationship from the document and each entry of a package's hasFiles a CONTAINS relationship from the package: it is added, once, after the stated relationships, in the order documentDescribes first and then package by package, unless an equal relationship - or its mirror image, DESCRIBED_BY or CONTAINED_BY the other way round - is stated already. A package without filesAnalyzed is read as analysed, null entries among the relationships are left out, and the external reference categories may be spelled with '-' or '_' in any combination and are read with '-'.",
  ["inputs"],
  "Every document with any set of stated relationships (duplicates, mirror images, comments, external documents among them) and any shorthand lists, in JSON and in YAML.",
  "The tests have a few hand-written lists; the interplay of duplicates, direction, several packages and nulls is unbounded.",
  ["spdx/v2/v2_2/document.go", "spdx/v2/v2_3/document.go", "spdx/v2/v2_2/package.go", "spdx/v2/v2_3/package.go"],
  [("UnmarshalJSON: documentDescribes and hasFiles turned into relationships with a set of those stated", "spdx/v2/v2_3/document.go"), ("external reference category normalised, filesAnalyzed default", "spdx/v2/v2_3/package.go")],
  "property-based testing (rapid): reading compared with a reference model of the shorthands",
  "The reference model computes the relationships from the generated document, not from the library.")

P("C04", "YAML written for a document reads back, and any YAML spelling is read",
  "Writing any document of SPDX 2.1, 2.2 or 2.3 as YAML and reading it back gives a document equal in every field YAML has a place for (the same as JSON's). Any YAML spelling of a document - block or flow collections, plain, quoted or literal scalars, comments, any indentation and key order - is read as that document.",
  ["inputs"],
  "As for C01, including text that looks like another YAML type (null, no, 1e3, 012, dates), control characters, tabs, leading and trailing white space and newlines; on the reading side every spelling our own emitter makes.",
  "The tests read and write one example document; scalars that need quoting are not sampled.",
  ["yaml/reader.go", "yaml/writer.go"] + J[3:], [("JSON converted to YAML and back", "yaml/writer.go, yaml/reader.go")],
  "property-based testing (rapid): YAML round trip, and reading compared with an independent YAML emitter",
  "Raw control characters and U+2028/9 unescaped inside scalars are left out: YAML 1.1 does not allow them or folds them.")

P("C05", "Tag-value written for a document reads back as the same document",
  "Writing any SPDX 2.1, 2.2 or 2.3 document as tag-value and reading it back gives a document equal in every field tag-value has a place for, with external document references, packages and files in the order of the file (references by identifier, packages and files sorted by identifier, files outside any package first); writing what was read gives the same bytes. Text of any number of lines and any length, with any leading or trailing white space or empty lines, survives.",
  ["inputs"],
  "Documents whose single-line fields hold no line break, whose text holds no '</text>' and no carriage return, and whose references and URIs hold no space - the things the format cannot express; snippets hang off files, annotations off the document, and a verification code and the licences found in files need filesAnalyzed.",
  "The tests compare writer output for fixed structs with fixed strings, and reader tests feed fixed pairs; the two are never joined over general text.",
  TVR + TVW, [("section writers in a fixed order with sorting", "spdx/v2/v2_3/tagvalue/writer/save_document.go"), ("multi-line text wrapped in <text>", "spdx/v2/v2_*/tagvalue/writer"), ("state machine over sections", "spdx/v2/v2_*/tagvalue/reader/parser.go")],
  "property-based testing (rapid): tag-value write/read/write round trip over generated documents",
  "Compared by reflection over every field except the ones listed as having no place in tag-value.")

P("C06", "Any tag-value spelling of a document is read as that document",
  "A tag-value file is read as the document it states, whatever the order of the tags within a section and of the sections the specification leaves free, with comments, blank lines, indentation, <text> around any value, Windows line ends, and relationships and annotations anywhere. Files belong to the package section they follow, snippets to the file section they follow.",
  ["inputs"],
  "Every spelling a renderer written from the SPDX 2.1, 2.2 and 2.3 specifications can make of a generated document.",
  "Reader tests call one parse function at a time with pairs in the usual order; files with sections interleaved as people write them are not tried.",
  TVR, [("parser state transitions", "spdx/v2/v2_*/tagvalue/reader/parser.go, parse_*.go")],
  "property-based testing (rapid): reading compared with an independent tag-value renderer",
  "The renderer shares no code with the library's writer.")

P("C07", "A tag-value file with one thing wrong is rejected whole",
  "A tag-value file with an ill-formed value (identifier, relationship, actor, checksum with an algorithm the version lacks, external reference, range), a tag its section does not have, a package or file without SPDXID, a dependent tag without the tag it depends on, a line without a colon, a <text> without an end, or an unsupported or missing version is rejected with an error. The document given to read into is then left exactly as it was.",
  ["inputs"],
  "Every generated well-formed file with one of these mistakes at any position.",
  "The tests give each parse function one bad value in isolation; whether the error survives up to the caller from any section, and the target stays untouched, is not settled.",
  TVR, [("error returns of every parse function", "spdx/v2/v2_*/tagvalue/reader"), ("conversion only after a successful parse", "tagvalue/reader.go")],
  "property-based testing (rapid): generated files with one injected mistake must give an error",
  "The mistakes come from a model of which tags each section holds, written from the specification.")

P("C08", "The tag-value lexer gives exactly the pairs the file spells",
  "Reading the tag-value pairs of a file gives, in order, exactly the tags and values it was spelled from, for values of any length, on one line or in <text> over many lines (kept to the byte, apart from line ends), with comments, blank lines, white space around tags and values and either line end, and whatever pieces the underlying reader delivers the bytes in.",
  ["inputs"],
  "Every list of pairs and every spelling of it; every chunking of the input by the reader; lines beyond 64 KB.",
  "The tests use short fixed files read from memory in one piece.",
  ["tagvalue/reader/reader.go"], [("line scanner with the multi-line state", "tagvalue/reader/reader.go")],
  "property-based testing (rapid): spelled pairs must come back, over chunked readers",
  "A carriage return inside <text> is left out.")

P("C09", "The same document reads alike from tag-value, JSON and YAML",
  "A document stated in tag-value, JSON and YAML is read as the same document from each, in every field the three have in common. What is read from any of them, written in any of them and read again is still that document.",
  ["inputs"],
  "Every document of versions 2.1, 2.2 and 2.3 restricted to what all three formats express, and every pair of formats.",
  "The conversion examples and tests convert single sample files and compare with golden output.",
  ["tagvalue/reader.go", "json/reader.go", "yaml/reader.go", "tagvalue/writer.go", "json/writer.go", "yaml/writer.go"],
  [("one model per version shared by all formats", "spdx/v2/v2_*/")],
  "property-based testing (rapid): differential reading and conversion between formats",
  "Texts are made by three independent renderers.")

P("C10", "The version a document states decides how it is read, into any model",
  "Reading JSON, YAML, tag-value or RDF into a model of another version gives what reading it into its own version and converting gives; Read gives it as the latest version. A document that states a version other than SPDX-2.1, SPDX-2.2 and SPDX-2.3 (RDF: the latter two) is rejected, and the target is left as it was; reading into something that is no pointer to a document is an error.",
  ["inputs", "configurations"],
  "Every document of the three versions, every target version, targets empty or already filled, and version strings near the supported ones.",
  "The tests read each version's example into its own model or the latest one.",
  ["json/reader.go", "yaml/reader.go", "tagvalue/reader.go", "rdf/reader.go", "convert/struct.go"], [("switch over the stated version, then conversion", "json/reader.go, tagvalue/reader.go")],
  "property-based testing (rapid): reading across versions compared with field-by-field projection",
  "The expected document is computed by reflection, by field name, from the generated one.")

P("C11", "Converting between versions keeps every field both versions have",
  "Converting a document of any version to any other keeps the value of every field that the versions in between have in common, sets the version to the target's, gives no field a value the source did not have, and leaves the source unchanged. Converting up and back gives the original document.",
  ["inputs", "configurations"],
  "Every document, all nine pairs of versions, sources by pointer or value, targets empty or already filled.",
  "The tests convert one example per pair and compare a part of it.",
  ["convert/chain.go", "convert/struct.go", "spdx/v2/v2_1/document.go", "spdx/v2/v2_2/document.go", "spdx/v2/v2_3/document.go", "spdx/v2/v2_3/package.go"],
  [("conversion chain with ConvertFrom hooks", "spdx/v2/v2_*/*.go")],
  "property-based testing (rapid): conversion compared with field-by-field projection",
  "An empty verification code and none count as the same thing where version 2.1 is the source, which has no way to tell them apart.")

P("C12", "Identifiers and actors are decoded from and encoded to their one form",
  "An element is spelled SPDXRef-x, a document DocumentRef-x, an element of another document DocumentRef-x:SPDXRef-y, and NONE and NOASSERTION stand for themselves; a string of such a form is decoded to exactly its parts and encoded and rendered back as itself, and a string without the prefix its kind requires is rejected. Creators, annotators, suppliers and originators are spelled 'Type: name' with the name kept whole, colons and all, suppliers and originators also NOASSERTION, and a string of neither form is rejected.",
  ["inputs"],
  "Every string over the pieces of identifiers and actors, in every JSON and YAML spelling of it.",
  "The tests list a dozen identifiers in Go's own escape-free spelling.",
  ["spdx/v2/common/identifier.go", "spdx/v2/common/creation_info.go", "spdx/v2/common/annotation.go", "spdx/v2/common/package.go"],
  [("MarshalJSON/UnmarshalJSON, Render*, Make*", "spdx/v2/common")],
  "property-based testing (rapid): decode/encode compared with a reference grammar",
  "Strings the specification's forms do not settle (a colon inside an element part, a bare DocumentRef-x as a relationship end) are not judged.")

P("C16", "A JSON or YAML document with one thing wrong is rejected whole",
  "A JSON or YAML document with an identifier that lacks its prefix, a creator, annotator, supplier or originator of no valid form, a value of the wrong JSON type for its key, an unsupported version, a top level that is no object, or its text cut off is rejected with an error. The document given to read into is then left exactly as it was.",
  ["inputs"],
  "Every generated document with one of these mistakes at any place in it, read into a target of any version.",
  "The tests try a few broken identifiers in isolation.",
  ["json/reader.go", "yaml/reader.go", "spdx/v2/common/identifier.go", "spdx/v2/common/creation_info.go", "spdx/v2/common/annotation.go", "spdx/v2/common/package.go"],
  [("errors of every UnmarshalJSON", "spdx/v2"), ("target set only after everything was read", "json/reader.go")],
  "property-based testing (rapid): generated documents with one injected mistake must give an error",
  "A mistake is only injected where the format leaves no other reading.")

P("C25", "Described packages, filtered relationships and sorted IDs are exact",
  "GetDescribedPackageIDs gives the sole package of a document that has one package; otherwise it gives, sorted and without duplicates, exactly the packages of this document that the document DESCRIBES or that are DESCRIBED_BY it, and an error if there is none. FilterRelationships offers every relationship once, in order, and gives exactly what the filter returned; SortElementIDs gives its input sorted, nothing lost or added; none of them changes the document.",
  ["inputs"],
  "Every document with any packages, files and snippets and relationships of any direction and kind among them, to other documents, and to missing elements.",
  "The tests use one document per function with two or three relationships.",
  ["spdxlib/described_elements.go", "spdxlib/relationships.go"], [("filter over relationships", "spdxlib/described_elements.go")],
  "property-based testing (rapid): compared with a reference model",
  "The reference model restates the rule over the generated document.")

P("C26", "ValidateDocument rejects exactly the dangling relationships",
  "ValidateDocument accepts a document if and only if both ends of each of its relationships are the document itself, one of its packages, files or snippets (inside packages and files too), an element of another document, NONE or NOASSERTION. It never changes the document.",
  ["inputs"],
  "Every document with any packages, files and snippets and any relationships among them and to missing elements.",
  "The tests have a few documents, without snippets, external documents or NONE.",
  ["spdxlib/documents.go"], [("set of valid element IDs", "spdxlib/documents.go")],
  "property-based testing (rapid): compared with a reference predicate",
  "Both directions are checked: nothing valid is rejected, nothing dangling accepted.")
