from gen import P
from props1 import TVW

P("C28", "Tag-value written states exactly what the specification's tags say",
  "The tag-value file written for an SPDX 2.1, 2.2 or 2.3 document states each value of the document once, under the tag that version's specification names for it and in the specification's spelling ('Type: name', 'ALGORITHM: value', 'start:end', '(excludes: a, b)', SPDXRef- and DocumentRef- before identifiers). Every tag stands in the section it belongs to - files after their package, snippets after their file - and behind the tag it depends on, text over several lines stands in <text>, every other line is empty or a comment, and nothing is stated that the document does not say: a value it lacks leaves out its tag and changes nothing else.",
  ["inputs"],
  "The documents of C05, and such documents without some of their values.",
  "The tests compare the bytes written for one fixed structure per section; C05 reads what was written with the library's own reader, so a tag both of them get wrong goes unseen.",
  ["tagvalue/writer.go"] + TVW,
  [("one function per section, one line per field", "spdx/v2/v2_*/tagvalue/writer/save_*.go"), ("text wrapped where it must be", "spdx/v2/v2_*/tagvalue/writer/util.go")],
  "property-based testing (rapid): the file written is cut by a strict lexer of the harness and compared, section by section, with an independent rendering of the document",
  "The order of tags within a section, and of the licences, reviews, relationships and annotations among each other, is left free.")
