package main

import "strings"

// rules tell, per search, how its cases are made and what makes one
// non-trivial. A key is "ID/search", "ID/search" without its version, or "ID".
var rules = map[string]string{
	"C01":               "a document of the version, every field drawn at one of three densities from words, quirks (quotes, escapes, <>&, YAML-like scalars, control and non-BMP characters) and multi-line text, written with drawn options and read back; non-trivial: its rendering is over 800 characters",
	"C01/huge":          "a document as in C01 with packages, files, relationships and annotations repeated under other identifiers to between one and five megabytes, and half of the time a single text of that size, written and read back; every one is non-trivial",
	"C04/huge":          "as C01/huge, up to about one megabyte, as YAML; every one is non-trivial",
	"C05/huge":          "as C01/huge, as tag-value; every one is non-trivial",
	"C02":               "a document as in C01; half of the cases compare what is written with an independent rendering, half read an independent rendering in a drawn spelling (white space, key order, escapes, extra keys); non-trivial: the rendering is over 800 characters",
	"C03":               "a document with at least one package, drawn relationships between document, packages and other elements in either direction, and drawn documentDescribes and hasFiles lists that half of the time repeat what is stated; non-trivial: at least one shorthand entry",
	"C04/yaml":          "a document as in C01, written as YAML and read back; non-trivial: its rendering is over 800 characters",
	"C04/read":          "a document as in C01 in a drawn YAML spelling (block, flow, quoted, plain, literal), read; non-trivial: the text is over 800 characters",
	"C05":               "a document restricted to what tag-value expresses, written, read, compared and written again; non-trivial: the file is over 500 bytes",
	"C06":               "a document in a drawn tag-value spelling: order of tags and sections, comments, blank lines, <text>, line ends; non-trivial: the file is over 500 bytes",
	"C07":               "a well-formed tag-value file with one drawn mistake out of eight kinds at a drawn place (foreign tags: all of them there, one by one); every case is non-trivial",
	"C08":               "up to eight pairs in a drawn spelling, one file in twelve with a line beyond 64 KB, read through a drawn chunking; non-trivial: two pairs or more",
	"C09":               "a document all three formats express, spelled in each and read, then rewritten along a drawn pair of formats; non-trivial: its rendering is over 800 characters",
	"C10":               "a document of a drawn version read into a model of a drawn version, one in five with an unsupported version; non-trivial: the text is over 500 bytes, or the version is unsupported",
	"C11":               "a document of one version converted to another, given by pointer or value, into an empty or filled target; non-trivial: its rendering is over 800 characters",
	"C12/identifiers":   "up to three pieces of identifiers (prefixes, colons, near-prefixes, quotes, letters) joined; non-trivial: over 8 characters",
	"C12/actors":        "an actor type and a drawn name in one of three spellings, a quarter with every colon removed; every case is non-trivial",
	"C12/places":        "a drawn identifier or actor, or nearly one, stated at a drawn place (20 of them: of documents, packages, files, snippets, ranges, relationships, annotations, reviews, creators, suppliers, shorthands) of a tag-value, JSON or YAML document of a drawn version, read, and written again in every format; non-trivial: the forms settle what it means",
	"C13":               "a drawn document's spelling with up to five odd changes (JSON values swapped, nulled, duplicated, retyped; lines of tag-value dropped, swapped, retagged, given odd values; RDF nodes and properties retyped, redirected, made cyclic; bytes inserted, deleted, moved), read as each version and, if read, converted, written in all formats, validated, compared and reported; non-trivial: it was read",
	"C27":               "a drawn directory with licence tags, built with or without searching for them and with drawn ignore patterns, then written, now and then as 2.2, and read again up to four times in drawn formats; non-trivial: two files or more",
	"C14/read":          "the graph of a drawn document (licences not compound), written as RDF/XML in a drawn way (nested or referred to, order, prefixes, quotes, references, CDATA) and read; non-trivial: the text is over 2000 characters",
	"C14/malformed":     "a graph as in C14/read with one thing wrong in it (unknown property, unknown type, category or algorithm, actor without a kind, offset that is no number, no or wrong version, second document) or its text cut off or with a wrong closing tag; non-trivial: reading failed as it must",
	"C15/expressions":   "a graph as in C14/read with license sets, exceptions and extracted licences nested up to three deep, some of them shared; non-trivial: the text is over 2000 characters",
	"C15/or-later":      "a graph as in C15/expressions, two deep, with or-later operators; non-trivial: it has one",
	"C16":               "a document with one drawn mistake out of six kinds at a drawn place, read into an empty or filled target of a drawn version; every case is non-trivial",
	"C25/described":     "a document of up to five packages with drawn relationships, most between document and packages; non-trivial: two packages or more, at least one of them described",
	"C25/filter-sort":   "as described; a filter by type, and a list of drawn IDs; non-trivial: two matches or more",
	"C26":               "as C25, half of the documents with relationships to missing elements; non-trivial: at least one relationship",
	"C28/lacking":       "a document as in C05, written, then written again without up to seven of its values: just the tags of these may be missing; non-trivial: one is",
	"C28":               "a document as in C05, written, and cut into pairs by a strict lexer; non-trivial: it has over 15 pairs",
	"C19":               "up to seven files with drawn names and checksums (several SHA1, none, upper case) and a drawn file to exclude; non-trivial: two SHA1 values or more",
	"C20":               "a directory of drawn files (any names, modes, times and sizes up to 10 MB, now and then one file under two names), directories, pipes, sockets and symbolic links, named in one of seven ways, with drawn patterns, creator and name; non-trivial: two files or more listed",
	"C21/walk":          "a directory of drawn files (names with white space, line breaks, bytes that are no UTF-8), directories and symbolic links, named in one of seven ways (by symbolic link, relative, with . and ..), with up to three patterns made from its paths or nearly so; non-trivial: two files or more",
	"C21/ignore":        "up to four paths and up to three patterns made from them or nearly so; non-trivial: at least one pattern",
	"C22":               "a directory as in C20 whose files hold lines with short-form IDs in drawn comment styles of twenty languages (one within another, last lines, quotes), other tags behind them, repeated expressions, code that looks for the tag, and sometimes a line over 64 KB; non-trivial: two expressions or more",
	"C23":               "two packages over eight file names and seven licences; non-trivial: three files or more; all other fields filled at random",
	"C24":               "a package of up to 1000 files over up to thirteen licences; non-trivial: two files or more, analysed; all other fields filled at random",
	"C17/same-bytes":    "a document as in C01 or C05, written four times over: by pointer, by value and as a copy, and for tag-value with packages and files shuffled; non-trivial: over 500 bytes are written",
	"C17/not-documents": "values of other types, nil, and documents without creation information, given to the tag-value writer; every one is non-trivial",
	"C17/together":      "two to six jobs that share nothing (reading, rewriting, converting, validating and comparing documents, building and searching one directory), of one kind or several, each done alone first and then all at once under the race detector; non-trivial: three jobs or more",
	"C17/history":       "jobs as in together, one after another and again and again, and between them parts of their texts read, readers that fail, and what was read overwritten; every one is non-trivial",
	"C17/first-of-all":  "the same jobs as the first thing a process does, under the race detector; non-trivial: three jobs or more",
	"C17/concurrent":    "three to six jobs drawn from writing one document as JSON or YAML, writing a copy as tag-value, reading, converting and the library functions, run at once under the race detector; non-trivial: four jobs or more",
	"C18/read":          "a document in tag-value, JSON, YAML or RDF, read through a drawn chunking, then through a reader that fails at a drawn byte, a fifth of the time after the last one; non-trivial: the text is over 500 bytes",
	"C18/write":         "a document written as tag-value, JSON or YAML, or a report, to a writer that fails at a drawn byte, once or for good; non-trivial: over 200 bytes are to be written",
}

func init() {
	for i := range checks {
		for j := range checks[i].Subs {
			s := &checks[i].Subs[j]
			switch checks[i].ID {
			case "C13", "C17":
				s.Quick *= 2
			default:
				s.Quick *= 3
			}
			full := checks[i].ID + "/" + s.Name
			base := full
			for _, v := range versions {
				base = strings.TrimSuffix(base, "-"+v)
			}
			for _, k := range []string{full, base, checks[i].ID} {
				if r, ok := rules[k]; ok {
					s.Rule = r
					break
				}
			}
			if s.Rule == "" || s.Rule == "x" {
				panic("no rule for " + full)
			}
		}
	}
}
