package main

import (
	stdjson "encoding/json"
	"strings"

	"github.com/spdx/tools-golang/spdx/v2/common"
	"github.com/spdx/tools-golang/spdx/v2/v2_3"
	"pgregory.net/rapid"
)

// Every place of a document that holds an identifier or an actor: the string
// stated there is decoded to its parts, or rejected, and encoded again as
// itself.

const (
	anActor = iota
	aSource // supplier or originator
	anElement
	aDocument
	aDocElement
)

type place struct {
	name string
	kind int
	from string // first version that has it
	// tag-value
	tag  string
	line string // what is written for it, %s for the string
	tv   string // the file below its header, %s for the string
	head bool   // tv is the whole file
	// JSON
	path []string // where it is; elements of lists are named "#"
	doc  func(s string) obj
	// RDF
	rdf string
	// what is read there
	get func(d *v2_3.Document) any
}

func lst(v any) []any { return []any{v} }

const tvNoID = "SPDXVersion: SPDX-VER\nDataLicense: CC0-1.0\nDocumentName: d\nDocumentNamespace: https://example.com/d\n"
const tvNoCreator = "SPDXVersion: SPDX-VER\nDataLicense: CC0-1.0\nSPDXID: SPDXRef-DOCUMENT\nDocumentName: d\nDocumentNamespace: https://example.com/d\n"
const tvHead = tvNoCreator + "Creator: Tool: t\nCreated: 2020-01-01T00:00:00Z\n"
const tvAnn = "AnnotationDate: 2020-01-01T00:00:00Z\nAnnotationType: OTHER\n"

func jHead(ver string) obj {
	return obj{"spdxVersion": "SPDX-" + ver, "dataLicense": "CC0-1.0", "SPDXID": "SPDXRef-DOCUMENT", "name": "d", "documentNamespace": "https://example.com/d",
		"creationInfo": obj{"created": "2020-01-01T00:00:00Z", "creators": lst("Tool: t")}}
}

func jAnn(s string) obj {
	return obj{"annotationDate": "2020-01-01T00:00:00Z", "annotationType": "OTHER", "annotator": s, "comment": "c"}
}

func jPkg(k, v string) obj {
	p := obj{"SPDXID": "SPDXRef-p", "name": "p", "downloadLocation": "NONE"}
	p[k] = v
	return p
}

func jSnip(id, from, ref string) obj {
	return obj{"SPDXID": id, "snippetFromFile": from, "ranges": lst(obj{"startPointer": obj{"offset": 1, "reference": ref}, "endPointer": obj{"offset": 2, "reference": ref}})}
}

func jRel(a, b string) obj {
	return obj{"spdxElementId": a, "relationshipType": "CONTAINS", "relatedSpdxElement": b}
}

var places = []place{
	{name: "creator", kind: anActor, tag: "Creator", tv: tvNoCreator + "Creator: %s\nCreated: 2020-01-01T00:00:00Z\n", head: true,
		path: []string{"creationInfo", "creators", "#"},
		doc: func(s string) obj {
			return obj{"creationInfo": obj{"created": "2020-01-01T00:00:00Z", "creators": lst(s)}}
		},
		get: func(d *v2_3.Document) any { return d.CreationInfo.Creators[0] }},
	{name: "annotator", kind: anActor, tag: "Annotator", tv: "Annotator: %s\n" + tvAnn + "SPDXREF: SPDXRef-DOCUMENT\nAnnotationComment: c\n",
		path: []string{"annotations", "#", "annotator"}, doc: func(s string) obj { return obj{"annotations": lst(jAnn(s))} },
		get: func(d *v2_3.Document) any { return d.Annotations[0].Annotator }},
	{name: "annotator of a package", kind: anActor, path: []string{"packages", "#", "annotations", "#", "annotator"},
		doc: func(s string) obj {
			p := jPkg("comment", "c")
			p["annotations"] = lst(jAnn(s))
			return obj{"packages": lst(p)}
		},
		get: func(d *v2_3.Document) any { return d.Packages[0].Annotations[0].Annotator }},
	{name: "annotator of a file", kind: anActor, path: []string{"files", "#", "annotations", "#", "annotator"},
		doc: func(s string) obj {
			return obj{"files": lst(obj{"SPDXID": "SPDXRef-f", "fileName": "f", "annotations": lst(jAnn(s))})}
		},
		get: func(d *v2_3.Document) any { return d.Files[0].Annotations[0].Annotator }},
	{name: "reviewer", kind: anActor, tag: "Reviewer", tv: "Reviewer: %s\nReviewDate: 2020-01-01T00:00:00Z\n",
		get: func(d *v2_3.Document) any {
			return common.Creator{CreatorType: d.Reviews[0].ReviewerType, Creator: d.Reviews[0].Reviewer}
		}},
	{name: "supplier", kind: aSource, tag: "PackageSupplier", tv: "PackageName: p\nSPDXID: SPDXRef-p\nPackageDownloadLocation: NONE\nPackageSupplier: %s\n",
		path: []string{"packages", "#", "supplier"}, doc: func(s string) obj { return obj{"packages": lst(jPkg("supplier", s))} },
		get: func(d *v2_3.Document) any { return *d.Packages[0].PackageSupplier }},
	{name: "originator", kind: aSource, tag: "PackageOriginator", tv: "PackageName: p\nSPDXID: SPDXRef-p\nPackageDownloadLocation: NONE\nPackageOriginator: %s\n",
		path: []string{"packages", "#", "originator"}, doc: func(s string) obj { return obj{"packages": lst(jPkg("originator", s))} },
		get: func(d *v2_3.Document) any { return *d.Packages[0].PackageOriginator }},

	{name: "document", kind: anElement, tag: "SPDXID", tv: tvNoID + "SPDXID: %s\nCreator: Tool: t\nCreated: 2020-01-01T00:00:00Z\n", head: true,
		path: []string{"SPDXID"}, doc: func(s string) obj { return obj{"SPDXID": s} },
		get: func(d *v2_3.Document) any { return d.SPDXIdentifier }},
	{name: "package", kind: anElement, tag: "SPDXID", tv: "PackageName: p\nSPDXID: %s\nPackageDownloadLocation: NONE\n",
		path: []string{"packages", "#", "SPDXID"}, doc: func(s string) obj { return obj{"packages": lst(jPkg("SPDXID", s))} },
		get: func(d *v2_3.Document) any { return d.Packages[0].PackageSPDXIdentifier }},
	{name: "file", kind: anElement, tag: "SPDXID", tv: "FileName: f\nSPDXID: %s\n",
		path: []string{"files", "#", "SPDXID"}, doc: func(s string) obj { return obj{"files": lst(obj{"SPDXID": s, "fileName": "f"})} },
		get: func(d *v2_3.Document) any { return d.Files[0].FileSPDXIdentifier }},
	{name: "file of a package", kind: anElement, tag: "SPDXID", tv: "PackageName: p\nSPDXID: SPDXRef-p\nPackageDownloadLocation: NONE\nFileName: f\nSPDXID: %s\n",
		get: func(d *v2_3.Document) any { return d.Packages[0].Files[0].FileSPDXIdentifier }},
	{name: "snippet", kind: anElement, tag: "SnippetSPDXID", tv: "FileName: f\nSPDXID: SPDXRef-f\nSnippetSPDXID: %s\nSnippetFromFileSPDXID: SPDXRef-f\nSnippetByteRange: 1:2\n",
		path: []string{"snippets", "#", "SPDXID"}, doc: func(s string) obj { return obj{"snippets": lst(jSnip(s, "SPDXRef-f", "SPDXRef-f"))} },
		get: func(d *v2_3.Document) any {
			for _, s := range d.Snippets {
				return s.SnippetSPDXIdentifier
			}
			for k, s := range d.Files[0].Snippets {
				if k != s.SnippetSPDXIdentifier {
					return "kept as " + string(k)
				}
				return k
			}
			return nil
		}},
	{name: "file of a snippet", kind: anElement, tag: "SnippetFromFileSPDXID", tv: "FileName: f\nSPDXID: SPDXRef-f\nSnippetSPDXID: SPDXRef-s\nSnippetFromFileSPDXID: %s\nSnippetByteRange: 1:2\n",
		path: []string{"snippets", "#", "snippetFromFile"}, doc: func(s string) obj { return obj{"snippets": lst(jSnip("SPDXRef-s", s, "SPDXRef-f"))} },
		get: func(d *v2_3.Document) any {
			for _, s := range d.Snippets {
				return s.SnippetFromFileSPDXIdentifier
			}
			return d.Files[0].Snippets["s"].SnippetFromFileSPDXIdentifier
		}},
	{name: "file of a range", kind: anElement, path: []string{"snippets", "#", "ranges", "#", "startPointer", "reference"},
		doc: func(s string) obj { return obj{"snippets": lst(jSnip("SPDXRef-s", "SPDXRef-f", s))} },
		get: func(d *v2_3.Document) any { return d.Snippets[0].Ranges[0].StartPointer.FileSPDXIdentifier }},

	{name: "external document", kind: aDocument, tag: "ExternalDocumentRef", line: "%s https://example.com/e ",
		tv: tvNoCreator + "ExternalDocumentRef: %s https://example.com/e SHA1: 00\nCreator: Tool: t\nCreated: 2020-01-01T00:00:00Z\n", head: true,
		path: []string{"externalDocumentRefs", "#", "externalDocumentId"},
		doc: func(s string) obj {
			return obj{"externalDocumentRefs": lst(obj{"externalDocumentId": s, "spdxDocument": "https://example.com/e", "checksum": obj{"algorithm": "SHA1", "checksumValue": "00"}})}
		},
		get: func(d *v2_3.Document) any { return d.ExternalDocumentReferences[0].DocumentRefID }},

	{name: "element", kind: aDocElement, tag: "Relationship", line: "%s CONTAINS SPDXRef-b", tv: "Relationship: %s CONTAINS SPDXRef-b\n",
		path: []string{"relationships", "#", "spdxElementId"}, doc: func(s string) obj { return obj{"relationships": lst(jRel(s, "SPDXRef-b"))} },
		get: func(d *v2_3.Document) any { return d.Relationships[0].RefA }},
	{name: "related element", kind: aDocElement, tag: "Relationship", line: "SPDXRef-a CONTAINS %s", tv: "Relationship: SPDXRef-a CONTAINS %s\n",
		path: []string{"relationships", "#", "relatedSpdxElement"}, doc: func(s string) obj { return obj{"relationships": lst(jRel("SPDXRef-a", s))} },
		get: func(d *v2_3.Document) any { return d.Relationships[0].RefB }},
	{name: "annotated element", kind: aDocElement, tag: "SPDXREF", tv: "Annotator: Person: x\n" + tvAnn + "SPDXREF: %s\nAnnotationComment: c\n",
		get: func(d *v2_3.Document) any { return d.Annotations[0].AnnotationSPDXIdentifier }},
	{name: "described element", kind: aDocElement, from: "2.2", doc: func(s string) obj { return obj{"documentDescribes": lst(s)} },
		get: func(d *v2_3.Document) any { return d.Relationships[0].RefB }},
	{name: "file that a package has", kind: aDocElement, from: "2.2", doc: func(s string) obj {
		p := jPkg("comment", "c")
		p["hasFiles"] = lst(s)
		return obj{"packages": lst(p)}
	},
		get: func(d *v2_3.Document) any { return d.Relationships[0].RefB }},
}

// actorString: a string that is an actor, or nearly one, and what it means:
// "yes", "no", or "" where the forms do not settle it.
func (g *G) actorString(source bool) (s, typ, name, verdict string) {
	typ = pick(g, "Person", "Organization", "Tool")
	if source && typ == "Tool" {
		typ = "Person"
	}
	name = g.line()
	switch g.upto(9) {
	case 0, 1: // no colon
		s = pick(g, "NOASSERTION Inc.", "NONE", "noassertion", "NoAssertion", "Person", "Organization", "Tool", "NOASSERTIONS", "NOASSERTION NOASSERTION",
			"NO ASSERTION", "Person Jane", "Jane Doe", "anonymous", "", strings.ReplaceAll(name, ":", ""))
		if s == "NOASSERTION" {
			s = "x"
		}
		return s, "", "", "no"
	case 2:
		if source {
			return "NOASSERTION", "", "NOASSERTION", "yes"
		}
		return "NOASSERTION", "", "", "no"
	case 3:
		name = pick(g, "NOASSERTION", "NONE", "Person: Jane", "a:b", "a: b", "Tool:", ": x", ":", "https://example.com:80/", "Jane Doe (jane@example.com)", "()", "NOASSERTION Inc.", "noassertion", "NoAssertion", "none", "Noassertion", "NOASSERTION.")
	}
	if !source && name == "" {
		name = "x"
	}
	return typ + pick(g, ": ", ": ", ":", ":  ", ":\t") + name, typ, name, "yes"
}

func hasSpace(s string) bool { return strings.ContainsAny(s, " \t\n\r\v\f\u0085\u00a0") }

func inPlaces(t *rapid.T, c *Ctx) {
	format := pick(g0(t), "tv", "json", "yaml")
	ver := pick(g0(t), versions...)
	g := &G{t: t, fmt: "json", ver: ver}
	if format == "tv" {
		g.fmt = "tv"
	}
	var cand []place
	for _, p := range places {
		if p.from <= ver && (format == "tv" && p.tv != "" || format != "tv" && p.doc != nil) {
			cand = append(cand, p)
		}
	}
	p := pick(g, cand...)
	var s, verdict string
	var want any
	form := "" // how it is encoded
	switch p.kind {
	case anActor, aSource:
		var typ, name string
		s, typ, name, verdict = g.actorString(p.kind == aSource)
		form = typ + ": " + name
		if p.kind == aSource && name == "NOASSERTION" {
			form = ""
			if typ == "" {
				form = name
			}
		}
		switch p.name {
		case "supplier":
			want = common.Supplier{SupplierType: typ, Supplier: name}
		case "originator":
			want = common.Originator{OriginatorType: typ, Originator: name}
		case "creator", "reviewer":
			want = common.Creator{CreatorType: typ, Creator: name}
		default:
			want = common.Annotator{AnnotatorType: typ, Annotator: name}
		}
	default:
		s = g.idString()
		form = s
		e, v := refDocElement(s)
		verdict = v
		switch p.kind {
		case anElement:
			id, ok := cut(s, "SPDXRef-")
			want = common.ElementID(id)
			switch {
			case v == "yes" && ok:
			case strings.HasPrefix(s, "DocumentRef-") && p.tag == "SnippetFromFileSPDXID":
				verdict = ""
			case !ok:
				verdict = "no"
			}
		case aDocument:
			id, ok := cut(s, "DocumentRef-")
			want = common.DocumentID(id)
			switch {
			case !ok:
				verdict = "no"
			case strings.Contains(id, ":"):
				verdict = ""
			default:
				verdict = "yes"
			}
		case aDocElement:
			want = e
			if e.SpecialID != "" && (p.tag == "SPDXREF" || p.name == "element" && format == "tv" || p.name == "described element" || p.name == "file that a package has" || ver == "2.1" && format == "tv") {
				verdict = ""
			}
		}
		if verdict == "yes" && (strings.HasPrefix(s, "SPDXRef-SPDXRef-") || strings.Contains(s, "DocumentRef-DocumentRef-") || strings.Contains(s, ":SPDXRef-SPDXRef-")) {
			form = "" // its encoding is not settled
		}
	}
	if format == "tv" && (s == "" || strings.TrimSpace(s) != s || p.kind > aSource && hasSpace(s)) {
		s, verdict = "x", "no"
	}
	text := ""
	if format == "tv" {
		text = strings.ReplaceAll(p.tv, "%s", s)
		if !p.head {
			text = tvHead + text
		}
		text = strings.ReplaceAll(text, "SPDX-VER", "SPDX-"+ver)
	} else {
		o := jHead(ver)
		for k, v := range p.doc(s) {
			o[k] = v
		}
		if format == "yaml" {
			text = g.yamlText(o)
		} else {
			text = g.jsonText(o)
		}
	}
	c.Log("%s, version %s, %s: %q", format, ver, p.name, s)
	c.Log("text:\n%s", text)
	c.Class(format + " " + p.name)
	doc := emptyDoc(ver)
	err := readInto(format, text, doc)
	if verdict == "" {
		return
	}
	c.Nontrivial(ver + text)
	if verdict == "no" {
		if err == nil {
			t.Fatalf("%s %q is accepted in %s", p.name, s, format)
		}
		return
	}
	if err != nil {
		t.Fatalf("%s %q: %v", p.name, s, err)
	}
	view := &v2_3.Document{}
	project(doc, view)
	if got := p.get(view); got != want {
		t.Fatalf("%s %q: got %+v, want %+v", p.name, s, got, want)
	}
	// and in every format that has a place for it
	if form == "" {
		return
	}
	for _, to := range []string{"tv", "json", "yaml"} {
		if to == "tv" && (p.tv == "" || hasSpace(form) && p.kind > aSource || p.name == "snippet" && format != "tv" || p.name == "file of a snippet" && format != "tv") {
			continue
		}
		if to != "tv" && (p.path == nil || format == "tv" && strings.Contains(p.name, "snippet")) {
			continue
		}
		if to == "tv" && (oneLine(form) != form || format != "tv") {
			continue
		}
		out, err := writeString(to, doc)
		if err != nil {
			t.Fatalf("writing %s %q as %s: %v", p.name, s, to, err)
		}
		if to == "tv" {
			line := p.tag + ": "
			if p.line != "" {
				line += strings.ReplaceAll(p.line, "%s", form)
			} else {
				line += form
			}
			if !strings.HasSuffix(line, " ") {
				line += "\n"
			}
			if !strings.Contains("\n"+out, "\n"+line) {
				t.Fatalf("%s %q: no line %q in\n%s", p.name, s, line, out)
			}
			continue
		}
		if to == "json" {
			var v any
			if err := stdjson.Unmarshal([]byte(out), &v); err != nil {
				t.Fatalf("written JSON cannot be read: %v", err)
			}
			for _, k := range p.path {
				switch x := v.(type) {
				case map[string]any:
					v = x[k]
				case []any:
					if k != "#" || len(x) == 0 {
						v = nil
						break
					}
					v = x[0]
				}
			}
			if v != form {
				t.Fatalf("%s %q is written as %q in JSON", p.name, s, v)
			}
			continue
		}
		again := emptyDoc(ver)
		if err := readInto(to, out, again); err != nil {
			t.Fatalf("reading %s %q as %s: %v", p.name, s, to, err)
		}
		v2 := &v2_3.Document{}
		project(again, v2)
		if w := p.get(view); p.name != "annotated element" && p.get(v2) != w {
			t.Fatalf("%s %q is read back as %+v", p.name, s, p.get(v2))
		}
	}
}
