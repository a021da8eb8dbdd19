package main

import (
	"bytes"
	stdjson "encoding/json"
	"fmt"
	"strings"

	"github.com/spdx/tools-golang/json"
	"github.com/spdx/tools-golang/tagvalue"
	"github.com/spdx/tools-golang/yaml"
	"pgregory.net/rapid"
	sigsyaml "sigs.k8s.io/yaml"
)

var versions = []string{"2.1", "2.2", "2.3"}

// what JSON and YAML have no place for
var notInJSON = drops("Document.Reviews", "File.Snippets", "Annotation.AnnotationSPDXIdentifier", "Snippet.SnippetAttributionTexts",
	"Package.IsUnpackaged", "Package.IsFilesAnalyzedTagPresent")

func docSize(d any) int { return len(ShowFull(Tree(d, nil))) }

func jsonRoundTrip(ver string) func(t *rapid.T, c *Ctx) {
	return func(t *rapid.T, c *Ctx) {
		g := &G{t: t, fmt: "json", ver: ver}
		d23 := g.doc23()
		d := as(ver, d23)
		var opts []json.WriteOption
		indent, escape := "", "default"
		if g.oneIn(3) {
			indent = pick(g, "", " ", "\t", "    ")
			opts = append(opts, json.Indent(indent))
		}
		if g.oneIn(2) {
			on := g.oneIn(2)
			escape = fmt.Sprint(on)
			opts = append(opts, json.EscapeHTML(on))
		}
		opts = shuffled(g, opts)
		if len(opts) > 0 && g.oneIn(6) {
			// options that later ones take back
			var early []json.WriteOption
			if len(opts) == 2 || escape == "default" {
				early = append(early, json.Indent(pick(g, "  ", "\t\t", "")))
			}
			if escape != "default" {
				early = append(early, json.EscapeHTML(escape == "false"))
			}
			opts = append(early, opts...)
		}
		want := Tree(d, notInJSON)
		before := ShowFull(Tree(d, nil))
		c.Log("document: %s", ShowFull(want))
		var buf bytes.Buffer
		if err := json.Write(d, &buf, opts...); err != nil {
			t.Fatalf("writing failed: %v", err)
		}
		c.Log("written: %s", buf.String())
		got := emptyDoc(ver)
		g.disturb("json", ver, buf.String())
		if err := json.ReadInto(bytes.NewReader(buf.Bytes()), got); err != nil {
			t.Fatalf("reading back failed: %v", err)
		}
		if df := Diff(want, Tree(got, notInJSON)); df != "" {
			t.Fatalf("read back differs %s", df)
		}
		if after := ShowFull(Tree(d, nil)); after != before {
			t.Fatalf("writing changed the document to %s", after)
		}
		// what the options are for
		var spaced bytes.Buffer
		if indent == "" {
			mustDo(stdjson.Compact(&spaced, buf.Bytes()))
		} else {
			mustDo(stdjson.Indent(&spaced, buf.Bytes(), "", indent))
		}
		if strings.TrimRight(spaced.String(), "\n") != strings.TrimRight(buf.String(), "\n") {
			t.Fatalf("not indented by %q", indent)
		}
		if escape == "true" && bytes.ContainsAny(buf.Bytes(), "<>&") {
			t.Fatalf("HTML is not escaped")
		}
		if escape == "false" && strings.ContainsAny(d23.DocumentName+d23.DocumentComment, "<>&") && !bytes.ContainsAny(buf.Bytes(), "<>&") {
			t.Fatalf("HTML is escaped")
		}
		if s := ShowFull(want); len(s) > 800 {
			c.Nontrivial(s)
		}
	}
}

func yamlRoundTrip(ver string) func(t *rapid.T, c *Ctx) {
	return func(t *rapid.T, c *Ctx) {
		g := &G{t: t, fmt: "yaml", ver: ver}
		d23 := g.doc23()
		d := as(ver, d23)
		want := Tree(d, notInJSON)
		c.Log("document: %s", ShowFull(want))
		var buf bytes.Buffer
		if err := yaml.Write(d, &buf); err != nil {
			t.Fatalf("writing failed: %v", err)
		}
		c.Log("written: %s", buf.String())
		if b, err := sigsyaml.YAMLToJSON(buf.Bytes()); err != nil {
			t.Fatalf("not YAML: %v", err)
		} else if v, err := decodeJSON(b); err != nil {
			t.Fatalf("not JSON: %v", err)
		} else if df := writtenAs(ver, refDocument(ver, d23), v); df != "" {
			t.Fatalf("written YAML %s", df)
		}
		got := emptyDoc(ver)
		g.disturb("yaml", ver, buf.String())
		if err := yaml.ReadInto(bytes.NewReader(buf.Bytes()), got); err != nil {
			t.Fatalf("reading back failed: %v", err)
		}
		if df := Diff(want, Tree(got, notInJSON)); df != "" {
			t.Fatalf("read back differs %s", df)
		}
		if s := ShowFull(want); len(s) > 800 {
			c.Nontrivial(s)
		}
	}
}

// yamlReading: any YAML spelling of a document is read as that document.
func yamlReading(ver string) func(t *rapid.T, c *Ctx) {
	return func(t *rapid.T, c *Ctx) {
		g := &G{t: t, fmt: "json", ver: ver}
		d23 := g.doc23()
		text := g.yamlText(g.emptyLists(refDocument(ver, d23)))
		c.Log("YAML text:\n%s", text)
		got := emptyDoc(ver)
		g.disturb("yaml", ver, text)
		if err := yaml.ReadInto(strings.NewReader(text), got); err != nil {
			t.Fatalf("reading failed: %v", err)
		}
		want := Tree(as(ver, d23), notInJSON)
		if df := Diff(want, Tree(got, notInJSON)); df != "" {
			t.Fatalf("document read differs %s", df)
		}
		if len(text) > 800 {
			c.Nontrivial(text)
		}
	}
}

var notInTV = drops("Document.Snippets", "Package.Annotations", "File.Annotations", "Package.IsUnpackaged",
	"SnippetRangePointer.FileSPDXIdentifier")

func tvRoundTrip(ver string) func(t *rapid.T, c *Ctx) {
	return func(t *rapid.T, c *Ctx) {
		g := &G{t: t, fmt: "tv", ver: ver}
		d23 := g.doc23()
		d := as(ver, d23)
		c.Log("document: %s", ShowFull(Tree(d, notInTV)))
		var buf bytes.Buffer
		if err := tagvalue.Write(d, &buf); err != nil {
			t.Fatalf("writing failed: %v", err)
		}
		c.Log("written:\n%s", buf.String())
		want := Tree(tvOrder(d23, ver), notInTV)
		got := emptyDoc(ver)
		g.disturb("tv", ver, buf.String())
		if err := tagvalue.ReadInto(bytes.NewReader(buf.Bytes()), got); err != nil {
			t.Fatalf("reading back failed: %v", err)
		}
		if df := Diff(want, Tree(got, notInTV)); df != "" {
			t.Fatalf("read back differs %s", df)
		}
		var buf2 bytes.Buffer
		if err := tagvalue.Write(got, &buf2); err != nil {
			t.Fatalf("writing again failed: %v", err)
		}
		if !bytes.Equal(buf.Bytes(), buf2.Bytes()) {
			t.Fatalf("writing what was read gives other bytes:\n%s", buf2.String())
		}
		if s := buf.String(); len(s) > 500 {
			c.Nontrivial(s)
		}
	}
}

var checks = []Check{
	{ID: "C01", Subs: append(subsPerVersion("json", "x", 3000, 30000, jsonRoundTrip), Sub{Name: "huge", Quick: 4, Deep: 60, Prop: huge("json")})},
	{ID: "C02", Subs: subsPerVersion("spelling", "x", 3000, 30000, jsonSpelling)},
	{ID: "C03", Subs: []Sub{
		{Name: "json-2.2", Quick: 3000, Deep: 30000, Prop: jsonShorthands("2.2", "json")},
		{Name: "json-2.3", Quick: 3000, Deep: 30000, Prop: jsonShorthands("2.3", "json")},
		{Name: "yaml-2.2", Quick: 1200, Deep: 15000, Prop: jsonShorthands("2.2", "yaml")},
		{Name: "yaml-2.3", Quick: 1200, Deep: 15000, Prop: jsonShorthands("2.3", "yaml")},
	}},
	{ID: "C04", Subs: append(subsPerVersion("yaml", "x", 3000, 30000, yamlRoundTrip), append(subsPerVersion("read", "x", 1500, 20000, yamlReading), Sub{Name: "huge", Quick: 2, Deep: 30, Prop: huge("yaml")})...)},
	{ID: "C05", Subs: append(subsPerVersion("tv", "x", 3000, 30000, tvRoundTrip), Sub{Name: "huge", Quick: 4, Deep: 60, Prop: huge("tv")})},
	{ID: "C06", Subs: subsPerVersion("read", "x", 3000, 30000, tvReading)},
	{ID: "C07", Subs: subsPerVersion("malformed", "x", 3000, 30000, tvMalformed)},
	{ID: "C08", Subs: []Sub{{Name: "pairs", Rule: "x", Quick: 8000, Deep: 120000, Prop: lexer}}},
	{ID: "C25", Subs: []Sub{
		{Name: "described", Rule: "x", Quick: 12000, Deep: 200000, Prop: described},
		{Name: "filter-sort", Rule: "x", Quick: 4000, Deep: 40000, Prop: filterSort},
	}},
	{ID: "C26", Subs: []Sub{{Name: "validate", Rule: "x", Quick: 12000, Deep: 200000, Prop: validate}}},
	{ID: "C09", Subs: subsPerVersion("formats", "x", 1500, 20000, agreement)},
	{ID: "C10", Subs: []Sub{
		{Name: "json", Rule: "x", Quick: 2000, Deep: 30000, Prop: dispatch("json")},
		{Name: "yaml", Rule: "x", Quick: 2000, Deep: 30000, Prop: dispatch("yaml")},
		{Name: "tag-value", Rule: "x", Quick: 2000, Deep: 30000, Prop: dispatch("tv")},
		{Name: "rdf", Rule: "x", Quick: 2000, Deep: 20000, Prop: rdfDispatch},
	}},
	{ID: "C11", Subs: conversionSubs("x")},
	{ID: "C12", Subs: []Sub{
		{Name: "identifiers", Rule: "x", Quick: 20000, Deep: 400000, Prop: identifiers},
		{Name: "actors", Rule: "x", Quick: 8000, Deep: 100000, Prop: actors},
		{Name: "places", Quick: 20000, Deep: 300000, Prop: inPlaces},
	}},
	{ID: "C16", Subs: []Sub{
		{Name: "json", Rule: "x", Quick: 4000, Deep: 60000, Prop: badJSON("json")},
		{Name: "yaml", Rule: "x", Quick: 4000, Deep: 60000, Prop: badJSON("yaml")},
	}},
	{ID: "C19", Subs: []Sub{{Name: "code", Quick: 12000, Deep: 200000, Prop: verification}}},
	{ID: "C20", Subs: []Sub{{Name: "build", Quick: 5000, Deep: 40000, Prop: build}}},
	{ID: "C21", Subs: []Sub{
		{Name: "walk", Quick: 4000, Deep: 50000, Prop: walkPaths},
		{Name: "ignore", Quick: 30000, Deep: 400000, Prop: ignoreRule},
	}},
	{ID: "C22", Subs: []Sub{{Name: "search", Quick: 8000, Deep: 50000, Prop: search}}},
	{ID: "C23", Subs: []Sub{{Name: "diff", Quick: 10000, Deep: 200000, Prop: licenseDiff}}},
	{ID: "C24", Subs: []Sub{{Name: "report", Quick: 10000, Deep: 200000, Prop: report}}},
	{ID: "C17", Race: true, Subs: []Sub{
		{Name: "same-bytes", Quick: 2000, Deep: 30000, Prop: writerPurity},
		{Name: "not-documents", Quick: 100, Deep: 200, Single: true, Prop: notDocuments},
		{Name: "concurrent", Quick: 800, Deep: 10000, Prop: concurrent},
		{Name: "together", Quick: 600, Deep: 10000, Prop: hotStart},
		{Name: "history", Quick: 600, Deep: 10000, Prop: history},
		{Name: "first-of-all", Quick: 400, Deep: 8000, Prop: coldStart},
	}},
	{ID: "C18", Subs: []Sub{
		{Name: "read", Quick: 4000, Deep: 60000, Prop: readFault},
		{Name: "write", Quick: 4000, Deep: 60000, Prop: writeFault},
	}},
	{ID: "C14", Subs: append(subsPerVersion2("read", "", 1500, 15000, rdfReading(0)), subsPerVersion2("malformed", "", 1500, 15000, rdfMalformed)...)},
	{ID: "C15", Subs: append(subsPerVersion2("expressions", "", 1500, 15000, rdfReading(3)), subsPerVersion2("or-later", "", 500, 5000, rdfOrLater)...)},
	{ID: "C13", Subs: []Sub{
		{Name: "json", Quick: 6000, Deep: 200000, Prop: robust("json")},
		{Name: "yaml", Quick: 3000, Deep: 100000, Prop: robust("yaml")},
		{Name: "tv", Quick: 6000, Deep: 200000, Prop: robust("tv")},
		{Name: "rdf", Quick: 3000, Deep: 100000, Prop: robustRDF},
	}},
	{ID: "C28", Subs: append(subsPerVersion("written", "x", 2000, 30000, tvWritten), subsPerVersion("lacking", "x", 1000, 15000, tvLacking)...)},
	{ID: "C27", Subs: []Sub{{Name: "pipeline", Quick: 2000, Deep: 40000, Prop: pipeline}}},
}

func subsPerVersion(name, rule string, quick, deep int, f func(string) func(*rapid.T, *Ctx)) []Sub {
	var out []Sub
	for _, v := range versions {
		out = append(out, Sub{Name: fmt.Sprintf("%s-%s", name, v), Rule: rule, Quick: quick, Deep: deep, Prop: f(v)})
	}
	return out
}
