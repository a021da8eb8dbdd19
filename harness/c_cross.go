package main

import (
	"bytes"
	"fmt"
	"io"
	"strings"

	"github.com/spdx/tools-golang/convert"
	"github.com/spdx/tools-golang/json"
	"github.com/spdx/tools-golang/rdf"
	"github.com/spdx/tools-golang/spdx"
	"github.com/spdx/tools-golang/spdx/v2/v2_1"
	"github.com/spdx/tools-golang/spdx/v2/v2_2"
	"github.com/spdx/tools-golang/spdx/v2/v2_3"
	"github.com/spdx/tools-golang/tagvalue"
	"github.com/spdx/tools-golang/yaml"
	"pgregory.net/rapid"
)

func readInto(format, text string, doc any) error {
	switch format {
	case "json":
		return json.ReadInto(strings.NewReader(text), doc)
	case "yaml":
		return yaml.ReadInto(strings.NewReader(text), doc)
	case "tv":
		return tagvalue.ReadInto(strings.NewReader(text), doc)
	}
	return rdf.ReadInto(strings.NewReader(text), doc)
}

func readLatest(format, text string) (*spdx.Document, error) {
	switch format {
	case "json":
		return json.Read(strings.NewReader(text))
	case "yaml":
		return yaml.Read(strings.NewReader(text))
	case "tv":
		return tagvalue.Read(strings.NewReader(text))
	}
	return rdf.Read(strings.NewReader(text))
}

func write(format string, doc any, w io.Writer) error {
	switch format {
	case "json":
		return json.Write(doc, w)
	case "yaml":
		return yaml.Write(doc, w)
	}
	return tagvalue.Write(doc, w)
}

func writeString(format string, doc any) (string, error) {
	var b bytes.Buffer
	err := write(format, doc, &b)
	return b.String(), err
}

// deref is the document itself rather than a pointer to it.
func deref(doc any) any {
	switch d := doc.(type) {
	case *v2_1.Document:
		return *d
	case *v2_2.Document:
		return *d
	case *v2_3.Document:
		return *d
	}
	return doc
}

// asVersion is the document d of version ver as a document of version to.
func asVersion(ver string, d *v2_3.Document, to string) any {
	src := as(ver, d)
	mid := &v2_3.Document{}
	project(src, mid)
	for _, p := range mid.Packages {
		if c := p.PackageVerificationCode; c != nil && c.Value == "" && len(c.ExcludedFiles) == 0 && ver != to {
			p.PackageVerificationCode = nil
		}
	}
	mid.SPDXVersion = "SPDX-" + to
	// what a version in between has no place for is lost on the way
	if ver == "2.3" && to == "2.1" {
		v22 := &v2_2.Document{}
		project(mid, v22)
		out := &v2_1.Document{}
		project(v22, out)
		return out
	}
	return as(to, mid)
}

// refText is a document spelled by the reference renderers.
func (g *G) refText(format, ver string, d *v2_3.Document) string {
	switch format {
	case "tv":
		return g.tvUnits(ver, d).String()
	case "yaml":
		return g.yamlText(refDocument(ver, d))
	}
	return g.jsonText(refDocument(ver, d))
}

// agreement: a document spelled in any format is read as the same document,
// and what is read from one is written alike.
func agreement(ver string) func(t *rapid.T, c *Ctx) {
	return func(t *rapid.T, c *Ctx) {
		g := &G{t: t, fmt: "common", ver: ver}
		d := g.doc23()
		if g.oneIn(2) {
			d.Annotations = nil // JSON and YAML have no place for what a document's annotation is about
		}
		drop := map[string]bool{"Document.Reviews": true}
		for _, m := range []map[string]bool{notInJSON, notInTV} {
			for k := range m {
				drop[k] = true
			}
		}
		want := Tree(as(ver, d), drop)
		wantTV := Tree(tvOrder(d, ver), drop)
		docs := map[string]any{}
		for _, f := range []string{"tv", "json", "yaml"} {
			text := g.refText(f, ver, d)
			c.Log("%s:\n%s", f, text)
			docs[f] = emptyDoc(ver)
			if err := readInto(f, text, docs[f]); err != nil {
				t.Fatalf("reading %s failed: %v", f, err)
			}
			if df := Diff(want, Tree(docs[f], drop)); df != "" {
				t.Fatalf("read from %s differs %s", f, df)
			}
		}
		// each of them written in each format and read again
		from, to := pick(g, "tv", "json", "yaml"), pick(g, "tv", "json", "yaml")
		if from != "tv" && to == "tv" && len(d.Annotations) > 0 {
			to = "json"
		}
		out, err := writeString(to, docs[from])
		if err != nil {
			t.Fatalf("writing as %s what was read from %s failed: %v", to, from, err)
		}
		c.Log("from %s to %s:\n%s", from, to, out)
		again := emptyDoc(ver)
		if err := readInto(to, out, again); err != nil {
			t.Fatalf("reading %s made from %s failed: %v", to, from, err)
		}
		w := want
		if to == "tv" {
			w = wantTV
		}
		if df := Diff(w, Tree(again, drop)); df != "" {
			t.Fatalf("%s made from %s differs %s", to, from, df)
		}
		c.Class(from + " to " + to)
		if s := ShowFull(want); len(s) > 800 {
			c.Nontrivial(s)
		}
	}
}

// dispatch: the version a document states decides how it is read, into
// whichever version is asked for.
func dispatch(format string) func(t *rapid.T, c *Ctx) {
	return func(t *rapid.T, c *Ctx) {
		ver := pick(g0(t), versions...)
		g := &G{t: t, fmt: format, ver: ver}
		if format == "yaml" {
			g.fmt = "json"
		}
		d := g.doc23()
		if format == "tv" {
			for _, p := range d.Packages {
				if !p.FilesAnalyzed {
					p.IsFilesAnalyzedTagPresent = true
				}
			}
		}
		drop := notInJSON
		if format == "tv" {
			drop = notInTV
		}
		bad := g.oneIn(5)
		if bad {
			d.SPDXVersion = pick(g, "SPDX-2.0", "SPDX-1.2", "SPDX-3.0", "2.3", "", "SPDX-2.3.1", "spdx-2.3", "SPDX-2.", "SPDX-2.10", "SPDX 2.3", "SPDX-2.4", "SPDX-22", "SPDX",
				"SPDX-02.3", "SPDX-2.30", "SPDX-2,3", "Spdx-2.2", "SPDX-2.0.1", "xSPDX-2.1", "SPDX-2.2-rc1", "SPDX-v2.3", "SPDX--2.3", "SPDX_2.3", "SPDX-2..3", "2.2", "SPDX2.2",
				"SPDX-2.1.0", "SPDX-2.1.1", "SPDX-2.2.0", "SPDX-2.2.1", "SPDX-2.2.2", "SPDX-2.3.0", "SPDX-2", "SPDX-3", "SPDX-3.0.1", "SPDX-1.1")
			if format != "tv" && g.oneIn(3) {
				d.SPDXVersion = pick(g, " ", "\t", "\n", "\"", "") + pick(g, "SPDX-2.1", "SPDX-2.2", "SPDX-2.3") + pick(g, " ", "\n", "\x00", "\"")
			}
		}
		text := ""
		if bad && format != "tv" && g.oneIn(4) {
			// a version that is no string
			ref := refDocument(ver, d)
			ref["spdxVersion"] = pick[any](g, num("2.3"), num("2.2"), num("2.1"), num("2"), nil, true, []any{}, []any{"SPDX-" + ver}, obj{}, obj{"SPDX-" + ver: "SPDX-" + ver})
			if format == "yaml" {
				text = g.yamlText(ref)
			} else {
				text = g.jsonText(ref)
			}
		} else {
			text = g.refText(format, ver, d)
		}
		if format == "tv" {
			d = splitRanges(d)
		}
		c.Log("%s text:\n%s", format, text)
		to := pick(g, versions...)
		target := emptyDoc(to)
		if g.oneIn(2) {
			// something is in the target already
			old := &G{t: t, fmt: "common", ver: to}
			target = as(to, old.doc23())
		}
		before := ShowFull(Tree(target, nil))
		err := readInto(format, text, target)
		if bad {
			if err == nil {
				t.Fatalf("a document of version %q was read", d.SPDXVersion)
			}
			if after := ShowFull(Tree(target, nil)); after != before {
				t.Fatalf("not read, but the target is changed to %s", after)
			}
			if _, err := readLatest(format, text); err == nil {
				t.Fatalf("Read gave no error for version %q", d.SPDXVersion)
			}
			c.Class("unsupported")
			c.Nontrivial(text)
			return
		}
		if err != nil {
			t.Fatalf("reading version %s into %s failed: %v", ver, to, err)
		}
		if df := Diff(Tree(asVersion(ver, d, to), drop), Tree(target, drop)); df != "" {
			t.Fatalf("version %s read into %s differs %s", ver, to, df)
		}
		latest, err := readLatest(format, text)
		if err != nil {
			t.Fatalf("Read failed: %v", err)
		}
		if df := Diff(Tree(asVersion(ver, d, "2.3"), drop), Tree(latest, drop)); df != "" {
			t.Fatalf("version %s from Read differs %s", ver, df)
		}
		if g.oneIn(4) {
			var no any
			what := pick(g, "a document that is no pointer", "nil", "a string", "a pointer to a string", "a pointer to a package", "a map", "a pointer to an empty struct", "a nil pointer", "a pointer to a pointer")
			switch what {
			case "a document that is no pointer":
				no = deref(emptyDoc(to))
			case "a string":
				no = "SPDX-2.3"
			case "a pointer to a string":
				no = new(string)
			case "a pointer to a package":
				no = &v2_3.Package{}
			case "a nil pointer":
				no = pick[any](g, (*v2_1.Document)(nil), (*v2_2.Document)(nil), (*v2_3.Document)(nil))
			case "a pointer to a pointer":
				x := &v2_3.Document{}
				no = &x
			case "a map":
				no = map[string]any{}
			case "a pointer to an empty struct":
				no = &struct{}{}
			}
			if err := readInto(format, text, no); err == nil {
				t.Fatalf("reading into %s gave no error", what)
			}
		}
		c.Class(ver + " into " + to)
		if len(text) > 500 {
			c.Nontrivial(text)
		}
	}
}

func g0(t *rapid.T) *G { return &G{t: t} }

// conversion: converting keeps everything the target version has a place for.
func conversion(from, to string) func(t *rapid.T, c *Ctx) {
	return func(t *rapid.T, c *Ctx) {
		format := pick(g0(t), "json", "tv")
		g := &G{t: t, fmt: format, ver: from, conv: true}
		d := g.doc23()
		if from != to && g.oneIn(4) {
			d.SPDXVersion = pick(g, "", "SPDX-2.3", "SPDX-2.2", "SPDX-2.1", "SPDX-2.0", "x")
		}
		src := as(from, d)
		before := ShowFull(Tree(src, nil))
		c.Log("document: %s", before)
		target := emptyDoc(to)
		if g.oneIn(3) {
			old := &G{t: t, fmt: "common", ver: to}
			target = as(to, old.doc23())
		}
		var given any = src
		if g.oneIn(2) {
			given = deref(src)
		}
		if err := convert.Document(given, target); err != nil {
			t.Fatalf("converting failed: %v", err)
		}
		want := Tree(asVersion(from, d, to), nil)
		if df := Diff(want, Tree(target, nil)); df != "" {
			t.Fatalf("converted from %s to %s differs %s", from, to, df)
		}
		if after := ShowFull(Tree(src, nil)); after != before {
			t.Fatalf("converting changed the source to %s", after)
		}
		if from < to {
			// and back again: nothing is lost
			back := emptyDoc(from)
			if err := convert.Document(target, back); err != nil {
				t.Fatalf("converting back failed: %v", err)
			}
			if df := Diff(Tree(asVersion(from, d, from), nil), Tree(back, nil)); df != "" {
				t.Fatalf("converted from %s to %s and back differs %s", from, to, df)
			}
		}
		if g.oneIn(4) {
			if err := convert.Document(given, deref(emptyDoc(to))); err == nil {
				t.Fatalf("converting into a document that is no pointer gave no error")
			}
			if err := convert.Document(given, nil); err == nil {
				t.Fatalf("converting into nil gave no error")
			}
			if err := convert.Document(nil, emptyDoc(to)); err == nil {
				t.Fatalf("converting nil gave no error")
			}
		}
		if len(before) > 800 {
			c.Nontrivial(before)
		}
	}
}

func conversionSubs(rule string) []Sub {
	var out []Sub
	for _, a := range versions {
		for _, b := range versions {
			out = append(out, Sub{Name: a + "-to-" + b, Rule: rule, Quick: 1600, Deep: 20000, Prop: conversion(a, b)})
		}
	}
	return out
}

var _ = fmt.Sprint
