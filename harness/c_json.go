package main

import (
	"bytes"
	stdjson "encoding/json"
	"fmt"
	"strings"

	"github.com/spdx/tools-golang/json"
	"github.com/spdx/tools-golang/spdx/v2/common"
	"github.com/spdx/tools-golang/spdx/v2/v2_3"
	"github.com/spdx/tools-golang/yaml"
	"pgregory.net/rapid"
)

func decodeJSON(b []byte) (any, error) {
	dec := stdjson.NewDecoder(bytes.NewReader(b))
	dec.UseNumber()
	var v any
	if err := dec.Decode(&v); err != nil {
		return nil, err
	}
	var rest any
	if err := dec.Decode(&rest); err == nil {
		return nil, fmt.Errorf("more than one JSON value")
	}
	return v, nil
}

// dropFalse: version 2.1 leaves filesAnalyzed out when it is false.
func jsonSpelling(ver string) func(t *rapid.T, c *Ctx) {
	return func(t *rapid.T, c *Ctx) {
		g := &G{t: t, fmt: "json", ver: ver}
		d23 := g.doc23()
		d := as(ver, d23)
		ref := refDocument(ver, d23)
		c.Log("document: %s", ShowFull(Tree(d, notInJSON)))
		if g.oneIn(2) {
			var buf bytes.Buffer
			if err := json.Write(d, &buf); err != nil {
				t.Fatalf("writing failed: %v", err)
			}
			c.Log("written: %s", buf.String())
			got, err := decodeJSON(buf.Bytes())
			if err != nil {
				t.Fatalf("not JSON: %v", err)
			}
			if df := writtenAs(ver, ref, got); df != "" {
				t.Fatalf("written JSON %s", df)
			}
			c.Class("write")
		} else {
			text := g.jsonText(g.emptyLists(ref))
			c.Log("JSON text: %s", text)
			got := emptyDoc(ver)
			g.disturb("json", ver, text)
			if err := json.ReadInto(strings.NewReader(text), got); err != nil {
				t.Fatalf("reading failed: %v", err)
			}
			if df := Diff(Tree(d, notInJSON), Tree(got, notInJSON)); df != "" {
				t.Fatalf("document read differs %s", df)
			}
			c.Class("read")
		}
		if s := ShowFull(ref); len(s) > 800 {
			c.Nontrivial(s)
		}
	}
}

type relKey struct{ a, rel, b string }

func canonical(r *v2_3.Relationship) relKey {
	a, b := refDocID(r.RefA), refDocID(r.RefB)
	switch r.Relationship {
	case "CONTAINED_BY":
		return relKey{b, "CONTAINS", a}
	case "DESCRIBED_BY":
		return relKey{b, "DESCRIBES", a}
	}
	return relKey{a, r.Relationship, b}
}

// jsonShorthands: documentDescribes, hasFiles, a missing filesAnalyzed, null
// relationships, and either spelling of the reference category.
func jsonShorthands(ver, format string) func(t *rapid.T, c *Ctx) {
	return func(t *rapid.T, c *Ctx) {
		g := &G{t: t, fmt: "json", ver: ver}
		d := g.doc23()
		for len(d.Packages) == 0 || len(d.Packages) < 3 && g.oneIn(2) {
			d.Packages = append(d.Packages, g.pkg())
		}
		docRel := func() *v2_3.Relationship {
			// relationships that matter to the shorthands, in either direction
			x, y := common.DocElementID{ElementRefID: d.SPDXIdentifier}, g.docElementID(false)
			typ := "DESCRIBES"
			if g.oneIn(2) {
				x = common.DocElementID{ElementRefID: d.Packages[g.upto(len(d.Packages)-1)].PackageSPDXIdentifier}
				typ = "CONTAINS"
			}
			if g.oneIn(5) {
				typ = pick(g, "DESCRIBES", "CONTAINS", "OTHER", "DEPENDS_ON")
			}
			if g.oneIn(2) {
				switch typ {
				case "DESCRIBES":
					return &v2_3.Relationship{RefA: y, RefB: x, Relationship: "DESCRIBED_BY"}
				case "CONTAINS":
					return &v2_3.Relationship{RefA: y, RefB: x, Relationship: "CONTAINED_BY"}
				}
			}
			return &v2_3.Relationship{RefA: x, RefB: y, Relationship: typ}
		}
		for i := g.upto(4); i > 0; i-- {
			r := docRel()
			if g.oneIn(3) {
				r.RelationshipComment = g.text()
			}
			d.Relationships = append(d.Relationships, r)
		}
		ref := refDocument(ver, d)

		want := append([]*v2_3.Relationship{}, d.Relationships...)
		seen := map[relKey]bool{}
		for _, r := range want {
			seen[canonical(r)] = true
		}
		implied, skipped := 0, 0
		add := func(r *v2_3.Relationship) {
			k := canonical(r)
			if seen[k] {
				skipped++
				return
			}
			implied++
			seen[k] = true
			want = append(want, r)
		}
		target := func(from common.ElementID, typ string) common.DocElementID {
			// mostly something a relationship already says
			if g.oneIn(2) {
				var known []common.DocElementID
				for _, r := range d.Relationships {
					k := canonical(r)
					if k.rel == typ && k.a == refID(from) {
						if refDocID(r.RefA) == k.b {
							known = append(known, r.RefA)
						} else {
							known = append(known, r.RefB)
						}
					}
				}
				if len(known) > 0 {
					return known[g.upto(len(known)-1)]
				}
			}
			return g.docElementID(false)
		}
		if !g.oneIn(4) {
			var l []any
			for i := g.upto(4); i > 0; i-- {
				id := target(d.SPDXIdentifier, "DESCRIBES")
				l = append(l, refDocID(id))
				add(&v2_3.Relationship{RefA: common.DocElementID{ElementRefID: d.SPDXIdentifier}, RefB: id, Relationship: "DESCRIBES"})
			}
			ref["documentDescribes"] = l
			if l == nil {
				ref["documentDescribes"] = []any{}
			}
		}
		pk, _ := ref["packages"].([]any)
		for i, p := range d.Packages {
			po := pk[i].(obj)
			if g.oneIn(2) {
				var l []any
				for j := g.upto(4); j > 0; j-- {
					id := target(p.PackageSPDXIdentifier, "CONTAINS")
					l = append(l, refDocID(id))
					add(&v2_3.Relationship{RefA: common.DocElementID{ElementRefID: p.PackageSPDXIdentifier}, RefB: id, Relationship: "CONTAINS"})
				}
				if l != nil {
					po["hasFiles"] = l
				}
			}
			if g.oneIn(2) {
				delete(po, "filesAnalyzed")
				p.FilesAnalyzed = true
				p.IsFilesAnalyzedTagPresent = false
				c.Class("filesAnalyzed omitted")
			}
			for _, r := range p.PackageExternalReferences {
				_ = r
			}
			if ers, ok := po["externalRefs"].([]any); ok {
				for _, e := range ers {
					eo := e.(obj)
					cat := eo["referenceCategory"].(string)
					eo["referenceCategory"] = strings.ReplaceAll(strings.ReplaceAll(cat, "_", "-"), "-", pick(g, "-", "_"))
				}
			}
		}
		if g.oneIn(6) && len(pk) > 0 {
			// what stands for no package
			at := g.upto(len(pk))
			ref["packages"] = append(pk[:at:at], append([]any{nil}, pk[at:]...)...)
			d.Packages = append(d.Packages[:at:at], append([]*v2_3.Package{nil}, d.Packages[at:]...)...)
		}
		if g.oneIn(3) {
			rl, _ := ref["relationships"].([]any)
			for i := 1 + g.upto(2); i > 0; i-- {
				at := g.upto(len(rl))
				rl = append(rl[:at:at], append([]any{nil}, rl[at:]...)...)
			}
			ref["relationships"] = rl
			c.Class("null relationship")
		}
		d.Relationships = want
		text := ""
		if format == "yaml" {
			text = g.yamlText(ref)
		} else {
			text = g.jsonText(ref)
		}
		if implied > 0 {
			c.Class("implied")
		}
		if skipped > 0 {
			c.Class("already stated")
		}
		c.Log("text: %s", text)
		got := emptyDoc(ver)
		var err error
		if format == "yaml" {
			err = yaml.ReadInto(strings.NewReader(text), got)
		} else {
			err = json.ReadInto(strings.NewReader(text), got)
		}
		if err != nil {
			t.Fatalf("reading failed: %v", err)
		}
		drop := drops("Document.Reviews", "File.Snippets", "Annotation.AnnotationSPDXIdentifier", "Snippet.SnippetAttributionTexts", "Package.IsUnpackaged")
		if df := Diff(Tree(as(ver, d), drop), Tree(got, drop)); df != "" {
			t.Fatalf("document read differs %s", df)
		}
		if implied+skipped > 0 {
			c.Nontrivial(text)
		}
	}
}
