package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/spdx/tools-golang/json"
	"github.com/spdx/tools-golang/spdx/v2/common"
	"github.com/spdx/tools-golang/spdx/v2/v2_3"
	"github.com/spdx/tools-golang/tagvalue"
	"github.com/spdx/tools-golang/yaml"
	"pgregory.net/rapid"
)

// enlarge repeats what the document has, under other identifiers, until its
// texts come to about size bytes.
func (g *G) enlarge(d *v2_3.Document, size int) {
	file := *g.file()
	file.Snippets = nil
	file.Annotations = nil
	pkg := *g.pkg()
	pkg.Files = nil
	rel := *g.relationship()
	note := g.annotation()
	per := len(ShowFull(Tree(&file, nil))) + len(ShowFull(Tree(&pkg, nil))) + len(ShowFull(Tree(&rel, nil))) + len(ShowFull(Tree(&note, nil)))
	n := size/per + 1
	inPackage := g.oneIn(2) // all of the files in one package
	var all []*v2_3.File
	for i := 0; i < n; i++ {
		f, p, r, a := file, pkg, rel, note
		f.FileSPDXIdentifier = common.ElementID(fmt.Sprintf("many-file-%d", i))
		f.FileName = fmt.Sprintf("./many/%d", i)
		p.PackageSPDXIdentifier = common.ElementID(fmt.Sprintf("many-package-%d", i))
		p.PackageName = fmt.Sprintf("many %d", i)
		r.RefA = common.DocElementID{ElementRefID: p.PackageSPDXIdentifier}
		r.RefB = common.DocElementID{ElementRefID: f.FileSPDXIdentifier}
		a.AnnotationDate = fmt.Sprintf("2021-02-28T23:59:%06dZ", i)
		all = append(all, &f)
		d.Packages = append(d.Packages, &p)
		d.Relationships = append(d.Relationships, &r)
		d.Annotations = append(d.Annotations, &a)
	}
	if inPackage {
		d.Packages[0].Files = append(d.Packages[0].Files, all...)
	} else {
		d.Files = append(d.Files, all...)
	}
	if g.oneIn(2) {
		// and one text that is large by itself
		d.OtherLicenses = append(d.OtherLicenses, &v2_3.OtherLicense{
			LicenseIdentifier: "LicenseRef-long",
			ExtractedText:     "a" + strings.Repeat(pick(g, "b", "b c", "é"), size/2) + "d",
		})
	}
	if g.oneIn(2) {
		// the tag-value reader takes time quadratic in the lines of a text
		d.OtherLicenses = append(d.OtherLicenses, &v2_3.OtherLicense{
			LicenseIdentifier: "LicenseRef-lines",
			ExtractedText:     strings.Repeat(strings.Repeat(pick(g, "b", "b c ", "é"), 50)+"\n", 5000) + "d",
		})
	}
}

// huge: a document of megabytes is read back as what was written.
func huge(format string) func(t *rapid.T, c *Ctx) {
	return func(t *rapid.T, c *Ctx) {
		ver := rapid.SampledFrom(versions).Draw(t, "ver")
		g := &G{t: t, fmt: format, ver: ver}
		d23 := g.doc23()
		if format == "yaml" { // whose parser is slow
			g.enlarge(d23, 1200000)
		} else {
			g.enlarge(d23, pick(g, 1200000, 2500000, 5000000))
		}
		d := as(ver, d23)
		drop := notInJSON
		want := Tree(d, drop)
		if format == "tv" {
			drop = notInTV
			want = Tree(tvOrder(d23, ver), drop)
		}
		var buf bytes.Buffer
		var err error
		got := emptyDoc(ver)
		switch format {
		case "json":
			if err = json.Write(d, &buf); err == nil {
				err = json.ReadInto(bytes.NewReader(buf.Bytes()), got)
			}
		case "yaml":
			if err = yaml.Write(d, &buf); err == nil {
				err = yaml.ReadInto(bytes.NewReader(buf.Bytes()), got)
			}
		case "tv":
			if err = tagvalue.Write(d, &buf); err == nil {
				err = tagvalue.ReadInto(bytes.NewReader(buf.Bytes()), got)
			}
		}
		c.Log("%d packages, %d files, %d bytes written", len(d23.Packages), len(d23.Files), buf.Len())
		if err != nil {
			t.Fatalf("writing or reading back failed: %.300v", err)
		}
		if df := Diff(want, Tree(got, drop)); df != "" {
			t.Fatalf("read back differs %.300s", df)
		}
		c.Nontrivial(fmt.Sprintf("%s: %d packages, %d files, %d bytes", format, len(d23.Packages), len(d23.Files), buf.Len()))
	}
}
