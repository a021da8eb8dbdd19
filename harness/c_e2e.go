package main

import (
	"bytes"
	"fmt"

	"github.com/spdx/tools-golang/builder"
	"github.com/spdx/tools-golang/convert"
	"github.com/spdx/tools-golang/idsearcher"
	"github.com/spdx/tools-golang/licensediff"
	"github.com/spdx/tools-golang/reporter"
	"github.com/spdx/tools-golang/spdx"
	"github.com/spdx/tools-golang/spdx/v2/v2_2"
	"github.com/spdx/tools-golang/spdxlib"
	"github.com/spdx/tools-golang/utils"
	"pgregory.net/rapid"
)

// pipeline: a document built from a directory keeps saying the same thing
// through every format and version, and all tools agree on it.
func pipeline(t *rapid.T, c *Ctx) {
	g := &G{t: t, fmt: "tv", ver: "2.3"}
	d := g.dirTree(c, 1, func() []byte { b, _ := g.sourceText(); return b })
	defer d.remove()
	all := d.paths()
	name := pick(g, "project1", "p", "a.b-c", "x_y")
	var doc *spdx.Document
	var err error
	ignored := g.patterns(all)
	searched := g.oneIn(2)
	c.Log("files %q given as %q, ignored %q, name %q, searched %v", all, d.arg, ignored, name, searched)
	if searched {
		doc, err = idsearcher.BuildIDsDocument(name, d.arg, &idsearcher.Config{NamespacePrefix: "https://example.com/", BuilderPathsIgnored: ignored})
	} else {
		doc, err = builder.Build(name, d.arg, &builder.Config{NamespacePrefix: "https://example.com/", CreatorType: pick(g, "Person", "Tool", "Organization"), Creator: g.line(), PathsIgnored: ignored})
	}
	if err != nil {
		t.Fatalf("building failed: %v", err)
	}
	first := doc.Packages[0]
	reported := func(d *spdx.Document) string {
		var b bytes.Buffer
		if err := reporter.Generate(d.Packages[0], &b); err != nil {
			t.Fatalf("report: %v", err)
		}
		return b.String()
	}
	wantReport := reported(doc)
	wantTree := Tree(tvSorted(doc), nil)

	check := func(how string, d *spdx.Document) {
		if df := Diff(wantTree, Tree(tvSorted(d), nil)); df != "" {
			t.Fatalf("%s: document differs %s", how, df)
		}
		if err := spdxlib.ValidateDocument(d); err != nil {
			t.Fatalf("%s: not valid: %v", how, err)
		}
		ids, err := spdxlib.GetDescribedPackageIDs(d)
		if err != nil || len(ids) != 1 || ids[0] != first.PackageSPDXIdentifier {
			t.Fatalf("%s: described packages %v, %v", how, ids, err)
		}
		p := d.Packages[0]
		code, err := utils.GetVerificationCode(p.Files, "")
		if err != nil || code.Value != first.PackageVerificationCode.Value {
			t.Fatalf("%s: verification code of its files %v, %v, stated %s", how, code, err, first.PackageVerificationCode.Value)
		}
		if r := reported(d); r != wantReport {
			t.Fatalf("%s: report differs:\n%s\nfrom:\n%s", how, r, wantReport)
		}
		pairs, err := licensediff.MakePairs(first, p)
		if err != nil {
			t.Fatalf("%s: %v", how, err)
		}
		res, err := licensediff.MakeResults(pairs)
		if err != nil || len(res.InBothSame) != len(p.Files) || len(res.InBothChanged)+len(res.InFirstOnly)+len(res.InSecondOnly) > 0 {
			t.Fatalf("%s: differs from itself: %+v, %v", how, res, err)
		}
	}
	check("as built", doc)
	cur, how := doc, "built"
	for i := 1 + g.upto(3); i > 0; i-- {
		f := pick(g, "json", "yaml", "tv")
		var src any = cur
		if g.oneIn(3) {
			// by way of an older version
			old := &v2_2.Document{}
			if err := convert.Document(cur, old); err != nil {
				t.Fatalf("%s, converting to 2.2: %v", how, err)
			}
			src = old
			how += ", converted to 2.2"
		}
		text, err := writeString(f, src)
		if err != nil {
			t.Fatalf("%s, writing as %s: %v", how, f, err)
		}
		how += ", written as " + f + " and read"
		c.Log("%s:\n%s", how, text)
		if cur, err = readLatest(f, text); err != nil {
			t.Fatalf("%s: %v", how, err)
		}
		check(how, cur)
		c.Class(f)
	}
	if len(first.Files) > 1 {
		c.Nontrivial(fmt.Sprintf("%q %q %s", all, ignored, how))
	}
}
