package main

import (
	"strings"

	"github.com/spdx/tools-golang/tagvalue"
	"pgregory.net/rapid"
)

// tvReading: any spelling of a document is read as that document.
func tvReading(ver string) func(t *rapid.T, c *Ctx) {
	return func(t *rapid.T, c *Ctx) {
		g := &G{t: t, fmt: "tv", ver: ver}
		d23 := g.doc23()
		for _, p := range d23.Packages {
			if p.PackageVerificationCode != nil && p.PackageVerificationCode.Value == "" {
				p.PackageVerificationCode = nil
			}
			if !p.FilesAnalyzed {
				p.IsFilesAnalyzedTagPresent = true
			}
		}
		text := g.tvUnits(ver, d23).String()
		d23 = splitRanges(d23)
		c.Log("document: %s", ShowFull(Tree(as(ver, d23), notInTV)))
		c.Log("file:\n%s", text)
		got := emptyDoc(ver)
		g.disturb("tv", ver, text)
		if err := tagvalue.ReadInto(strings.NewReader(text), got); err != nil {
			t.Fatalf("reading failed: %v", err)
		}
		if df := Diff(Tree(as(ver, d23), notInTV), Tree(got, notInTV)); df != "" {
			t.Fatalf("document read differs %s", df)
		}
		if len(text) > 500 {
			c.Nontrivial(text)
		}
	}
}
