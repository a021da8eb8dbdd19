package main

import (
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strings"

	"github.com/spdx/tools-golang/spdx"
	"github.com/spdx/tools-golang/spdx/v2/common"
	"github.com/spdx/tools-golang/spdx/v2/v2_3"
	"github.com/spdx/tools-golang/spdxlib"
	"pgregory.net/rapid"
)

// linked generates a document of packages, files and snippets with
// relationships among them; most of them exist.
func (g *G) linked() *spdx.Document {
	d := &spdx.Document{SPDXVersion: "SPDX-2.3", SPDXIdentifier: "DOCUMENT", CreationInfo: &spdx.CreationInfo{}}
	ids := []common.ElementID{"DOCUMENT"}
	id := func(kind string) common.ElementID {
		// identifiers whose order differs from the order of creation, and
		// identifiers that are prefixes of others
		i := common.ElementID(fmt.Sprintf("%s%s%d", pick(g, "", "Z", "a", "p", "-"), kind, g.seq))
		g.seq++
		ids = append(ids, i)
		return i
	}
	file := func() *spdx.File {
		f := &spdx.File{FileName: g.line(), FileSPDXIdentifier: id("f")}
		if g.oneIn(4) {
			f.Snippets = map[common.ElementID]*spdx.Snippet{}
			for j := 1 + g.upto(3); j > 0; j-- {
				sid := id("s")
				f.Snippets[sid] = &spdx.Snippet{SnippetSPDXIdentifier: sid}
			}
		}
		return f
	}
	for i := pick(g, 2, 3, 4, 5, 1, 0); i > 0; i-- {
		p := &spdx.Package{PackageName: g.line(), PackageSPDXIdentifier: id("p")}
		if g.oneIn(4) {
			// what does not matter
			p.IsUnpackaged, p.FilesAnalyzed, p.IsFilesAnalyzedTagPresent = g.oneIn(2), g.oneIn(2), g.oneIn(2)
			p.PackageName = pick(g, "", p.PackageName)
			p.PackageDownloadLocation = pick(g, "", "NONE", "NOASSERTION")
			p.PrimaryPackagePurpose = pick(g, "", "LIBRARY", "FILE")
		}
		for j := g.count(2); j > 0; j-- {
			p.Files = append(p.Files, file())
		}
		d.Packages = append(d.Packages, p)
	}
	for i := g.count(3); i > 0; i-- {
		d.Files = append(d.Files, file())
	}
	for i := g.count(3); i > 0; i-- {
		d.Snippets = append(d.Snippets, spdx.Snippet{SnippetSPDXIdentifier: id("s")})
	}
	if len(d.Packages) > 0 && g.oneIn(12) {
		d.Packages = append(d.Packages, d.Packages[g.upto(len(d.Packages)-1)])
	}
	missing := g.oneIn(2)
	end := func() common.DocElementID {
		switch g.upto(12) {
		case 12:
			// a document as such
			return common.DocElementID{DocumentRefID: "ext"}
		case 0:
			return common.DocElementID{SpecialID: pick(g, "NONE", "NOASSERTION")}
		case 1:
			return common.DocElementID{DocumentRefID: "ext", ElementRefID: ids[g.upto(len(ids)-1)]}
		case 2:
			return common.DocElementID{DocumentRefID: "ext", ElementRefID: common.ElementID(pick(g, "elsewhere", "nowhere"))}
		case 3, 7:
			if missing {
				return common.DocElementID{ElementRefID: pick(g, "nowhere", "elsewhere", "document", "SPDXRef-DOCUMENT", ids[len(ids)-1]+"x", "NONE")}
			}
		case 4, 5, 6:
			return common.DocElementID{ElementRefID: "DOCUMENT"}
		}
		return common.DocElementID{ElementRefID: ids[g.upto(len(ids)-1)]}
	}
	for i := g.upto(8); i > 0; i-- {
		if len(d.Packages) > 0 && !g.oneIn(3) {
			// the document and a package, mostly the right way round
			x, y := common.DocElementID{ElementRefID: "DOCUMENT"}, common.DocElementID{ElementRefID: d.Packages[g.upto(len(d.Packages)-1)].PackageSPDXIdentifier}
			typ := "DESCRIBES"
			if g.oneIn(2) {
				x, y, typ = y, x, "DESCRIBED_BY"
			}
			if g.oneIn(4) {
				x, y = y, x
			}
			if g.oneIn(8) {
				y.DocumentRefID = "ext"
			}
			d.Relationships = append(d.Relationships, &spdx.Relationship{RefA: x, RefB: y, Relationship: typ})
			continue
		}
		d.Relationships = append(d.Relationships, &spdx.Relationship{RefA: end(), RefB: end(),
			Relationship: pick(g, "DESCRIBES", "DESCRIBES", "DESCRIBED_BY", "DESCRIBED_BY", "CONTAINS", "DEPENDS_ON", "OTHER")})
	}
	// what does not matter
	g.noise(d, "Packages", "Files", "Snippets", "Relationships", "CreationInfo")
	for _, p := range d.Packages {
		g.noise(p, "Files", "PackageSPDXIdentifier")
		for _, f := range p.Files {
			g.noise(f, "FileSPDXIdentifier", "Snippets")
		}
	}
	for _, f := range d.Files {
		g.noise(f, "FileSPDXIdentifier", "Snippets")
	}
	for _, r := range d.Relationships {
		g.noise(r, "RefA", "RefB", "Relationship")
	}
	if g.oneIn(8) {
		// with gaps
		if g.oneIn(2) {
			d.Relationships = gap(g, d.Relationships)
		}
		if g.oneIn(2) {
			d.Files = gap(g, d.Files)
		}
		if len(d.Packages) > 1 && g.oneIn(2) {
			d.Packages = gap(g, d.Packages)
		}
	}
	return d
}

// noise fills fields that a property says nothing about: at v and below, all
// that are still empty, except those named in keep.
func (g *G) noise(v any, keep ...string) {
	if !g.oneIn(2) {
		return
	}
	r := rand.New(rand.NewSource(int64(g.upto(9999))))
	kept := map[string]bool{}
	for _, k := range keep {
		kept[k] = true
	}
	words := []string{"NOASSERTION", "NONE", "MIT", "x", "2020-01-02T03:04:05Z", "SPDXRef-x", "https://example.com/", "SOURCE", "text\nof lines", "DOCUMENT"}
	var fill func(v reflect.Value, depth int)
	fill = func(v reflect.Value, depth int) {
		switch v.Kind() {
		case reflect.Ptr:
			if v.IsNil() {
				if !v.CanSet() || depth > 2 || r.Intn(3) != 0 {
					return
				}
				v.Set(reflect.New(v.Type().Elem()))
			}
			fill(v.Elem(), depth+1)
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if f := v.Type().Field(i); f.IsExported() && !kept[f.Name] && v.Field(i).IsZero() && r.Intn(3) == 0 {
					fill(v.Field(i), depth+1)
				}
			}
		case reflect.String:
			v.SetString(words[r.Intn(len(words))])
		case reflect.Bool:
			v.SetBool(true)
		case reflect.Int:
			v.SetInt(int64(r.Intn(3)))
		case reflect.Slice:
			if depth > 2 {
				return
			}
			n := 1 + r.Intn(2)
			v.Set(reflect.MakeSlice(v.Type(), n, n))
			for i := 0; i < n; i++ {
				if v.Index(i).Kind() == reflect.Ptr {
					v.Index(i).Set(reflect.New(v.Type().Elem().Elem()))
				}
				fill(v.Index(i), depth+1)
			}
		}
	}
	fill(reflect.ValueOf(v), 0)
}

// gap puts a null among the elements.
func gap[T any](g *G, xs []*T) []*T {
	i := g.upto(len(xs))
	return append(xs[:i:i], append([]*T{nil}, xs[i:]...)...)
}

func validate(t *rapid.T, c *Ctx) {
	g := &G{t: t, fmt: "common", ver: "2.3", full: 1}
	d := g.linked()
	before := ShowFull(Tree(d, nil))
	c.Log("document: %s", before)
	exists := map[common.ElementID]bool{"DOCUMENT": true}
	file := func(f *v2_3.File) {
		if f == nil {
			return
		}
		exists[f.FileSPDXIdentifier] = true
		for id := range f.Snippets {
			exists[id] = true
		}
	}
	for _, p := range d.Packages {
		if p == nil {
			continue
		}
		exists[p.PackageSPDXIdentifier] = true
		for _, f := range p.Files {
			file(f)
		}
	}
	for _, f := range d.Files {
		file(f)
	}
	for _, s := range d.Snippets {
		exists[s.SnippetSPDXIdentifier] = true
	}
	bad := ""
	for _, r := range d.Relationships {
		if r == nil {
			continue
		}
		for _, e := range []common.DocElementID{r.RefA, r.RefB} {
			if e.SpecialID == "" && e.DocumentRefID == "" && !exists[e.ElementRefID] {
				bad = string(e.ElementRefID)
			}
		}
	}
	err := spdxlib.ValidateDocument(d)
	if bad == "" && err != nil {
		t.Fatalf("rejected, though everything it relates exists: %v", err)
	}
	if bad != "" && err == nil {
		t.Fatalf("accepted, though it relates %s, which does not exist", bad)
	}
	if got := ShowFull(Tree(d, nil)); got != before {
		t.Fatalf("validating changed the document to %s", got)
	}
	if bad == "" {
		c.Class("valid")
	} else {
		c.Class("invalid")
	}
	if len(d.Relationships) > 0 {
		c.Nontrivial(before)
	}
}

func described(t *rapid.T, c *Ctx) {
	g := &G{t: t, fmt: "common", ver: "2.3", full: 1}
	d := g.linked()
	before := ShowFull(Tree(d, nil))
	c.Log("document: %s", before)
	var want []string
	if len(d.Packages) == 1 {
		want = []string{string(d.Packages[0].PackageSPDXIdentifier)}
	} else {
		pk := map[string]bool{}
		for _, p := range d.Packages {
			if p == nil {
				continue
			}
			pk[refID(p.PackageSPDXIdentifier)] = true
		}
		for _, r := range d.Relationships {
			if r == nil {
				continue
			}
			k := canonical(r)
			if k.rel == "DESCRIBES" && k.a == "SPDXRef-DOCUMENT" && pk[k.b] {
				want = append(want, strings.TrimPrefix(k.b, "SPDXRef-"))
				delete(pk, k.b)
			}
		}
		sort.Strings(want)
	}
	got, err := spdxlib.GetDescribedPackageIDs(d)
	if len(want) == 0 {
		if err == nil {
			t.Fatalf("got %v, want an error: the document describes no package", got)
		}
		c.Class("none")
	} else {
		if err != nil {
			t.Fatalf("error %v, want %v", err, want)
		}
		var gs []string
		for _, x := range got {
			gs = append(gs, string(x))
		}
		if !reflect.DeepEqual(gs, want) {
			t.Fatalf("got %v, want %v", gs, want)
		}
		c.Class(fmt.Sprintf("%d described", len(want)))
	}
	if after := ShowFull(Tree(d, nil)); after != before {
		t.Fatalf("the document was changed to %s", after)
	}
	if len(d.Packages) > 1 && len(want) > 0 {
		c.Nontrivial(before)
	}
}

func filterSort(t *rapid.T, c *Ctx) {
	g := &G{t: t, fmt: "common", ver: "2.3", full: 1}
	d := g.linked()
	c.Log("document: %s", ShowFull(Tree(d, nil)))
	var seen, all []*spdx.Relationship
	for _, r := range d.Relationships {
		if r != nil {
			all = append(all, r)
		}
	}
	var want []common.ElementID
	typ := pick(g, "DESCRIBES", "CONTAINS", "OTHER", "DESCRIBED_BY")
	got, err := spdxlib.FilterRelationships(d, func(r *spdx.Relationship) *common.ElementID {
		seen = append(seen, r)
		if r.Relationship != typ {
			return nil
		}
		want = append(want, r.RefB.ElementRefID)
		return &r.RefB.ElementRefID
	})
	if err != nil {
		t.Fatalf("error: %v", err)
	}
	if len(seen) != len(all) {
		t.Fatalf("the filter saw %d relationships of %d", len(seen), len(all))
	}
	for i := range seen {
		if seen[i] != all[i] {
			t.Fatalf("the filter saw relationship %d out of order", i)
		}
	}
	if len(got)+len(want) > 0 && !reflect.DeepEqual(got, want) {
		t.Fatalf("got %v, want %v", got, want)
	}
	ids := append([]common.ElementID{}, want...)
	for i := g.upto(6); i > 0; i-- {
		ids = append(ids, common.ElementID(g.word()))
	}
	var ss []string
	for _, x := range ids {
		ss = append(ss, string(x))
	}
	sort.Strings(ss)
	sorted := spdxlib.SortElementIDs(append([]common.ElementID{}, ids...))
	if len(sorted) != len(ss) {
		t.Fatalf("sorting %v gives %v", ids, sorted)
	}
	for i := range ss {
		if ss[i] != string(sorted[i]) {
			t.Fatalf("sorting %v gives %v", ids, sorted)
		}
	}
	if len(want) > 1 {
		c.Nontrivial(typ + fmt.Sprint(ids))
	}
}
