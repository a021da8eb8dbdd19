package main

import (
	"bytes"
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/spdx/tools-golang/spdx/v2/common"
	"github.com/spdx/tools-golang/tagvalue"
	"pgregory.net/rapid"
)

// What is written as tag-value, judged without the library's reader: the file is
// cut into pairs by a strict lexer, the pairs into sections, and these are
// compared with what the reference renderer states of the document.

// strictPairs cuts a file as the specification describes it: lines "Tag: value",
// comments, blank lines, and <text> over several lines.
func strictPairs(s string) ([]tvPair, error) {
	var out []tvPair
	for s != "" {
		line, rest, ended := strings.Cut(s, "\n")
		if !ended {
			return nil, fmt.Errorf("the last line, %q, has no end", line)
		}
		if line == "" || strings.HasPrefix(line, "#") {
			s = rest
			continue
		}
		tag, val, ok := strings.Cut(line, ": ")
		if !ok {
			return nil, fmt.Errorf("line %q states no tag and value", line)
		}
		for i, c := range tag {
			if !(c >= 'A' && c <= 'Z' || i > 0 && c >= 'a' && c <= 'z') {
				return nil, fmt.Errorf("%q is no tag", tag)
			}
		}
		if !strings.HasPrefix(val, "<text>") {
			if val == "" {
				return nil, fmt.Errorf("tag %s has no value", tag)
			}
			if strings.TrimSpace(val) != val || strings.Contains(val, "<text>") {
				return nil, fmt.Errorf("the value %q of %s is no text", val, tag)
			}
			out = append(out, tvPair{tag: tag, val: val})
			s = rest
			continue
		}
		s = s[len(tag)+2+len("<text>"):]
		val, rest, ok = strings.Cut(s, "</text>")
		if !ok {
			return nil, fmt.Errorf("the text of %s has no end", tag)
		}
		if !strings.HasPrefix(rest, "\n") {
			return nil, fmt.Errorf("something stands behind the text of %s", tag)
		}
		out = append(out, tvPair{tag: tag, val: val, text: true})
		s = rest[1:]
	}
	return out, nil
}

var tvCreation = map[string]bool{"LicenseListVersion": true, "Creator": true, "Created": true, "CreatorComment": true}

// tags that stand with the one they belong to
var tvOwner = map[string]string{
	"ExternalRefComment":        "ExternalRef",
	"RelationshipComment":       "Relationship",
	"ArtifactOfProjectHomePage": "ArtifactOfProjectName", "ArtifactOfProjectURI": "ArtifactOfProjectName",
	// byte and line ranges are one list
	"SnippetLineRange": "SnippetByteRange",
}

// tvSections cuts pairs into sections, each a list of "tag: value" with the
// tags in alphabetical order, those of one tag, and those that belong to it, in
// theirs.
func tvSections(ps []tvPair) []string {
	type section struct {
		kind  string
		pairs []tvPair
	}
	var secs []*section
	for _, p := range ps {
		kind := ""
		switch p.tag {
		case "PackageName", "FileName", "SnippetSPDXID", "LicenseID", "Relationship", "Annotator", "Reviewer":
			kind = p.tag
		}
		if tvCreation[p.tag] && (len(secs) == 0 || secs[len(secs)-1].kind != "Creation") {
			kind = "Creation"
		}
		if kind != "" || len(secs) == 0 {
			secs = append(secs, &section{kind: kind})
		}
		s := secs[len(secs)-1]
		s.pairs = append(s.pairs, p)
	}
	// sections of a kind that may stand anywhere among the last are put together
	rank := func(k string) int {
		switch k {
		case "LicenseID":
			return 1
		case "Reviewer":
			return 2
		case "Relationship":
			return 3
		case "Annotator":
			return 4
		}
		return 0
	}
	sort.SliceStable(secs, func(i, j int) bool { return rank(secs[i].kind) < rank(secs[j].kind) })
	var out []string
	for _, s := range secs {
		key := func(p tvPair) string {
			if o := tvOwner[p.tag]; o != "" {
				return o
			}
			return p.tag
		}
		ps := s.pairs
		sort.SliceStable(ps, func(i, j int) bool { return key(ps[i]) < key(ps[j]) })
		var b strings.Builder
		for _, p := range ps {
			v := p.val
			if p.tag == "ExternalDocumentRef" {
				// "SHA1:value" and "SHA1: value" are the same
				if i := strings.LastIndex(v, ": "); i >= 0 {
					v = v[:i+1] + v[i+2:]
				}
			}
			fmt.Fprintf(&b, "%s: %q\n", p.tag, v)
		}
		out = append(out, b.String())
	}
	return out
}

func tvWritten(ver string) func(t *rapid.T, c *Ctx) {
	return func(t *rapid.T, c *Ctx) {
		g := &G{t: t, fmt: "tv", ver: ver}
		d23 := g.doc23()
		for _, p := range d23.Packages {
			if p.FilesAnalyzed {
				p.IsFilesAnalyzedTagPresent = g.oneIn(2)
			}
		}
		d := as(ver, d23)
		c.Log("document: %s", ShowFull(Tree(d, notInTV)))
		var buf bytes.Buffer
		if err := tagvalue.Write(d, &buf); err != nil {
			t.Fatalf("writing failed: %v", err)
		}
		c.Log("written:\n%s", buf.String())
		got, err := strictPairs(buf.String())
		if err != nil {
			t.Fatalf("not tag-value: %v", err)
		}
		var want []tvPair
		for _, u := range (&G{plain: true, fmt: "tv", ver: ver}).tvUnits(ver, tvSorted(d23)).units {
			want = append(want, u...)
		}
		free := map[string]bool{}
		for _, p := range want {
			if p.text {
				free[p.tag] = true
			}
		}
		for _, p := range got {
			if p.text && !free[p.tag] {
				t.Fatalf("%s is written as text", p.tag)
			}
		}
		a, b := tvSections(want), tvSections(got)
		for i := 0; i < len(a) || i < len(b); i++ {
			x, y := "(none)", "(none)"
			if i < len(a) {
				x = a[i]
			}
			if i < len(b) {
				y = b[i]
			}
			if x != y {
				t.Fatalf("section %d states\n%s\nnot\n%s", i, y, x)
			}
		}
		if len(got) > 15 {
			c.Nontrivial(buf.String())
		}
	}
}

// fields that are stated alone, or make what they are part of when they are
// missing: not those that are one part of a line or decide the order.
func tvLeaves(v reflect.Value, out *[]reflect.Value) {
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() {
			tvLeaves(v.Elem(), out)
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() != reflect.String {
			for i := 0; i < v.Len(); i++ {
				tvLeaves(v.Index(i), out)
			}
		}
	case reflect.Map:
		for _, k := range sortedValues(v.MapKeys()) {
			tvLeaves(v.MapIndex(k), out)
		}
	case reflect.Struct:
		t := v.Type()
		switch t.Name() {
		case "Checksum", "Creator", "ExternalDocumentRef", "Supplier", "Originator":
			return
		}
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if !f.IsExported() {
				continue
			}
			switch {
			case f.Type.Name() == "ElementID" && f.Name != "SnippetFromFileSPDXIdentifier" && t.Name() != "Document",
				t.Name() == "PackageExternalReference" && f.Name != "ExternalRefComment", t.Name() == "ArtifactOfProject" && f.Name == "Name":
				continue
			}
			w := v.Field(i)
			switch {
			case w.Kind() == reflect.String && w.Len() > 0, w.Kind() == reflect.Int && w.Int() != 0, f.Type.Name() == "DocElementID" && !w.IsZero():
				if w.CanSet() {
					*out = append(*out, w)
				}
			default:
				tvLeaves(w, out)
			}
		}
	}
}

func sortedValues(ks []reflect.Value) []reflect.Value {
	sort.Slice(ks, func(i, j int) bool { return fmt.Sprint(ks[i]) < fmt.Sprint(ks[j]) })
	return ks
}

// tvLacking: what a document lacks is not stated, and nothing else changes.
func tvLacking(ver string) func(t *rapid.T, c *Ctx) {
	return func(t *rapid.T, c *Ctx) {
		g := &G{t: t, fmt: "tv", ver: ver}
		d := as(ver, g.doc23())
		c.Log("document: %s", ShowFull(Tree(d, notInTV)))
		pairs := func() []tvPair {
			var buf bytes.Buffer
			if err := tagvalue.Write(d, &buf); err != nil {
				t.Fatalf("writing failed: %v", err)
			}
			c.Log("written:\n%s", buf.String())
			ps, err := strictPairs(buf.String())
			if err != nil {
				t.Fatalf("not tag-value: %v", err)
			}
			return ps
		}
		whole := pairs()
		var leaves []reflect.Value
		tvLeaves(reflect.ValueOf(d), &leaves)
		if len(leaves) == 0 {
			return
		}
		var gone []string
		for i := 1 + g.count(6); i > 0; i-- {
			l := leaves[g.upto(len(leaves)-1)]
			if s := fmt.Sprint(l); !l.IsZero() {
				if id, ok := l.Interface().(common.DocElementID); ok {
					s = refDocID(id)
				}
				gone = append(gone, s)
				c.Log("without %q", s)
			}
			l.SetZero()
		}
		left := pairs()
		removed := 0
		k := 0
		for _, p := range whole {
			if k < len(left) && left[k] == p {
				k++
				continue
			}
			removed++
			found := false
			for _, s := range gone {
				found = found || strings.Contains(p.val, s)
			}
			if !found {
				t.Fatalf("%s: %q is not stated any more, or not in its place", p.tag, p.val)
			}
		}
		if k < len(left) {
			t.Fatalf("%s: %q is stated of a document that lacks %q", left[k].tag, left[k].val, gone)
		}
		if removed > len(gone) {
			t.Fatalf("%d tags are gone for %d values", removed, len(gone))
		}
		if removed > 0 {
			c.Nontrivial(fmt.Sprint(left))
		}
	}
}
