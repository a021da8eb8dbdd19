package main

import (
	stdjson "encoding/json"
	"fmt"
	"strings"

	"github.com/spdx/tools-golang/json/marshal"
	"github.com/spdx/tools-golang/spdx/v2/common"
	"pgregory.net/rapid"
	"sigs.k8s.io/yaml"
)

// idString: a string that is an identifier, or nearly one.
func (g *G) idString() string {
	if g.oneIn(3) {
		// of a valid form, or with one thing about it changed
		name := func() string {
			return pick(g, "a", "x.1", "NONE", "NOASSERTION", "DOCUMENT", "none", "File0", "SPDXRef", "DocumentRef", "LicenseRef-1", "-", "é", "a b", g.word())
		}
		s := pick(g, "SPDXRef-"+name(), "DocumentRef-"+name(), "DocumentRef-"+name()+":SPDXRef-"+name(), "NONE", "NOASSERTION")
		switch g.upto(8) {
		case 0:
			s = strings.ToLower(s)
		case 1:
			s = strings.ToUpper(s)
		case 2:
			s = s[:1] + strings.ToLower(s[1:])
		case 3:
			s = pick(g, " ", "x", ":", "#", "-") + s
		case 4:
			s += pick(g, " ", ":", "#", "\n", "-", ":SPDXRef-b")
		}
		return s
	}
	var b strings.Builder
	for i := 1 + g.upto(4); i > 0; i-- {
		b.WriteString(pick(g, "SPDXRef-", "DocumentRef-", "SPDXRef-", "DocumentRef-", "spdxref-", "SPDXRef", "DocumentRef", "-", ":", "a", "x.1", "NONE", "NOASSERTION", "DOCUMENT", " ", "", "é", `"`, `\`, "<&>", "LicenseRef-"))
	}
	return b.String()
}

func cut(s, prefix string) (string, bool) {
	if len(s) > len(prefix) && s[:len(prefix)] == prefix {
		return s[len(prefix):], true
	}
	return "", false
}

// decode reads a JSON string, spelled in one of many ways, into v, from JSON
// or from YAML.
func (g *G) decode(s string, v any) error {
	var b strings.Builder
	how := g.upto(2)
	g.jsonString(&b, s, how == 2)
	if g.oneIn(3) {
		g.inYAML = true
		b.Reset()
		g.jsonString(&b, s, false)
		g.inYAML = false
		return yaml.Unmarshal([]byte(b.String()), v)
	}
	return stdjson.Unmarshal([]byte(b.String()), v)
}

// spelled is the string a value is written as in JSON.
func spelled(t *rapid.T, v any) string {
	b, err := marshal.JSON(v)
	if err != nil {
		t.Fatalf("writing %+v failed: %v", v, err)
	}
	var s string
	if err := stdjson.Unmarshal(b, &s); err != nil {
		t.Fatalf("%+v is written as %s, which is no JSON string: %v", v, b, err)
	}
	b2, err := stdjson.Marshal(v)
	if err != nil {
		t.Fatalf("writing %+v failed: %v", v, err)
	}
	var s2 string
	if err := stdjson.Unmarshal(b2, &s2); err != nil || s2 != s {
		t.Fatalf("%+v is written as %s, but also as %s", v, b, b2)
	}
	return s
}

func identifiers(t *rapid.T, c *Ctx) {
	g := &G{t: t, fmt: "json", ver: "2.3"}
	s := g.idString()
	c.Log("string: %q", s)

	// an element
	var e common.ElementID
	err := g.decode(s, &e)
	if id, ok := cut(s, "SPDXRef-"); ok && !strings.Contains(id, ":") {
		if err != nil || string(e) != id {
			t.Fatalf("element %q: got %q, %v", s, e, err)
		}
		if r := common.RenderElementID(e); r != s {
			t.Fatalf("element %q is rendered as %q", s, r)
		}
		if !strings.HasPrefix(id, "SPDXRef-") {
			if w := spelled(t, e); w != s {
				t.Fatalf("element %q is written as %q", s, w)
			}
		}
		c.Class("element")
	} else if !ok && err == nil {
		t.Fatalf("element %q: accepted as %q", s, e)
	}

	// a document
	var d common.DocumentID
	err = g.decode(s, &d)
	if id, ok := cut(s, "DocumentRef-"); ok && !strings.Contains(id, ":") {
		if err != nil || string(d) != id {
			t.Fatalf("document %q: got %q, %v", s, d, err)
		}
		if !strings.HasPrefix(id, "DocumentRef-") {
			if w := spelled(t, d); w != s {
				t.Fatalf("document %q is written as %q", s, w)
			}
		}
		c.Class("document")
	} else if !ok && err == nil {
		t.Fatalf("document %q: accepted as %q", s, d)
	}

	// an element of this or another document
	var x common.DocElementID
	err = g.decode(s, &x)
	want, verdict := refDocElement(s)
	switch {
	case verdict == "yes":
		if err != nil || x != want {
			t.Fatalf("document element %q: got %+v, %v", s, x, err)
		}
		if r := common.RenderDocElementID(x); r != s {
			t.Fatalf("document element %q is rendered as %q", s, r)
		}
		if !strings.HasPrefix(string(x.ElementRefID), "SPDXRef-") && !strings.HasPrefix(string(x.DocumentRefID), "DocumentRef-") {
			if w := spelled(t, x); w != s {
				t.Fatalf("document element %q is written as %q", s, w)
			}
		}
		if x.SpecialID == "" && common.MakeDocElementID(string(x.DocumentRefID), string(x.ElementRefID)) != x {
			t.Fatalf("MakeDocElementID does not make %+v", x)
		}
		if x.SpecialID != "" && common.MakeDocElementSpecial(x.SpecialID) != x {
			t.Fatalf("MakeDocElementSpecial does not make %+v", x)
		}
		c.Class("document element")
	case verdict == "no" && err == nil:
		t.Fatalf("document element %q: accepted as %+v", s, x)
	}
	// an identifier that has its prefix already is written with one
	if id, ok := cut(s, "SPDXRef-"); ok && !strings.HasPrefix(id, "SPDXRef-") {
		if w := spelled(t, common.ElementID(s)); w != s {
			t.Fatalf("element with prefix %q is written as %q", s, w)
		}
	}
	if len(s) > 8 {
		c.Nontrivial(s)
	}
}

// refDocElement: "yes" with its meaning, "no", or "" where the forms of the
// specification do not settle it.
func refDocElement(s string) (common.DocElementID, string) {
	if s == "NONE" || s == "NOASSERTION" {
		return common.DocElementID{SpecialID: s}, "yes"
	}
	rest, doc := s, ""
	if strings.HasPrefix(s, "DocumentRef-") {
		i := strings.IndexByte(s, ':')
		if i < 0 {
			if s == "DocumentRef-" {
				return common.DocElementID{}, "no"
			}
			return common.DocElementID{}, ""
		}
		doc = s[len("DocumentRef-"):i]
		if doc == "" {
			return common.DocElementID{}, "no"
		}
		rest = s[i+1:]
	}
	id, ok := cut(rest, "SPDXRef-")
	if !ok {
		return common.DocElementID{}, "no"
	}
	if strings.Contains(id, ":") {
		return common.DocElementID{}, ""
	}
	return common.DocElementID{DocumentRefID: common.DocumentID(doc), ElementRefID: common.ElementID(id)}, "yes"
}

func actors(t *rapid.T, c *Ctx) {
	g := &G{t: t, fmt: "json", ver: "2.3"}
	source := g.oneIn(2)
	s, typ, name, verdict := g.actorString(source)
	broken := verdict == "no"
	c.Log("string: %q", s)
	check := func(what string, err error, gotType, gotName string, value any) {
		isSource := what == "supplier" || what == "originator"
		if broken || typ == "" && !isSource {
			if s == "NOASSERTION" && isSource {
				return
			}
			if err == nil {
				t.Fatalf("%s %q: accepted as %q, %q", what, s, gotType, gotName)
			}
			return
		}
		if err != nil {
			t.Fatalf("%s %q: %v", what, s, err)
		}
		if gotType != typ || gotName != name {
			t.Fatalf("%s %q: got %q, %q", what, s, gotType, gotName)
		}
		want := typ + ": " + name
		if name == "NOASSERTION" && isSource {
			want = name
		}
		if w := spelled(t, value); w != want {
			t.Fatalf("%s %q is written as %q", what, s, w)
		}
	}
	var cr common.Creator
	check("creator", g.decode(s, &cr), cr.CreatorType, cr.Creator, cr)
	var an common.Annotator
	check("annotator", g.decode(s, &an), an.AnnotatorType, an.Annotator, an)
	var su common.Supplier
	check("supplier", g.decode(s, &su), su.SupplierType, su.Supplier, su)
	var or common.Originator
	check("originator", g.decode(s, &or), or.OriginatorType, or.Originator, or)
	for _, na := range []string{"NOASSERTION"} {
		su, or = common.Supplier{}, common.Originator{}
		if err := g.decode(na, &su); err != nil || su != (common.Supplier{Supplier: na}) {
			t.Fatalf("supplier %q: got %+v, %v", na, su, err)
		}
		if err := g.decode(na, &or); err != nil || or != (common.Originator{Originator: na}) {
			t.Fatalf("originator %q: got %+v, %v", na, or, err)
		}
		if a, b := spelled(t, su), spelled(t, or); a != na || b != na {
			t.Fatalf("%s is written as %q, %q", na, a, b)
		}
	}
	if broken {
		c.Class("no colon")
	} else {
		c.Class("actor")
	}
	c.Nontrivial(s)
}

var _ = fmt.Sprint
