package main

import (
	"fmt"
	"strings"

	"github.com/spdx/tools-golang/spdx/v2/v2_3"
	"pgregory.net/rapid"
)

// slot is a place in a JSON tree.
type slot struct {
	path []string
	key  string
	get  func() any
	set  func(any)
}

func slots(v any, path []string, set func(any)) []slot {
	key := ""
	for i := len(path) - 1; i >= 0 && key == ""; i-- {
		if path[i] != "#" {
			key = path[i]
		}
	}
	out := []slot{{path: append([]string{}, path...), key: key, get: func() any { return v }, set: set}}
	switch x := v.(type) {
	case obj:
		for _, k := range sortedKeys(x) {
			k := k
			out = append(out, slots(x[k], append(path, k), func(n any) { x[k] = n })...)
		}
	case []any:
		for i := range x {
			i := i
			out = append(out, slots(x[i], append(path, "#"), func(n any) { x[i] = n })...)
		}
	}
	return out
}

// badJSON: a JSON or YAML document with one thing wrong in it is rejected.
func badJSON(format string) func(t *rapid.T, c *Ctx) {
	return func(t *rapid.T, c *Ctx) {
		ver := pick(g0(t), versions...)
		g := &G{t: t, fmt: "json", ver: ver}
		d := g.doc23()
		if d.CreationInfo == nil {
			d.CreationInfo = &v2_3.CreationInfo{Creators: g.creators(1)}
		}
		ref := refDocument(ver, d)
		if ver != "2.1" {
			// the shorthands for relationships
			ids := func() []any {
				l := []any{}
				for i := g.upto(3); i > 0; i-- {
					l = append(l, refDocID(g.docElementID(false)))
				}
				return l
			}
			if g.oneIn(2) {
				ref["documentDescribes"] = ids()
			}
			pk, _ := ref["packages"].([]any)
			for _, p := range pk {
				if g.oneIn(2) {
					p.(obj)["hasFiles"] = ids()
				}
			}
		}
		spell := func() string {
			if format == "yaml" {
				return g.yamlText(ref)
			}
			return g.jsonText(ref)
		}
		what := ""
		text := ""
		kind := g.upto(5)
		all := slots(ref, nil, nil)
		choose := func(ok func(s slot) bool) (slot, bool) {
			var cand []slot
			for _, s := range all {
				if len(s.path) > 0 && ok(s) {
					cand = append(cand, s)
				}
			}
			if len(cand) == 0 {
				return slot{}, false
			}
			return cand[g.upto(len(cand)-1)], true
		}
		switch kind {
		case 0: // an identifier that is none
			s, ok := choose(func(s slot) bool {
				switch s.key {
				case "SPDXID", "externalDocumentId", "spdxElementId", "relatedSpdxElement", "snippetFromFile", "reference", "documentDescribes", "hasFiles":
					_, str := s.get().(string)
					return str
				}
				return false
			})
			if !ok {
				ref["SPDXID"] = "DOCUMENT"
				what = "SPDXID: DOCUMENT"
				break
			}
			v := pick(g, "", "foo", "SPDXRef-", "SPDXRef", "spdxref-a", "xSPDXRef-a", " SPDXRef-a", "DocumentRef-", "DocumentRef-:SPDXRef-a", "DocumentRef-x:", "DocumentRef-x:SPDXRef-", "DocumentRef-x:a", "none", "None", "noassertion", "NOASSERTION ", "#SPDXRef-a", "SPDXREF-a", "DocumentRef-x:SPDXRef")
			if (s.key == "SPDXID" || s.key == "externalDocumentId" || s.key == "snippetFromFile" || s.key == "reference") && g.oneIn(8) {
				v = pick(g, "NONE", "NOASSERTION")
			}
			if s.key == "externalDocumentId" && strings.HasPrefix(v, "DocumentRef-") {
				v = "SPDXRef-a"
			}
			what = fmt.Sprintf("%s: %q", strings.Join(s.path, "."), v)
			s.set(v)
		case 1: // an actor without a type
			s, ok := choose(func(s slot) bool {
				return s.key == "creators" && s.path[len(s.path)-1] == "#" || s.key == "annotator" || s.key == "supplier" || s.key == "originator"
			})
			if !ok {
				t.Fatalf("there is always a creator")
			}
			v := strings.ReplaceAll(g.line(), ":", "")
			if g.oneIn(2) {
				v = pick(g, "Tool", "Person", "Organization", "NOASSERTION", "NONE", "noassertion", "None", "") + pick(g, "", " ", " x", "-x", " ()", "x")
			}
			if v == "NOASSERTION" && (s.key == "supplier" || s.key == "originator") {
				v = "Jane"
			}
			what = fmt.Sprintf("%s: %q", strings.Join(s.path, "."), v)
			s.set(v)
		case 2: // a value of another type
			s, _ := choose(func(s slot) bool { return s.key != "spdxVersion" && s.key != "" })
			var v any
			switch s.get().(type) {
			case string:
				v = pick[any](g, []any{}, obj{}, obj{"a": "b"}, []any{"x"})
				if format == "json" && g.oneIn(3) {
					v = pick[any](g, 1, true, false)
				}
			case []any:
				v = pick[any](g, "x", obj{"a": "b"}, 1, true)
			case obj:
				v = pick[any](g, "x", 1, true, []any{}, []any{obj{}})
			case bool:
				v = pick[any](g, "x", 2, []any{}, obj{})
			case int:
				v = pick[any](g, "x", true, []any{}, obj{})
			}
			what = fmt.Sprintf("%s: %T for %T", strings.Join(s.path, "."), v, s.get())
			s.set(v)
		case 3: // no version, or one that is not supported
			what = "version"
			if g.oneIn(3) {
				delete(ref, "spdxVersion")
			} else {
				ref["spdxVersion"] = pick[any](g, "SPDX-2.0", "", "spdx-2.3", 2, num("2.3"), num("2.2"), num("2.1"), nil, true, []any{"SPDX-2.3"}, obj{"SPDX-2.3": "SPDX-2.3"}, "SPDX-2.3 ", "SPDX-3.0", "SPDX-2.2.1", "SPDX-2.3.0")
			}
		case 4: // not an object
			what = "not an object"
			var v any = pick[any](g, []any{ref}, "SPDX-2.3", 1, nil, true, []any{})
			text = g.jsonText(v)
			if format == "yaml" {
				g.inYAML = true
				text = g.jsonText(v)
			}
		case 5: // cut off
			what = "cut off"
			if format == "yaml" {
				g.inYAML = true
			}
			text = strings.TrimRight(g.jsonText(ref), " \n\r\t")
			n := g.upto(len(text)/4) * 4
			if g.oneIn(2) {
				n = len(text) - 1 - g.upto(30)
			}
			if n >= len(text) {
				n = len(text) - 1
			}
			text = text[:n]
			if format == "json" && g.oneIn(3) {
				what = "something after it"
				text = g.jsonText(ref) + pick(g, "}", "]", "x", ",", "{}", `""`, "null", "\x00", "//")
			}
		}
		if text == "" && what != "cut off" {
			text = spell()
		}
		c.Log("broken: %s", what)
		c.Log("%s text:\n%s", format, text)
		c.Class([]string{"identifier", "actor", "type", "version", "not an object", "cut off"}[kind])
		target := emptyDoc(pick(g, versions...))
		if g.oneIn(2) {
			old := &G{t: t, fmt: "common", ver: ver}
			target = as(ver, old.doc23())
		}
		before := ShowFull(Tree(target, nil))
		err := readInto(format, text, target)
		if err == nil {
			t.Fatalf("accepted a document with: %s", what)
		}
		if after := ShowFull(Tree(target, nil)); after != before {
			t.Fatalf("rejected, but the target document was changed to %s", after)
		}
		if _, err := readLatest(format, text); err == nil {
			t.Fatalf("Read accepted a document with: %s", what)
		}
		c.Nontrivial(what + "\n" + text)
	}
}

func sortedKeys(o obj) []string {
	var ks []string
	for k := range o {
		ks = append(ks, k)
	}
	sortStrings(ks)
	return ks
}
