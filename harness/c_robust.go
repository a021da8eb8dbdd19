package main

import (
	"encoding/json"
	"io"
	"runtime/debug"
	"strings"

	"github.com/spdx/tools-golang/convert"
	"github.com/spdx/tools-golang/licensediff"
	"github.com/spdx/tools-golang/reporter"
	"github.com/spdx/tools-golang/spdx"
	"github.com/spdx/tools-golang/spdxlib"
	"github.com/spdx/tools-golang/utils"
	"pgregory.net/rapid"
)

// odd values that identifiers, actors, ranges and the like may be given.
var oddStrings = []string{"", " ", ":", "::", "SPDXRef-", "DocumentRef-", "DocumentRef-:", "DocumentRef-:SPDXRef-", "SPDXRef-a:b", "DocumentRef-x:SPDXRef-y:z",
	"NONE", "NOASSERTION", "Person:", "Person: ", ": x", "Tool: a (b", "Organization: x ()", "SHA1", "SHA1:", "SHA1: ", ": da39", "0", "-1", "1:2", "2:1", "99999999999999999999",
	"a (excludes:", "(excludes: )", "a (excludes: b)", "SECURITY x", "SECURITY cpe23Type cpe:2.3:a b", "SPDX-2.3", "SPDX-2.1", "true", "<text>", "</text>", "<text></text>",
	"http://", "#", "http://spdx.org/rdf/terms#", "http://spdx.org/licenses/", "licenses", "\x00", "\ufeff", "é", "\u2028", "%s%d%!", "DESCRIBES", "SPDXRef-DOCUMENT DESCRIBES", "a b c d e"}

func (g *G) odd() string {
	s := pick(g, oddStrings...)
	if g.oneIn(4) {
		s += pick(g, oddStrings...)
	}
	if g.oneIn(200) {
		s = strings.Repeat(s+"(", 5000)
	}
	return s
}

func (g *G) oddJSON(depth int) any {
	switch g.upto(9) {
	case 0:
		return nil
	case 1:
		return json.Number(pick(g, "0", "-1", "1.5", "1e400", "9223372036854775808", "12"))
	case 2:
		return g.oneIn(2)
	case 3:
		if depth > 0 {
			return []any{g.oddJSON(depth - 1), g.oddJSON(depth - 1)}
		}
		return []any{}
	case 4:
		if depth > 0 {
			return obj{pick(g, "SPDXID", "name", "", "checksums"): g.oddJSON(depth - 1)}
		}
		return obj{}
	case 5:
		return []any{nil}
	}
	return g.odd()
}

// nulls puts nulls among the elements, or in their place.
func (g *G) nulls(x []any) []any {
	y := []any{}
	for _, e := range x {
		for g.oneIn(3) {
			y = append(y, nil)
		}
		if !g.oneIn(4) {
			y = append(y, e)
		}
	}
	for g.oneIn(2) {
		y = append(y, nil)
	}
	return y
}

// oddTree changes some places of a JSON tree.
func (g *G) oddTree(root any) any {
	if g.oneIn(4) { // nothing but nulls in some lists
		for _, s := range slots(root, nil, func(n any) { root = n }) {
			if x, ok := s.get().([]any); ok && g.oneIn(3) {
				s.set(g.nulls(x))
			}
		}
		return root
	}
	for i := 1 + g.count(4); i > 0; i-- {
		all := slots(root, nil, func(n any) { root = n })
		s := all[g.upto(len(all)-1)]
		if len(s.path) == 0 && !g.oneIn(10) {
			continue
		}
		switch x := s.get().(type) {
		case obj:
			keys := sortedKeys(x)
			switch g.upto(4) {
			case 0:
				if len(keys) > 0 {
					delete(x, keys[g.upto(len(keys)-1)])
				}
			case 1:
				x[pick(g, "SPDXID", "name", "ranges", "files", "packages", "relationships", "hasFiles", "documentDescribes", "annotations", "spdxVersion", "checksums", "creationInfo", "startPointer", "reference", "externalRefs", "originator", "supplier")] = g.oddJSON(2)
			case 2:
				if len(keys) > 0 { // the value of another key
					x[keys[g.upto(len(keys)-1)]] = x[keys[g.upto(len(keys)-1)]]
				}
			default:
				s.set(g.oddJSON(1))
			}
		case []any:
			switch g.upto(4) {
			case 0:
				s.set(append(append([]any{}, x...), nil))
			case 3:
				s.set(g.nulls(x))
			case 1:
				s.set(append(append([]any{}, x...), x...))
			case 2:
				s.set(append([]any{g.oddJSON(2)}, x...))
			default:
				s.set(g.oddJSON(1))
			}
		default:
			s.set(g.oddJSON(1))
		}
	}
	return root
}

// oddLines changes some lines of a text.
func (g *G) oddLines(text string) string {
	lines := strings.Split(text, "\n")
	for i := 1 + g.count(5); i > 0; i-- {
		k := g.upto(len(lines) - 1)
		l := lines[k]
		tag, value, _ := strings.Cut(l, ":")
		switch g.upto(8) {
		case 0:
			lines = append(lines[:k:k], lines[k+1:]...)
		case 1:
			j := g.upto(len(lines) - 1)
			lines[k], lines[j] = lines[j], lines[k]
		case 2:
			j := g.upto(len(lines) - 1)
			lines = append(lines[:k:k], append([]string{lines[j]}, lines[k:]...)...)
		case 3:
			lines[k] = tag + ": " + g.odd()
		case 4:
			lines[k] = l + g.odd()
		case 5:
			if len(l) > 0 {
				lines[k] = l[:g.upto(len(l)-1)]
			}
		case 6:
			all := sectionTags("2.3", pick(g, "document", "creation", "package", "file", "snippet", "license", "review"))
			lines[k] = pick(g, all...) + ":" + value
		case 7:
			lines = append(lines[:k:k], append([]string{pick(g, sectionTags("2.3", pick(g, "document", "creation", "package", "file", "snippet", "license", "review"))...) + ": " + g.odd()}, lines[k:]...)...)
		default:
			lines[k] = g.odd()
		}
		if len(lines) == 0 {
			lines = []string{""}
		}
	}
	return strings.Join(lines, "\n")
}

// oddBytes changes some bytes of a text.
func (g *G) oddBytes(text string) string {
	b := []byte(text)
	for i := 1 + g.count(6); i > 0; i-- {
		if len(b) == 0 {
			return g.odd()
		}
		k := g.upto(len(b) - 1)
		switch g.upto(5) {
		case 0:
			b[k] = byte(g.upto(255))
		case 1:
			b = append(b[:k:k], b[k+1:]...)
		case 2:
			b = append(b[:k:k], append([]byte{byte(pick(g, '{', '}', '[', ']', '"', ':', ',', '\n', '\\', '<', '>', '&', '\'', '-', '#', '|', '*', '!', '%', '\t', ' ', '0', '/', '='))}, b[k:]...)...)
		case 3:
			j := k + g.upto(min(len(b)-k, 200))
			b = append(b[:k:k], b[j:]...)
		case 4:
			j := k + g.upto(min(len(b)-k, 200))
			p := g.upto(len(b))
			b = append(b[:p:p], append(append([]byte{}, b[k:j]...), b[p:]...)...)
		default:
			b = append(b[:k:k], append([]byte(g.odd()), b[k:]...)...)
		}
	}
	return string(b)
}

// survives reads the text and, where it is read, does all that can be done
// with a document: none of it may panic.
func survives(t *rapid.T, c *Ctx, format, text string) {
	c.Log("%s input:\n%s", format, text)
	c.Journal(format, []byte(text))
	step := "reading"
	defer func() {
		if p := recover(); p != nil {
			t.Fatalf("%s panicked: %v\n%s", step, p, debug.Stack())
		}
	}()
	read := 0
	for _, ver := range versions {
		got := emptyDoc(ver)
		step = "reading into " + ver
		if readInto(format, text, got) != nil {
			continue
		}
		read++
		for _, to := range versions {
			step = "converting " + ver + " to " + to
			out := emptyDoc(to)
			_ = convert.Document(got, out)
		}
		if d, ok := got.(*spdx.Document); ok {
			step = "validating"
			_ = spdxlib.ValidateDocument(d)
			step = "listing described packages"
			_, _ = spdxlib.GetDescribedPackageIDs(d)
			step = "filtering relationships"
			_, _ = spdxlib.FilterRelationships(d, func(r *spdx.Relationship) *spdx.ElementID { return &r.RefA.ElementRefID })
			for _, p := range d.Packages {
				if p == nil || d.Packages[0] == nil {
					continue
				}
				step = "comparing licenses"
				pairs, _ := licensediff.MakePairs(d.Packages[0], p)
				_, _ = licensediff.MakeResults(pairs)
				step = "reporting"
				_ = reporter.Generate(p, io.Discard)
				step = "computing the verification code"
				_, _ = utils.GetVerificationCode(p.Files, "")
			}
		}
		for _, f := range []string{"json", "yaml", "tv"} {
			step = "writing " + ver + " as " + f
			_ = write(f, got, io.Discard)
		}
	}
	if read > 0 {
		c.Class("read")
		c.Nontrivial(text)
	} else {
		c.Class("rejected")
	}
}

func robust(format string) func(t *rapid.T, c *Ctx) {
	return func(t *rapid.T, c *Ctx) {
		ver := pick(g0(t), versions...)
		gfmt := format
		if gfmt == "yaml" {
			gfmt = "json"
		}
		g := &G{t: t, fmt: gfmt, ver: ver}
		text := ""
		switch format {
		case "tv":
			text = g.refText("tv", ver, g.doc23())
			if g.oneIn(4) {
				text = g.oddBytes(text)
			} else {
				text = g.oddLines(text)
			}
		default:
			root := refDocument(ver, g.doc23())
			bytes := g.oneIn(4)
			var tree any = root
			if !bytes {
				tree = g.oddTree(root)
			}
			if o, ok := tree.(obj); ok && (bytes || g.oneIn(4)) {
				text = g.refSpelling(format, o)
			} else {
				b, err := json.Marshal(tree)
				if err != nil {
					panic(err)
				}
				text = string(b)
			}
			if bytes {
				text = g.oddBytes(text)
			}
		}
		survives(t, c, format, text)
	}
}

func (g *G) refSpelling(format string, o obj) string {
	if format == "yaml" {
		return g.yamlText(o)
	}
	return g.jsonText(o)
}

// containers gives the license sets of a graph, and other nodes that contain a
// license.
func (r *rdfGraph) containers() (sets []*rnode) {
	for _, n := range r.nodes {
		if strings.HasSuffix(n.typ, "LicenseSet") || strings.HasSuffix(n.typ, "Operator") {
			sets = append(sets, n)
		}
	}
	return sets
}

// oddGraph changes some properties and nodes of a graph.
func (r *rdfGraph) oddGraph() {
	g := r.g
	any := func() *rnode { return r.nodes[g.upto(len(r.nodes)-1)] }
	for i := 1 + g.count(5); i > 0; i-- {
		n := any()
		switch g.upto(10) {
		case 9: // license sets that contain each other
			if sets := r.containers(); len(sets) > 0 {
				a, b := sets[g.upto(len(sets)-1)], sets[g.upto(len(sets)-1)]
				a.to(nsSpdx+"member", b)
				if a != b {
					b.to(nsSpdx+"member", a)
				}
				if g.oneIn(2) {
					a.about, b.about = "", ""
				}
			}
			continue
		case 0:
			n.typ = any().typ
			continue
		case 1:
			m := any()
			if m != r.docN && n != r.docN {
				n.about = m.about
			}
			continue
		case 2:
			n.to(pick(g, "relationship", "hasFile", "annotation", "describesPackage", "fileDependency", "snippetFromFile", "relatedSpdxElement", "member", "licenseConcluded",
				"range", "checksum", "licenseException", "hasExtractedLicensingInfo", "artifactOf"), any())
			p := &n.props[len(n.props)-1]
			p.pred = nsSpdx + p.pred
			continue
		}
		if len(n.props) == 0 {
			continue
		}
		k := g.upto(len(n.props) - 1)
		p := &n.props[k]
		switch g.upto(7) {
		case 0:
			n.props = append(n.props[:k:k], n.props[k+1:]...)
		case 1:
			n.props = append(n.props, *p)
		case 2:
			if m := any(); len(m.props) > 0 {
				p.pred = m.props[g.upto(len(m.props)-1)].pred
			}
		case 3:
			p.node, p.iri, p.lit = any(), "", ""
		case 4:
			if m := any(); len(m.props) > 0 {
				q := m.props[g.upto(len(m.props)-1)]
				p.node, p.iri, p.lit = q.node, q.iri, q.lit
			}
		case 5:
			p.node, p.iri, p.lit = nil, pick(g, nsSpdx, nsSpdx+"none", "http://spdx.org/licenses/", "x", "#", "https://example.com/"+g.odd(), nsSpdx+"checksumAlgorithm_"), ""
		default:
			p.node, p.iri, p.lit = nil, "", g.odd()
		}
	}
}

func robustRDF(t *rapid.T, c *Ctx) {
	g := &G{t: t, fmt: "rdf", ver: pick(g0(t), "2.2", "2.3")}
	r := g.rdfDoc(3, true)
	r.oddGraph()
	text := g.rdfText(r.nodes, map[string]int{})
	if g.oneIn(6) {
		text = g.oddBytes(text)
	}
	survives(t, c, "rdf", text)
}
