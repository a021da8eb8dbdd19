package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/spdx/tools-golang/rdf"
	"github.com/spdx/tools-golang/spdx/v2/v2_2"
	"github.com/spdx/tools-golang/spdx/v2/v2_3"
	"pgregory.net/rapid"
)

// canonicalLicense flattens and sorts a licence expression: the sets of RDF
// have no order.
func canonicalLicense(s string) string {
	toks := strings.Fields(strings.NewReplacer("(", " ( ", ")", " ) ").Replace(s))
	pos := 0
	bad := ""
	// a parsed expression: operator and members
	type expr struct {
		op string
		m  []string
	}
	flat := func(op string, xs []expr) expr {
		if len(xs) == 1 {
			return xs[0]
		}
		seen := map[string]bool{}
		var out []string
		add := func(s string) {
			if !seen[s] {
				seen[s] = true
				out = append(out, s)
			}
		}
		for _, x := range xs {
			if x.op == op || x.op == "" {
				for _, y := range x.m {
					add(y)
				}
				continue
			}
			add("(" + strings.Join(x.m, " "+x.op+" ") + ")")
		}
		sort.Strings(out)
		if len(out) == 1 {
			if in := strings.TrimSuffix(strings.TrimPrefix(out[0], "("), ")"); in != out[0] {
				for _, x := range xs {
					if x.op != "" && strings.Join(x.m, " "+x.op+" ") == in {
						return x
					}
				}
			}
			return expr{"", out}
		}
		return expr{op, out}
	}
	var parseOr func() expr
	atom := func() expr {
		if pos >= len(toks) {
			bad = "ends early"
			return expr{}
		}
		if toks[pos] == "(" {
			pos++
			e := parseOr()
			if pos >= len(toks) || toks[pos] != ")" {
				bad = "no closing parenthesis"
			}
			pos++
			return e
		}
		a := toks[pos]
		if a == ")" || a == "AND" || a == "OR" || a == "WITH" {
			bad = "unexpected " + a
		}
		pos++
		if pos+1 < len(toks) && toks[pos] == "WITH" {
			a += " WITH " + toks[pos+1]
			pos += 2
		}
		return expr{"", []string{a}}
	}
	parseAnd := func() expr {
		xs := []expr{atom()}
		for pos < len(toks) && toks[pos] == "AND" && bad == "" {
			pos++
			xs = append(xs, atom())
		}
		return flat("AND", xs)
	}
	parseOr = func() expr {
		xs := []expr{parseAnd()}
		for pos < len(toks) && toks[pos] == "OR" && bad == "" {
			pos++
			xs = append(xs, parseAnd())
		}
		return flat("OR", xs)
	}
	if len(toks) == 0 {
		return ""
	}
	e := parseOr()
	if bad != "" || pos < len(toks) {
		return fmt.Sprintf("not an expression: %q", s)
	}
	return strings.Join(e.m, " "+e.op+" ")
}

var licenseFields = map[string]bool{"LicenseConcluded": true, "LicenseInfoInFiles": true, "PackageLicenseConcluded": true, "PackageLicenseDeclared": true,
	"PackageLicenseInfoFromFiles": true, "SnippetLicenseConcluded": true, "LicenseInfoInSnippet": true, "DataLicense": true}

// unordered sorts all lists of a tree, as RDF has no order, and makes licence
// expressions canonical.
func unordered(x any, field string) any {
	switch y := x.(type) {
	case map[string]any:
		out := map[string]any{}
		for k, v := range y {
			out[k] = unordered(v, k)
		}
		return out
	case []any:
		out := make([]any, len(y))
		for i, v := range y {
			out[i] = unordered(v, field)
		}
		sort.Slice(out, func(i, j int) bool { return ShowFull(out[i]) < ShowFull(out[j]) })
		return out
	case string:
		if licenseFields[field] {
			return canonicalLicense(y)
		}
	}
	return x
}

func rdfTree(d any) any { return unordered(Tree(d, nil), "") }

func rdfReading(depth int) func(ver string) func(t *rapid.T, c *Ctx) {
	return func(ver string) func(t *rapid.T, c *Ctx) {
		return func(t *rapid.T, c *Ctx) {
			g := &G{t: t, fmt: "rdf", ver: ver}
			r := g.rdfDoc(depth, false)
			want := rdfTree(as(ver, r.d))
			forms := map[string]int{}
			text := g.rdfText(r.nodes, forms)
			c.Log("RDF:\n%s", text)
			c.Log("document: %s", ShowFull(want))
			g.disturb("rdf", ver, text)
			got := emptyDoc(ver)
			if err := rdf.ReadInto(strings.NewReader(text), got); err != nil {
				t.Fatalf("reading failed: %v", err)
			}
			if df := Diff(want, rdfTree(got)); df != "" {
				t.Fatalf("document read differs %s", df)
			}
			if g.oneIn(4) {
				// Read gives the same document in the latest version
				latest, err := rdf.Read(strings.NewReader(text))
				if err != nil {
					t.Fatalf("Read failed: %v", err)
				}
				want := rdfTree(asVersion(ver, r.d, "2.3"))
				if df := Diff(want, rdfTree(latest)); df != "" {
					t.Fatalf("document given by Read differs %s", df)
				}
			}
			for k := range forms {
				c.Class(k)
			}
			if len(text) > 2000 {
				c.Nontrivial(text)
			}
		}
	}
}

// subsPerVersion2 is subsPerVersion for the versions RDF is read in.
func subsPerVersion2(name, rule string, quick, deep int, f func(string) func(*rapid.T, *Ctx)) []Sub {
	return subsPerVersion(name, rule, quick, deep, f)[1:]
}

// rdfOrLater reads documents with "or later" operators.
func rdfOrLater(ver string) func(t *rapid.T, c *Ctx) {
	return func(t *rapid.T, c *Ctx) {
		g := &G{t: t, fmt: "rdf", ver: ver}
		r := g.rdfDoc(2, true)
		text := g.rdfText(r.nodes, map[string]int{})
		c.Log("RDF:\n%s", text)
		want := Tree(as(ver, r.d), nil)
		c.Log("document: %s", ShowFull(want))
		got := emptyDoc(ver)
		if err := rdf.ReadInto(strings.NewReader(text), got); err != nil {
			t.Fatalf("reading failed: %v", err)
		}
		if strings.Contains(text, "OrLaterOperator") {
			c.Nontrivial(text)
		}
		df := Diff(unordered(want, ""), rdfTree(got))
		if df == "" {
			return
		}
		if Diff(unordered(withoutPlus(want, ""), ""), rdfTree(got)) == "" && c.Known("or-later-plus") {
			return
		}
		t.Fatalf("document read differs %s", df)
	}
}

func withoutPlus(x any, field string) any {
	switch y := x.(type) {
	case map[string]any:
		out := map[string]any{}
		for k, v := range y {
			out[k] = withoutPlus(v, k)
		}
		return out
	case []any:
		out := make([]any, len(y))
		for i, v := range y {
			out[i] = withoutPlus(v, field)
		}
		return out
	case string:
		if licenseFields[field] {
			return strings.ReplaceAll(y, "+", "")
		}
	}
	return x
}

func (n *rnode) prop(pred string) *rprop {
	for i := range n.props {
		if n.props[i].pred == pred {
			return &n.props[i]
		}
	}
	return nil
}

// rdfMalformed reads documents with one thing wrong in them.
func rdfMalformed(ver string) func(t *rapid.T, c *Ctx) {
	return func(t *rapid.T, c *Ctx) {
		g := &G{t: t, fmt: "rdf", ver: ver}
		r := g.rdfDoc(1+g.upto(1), g.oneIn(3))
		broken := ""
		type change struct {
			what string
			do   func()
		}
		var changes []change
		add := func(what string, do func()) { changes = append(changes, change{what, do}) }
		for _, n := range r.nodes {
			short := n.typ[strings.LastIndexAny(n.typ, "#")+1:]
			junk := func(pred, what string, vals ...string) {
				if p := n.prop(pred); p != nil && p.node == nil {
					add(what+" of "+short, func() {
						v := pick(g, vals...)
						broken += " " + v
						if p.iri != "" {
							p.iri = v
						} else {
							p.lit = v
						}
					})
				}
			}
			switch short {
			case "ListedLicense", "License", "LicenseException":
				// what a package's licenseInfoFromFiles is, the reader tells from its IRI alone
				if !r.refersToBut(n, nsSpdx+"licenseInfoFromFiles") {
					continue
				}
			}
			switch short {
			case "SpdxDocument", "Package", "File", "Snippet", "Checksum", "Relationship", "Annotation", "ExternalRef", "CreationInfo", "Review",
				"ExternalDocumentRef", "PackageVerificationCode", "ExtractedLicensingInfo", "ListedLicense", "License", "SimpleLicensingInfo",
				"ConjunctiveLicenseSet", "DisjunctiveLicenseSet", "WithExceptionOperator", "LicenseException",
				"OrLaterOperator", "StartEndPointer", "ByteOffsetPointer", "LineCharPointer", "Project":
				add("unknown property of "+short, func() {
					n.text(pick(g, nsSpdx+"noSuchProperty", nsRdfs+"label", nsDoap+"shortdesc", nsSpdx+"licenseConclude"), "x")
				})
			}
			algo := []string{nsSpdx + "checksumAlgorithm_sha2", nsSpdx + "checksumAlgorithm_", nsSpdx + "md5sum", "https://example.com/x", nsSpdx + "checksumAlgorithm_sha3_128", nsSpdx + "checksumAlgorithm_SHA0", nsSpdx + "checksumAlgorithm_md3", nsSpdx + "algorithm_sha1"}
			if ver == "2.2" {
				algo = append(algo, nsSpdx+"checksumAlgorithm_sha3_256", nsSpdx+"checksumAlgorithm_blake3", nsSpdx+"checksumAlgorithm_blake2b_256", nsSpdx+"checksumAlgorithm_adler32")
			}
			if i := strings.Index(n.about, "#SPDXRef-"); i >= 0 && (short == "Package" || short == "File" || short == "Snippet") {
				add("identifier of "+short, func() {
					n.about = n.about[:i] + pick(g, "#", "#spdxref-", "#Ref-", "#SPDXRef-x:", "#DocumentRef-") + n.about[i+9:]
				})
				add("empty identifier of "+short, func() { n.about = n.about[:i] + "#SPDXRef-" })
			}
			switch short {
			case "SpdxDocument":
				junk(nsSpdx+"specVersion", "version", "SPDX-1.2", "SPDX-2.9", "2.2", "nonsense", "SPDX-"+ver+" ", "SPDX-"+ver+".1", "SPDX-"+ver+"0", "spdx-"+ver, "SPDX "+ver, ver, "SPDX-2.1", "SPDX-2", "SPDX-")
				add("no version", func() { n.drop(nsSpdx + "specVersion") })
				if !r.refersTo(n) { // it is the one document nothing refers to
					add("second document", func() {
						m := r.add(&rnode{typ: nsSpdx + "SpdxDocument", about: "https://example.com/second#SPDXRef-DOCUMENT"})
						m.text(nsSpdx+"specVersion", "SPDX-"+ver)
					})
				}
			case "Package":
				junk(nsSpdx+"filesAnalyzed", "filesAnalyzed", "maybe", "1", "no")
				junk(nsSpdx+"supplier", "supplier", "Foo", "Robot: Foo", "Foo Person: x")
				junk(nsSpdx+"originator", "originator", "Foo", "Robot: Foo", "Foo Organization: x")
				junk(nsDoap+"homepage", "homepage", "x", "no uri")
			case "File":
				junk(nsSpdx+"fileType", "type", "https://example.com/x", nsSpdx+"source")
			case "Checksum":
				junk(nsSpdx+"algorithm", "algorithm", algo...)
			case "Relationship":
				if p := n.prop(nsSpdx + "relatedSpdxElement"); p != nil {
					add("related element", func() {
						p.node, p.iri = nil, r.d.DocumentNamespace+"#"+pick(g, "nonsense", "SPDXRef-", "SPDXRef-a:b", "DocumentRef-x", "DocumentRef-x:y", "DocumentRef-:SPDXRef-y", "DocumentRef-x:SPDXRef-y:z", "DocumentRef-x:SPDXRef-")
					})
				}
				junk(nsSpdx+"relationshipType", "type", nsSpdx+"relationshipType_nonsense", nsSpdx+"contains", "https://example.com/x", nsSpdx+"relationshipType_", nsSpdx+"relationshipType_Contains", nsSpdx+"relationshipType_containsOf", nsSpdx+"relationshipType_CONTAINED_BY",
					nsSpdx+"relationshipType_dependencyof", nsSpdx+"relationshipType_contain", nsSpdx+"describes", nsSpdx+"relationshipType_DESCRIBES", nsSpdx+"relationshipTypes_describes", nsSpdx+"relationshipType_fileOf")
			case "Annotation":
				junk(nsSpdx+"annotationType", "type", nsSpdx+"annotationType_nonsense", nsSpdx+"review", "https://example.com/x")
				junk(nsSpdx+"annotator", "annotator", "Foo", "Robot: Foo")
			case "Review":
				junk(nsSpdx+"reviewer", "reviewer", "Foo", "Foo Person")
			case "CreationInfo":
				junk(nsSpdx+"creator", "creator", "Foo", "Robot: Foo")
			case "ExternalRef":
				junk(nsSpdx+"referenceCategory", "category", nsSpdx+"referenceCategory_nonsense", "https://example.com/x")
			case "ListedLicense", "License":
				junk(nsSpdx+"isOsiApproved", "isOsiApproved", "maybe", "1")
				junk(nsSpdx+"isDeprecatedLicenseId", "isDeprecatedLicenseId", "maybe", "1")
				junk(nsSpdx+"isFsfLibre", "isFsfLibre", "maybe", "1")
				junk(nsRdfs+"seeAlso", "seeAlso", "x", "no uri")
			case "LicenseException":
				junk(nsRdfs+"seeAlso", "seeAlso", "x", "no uri")
			case "WithExceptionOperator":
				add("second member of "+short, func() { n.iri(nsSpdx+"member", "http://spdx.org/licenses/Sleepycat") })
			case "OrLaterOperator":
				add("member of "+short, func() {
					if g.oneIn(2) {
						n.drop(nsSpdx + "member")
					} else {
						n.iri(nsSpdx+"member", "http://spdx.org/licenses/Sleepycat")
					}
				})
			case "StartEndPointer":
				add("mixed pointers", func() {
					m := r.blank("x")
					end := n.prop(nsPtr + "endPointer")
					m.typ, m.props = nsPtr+"LineCharPointer", []rprop{{pred: nsPtr + "lineNumber", lit: "7"}}
					if strings.HasSuffix(end.node.typ, "LineCharPointer") {
						m.typ, m.props = nsPtr+"ByteOffsetPointer", []rprop{{pred: nsPtr + "offset", lit: "7"}}
					}
					end.node = m
				})
				add("no end", func() { n.drop(nsPtr + "endPointer") })
				add("no start", func() { n.drop(nsPtr + "startPointer") })
			case "ByteOffsetPointer":
				junk(nsPtr+"offset", "offset", "x", "1.5", "0x10")
			case "LineCharPointer":
				junk(nsPtr+"lineNumber", "line", "x", "1.5", "ten")
			}
		}
		text := ""
		if g.oneIn(6) {
			good := g.rdfText(r.nodes, map[string]int{})
			if g.oneIn(2) {
				// without its end; a piece that only lacks white space is complete
				end := len(strings.TrimRight(good, "\n"))
				text, broken = good[:g.upto(end-1)], "cut off"
			} else {
				closing := pick(g, "Package>", "CreationInfo>", "SpdxDocument>", "RDF>", "created>")
				i := strings.LastIndex(good, closing)
				if i < 0 {
					i = strings.LastIndex(good, "RDF>")
				}
				text, broken = good[:i]+"Q"+good[i:], "wrong closing tag"
			}
		} else {
			// the kind of fault first, so that rare ones get their share
			var kinds []string
			of := map[string][]change{}
			for _, ch := range changes {
				kind, _, _ := strings.Cut(ch.what, " of ")
				if of[kind] == nil {
					kinds = append(kinds, kind)
				}
				of[kind] = append(of[kind], ch)
			}
			kind := kinds[g.upto(len(kinds)-1)]
			ch := of[kind][g.upto(len(of[kind])-1)]
			broken = ch.what
			ch.do()
			text = g.rdfText(r.nodes, map[string]int{})
		}
		c.Log("malformed (%s) RDF:\n%s", broken, text)
		c.Class(strings.Split(broken, " ")[0])
		got := emptyDoc(ver)
		if g.oneIn(3) {
			v := pick(g, versions...)
			got = as(v, (&G{t: t, fmt: "common", ver: v}).doc23())
		}
		before := Tree(got, nil)
		err := rdf.ReadInto(strings.NewReader(text), got)
		if err == nil {
			t.Fatalf("%s: no error", broken)
		}
		if df := Diff(before, Tree(got, nil)); df != "" {
			t.Fatalf("%s: the document given was changed although reading failed %s", broken, df)
		}
		c.Nontrivial(text)
	}
}

func (n *rnode) drop(pred string) {
	var props []rprop
	for _, p := range n.props {
		if p.pred != pred {
			props = append(props, p)
		}
	}
	n.props = props
}

func (r *rdfGraph) refersTo(to *rnode) bool { return r.refersToBut(to, "") }

func (r *rdfGraph) refersToBut(to *rnode, pred string) bool {
	for _, n := range r.nodes {
		for _, p := range n.props {
			if p.node == to && p.pred != pred {
				return true
			}
		}
	}
	return false
}

// rdfDispatch: RDF is read as the version it states, into any model.
func rdfDispatch(t *rapid.T, c *Ctx) {
	ver := pick(g0(t), "2.2", "2.3")
	g := &G{t: t, fmt: "rdf", ver: ver}
	r := g.rdfDoc(0, false)
	stated := "SPDX-" + ver
	bad := g.oneIn(5)
	if bad {
		p := r.nodes[0].prop(nsSpdx + "specVersion")
		p.lit = pick(g, "SPDX-2.0", "SPDX-2.1", "SPDX-1.2", "SPDX-3.0", "2.3", "SPDX-2.3.1", "spdx-2.3", "SPDX-2.", "SPDX-2.10", "SPDX 2.3", "SPDX-2.4", "SPDX-22", "SPDX", "SPDX-02.3", "xSPDX-2.2", "SPDX-2.2-rc1", "SPDX_2.3", "2.2", "SPDX-2.2.0", "SPDX-2.2.1", "SPDX-2.2.2", "SPDX-2.3.0", "SPDX-2.1.1", "SPDX-2.3 ", "SPDX-2.2\n", "SPDX-2.3\u00a0")
		stated = p.lit
		if g.oneIn(6) {
			r.nodes[0].drop(nsSpdx + "specVersion")
			stated = "none"
		}
	}
	text := g.rdfText(r.nodes, map[string]int{})
	to := pick(g, versions...)
	target := emptyDoc(to)
	if g.oneIn(2) {
		old := &G{t: t, fmt: "common", ver: to}
		target = as(to, old.doc23())
	}
	before := ShowFull(Tree(target, nil))
	c.Log("RDF:\n%s\nread into %s: %s", text, to, before)
	err := rdf.ReadInto(strings.NewReader(text), target)
	latest, errLatest := rdf.Read(strings.NewReader(text))
	if bad {
		if err == nil || errLatest == nil {
			t.Fatalf("a document of version %q was read: %v, %v", stated, err, errLatest)
		}
		if after := ShowFull(Tree(target, nil)); after != before {
			t.Fatalf("not read, but the target is changed to %s", after)
		}
		c.Class("unsupported")
		c.Nontrivial(text)
		return
	}
	if err != nil || errLatest != nil {
		t.Fatalf("reading failed: %v, %v", err, errLatest)
	}
	if df := Diff(rdfTree(asVersion(ver, r.d, to)), rdfTree(target)); df != "" {
		t.Fatalf("version %s read into %s differs %s", ver, to, df)
	}
	if df := Diff(rdfTree(asVersion(ver, r.d, "2.3")), rdfTree(latest)); df != "" {
		t.Fatalf("version %s from Read differs %s", ver, df)
	}
	if g.oneIn(4) {
		no := pick[any](g, nil, v2_3.Document{}, "x", (*v2_3.Document)(nil), (*v2_2.Document)(nil), new(string), &struct{}{}, &v2_3.Package{}, map[string]any{}, new(*v2_3.Document))
		if err := rdf.ReadInto(strings.NewReader(text), no); err == nil {
			t.Fatalf("reading into a %T gave no error", no)
		}
	}
	c.Class(ver + " into " + to)
	if len(text) > 1000 {
		c.Nontrivial(text)
	}
}
