package main

import (
	_ "embed"
	"fmt"
	"sort"
	"strings"

	"github.com/spdx/tools-golang/spdx/v2/common"
	"github.com/spdx/tools-golang/spdx/v2/v2_3"
)

// An RDF graph, and its rendering as RDF/XML in a drawn spelling.

const (
	nsSpdx = "http://spdx.org/rdf/terms#"
	nsRdfs = "http://www.w3.org/2000/01/rdf-schema#"
	nsRdf  = "http://www.w3.org/1999/02/22-rdf-syntax-ns#"
	nsPtr  = "http://www.w3.org/2009/pointers#"
	nsDoap = "http://usefulinc.com/ns/doap#"
)

// rnode is a node with an IRI, or a blank one.
type rnode struct {
	typ, about string
	props      []rprop

	done   bool   // already rendered
	top    bool   // rendered at the top level only
	shared bool   // referred to several times
	nodeID string // of a blank node
}

// rprop is a property: a literal, a reference to an IRI that is not
// described, or a node.
type rprop struct {
	pred string
	lit  string
	iri  string
	node *rnode
}

func (n *rnode) text(pred, s string) {
	if s != "" {
		n.props = append(n.props, rprop{pred: pred, lit: s})
	}
}
func (n *rnode) iri(pred, s string) { n.props = append(n.props, rprop{pred: pred, iri: s}) }
func (n *rnode) to(pred string, to *rnode) *rnode {
	n.props = append(n.props, rprop{pred: pred, node: to})
	return to
}

func blank(typ string) *rnode { return &rnode{typ: typ} }

// rxml renders a graph.
type rxml struct {
	g      *G
	b      strings.Builder
	pre    map[string]string // name space -> prefix with colon
	flat   int               // one in flat nodes is described where it is referred to
	seq    int
	indent bool
	quote  string
	forms  map[string]int
	descr  bool // now and then rdf:Description with rdf:type
}

func (x *rxml) name(uri string) string {
	for ns, p := range x.pre {
		if strings.HasPrefix(uri, ns) {
			return p + strings.TrimPrefix(uri, ns)
		}
	}
	panic("no prefix for " + uri)
}

func (x *rxml) nl(depth int) {
	if x.indent {
		x.b.WriteByte('\n')
		for i := 0; i < depth; i++ {
			x.b.WriteString("  ")
		}
	}
}

func (x *rxml) attr(name, value string) {
	q := x.quote
	if x.g.oneIn(8) {
		q = map[string]string{`"`: `'`, `'`: `"`}[q]
	}
	v := strings.ReplaceAll(value, "&", pick(x.g, "&amp;", "&#38;"))
	v = strings.ReplaceAll(v, "<", "&lt;")
	if q == `"` {
		v = strings.ReplaceAll(v, `"`, "&quot;")
	} else {
		v = strings.ReplaceAll(v, `'`, "&apos;")
	}
	x.b.WriteString(" " + name + "=" + q + v + q)
}

// literal spells text: references, UTF-8 or CDATA.
func (x *rxml) literal(s string) {
	g := x.g
	if g.oneIn(6) && !strings.Contains(s, "]]>") {
		x.forms["CDATA"]++
		x.b.WriteString("<![CDATA[" + s + "]]>")
		return
	}
	mode := g.upto(5)
	for i, r := range s {
		switch {
		case r == '&':
			x.b.WriteString(pick(g, "&amp;", "&#38;", "&#x26;"))
		case r == '<':
			x.b.WriteString(pick(g, "&lt;", "&#60;", "&#x3C;"))
		case r == '>' && (mode == 1 || strings.HasSuffix(s[:i], "]]")):
			x.b.WriteString("&gt;")
		case r == '"' && mode == 1:
			x.b.WriteString("&quot;")
		case r == '\'' && mode == 1:
			x.b.WriteString("&apos;")
		case mode == 2 && r > 0x7f:
			fmt.Fprintf(&x.b, "&#x%X;", r)
		case mode == 3 && i%5 == 1 && r != '\n':
			fmt.Fprintf(&x.b, "&#%d;", r)
		default:
			x.b.WriteRune(r)
		}
	}
}

func (x *rxml) identify(n *rnode, needID bool) {
	if n.about != "" {
		x.attr(x.pre[nsRdf]+"about", n.about)
		return
	}
	if n.nodeID != "" || needID {
		if n.nodeID == "" {
			x.seq++
			n.nodeID = fmt.Sprintf("%s%d", pick(x.g, "A", "b_", "N-", "node"), x.seq-1)
		}
		x.attr(x.pre[nsRdf]+"nodeID", n.nodeID)
	}
}

func (x *rxml) node(n *rnode, depth int) {
	n.done = true
	typ := x.name(n.typ)
	props := shuffled(x.g, n.props)
	typed := true
	if x.descr && x.g.oneIn(4) {
		typ, typed = x.pre[nsRdf]+"Description", false
		x.forms["Description"]++
	}
	x.nl(depth)
	x.b.WriteString("<" + typ)
	x.identify(n, n.top || n.shared)
	if len(props) == 0 && typed {
		x.b.WriteString("/>")
		return
	}
	x.b.WriteString(">")
	if !typed {
		x.nl(depth + 1)
		x.b.WriteString("<" + x.pre[nsRdf] + "type")
		x.attr(x.pre[nsRdf]+"resource", n.typ)
		x.b.WriteString("/>")
	}
	for _, p := range props {
		x.prop(p, depth+1)
	}
	x.nl(depth)
	x.b.WriteString("</" + typ + ">")
}

func (x *rxml) prop(p rprop, depth int) {
	x.nl(depth)
	name := x.name(p.pred)
	x.b.WriteString("<" + name)
	switch {
	case p.node == nil && p.iri != "":
		x.attr(x.pre[nsRdf]+"resource", p.iri)
	case p.node == nil:
		x.b.WriteString(">")
		x.literal(p.lit)
		x.b.WriteString("</" + name + ">")
		return
	case p.node.done || p.node.top:
		x.forms["reference"]++
		if p.node.about != "" {
			x.attr(x.pre[nsRdf]+"resource", p.node.about)
		} else {
			x.identify(p.node, true)
		}
	default:
		x.forms["nested"]++
		x.b.WriteString(">")
		x.node(p.node, depth+1)
		x.nl(depth)
		x.b.WriteString("</" + name + ">")
		return
	}
	if x.g.oneIn(8) {
		x.b.WriteString("></" + name + ">")
	} else {
		x.b.WriteString("/>")
	}
}

// rdfText renders the graph of the nodes, which start with the document.
func (g *G) rdfText(nodes []*rnode, forms map[string]int) string {
	x := &rxml{g: g, quote: pick(g, `"`, `'`), indent: !g.oneIn(3), forms: forms}
	x.pre = map[string]string{
		nsSpdx: pick(g, "spdx:", "spdx:", "s:", "ns1:"), nsRdfs: pick(g, "rdfs:", "rdfs:", "r:"), nsRdf: "rdf:",
		nsPtr: pick(g, "ptr:", "p.1:"), nsDoap: pick(g, "doap:", "d-2:"),
	}
	// where nodes are described: at the top level, or where first referred to
	share := pick(g, 0, 1, 2, 5)
	for _, n := range nodes {
		n.done, n.nodeID, n.shared = false, "", false
		n.top = share > 0 && g.oneIn(share)
		if n.about == "" && n.top {
			n.top = g.oneIn(3)
		}
	}
	nodes[0].top = !g.oneIn(4)
	referred := map[*rnode]bool{}
	for _, n := range nodes {
		for _, p := range n.props {
			if p.node != nil {
				p.node.shared = referred[p.node]
				referred[p.node] = true
			}
		}
	}
	if g.oneIn(2) {
		x.b.WriteString(pick(g, `<?xml version="1.0" encoding="UTF-8"?>`, `<?xml version='1.0'?>`, `<?xml version="1.0"?>`) + pick(g, "\n", ""))
	}
	x.b.WriteString("<rdf:RDF")
	var nss []string
	for ns := range x.pre {
		nss = append(nss, ns)
	}
	sort.Strings(nss)
	for _, ns := range shuffled(g, nss) {
		if p := strings.TrimSuffix(x.pre[ns], ":"); p != "" {
			x.attr("xmlns:"+p, ns)
		} else {
			x.attr("xmlns", ns)
		}
	}
	x.b.WriteString(">")
	order := shuffled(g, nodes)
	for _, n := range order {
		if n.top && !n.done {
			x.node(n, 1)
		}
	}
	for _, n := range order {
		if !n.done && n.about != "" {
			x.node(n, 1)
		}
	}
	x.b.WriteString("\n</rdf:RDF>" + pick(g, "", "\n"))
	return x.b.String()
}

// -------------------------------------------------------------------------
// documents as graphs

var rdfRelNames = func() map[string]string {
	m := map[string]string{}
	for _, t := range relTypes {
		parts := strings.Split(strings.ToLower(t), "_")
		for i := 1; i < len(parts); i++ {
			parts[i] = strings.ToUpper(parts[i][:1]) + parts[i][1:]
		}
		m[t] = strings.Join(parts, "")
	}
	m["TEST_CASE_OF"] = "testcaseOf"
	return m
}()

var rdfAlgo = map[common.ChecksumAlgorithm]string{
	common.SHA3_256: "sha3_256", common.SHA3_384: "sha3_384", common.SHA3_512: "sha3_512",
	common.BLAKE2b_256: "blake2b256", common.BLAKE2b_384: "blake2b384", common.BLAKE2b_512: "blake2b512",
}

type rdfSet struct {
	node *rnode
	expr string
}

// rdfGraph draws a document of the version and its graph, document first.
type rdfGraph struct {
	g       *G
	d       *v2_3.Document
	nodes   []*rnode
	docN    *rnode
	elems   map[string]*rnode // elements of the document by ID
	lics    map[string]*rnode // nodes of licences by IRI
	refs    []string          // LicenseRefs
	depth   int               // of license expressions
	sets    []rdfSet
	reuse   int // how seldom a set used before is used again
	orLater bool
	pool    map[string][]pooled // nodes that several elements may refer to
}

type pooled struct {
	node  *rnode
	value any
}

// again gives a node of the kind that is there already and that n does not
// refer to, now and then.
func (r *rdfGraph) again(kind string, n *rnode) *pooled {
	ps := r.pool[kind]
	if len(ps) == 0 || !r.g.oneIn(5) {
		return nil
	}
	p := &ps[r.g.upto(len(ps)-1)]
	for _, x := range n.props {
		if x.node == p.node {
			return nil
		}
	}
	return p
}

func (r *rdfGraph) keep(kind string, n *rnode, v any) {
	if r.pool == nil {
		r.pool = map[string][]pooled{}
	}
	r.pool[kind] = append(r.pool[kind], pooled{n, v})
}

func (r *rdfGraph) add(n *rnode) *rnode {
	r.nodes = append(r.nodes, n)
	return n
}

func (r *rdfGraph) blank(typ string) *rnode { return r.add(blank(nsSpdx + typ)) }

func (r *rdfGraph) element(typ string, id common.ElementID) *rnode {
	n := r.add(&rnode{typ: nsSpdx + typ, about: r.d.DocumentNamespace + "#SPDXRef-" + string(id)})
	r.elems[string(id)] = n
	return n
}

// what XML cannot have, or the RDF parser does not keep
func xmlSafe(s string) string {
	s = strings.Map(func(r rune) rune {
		if r < ' ' && r != '\n' && r != '\t' || r >= 0xd800 && r < 0xe000 || r == 0xfffe || r == 0xffff {
			return -1
		}
		return r
	}, s)
	s = trimAll(s)
	if s == "" {
		return "x"
	}
	return s
}

func (r *rdfGraph) line() string {
	return xmlSafe(strings.ReplaceAll(r.g.line(), "\t", " "))
}
func (r *rdfGraph) text() string { return xmlSafe(r.g.text()) }
func (r *rdfGraph) optLine() string {
	if r.g.opt() {
		return r.line()
	}
	return ""
}
func (r *rdfGraph) optText() string {
	if r.g.opt() {
		return r.text()
	}
	return ""
}
func (r *rdfGraph) set(max int, f func() string) []string {
	var out []string
	seen := map[string]bool{}
	for i := r.g.count(max); i > 0; i-- {
		if s := f(); !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	return out
}

func (r *rdfGraph) uri() string {
	return pick(r.g, "https://example.com/ext", "http://example.com/a/b?c=d&e=f", "https://example.com/x#y", "http://spdx.example/doc-1.0", "https://example.com/%20/(x)")
}

func (r *rdfGraph) algo(a common.ChecksumAlgorithm) string {
	s, ok := rdfAlgo[a]
	if !ok {
		s = strings.ToLower(string(a))
	}
	return nsSpdx + "checksumAlgorithm_" + s
}

func (r *rdfGraph) checksum(n *rnode) common.Checksum {
	if p := r.again("checksum", n); p != nil {
		n.to(nsSpdx+"checksum", p.node)
		return p.value.(common.Checksum)
	}
	c := r.g.checksum()
	m := n.to(nsSpdx+"checksum", r.blank("Checksum"))
	r.keep("checksum", m, c)
	m.iri(nsSpdx+"algorithm", r.algo(c.Algorithm))
	m.text(nsSpdx+"checksumValue", c.Value)
	return c
}

func (r *rdfGraph) checksums(n *rnode) []common.Checksum {
	var out []common.Checksum
	for i := r.g.count(3); i > 0; i-- {
		out = append(out, r.checksum(n))
	}
	return out
}

// copyright is a text, or NONE or NOASSERTION, which are IRIs.
func (r *rdfGraph) special(n *rnode, pred, value string) {
	switch value {
	case "NONE", "NOASSERTION":
		n.iri(pred, nsSpdx+pick(r.g, strings.ToLower(value), value))
	default:
		n.text(pred, value)
	}
}

func (r *rdfGraph) copyright(n *rnode) string {
	s := r.optText()
	if r.g.oneIn(6) {
		s = pick(r.g, "NONE", "NOASSERTION")
	}
	r.special(n, nsSpdx+"copyrightText", s)
	return s
}

var rdfListed = []string{"MIT", "Apache-2.0", "GPL-2.0-only", "BSD-3-Clause", "LGPL-2.1-or-later", "Zlib"}

//go:embed listed.txt
var listedText string
var allListed = strings.Fields(listedText)

// listedID draws the identifier of a licence of the SPDX licence list.
func (r *rdfGraph) listedID() string {
	if !r.g.oneIn(3) {
		return pick(r.g, rdfListed...)
	}
	id := pick(r.g, allListed...)
	if r.orLater {
		id = strings.TrimSuffix(id, "+") // told from the operator
	}
	return id
}

var rdfExceptions = []string{"Classpath-exception-2.0", "GCC-exception-3.1", "LLVM-exception"}

// listed draws a listed licence: an IRI that may be described.
func (r *rdfGraph) listed(n *rnode, pred string) string {
	id := r.listedID()
	iri := "http://spdx.org/licenses/" + id
	if m := r.lics[iri]; m != nil {
		n.to(pred, m)
		return id
	}
	if r.g.oneIn(3) && r.depth > 0 {
		m := r.add(&rnode{typ: nsSpdx + pick(r.g, "ListedLicense", "License"), about: iri})
		m.text(nsSpdx+"licenseId", id)
		m.text(nsSpdx+"name", r.optLine())
		m.text(nsSpdx+"licenseText", r.optText())
		m.text(nsRdfs+"comment", r.optText())
		if r.g.opt() {
			m.text(nsSpdx+"isOsiApproved", pick(r.g, "true", "false"))
		}
		if r.g.opt() {
			m.text(nsRdfs+"seeAlso", r.uri())
		}
		if r.g.oneIn(3) {
			m.text(nsSpdx+"standardLicenseHeader", r.optText())
			m.text(nsSpdx+"standardLicenseTemplate", r.optText())
			m.text(nsSpdx+"standardLicenseHeaderTemplate", r.optText())
			m.text(nsSpdx+"isDeprecatedLicenseId", pick(r.g, "false", "true"))
			m.text(nsSpdx+"isFsfLibre", pick(r.g, "true", "false"))
			m.text(nsSpdx+"example", r.optText())
		}
		r.lics[iri] = m
		n.to(pred, m)
		return id
	}
	n.iri(pred, iri)
	return id
}

func (r *rdfGraph) simple(n *rnode, pred string) string {
	if len(r.refs) > 0 && r.g.oneIn(3) {
		id := pick(r.g, r.refs...)
		n.to(pred, r.lics[r.d.DocumentNamespace+"#"+id])
		return id
	}
	return r.listed(n, pred)
}

// operand draws what an exception applies to.
func (r *rdfGraph) operand(n *rnode) string {
	if r.orLater && r.g.oneIn(3) {
		return r.later(n, nsSpdx+"member")
	}
	if r.g.oneIn(4) {
		id := r.listedID()
		n.to(nsSpdx+"member", r.blank("SimpleLicensingInfo")).text(nsSpdx+"licenseId", id)
		return id
	}
	return r.simple(n, nsSpdx+"member")
}

func (r *rdfGraph) later(n *rnode, pred string) string {
	m := n.to(pred, r.blank("OrLaterOperator"))
	return r.simple(m, nsSpdx+"member") + "+"
}

// license draws a licence, makes it the object of the property, and gives the
// expression it is.
func (r *rdfGraph) license(n *rnode, pred string, special bool, depth int) (expr string) {
	g := r.g
	if special && g.oneIn(4) {
		s := pick(g, "NONE", "NOASSERTION")
		n.iri(pred, nsSpdx+pick(g, strings.ToLower(s), s))
		return s
	}
	if len(r.sets) > 0 && (depth > 0 || r.reuse == 1 && pred == nsSpdx+"member") && g.oneIn(2) && g.oneIn(r.reuse) {
		// one that is used before
		if s := r.sets[g.upto(len(r.sets)-1)]; len(s.expr) < 3000 {
			n.to(pred, s.node)
			return s.expr
		}
	}
	if depth > 0 && g.oneIn(2) {
		nodes := len(r.nodes)
		defer func() {
			if len(r.nodes) > nodes && r.nodes[nodes].about == "" {
				r.sets = append(r.sets, rdfSet{r.nodes[nodes], expr})
			}
		}()
		switch g.upto(5) {
		case 0, 1, 2, 3:
			op, typ := " AND ", "ConjunctiveLicenseSet"
			if g.oneIn(2) {
				op, typ = " OR ", "DisjunctiveLicenseSet"
			}
			m := n.to(pred, r.blank(typ))
			var members []string
			for i := 1 + g.upto(3); i > 0; i-- {
				members = append(members, "("+r.license(m, nsSpdx+"member", false, depth-1)+")")
			}
			return strings.Join(members, op)
		case 4:
			m := n.to(pred, r.blank("WithExceptionOperator"))
			id := r.operand(m)
			exc := pick(g, rdfExceptions...)
			iri := "http://spdx.org/licenses/" + exc
			e := r.lics[iri]
			if e == nil && g.oneIn(3) {
				m.iri(nsSpdx+"licenseException", iri)
				return id + " WITH " + exc
			}
			if e == nil {
				e = r.add(&rnode{typ: nsSpdx + "LicenseException", about: iri})
				e.text(nsSpdx+"licenseExceptionId", exc)
				e.text(nsSpdx+"name", r.optLine())
				e.text(nsSpdx+"licenseExceptionText", r.optText())
				e.text(nsRdfs+"comment", r.optText())
				e.text(nsSpdx+"example", r.optText())
				if g.opt() {
					e.text(nsRdfs+"seeAlso", r.uri())
				}
				r.lics[iri] = e
			}
			m.to(nsSpdx+"licenseException", e)
			return id + " WITH " + exc
		case 5:
			if r.orLater {
				return r.later(n, pred)
			}
		}
	}
	return r.simple(n, pred)
}

func (r *rdfGraph) optLicense(n *rnode, pred string) string {
	if r.g.opt() {
		return r.license(n, pred, true, r.depth)
	}
	return ""
}

// licenses draws several licences; the same IRI twice is one statement.
func (r *rdfGraph) licenses(n *rnode, pred string, depth int) []string {
	var out []string
	seen := map[string]bool{}
	for i := r.g.count(3); i > 0; i-- {
		m := &rnode{}
		s := r.license(m, pred, true, depth)
		p := m.props[0]
		if key := objectKey(p); key != "" {
			if seen[key] {
				continue
			}
			seen[key] = true
		}
		n.props = append(n.props, p)
		out = append(out, s)
	}
	return out
}

func objectKey(p rprop) string {
	if p.node != nil && p.node.about == "" {
		return fmt.Sprintf("%p", p.node)
	}
	if p.node != nil {
		return p.node.about
	}
	return p.iri
}

func (r *rdfGraph) actor(kinds ...string) (string, string) {
	return pick(r.g, kinds...), r.line()
}

func (r *rdfGraph) annotations(n *rnode, id string) {
	for i := r.g.count(1); i > 0; i-- {
		if p := r.again("annotation", n); p != nil {
			n.to(nsSpdx+"annotation", p.node)
			a := p.value.(v2_3.Annotation)
			a.AnnotationSPDXIdentifier = common.DocElementID{ElementRefID: common.ElementID(id)}
			r.d.Annotations = append(r.d.Annotations, &a)
			continue
		}
		m := n.to(nsSpdx+"annotation", r.blank("Annotation"))
		kind, who := r.actor("Person", "Organization", "Tool")
		a := &v2_3.Annotation{
			Annotator: common.Annotator{AnnotatorType: kind, Annotator: who}, AnnotationDate: r.date(),
			AnnotationType: pick(r.g, "OTHER", "REVIEW"), AnnotationComment: r.text(),
			AnnotationSPDXIdentifier: common.DocElementID{ElementRefID: common.ElementID(id)},
		}
		m.text(nsSpdx+"annotator", kind+": "+who)
		m.text(nsSpdx+"annotationDate", a.AnnotationDate)
		m.text(nsRdfs+"comment", a.AnnotationComment)
		m.iri(nsSpdx+"annotationType", nsSpdx+"annotationType_"+strings.ToLower(a.AnnotationType))
		r.keep("annotation", m, *a)
		r.d.Annotations = append(r.d.Annotations, a)
	}
}

func (r *rdfGraph) date() string { return xmlSafe(r.g.date()) }

func (r *rdfGraph) texts(n *rnode, pred string, ss []string) []string {
	for _, s := range ss {
		n.text(pred, s)
	}
	return ss
}

func (r *rdfGraph) file() *v2_3.File {
	g := r.g
	f := &v2_3.File{FileName: "./" + r.line(), FileSPDXIdentifier: g.id()}
	n := r.element("File", f.FileSPDXIdentifier)
	n.text(nsSpdx+"fileName", f.FileName)
	f.FileTypes = r.set(2, func() string { return g.fileTypes1() })
	for _, t := range f.FileTypes {
		n.iri(nsSpdx+"fileType", nsSpdx+"fileType_"+strings.ToLower(t))
	}
	f.Checksums = r.checksums(n)
	f.LicenseConcluded = r.optLicense(n, nsSpdx+"licenseConcluded")
	f.LicenseInfoInFiles = r.licenses(n, nsSpdx+"licenseInfoInFile", r.depth)
	f.LicenseComments = r.optText()
	n.text(nsSpdx+"licenseComments", f.LicenseComments)
	f.FileCopyrightText = r.copyright(n)
	f.FileComment = r.optText()
	n.text(nsRdfs+"comment", f.FileComment)
	f.FileNotice = r.optText()
	if g.oneIn(6) {
		f.FileNotice = "NOASSERTION"
		n.iri(nsSpdx+"noticeText", nsSpdx+pick(g, "noassertion", "NOASSERTION"))
	} else {
		n.text(nsSpdx+"noticeText", f.FileNotice)
	}
	f.FileContributors = r.texts(n, nsSpdx+"fileContributor", r.set(3, r.line))
	f.FileAttributionTexts = r.texts(n, nsSpdx+"attributionText", r.set(2, r.text))
	for i := g.count(2); i > 0; i-- {
		if p := r.again("project", n); p != nil {
			n.to(nsSpdx+"artifactOf", p.node)
			a := p.value.(v2_3.ArtifactOfProject)
			f.ArtifactOfProjects = append(f.ArtifactOfProjects, &a)
			continue
		}
		a := &v2_3.ArtifactOfProject{}
		if g.oneIn(3) {
			g.seq++
			a.URI = fmt.Sprintf("https://example.com/project/%d", g.seq)
			if g.oneIn(2) {
				n.iri(nsSpdx+"artifactOf", a.URI)
				f.ArtifactOfProjects = append(f.ArtifactOfProjects, a)
				continue
			}
		}
		m := r.add(&rnode{typ: nsDoap + "Project", about: a.URI})
		n.to(nsSpdx+"artifactOf", m)
		a.Name = r.line()
		m.text(nsDoap+"name", a.Name)
		if g.opt() {
			a.HomePage = r.uri()
			if g.oneIn(2) {
				m.iri(nsDoap+"homepage", a.HomePage)
			} else {
				m.text(nsDoap+"homepage", a.HomePage)
			}
		}
		r.keep("project", m, *a)
		f.ArtifactOfProjects = append(f.ArtifactOfProjects, a)
	}
	return f
}

func (g *G) fileTypes1() string {
	return pick(g, "SOURCE", "BINARY", "ARCHIVE", "APPLICATION", "AUDIO", "IMAGE", "TEXT", "VIDEO", "DOCUMENTATION", "SPDX", "OTHER")
}

func (r *rdfGraph) snippet(f *v2_3.File) {
	g := r.g
	s := &v2_3.Snippet{SnippetSPDXIdentifier: g.id(), SnippetFromFileSPDXIdentifier: f.FileSPDXIdentifier}
	n := r.element("Snippet", s.SnippetSPDXIdentifier)
	fn := r.elems[string(f.FileSPDXIdentifier)]
	n.to(nsSpdx+"snippetFromFile", fn)
	s.SnippetLicenseConcluded = r.optLicense(n, nsSpdx+"licenseConcluded")
	s.LicenseInfoInSnippet = r.licenses(n, nsSpdx+"licenseInfoInSnippet", r.depth)
	s.SnippetLicenseComments = r.optText()
	n.text(nsSpdx+"licenseComments", s.SnippetLicenseComments)
	s.SnippetCopyrightText = r.copyright(n)
	s.SnippetComment = r.optText()
	n.text(nsRdfs+"comment", s.SnippetComment)
	s.SnippetName = r.optLine()
	n.text(nsSpdx+"name", s.SnippetName)
	s.SnippetAttributionTexts = r.texts(n, nsSpdx+"attributionText", r.set(2, r.text))
	for i := g.count(3); i > 0; i-- {
		a, kind := 1+g.upto(300), g.upto(1)
		b := a + g.upto(90)
		if g.oneIn(8) {
			a, b = b, a // as stated, even when it is backwards
		}
		m := r.add(blank(nsPtr + "StartEndPointer"))
		n.to(nsSpdx+"range", m)
		rg := common.SnippetRange{}
		rg.StartPointer.FileSPDXIdentifier = f.FileSPDXIdentifier
		rg.EndPointer.FileSPDXIdentifier = f.FileSPDXIdentifier
		for j, v := range []int{a, b} {
			var p *rnode
			if kind == 0 {
				p = r.add(blank(nsPtr + "ByteOffsetPointer"))
				p.text(nsPtr+"offset", fmt.Sprint(v))
			} else {
				p = r.add(blank(nsPtr + "LineCharPointer"))
				p.text(nsPtr+"lineNumber", fmt.Sprint(v))
			}
			p.to(nsPtr+"reference", fn)
			m.to([]string{nsPtr + "startPointer", nsPtr + "endPointer"}[j], p)
		}
		if kind == 0 {
			rg.StartPointer.Offset, rg.EndPointer.Offset = a, b
		} else {
			rg.StartPointer.LineNumber, rg.EndPointer.LineNumber = a, b
		}
		s.Ranges = append(s.Ranges, rg)
	}
	if f.Snippets == nil {
		f.Snippets = map[common.ElementID]*v2_3.Snippet{}
	}
	f.Snippets[s.SnippetSPDXIdentifier] = s
}

func (r *rdfGraph) pkg(files []*v2_3.File) *v2_3.Package {
	g := r.g
	p := &v2_3.Package{PackageName: r.line(), PackageSPDXIdentifier: g.id(), FilesAnalyzed: true}
	n := r.element("Package", p.PackageSPDXIdentifier)
	n.text(nsSpdx+"name", p.PackageName)
	opt := func(field *string, pred string, s string) { *field = s; n.text(pred, s) }
	opt(&p.PackageVersion, nsSpdx+"versionInfo", r.optLine())
	opt(&p.PackageFileName, nsSpdx+"packageFileName", r.optLine())
	opt(&p.PackageSourceInfo, nsSpdx+"sourceInfo", r.optText())
	opt(&p.PackageLicenseComments, nsSpdx+"licenseComments", r.optText())
	opt(&p.PackageSummary, nsSpdx+"summary", r.optText())
	opt(&p.PackageDescription, nsSpdx+"description", r.optText())
	opt(&p.PackageComment, nsRdfs+"comment", r.optText())
	p.PackageCopyrightText = r.copyright(n)
	if g.opt() {
		p.PackageSupplier = &common.Supplier{Supplier: "NOASSERTION"}
		s := "NOASSERTION"
		if !g.oneIn(4) {
			p.PackageSupplier.SupplierType, p.PackageSupplier.Supplier = r.actor("Person", "Organization")
			s = p.PackageSupplier.SupplierType + ": " + p.PackageSupplier.Supplier
		}
		n.text(nsSpdx+"supplier", s)
	}
	if g.opt() {
		p.PackageOriginator = &common.Originator{Originator: "NOASSERTION"}
		s := "NOASSERTION"
		if !g.oneIn(4) {
			p.PackageOriginator.OriginatorType, p.PackageOriginator.Originator = r.actor("Person", "Organization")
			s = p.PackageOriginator.OriginatorType + ": " + p.PackageOriginator.Originator
		}
		n.text(nsSpdx+"originator", s)
	}
	p.PackageDownloadLocation = pick(g, "NONE", "NOASSERTION", "https://example.com/p.tgz", "git+https://git.example.com/x.git@v1#sub/dir", "")
	if g.oneIn(2) && p.PackageDownloadLocation != "" && p.PackageDownloadLocation[0] != 'N' {
		n.iri(nsSpdx+"downloadLocation", p.PackageDownloadLocation)
	} else {
		r.special(n, nsSpdx+"downloadLocation", p.PackageDownloadLocation)
	}
	if g.opt() {
		p.PackageHomePage = r.uri()
		if g.oneIn(2) {
			n.iri(nsDoap+"homepage", p.PackageHomePage)
		} else {
			n.text(nsDoap+"homepage", p.PackageHomePage)
		}
	}
	if g.opt() {
		p.IsFilesAnalyzedTagPresent = true
		p.FilesAnalyzed = !g.oneIn(3)
		n.text(nsSpdx+"filesAnalyzed", fmt.Sprint(p.FilesAnalyzed))
	}
	if x := r.again("code", n); x != nil {
		n.to(nsSpdx+"packageVerificationCode", x.node)
		p.PackageVerificationCode = &common.PackageVerificationCode{}
		project(x.value, p.PackageVerificationCode)
	} else if g.opt() {
		p.PackageVerificationCode = &common.PackageVerificationCode{Value: g.hex()}
		m := n.to(nsSpdx+"packageVerificationCode", r.blank("PackageVerificationCode"))
		m.text(nsSpdx+"packageVerificationCodeValue", p.PackageVerificationCode.Value)
		p.PackageVerificationCode.ExcludedFiles = r.texts(m, nsSpdx+"packageVerificationCodeExcludedFile", r.set(3, func() string { return "./" + r.line() }))
		r.keep("code", m, p.PackageVerificationCode)
	}
	p.PackageChecksums = r.checksums(n)
	p.PackageLicenseConcluded = r.optLicense(n, nsSpdx+"licenseConcluded")
	p.PackageLicenseDeclared = r.optLicense(n, nsSpdx+"licenseDeclared")
	p.PackageLicenseInfoFromFiles = r.licenses(n, nsSpdx+"licenseInfoFromFiles", 0)
	for i := g.count(3); i > 0; i-- {
		if x := r.again("externalRef", n); x != nil {
			n.to(nsSpdx+"externalRef", x.node)
			e := x.value.(v2_3.PackageExternalReference)
			p.PackageExternalReferences = append(p.PackageExternalReferences, &e)
			continue
		}
		e := &v2_3.PackageExternalReference{
			Category: pick(g, "SECURITY", "PACKAGE-MANAGER", "PERSISTENT-ID", "OTHER"),
			RefType:  pick(g, "http://spdx.org/rdf/references/cpe23Type", "http://spdx.org/rdf/references/purl", "https://example.com/ns#acme"),
			Locator:  xmlSafe(g.word()), ExternalRefComment: r.optText(),
		}
		m := n.to(nsSpdx+"externalRef", r.blank("ExternalRef"))
		m.iri(nsSpdx+"referenceCategory", nsSpdx+"referenceCategory_"+map[string]string{"SECURITY": "security", "PACKAGE-MANAGER": "packageManager", "PERSISTENT-ID": "persistentId", "OTHER": "other"}[e.Category])
		m.iri(nsSpdx+"referenceType", e.RefType)
		m.text(nsSpdx+"referenceLocator", e.Locator)
		m.text(nsRdfs+"comment", e.ExternalRefComment)
		r.keep("externalRef", m, *e)
		p.PackageExternalReferences = append(p.PackageExternalReferences, e)
	}
	p.PackageAttributionTexts = r.texts(n, nsSpdx+"attributionText", r.set(2, r.text))
	if g.ver == "2.3" {
		if g.opt() {
			p.PrimaryPackagePurpose = pick(g, "APPLICATION", "FRAMEWORK", "LIBRARY", "CONTAINER", "OPERATING-SYSTEM", "DEVICE", "FIRMWARE", "SOURCE", "ARCHIVE", "FILE", "INSTALL", "OTHER")
			s := strings.ReplaceAll(strings.ToLower(p.PrimaryPackagePurpose), "-", "_")
			switch g.upto(2) {
			case 0:
				n.iri(nsSpdx+"primaryPackagePurpose", nsSpdx+"purpose_"+s)
			case 1:
				n.iri(nsSpdx+"primaryPackagePurpose", nsSpdx+"packagePurpose_"+s)
			default:
				n.text(nsSpdx+"primaryPackagePurpose", "packagePurpose_"+s)
			}
		}
		for _, f := range []struct {
			field *string
			pred  string
		}{{&p.ReleaseDate, "releaseDate"}, {&p.BuiltDate, "builtDate"}, {&p.ValidUntilDate, "validUntilDate"}} {
			if g.opt() {
				opt(f.field, nsSpdx+f.pred, r.date())
			}
		}
	}
	for _, f := range files {
		n.to(nsSpdx+"hasFile", r.elems[string(f.FileSPDXIdentifier)])
		p.Files = append(p.Files, f)
	}
	return p
}

func (g *G) rdfDoc(depth int, orLater bool) *rdfGraph {
	g.full = g.upto(2)
	if g.oneIn(20) {
		g.huge = 1 + g.upto(30)
	}
	d := &v2_3.Document{
		SPDXVersion: "SPDX-" + g.ver, SPDXIdentifier: "DOCUMENT", DocumentNamespace: pick(g, "https://example.com/ns/1", "http://spdx.org/spdxdocs/a-b_c-1.0", "https://example.com/x?y=z&v=1"),
		CreationInfo: &v2_3.CreationInfo{},
	}
	r := &rdfGraph{g: g, d: d, elems: map[string]*rnode{}, lics: map[string]*rnode{}, depth: depth, orLater: orLater, reuse: pick(g, 1, 4, 4)}
	n := r.element("SpdxDocument", "DOCUMENT")
	r.docN = n
	n.text(nsSpdx+"specVersion", d.SPDXVersion)
	for i := g.count(3); i > 0; i-- {
		g.seq++
		id := fmt.Sprintf("LicenseRef-%s%d", pick(g, "", "a.b-", "Foo-"), g.seq)
		l := &v2_3.OtherLicense{LicenseIdentifier: id, ExtractedText: r.text(), LicenseName: r.optLine(), LicenseComment: r.optText()}
		m := r.add(&rnode{typ: nsSpdx + "ExtractedLicensingInfo", about: d.DocumentNamespace + "#" + id})
		n.to(nsSpdx+"hasExtractedLicensingInfo", m)
		m.text(nsSpdx+"licenseId", id)
		m.text(nsSpdx+"extractedText", l.ExtractedText)
		m.text(nsSpdx+"name", l.LicenseName)
		m.text(nsRdfs+"comment", l.LicenseComment)
		l.LicenseCrossReferences = r.texts(m, nsRdfs+"seeAlso", r.set(2, r.uri))
		r.lics[m.about] = m
		r.refs = append(r.refs, id)
		d.OtherLicenses = append(d.OtherLicenses, l)
	}
	d.DataLicense = "CC0-1.0"
	n.iri(nsSpdx+"dataLicense", "http://spdx.org/licenses/CC0-1.0")
	d.DocumentName = r.line()
	n.text(nsSpdx+"name", d.DocumentName)
	d.DocumentComment = r.optText()
	n.text(nsRdfs+"comment", d.DocumentComment)
	ci := n.to(nsSpdx+"creationInfo", r.blank("CreationInfo"))
	if g.opt() {
		d.CreationInfo.LicenseListVersion = pick(g, "3.18", "2.0")
		ci.text(nsSpdx+"licenseListVersion", d.CreationInfo.LicenseListVersion)
	}
	seen := map[string]bool{}
	for i := 1 + g.count(2); i > 0; i-- {
		kind, who := r.actor("Person", "Organization", "Tool")
		if s := kind + ": " + who; !seen[s] {
			seen[s] = true
			ci.text(nsSpdx+"creator", s)
			d.CreationInfo.Creators = append(d.CreationInfo.Creators, common.Creator{CreatorType: kind, Creator: who})
		}
	}
	d.CreationInfo.Created = r.date()
	ci.text(nsSpdx+"created", d.CreationInfo.Created)
	d.CreationInfo.CreatorComment = r.optText()
	ci.text(nsRdfs+"comment", d.CreationInfo.CreatorComment)

	for i := g.count(2); i > 0; i-- {
		g.seq++
		e := v2_3.ExternalDocumentRef{
			DocumentRefID: common.DocumentID(fmt.Sprintf("%s-%d", idWords.Draw(g.t, "id"), g.seq)),
			URI:           fmt.Sprintf("%s-%d", pick(g, "https://example.com/ext", "http://spdx.org/spdxdocs/other", "https://example.com/Ext/B"), g.seq),
		}
		if g.oneIn(12) { // it refers to itself
			e.URI = d.DocumentNamespace
		}
		if g.oneIn(4) {
			e.URI += "#"
		}
		m := n.to(nsSpdx+"externalDocumentRef", r.blank("ExternalDocumentRef"))
		m.text(nsSpdx+"externalDocumentId", "DocumentRef-"+string(e.DocumentRefID))
		m.iri(nsSpdx+"spdxDocument", e.URI)
		e.Checksum = r.checksum(m)
		d.ExternalDocumentReferences = append(d.ExternalDocumentReferences, e)
	}
	if g.opt() {
		for i := g.count(2); i > 0; i-- {
			v := &v2_3.Review{ReviewComment: r.optText()}
			m := n.to(nsSpdx+"reviewed", r.blank("Review"))
			v.ReviewerType, v.Reviewer = r.actor("Person", "Organization", "Tool")
			m.text(nsSpdx+"reviewer", v.ReviewerType+": "+v.Reviewer)
			v.ReviewDate = r.date()
			m.text(nsSpdx+"reviewDate", v.ReviewDate)
			m.text(nsRdfs+"comment", v.ReviewComment)
			d.Reviews = append(d.Reviews, v)
		}
	}
	var files []*v2_3.File
	for i := g.count(4); i > 0; i-- {
		files = append(files, r.file())
	}
	for _, f := range files {
		for i := g.count(2); i > 0; i-- {
			r.snippet(f)
		}
	}
	packaged := map[*v2_3.File]bool{}
	for i := g.count(3); i > 0; i-- {
		var mine []*v2_3.File
		for _, f := range files {
			if !packaged[f] && g.oneIn(2) || packaged[f] && g.oneIn(8) {
				mine = append(mine, f)
				packaged[f] = true
			}
		}
		p := r.pkg(mine)
		if g.oneIn(3) {
			n.to(nsSpdx+"describesPackage", r.elems[string(p.PackageSPDXIdentifier)])
		}
		d.Packages = append(d.Packages, p)
	}
	for _, f := range files {
		if !packaged[f] {
			d.Files = append(d.Files, f)
		}
	}
	for i, f := range files {
		if g.oneIn(6) {
			to := files[g.upto(len(files)-1)]
			if i != 0 || to != f { // now and then even a file that depends on itself
				r.elems[string(f.FileSPDXIdentifier)].to(nsSpdx+"fileDependency", r.elems[string(to.FileSPDXIdentifier)])
				f.FileDependencies = append(f.FileDependencies, string(to.FileSPDXIdentifier))
			}
		}
	}
	var ids []string
	for id := range r.elems {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		r.annotations(r.elems[id], id)
	}
	for i := g.count(5); i > 0; i-- {
		r.relationship(ids)
	}
	return r
}

func (r *rdfGraph) relationship(ids []string) {
	g, d := r.g, r.d
	a := ids[g.upto(len(ids)-1)]
	if g.oneIn(2) {
		a = "DOCUMENT"
	}
	if p := r.again("relationship", r.elems[a]); p != nil {
		// of another element; what it relates to is no element of this document
		r.elems[a].to(nsSpdx+"relationship", p.node)
		rel := p.value.(v2_3.Relationship)
		rel.RefA.ElementRefID = common.ElementID(a)
		d.Relationships = append(d.Relationships, &rel)
		return
	}
	rel := &v2_3.Relationship{RefA: common.DocElementID{ElementRefID: common.ElementID(a)}, Relationship: pick(g, relTypes...), RelationshipComment: r.optText()}
	if g.ver == "2.2" && (rel.Relationship == "REQUIREMENT_DESCRIPTION_FOR" || rel.Relationship == "SPECIFICATION_FOR") {
		rel.Relationship = "DEPENDS_ON"
	}
	m := r.elems[a].to(nsSpdx+"relationship", r.blank("Relationship"))
	name := rdfRelNames[rel.Relationship]
	if name == "amends" && g.oneIn(2) {
		name = "amendment"
	}
	m.iri(nsSpdx+"relationshipType", nsSpdx+"relationshipType_"+name)
	m.text(nsRdfs+"comment", rel.RelationshipComment)
	related := nsSpdx + "relatedSpdxElement"
	switch k := g.upto(5); {
	case k == 0:
		s := pick(g, "NONE", "NOASSERTION")
		m.iri(related, nsSpdx+pick(g, s, strings.ToLower(s)))
		rel.RefB.SpecialID = s
	case k == 1 && len(d.ExternalDocumentReferences) > 0:
		e := d.ExternalDocumentReferences[g.upto(len(d.ExternalDocumentReferences)-1)]
		if strings.TrimSuffix(e.URI, "#") == d.DocumentNamespace {
			rel.RefB.SpecialID = "NONE"
			m.iri(related, nsSpdx+"none")
			break
		}
		id := string(g.ref())
		rel.RefB = common.DocElementID{DocumentRefID: e.DocumentRefID, ElementRefID: common.ElementID(id)}
		iri := strings.TrimSuffix(e.URI, "#") + "#SPDXRef-" + id
		if g.oneIn(3) {
			iri = d.DocumentNamespace + "#DocumentRef-" + string(e.DocumentRefID) + ":SPDXRef-" + id
		}
		if el := r.elems[iri]; el != nil {
			m.to(related, el)
		} else if g.oneIn(2) {
			el := r.add(&rnode{typ: nsSpdx + "SpdxElement", about: iri})
			r.elems[iri] = el
			m.to(related, el)
		} else {
			m.iri(related, iri)
		}
	default:
		b := ids[g.upto(len(ids)-1)]
		rel.RefB.ElementRefID = common.ElementID(b)
		m.to(related, r.elems[b])
	}
	if rel.RefB.SpecialID != "" || rel.RefB.DocumentRefID != "" {
		r.keep("relationship", m, *rel)
	}
	d.Relationships = append(d.Relationships, rel)
}
