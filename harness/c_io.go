package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"strings"
	"sync"
	"syscall"
	"testing/iotest"

	"github.com/spdx/tools-golang/convert"
	"github.com/spdx/tools-golang/json"
	"github.com/spdx/tools-golang/rdf"
	"github.com/spdx/tools-golang/reporter"
	"github.com/spdx/tools-golang/spdx"
	"github.com/spdx/tools-golang/spdx/v2/v2_3"
	"github.com/spdx/tools-golang/spdxlib"
	"github.com/spdx/tools-golang/tagvalue"
	"github.com/spdx/tools-golang/tagvalue/reader"
	"github.com/spdx/tools-golang/utils"
	"github.com/spdx/tools-golang/yaml"
	"pgregory.net/rapid"
)

var errInjected = errors.New("injected fault")

// faults are the errors readers and writers fail with: any of them counts, but
// io.EOF itself from a reader.
func (g *G) fault() error {
	return pick[error](g, errInjected, errInjected, io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrNoProgress, io.ErrShortBuffer, io.ErrShortWrite, os.ErrDeadlineExceeded, os.ErrNotExist,
		context.Canceled, syscall.EINTR, syscall.EAGAIN, error(&os.PathError{Op: "read", Path: "x", Err: syscall.EIO}), fmt.Errorf("in a layer: %w", io.EOF), errors.New("EOF"), errors.New(""))
}

// faultyReader delivers the data in pieces up to a point and fails there.
type faultyReader struct {
	data  []byte
	fail  int // offset of the failure
	piece int
	with  bool // the last bytes come together with the error
	once  bool // after failing it goes on
	err   error
	pos   int

	failed bool
}

func (r *faultyReader) Read(p []byte) (int, error) {
	end := r.fail
	if r.failed && r.once {
		end = len(r.data)
		if r.pos == end {
			return 0, io.EOF
		}
	} else if r.pos >= r.fail {
		r.failed = true
		return 0, r.err
	}
	n := end - r.pos
	if n > r.piece {
		n = r.piece
	}
	n = copy(p, r.data[r.pos:r.pos+n])
	r.pos += n
	if r.pos >= r.fail && r.with && !r.failed {
		r.failed = true
		return n, r.err
	}
	return n, nil
}

// faultyWriter takes bytes up to a point and fails there, once or from then on.
type faultyWriter struct {
	got   bytes.Buffer
	limit int
	once  bool
	hit   bool
	err   error
	calls int
}

func (w *faultyWriter) Write(p []byte) (int, error) {
	w.calls++
	if w.hit && w.once {
		return w.got.Write(p)
	}
	if w.got.Len()+len(p) > w.limit || w.hit {
		n := 0
		if !w.hit {
			n = w.limit - w.got.Len()
		}
		w.hit = true
		w.got.Write(p[:n])
		return n, w.err
	}
	return w.got.Write(p)
}

func readFrom(format string, r io.Reader, doc any) error {
	switch format {
	case "json":
		return json.ReadInto(r, doc)
	case "yaml":
		return yaml.ReadInto(r, doc)
	case "tv":
		return tagvalue.ReadInto(r, doc)
	}
	return rdf.ReadInto(r, doc)
}

func readFault(t *rapid.T, c *Ctx) {
	format := pick(g0(t), "tv", "json", "yaml", "rdf")
	ver := pick(g0(t), versions...)
	if format == "rdf" && ver == "2.1" {
		ver = "2.3"
	}
	g := &G{t: t, fmt: map[string]string{"tv": "tv", "json": "json", "yaml": "json", "rdf": "tv"}[format], ver: ver}
	d := g.doc23()
	text := ""
	if format == "rdf" {
		text = smallRDF(ver, g.oneIn(2))
	} else {
		text = g.refText(format, ver, d)
	}
	data := []byte(text)
	// the same document in any pieces
	whole, pieces := emptyDoc(ver), emptyDoc(ver)
	if err := readFrom(format, strings.NewReader(text), whole); err != nil {
		t.Fatalf("reading failed: %v", err)
	}
	var r io.Reader = strings.NewReader(text)
	switch g.upto(3) {
	case 0:
		r = iotest.OneByteReader(r)
	case 1:
		r = iotest.HalfReader(r)
	case 2:
		r = iotest.DataErrReader(r)
	case 3:
		r = &pieceReader{data: data, piece: 1 + g.upto(40), empty: pick(g, 0, 2, 3, 10)}
	}
	if err := readFrom(format, r, pieces); err != nil {
		t.Fatalf("reading in pieces failed: %v\n%s", err, text)
	}
	if format != "rdf" {
		if df := Diff(Tree(whole, nil), Tree(pieces, nil)); df != "" {
			t.Fatalf("read in pieces differs %s\n%s", df, text)
		}
	}
	// a reader that fails somewhere, at the very end too
	fr := &faultyReader{data: data, piece: pick(g, 1<<20, 1, 7, 512, 4096), with: g.oneIn(2), once: g.oneIn(3), err: g.fault()}
	fr.fail = rapid.IntRange(0, len(data)).Draw(t, "fail")
	if g.oneIn(5) {
		fr.fail = len(data)
	}
	c.Log("%s, failing with %q at byte %d of %d (pieces of %d, with data %v, once %v):\n%s", format, fr.err, fr.fail, len(data), fr.piece, fr.with, fr.once, text)
	target := emptyDoc(ver)
	if g.oneIn(2) {
		old := &G{t: t, fmt: "common", ver: ver}
		target = as(ver, old.doc23())
	}
	before := ShowFull(Tree(target, nil))
	err := readFrom(format, fr, target)
	if err == nil {
		t.Fatalf("no error, though the reader failed at byte %d of %d", fr.fail, len(data))
	}
	if after := ShowFull(Tree(target, nil)); after != before {
		t.Fatalf("the reader failed, and the target was changed to %s", after)
	}
	c.Class(format)
	if fr.fail == len(data) {
		c.Class("at the end")
	}
	if len(data) > 500 {
		c.Nontrivial(fmt.Sprint(fr.fail, text))
	}
}

type pieceReader struct {
	data  []byte
	piece int
	empty int // now and then it delivers nothing
	calls int
}

func (r *pieceReader) Read(p []byte) (int, error) {
	if len(r.data) == 0 {
		return 0, io.EOF
	}
	r.calls++
	if r.empty > 0 && r.calls%r.empty == 0 {
		return 0, nil
	}
	n := r.piece
	if n > len(p) {
		n = len(p)
	}
	n = copy(p[:n], r.data)
	r.data = r.data[n:]
	return n, nil
}

// smallRDF is a minimal document.
func smallRDF(ver string, more bool) string {
	s := `<rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#" xmlns:spdx="http://spdx.org/rdf/terms#" xmlns:rdfs="http://www.w3.org/2000/01/rdf-schema#">
  <spdx:SpdxDocument rdf:about="http://example.com/ns#SPDXRef-DOCUMENT">
    <spdx:specVersion>SPDX-` + ver + `</spdx:specVersion>
    <spdx:name>n</spdx:name>
    <spdx:dataLicense rdf:resource="http://spdx.org/licenses/CC0-1.0"/>
    <rdfs:comment>c &amp; d</rdfs:comment>
`
	if more {
		s += `    <spdx:creationInfo>
      <spdx:CreationInfo>
        <spdx:creator>Person: a</spdx:creator>
        <spdx:created>2018-10-10T06:20:00Z</spdx:created>
      </spdx:CreationInfo>
    </spdx:creationInfo>
`
	}
	return s + "  </spdx:SpdxDocument>\n</rdf:RDF>\n"
}

func writeFault(t *rapid.T, c *Ctx) {
	format := pick(g0(t), "tv", "json", "yaml", "report")
	ver := pick(g0(t), versions...)
	g := &G{t: t, fmt: "common", ver: ver}
	d := g.doc23()
	doc := as(ver, d)
	var opts []json.WriteOption
	if g.oneIn(2) {
		opts = append(opts, json.Indent(" "))
	}
	write := func(w io.Writer) error {
		switch format {
		case "json":
			return json.Write(doc, w, opts...)
		case "report":
			p := &spdx.Package{FilesAnalyzed: true, Files: d.Files}
			return reporter.Generate(p, w)
		}
		return write(format, doc, w)
	}
	var whole bytes.Buffer
	if err := write(&whole); err != nil {
		t.Fatalf("writing failed: %v", err)
	}
	n := whole.Len()
	fw := &faultyWriter{once: g.oneIn(2), err: g.fault()}
	fw.limit = rapid.IntRange(0, n-1).Draw(t, "limit")
	if g.oneIn(4) {
		fw.limit = n - 1 - g.upto(1)
	}
	c.Log("%s of %d bytes, failing with %v at %d (once: %v):\n%s", format, n, fw.err, fw.limit, fw.once, whole.String())
	err := write(fw)
	if err == nil {
		t.Fatalf("no error, though the writer failed at byte %d of %d", fw.limit, n)
	}
	if !fw.hit {
		t.Fatalf("an error, though the writer did not fail: %v", err)
	}
	if !bytes.HasPrefix(whole.Bytes(), fw.got.Bytes()[:fw.limit]) {
		t.Fatalf("what came before the failure is not the beginning of what was to be written: %q", fw.got.String())
	}
	// just enough room is no failure
	fw = &faultyWriter{limit: n}
	if err := write(fw); err != nil || !bytes.Equal(fw.got.Bytes(), whole.Bytes()) {
		t.Fatalf("with room for %d bytes: %v, %q", n, err, fw.got.String())
	}
	c.Class(format)
	if n > 200 {
		c.Nontrivial(fmt.Sprint(fw.limit, whole.String()))
	}
}

// writers: the same bytes for the same document, and nothing changed.

func writerPurity(t *rapid.T, c *Ctx) {
	format := pick(g0(t), "tv", "json", "yaml")
	ver := pick(g0(t), versions...)
	g := &G{t: t, fmt: format, ver: ver}
	d := g.doc23()
	doc := as(ver, d)
	c.Log("%s %s: %s", format, ver, ShowFull(Tree(doc, nil)))
	before := ShowFull(Tree(doc, nil))
	one, err := writeString(format, doc)
	if err != nil {
		t.Fatalf("writing failed: %v", err)
	}
	if format != "tv" {
		if after := ShowFull(Tree(doc, nil)); after != before {
			t.Fatalf("writing changed the document to %s", after)
		}
	} else {
		// the order of external documents, packages and files aside
		mid := &v2_3.Document{}
		project(doc, mid)
		if df := Diff(ordered(d, ver), ordered(mid, ver)); df != "" {
			t.Fatalf("writing changed the document %s", df)
		}
	}
	// again, by value, and a copy of it
	copied := emptyDoc(ver)
	project(doc, copied)
	for i, x := range []any{doc, deref(doc), copied, deref(copied)} {
		s, err := writeString(format, x)
		if err != nil {
			t.Fatalf("writing %d failed: %v", i, err)
		}
		if s != one {
			t.Fatalf("the same document written once as\n%s\nand once (%d) as\n%s", one, i, s)
		}
	}
	if format == "tv" {
		// the order of what is sorted does not matter
		mid := &v2_3.Document{}
		project(doc, mid)
		mid.ExternalDocumentReferences = shuffled(g, mid.ExternalDocumentReferences)
		mid.Packages = shuffled(g, mid.Packages)
		mid.Files = shuffled(g, mid.Files)
		for _, p := range mid.Packages {
			p.Files = shuffled(g, p.Files)
		}
		s, err := writeString(format, as(ver, mid))
		if err != nil || s != one {
			t.Fatalf("packages and files in another order give (%v)\n%s\nnot\n%s", err, s, one)
		}
	}
	if len(one) > 500 {
		c.Nontrivial(one)
	}
}

func ordered(d *v2_3.Document, ver string) any {
	cp := &v2_3.Document{}
	project(d, cp)
	return Tree(as(ver, tvSorted(cp)), nil)
}

// notDocuments: what is no document is not written.
func notDocuments(t *rapid.T, c *Ctx) {
	g := g0(t)
	x := pick[any](g, nil, (*v2_3.Document)(nil), 1, "SPDX-2.3", &v2_3.Package{}, v2_3.Package{}, []v2_3.Document{}, map[string]string{}, struct{}{}, &struct{ SPDXVersion string }{"SPDX-2.3"})
	switch g.upto(3) {
	case 0:
		// anything, of any size
		x = pick[any](g, struct{ A, B string }{strings.Repeat(g.word(), g.upto(80)), g.text()}, v2_3.Package{PackageName: g.line(), PackageComment: strings.Repeat(g.text(), g.upto(20))},
			&v2_3.File{FileComment: g.text()}, strings.Repeat(pick(g, "日", "é", "a😀", "ab "), g.upto(330)), []string{strings.Repeat(pick(g, "日", "é", "a😀"), g.upto(330))},
			(&G{t: t, fmt: "tv", ver: "2.3"}).doc23().Packages, map[string]any{g.word(): g.text()})
	case 1, 2:
		// a document that lacks its creation information
		ver := pick(g, versions...)
		d := (&G{t: t, fmt: "tv", ver: ver}).doc23()
		d.CreationInfo = nil
		x = as(ver, d)
		if g.oneIn(2) {
			x = deref(x)
		}
	}
	c.Log("%T", x)
	var b bytes.Buffer
	if err := tagvalue.Write(x, &b); err == nil || b.Len() > 0 {
		t.Fatalf("%T written as tag-value: %v, %q", x, err, b.String())
	}
	c.Nontrivial(fmt.Sprintf("%T %s", x, ShowFull(Tree(x, nil))))
}

// concurrent: users of different, or of one unchanging, document do not
// disturb each other.
func concurrent(t *rapid.T, c *Ctx) {
	ver := pick(g0(t), versions...)
	g := &G{t: t, fmt: "common", ver: ver}
	d := g.doc23()
	d.Annotations = nil
	d = tvSorted(d) // the order the tag-value writer leaves it in
	doc := as(ver, d)
	texts := map[string]string{}
	wants := map[string]any{}
	for _, f := range []string{"tv", "json", "yaml"} {
		s, err := writeString(f, doc)
		if err != nil {
			t.Fatalf("writing failed: %v", err)
		}
		texts[f] = s
		x := emptyDoc(ver)
		if err := readInto(f, s, x); err != nil {
			t.Fatalf("reading failed: %v", err)
		}
		wants[f] = Tree(x, nil)
	}
	latest, err := readLatest("json", texts["json"])
	if err != nil {
		t.Fatalf("reading failed: %v", err)
	}
	wantLatest := Tree(latest, nil)
	c.Log("document: %s", ShowFull(Tree(doc, nil)))
	n := 3 + g.upto(3)
	type job struct {
		name string
		run  func() string
	}
	var jobs []job
	add := func(name string, run func() string) { jobs = append(jobs, job{name, run}) }
	for i := 0; i < n; i++ {
		f := pick(g, "tv", "json", "yaml")
		switch g.upto(5) {
		case 0, 1:
			shared := doc
			if f == "tv" { // sorts what it is given: a copy for each
				shared = emptyDoc(ver)
				project(doc, shared)
			}
			add("write "+f, func() string {
				s, err := writeString(f, shared)
				if err != nil || s != texts[f] {
					return fmt.Sprintf("wrote (%v) %s", err, s)
				}
				return ""
			})
		case 2, 3:
			add("read "+f, func() string {
				x := emptyDoc(ver)
				if err := readInto(f, texts[f], x); err != nil {
					return err.Error()
				}
				return Diff(wants[f], Tree(x, nil))
			})
		case 4:
			add("convert", func() string {
				x := emptyDoc("2.3")
				if err := convert.Document(doc, x); err != nil {
					return err.Error()
				}
				s, err := writeString("json", x)
				if err != nil || len(s) == 0 {
					return fmt.Sprint("writing what was converted: ", err)
				}
				return ""
			})
		case 5:
			add("library", func() string {
				_ = spdxlib.ValidateDocument(latest)
				_, _ = spdxlib.GetDescribedPackageIDs(latest)
				for _, p := range latest.Packages {
					_, _ = utils.GetVerificationCode(p.Files, "")
					_ = reporter.Generate(p, io.Discard)
				}
				_, _ = reader.ReadTagValues(strings.NewReader(texts["tv"]))
				return Diff(wantLatest, Tree(latest, nil))
			})
		}
	}
	out := make([]string, len(jobs))
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i, j := range jobs {
		wg.Add(1)
		go func(i int, j job) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					out[i] = fmt.Sprint("panic: ", r)
				}
			}()
			<-start
			out[i] = j.run()
		}(i, j)
	}
	close(start)
	wg.Wait()
	for i, s := range out {
		if s != "" {
			t.Fatalf("%s, together with %d others: %s", jobs[i].name, len(jobs)-1, s)
		}
	}
	if n > 3 {
		c.Nontrivial(texts["json"])
	}
}
