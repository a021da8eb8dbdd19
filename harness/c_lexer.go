package main

import (
	"fmt"
	"io"
	"strings"
	"testing/iotest"

	"github.com/spdx/tools-golang/tagvalue/reader"
	"pgregory.net/rapid"
)

// lexer: what the lexer of tag-value files makes of a file is the pairs the
// file was spelled from, whatever the pieces the reader delivers.
func lexer(t *rapid.T, c *Ctx) {
	g := &G{t: t, fmt: "tv", ver: "2.3"}
	nl := pick(g, "\n", "\n", "\r\n")
	var want []reader.TagValuePair
	var b strings.Builder
	n := g.upto(8)
	long := g.oneIn(12)
	for i := 0; i < n; i++ {
		for g.oneIn(4) {
			b.WriteString(pick(g, "", "   ", "\t\t", "#", "# PackageName: x", " \t# <text>", "## </text>", "\u00a0", "#\u2028:"))
			b.WriteString(nl)
		}
		tag := strings.NewReplacer(":", "", "#", "", "\r", "", "\n", "").Replace(pick(g, "PackageName", "X", "FileComment", "SPDXID", g.line()))
		tag = strings.TrimSpace(tag)
		b.WriteString(pick(g, "", "", "  ", "\t", "\u00a0", "\f", "\u2003"))
		b.WriteString(tag)
		b.WriteString(pick(g, "", "", "", " ", "\t", "\u00a0", "\v"))
		b.WriteByte(':')
		val := ""
		switch g.upto(5) {
		case 0: // single line
			val = g.line()
			if g.oneIn(6) {
				val = pick(g, "</text>", "a</text>b", "</text> x", "<text", "text>", "< text>x</ text>", "a: b", ":", "::x", "# no comment", "a # b", "<TEXT>a</TEXT>", "<te", "\\n")
			}
			b.WriteString(pick(g, "", " ", "   ", "\t") + val + pick(g, "", " ", "\t", "\u00a0", "\u2003", "\v"))
		case 1: // nothing
			b.WriteString(pick(g, "", " ", "\t"))
		default: // text
			val = g.text()
			if g.oneIn(4) {
				val = pick(g, "", "\n", " ", "\n\n", " \n ", "\t", "#", "a: b\nc: d", "<text>", "\n#x\n", "a<text>\nb", "</text", "<text><text>", "</tex t>", "< /text>", "</TEXT>\n</Text>", "X:\n", "\nPackageName: <text>x\n", "</\ntext>", "\n<text>\n")
			}
			if long {
				long = false
				k := 70000 + g.upto(7)*30011
				val = strings.Repeat("x", k) + pick(g, "", "\n", " ") + val
				c.Class("line over 64 KB")
			}
			val = strings.ReplaceAll(val, "\r", "")
			b.WriteString(pick(g, "", " ", "  "))
			b.WriteString("<text>" + strings.ReplaceAll(val, "\n", nl) + "</text>" + pick(g, "", " ", "\t"))
		}
		want = append(want, reader.TagValuePair{Tag: tag, Value: val})
		if i+1 < n || g.oneIn(2) {
			b.WriteString(nl)
		}
	}
	text := b.String()
	c.Log("file: %q", clip(text, 3000))
	var r io.Reader = strings.NewReader(text)
	how := "whole"
	switch g.upto(4) {
	case 0:
		if len(text) < 4000 {
			r, how = iotest.OneByteReader(r), "byte by byte"
		}
	case 1:
		r, how = iotest.DataErrReader(r), "data with EOF"
	case 2:
		r, how = iotest.HalfReader(r), "halves"
	}
	c.Class(how)
	g.disturb("tv", "2.3", text)
	got, err := reader.ReadTagValues(r)
	if err != nil {
		t.Fatalf("error: %v", err)
	}
	for i := range want {
		if i >= len(got) {
			t.Fatalf("want %d pairs, got %d", len(want), len(got))
		}
		if want[i] != got[i] {
			t.Fatalf("pair %d: want %q, got %q", i, clip(fmt.Sprint(want[i]), 300), clip(fmt.Sprint(got[i]), 300))
		}
	}
	if len(got) != len(want) {
		t.Fatalf("want %d pairs, got %d (%q)", len(want), len(got), got[len(want)])
	}
	if n > 1 {
		c.Nontrivial(text)
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + fmt.Sprintf("...(%d bytes)", len(s))
	}
	return s
}
