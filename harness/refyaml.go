package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
)

// yamlText renders a value as YAML in block style, with flow style mixed in,
// plain, single-quoted, double-quoted and block scalars, and comments.
func (g *G) yamlText(v obj) string {
	g.inYAML = true
	defer func() { g.inYAML = false }()
	var b strings.Builder
	if g.oneIn(3) {
		b.WriteString(pick(g, "---\n", "# comment\n", "%YAML 1.1\n---\n"))
	}
	g.yamlMap(&b, v, 0)
	if g.oneIn(6) {
		b.WriteString("# end\n")
	}
	return b.String()
}

func pad(b *strings.Builder, n int) { b.WriteString(strings.Repeat(" ", n)) }

func (g *G) yamlMap(b *strings.Builder, o obj, ind int) {
	ks := make([]string, 0, len(o))
	for k := range o {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	ks = shuffled(g, ks)
	for i, k := range ks {
		if i > 0 || b.Len() == 0 || strings.HasSuffix(b.String(), "\n") {
			pad(b, ind)
		}
		if g.oneIn(15) {
			k = pick(g, `"`+k+`"`, `'`+k+`'`)
		}
		b.WriteString(k + ":")
		g.yamlVal(b, o[strings.Trim(k, `"'`)], ind)
	}
}

// yamlVal writes what follows "key:" or "-", including the end of the line.
func (g *G) yamlVal(b *strings.Builder, v any, ind int) {
	switch x := v.(type) {
	case []any:
		if len(x) == 0 || g.oneIn(10) {
			b.WriteString(" ")
			g.jsonVal(b, x, 0)
			b.WriteString("\n")
			return
		}
		b.WriteString("\n")
		in := ind + g.upto(2)
		for _, y := range x {
			pad(b, in)
			b.WriteString("-")
			if o, ok := y.(obj); ok && len(o) > 0 && g.oneIn(2) {
				b.WriteString(" ")
				g.yamlMapInline(b, o, in+2)
				continue
			}
			g.yamlVal(b, y, in+1)
		}
	case obj:
		if len(x) == 0 || g.oneIn(10) {
			b.WriteString(" ")
			g.jsonVal(b, x, 0)
			b.WriteString("\n")
			return
		}
		b.WriteString("\n")
		g.yamlMap(b, x, ind+1+g.upto(2))
	case nil:
		b.WriteString(pick(g, " null", " ~", "") + "\n")
	case bool, int:
		fmt.Fprintf(b, " %v%s\n", x, pick(g, "", "", " # comment"))
	case string:
		g.yamlString(b, x, ind)
	case json.Number:
		b.WriteString(" " + string(x) + "\n")
	default:
		panic(fmt.Sprintf("yamlVal: %T", v))
	}
}

// yamlMapInline starts a mapping on the line of its dash.
func (g *G) yamlMapInline(b *strings.Builder, o obj, ind int) {
	var t strings.Builder
	g.yamlMap(&t, o, ind)
	b.WriteString(strings.TrimPrefix(t.String(), strings.Repeat(" ", ind)))
}

func (g *G) yamlString(b *strings.Builder, s string, ind int) {
	plain := s != "" && !strings.ContainsAny(s, "\n\r\t\"'\\{}[],&*#?|<>=!%@`~:\u00a0\u2028\ufeff\u0085") && s == strings.TrimSpace(s)
	for _, r := range s {
		if r < 0x20 || r >= 0x7f && r < 0xa0 || r == 0x200b || r == 0x202e || r >= 0xfff0 && r <= 0xffff || r == 0x2029 {
			plain = false
		}
	}
	quotable := true
	for _, r := range s {
		if r < 0x20 && r != '\t' || r >= 0x7f && r < 0xa0 || r == 0xfffe || r == 0xffff || r == 0x2028 || r == 0x2029 || r == 0xfeff {
			quotable = false
		}
	}
	if plain && (s[0] >= 'a' && s[0] <= 'z' || s[0] >= 'A' && s[0] <= 'Z') && !contains([]string{"null", "true", "false", "yes", "no", "on", "off", "y", "n", "Null", "True", "NO", "Y", "N", "No", "Yes"}, s) && g.oneIn(2) {
		b.WriteString(" " + s + pick(g, "", "", " # c") + "\n")
		return
	}
	lines := strings.Split(s, "\n")
	block := len(lines) > 1
	for _, l := range lines {
		for _, r := range l {
			if r < 0x20 || r >= 0x7f && r < 0xa0 || r >= 0xfff0 && r <= 0xffff || r == 0x2028 || r == 0x2029 || r == 0xfeff {
				block = false
			}
		}
	}
	if block && lines[0] != "" && lines[0][0] != ' ' && lines[len(lines)-1] != "" && !strings.HasPrefix(lines[len(lines)-1], " ") && strings.TrimSpace(lines[len(lines)-1]) != "" && g.oneIn(2) {
		b.WriteString(" |-\n")
		for _, l := range lines {
			if l != "" {
				pad(b, ind+2)
			}
			b.WriteString(l + "\n")
		}
		return
	}
	if quotable && g.oneIn(3) && s == strings.TrimSpace(s) {
		b.WriteString(" '" + strings.ReplaceAll(s, "'", "''") + "'\n")
		return
	}
	b.WriteString(" ")
	var t strings.Builder
	t.WriteByte('"')
	for _, r := range s {
		switch {
		case r == '"' || r == '\\':
			t.WriteByte('\\')
			t.WriteRune(r)
		case r == '\n':
			t.WriteString(`\n`)
		case r == '\t' && g.oneIn(2):
			t.WriteString(`\t`)
		case r < 0x20 || r >= 0x7f && r < 0xa0:
			fmt.Fprintf(&t, `\x%02x`, r)
		case r == 0x2028 || r == 0x2029 || r == 0xfeff || r == 0xfffe || r == 0xffff:
			fmt.Fprintf(&t, `\u%04X`, r)
		default:
			t.WriteRune(r)
		}
	}
	t.WriteByte('"')
	b.WriteString(t.String() + "\n")
}
