package main

import (
	"fmt"
	"io"
	"os"
	"path/filepath"
	"reflect"
	"strings"

	"github.com/spdx/tools-golang/convert"
	"github.com/spdx/tools-golang/tagvalue/reader"
	"pgregory.net/rapid"
)

// scribble overwrites whatever can be reached from v in place.
func scribble(v reflect.Value, seen map[uintptr]bool) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() || seen[v.Pointer()] {
			return
		}
		seen[v.Pointer()] = true
		scribble(v.Elem(), seen)
	case reflect.Interface:
		scribble(v.Elem(), seen)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			scribble(v.Field(i), seen)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			scribble(v.Index(i), seen)
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			scribble(v.MapIndex(k), seen)
			if v.CanSet() {
				v.SetMapIndex(k, reflect.Value{})
			}
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString("scribbled")
		}
	case reflect.Int, reflect.Int64:
		if v.CanSet() {
			v.SetInt(77)
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
		}
	}
}

// disturb, now and then, does with the same text what must not matter to the
// reading that follows: reads it in part, or overwrites what was read from it.
func (g *G) disturb(format, ver, text string) {
	if !g.oneIn(6) {
		return
	}
	g.disturbBy(g.upto(5), format, ver, text)
}

var disturbances = []string{"a part is read", "a part is read as the latest version", "a reader fails", "what is read is overwritten", "what is read is converted and overwritten", "pairs"}

func (g *G) disturbBy(how int, format, ver, text string) {
	cut := func() string { return text[:len(text)*g.upto(16)/16] }
	switch how {
	case 0:
		_ = readInto(format, cut(), emptyDoc(ver))
	case 1:
		_, _ = readLatest(format, cut())
	case 2:
		_ = readFrom(format, io.MultiReader(strings.NewReader(cut()), &faultyReader{err: io.ErrClosedPipe, piece: 1}), emptyDoc(ver))
	case 3:
		d := emptyDoc(ver)
		if readInto(format, text, d) == nil {
			scribble(reflect.ValueOf(d), map[uintptr]bool{})
		}
	case 4:
		d, e := emptyDoc(ver), emptyDoc(pick(g, versions...))
		if readInto(format, text, d) == nil && convert.Document(d, e) == nil {
			scribble(reflect.ValueOf(e), map[uintptr]bool{})
			scribble(reflect.ValueOf(d), map[uintptr]bool{})
		}
	case 5:
		if format == "tv" {
			pairs, _ := reader.ReadTagValues(strings.NewReader(cut()))
			scribble(reflect.ValueOf(pairs), map[uintptr]bool{})
		}
	}
}

// history: what was done before does not matter to what is done now.
func history(t *rapid.T, c *Ctx) {
	g := &G{t: t, fmt: "common", ver: "2.3"}
	jobs := g.coldJobs(t, c)
	for _, j := range jobs {
		if j.Dir != "" {
			defer os.RemoveAll(filepath.Dir(j.Dir))
		}
		c.Log("%s %s %s %s %s", j.Kind, j.Format, j.Version, j.To, clip(j.Text, 800))
	}
	n := 3 + g.upto(9)
	for i := 0; i < n; i++ {
		k := g.upto(len(jobs) - 1)
		j := jobs[k]
		if j.Text != "" && g.oneIn(2) {
			how := g.upto(len(disturbances) - 1)
			c.Log("step %d: with the text of job %d, %s", i, k, disturbances[how])
			c.Class(disturbances[how])
			g.disturbBy(how, j.Format, j.Version, j.Text)
			continue
		}
		c.Log("step %d: job %d", i, k)
		if s := j.run(); s != j.Want {
			t.Fatalf("step %d: %s %s %s %s gave at first\n%s\nbut then\n%s", i, j.Kind, j.Format, j.Version, j.To, j.Want, s)
		}
	}
	c.Nontrivial(fmt.Sprintf("%q", jobs))
}
