package main

import (
	"bytes"
	stdjson "encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"

	"github.com/spdx/tools-golang/builder"
	"github.com/spdx/tools-golang/convert"
	"github.com/spdx/tools-golang/idsearcher"
	"github.com/spdx/tools-golang/licensediff"
	"github.com/spdx/tools-golang/reporter"
	"github.com/spdx/tools-golang/spdxlib"
	"github.com/spdx/tools-golang/tagvalue/reader"
	"github.com/spdx/tools-golang/utils"
	"pgregory.net/rapid"
)

// A coldJob is one thing a user does with nothing shared but what the library
// itself shares. All it gives is in the string it returns.
type coldJob struct {
	Kind, Format, Version, To, Text, Dir string
	Want                                 string
}

func (j *coldJob) run() (out string) {
	defer func() {
		if r := recover(); r != nil {
			out = fmt.Sprint("panic: ", r)
		}
	}()
	done := func(s string, err error) string {
		if err != nil {
			return s + " error " + err.Error()
		}
		return s
	}
	switch j.Kind {
	case "rewrite":
		x := emptyDoc(j.Version)
		if err := readInto(j.Format, j.Text, x); err != nil {
			return err.Error()
		}
		return done(writeString(j.To, x))
	case "latest":
		x, err := readLatest(j.Format, j.Text)
		if err != nil {
			return err.Error()
		}
		return done(writeString("json", x))
	case "convert":
		x := emptyDoc(j.Version)
		if err := readInto(j.Format, j.Text, x); err != nil {
			return err.Error()
		}
		y := emptyDoc(j.To)
		if err := convert.Document(x, y); err != nil {
			return err.Error()
		}
		return done(writeString("json", y))
	case "library":
		x, err := readLatest(j.Format, j.Text)
		if err != nil {
			return err.Error()
		}
		var b strings.Builder
		ids, err := spdxlib.GetDescribedPackageIDs(x)
		fmt.Fprintln(&b, spdxlib.ValidateDocument(x), ids, err)
		for i, p := range x.Packages {
			code, err := utils.GetVerificationCode(p.Files, "")
			fmt.Fprintln(&b, code, err)
			fmt.Fprintln(&b, reporter.Generate(p, &b))
			pairs, err := licensediff.MakePairs(x.Packages[0], p)
			fmt.Fprintln(&b, i, pairs, err)
			res, err := licensediff.MakeResults(pairs)
			fmt.Fprintln(&b, res, err)
		}
		return b.String()
	case "pairs":
		pairs, err := reader.ReadTagValues(strings.NewReader(j.Text))
		return fmt.Sprintf("%q %v", pairs, err)
	case "build":
		x, err := builder.Build("p", j.Dir, &builder.Config{NamespacePrefix: "urn:", CreatorType: "Tool", Creator: "t", TestValues: map[string]string{"Created": "2018-10-19T04:38:00Z"}})
		if err != nil {
			return err.Error()
		}
		x.DocumentNamespace = ""
		return done(writeString("json", x))
	case "search":
		x, err := idsearcher.BuildIDsDocument("p", j.Dir, &idsearcher.Config{NamespacePrefix: "urn:", SearcherPathsIgnored: []string{"**/a"}})
		if err != nil {
			return err.Error()
		}
		x.DocumentNamespace, x.CreationInfo.Created = "", ""
		return done(writeString("json", x))
	}
	panic(j.Kind)
}

func runTogether(jobs []coldJob) string {
	out := make([]string, len(jobs))
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i := range jobs {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			<-start
			out[i] = jobs[i].run()
		}(i)
	}
	close(start)
	wg.Wait()
	for i, s := range out {
		if s != jobs[i].Want {
			return fmt.Sprintf("%s %s %s %s gives alone\n%s\nbut together with %d others\n%s", jobs[i].Kind, jobs[i].Format, jobs[i].Version, jobs[i].To, jobs[i].Want, len(jobs)-1, s)
		}
	}
	return ""
}

// coldMain: the jobs of the file are the first thing this process does.
func coldMain(file string) int {
	b, err := os.ReadFile(file)
	mustDo(err)
	var jobs []coldJob
	mustDo(stdjson.Unmarshal(b, &jobs))
	if s := runTogether(jobs); s != "" {
		fmt.Println(s)
		return 1
	}
	return 0
}

func (g *G) coldJobs(t *rapid.T, c *Ctx) []coldJob {
	ver := pick(g, versions...)
	g.ver = ver
	d := tvSorted(g.doc23())
	d.Annotations = nil
	doc := as(ver, d)
	texts := map[string]string{}
	for _, f := range []string{"tv", "json", "yaml"} {
		s, err := writeString(f, doc)
		if err != nil {
			t.Fatalf("writing failed: %v", err)
		}
		texts[f] = s
	}
	dir := ""
	kinds := []string{"rewrite", "rewrite", "latest", "convert", "library", "pairs", "build", "search"}
	only := pick(g, append([]string{"", ""}, kinds...)...)
	var jobs []coldJob
	for i := 2 + g.upto(4); i > 0; i-- {
		j := coldJob{Kind: pick(g, kinds...), Version: ver}
		if only != "" {
			j.Kind = only
		}
		j.Format = pick(g, "tv", "json", "yaml")
		if j.Kind == "pairs" {
			j.Format = "tv"
		}
		switch j.Kind {
		case "rewrite":
			j.To = pick(g, "tv", "json", "yaml")
		case "convert":
			j.To = pick(g, versions...)
		}
		if j.Kind == "build" || j.Kind == "search" {
			if dir == "" {
				dir = g.dirTree(c, 0, func() []byte { b, _ := g.sourceText(); return b }).root
			}
			j.Dir = dir
		} else {
			j.Text = texts[j.Format]
		}
		jobs = append(jobs, j)
	}
	for i := range jobs {
		jobs[i].Want = jobs[i].run()
	}
	return jobs
}

// coldStart: what a process does first, it does at once.
func coldStart(t *rapid.T, c *Ctx) {
	g := &G{t: t, fmt: "common", ver: "2.3"}
	jobs := g.coldJobs(t, c)
	dir := c.TempDir()
	defer os.RemoveAll(dir)
	for _, j := range jobs {
		if j.Dir != "" {
			defer os.RemoveAll(filepath.Dir(j.Dir))
		}
		c.Log("%s %s %s %s %s", j.Kind, j.Format, j.Version, j.To, clip(j.Text, 800))
		c.Class(j.Kind)
	}
	b, err := stdjson.Marshal(jobs)
	mustDo(err)
	file := filepath.Join(dir, "jobs")
	mustDo(os.WriteFile(file, b, 0o644))
	self, err := os.Executable()
	mustDo(err)
	cmd := exec.Command(self, "-cold", file)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0")
	var o bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &o
	if err := cmd.Run(); err != nil {
		t.Fatalf("a process that does these at once, first of all (%v): %s", err, clip(o.String(), 4000))
	}
	if len(jobs) > 2 {
		c.Nontrivial(string(b))
	}
}

// hot: the same in this process.
func hotStart(t *rapid.T, c *Ctx) {
	g := &G{t: t, fmt: "common", ver: "2.3"}
	jobs := g.coldJobs(t, c)
	for _, j := range jobs {
		if j.Dir != "" {
			defer os.RemoveAll(filepath.Dir(j.Dir))
		}
		c.Log("%s %s %s %s %s", j.Kind, j.Format, j.Version, j.To, clip(j.Text, 800))
		c.Class(j.Kind)
	}
	if s := runTogether(jobs); s != "" {
		t.Fatalf("%s", s)
	}
	if len(jobs) > 2 {
		c.Nontrivial(fmt.Sprintf("%q", jobs))
	}
}
