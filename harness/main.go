// Command harness decides the properties of /verif/properties.jsonl on the
// current tree of /repo by generated-input search.
//
//	harness -property C01 -tier quick -seed 1 -evidence FILE -replaydir DIR -known FILE
//	harness -replay FILE
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Sub is one generated-input search that contributes to a property.
type Sub struct {
	Name   string
	Rule   string // how cases are made and what makes one non-trivial
	Quick  int    // cases over all shards, quick tier
	Deep   int    // cases over all shards, thorough tier
	Prop   func(t *rapid.T, c *Ctx)
	Single bool // run on one shard only
}

type Check struct {
	ID          string
	Subs        []Sub
	Race        bool // decided in a binary built with the race detector
	Assumptions []string
}

// Ctx collects what a search covers, and describes the current case.
type Ctx struct {
	prop, sub string
	dir       string // scratch directory
	seq       int
	sr        *subResult
	cur       []string
	started   time.Time
	mu        sync.Mutex
	sumLen    int
	knownHits map[string]int
	replaying bool
}

type subResult struct {
	Name        string         `json:"name"`
	Evaluations int            `json:"evaluations"`
	Nontrivial  map[uint64]int `json:"nontrivial"`
	Classes     map[string]int `json:"classes"`
	Samples     []string       `json:"samples"`
	Known       map[string]int `json:"known"`
}

type shardResult struct {
	Subs      []*subResult `json:"subs"`
	Violation *violation   `json:"violation,omitempty"`
	Problem   string       `json:"problem,omitempty"`
	Done      bool         `json:"done"`
}

type violation struct {
	Property string   `json:"property"`
	Sub      string   `json:"sub"`
	Seed     uint64   `json:"seed"`
	Checks   int      `json:"checks"`
	Message  string   `json:"message"`
	Case     []string `json:"case"`
	FailFile string   `json:"failfile,omitempty"`
	Kind     string   `json:"kind"`
	Output   string   `json:"output,omitempty"`
}

// Case starts a case: it resets the description.
func (c *Ctx) begin() {
	c.mu.Lock()
	c.cur = c.cur[:0]
	c.sr.Evaluations++
	c.started = time.Now()
	c.mu.Unlock()
}

// Log describes the current case; it ends up in the replay file.
func (c *Ctx) Log(format string, args ...any) {
	c.cur = append(c.cur, fmt.Sprintf(format, args...))
}

// Class counts the case under a label.
func (c *Ctx) Class(label string) { c.sr.Classes[label]++ }

// Nontrivial counts the case as non-trivial, keyed by its content, and keeps
// some as samples.
func (c *Ctx) Nontrivial(key string) {
	h := fnv.New64a()
	h.Write([]byte(key))
	k := h.Sum64()
	c.sr.Nontrivial[k]++
	n := len(c.sr.Nontrivial)
	if c.sr.Nontrivial[k] == 1 && (n == 1 || n == 10 || n == 100) {
		if len(key) > 1500 {
			key = key[:1500] + "..."
		}
		c.sr.Samples = append(c.sr.Samples, key)
	}
}

// Journal records the raw input about to be given to the code under test, so
// that a fatal error (stack exhaustion, a hang) can be reported with its input.
func (c *Ctx) Journal(kind string, data []byte) {
	_ = os.WriteFile(filepath.Join(c.dir, "journal"), append([]byte(kind+"\n"), data...), 0o644)
}

// TempDir gives a fresh directory inside the scratch directory.
func (c *Ctx) TempDir() string {
	c.seq++
	d := filepath.Join(c.dir, fmt.Sprintf("t%d", c.seq))
	if err := os.MkdirAll(d, 0o755); err != nil {
		panic(err)
	}
	return d
}

// Known reports whether a failure with this key is a listed finding; a listed
// one is counted and not raised.
func (c *Ctx) Known(key string) bool {
	if known[c.prop+" "+key] {
		c.sr.Known[key]++
		return true
	}
	return false
}

var known = map[string]bool{}
var knownText = map[string]string{}

func loadKnown(file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		return
	}
	for _, line := range strings.Split(string(b), "\n") {
		line = strings.TrimSpace(line)
		if !strings.HasPrefix(line, "finding: property=") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(line, "finding: property="), " ", 3)
		if len(f) < 3 || !strings.HasPrefix(f[1], "key=") {
			continue
		}
		k := f[0] + " " + strings.TrimPrefix(f[1], "key=")
		known[k] = true
		knownText[k] = f[2]
	}
}

// tb is the rapid.TB the searches run under.
type tb struct {
	name   string
	failed bool
	out    bytes.Buffer
}

type failNow struct{}

func (t *tb) Helper()                   {}
func (t *tb) Name() string              { return t.name }
func (t *tb) Logf(f string, a ...any)   { fmt.Fprintf(&t.out, f+"\n", a...) }
func (t *tb) Log(a ...any)              { fmt.Fprintln(&t.out, a...) }
func (t *tb) Skipf(f string, a ...any)  { panic("skip outside a case") }
func (t *tb) Skip(a ...any)             { panic("skip outside a case") }
func (t *tb) SkipNow()                  { panic("skip outside a case") }
func (t *tb) Errorf(f string, a ...any) { t.Logf(f, a...); t.failed = true }
func (t *tb) Error(a ...any)            { t.Log(a...); t.failed = true }
func (t *tb) Fatalf(f string, a ...any) { t.Logf(f, a...); t.FailNow() }
func (t *tb) Fatal(a ...any)            { t.Log(a...); t.FailNow() }
func (t *tb) FailNow()                  { t.failed = true; runtime.Goexit() }
func (t *tb) Fail()                     { t.failed = true }
func (t *tb) Failed() bool              { return t.failed }

const caseLimit = 60 * time.Second

// runSub runs one search and returns a violation, or a problem of the harness.
func runSub(check *Check, sub *Sub, checks int, seed uint64, dir, failfile string) (*subResult, *violation, string) {
	sr := &subResult{Name: sub.Name, Nontrivial: map[uint64]int{}, Classes: map[string]int{}, Known: map[string]int{}}
	c := &Ctx{prop: check.ID, sub: sub.Name, dir: dir, sr: sr, replaying: failfile != ""}
	set := func(k, v string) {
		if err := flag.Set(k, v); err != nil {
			panic(err)
		}
	}
	set("rapid.checks", fmt.Sprint(checks))
	set("rapid.seed", fmt.Sprint(seed))
	set("rapid.failfile", failfile)
	set("rapid.shrinktime", "20s")
	name := check.ID + "_" + sub.Name
	_ = os.RemoveAll(filepath.Join(dir, "testdata"))
	t := &tb{name: name}
	var lastCase []string
	done := make(chan struct{})
	stop := make(chan struct{})
	go func() { // one case may not take longer than caseLimit: the process ends, the parent decides
		tick := time.NewTicker(time.Second)
		defer tick.Stop()
		for {
			select {
			case <-stop:
				return
			case <-tick.C:
				c.mu.Lock()
				over := !c.started.IsZero() && time.Since(c.started) > caseLimit
				c.mu.Unlock()
				if over {
					fmt.Fprintf(os.Stderr, "fatal error: a case of %s took longer than %v\n", name, caseLimit)
					os.Exit(97)
				}
			}
		}
	}()
	go func() {
		defer close(done)
		rapid.Check(t, func(rt *rapid.T) {
			c.begin()
			defer func() {
				c.mu.Lock()
				c.started = time.Time{}
				c.mu.Unlock()
				lastCase = append(lastCase[:0], c.cur...)
			}()
			sub.Prop(rt, c)
		})
	}()
	<-done
	close(stop)
	if !t.failed {
		return sr, nil, ""
	}
	out := t.out.String()
	if strings.Contains(out, "[rapid] only generated") || strings.Contains(out, "can't fit into 64 bits") {
		return sr, nil, out
	}
	v := &violation{Property: check.ID, Sub: sub.Name, Seed: seed, Checks: checks, Kind: "counterexample", Output: out}
	v.Case = append(v.Case, lastCase...)
	v.Message = firstFailure(out)
	if m, _ := filepath.Glob(filepath.Join(dir, "testdata", "rapid", "*", "*.fail")); len(m) > 0 {
		b, _ := os.ReadFile(m[0])
		v.FailFile = string(b)
	} else if failfile != "" {
		b, _ := os.ReadFile(failfile)
		v.FailFile = string(b)
	}
	return sr, v, ""
}

func firstFailure(out string) string {
	for _, l := range strings.Split(out, "\n") {
		if strings.Contains(l, "[rapid] failed") || strings.Contains(l, "[rapid] panic") || strings.Contains(l, "[rapid] flaky") {
			return strings.TrimSpace(l)
		}
	}
	if len(out) > 500 {
		out = out[:500]
	}
	return out
}

func shardMain(check *Check, tier string, seed uint64, shard, shards int, only, resultFile string) int {
	debug.SetMaxStack(256 << 20)
	dir, err := os.Getwd()
	if err != nil {
		panic(err)
	}
	res := &shardResult{}
	write := func() {
		b, err := json.Marshal(res)
		if err != nil {
			panic(err)
		}
		if err := os.WriteFile(resultFile, b, 0o644); err != nil {
			panic(err)
		}
	}
	for i := range check.Subs {
		sub := &check.Subs[i]
		if only != "" && sub.Name != only {
			continue
		}
		if sub.Single && shard != 0 {
			continue
		}
		n := sub.Quick
		if tier == "thorough" {
			n = sub.Deep
		}
		if !sub.Single {
			n = (n + shards - 1) / shards
		}
		_ = os.WriteFile(filepath.Join(dir, "current"), []byte(sub.Name), 0o644)
		_ = os.Remove(filepath.Join(dir, "journal"))
		t0 := time.Now()
		sr, v, problem := runSub(check, sub, n, shardSeed(seed, shard), dir, "")
		if os.Getenv("HARNESS_TIMES") != "" {
			fmt.Fprintf(os.Stderr, "%s/%s shard %d: %d cases, %d non-trivial, %.1fs %v\n", check.ID, sub.Name, shard, sr.Evaluations, len(sr.Nontrivial), time.Since(t0).Seconds(), sr.Classes)
		}
		res.Subs = append(res.Subs, sr)
		if v != nil {
			res.Violation = v
			break
		}
		if problem != "" {
			res.Problem = check.ID + "/" + sub.Name + ": " + problem
			break
		}
	}
	res.Done = true
	write()
	return 0
}

func shardSeed(seed uint64, shard int) uint64 {
	s := seed*1000003 + uint64(shard)*7919 + 17
	if s == 0 {
		s = 1
	}
	return s
}

func main() {
	testing.Init()
	// times are stated in UTC wherever the tools are run
	time.Local = time.FixedZone("elsewhere", 5*3600+45*60)
	property := flag.String("property", "", "property to decide")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Int64("seed", 1, "seed of every random choice")
	evidence := flag.String("evidence", "", "evidence file to write")
	replaydir := flag.String("replaydir", "", "where replay files go")
	knownFile := flag.String("known", "", "known findings")
	replay := flag.String("replay", "", "replay file to run again")
	shards := flag.Int("shards", 4, "worker processes")
	shard := flag.Int("shard", -1, "internal: run as this worker")
	result := flag.String("result", "", "internal: result file of a worker")
	only := flag.String("sub", "", "run only this search")
	list := flag.Bool("list", false, "list the checks")
	race := flag.String("israce", "", "list: print the id when the check needs the race detector")
	cold := flag.String("cold", "", "internal: the jobs to do")
	flag.Parse()
	if *cold != "" {
		os.Exit(coldMain(*cold))
	}
	loadKnown(*knownFile)

	if *list {
		for _, c := range checks {
			fmt.Println(c.ID, len(c.Subs))
		}
		return
	}
	if *race != "" {
		if c := find(*race); c != nil && c.Race {
			fmt.Println("race")
		}
		return
	}
	if *replay != "" {
		os.Exit(replayMain(*replay))
	}
	check := find(*property)
	if check == nil {
		fmt.Fprintf(os.Stderr, "no such property %q\n", *property)
		os.Exit(2)
	}
	if *shard >= 0 {
		os.Exit(shardMain(check, *tier, uint64(*seed), *shard, *shards, *only, *result))
	}
	os.Exit(parentMain(check, *tier, *seed, *shards, *evidence, *replaydir, *knownFile, *only))
}

func find(id string) *Check {
	for i := range checks {
		if checks[i].ID == id {
			return &checks[i]
		}
	}
	return nil
}

type shardRun struct {
	res     *shardResult
	exit    int
	signal  bool
	stderr  string
	journal []byte
	current string
	timeout bool
}

func runShard(self string, check *Check, tier string, seed int64, shard, shards int, scratch, knownFile, only string, limit time.Duration) shardRun {
	dir := filepath.Join(scratch, fmt.Sprintf("s%d", shard))
	_ = os.RemoveAll(dir)
	if err := os.MkdirAll(dir, 0o755); err != nil {
		panic(err)
	}
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	result := filepath.Join(dir, "result.json")
	args := []string{"-property", check.ID, "-tier", tier, "-seed", fmt.Sprint(seed), "-shard", fmt.Sprint(shard), "-shards", fmt.Sprint(shards), "-result", result, "-known", knownFile}
	if only != "" {
		args = append(args, "-sub", only)
	}
	cmd := exec.CommandContext(ctx, self, args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66", "TMPDIR="+dir)
	var errb bytes.Buffer
	cmd.Stderr = &errb
	err := cmd.Run()
	r := shardRun{stderr: errb.String(), timeout: ctx.Err() != nil}
	if os.Getenv("HARNESS_TIMES") != "" {
		fmt.Fprint(os.Stderr, r.stderr)
	}
	if err != nil {
		r.exit = cmd.ProcessState.ExitCode()
		if r.exit < 0 {
			r.signal = true
		}
	}
	if b, e := os.ReadFile(result); e == nil {
		res := &shardResult{}
		if json.Unmarshal(b, res) == nil && res.Done {
			r.res = res
		}
	}
	r.journal, _ = os.ReadFile(filepath.Join(dir, "journal"))
	cur, _ := os.ReadFile(filepath.Join(dir, "current"))
	r.current = string(cur)
	return r
}

// scratchDir makes a directory for the files of a run: in memory where there
// is room, since checks make and remove very many.
func scratchDir(prefix string) (string, error) {
	var fs syscall.Statfs_t
	if os.Getenv("TMPDIR") == "" && syscall.Statfs("/dev/shm", &fs) == nil && fs.Bavail*uint64(fs.Bsize) > 1<<30 && fs.Ffree > 1<<16 {
		if dir, err := os.MkdirTemp("/dev/shm", prefix); err == nil {
			return dir, nil
		}
	}
	return os.MkdirTemp("", prefix)
}

func parentMain(check *Check, tier string, seed int64, shards int, evidence, replaydir, knownFile, only string) int {
	start := time.Now()
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	scratch, err := scratchDir("harness-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(scratch)
	_ = os.Chmod(scratch, 0o711) // checks look at it without root's rights, too
	limit := 780 * time.Second
	if tier == "thorough" {
		limit = 3 * time.Hour
	}
	runs := make([]shardRun, shards)
	var wg sync.WaitGroup
	for i := 0; i < shards; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			runs[i] = runShard(self, check, tier, seed, i, shards, scratch, knownFile, only, limit)
		}(i)
	}
	wg.Wait()

	var v *violation
	problem := ""
	merged := map[string]*subResult{}
	for i, r := range runs {
		if r.res == nil {
			// the worker died. The searches are deterministic: run it again and
			// believe only what happens twice.
			if r.timeout || r.signal {
				problem = fmt.Sprintf("worker %d did not finish (timeout %v, signal %v)", i, r.timeout, r.signal)
				continue
			}
			if !strings.Contains(r.stderr, "fatal error:") && !strings.Contains(r.stderr, "WARNING: DATA RACE") && !strings.Contains(r.stderr, "goroutine stack exceeds") && !strings.Contains(r.stderr, "panic:") {
				problem = fmt.Sprintf("worker %d ended with status %d: %s", i, r.exit, tail(r.stderr, 2000))
				continue
			}
			again := runShard(self, check, tier, seed, i, shards, scratch, knownFile, r.current, limit/2)
			confirmed := again.res == nil && !again.timeout && !again.signal
			if strings.Contains(r.stderr, "WARNING: DATA RACE") {
				confirmed = true // the detector reports no race that did not happen
			}
			if !confirmed {
				problem = fmt.Sprintf("worker %d died (status %d) but not when run again: %s", i, r.exit, tail(r.stderr, 2000))
				continue
			}
			if v == nil {
				v = &violation{Property: check.ID, Sub: r.current, Seed: shardSeed(uint64(seed), i), Kind: "fatal", Message: "the process running the code under test died: " + fatalLine(r.stderr), Output: tail(r.stderr, 6000)}
				for j := range check.Subs {
					if check.Subs[j].Name == r.current {
						n := check.Subs[j].Quick
						if tier == "thorough" {
							n = check.Subs[j].Deep
						}
						if !check.Subs[j].Single {
							n = (n + shards - 1) / shards
						}
						v.Checks = n
					}
				}
				if len(r.journal) > 0 {
					v.Case = []string{"input (format on the first line):", string(r.journal)}
				}
			}
			continue
		}
		if r.res.Problem != "" {
			problem = r.res.Problem
		}
		if r.res.Violation != nil && v == nil {
			v = r.res.Violation
		}
		for _, s := range r.res.Subs {
			m := merged[s.Name]
			if m == nil {
				m = &subResult{Name: s.Name, Nontrivial: map[uint64]int{}, Classes: map[string]int{}, Known: map[string]int{}}
				merged[s.Name] = m
			}
			m.Evaluations += s.Evaluations
			for k, n := range s.Nontrivial {
				m.Nontrivial[k] += n
			}
			for k, n := range s.Classes {
				m.Classes[k] += n
			}
			for k, n := range s.Known {
				m.Known[k] += n
			}
			if len(m.Samples) < 3 {
				m.Samples = append(m.Samples, s.Samples...)
			}
		}
	}

	evals, nontriv := 0, 0
	var rules []string
	samples := []any{}
	classes := map[string]map[string]int{}
	per := map[string]any{}
	knowns := map[string]int{}
	for _, s := range check.Subs {
		m := merged[s.Name]
		if m == nil {
			continue
		}
		evals += m.Evaluations
		nontriv += len(m.Nontrivial)
		rules = append(rules, s.Name+": "+s.Rule)
		for j, x := range m.Samples {
			if j >= 2 {
				break
			}
			samples = append(samples, s.Name+": "+x)
		}
		classes[s.Name] = m.Classes
		per[s.Name] = map[string]int{"evaluations": m.Evaluations, "distinct_nontrivial": len(m.Nontrivial)}
		for k, n := range m.Known {
			knowns[k] += n
		}
	}
	nv := 0
	if v != nil {
		nv = 1
	}
	ev := map[string]any{
		"property": check.ID, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": map[string]any{
			"evaluations": evals, "distinct_nontrivial": nontriv, "rule": strings.Join(rules, " || "),
			"samples": samples, "classes": classes, "searches": per,
		},
		"violations":  nv,
		"assumptions": append([]string{}, check.Assumptions...),
		"wall_s":      float64(int(time.Since(start).Seconds()*100)) / 100,
	}
	if evidence != "" {
		b, err := json.MarshalIndent(ev, "", " ")
		if err != nil {
			panic(err)
		}
		_ = os.MkdirAll(filepath.Dir(evidence), 0o755)
		if err := os.WriteFile(evidence, append(b, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	keys := make([]string, 0, len(knowns))
	for k := range knowns {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", check.ID, knownText[check.ID+" "+k])
	}
	if v != nil {
		_ = os.MkdirAll(replaydir, 0o755)
		path := filepath.Join(replaydir, fmt.Sprintf("%s-%s.json", v.Property, v.Sub))
		b, _ := json.MarshalIndent(v, "", " ")
		if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		fmt.Printf("%s/%s: %s\n", v.Property, v.Sub, v.Message)
		for _, l := range v.Case {
			if len(l) > 3000 {
				l = l[:3000] + "..."
			}
			fmt.Println("  " + strings.ReplaceAll(l, "\n", "\n  "))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", v.Property, path)
		return 1
	}
	if problem != "" {
		fmt.Fprintln(os.Stderr, "harness problem: "+problem)
		return 2
	}
	fmt.Printf("%s held on %d generated cases (%d distinct non-trivial) in %.1fs\n", check.ID, evals, nontriv, time.Since(start).Seconds())
	return 0
}

func tail(s string, n int) string {
	if len(s) > n {
		// keep the head: that is where Go names the fatal error
		return s[:n] + "..."
	}
	return s
}

func fatalLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "fatal error:") || strings.Contains(l, "DATA RACE") || strings.HasPrefix(l, "panic:") || strings.Contains(l, "stack exceeds") {
			return strings.TrimSpace(l)
		}
	}
	return "no message"
}

// replayMain runs the case of a replay file again: exit 1 if it still fails.
func replayMain(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	v := &violation{}
	if err := json.Unmarshal(b, v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	check := find(v.Property)
	if check == nil {
		return 2
	}
	dir, err := scratchDir("replay-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	_ = os.Chmod(dir, 0o711)
	if err := os.Chdir(dir); err != nil {
		panic(err)
	}
	for i := range check.Subs {
		if check.Subs[i].Name != v.Sub {
			continue
		}
		ff := ""
		checks := v.Checks
		if v.FailFile != "" {
			ff = filepath.Join(dir, "case.fail")
			_ = os.WriteFile(ff, []byte(v.FailFile), 0o644)
			checks = 1
		}
		if checks == 0 {
			checks = check.Subs[i].Quick
		}
		_, got, problem := runSub(check, &check.Subs[i], checks, v.Seed, dir, ff)
		if problem != "" {
			fmt.Fprintln(os.Stderr, problem)
			return 2
		}
		if got == nil {
			fmt.Printf("%s/%s: the case of %s passes\n", v.Property, v.Sub, file)
			return 0
		}
		fmt.Printf("%s/%s: %s\n", v.Property, v.Sub, got.Message)
		for _, l := range got.Case {
			fmt.Println("  " + strings.ReplaceAll(l, "\n", "\n  "))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", v.Property, file)
		return 1
	}
	return 2
}
