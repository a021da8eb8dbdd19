package main

import (
	"bytes"
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/spdx/tools-golang/builder"
	"github.com/spdx/tools-golang/idsearcher"
	"github.com/spdx/tools-golang/licensediff"
	"github.com/spdx/tools-golang/reporter"
	"github.com/spdx/tools-golang/spdx"
	"github.com/spdx/tools-golang/spdx/v2/common"
	"github.com/spdx/tools-golang/spdx/v2/v2_3"
	"github.com/spdx/tools-golang/utils"
	"pgregory.net/rapid"
)

// dirTree is a directory made for a case.
type dirTree struct {
	root  string            // the directory
	arg   string            // one way to name it
	files map[string][]byte // content by path, from "/"
	links int
	dirs  int
}

func (d *dirTree) paths() []string {
	var ps []string
	for p := range d.files {
		ps = append(ps, p)
	}
	sort.Slice(ps, func(i, j int) bool { return lessPath(ps[i], ps[j]) })
	return ps
}

// lessPath: directory by directory, name by name.
func lessPath(a, b string) bool {
	x, y := strings.Split(a, "/"), strings.Split(b, "/")
	for i := range x {
		if i >= len(y) {
			return false
		}
		if x[i] != y[i] {
			return x[i] < y[i]
		}
	}
	return len(x) < len(y)
}

var tameNames = []string{"a", "b", "sub", "dir", "file.txt", "keep.txt", "README", "A", "a.txt", "x.c", "sub.d", "z", "root", "r", "xsub", "subx", "my.dir", "xa"}
var wildNames = []string{".git", ".x", "z z", "é", "日本", "-x", "**", "a:b", "a,b", "%41", "'q'", `"q"`, "<b>", "#c", "a&b", "~", "...", "e\u0301", "[x]", "*", "a?b", "SPDXRef-a", "sub", "a", ".DS_Store", ".gitignore", ".svn", "node_modules", "vendor", "Thumbs.db", "a~", "a.spdx", "sbom.json", ".hidden", "LICENSE", "x.tar.gz", ".." + "x", "core", "nul", "$x", "{a,b}"}
var nastyNames = []string{"x\ny", "back\\slash", "\xff", " lead", "trail ", "\t", "tab\tx", strings.Repeat("n", 250), "\u00a0", "a\u2028b"}

func (g *G) fileName(wild int) string {
	if wild > 1 && g.oneIn(6) {
		return pick(g, nastyNames...)
	}
	if wild > 0 && g.oneIn(3) {
		return pick(g, wildNames...)
	}
	return pick(g, tameNames...)
}

// dirTree makes a directory of files; content gives the bytes of each.
func (g *G) dirTree(c *Ctx, wild int, content func() []byte) *dirTree {
	base := c.TempDir()
	d := &dirTree{root: filepath.Join(base, pick(g, "root", "r", "a", "root dir")), files: map[string][]byte{}}
	mustDo(os.Mkdir(d.root, 0o755))
	taken := map[string]bool{}
	var fill func(dir string, depth int)
	fill = func(dir string, depth int) {
		n := g.upto(4)
		if depth == 0 {
			n = pick(g, 2, 3, 4, 5, 6, 1, 0)
			if g.oneIn(60) {
				n = 101 + g.upto(30)
			}
		}
		for i := n; i > 0; i-- {
			p := dir + "/" + g.fileName(wild)
			if n > 100 && len(p) < 200 {
				p += fmt.Sprint(i)
			}
			if taken[p] {
				continue
			}
			taken[p] = true
			full := d.root + p
			switch {
			case depth == 0 && g.oneIn(40):
				// far down
				for k := 0; k < 30; k++ {
					p += "/" + pick(g, "d", "sub")
				}
				b := content()
				mustDo(os.MkdirAll(filepath.Dir(d.root+p), 0o755))
				mustDo(os.WriteFile(d.root+p, b, 0o644))
				d.files[p] = b
				d.dirs++
			case g.oneIn(25):
				// neither a file nor a directory
				mustDo(syscall.Mknod(full, pick(g, uint32(syscall.S_IFSOCK), syscall.S_IFIFO)|0o644, 0))
				d.links++
			case depth < 3 && g.oneIn(3):
				mustDo(os.Mkdir(full, 0o755))
				d.dirs++
				fill(p, depth+1)
			case g.oneIn(8):
				mustDo(os.Symlink(pick(g, "nowhere", ".", "..", "a", "file.txt", "/dev/null", base), full))
				d.links++
			default:
				b := content()
				if other := d.paths(); len(other) > 0 && g.oneIn(15) {
					// the same file once more
					o := other[g.upto(len(other)-1)]
					mustDo(os.Link(d.root+o, full))
					d.files[p] = d.files[o]
					break
				}
				mustDo(os.WriteFile(full, b, pick(g, os.FileMode(0o644), 0o755, 0o600, 0o444)))
				if g.oneIn(10) {
					mustDo(os.Chmod(full, pick(g, 0o755|os.ModeSetuid, 0o644|os.ModeSetgid, 0o644|os.ModeSticky, 0o777)))
				}
				if g.oneIn(10) {
					at := pick(g, time.Unix(0, 0), time.Unix(1, 5), time.Date(2040, 1, 2, 3, 4, 5, 0, time.UTC))
					mustDo(os.Chtimes(full, at, at))
				}
				d.files[p] = b
			}
		}
	}
	fill("", 0)
	if g.oneIn(10) {
		// the path of the root, further down
		real, err := filepath.EvalSymlinks(d.root)
		mustDo(err)
		if mustDo(os.MkdirAll(d.root+"/zz"+real, 0o755)); !taken["/zz"] {
			b := content()
			mustDo(os.WriteFile(d.root+"/zz"+real+"/f", b, 0o644))
			d.files["/zz"+real+"/f"] = b
		}
	}
	rel := func() string {
		r, err := filepath.Rel(c.dir, d.root)
		mustDo(err)
		return r
	}
	switch g.upto(6) {
	case 0:
		d.arg = d.root
	case 1:
		d.arg = d.root + "/"
	case 2:
		d.arg = filepath.Dir(d.root) + "/./" + filepath.Base(d.root) + "/."
	case 3:
		d.arg = rel()
	case 4:
		d.arg = "./" + rel() + "//"
	case 5:
		l := filepath.Join(base, "link")
		mustDo(os.Symlink(d.root, l))
		d.arg = l + pick(g, "", "/")
	case 6:
		// a symbolic link on the way
		l := filepath.Join(base, "up")
		mustDo(os.Symlink(".", l))
		d.arg = filepath.Join(l, filepath.Base(d.root))
	}
	return d
}

// unreadable runs f while the file or directory cannot be read by it: on a
// thread without root's right to read everything.
func unreadable(path string, f func()) {
	st, err := os.Stat(path)
	mustDo(err)
	mustDo(os.Chmod(path, 0))
	defer func() { mustDo(os.Chmod(path, st.Mode().Perm())) }()
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	_, _, _ = syscall.RawSyscall(syscall.SYS_SETFSUID, 65534, 0, 0)
	defer func() { _, _, _ = syscall.RawSyscall(syscall.SYS_SETFSUID, uintptr(os.Geteuid()), 0, 0) }()
	if _, err := os.Stat(filepath.Dir(path)); err != nil {
		return // nothing of the scratch directory can be seen
	}
	if h, err := os.Open(path); err == nil {
		h.Close() // it can be read all the same
		return
	}
	f()
}

func (d *dirTree) remove() { _ = os.RemoveAll(filepath.Dir(d.root)) }

func mustDo(err error) {
	if err != nil {
		panic(err)
	}
}

func (g *G) bytes() []byte {
	switch g.upto(5) {
	case 0:
		return nil
	case 1:
		return []byte(g.line())
	case 2:
		n := pick(g, 1, 2, 63, 64, 65, 4096, 32767, 32768, 32769, 65536, 70001, 200000)
		return bytes.Repeat([]byte(g.word()), n)[:n]
	}
	if g.oneIn(12) {
		// alike at its beginning, at its end, or both
		n := pick(g, 65536, 65537, 131073, 1<<20, 1<<20+1)
		if g.oneIn(8) {
			n = pick(g, 1<<22, 1<<22+1, 1<<23+1, 10_000_000)
		}
		b := bytes.Repeat([]byte("x"), n)
		b[pick(g, 0, n/2, n-1)] = pick(g, byte('a'), 'b', 'x')
		return b
	}
	return []byte(g.text() + pick(g, "", "\n", "\r\n", "\x00\xff"))
}

// ignore patterns

func (g *G) pattern(paths []string) string {
	var p string
	if len(paths) > 0 && !g.oneIn(4) {
		p = paths[g.upto(len(paths)-1)]
	} else {
		p = "/"
		for i := g.upto(2); i > 0; i-- {
			p += pick(g, tameNames...) + "/"
		}
		p += pick(g, tameNames...)
	}
	comp := strings.Split(p[1:], "/")
	if g.oneIn(10) {
		// nearly
		i := g.upto(len(comp) - 1)
		comp[i] = pick(g, comp[i]+"x", "x"+comp[i], strings.ToUpper(comp[i]), comp[i][:len(comp[i])-1])
		if comp[i] == "" {
			comp[i] = "y"
		}
	}
	dirs, base := comp[:len(comp)-1], comp[len(comp)-1]
	switch g.upto(5) {
	case 0: // this file
		return "/" + strings.Join(comp, "/")
	case 1: // this directory
		return "/" + strings.Join(append(append([]string{}, dirs[:g.upto(len(dirs))]...), ""), "/")
	case 2:
		return "**/" + base
	case 3: // directories of the name, or run of names
		if len(dirs) == 0 {
			return "**/" + pick(g, tameNames...) + "/"
		}
		i := g.upto(len(dirs) - 1)
		j := i + 1 + g.upto(len(dirs)-1-i)
		return "**/" + strings.Join(dirs[i:j], "/") + "/"
	case 4:
		i := g.upto(len(dirs))
		return "**/" + strings.Join(comp[i:], "/")
	}
	return pick(g, "/", "/none", "/none/", "**/none", "**/none/")
}

func (g *G) patterns(paths []string) []string {
	if g.oneIn(4) {
		return pick(g, nil, []string{})
	}
	var out []string
	for i := g.upto(3); i > 0; i-- {
		p := g.pattern(paths)
		// an empty pattern, and one for anything at all, are no patterns a user writes
		out = append(out, p)
	}
	return out
}

// refIgnored: 1 yes, 0 no, -1 when the rule does not settle it.
func refIgnored(path string, patterns []string) int {
	verdict := 0
	for _, p := range patterns {
		v := 0
		switch {
		case strings.HasPrefix(p, "**/") && strings.HasSuffix(p, "/"):
			if strings.Contains(path, p[2:]) {
				v = 1
			}
		case strings.HasPrefix(p, "**/"):
			f := p[2:]
			if strings.HasSuffix(path, f) {
				v = 1
			} else if i := strings.LastIndexByte(f, '/'); i > 0 && strings.HasSuffix(path, f[i:]) && strings.Contains(path, f[:i+1]) {
				v = -1 // a file of the name further down
			}
		case strings.HasSuffix(p, "/"):
			if strings.HasPrefix(path, p) {
				v = 1
			}
		case path == p:
			v = 1
		}
		if v == 1 {
			return 1
		}
		if v == -1 {
			verdict = -1
		}
	}
	return verdict
}

// paths: the walk lists exactly the regular files that are not ignored.
func walkPaths(t *rapid.T, c *Ctx) {
	g := &G{t: t, fmt: "tv", ver: "2.3"}
	d := g.dirTree(c, 2, g.bytes)
	defer d.remove()
	all := d.paths()
	pats := g.patterns(all)
	c.Log("files: %q, directory given as %q, patterns %q", all, d.arg, pats)
	if g.oneIn(8) {
		if got, err := utils.GetAllFilePaths(d.arg+pick(g, "/no such", "/no such/a/", "/../no such"), pats); err == nil {
			t.Fatalf("no error for a missing directory, got %q", got)
		}
	}
	got, err := utils.GetAllFilePaths(d.arg, pats)
	if err != nil {
		t.Fatalf("error: %v", err)
	}
	checkPaths(t, all, pats, got, "")
	if len(all) > 0 {
		p := all[g.upto(len(all)-1)]
		b := d.files[p]
		s1, s256, m5, err := utils.GetHashesForFilePath(d.arg + p)
		x1, x256, x5 := sums(b)
		if err != nil || s1 != x1 || s256 != x256 || m5 != x5 {
			t.Fatalf("hashes of %q (%d bytes): got %s %s %s %v, want %s %s %s", p, len(b), s1, s256, m5, err, x1, x256, x5)
		}
	}
	if g.oneIn(4) && len(all) > 0 {
		// what may not be read is an error, not left out
		p := all[g.upto(len(all)-1)]
		dir := filepath.Dir(d.root + p)
		unreadable(d.root+p, func() {
			if _, _, _, err := utils.GetHashesForFilePath(d.arg + p); err == nil {
				t.Fatalf("hashes of the unreadable file %q", p)
			}
			checkPaths(t, all, pats, got, "")
		})
		unreadable(dir, func() {
			if got, err := utils.GetAllFilePaths(d.arg, pats); err == nil {
				t.Fatalf("no error for the unreadable directory %q, got %q", dir, got)
			}
		})
	}
	if _, _, _, err := utils.GetHashesForFilePath(d.arg + "/no such file"); err == nil {
		t.Fatalf("hashes of a file that does not exist")
	}
	if _, _, _, err := utils.GetHashesForFilePath(d.arg); err == nil {
		t.Fatalf("hashes of a directory")
	}
	if len(got) < len(all) {
		c.Class("some ignored")
	}
	if d.links > 0 {
		c.Class("symbolic links")
	}
	if len(all) > 1 {
		c.Nontrivial(fmt.Sprintf("%q %q", all, pats))
	}
}

func checkPaths(t *rapid.T, all, pats, got []string, prefix string) []string {
	i := 0
	var out []string
	for _, p := range all {
		v := refIgnored(p, pats)
		is := i < len(got) && got[i] == prefix+p
		if v == 1 && is {
			t.Fatalf("%q is listed, though ignored by %q", p, pats)
		}
		if v == 0 && !is {
			t.Fatalf("%q is not listed in its place; got %q", p, got)
		}
		if is {
			out = append(out, p)
			i++
		}
	}
	if i < len(got) {
		t.Fatalf("%q is listed, want nothing more there; got %q", got[i], got)
	}
	return out
}

func sums(b []byte) (string, string, string) {
	a := sha1.Sum(b)
	x := sha256.Sum256(b)
	m := md5.Sum(b)
	return hex.EncodeToString(a[:]), hex.EncodeToString(x[:]), hex.EncodeToString(m[:])
}

// ignoreRule: ShouldIgnore on paths that need not exist.
func ignoreRule(t *rapid.T, c *Ctx) {
	g := &G{t: t, fmt: "tv", ver: "2.3"}
	var all []string
	for i := 1 + g.upto(3); i > 0; i-- {
		p := ""
		for j := 1 + g.upto(4); j > 0; j-- {
			p += "/" + g.fileName(1)
		}
		all = append(all, p)
	}
	pats := g.patterns(all)
	c.Log("paths %q, patterns %q", all, pats)
	for _, p := range all {
		got := utils.ShouldIgnore(p, pats)
		want := refIgnored(p, pats)
		if want >= 0 && got != (want == 1) {
			t.Fatalf("%q with %q: got %v", p, pats, got)
		}
		c.Class(fmt.Sprintf("%d", want))
	}
	if len(pats) > 0 {
		c.Nontrivial(fmt.Sprintf("%q %q", all, pats))
	}
}

// verification code

func verification(t *rapid.T, c *Ctx) {
	g := &G{t: t, fmt: "tv", ver: "2.3"}
	var files []*spdx.File
	names := []string{"./a", "./b", "a", "./a/b", "./a.spdx", "", "A", "./é", "./a ", " ./a", "./A", "/a", "./x/a", "a.spdx", "./a.SPDX"}
	exclude := pick(g, "", "./a", "./a.spdx", "a", "./nowhere", "b", "./", ".", "./é")
	n := g.upto(7)
	if g.oneIn(12) {
		n = pick(g, 13, 40, 200)
	}
	for i := n; i > 0; i-- {
		f := &spdx.File{FileName: pick(g, names...), FileSPDXIdentifier: g.id()}
		for j := pick(g, 1, 1, 3, 2, 0); j > 0; j-- {
			b, _, m := sums([]byte(g.word()))
			f.Checksums = append(f.Checksums, common.Checksum{Algorithm: pick(g, common.SHA1, common.SHA1, common.SHA256, common.MD5, common.SHA512), Value: pick(g, b, b, m, strings.ToUpper(b), "0")})
		}
		g.noise(f, "FileName", "Checksums")
		if exclude != "" || f.FileName != "" {
			files = append(files, f)
		}
	}
	before := ShowFull(Tree(files, nil))
	c.Log("files %s, excluding %q", before, exclude)
	var values []string
	for _, f := range files {
		if exclude != "" && f.FileName == exclude {
			continue
		}
		for _, x := range f.Checksums {
			if x.Algorithm == common.SHA1 {
				values = append(values, x.Value)
			}
		}
	}
	sort.Strings(values)
	h := sha1.Sum([]byte(strings.Join(values, "")))
	want := common.PackageVerificationCode{Value: hex.EncodeToString(h[:])}
	if exclude != "" {
		want.ExcludedFiles = []string{exclude}
	}
	got, err := utils.GetVerificationCode(files, exclude)
	if err != nil {
		t.Fatalf("error: %v", err)
	}
	if df := Diff(Tree(want, nil), Tree(got, nil)); df != "" {
		t.Fatalf("code differs %s", df)
	}
	other, err := utils.GetVerificationCode(shuffled(g, files), exclude)
	if err != nil || other.Value != got.Value {
		t.Fatalf("the files in another order give %v, %v, not %v", other, err, got)
	}
	if after := ShowFull(Tree(files, nil)); after != before {
		t.Fatalf("the files were changed to %s", after)
	}
	withNil := append([]*spdx.File{}, files...)
	i := g.upto(len(withNil))
	withNil = append(withNil[:i:i], append([]*spdx.File{nil}, withNil[i:]...)...)
	if x, err := utils.GetVerificationCode(withNil, exclude); err == nil {
		t.Fatalf("no error for a nil file, got %v", x)
	}
	if len(values) > 1 {
		c.Nontrivial(before + exclude)
	}
}

// builder

func (g *G) wantBuilt(name string, d *dirTree, listed []string, created string, creators []common.Creator) *spdx.Document {
	var files []*spdx.File
	var values []string
	for i, p := range listed {
		a, b, m := sums(d.files[p])
		values = append(values, a)
		files = append(files, &spdx.File{
			FileName: "." + p, FileSPDXIdentifier: common.ElementID(fmt.Sprintf("File%d", i)),
			Checksums:        []common.Checksum{{Algorithm: common.SHA1, Value: a}, {Algorithm: common.SHA256, Value: b}, {Algorithm: common.MD5, Value: m}},
			LicenseConcluded: "NOASSERTION", LicenseInfoInFiles: []string{"NOASSERTION"}, FileCopyrightText: "NOASSERTION",
		})
	}
	sort.Strings(values)
	h := sha1.Sum([]byte(strings.Join(values, "")))
	id := common.ElementID("Package-" + name)
	return &spdx.Document{
		SPDXVersion: "SPDX-2.3", DataLicense: "CC0-1.0", SPDXIdentifier: "DOCUMENT", DocumentName: name,
		CreationInfo: &spdx.CreationInfo{Created: created, Creators: creators},
		Packages: []*spdx.Package{{
			PackageName: name, PackageSPDXIdentifier: id, PackageDownloadLocation: "NOASSERTION", FilesAnalyzed: true, IsFilesAnalyzedTagPresent: true,
			PackageVerificationCode: &common.PackageVerificationCode{Value: hex.EncodeToString(h[:])},
			PackageLicenseConcluded: "NOASSERTION", PackageLicenseDeclared: "NOASSERTION", PackageCopyrightText: "NOASSERTION", Files: files,
		}},
		Relationships: []*spdx.Relationship{{RefA: common.DocElementID{ElementRefID: "DOCUMENT"}, RefB: common.DocElementID{ElementRefID: id}, Relationship: "DESCRIBES"}},
	}
}

var createdForm = regexp.MustCompile(`^\d{4}-\d\d-\d\dT\d\d:\d\d:\d\dZ$`)

// sameBuilt compares all but the name space and the time.
func sameBuilt(t *rapid.T, want, got *spdx.Document, prefix string) {
	ns := got.DocumentNamespace
	if !strings.HasPrefix(ns, prefix+want.DocumentName) || !strings.Contains(ns[len(prefix+want.DocumentName):], want.Packages[0].PackageVerificationCode.Value) {
		t.Fatalf("name space %q does not consist of the prefix %q, the name and the verification code %s", ns, prefix, want.Packages[0].PackageVerificationCode.Value)
	}
	if got.CreationInfo == nil || !createdForm.MatchString(got.CreationInfo.Created) {
		t.Fatalf("created: %+v", got.CreationInfo)
	}
	if at, err := time.Parse(time.RFC3339, got.CreationInfo.Created); want.CreationInfo.Created == "" && (err != nil || time.Since(at) < -time.Hour/2 || time.Since(at) > time.Hour/2) {
		t.Fatalf("created at %q, which is not now (%s)", got.CreationInfo.Created, time.Now().UTC())
	}
	if want.CreationInfo.Created == "" {
		want.CreationInfo.Created = got.CreationInfo.Created
	}
	if df := Diff(Tree(want, drops("Document.DocumentNamespace")), Tree(got, drops("Document.DocumentNamespace"))); df != "" {
		t.Fatalf("built document differs %s", df)
	}
}

func build(t *rapid.T, c *Ctx) {
	g := &G{t: t, fmt: "tv", ver: "2.3"}
	d := g.dirTree(c, 2, g.bytes)
	defer d.remove()
	all := d.paths()
	cfg := &builder.Config{
		NamespacePrefix: pick(g, "https://example.com/", "urn:", "https://example.com/x-", ""),
		CreatorType:     pick(g, "Person", "Organization", "Tool", "Whatever", "", "person"),
		Creator:         g.line(), PathsIgnored: g.patterns(all),
	}
	created := ""
	if g.oneIn(2) {
		created = "2018-10-19T04:38:00Z"
		cfg.TestValues = map[string]string{"Created": created}
	} else if g.oneIn(3) {
		cfg.TestValues = pick(g, map[string]string{}, map[string]string{"Created": ""}, map[string]string{"created": "never"})
	}
	name := pick(g, "project1", "p", "a.b-c", g.line())
	c.Log("files: %q, given as %q, configuration %+v, name %q", all, d.arg, *cfg, name)
	before := fmt.Sprintf("%+v", *cfg)
	doc, err := builder.Build(name, d.arg, cfg)
	if err != nil {
		t.Fatalf("error: %v", err)
	}
	var got []string
	if len(doc.Packages) == 1 {
		for _, f := range doc.Packages[0].Files {
			got = append(got, f.FileName)
		}
	}
	listed := checkPaths(t, all, cfg.PathsIgnored, got, ".")
	typ := cfg.CreatorType
	if typ != "Organization" && typ != "Tool" {
		typ = "Person"
	}
	creators := []common.Creator{{CreatorType: "Tool", Creator: "github.com/spdx/tools-golang/builder"}, {CreatorType: typ, Creator: cfg.Creator}}
	sameBuilt(t, g.wantBuilt(name, d, listed, created, creators), doc, cfg.NamespacePrefix)
	if after := fmt.Sprintf("%+v", *cfg); after != before {
		t.Fatalf("the configuration was changed to %s", after)
	}
	if g.oneIn(4) {
		if _, err := builder.Build(name, d.arg+"/nowhere", cfg); err == nil {
			t.Fatalf("no error for a missing directory")
		}
	}
	if g.oneIn(3) && len(listed) > 0 {
		p := listed[g.upto(len(listed)-1)]
		unreadable(d.root+p, func() {
			if doc, err := builder.Build(name, d.arg, cfg); err == nil {
				t.Fatalf("no error though %q cannot be read; built %s", p, ShowFull(Tree(doc, nil)))
			}
		})
	}
	if len(listed) > 1 {
		c.Nontrivial(fmt.Sprintf("%q %q %q", all, cfg.PathsIgnored, name))
	}
}

// short-form IDs

// expression is a licence expression and the IDs in it.
func (g *G) expression(depth int) (string, []string) {
	if depth > 1 && g.oneIn(60) {
		// a long one
		s, ids := g.expression(0)
		for i := 10 + g.upto(30); i > 0; i-- {
			b, y := g.expression(0)
			s, ids = s+" AND "+b, append(ids, y...)
		}
		return s, ids
	}
	if depth > 0 && g.oneIn(2) {
		a, x := g.expression(depth - 1)
		b, y := g.expression(depth - 1)
		op := pick(g, "AND", "OR")
		if g.oneIn(8) {
			op = pick(g, "and", "or", "Or", "And")
		}
		l, r := " ", " "
		if g.oneIn(8) {
			l, r = pick(g, " ", "\t", "  ", " \t "), pick(g, " ", "\t", "  ")
		}
		if strings.HasSuffix(a, ")") && g.oneIn(4) {
			l = ""
		}
		if strings.HasPrefix(b, "(") && g.oneIn(4) {
			r = ""
		}
		s := a + l + op + r + b
		if g.oneIn(2) {
			s = "(" + s + ")"
		}
		return s, append(x, y...)
	}
	id := pick(g, "MIT", "Apache-2.0", "GPL-2.0-only", "GPL-2.0-or-later", "BSD-3-Clause", "LicenseRef-foo.1", "CC0-1.0", "0BSD", "ANDROID", "ORACLE-1.0", "WITHER", "LicenseRef-AND-x", "MIT-0", "Zlib", "LicenseRef-Foo.1", "LicenseRef-or", "mit", "DocumentRef-x.1:LicenseRef-a-2", "DocumentRef-other:LicenseRef-MIT", "NONE")
	ids := []string{id}
	s := id
	if g.oneIn(6) {
		s += "+"
	}
	if g.oneIn(6) {
		ex := pick(g, "Classpath-exception-2.0", "LLVM-exception", "OR-exception")
		return s + pick(g, " ", " ", " ", "\t", "  ") + pick(g, "WITH", "WITH", "WITH", "with", "With") + " " + ex, append(ids, ex)
	}
	return s, ids
}

type licFound struct{ expr map[string][]string }

// sourceText is a file with short-form IDs, and what is in it.
func (g *G) sourceText() ([]byte, map[string][]string) {
	found := map[string][]string{}
	var b strings.Builder
	n := g.upto(6)
	if g.oneIn(15) {
		n = 10 + g.upto(40)
	}
	nl := pick(g, "\n", "\n", "\r\n")
	var last string
	for i := 0; i < n; i++ {
		switch g.upto(5) {
		case 0:
			b.WriteString(pick(g, g.line(), "", "SPDX-License-Identifier", "SPDX-License-Identifier MIT", "License: MIT", "spdx-license-identifier: MIT", "\x00\x01", "\xff\xfe"))
		case 1: // code that looks for the tag
			b.WriteString(pick(g, "grep -r 'SPDX-License-Identifier: MIT'", `strings.Contains(s, "SPDX-License-Identifier: `+"Zlib"+`")`, "The tag SPDX-License-Identifier: X11 says", "abcdef SPDX-License-Identifier: X11", "      SPDX-License-Identifier: X11", "abcdefSPDX-License-Identifier: X11", "....... SPDX-License-Identifier: X11"))
		default:
			e, ids := g.expression(2)
			if last != "" && g.oneIn(5) {
				e, ids = last, found[last]
			}
			last = e
			pre, post := "", ""
			switch g.upto(7) {
			case 5:
				// comments of other languages
				p := pick(g, [2]string{"(* ", " *)"}, [2]string{"{- ", " -}"}, [2]string{"<%-- ", " --%>"}, [2]string{"{{!-- ", " --}}"}, [2]string{"<!--- ", " --->"},
					[2]string{"{# ", " #}"}, [2]string{"--[[ ", " ]]"}, [2]string{"#| ", " |#"}, [2]string{"/** ", " **/"}, [2]string{"/*- ", " */"})
				pre, post = p[0], p[1]
			case 6:
				// the last line of a comment, quotes, one comment in another
				pre = pick(g, "", " * ", "   ", "// ", "# ", "// <!-- ", "# /* ", "\ufeff", "//<!-- ", "<!-- /* ")
				post = pick(g, " */", "*/", " -->", "-->", " */ -->", " --> */", " **/")
			case 7:
				q := pick(g, "\"", "'", "\"\"\"", "'''", "`")
				pre, post = q, q+pick(g, "", ",", ";", "\\")
			case 0:
				pre = pick(g, "// ", "# ", "; ", "% ", "-- ", "//", "#", "dnl ", "\" ", "REM ", ".. ", "''' ", "@ ")
			case 1:
				pre, post = "/* ", pick(g, " */", "*/", " */ int x;", "*/ /* Y */", " */ /* SPDX-License-Identifier: X11 */", " */ SPDX-License-Identifier: X11")
			case 2:
				pre, post = pick(g, "<!-- ", "<!--"), pick(g, " -->", "-->", " --> <a/>", " --> <!-- SPDX-License-Identifier: X11 -->")
			case 3:
				pre = pick(g, " * ", "  * ", "\t", "    ", "     ", "C     "[:5], "!!!!!!!!!! ")
			case 4:
				pre = "########"
			}
			b.WriteString(pre + "SPDX-License-Identifier:" + pick(g, " ", "", "  ", "\t") + e + pick(g, "", "", " ", "\t") + post)
			found[e] = ids
		}
		if g.oneIn(60) {
			b.WriteString(nl + strings.Repeat("x", 70000))
		}
		if i+1 < n || g.oneIn(2) {
			b.WriteString(nl)
		}
	}
	return []byte(b.String()), found
}

func dedup(xs []string) []string {
	m := map[string]bool{}
	var out []string
	for _, x := range xs {
		if !m[x] {
			m[x] = true
			out = append(out, x)
		}
	}
	sort.Strings(out)
	return out
}

// single removes brackets directly within brackets.
func single(s string) string {
	for {
		var st []int
		match := map[int]int{}
		for i := range s {
			if s[i] == '(' {
				st = append(st, i)
			} else if s[i] == ')' && len(st) > 0 {
				match[st[len(st)-1]] = i
				st = st[:len(st)-1]
			}
		}
		cut := -1
		for i, j := range match {
			if k, ok := match[i+1]; ok && k == j-1 {
				cut = i
				s = s[:i] + s[i+1:j] + s[j+1:]
				break
			}
		}
		if cut < 0 {
			return s
		}
	}
}

var compound = regexp.MustCompile(`(?i)(^|[\s()])(and|or)([\s()]|$)`)

func refConcluded(exprs map[string][]string) string {
	var es []string
	for e := range exprs {
		es = append(es, e)
	}
	sort.Strings(es)
	if len(es) == 1 {
		return es[0]
	}
	for i, e := range es {
		if compound.MatchString(e) {
			es[i] = "(" + e + ")"
		}
	}
	return strings.Join(es, " AND ")
}

// wantSearched fills the licences into a document the builder made.
func wantSearched(want *spdx.Document, found map[string]map[string][]string, ignored func(string) bool) {
	p := want.Packages[0]
	var pkgIDs []string
	for _, f := range p.Files {
		path := strings.TrimPrefix(f.FileName, ".")
		if ignored(path) || len(found[path]) == 0 {
			continue
		}
		var ids []string
		for _, x := range found[path] {
			ids = append(ids, x...)
		}
		f.LicenseInfoInFiles = dedup(ids)
		pkgIDs = append(pkgIDs, ids...)
		f.LicenseConcluded = refConcluded(found[path])
	}
	p.PackageLicenseInfoFromFiles = dedup(pkgIDs)
	if len(pkgIDs) == 0 {
		p.PackageLicenseInfoFromFiles = []string{"NOASSERTION"}
	}
}

func search(t *rapid.T, c *Ctx) {
	g := &G{t: t, fmt: "tv", ver: "2.3"}
	var texts [][]byte
	var founds []map[string][]string
	d := g.dirTree(c, 2, func() []byte {
		b, f := g.sourceText()
		texts = append(texts, b)
		founds = append(founds, f)
		return b
	})
	defer d.remove()
	all := d.paths()
	found := map[string]map[string][]string{}
	n := 0
	for _, p := range all {
		for i, b := range texts {
			if bytes.Equal(b, d.files[p]) {
				found[p] = founds[i]
				n += len(founds[i])
				break
			}
		}
	}
	cfg := &idsearcher.Config{NamespacePrefix: "https://example.com/", BuilderPathsIgnored: g.patterns(all), SearcherPathsIgnored: g.patterns(all)}
	name := pick(g, "project1", "p", "a.b-c")
	for _, p := range all {
		c.Log("%q: %q", p, clip(string(d.files[p]), 600))
		if refIgnored(p, cfg.SearcherPathsIgnored) < 0 {
			cfg.SearcherPathsIgnored = nil
		}
	}
	c.Log("given as %q, configuration %+v, name %q", d.arg, *cfg, name)
	doc, err := idsearcher.BuildIDsDocument(name, d.arg, cfg)
	if err != nil {
		t.Fatalf("error: %v", err)
	}
	var got []string
	for _, f := range doc.Packages[0].Files {
		got = append(got, f.FileName)
	}
	listed := checkPaths(t, all, cfg.BuilderPathsIgnored, got, ".")
	want := g.wantBuilt(name, d, listed, "", []common.Creator{{CreatorType: "Tool", Creator: "github.com/spdx/tools-golang/builder"}, {CreatorType: "Tool", Creator: "github.com/spdx/tools-golang/idsearcher"}})
	wantSearched(want, found, func(p string) bool { return refIgnored(p, cfg.SearcherPathsIgnored) == 1 })
	for _, dd := range []*spdx.Document{want, doc} {
		for _, f := range dd.Packages[0].Files {
			f.LicenseConcluded = single(f.LicenseConcluded)
		}
	}
	sameBuilt(t, want, doc, cfg.NamespacePrefix)
	if n > 1 {
		c.Nontrivial(fmt.Sprintf("%q %+v", texts, *cfg))
	}
}

// licence differences

func licenseDiff(t *rapid.T, c *Ctx) {
	g := &G{t: t, fmt: "tv", ver: "2.3"}
	names := []string{"./a", "./b", "./c", "a", "./A", "./a/b", "", "x y"}
	lics := []string{"MIT", "Apache-2.0", "NOASSERTION", "NONE", "mit", "XIT", "MIX", "M1T", "MIT AND Zlib", "Zlib AND MIT", "(MIT)", "MIT+", " MIT", "MIT ", "LicenseRef-MIT", "noassertion", ""}
	mk := func() (*spdx.Package, map[string]string) {
		p := &spdx.Package{}
		m := map[string]string{}
		for _, n := range shuffled(g, names) {
			if g.oneIn(2) {
				l := pick(g, lics...)
				m[n] = l
				p.Files = append(p.Files, &spdx.File{FileName: n, LicenseConcluded: l, LicenseInfoInFiles: []string{pick(g, lics...)}})
			} else if g.oneIn(12) {
				p.Files = append(p.Files, nil)
			}
		}
		return p, m
	}
	p1, m1 := mk()
	p2, m2 := mk()
	for _, p := range []*spdx.Package{p1, p2} {
		g.noise(p, "Files")
		for _, f := range p.Files {
			if f != nil {
				g.noise(f, "FileName", "LicenseConcluded")
			}
		}
	}
	before := ShowFull(Tree([]*spdx.Package{p1, p2}, nil))
	c.Log("packages %s", before)
	pairs, err := licensediff.MakePairs(p1, p2)
	if err != nil {
		t.Fatalf("error: %v", err)
	}
	wantPairs := map[string]licensediff.LicensePair{}
	want := &licensediff.LicenseDiff{InBothChanged: map[string]licensediff.LicensePair{}, InBothSame: map[string]string{}, InFirstOnly: map[string]string{}, InSecondOnly: map[string]string{}}
	for n, a := range m1 {
		b, ok := m2[n]
		wantPairs[n] = licensediff.LicensePair{First: a, Second: b}
		switch {
		case !ok:
			want.InFirstOnly[n] = a
		case a == b:
			want.InBothSame[n] = a
		default:
			want.InBothChanged[n] = licensediff.LicensePair{First: a, Second: b}
		}
	}
	for n, b := range m2 {
		if _, ok := m1[n]; !ok {
			wantPairs[n] = licensediff.LicensePair{Second: b}
			want.InSecondOnly[n] = b
		}
	}
	if df := Diff(Tree(wantPairs, nil), Tree(pairs, nil)); df != "" || len(pairs) != len(wantPairs) {
		t.Fatalf("pairs differ %s", df)
	}
	res, err := licensediff.MakeResults(pairs)
	if err != nil {
		t.Fatalf("error: %v", err)
	}
	// where a file without any licence belongs is left open, but it has one place
	unsettled := func(n string) bool {
		a, ok1 := m1[n]
		b, ok2 := m2[n]
		return ok1 && a == "" || ok2 && b == ""
	}
	for n := range wantPairs {
		if !unsettled(n) {
			continue
		}
		places := 0
		if _, ok := res.InFirstOnly[n]; ok {
			places++
		}
		if _, ok := res.InSecondOnly[n]; ok {
			places++
		}
		if _, ok := res.InBothSame[n]; ok {
			places++
		}
		if _, ok := res.InBothChanged[n]; ok {
			places++
		}
		if places != 1 {
			t.Fatalf("%q is in %d places of %+v", n, places, res)
		}
	}
	settle := func(l *licensediff.LicenseDiff) *licensediff.LicenseDiff {
		for n := range wantPairs {
			if unsettled(n) {
				delete(l.InFirstOnly, n)
				delete(l.InSecondOnly, n)
				delete(l.InBothSame, n)
				delete(l.InBothChanged, n)
			}
		}
		return l
	}
	if !reflect.DeepEqual(settle(res), settle(want)) {
		t.Fatalf("got %+v, want %+v", res, want)
	}
	if df := Diff(Tree(wantPairs, nil), Tree(pairs, nil)); df != "" || len(pairs) != len(wantPairs) {
		t.Fatalf("the pairs were changed %s", df)
	}
	// the other way round
	back, err := licensediff.MakePairs(p2, p1)
	if err != nil {
		t.Fatalf("error: %v", err)
	}
	res2, err := licensediff.MakeResults(back)
	if err != nil || settle(res2) == nil || !reflect.DeepEqual(res2.InFirstOnly, want.InSecondOnly) || !reflect.DeepEqual(res2.InSecondOnly, want.InFirstOnly) || !reflect.DeepEqual(res2.InBothSame, want.InBothSame) || len(res2.InBothChanged) != len(want.InBothChanged) {
		t.Fatalf("the other way round: got %+v, %v", res2, err)
	}
	if after := ShowFull(Tree([]*spdx.Package{p1, p2}, nil)); after != before {
		t.Fatalf("the packages were changed to %s", after)
	}
	if len(m1)+len(m2) > 2 {
		c.Nontrivial(before)
	}
}

// reports

func wantReport(p *spdx.Package) string {
	counts := map[string]int{}
	found, not := 0, 0
	for _, f := range p.Files {
		switch f.LicenseConcluded {
		case "", "NOASSERTION":
			not++
		default:
			found++
			counts[f.LicenseConcluded]++
		}
	}
	var names []string
	for n := range counts {
		names = append(names, n)
	}
	sort.Slice(names, func(i, j int) bool {
		if counts[names[i]] != counts[names[j]] {
			return counts[names[i]] > counts[names[j]]
		}
		return names[i] < names[j]
	})
	block := func(rows [][2]string) string {
		w := 0
		for _, r := range rows {
			if len(r[0]) > w {
				w = len(r[0])
			}
		}
		var b strings.Builder
		for _, r := range rows {
			fmt.Fprintf(&b, "%*s  %s\n", w+2, r[0], r[1])
		}
		return b.String()
	}
	s := block([][2]string{{fmt.Sprint(found), "License found"}, {fmt.Sprint(not), "License not found"}, {fmt.Sprint(found + not), "TOTAL"}}) + "\n"
	var rows [][2]string
	for _, n := range names {
		rows = append(rows, [2]string{fmt.Sprint(counts[n]), n})
	}
	return s + block(append(rows, [2]string{fmt.Sprint(found), "TOTAL FOUND"}))
}

func report(t *rapid.T, c *Ctx) {
	g := &G{t: t, fmt: "tv", ver: "2.3"}
	p := &spdx.Package{FilesAnalyzed: !g.oneIn(6)}
	lics := []string{"MIT", "Apache-2.0", "NOASSERTION", "", "NONE", "mit", "(MIT OR Zlib)", "GPL-2.0-only WITH x", "LicenseRef-é", "A", "noassertion", "(NOASSERTION)", "NOASSERTION ", "MIT AND NOASSERTION", "NOASSERTION AND MIT", "NOASSERTIONS", "B%d", g.line(), strings.TrimSpace(strings.Repeat("LicenseRef-long OR ", 1+g.upto(40)))}
	for i := range lics {
		lics[i] = strings.NewReplacer("\t", "", "\v", "", "\f", "").Replace(lics[i])
	}
	few := lics[:1+g.upto(len(lics)-1)]
	n := g.upto(12)
	if g.oneIn(6) {
		n = pick(g, 99, 100, 101, 1000)
		if g.oneIn(2) {
			// many different ones
			for i := pick(g, 20, 60, 150); i > 0; i-- {
				few = append(few[:len(few):len(few)], fmt.Sprintf("LicenseRef-%d", i*7919%151))
			}
		}
	}
	for i := 0; i < n; i++ {
		p.Files = append(p.Files, &spdx.File{FileName: fmt.Sprint(i), LicenseConcluded: few[(i*i+g.seq)%len(few)]})
		if n < 20 {
			p.Files[i].LicenseConcluded = pick(g, few...)
		}
	}
	g.noise(p, "Files", "FilesAnalyzed")
	for i, f := range p.Files {
		if i < 20 {
			g.noise(f, "FileName", "LicenseConcluded")
		}
	}
	before := ShowFull(Tree(p, nil))
	c.Log("package %s", clip(before, 3000))
	var b bytes.Buffer
	err := reporter.Generate(p, &b)
	if !p.FilesAnalyzed {
		if err == nil || b.Len() > 0 {
			t.Fatalf("a package whose files were not analysed: %v, %q", err, b.String())
		}
		c.Class("not analysed")
		return
	}
	if err != nil {
		t.Fatalf("error: %v", err)
	}
	if want := wantReport(p); b.String() != want {
		t.Fatalf("report is\n%s\nwant\n%s", b.String(), want)
	}
	if after := ShowFull(Tree(p, nil)); after != before {
		t.Fatalf("the package was changed")
	}
	p.Files = shuffled(g, p.Files)
	var b2 bytes.Buffer
	if err := reporter.Generate(p, &b2); err != nil || b2.String() != b.String() {
		t.Fatalf("the files in another order give\n%s\n%v", b2.String(), err)
	}
	if n > 1 {
		c.Nontrivial(before)
	}
}

var _ = v2_3.Version
