package main

import (
	"fmt"
	"slices"
	"strings"

	"github.com/spdx/tools-golang/spdx/v2/common"
	"github.com/spdx/tools-golang/spdx/v2/v2_1"
	"github.com/spdx/tools-golang/spdx/v2/v2_2"
	"github.com/spdx/tools-golang/spdx/v2/v2_3"
	"pgregory.net/rapid"
)

// G wraps rapid's draws: every random choice of the harness goes through it.
type G struct {
	conv bool // for conversion alone: what no format could spell
	t    *rapid.T
	fmt  string // "json", "yaml", "tv", "common"
	ver  string // "2.1", "2.2", "2.3"

	seq    int
	big    bool // now and then a longer list
	full   int  // 0 sparse, 1 normal, 2 dense: how often optional fields are set
	ids    []string
	inYAML bool // JSON values are written into YAML
	huge   int  // the list this many lists on is a long one
	plain  bool // nothing is drawn: always the first choice

	plainHex bool     // checksums are hexadecimal
	docRefs  []string // what the document calls the documents it refers to
	said     []string // lines the document has
}

var chances = map[int]*rapid.Generator[bool]{}

func chance(k int) *rapid.Generator[bool] {
	if g, ok := chances[k]; ok {
		return g
	}
	s := make([]bool, k)
	s[k-1] = true
	g := rapid.SampledFrom(s)
	chances[k] = g
	return g
}

// oneIn is true once in k on average; shrinks to false.
func (g *G) oneIn(k int) bool { return !g.plain && chance(k).Draw(g.t, "c") }

// opt decides whether an optional field is present.
func (g *G) opt() bool {
	switch g.full {
	case 0:
		return g.oneIn(6)
	case 1:
		return g.oneIn(2)
	}
	return !g.oneIn(8)
}

var uptos = map[int]*rapid.Generator[int]{}

// upto is uniform over 0..n; shrinks to 0.
func (g *G) upto(n int) int {
	if g.plain {
		return 0
	}
	r, ok := uptos[n]
	if !ok {
		s := make([]int, n+1)
		for i := range s {
			s[i] = i
		}
		r = rapid.SampledFrom(s)
		uptos[n] = r
	}
	return r.Draw(g.t, "n")
}

// count is a small, mostly tiny, collection size.
func (g *G) count(max int) int {
	if g.huge > 0 && max > 1 {
		if g.huge--; g.huge == 0 {
			if g.full == 0 && g.oneIn(3) {
				return 100 + g.upto(200)
			}
			return 8 + g.upto(60)
		}
	}
	if g.full == 0 && !g.oneIn(3) {
		return 0
	}
	if !g.oneIn(4) && max > 2 {
		return g.upto(2)
	}
	if g.big && g.oneIn(3) {
		return 1 + g.upto(6)
	}
	return g.upto(max)
}

func pick[T any](g *G, xs ...T) T {
	return xs[g.upto(len(xs)-1)]
}

func shuffled[T any](g *G, xs []T) []T {
	out := append([]T{}, xs...)
	for i := 0; i < len(out)-1; i++ {
		j := i + g.upto(len(out)-1-i)
		out[i], out[j] = out[j], out[i]
	}
	return out
}

var words = []string{
	"a", "Foo", "bar-1.0", "Jane Doe", "ACME, Inc.", "lib", "v2", "0", "1.5", "x86_64", "Zlib",
	"jane@example.com", "(contact@example.com)", "https://example.com/a?b=c&d=e#f", "MIT", "Apache-2.0",
	"GPL-2.0-only WITH Classpath-exception-2.0", "NONE", "NOASSERTION", "SPDXRef-x", "DocumentRef-y", "UNKNOWN", "none", "()",
}

var quirks = []string{
	`"`, `'`, `\`, `<`, `>`, `&`, ":", "#", ",", ";", "(", ")", "%s", "%", "$1", "{", "}", "[", "]", "|", "*", "!", "`", "~", "@", "=", "+", "-", "_", "/", "?",
	"é", "ß", "日本語", "Ω", "😀", "e\u0301", "\u2028", "\u00a0", "\u200b", "\u202e",
	`\n`, `\u003c`, `\"`, "null", "true", "no", "0x1f", "1e3", "012", "2020-01-01", "- a", "key: v", "!!str", "%YAML", "---", "<b>", "a<b", "<!--", "]]>", "&amp;", "</", "<text", "text>", "http://",
}

var ctrls = []string{"\x00", "\x01", "\x1b", "\x1f", "\x7f", "\u0085", "\u009f", "\ufeff", "\ufffd", "\uffff", "\t", "\r", "\v"}

var wordGen = rapid.SampledFrom(words)
var quirkGen = rapid.SampledFrom(quirks)
var ctrlGen = rapid.SampledFrom(ctrls)

func (g *G) token() string {
	if g.oneIn(3) {
		return quirkGen.Draw(g.t, "q")
	}
	if (g.fmt == "json" || g.fmt == "yaml") && g.oneIn(12) {
		return ctrlGen.Draw(g.t, "k")
	}
	return wordGen.Draw(g.t, "w")
}

// line: non-empty single line of text without surrounding white space.
func (g *G) line() string {
	if len(g.said) > 0 && g.oneIn(20) {
		return pick(g, g.said...) // the same again
	}
	n := 1 + g.upto(3)
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString(g.token())
		if g.oneIn(2) {
			b.WriteByte(' ')
		}
	}
	s := trimAll(oneLine(b.String()))
	s = g.untag(s)
	if s == "" {
		return "x"
	}
	if len(g.said) < 8 {
		g.said = append(g.said, s)
	}
	return s
}

// untag breaks up <text> and </text>, which mean something in a tag-value file.
func (g *G) untag(s string) string {
	if g.js() {
		return s
	}
	return strings.NewReplacer("<text>", "<txt>", "</text>", "</txt>").Replace(s)
}

func oneLine(s string) string {
	return strings.NewReplacer("\n", "", "\r", "").Replace(s)
}

// trimAll removes white space and control characters from both ends.
func trimAll(s string) string {
	return strings.TrimFunc(s, func(r rune) bool {
		return r <= ' ' || r == 0x7f || r == 0x85 || r == 0xa0 || r == 0x2028 || r == 0xfeff || r == 0x200b
	})
}

// long: a text of at least so many characters; no white space at either end.
func (g *G) long() string {
	n := pick(g, 300, 1100, 4200, 9000, 70000)
	s := g.line()
	if g.oneIn(2) {
		s += " " // otherwise without any place to break it, unless the line has one
	}
	return trimAll(strings.Repeat(s, n/len(s)+1))
}

// text: free text, possibly of several lines, possibly with white space at
// either end and tag-like content.
func (g *G) text() string {
	if g.full < 2 && g.oneIn(120) {
		s := g.untag(g.long())
		if g.oneIn(3) {
			s += "\n" + g.line()
		}
		return s
	}
	if !g.oneIn(3) {
		return g.line()
	}
	if g.oneIn(4) {
		// one line, with white space around it or something that looks like a mark
		space := func() string { return pick(g, "", " ", "\t", "\u00a0", "\u2003", "\v", "\f", "\u0085", "  ") }
		if g.oneIn(2) {
			return space() + g.line() + space()
		}
		mark := "</text>"
		if !g.js() {
			mark = "<text>"
		}
		return pick(g, "", g.line()) + mark + pick(g, "", g.line())
	}
	n := 1 + g.upto(4)
	var b strings.Builder
	for i := 0; i < n; i++ {
		if i > 0 {
			if g.js() && g.oneIn(4) {
				b.WriteString(pick(g, "\r\n", "\r", "\n\n", "\u2028", "\n\r"))
			} else {
				b.WriteByte('\n')
			}
		}
		switch g.upto(7) {
		case 0:
		case 1:
			b.WriteString("PackageName: not a tag")
		case 2:
			b.WriteString("  ")
			b.WriteString(g.token())
			b.WriteString("\t ")
		case 3:
			b.WriteString("##### comment?")
		case 4:
			if g.fmt == "tv" || g.fmt == "common" {
				b.WriteString("<text>")
			} else {
				b.WriteString("</text>")
			}
		default:
			b.WriteString(g.line())
		}
	}
	s := b.String()
	if s == "" {
		return "x"
	}
	if !g.js() {
		s = strings.ReplaceAll(s, "</text>", "</txt>")
	}
	return s
}

// word: non-empty, no white space.
func (g *G) word() string {
	s := strings.Map(func(r rune) rune {
		if r <= ' ' || r == 0x7f || r == 0x85 || r == 0xa0 || r == 0x2028 || r == 0xfeff {
			return -1
		}
		return r
	}, g.token()+g.token())
	if s == "" {
		return "w"
	}
	return g.untag(s)
}

var idWords = rapid.SampledFrom([]string{"a", "B", "pkg", "File", "x.y", "1", "0", "DOC", "snip", "Package-foo", "A-", "z9", "SPDXRefs", "DocumentRefs", "NONE", "DOCUMENT"})

// id: fresh element identifier over letters, digits, '.' and '-'.
func (g *G) id() common.ElementID {
	g.seq++
	s := fmt.Sprintf("%s-%d", idWords.Draw(g.t, "id"), g.seq)
	if g.oneIn(16) {
		// one that means something elsewhere
		if x := pick(g, "NONE", "NOASSERTION", "none", "noassertion", "LicenseRef-1", "-", "0", ".", "a.", "..b", "--", "SPDX", "Ref-", "DOCUMENT.", "document"); !slices.Contains(g.ids, x) {
			s = x
		}
	}
	g.ids = append(g.ids, s)
	return common.ElementID(s)
}

// ref: identifier of some existing element, the document, or a dangling one.
func (g *G) ref() common.ElementID {
	if len(g.ids) > 0 && !g.oneIn(5) {
		return common.ElementID(g.ids[g.upto(len(g.ids)-1)])
	}
	return common.ElementID(pick(g, "DOCUMENT", "nowhere", "a.b-c", "NONE", "NOASSERTION", "DOCUMENT-", "SPDXRefx", "DocumentRefx", "-", "document"))
}

func (g *G) docElementID(special bool) common.DocElementID {
	if special && g.oneIn(6) {
		return common.DocElementID{SpecialID: pick(g, "NONE", "NOASSERTION")}
	}
	d := common.DocElementID{ElementRefID: g.ref()}
	if g.oneIn(5) {
		if len(g.docRefs) > 0 && g.oneIn(2) {
			d.DocumentRefID = common.DocumentID(pick(g, g.docRefs...))
			return d
		}
		d.DocumentRefID = common.DocumentID(pick(g, "ext", "spdx-tool-1.2", "a.b", "DocumentRefs", "SPDXRef-x", "NONE", "NOASSERTION", "DOCUMENT"))
	}
	return d
}

var algos21 = []common.ChecksumAlgorithm{common.SHA1, common.SHA256, common.MD5}
var algos22 = []common.ChecksumAlgorithm{common.SHA1, common.SHA224, common.SHA256, common.SHA384, common.SHA512, common.MD2, common.MD4, common.MD5, common.MD6}
var algos23 = append(append([]common.ChecksumAlgorithm{}, algos22...), common.SHA3_256, common.SHA3_384, common.SHA3_512, common.BLAKE2b_256, common.BLAKE2b_384, common.BLAKE2b_512, common.BLAKE3, common.ADLER32)

func algosFor(ver string) []common.ChecksumAlgorithm {
	switch ver {
	case "2.1":
		return algos21
	case "2.2":
		return algos22
	}
	return algos23
}

func (g *G) hex() string {
	if g.oneIn(12) && !g.plainHex {
		return pick(g, strings.Repeat("0aF9", 32), "x", "", "sha1:00", "NONE") + g.word()
	}
	return pick(g, "da39a3ee5e6b4b0d3255bfef95601890afd80709", "00", "deadBEEF", "624c1abb3664f4b35547e7c73864ad24", "f00d") + pick(g, "", "1", "ab")
}

func (g *G) checksum() common.Checksum {
	return common.Checksum{Algorithm: pick(g, algosFor(g.ver)...), Value: g.hex()}
}

func (g *G) checksums() []common.Checksum {
	var out []common.Checksum
	for i := g.count(3); i > 0; i-- {
		out = append(out, g.checksum())
	}
	return out
}

// name of a person, organisation or tool: any line, even one with a colon.
func (g *G) actor() string {
	s := g.line()
	if g.oneIn(16) {
		return pick(g, "noassertion", "NoAssertion", "NONE", "none", "NOASSERTION.", "Person", "Person: Jane", "NOASSERTION ()", ":")
	}
	if g.oneIn(6) {
		// with an address, or the place for one
		s += pick(g, " ()", " (jane@example.com)", " ( )", "()", " (a) (b)")
	}
	return s
}

func (g *G) lines(max int) []string {
	var out []string
	for i := g.count(max); i > 0; i-- {
		out = append(out, g.line())
	}
	return out
}

func (g *G) texts(max int) []string {
	var out []string
	for i := g.count(max); i > 0; i-- {
		out = append(out, g.text())
	}
	return out
}

func (g *G) optLine() string {
	if g.opt() {
		return g.line()
	}
	return ""
}

func (g *G) optText() string {
	if g.opt() {
		return g.text()
	}
	return ""
}

func (g *G) license() string {
	if g.oneIn(3) {
		return g.line()
	}
	if g.oneIn(60) {
		return strings.Repeat("LicenseRef-1 AND ", 8+g.upto(60)) + "MIT"
	}
	return pick(g, "MIT", "Apache-2.0", "(MIT OR Apache-2.0)", "GPL-2.0-or-later WITH Classpath-exception-2.0", "NONE", "NOASSERTION", "LicenseRef-1", "DocumentRef-x:LicenseRef-2")
}

func (g *G) optLicense() string {
	if g.opt() {
		return g.license()
	}
	return ""
}

func (g *G) licenses(max int) []string {
	var out []string
	for i := g.count(max); i > 0; i-- {
		out = append(out, g.license())
	}
	return out
}

func (g *G) date() string {
	if g.oneIn(4) {
		return g.line()
	}
	return pick(g, "2018-10-10T06:20:00Z", "2021-02-28T23:59:59Z", "1970-01-01T00:00:00Z")
}

func (g *G) tv() bool     { return g.fmt == "tv" }
func (g *G) js() bool     { return g.fmt == "json" || g.fmt == "yaml" }
func (g *G) common() bool { return g.fmt == "common" }

// creatorInfo, annotations, reviews

func (g *G) creators(min int) []common.Creator {
	var out []common.Creator
	for i := min + g.count(2); i > 0; i-- {
		out = append(out, common.Creator{CreatorType: pick(g, "Person", "Organization", "Tool"), Creator: g.actor()})
	}
	return out
}

func (g *G) annotation() v2_3.Annotation {
	a := v2_3.Annotation{
		Annotator:         common.Annotator{AnnotatorType: pick(g, "Person", "Organization", "Tool"), Annotator: g.actor()},
		AnnotationDate:    g.date(),
		AnnotationType:    pick(g, "OTHER", "REVIEW", "OTHER", "REVIEW", "OTHER", g.unlisted("other", "Review")),
		AnnotationComment: g.text(),
	}
	if !g.js() {
		a.AnnotationSPDXIdentifier = g.docElementID(false)
	}
	return a
}

func (g *G) snippet(from common.ElementID) v2_3.Snippet {
	s := v2_3.Snippet{
		SnippetSPDXIdentifier:         g.id(),
		SnippetFromFileSPDXIdentifier: from,
		SnippetLicenseConcluded:       g.optLicense(),
		LicenseInfoInSnippet:          g.licenses(2),
		SnippetLicenseComments:        g.optText(),
		SnippetCopyrightText:          g.optText(),
		SnippetComment:                g.optText(),
		SnippetName:                   g.optLine(),
	}
	nr := 1
	if g.js() {
		nr = g.count(2)
	} else if g.oneIn(3) {
		nr = 1 + g.upto(2)
	}
	for i := 0; i < nr; i++ {
		// byte and line ranges in any order; both ends from 1
		a := 1 + g.upto(400)
		b := a + g.upto(100)
		if g.oneIn(8) {
			b = pick(g, 999999, 1000000, 1<<24+1, 1<<31-1, 1<<31, 1<<32+1, 1<<53-1)
			if g.oneIn(2) {
				a = b - g.upto(20)
			}
		}
		if g.oneIn(10) {
			a, b = b, a // which way round is not for the formats to judge
		}
		r := common.SnippetRange{}
		if i == 0 && !g.oneIn(4) || i > 0 && g.oneIn(3) {
			r.StartPointer.Offset, r.EndPointer.Offset = a, b
		} else {
			r.StartPointer.LineNumber, r.EndPointer.LineNumber = a, b
		}
		if g.js() {
			r.StartPointer.FileSPDXIdentifier = from
			r.EndPointer.FileSPDXIdentifier = from
			if g.oneIn(6) {
				r.StartPointer.LineNumber, r.EndPointer.Offset = a, 0
			}
		}
		if g.tv() && g.oneIn(6) {
			// bytes and lines of the same range
			r.StartPointer.Offset, r.EndPointer.Offset = a, b
			r.StartPointer.LineNumber, r.EndPointer.LineNumber = 1+g.upto(3), 4+g.upto(3)
		}
		s.Ranges = append(s.Ranges, r)
	}
	if g.ver != "2.1" && !g.js() {
		s.SnippetAttributionTexts = g.texts(2)
	}
	return s
}

// unlisted: a value that is none of those the specification lists.
func (g *G) unlisted(xs ...string) string {
	if g.oneIn(3) {
		return g.line()
	}
	return pick(g, xs...)
}

func (g *G) licenseRef() string {
	if g.oneIn(8) {
		return pick(g, "LicenseRef-"+g.word(), g.word(), "LicenseRef-", "LicenseRef-LicenseRef-1", "MIT")
	}
	return "LicenseRef-" + pick(g, "1", "a.b", "Foo-2")
}

func (g *G) file() *v2_3.File {
	f := &v2_3.File{
		FileName:           pick(g, "./", "", "/") + g.line(),
		FileSPDXIdentifier: g.id(),
		FileTypes:          g.fileTypes(),
		Checksums:          g.checksums(),
		LicenseConcluded:   g.optLicense(),
		LicenseInfoInFiles: g.licenses(3),
		LicenseComments:    g.optText(),
		FileCopyrightText:  g.optText(),
		FileComment:        g.optText(),
		FileNotice:         g.optText(),
		FileContributors:   g.lines(3),
	}
	f.FileName = strings.TrimSpace(f.FileName)
	if g.ver != "2.1" {
		f.FileAttributionTexts = g.texts(2)
	}
	if g.tv() || (g.ver == "2.3") {
		for i := g.count(2); i > 0; i-- {
			f.ArtifactOfProjects = append(f.ArtifactOfProjects, &v2_3.ArtifactOfProject{Name: g.line(), HomePage: g.optLine(), URI: g.optLine()})
		}
		f.FileDependencies = g.lines(2)
	}
	if g.tv() && g.oneIn(2) {
		n := max(1, g.count(3))
		f.Snippets = map[common.ElementID]*v2_3.Snippet{}
		for i := 0; i < n; i++ {
			from := f.FileSPDXIdentifier
			if g.oneIn(8) {
				from = g.ref() // under one file, but said to be from another
			}
			s := g.snippet(from)
			f.Snippets[s.SnippetSPDXIdentifier] = &s
		}
	}
	if g.js() {
		for i := g.count(1); i > 0; i-- {
			f.Annotations = append(f.Annotations, g.annotation())
		}
	}
	return f
}

func (g *G) fileTypes() []string {
	var out []string
	for i := g.count(2); i > 0; i-- {
		if g.oneIn(12) {
			out = append(out, g.unlisted("source", "Other", "BINARY SOURCE", "fileType_source"))
			continue
		}
		out = append(out, pick(g, "SOURCE", "BINARY", "ARCHIVE", "APPLICATION", "AUDIO", "IMAGE", "TEXT", "VIDEO", "DOCUMENTATION", "SPDX", "OTHER"))
	}
	return out
}

func (g *G) pkg() *v2_3.Package {
	p := &v2_3.Package{
		PackageName:             g.line(),
		PackageSPDXIdentifier:   g.id(),
		PackageVersion:          g.optLine(),
		PackageFileName:         g.optLine(),
		PackageDownloadLocation: pick(g, "NOASSERTION", "NONE", "https://example.com/p.tgz", "git+https://git.example.com/x.git@v1#sub/dir", "", g.unlisted("none", "noassertion")),
		PackageChecksums:        g.checksums(),
		PackageHomePage:         g.optLine(),
		PackageSourceInfo:       g.optText(),
		PackageLicenseConcluded: g.optLicense(),
		PackageLicenseDeclared:  g.optLicense(),
		PackageLicenseComments:  g.optText(),
		PackageCopyrightText:    g.optText(),
		PackageSummary:          g.optText(),
		PackageDescription:      g.optText(),
		PackageComment:          g.optText(),
	}
	if g.opt() {
		p.PackageSupplier = &common.Supplier{Supplier: "NOASSERTION"}
		if !g.oneIn(4) {
			p.PackageSupplier = &common.Supplier{SupplierType: pick(g, "Person", "Organization"), Supplier: g.actorNotNoassertion()}
		}
	}
	if g.opt() {
		p.PackageOriginator = &common.Originator{Originator: "NOASSERTION"}
		if !g.oneIn(4) {
			p.PackageOriginator = &common.Originator{OriginatorType: pick(g, "Person", "Organization"), Originator: g.actorNotNoassertion()}
		}
	}
	p.FilesAnalyzed = !g.oneIn(3)
	p.IsFilesAnalyzedTagPresent = true
	if g.tv() && p.FilesAnalyzed && g.oneIn(3) {
		p.IsFilesAnalyzedTagPresent = false
	}
	if g.conv {
		p.IsFilesAnalyzedTagPresent = g.oneIn(2)
	}
	if p.FilesAnalyzed || g.js() {
		if g.opt() {
			p.PackageVerificationCode = &common.PackageVerificationCode{Value: g.hex()}
			if (g.conv || g.js() && g.ver == "2.3") && g.oneIn(8) {
				p.PackageVerificationCode.Value = ""
			}
			if g.oneIn(2) {
				for i := g.count(3); i > 0; i-- {
					p.PackageVerificationCode.ExcludedFiles = append(p.PackageVerificationCode.ExcludedFiles, g.excluded())
				}
			}
		}
		p.PackageLicenseInfoFromFiles = g.licenses(3)
	}
	for i := g.count(3); i > 0; i-- {
		r := &v2_3.PackageExternalReference{
			Category: pick(g, "SECURITY", "PACKAGE-MANAGER", "PERSISTENT-ID", "OTHER"),
			RefType:  pick(g, "cpe23Type", "purl", "maven-central", "http://spdx.org/x#y", "LocationRef-acme", g.word()),
			Locator:  g.word(),
		}
		r.ExternalRefComment = g.optText()
		p.PackageExternalReferences = append(p.PackageExternalReferences, r)
	}
	if g.ver != "2.1" {
		p.PackageAttributionTexts = g.texts(2)
	}
	if g.ver == "2.3" {
		if g.opt() {
			p.PrimaryPackagePurpose = pick(g, "APPLICATION", "FRAMEWORK", "LIBRARY", "CONTAINER", "OPERATING-SYSTEM", "DEVICE", "FIRMWARE", "SOURCE", "ARCHIVE", "FILE", "INSTALL", "OTHER")
			if g.oneIn(10) {
				p.PrimaryPackagePurpose = g.unlisted("library", "Operating-System", "OPERATING_SYSTEM", "operatingSystem")
			}
		}
		if g.opt() {
			p.ReleaseDate = g.date()
		}
		if g.opt() {
			p.BuiltDate = g.date()
		}
		if g.opt() {
			p.ValidUntilDate = g.date()
		}
	}
	for i := g.count(3); i > 0; i-- {
		p.Files = append(p.Files, g.file())
	}
	if g.js() {
		for i := g.count(1); i > 0; i-- {
			p.Annotations = append(p.Annotations, g.annotation())
		}
	}
	return p
}

func (g *G) actorNotNoassertion() string {
	s := g.actor()
	if s == "NOASSERTION" {
		return "NOASSERTION Inc"
	}
	return s
}

// excluded file names: anything without ", ", which separates them in a
// tag-value file.
func (g *G) excluded() string {
	s := "./" + g.line()
	for strings.Contains(s, ", ") {
		s = strings.ReplaceAll(s, ", ", ",")
	}
	return trimAll(strings.TrimRight(trimAll(s), ","))
}

var relTypes = []string{
	"DESCRIBES", "DESCRIBED_BY", "CONTAINS", "CONTAINED_BY", "DEPENDS_ON", "DEPENDENCY_OF", "DEPENDENCY_MANIFEST_OF",
	"BUILD_DEPENDENCY_OF", "DEV_DEPENDENCY_OF", "OPTIONAL_DEPENDENCY_OF", "PROVIDED_DEPENDENCY_OF", "TEST_DEPENDENCY_OF",
	"RUNTIME_DEPENDENCY_OF", "EXAMPLE_OF", "GENERATES", "GENERATED_FROM", "ANCESTOR_OF", "DESCENDANT_OF", "VARIANT_OF",
	"DISTRIBUTION_ARTIFACT", "PATCH_FOR", "PATCH_APPLIED", "COPY_OF", "FILE_ADDED", "FILE_DELETED", "FILE_MODIFIED",
	"EXPANDED_FROM_ARCHIVE", "DYNAMIC_LINK", "STATIC_LINK", "DATA_FILE_OF", "TEST_CASE_OF", "BUILD_TOOL_OF", "DEV_TOOL_OF",
	"TEST_OF", "TEST_TOOL_OF", "DOCUMENTATION_OF", "OPTIONAL_COMPONENT_OF", "METAFILE_OF", "PACKAGE_OF", "AMENDS",
	"PREREQUISITE_FOR", "HAS_PREREQUISITE", "OTHER", "REQUIREMENT_DESCRIPTION_FOR", "SPECIFICATION_FOR",
}

var ownRelTypes = []string{"describes", "Contains", "my-own.type", "relationshipType_contains"}

func (g *G) relationship() *v2_3.Relationship {
	r := &v2_3.Relationship{
		RefA:         g.docElementID(g.js()),
		RefB:         g.docElementID(g.ver != "2.1" || g.js()),
		Relationship: pick(g, relTypes...),
	}
	if g.oneIn(12) {
		r.Relationship = pick(g, ownRelTypes...)
	}
	r.RelationshipComment = g.optText()
	return r
}

// doc23 generates a document in the v2.3 model restricted to what version
// g.ver and format g.fmt can carry.
func (g *G) doc23() *v2_3.Document {
	g.full = g.upto(2)
	g.big = g.oneIn(12)
	if g.oneIn(20) {
		g.huge = 1 + g.upto(40)
	}
	d := &v2_3.Document{
		SPDXVersion:       "SPDX-" + g.ver,
		DataLicense:       pick(g, "CC0-1.0", "CC0-1.0", "other"),
		SPDXIdentifier:    common.ElementID(pick(g, "DOCUMENT", "DOCUMENT", "DOCUMENT", "DOCUMENT", "DOCUMENT", "DOCUMENT", "DOCUMENT", "doc", "my-document")),
		DocumentName:      g.line(),
		DocumentNamespace: pick(g, "https://example.com/ns/1", "urn:x:y?z=1&w=2", "http://spdx.org/spdxdocs/a-b_c#frag", "https://example.com/a/", "https://example.com/"+g.word(), g.word()),
		DocumentComment:   g.optText(),
		CreationInfo: &v2_3.CreationInfo{
			LicenseListVersion: pick(g, "", "3.18", "2.0", "3.10", "3", g.unlisted("v3.0", "03.1", "3.1.0")),
			Creators:           g.creators(1),
			Created:            g.date(),
			CreatorComment:     g.optText(),
		},
	}
	if g.js() && g.oneIn(15) {
		d.CreationInfo = nil
	}
	for i := g.count(3); i > 0; i-- {
		g.seq++
		cs := g.checksum()
		id := fmt.Sprintf("%s-%d", idWords.Draw(g.t, "id"), g.seq)
		g.docRefs = append(g.docRefs, id)
		d.ExternalDocumentReferences = append(d.ExternalDocumentReferences, v2_3.ExternalDocumentRef{
			DocumentRefID: common.DocumentID(id),
			URI:           pick(g, "https://example.com/ext", "urn:a:b", g.word()),
			Checksum:      cs,
		})
	}
	for i := g.count(3); i > 0; i-- {
		d.Packages = append(d.Packages, g.pkg())
	}
	for i := g.count(3); i > 0; i-- {
		d.Files = append(d.Files, g.file())
	}
	for i := g.count(2); i > 0; i-- {
		d.OtherLicenses = append(d.OtherLicenses, &v2_3.OtherLicense{
			LicenseIdentifier:      g.licenseRef(),
			ExtractedText:          g.text(),
			LicenseName:            g.optLine(),
			LicenseCrossReferences: g.lines(2),
			LicenseComment:         g.optText(),
		})
	}
	for i := g.count(4); i > 0; i-- {
		d.Relationships = append(d.Relationships, g.relationship())
	}
	for i := g.count(2); i > 0; i-- {
		a := g.annotation()
		d.Annotations = append(d.Annotations, &a)
	}
	if g.js() {
		for i := g.count(2); i > 0; i-- {
			d.Snippets = append(d.Snippets, g.snippet(g.ref()))
		}
	}
	if g.tv() {
		for i := g.count(2); i > 0; i-- {
			d.Reviews = append(d.Reviews, &v2_3.Review{
				Reviewer: g.actor(), ReviewerType: pick(g, "Person", "Organization", "Tool"),
				ReviewDate: pick(g, "", g.date()), ReviewComment: g.optText(),
			})
		}
	}
	return d
}

// as projects a v2.3-model document onto the model of the given version,
// field by field, by name.
func as(ver string, d *v2_3.Document) any {
	switch ver {
	case "2.1":
		out := &v2_1.Document{}
		project(d, out)
		return out
	case "2.2":
		out := &v2_2.Document{}
		project(d, out)
		return out
	}
	return d
}

func emptyDoc(ver string) any {
	switch ver {
	case "2.1":
		return &v2_1.Document{}
	case "2.2":
		return &v2_2.Document{}
	}
	return &v2_3.Document{}
}
