package main

import (
	"fmt"
	"strings"

	"github.com/spdx/tools-golang/tagvalue"
	"github.com/spdx/tools-golang/tagvalue/reader"
	"pgregory.net/rapid"
)

// A model of which tags a section of a tag-value file may hold, from the
// SPDX 2.x specification.

var anywhereTags = []string{"Relationship", "RelationshipComment", "Annotator", "AnnotationDate", "AnnotationType", "SPDXREF", "AnnotationComment"}

func sectionTags(ver, section string) []string {
	var t []string
	switch section {
	case "document":
		t = []string{"SPDXVersion", "DataLicense", "SPDXID", "DocumentName", "DocumentNamespace", "ExternalDocumentRef", "DocumentComment"}
		t = append(t, sectionTags(ver, "creation")...)
		return t
	case "creation":
		t = []string{"LicenseListVersion", "Creator", "Created", "CreatorComment", "PackageName", "FileName", "LicenseID", "Reviewer", "ExternalDocumentRef", "DocumentComment"}
	case "package":
		t = []string{"PackageName", "FileName", "LicenseID", "Reviewer", "SPDXID", "PackageVersion", "PackageFileName", "PackageSupplier", "PackageOriginator",
			"PackageDownloadLocation", "FilesAnalyzed", "PackageVerificationCode", "PackageChecksum", "PackageHomePage", "PackageSourceInfo",
			"PackageLicenseConcluded", "PackageLicenseInfoFromFiles", "PackageLicenseDeclared", "PackageLicenseComments", "PackageCopyrightText",
			"PackageSummary", "PackageDescription", "PackageComment", "ExternalRef", "ExternalRefComment"}
		if ver != "2.1" {
			t = append(t, "PackageAttributionText")
		}
		if ver == "2.3" {
			t = append(t, "PrimaryPackagePurpose", "ReleaseDate", "BuiltDate", "ValidUntilDate")
		}
	case "file":
		t = []string{"PackageName", "FileName", "SnippetSPDXID", "LicenseID", "Reviewer", "SPDXID", "FileType", "FileChecksum", "LicenseConcluded",
			"LicenseInfoInFile", "LicenseComments", "FileCopyrightText", "ArtifactOfProjectName", "ArtifactOfProjectHomePage", "ArtifactOfProjectURI",
			"FileComment", "FileNotice", "FileContributor", "FileDependency"}
		if ver != "2.1" {
			t = append(t, "FileAttributionText")
		}
	case "snippet":
		t = []string{"PackageName", "FileName", "SnippetSPDXID", "LicenseID", "Reviewer", "SnippetFromFileSPDXID", "SnippetByteRange", "SnippetLineRange",
			"SnippetLicenseConcluded", "LicenseInfoInSnippet", "SnippetLicenseComments", "SnippetCopyrightText", "SnippetComment", "SnippetName"}
		if ver != "2.1" {
			t = append(t, "SnippetAttributionText")
		}
	case "license":
		t = []string{"LicenseID", "ExtractedText", "LicenseName", "LicenseCrossReference", "LicenseComment", "Reviewer"}
	case "review":
		t = []string{"Reviewer", "ReviewDate", "ReviewComment"}
	}
	return append(t, anywhereTags...)
}

func nextSection(section, tag string) string {
	switch tag {
	case "PackageName":
		return "package"
	case "FileName":
		return "file"
	case "SnippetSPDXID":
		return "snippet"
	case "LicenseID":
		return "license"
	case "Reviewer":
		return "review"
	case "ExternalDocumentRef", "DocumentComment":
		return "document"
	case "SPDXVersion", "DataLicense", "DocumentName", "DocumentNamespace":
		return "document"
	}
	if section == "document" && tag != "SPDXID" {
		return "creation"
	}
	return section
}

var allTags = func() []string {
	seen := map[string]bool{}
	var out []string
	for _, s := range []string{"document", "creation", "package", "file", "snippet", "license", "review"} {
		for _, t := range sectionTags("2.3", s) {
			if !seen[t] {
				seen[t] = true
				out = append(out, t)
			}
		}
	}
	return out
}()

func contains(xs []string, x string) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}

// badValue is a value that is malformed for the tag; "" when any value will do.
func (g *G) badValue(ver, tag string) (string, bool) {
	badElement := func() string {
		return pick(g, "SPDXRef-", "foo", "DOCUMENT", "DocumentRef-x:SPDXRef-y", "SPDXRef-a:b", "spdxref-a", "SPDXREF-a", "SPDXRef", "NONE", "ref-SPDXRef-a", "")
	}
	badDocElement := func() string {
		return pick(g, "SPDXRef-", "foo", "DocumentRef-:SPDXRef-a", "DocumentRef-x", "DocumentRef-x:a", "DocumentRef-x:SPDXRef-", "SPDXRef-a:b",
			"DocumentRef-x:SPDXRef-a:b", "x:SPDXRef-a", "documentref-x:SPDXRef-a", "none", "xSPDXRef-a")
	}
	n := g.word()
	n = strings.ReplaceAll(n, ":", "")
	if n == "" {
		n = "x"
	}
	switch tag {
	case "SPDXID", "SnippetSPDXID":
		return badElement(), true
	case "SnippetFromFileSPDXID", "SPDXREF":
		return pick(g, badDocElement(), badDocElement(), "NONE", "NOASSERTION", ""), true
	case "Relationship":
		ok := "SPDXRef-" + pick(g, "a", "DOCUMENT")
		bad := badDocElement()
		switch g.upto(5) {
		case 0:
			return bad + " DESCRIBES " + ok, true
		case 1:
			return ok + " DESCRIBES " + bad, true
		case 2:
			return ok + " " + ok, true
		case 3:
			return ok + " DESCRIBES " + ok + " " + n, true
		case 4:
			return pick(g, "NONE", "NOASSERTION") + " CONTAINS " + ok, true
		}
		if ver == "2.1" {
			return ok + " CONTAINS " + pick(g, "NONE", "NOASSERTION"), true
		}
		return pick(g, "", ok, ok+" DESCRIBES"), true
	case "Creator", "Annotator", "Reviewer":
		return pick(g, n, "person: "+n, "Persons: "+n, ": "+n, "Robot:"+n, "Organisation: "+n, "NOASSERTION", ""), true
	case "PackageSupplier", "PackageOriginator":
		return pick(g, n, "Tool: "+n, "person: "+n, ": "+n, "NONE", "noassertion", "Organisation:"+n), true
	case "PackageChecksum", "FileChecksum":
		hex := strings.ReplaceAll(g.hex(), ":", "")
		bad := []string{"SHA1 " + hex, "SHA0: 00", "sha1: 00", "SHA-256: 00", ": 00", hex, "SHA: 1", "CRC32: 1", "BLAKE3-256: 1"}
		if ver != "2.3" {
			bad = append(bad, "SHA3-256: 00", "ADLER32: 00", "BLAKE3: 00", "BLAKE2b-512: 1")
		}
		if ver == "2.1" {
			bad = append(bad, "SHA512: 00", "SHA224: 00", "MD2: 1", "MD6: 1")
		}
		return pick(g, bad...), true
	case "ExternalRef":
		return pick(g, "SECURITY "+n, "SECURITY", "SECURITY cpe23Type a b", "SECURITY cpe23Type", ""), true
	case "ExternalDocumentRef":
		return pick(g, "DocumentRef-x https://a", "DocumentRef- https://a SHA1:00", "doc https://a SHA1: 00", "DocumentRef-x https://a SHA1",
			"DocumentRef-x https://a SHA1 00", "DocumentRef-x https://a "+string(pick(g, algosFor(ver)...))+" 00", "DocumentRef-x https://a SHA1: 00 11", "SPDXRef-x https://a SHA1:00", ""), true
	case "SnippetByteRange", "SnippetLineRange":
		return pick(g, "12", "a:3", "1:b", ":", "1-2", "1:2:3", "1.5:2", "0x1:2", "1:", ":2", "", "9223372036854775808:1", "1 2"), true
	}
	return "", false
}

// otherTag is a tag made of the words of others, or one of them misspelt, that
// is not among ok.
func (g *G) otherTag(ok []string) string {
	for {
		a, b := tagWords(pick(g, allTags...)), tagWords(pick(g, allTags...))
		s := strings.Join(a[:1+g.upto(len(a)-1)], "") + strings.Join(b[g.upto(len(b)-1):], "")
		if g.oneIn(3) {
			s = pick(g, ok...)
			i := g.upto(len(s) - 1)
			s = s[:i] + pick(g, "", "x", "_", "-", strings.ToUpper(s[i:i+1]), strings.ToLower(s[i:i+1])) + s[i+1:]
		}
		if !contains(ok, s) {
			return s
		}
	}
}

func tagWords(tag string) []string {
	var out []string
	for i, c := range tag {
		if c >= 'A' && c <= 'Z' || i == 0 {
			out = append(out, "")
		}
		out[len(out)-1] += string(c)
	}
	return out
}

// lateComments are the places in a section with an external reference, or an
// artifact, where nothing may be said of it any more.
func lateComments(ps []tvPair, section []string) []int {
	var out []int
	open := false
	for i := 1; i < len(ps); i++ {
		switch t := ps[i-1].tag; t {
		case "PackageName", "FileName", "SnippetSPDXID", "LicenseID", "Reviewer":
			open = false
		case "ExternalRef", "ArtifactOfProjectName":
			open = true
			continue
		case "ArtifactOfProjectHomePage", "ArtifactOfProjectURI":
			continue
		}
		if open {
			out = append(out, i)
		}
	}
	return out
}

// tvMalformed: a file with one thing wrong in it is rejected.
func tvMalformed(ver string) func(t *rapid.T, c *Ctx) {
	return func(t *rapid.T, c *Ctx) {
		g := &G{t: t, fmt: "tv", ver: ver}
		d23 := g.doc23()
		// make sure there is something of the kind that gets broken
		if len(d23.Packages) == 0 && g.oneIn(2) {
			d23.Packages = append(d23.Packages, g.pkg())
		}
		if len(d23.Files) == 0 && g.oneIn(2) {
			d23.Files = append(d23.Files, g.file())
		}
		r := g.tvUnits(ver, d23)
		// one pair per unit from here on
		var ps []tvPair
		var section []string // before pair i
		s := "document"
		for _, u := range r.units {
			for _, p := range u {
				section = append(section, s)
				ps = append(ps, p)
				s = nextSection(s, p.tag)
			}
		}
		section = append(section, s)
		insert := func(at int, p tvPair) {
			ps = append(ps[:at:at], append([]tvPair{p}, ps[at:]...)...)
		}
		what := ""
		tailText := ""
		kind := g.upto(7)
		switch kind {
		case 0, 1: // bad value, replacing one or added where the section allows it
			var at []int
			for i, p := range ps {
				if _, ok := g.badValueTag(p.tag); ok {
					at = append(at, i)
				}
			}
			if len(at) > 0 && kind == 0 {
				i := at[g.upto(len(at)-1)]
				v, _ := g.badValue(ver, ps[i].tag)
				what = fmt.Sprintf("%s: %q for %q", ps[i].tag, v, ps[i].val)
				ps[i].val, ps[i].text = v, false
				break
			}
			i := 1 + g.upto(len(ps)-1)
			var cand []string
			for _, t := range sectionTags(ver, section[i]) {
				if _, ok := g.badValueTag(t); ok {
					cand = append(cand, t)
				}
			}
			tag := pick(g, cand...)
			if tag == "SPDXREF" && !hasBefore(ps, i, "Annotator") {
				tag = "Annotator"
			}
			v, _ := g.badValue(ver, tag)
			what = fmt.Sprintf("added %s: %q", tag, v)
			insert(i, tvPair{tag: tag, val: v})
		case 2: // a tag the section does not know
			// every section as often
			bySection := map[string][]int{}
			var names []string
			for i, s := range section {
				if len(bySection[s]) == 0 {
					names = append(names, s)
				}
				bySection[s] = append(bySection[s], i)
			}
			places := bySection[pick(g, names...)]
			i := places[g.upto(len(places)-1)]
			ok := sectionTags(ver, section[i])
			// there, none of the tags of other sections will do, and no other
			// spelling of its own
			spelling := g.upto(4)
			for k, tag := range allTags {
				for _, tag := range []string{tag, []string{strings.ToLower(tag), strings.ToUpper(tag), tag + "s", tag[:len(tag)-1], "X" + tag}[(k+spelling)%5]} {
					if contains(ok, tag) {
						continue
					}
					v, special := g.goodValue(tag)
					if !special {
						v = "a"
					}
					one := tvRender{g: &G{plain: true, fmt: "tv", ver: ver}}
					for j, p := range ps {
						if j == i {
							one.units = append(one.units, tvUnit{{tag: tag, val: v}})
						}
						one.units = append(one.units, tvUnit{p})
					}
					if i == len(ps) {
						one.units = append(one.units, tvUnit{{tag: tag, val: v}})
					}
					text := one.String()
					if err := tagvalue.ReadInto(strings.NewReader(text), emptyDoc(ver)); err == nil {
						t.Fatalf("accepted a file with tag %q in a %s section:\n%s", tag, section[i], text)
					}
				}
			}
			var tag string
			if g.oneIn(3) {
				tag = pick(g, "Bogus", "packageName", "SPDXId", "PackageNames", "", "Package Name", "FileTypes", "Relationships", "Creators", "SPDXRef")
				if g.oneIn(2) {
					tag = g.otherTag(ok)
				}
			} else {
				var cand []string
				for _, t := range allTags {
					if !contains(ok, t) {
						cand = append(cand, t)
					}
				}
				tag = pick(g, cand...)
			}
			v, special := g.goodValue(tag)
			if !special {
				v = g.line()
			}
			what = fmt.Sprintf("tag %q in a %s section", tag, section[i])
			insert(i, tvPair{tag: tag, val: v})
		case 3: // a package or file without an identifier
			var at []int
			for i, p := range ps {
				if p.tag == "SPDXID" && (section[i] == "package" || section[i] == "file") {
					at = append(at, i)
				}
			}
			if len(at) == 0 {
				tag := pick(g, "PackageName", "FileName")
				i := len(ps)
				for i > 1 && !contains(sectionTags(ver, section[i]), tag) {
					i--
				}
				what = "empty " + tag + " section"
				insert(i, tvPair{tag: tag, val: g.line()})
				break
			}
			i := at[g.upto(len(at)-1)]
			what = fmt.Sprintf("%s without %s", section[i], ps[i].val)
			ps = append(ps[:i:i], ps[i+1:]...)
		case 4: // a tag that belongs to another, which is not there
			i := 1 + g.upto(len(ps)-1)
			if late := lateComments(ps, section); len(late) > 0 && g.oneIn(2) {
				i = late[g.upto(len(late)-1)]
			}
			var cand []string
			switch section[i] {
			case "package":
				if ps[i-1].tag != "ExternalRef" {
					cand = append(cand, "ExternalRefComment")
				}
			case "file":
				if !strings.HasPrefix(ps[i-1].tag, "ArtifactOfProject") {
					cand = append(cand, "ArtifactOfProjectHomePage", "ArtifactOfProjectURI")
				}
			}
			if len(cand) > 0 && g.oneIn(2) {
				// one of these
			} else if !hasBefore(ps, i, "Relationship") {
				cand = append(cand, "RelationshipComment")
			}
			if !hasBefore(ps, i, "Annotator") {
				cand = append(cand, "AnnotationDate", "AnnotationType", "SPDXREF", "AnnotationComment")
			}
			tag := "Bogus"
			if len(cand) > 0 {
				tag = pick(g, cand...)
			}
			v := g.line()
			if tag == "SPDXREF" {
				v = "SPDXRef-a"
			}
			what = "orphan " + tag
			insert(i, tvPair{tag: tag, val: v})
			if owner := map[string]string{"ExternalRefComment": "ExternalRef", "ArtifactOfProjectHomePage": "ArtifactOfProjectName", "ArtifactOfProjectURI": "ArtifactOfProjectName"}[tag]; owner != "" && g.oneIn(2) {
				// the one it belongs to, something else, and then the comment
				var between []string
				for _, t := range sectionTags(ver, section[i]) {
					if nextSection(section[i], t) == section[i] && t != owner && !contains(anywhereTags, t) && !strings.HasPrefix(t, owner) && (owner == "ExternalRef" || !strings.HasPrefix(t, "ArtifactOfProject")) && t != "PackageName" && t != "FileName" && t != "SPDXID" {
						between = append(between, t)
					}
				}
				t := pick(g, between...)
				v, ok := g.goodValue(t)
				if !ok {
					v = g.line()
				}
				insert(i, tvPair{tag: t, val: v})
				v, ok = g.goodValue(owner)
				if !ok {
					v = g.line()
				}
				insert(i, tvPair{tag: owner, val: v})
				what += " after " + t
			}
		case 5: // text that is not a tag-value line
			what = "line without a colon"
			i := g.upto(len(ps))
			v := strings.TrimSpace(strings.NewReplacer(":", "", "#", "").Replace(pick(g, g.line(), g.line(), "\ufeff", ".", "<text>", "PackageName", "</text>")))
			if v == "" {
				v = "x"
			}
			insert(i, tvPair{tag: "\x00", val: v})
		case 6: // text without an end
			what = "text without an end"
			tailText = "\n" + pick(g, "Relationship", "AnnotationComment", "Bogus") + ":" + pick(g, "", " ") + "<text>" + strings.ReplaceAll(g.text(), "</text>", "")
		case 7:
			what = "version"
			var i int
			for ps[i].tag != "SPDXVersion" {
				i++
			}
			if g.oneIn(3) {
				ps = append(ps[:i:i], ps[i+1:]...)
			} else {
				ps[i].val = pick(g, "SPDX-2.0", "SPDX-1.2", "SPDX-3.0", "2.3", "", "SPDX-2.3.1", "spdx-2.3", "SPDX-2.", "SPDX-2.10", "SPDX 2.3", "SPDX-2.1.0", "SPDX-2.2.1", "SPDX-2.2.2", "SPDX-2.3.0")
			}
		}
		r.units = nil
		for _, p := range ps {
			r.units = append(r.units, tvUnit{p})
		}
		text := r.String()
		if kind == 5 {
			// the line without a colon
			i := strings.IndexByte(text, 0)
			j := i + strings.IndexByte(text[i:], ':')
			text = text[:i] + text[j+1:]
		}
		text += tailText
		if kind == 7 && g.oneIn(8) {
			what = "nothing in it"
			text = strings.Join(strings.Fields(pick(g, "", "#", "# SPDXVersion:SPDX-2.3", "#\n#")), " ") + pick(g, "", "\n", "\n\n", " \n\t\n", "\r\n")
		}
		if kind == 5 || kind == 6 {
			if pairs, err := reader.ReadTagValues(strings.NewReader(text)); err == nil {
				t.Fatalf("%s: the lexer gives %q", what, pairs)
			}
		}
		c.Log("broken: %s", what)
		c.Log("file:\n%s", text)
		c.Class([]string{"value replaced", "value added", "foreign tag", "no identifier", "orphan", "no colon", "unterminated", "version"}[kind])
		target := emptyDoc(ver)
		if g.oneIn(3) {
			v := pick(g, versions...)
			target = as(v, (&G{t: t, fmt: "common", ver: v}).doc23())
			c.Log("read into: %s", ShowFull(Tree(target, nil)))
		}
		before := ShowFull(Tree(target, nil))
		if err := tagvalue.ReadInto(strings.NewReader(text), target); err == nil {
			t.Fatalf("accepted a file with: %s", what)
		}
		if got := ShowFull(Tree(target, nil)); got != before {
			t.Fatalf("rejected, but the target document was changed to %s", got)
		}
		c.Nontrivial(what + "\n" + text)
	}
}

func hasBefore(ps []tvPair, i int, tag string) bool {
	for _, p := range ps[:i] {
		if p.tag == tag {
			return true
		}
	}
	return false
}

func (g *G) badValueTag(tag string) (string, bool) {
	switch tag {
	case "SPDXID", "SnippetSPDXID", "SnippetFromFileSPDXID", "SPDXREF", "Relationship", "Creator", "Annotator", "Reviewer",
		"PackageSupplier", "PackageOriginator", "PackageChecksum", "FileChecksum", "ExternalRef", "ExternalDocumentRef",
		"SnippetByteRange", "SnippetLineRange":
		return tag, true
	}
	return "", false
}

// goodValue is a well-formed value of a tag that has a form.
func (g *G) goodValue(tag string) (string, bool) {
	switch tag {
	case "SPDXVersion":
		return "SPDX-" + g.ver, true
	case "SPDXID", "SnippetSPDXID", "SnippetFromFileSPDXID", "SPDXREF":
		return "SPDXRef-a", true
	case "Relationship":
		return "SPDXRef-a CONTAINS SPDXRef-b", true
	case "Creator", "Annotator", "Reviewer", "PackageSupplier", "PackageOriginator":
		return "Person: a", true
	case "PackageChecksum", "FileChecksum":
		return "SHA1: 00", true
	case "ExternalRef":
		return "OTHER a b", true
	case "ExternalDocumentRef":
		return "DocumentRef-a https://a SHA1: 00", true
	case "SnippetByteRange", "SnippetLineRange":
		return "1:2", true
	}
	return "", false
}
