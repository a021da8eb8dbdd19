package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/spdx/tools-golang/spdx/v2/common"
	"github.com/spdx/tools-golang/spdx/v2/v2_3"
)

// A reference renderer of tag-value files, written from the SPDX 2.x
// specification. It spells the same document in many ways: order of the tags of
// a section, comments, blank lines, white space, <text> around free text.

type tvPair struct {
	tag, val string
	text     bool // free text: may be wrapped in <text>
}

// tvUnit is a run of pairs that belong together, in this order.
type tvUnit []tvPair

type tvRender struct {
	g     *G
	units []tvUnit
	free  int // units before this index are of the document itself
}

func (r *tvRender) sp() string { return pick(r.g, " ", " ", "  ") }

func (r *tvRender) sub(a, b string) string { return a + ":" + pick(r.g, " ", "", "  ") + b }

func (r *tvRender) rng(a, b string) string { return a + ":" + pick(r.g, "", " ", "  ") + b }

// section adds a first unit and the others in a random order that keeps units
// of the same tag in theirs.
func (r *tvRender) section(first tvUnit, rest []tvUnit) {
	if first != nil {
		r.units = append(r.units, first)
	}
	sh := shuffled(r.g, rest)
	byTag := map[string][]tvUnit{}
	for _, u := range rest {
		byTag[u[0].tag] = append(byTag[u[0].tag], u)
	}
	for _, u := range sh {
		q := byTag[u[0].tag]
		r.units = append(r.units, q[0])
		byTag[u[0].tag] = q[1:]
	}
}

type unitList []tvUnit

func (l *unitList) line(tag, v string) {
	if v != "" {
		*l = append(*l, tvUnit{{tag: tag, val: v}})
	}
}

func (l *unitList) text(tag, v string) {
	if v != "" {
		*l = append(*l, tvUnit{{tag: tag, val: v, text: true}})
	}
}

func (l *unitList) lines(tag string, vs []string) {
	for _, v := range vs {
		l.line(tag, v)
	}
}

func (l *unitList) texts(tag string, vs []string) {
	for _, v := range vs {
		l.text(tag, v)
	}
}

func (r *tvRender) checksums(l *unitList, tag string, cs []common.Checksum) {
	for _, c := range cs {
		l.line(tag, r.sub(string(c.Algorithm), c.Value))
	}
}

func (r *tvRender) actor(typ, name string) string {
	if typ == "" {
		return name
	}
	return r.sub(typ, name)
}

func (r *tvRender) snippet(ver string, s *v2_3.Snippet) {
	var l unitList
	l.line("SnippetFromFileSPDXID", refID(s.SnippetFromFileSPDXIdentifier))
	var ranges unitList
	for _, x := range s.Ranges {
		if x.StartPointer.Offset != 0 && x.StartPointer.LineNumber != 0 {
			ranges.line("SnippetByteRange", r.rng(fmt.Sprint(x.StartPointer.Offset), fmt.Sprint(x.EndPointer.Offset)))
			ranges.line("SnippetLineRange", r.rng(fmt.Sprint(x.StartPointer.LineNumber), fmt.Sprint(x.EndPointer.LineNumber)))
		} else if x.StartPointer.Offset != 0 {
			ranges.line("SnippetByteRange", r.rng(fmt.Sprint(x.StartPointer.Offset), fmt.Sprint(x.EndPointer.Offset)))
		} else {
			ranges.line("SnippetLineRange", r.rng(fmt.Sprint(x.StartPointer.LineNumber), fmt.Sprint(x.EndPointer.LineNumber)))
		}
	}
	// byte and line ranges are one list in the model: keep their order
	var joined tvUnit
	for _, u := range ranges {
		joined = append(joined, u...)
	}
	if joined != nil {
		l = append(l, joined)
	}
	l.line("SnippetLicenseConcluded", s.SnippetLicenseConcluded)
	l.lines("LicenseInfoInSnippet", s.LicenseInfoInSnippet)
	l.text("SnippetLicenseComments", s.SnippetLicenseComments)
	l.text("SnippetCopyrightText", s.SnippetCopyrightText)
	l.text("SnippetComment", s.SnippetComment)
	l.line("SnippetName", s.SnippetName)
	if ver != "2.1" {
		l.texts("SnippetAttributionText", s.SnippetAttributionTexts)
	}
	r.section(tvUnit{{tag: "SnippetSPDXID", val: refID(s.SnippetSPDXIdentifier)}}, l)
}

func (r *tvRender) file(ver string, f *v2_3.File) {
	var l unitList
	l.line("SPDXID", refID(f.FileSPDXIdentifier))
	l.lines("FileType", f.FileTypes)
	r.checksums(&l, "FileChecksum", f.Checksums)
	l.line("LicenseConcluded", f.LicenseConcluded)
	l.lines("LicenseInfoInFile", f.LicenseInfoInFiles)
	l.text("LicenseComments", f.LicenseComments)
	l.text("FileCopyrightText", f.FileCopyrightText)
	for _, a := range f.ArtifactOfProjects {
		u := tvUnit{{tag: "ArtifactOfProjectName", val: a.Name}}
		var more []tvPair
		if a.HomePage != "" {
			more = append(more, tvPair{tag: "ArtifactOfProjectHomePage", val: a.HomePage})
		}
		if a.URI != "" {
			more = append(more, tvPair{tag: "ArtifactOfProjectURI", val: a.URI})
		}
		l = append(l, append(u, shuffled(r.g, more)...))
	}
	l.text("FileComment", f.FileComment)
	l.text("FileNotice", f.FileNotice)
	l.lines("FileContributor", f.FileContributors)
	if ver != "2.1" {
		l.texts("FileAttributionText", f.FileAttributionTexts)
	}
	l.lines("FileDependency", f.FileDependencies)
	r.section(tvUnit{{tag: "FileName", val: f.FileName}}, l)
	var ids []string
	for id := range f.Snippets {
		ids = append(ids, string(id))
	}
	sort.Strings(ids)
	for _, id := range shuffled(r.g, ids) {
		r.snippet(ver, f.Snippets[common.ElementID(id)])
	}
}

func (r *tvRender) pkg(ver string, p *v2_3.Package) {
	var l unitList
	l.line("SPDXID", refID(p.PackageSPDXIdentifier))
	l.line("PackageVersion", p.PackageVersion)
	l.line("PackageFileName", p.PackageFileName)
	if p.PackageSupplier != nil {
		l.line("PackageSupplier", r.actor(p.PackageSupplier.SupplierType, p.PackageSupplier.Supplier))
	}
	if p.PackageOriginator != nil {
		l.line("PackageOriginator", r.actor(p.PackageOriginator.OriginatorType, p.PackageOriginator.Originator))
	}
	l.line("PackageDownloadLocation", p.PackageDownloadLocation)
	if !p.FilesAnalyzed || p.IsFilesAnalyzedTagPresent {
		l.line("FilesAnalyzed", fmt.Sprint(p.FilesAnalyzed))
	}
	if c := p.PackageVerificationCode; c != nil && c.Value != "" {
		v := c.Value
		if len(c.ExcludedFiles) > 0 {
			v += pick(r.g, " ", "") + "(excludes:" + pick(r.g, " ", "") + strings.Join(c.ExcludedFiles, ", ") + ")"
		}
		l.line("PackageVerificationCode", v)
	}
	r.checksums(&l, "PackageChecksum", p.PackageChecksums)
	l.line("PackageHomePage", p.PackageHomePage)
	l.text("PackageSourceInfo", p.PackageSourceInfo)
	l.line("PackageLicenseConcluded", p.PackageLicenseConcluded)
	l.lines("PackageLicenseInfoFromFiles", p.PackageLicenseInfoFromFiles)
	l.line("PackageLicenseDeclared", p.PackageLicenseDeclared)
	l.text("PackageLicenseComments", p.PackageLicenseComments)
	l.text("PackageCopyrightText", p.PackageCopyrightText)
	l.text("PackageSummary", p.PackageSummary)
	l.text("PackageDescription", p.PackageDescription)
	l.text("PackageComment", p.PackageComment)
	for _, x := range p.PackageExternalReferences {
		u := tvUnit{{tag: "ExternalRef", val: x.Category + r.sp() + x.RefType + r.sp() + x.Locator}}
		if x.ExternalRefComment != "" {
			u = append(u, tvPair{tag: "ExternalRefComment", val: x.ExternalRefComment, text: true})
		}
		l = append(l, u)
	}
	if ver != "2.1" {
		l.texts("PackageAttributionText", p.PackageAttributionTexts)
	}
	if ver == "2.3" {
		l.line("PrimaryPackagePurpose", p.PrimaryPackagePurpose)
		l.line("ReleaseDate", p.ReleaseDate)
		l.line("BuiltDate", p.BuiltDate)
		l.line("ValidUntilDate", p.ValidUntilDate)
	}
	r.section(tvUnit{{tag: "PackageName", val: p.PackageName}}, l)
	for _, f := range p.Files {
		r.file(ver, f)
	}
}

func (g *G) tvUnits(ver string, d *v2_3.Document) *tvRender {
	r := &tvRender{g: g}
	var l unitList
	l.line("SPDXVersion", d.SPDXVersion)
	l.line("DataLicense", d.DataLicense)
	l.line("SPDXID", refID(d.SPDXIdentifier))
	l.line("DocumentName", d.DocumentName)
	l.line("DocumentNamespace", d.DocumentNamespace)
	for _, e := range d.ExternalDocumentReferences {
		l.line("ExternalDocumentRef", "DocumentRef-"+string(e.DocumentRefID)+r.sp()+e.URI+r.sp()+string(e.Checksum.Algorithm)+":"+pick(g, "", " ")+e.Checksum.Value)
	}
	l.text("DocumentComment", d.DocumentComment)
	r.section(nil, l)
	r.free = len(r.units)
	l = nil
	for _, c := range d.CreationInfo.Creators {
		l.line("Creator", r.sub(c.CreatorType, c.Creator))
	}
	l.line("LicenseListVersion", d.CreationInfo.LicenseListVersion)
	l.line("Created", d.CreationInfo.Created)
	l.text("CreatorComment", d.CreationInfo.CreatorComment)
	first := len(r.units)
	r.section(nil, l)
	if g.oneIn(3) {
		// external documents and the comment may also stand among these
		var stay, move []tvUnit
		for _, u := range r.units[:r.free] {
			if t := u[0].tag; t == "DocumentComment" && g.oneIn(2) || t == "ExternalDocumentRef" && (len(move) > 0 || g.oneIn(2)) {
				move = append(move, u)
			} else {
				stay = append(stay, u)
			}
		}
		rest := r.units[first:]
		r.units = stay
		for i, u := range rest {
			for len(move) > 0 && i > 0 && g.oneIn(2) {
				r.units = append(r.units, move[0])
				move = move[1:]
			}
			r.units = append(r.units, u)
		}
		r.units = append(r.units, move...)
		r.free = len(stay)
	}
	for _, f := range d.Files {
		r.file(ver, f)
	}
	for _, p := range d.Packages {
		r.pkg(ver, p)
	}
	for _, x := range d.OtherLicenses {
		l = nil
		l.text("ExtractedText", x.ExtractedText)
		l.line("LicenseName", x.LicenseName)
		l.lines("LicenseCrossReference", x.LicenseCrossReferences)
		l.text("LicenseComment", x.LicenseComment)
		r.section(tvUnit{{tag: "LicenseID", val: x.LicenseIdentifier}}, l)
	}
	for _, x := range d.Reviews {
		l = nil
		l.line("ReviewDate", x.ReviewDate)
		l.text("ReviewComment", x.ReviewComment)
		r.section(tvUnit{{tag: "Reviewer", val: r.sub(x.ReviewerType, x.Reviewer)}}, l)
	}
	// relationships and annotations may stand in any section
	var rels, anns []tvUnit
	for _, x := range d.Relationships {
		u := tvUnit{{tag: "Relationship", val: refDocID(x.RefA) + r.sp() + x.Relationship + r.sp() + refDocID(x.RefB)}}
		if x.RelationshipComment != "" {
			u = append(u, tvPair{tag: "RelationshipComment", val: x.RelationshipComment, text: true})
		}
		rels = append(rels, u)
	}
	for _, x := range d.Annotations {
		u := tvUnit{{tag: "Annotator", val: r.sub(x.Annotator.AnnotatorType, x.Annotator.Annotator)}}
		var more []tvPair
		if x.AnnotationDate != "" {
			more = append(more, tvPair{tag: "AnnotationDate", val: x.AnnotationDate})
		}
		if x.AnnotationType != "" {
			more = append(more, tvPair{tag: "AnnotationType", val: x.AnnotationType})
		}
		more = append(more, tvPair{tag: "SPDXREF", val: refDocID(x.AnnotationSPDXIdentifier)})
		if x.AnnotationComment != "" {
			more = append(more, tvPair{tag: "AnnotationComment", val: x.AnnotationComment, text: true})
		}
		anns = append(anns, append(u, shuffled(g, more)...))
	}
	r.scatter(rels)
	r.scatter(anns)
	return r
}

// scatter inserts the units, in their order, at random places (mostly late),
// now and then with other tags between those of one.
func (r *tvRender) scatter(us []tvUnit) {
	if r.g.oneIn(4) {
		var apart []tvUnit
		for _, u := range us {
			for _, p := range u {
				apart = append(apart, tvUnit{p})
			}
		}
		us = apart
	}
	at := make([]int, len(us))
	for i := range us {
		at[i] = len(r.units)
		if r.g.oneIn(2) {
			at[i] = r.free + r.g.upto(len(r.units)-r.free)
		}
	}
	sort.Ints(at)
	var out []tvUnit
	k := 0
	for i := 0; i <= len(r.units); i++ {
		for k < len(us) && at[k] == i {
			out = append(out, us[k])
			k++
		}
		if i < len(r.units) {
			out = append(out, r.units[i])
		}
	}
	r.units = out
}

// String spells the units as a file.
func (r *tvRender) String() string {
	g := r.g
	var b strings.Builder
	nl := pick(g, "\n", "\n", "\r\n")
	noise := g.upto(2) // 0 none, 1 some, 2 much
	for _, u := range r.units {
		for _, p := range u {
			if noise == 2 && g.oneIn(4) || noise == 1 && g.oneIn(10) {
				b.WriteString(pick(g, "", "  ", "# comment", "  ## PackageName: no", "#<text>", "\t"))
				b.WriteString(nl)
			}
			if noise == 2 && g.oneIn(5) {
				b.WriteString(pick(g, " ", "\t", "  "))
			}
			b.WriteString(p.tag)
			if noise == 2 && g.oneIn(6) {
				b.WriteByte(' ')
			}
			b.WriteByte(':')
			if noise == 0 || !g.oneIn(4) {
				b.WriteByte(' ')
			} else {
				b.WriteString(pick(g, "", "   ", "\t"))
			}
			wrap := p.text && (g.oneIn(2) || strings.Contains(p.val, "\n") || strings.Contains(p.val, "<text>") || strings.TrimSpace(p.val) != p.val)
			v := p.val
			if wrap {
				v = "<text>" + strings.ReplaceAll(v, "\n", nl) + "</text>"
			}
			b.WriteString(v)
			if noise == 2 && g.oneIn(6) {
				b.WriteString(pick(g, " ", "\t"))
			}
			b.WriteString(nl)
		}
	}
	s := b.String()
	if g.oneIn(6) {
		s = strings.TrimSuffix(s, nl)
	}
	return s
}
