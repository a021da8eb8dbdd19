package main

import (
	"encoding/json"
	"fmt"
	"regexp"
	"sort"
	"strings"
	"unicode/utf16"

	"github.com/spdx/tools-golang/spdx/v2/common"
	"github.com/spdx/tools-golang/spdx/v2/v2_3"
)

// The JSON spelling of a document, written down from the SPDX 2.x JSON
// schema, independently of the struct tags of the code under test.

type obj = map[string]any

// set puts a value that is there: empty ones are left out.
func set(o obj, key string, v any) {
	switch x := v.(type) {
	case string:
		if x == "" {
			return
		}
	case []any:
		if len(x) == 0 {
			return
		}
	case obj:
		if len(x) == 0 {
			return
		}
	}
	o[key] = v
}

func strs(xs []string) []any {
	var out []any
	for _, x := range xs {
		out = append(out, x)
	}
	return out
}

func refID(id common.ElementID) string { return "SPDXRef-" + string(id) }

func refDocID(d common.DocElementID) string {
	if d.SpecialID != "" {
		return d.SpecialID
	}
	s := refID(d.ElementRefID)
	if d.DocumentRefID != "" {
		s = "DocumentRef-" + string(d.DocumentRefID) + ":" + s
	}
	return s
}

func refChecksum(c common.Checksum) obj {
	return obj{"algorithm": string(c.Algorithm), "checksumValue": c.Value}
}

func refChecksums(cs []common.Checksum) []any {
	var out []any
	for _, c := range cs {
		out = append(out, refChecksum(c))
	}
	return out
}

func refAnnotation(a v2_3.Annotation) obj {
	o := obj{}
	set(o, "annotator", a.Annotator.AnnotatorType+": "+a.Annotator.Annotator)
	set(o, "annotationDate", a.AnnotationDate)
	set(o, "annotationType", a.AnnotationType)
	set(o, "comment", a.AnnotationComment)
	return o
}

func refAnnotations(as []v2_3.Annotation) []any {
	var out []any
	for _, a := range as {
		out = append(out, refAnnotation(a))
	}
	return out
}

func refFile(ver string, f *v2_3.File) obj {
	o := obj{}
	set(o, "fileName", f.FileName)
	set(o, "SPDXID", refID(f.FileSPDXIdentifier))
	set(o, "fileTypes", strs(f.FileTypes))
	set(o, "checksums", refChecksums(f.Checksums))
	set(o, "licenseConcluded", f.LicenseConcluded)
	set(o, "licenseInfoInFiles", strs(f.LicenseInfoInFiles))
	set(o, "licenseComments", f.LicenseComments)
	set(o, "copyrightText", f.FileCopyrightText)
	set(o, "comment", f.FileComment)
	set(o, "noticeText", f.FileNotice)
	set(o, "fileContributors", strs(f.FileContributors))
	set(o, "annotations", refAnnotations(f.Annotations))
	if ver != "2.1" {
		set(o, "attributionTexts", strs(f.FileAttributionTexts))
	}
	if ver == "2.3" {
		set(o, "fileDependencies", strs(f.FileDependencies))
		var as []any
		for _, a := range f.ArtifactOfProjects {
			x := obj{}
			set(x, "name", a.Name)
			set(x, "homePage", a.HomePage)
			set(x, "URI", a.URI)
			as = append(as, x)
		}
		set(o, "artifactOfs", as)
	}
	return o
}

func refActor(typ, name string) string {
	if typ == "" {
		return name
	}
	return typ + ": " + name
}

func refPackage(ver string, p *v2_3.Package) obj {
	o := obj{}
	set(o, "name", p.PackageName)
	set(o, "SPDXID", refID(p.PackageSPDXIdentifier))
	set(o, "versionInfo", p.PackageVersion)
	set(o, "packageFileName", p.PackageFileName)
	if p.PackageSupplier != nil {
		set(o, "supplier", refActor(p.PackageSupplier.SupplierType, p.PackageSupplier.Supplier))
	}
	if p.PackageOriginator != nil {
		set(o, "originator", refActor(p.PackageOriginator.OriginatorType, p.PackageOriginator.Originator))
	}
	set(o, "downloadLocation", p.PackageDownloadLocation)
	if ver != "2.1" || p.FilesAnalyzed {
		o["filesAnalyzed"] = p.FilesAnalyzed
	}
	if c := p.PackageVerificationCode; c != nil {
		x := obj{}
		set(x, "packageVerificationCodeValue", c.Value)
		set(x, "packageVerificationCodeExcludedFiles", strs(c.ExcludedFiles))
		if ver == "2.3" && c.Value == "" {
			x["packageVerificationCodeValue"] = ""
			o["packageVerificationCode"] = x
		}
		set(o, "packageVerificationCode", x)
	}
	set(o, "checksums", refChecksums(p.PackageChecksums))
	set(o, "homepage", p.PackageHomePage)
	set(o, "sourceInfo", p.PackageSourceInfo)
	set(o, "licenseConcluded", p.PackageLicenseConcluded)
	set(o, "licenseInfoFromFiles", strs(p.PackageLicenseInfoFromFiles))
	set(o, "licenseDeclared", p.PackageLicenseDeclared)
	set(o, "licenseComments", p.PackageLicenseComments)
	set(o, "copyrightText", p.PackageCopyrightText)
	set(o, "summary", p.PackageSummary)
	set(o, "description", p.PackageDescription)
	set(o, "comment", p.PackageComment)
	var refs []any
	for _, r := range p.PackageExternalReferences {
		x := obj{}
		cat := r.Category
		if ver == "2.2" {
			cat = strings.ReplaceAll(cat, "-", "_")
		}
		set(x, "referenceCategory", cat)
		set(x, "referenceType", r.RefType)
		set(x, "referenceLocator", r.Locator)
		set(x, "comment", r.ExternalRefComment)
		refs = append(refs, x)
	}
	set(o, "externalRefs", refs)
	if ver != "2.1" {
		set(o, "attributionTexts", strs(p.PackageAttributionTexts))
	}
	if ver == "2.3" {
		set(o, "primaryPackagePurpose", p.PrimaryPackagePurpose)
		set(o, "releaseDate", p.ReleaseDate)
		set(o, "builtDate", p.BuiltDate)
		set(o, "validUntilDate", p.ValidUntilDate)
	}
	var fs []any
	for _, f := range p.Files {
		fs = append(fs, refFile(ver, f))
	}
	set(o, "files", fs)
	set(o, "annotations", refAnnotations(p.Annotations))
	return o
}

func refPointer(p common.SnippetRangePointer) obj {
	o := obj{}
	if p.Offset != 0 {
		o["offset"] = p.Offset
	}
	if p.LineNumber != 0 {
		o["lineNumber"] = p.LineNumber
	}
	set(o, "reference", refID(p.FileSPDXIdentifier))
	return o
}

func refSnippet(s v2_3.Snippet) obj {
	o := obj{}
	set(o, "SPDXID", refID(s.SnippetSPDXIdentifier))
	set(o, "snippetFromFile", refID(s.SnippetFromFileSPDXIdentifier))
	var rs []any
	for _, r := range s.Ranges {
		rs = append(rs, obj{"startPointer": refPointer(r.StartPointer), "endPointer": refPointer(r.EndPointer)})
	}
	set(o, "ranges", rs)
	set(o, "licenseConcluded", s.SnippetLicenseConcluded)
	set(o, "licenseInfoInSnippets", strs(s.LicenseInfoInSnippet))
	set(o, "licenseComments", s.SnippetLicenseComments)
	set(o, "copyrightText", s.SnippetCopyrightText)
	set(o, "comment", s.SnippetComment)
	set(o, "name", s.SnippetName)
	return o
}

func refRelationship(r *v2_3.Relationship) obj {
	o := obj{"spdxElementId": refDocID(r.RefA), "relatedSpdxElement": refDocID(r.RefB)}
	set(o, "relationshipType", r.Relationship)
	set(o, "comment", r.RelationshipComment)
	return o
}

func refDocument(ver string, d *v2_3.Document) obj {
	o := obj{}
	set(o, "spdxVersion", d.SPDXVersion)
	set(o, "dataLicense", d.DataLicense)
	set(o, "SPDXID", refID(d.SPDXIdentifier))
	set(o, "name", d.DocumentName)
	set(o, "documentNamespace", d.DocumentNamespace)
	set(o, "comment", d.DocumentComment)
	var ext []any
	for _, e := range d.ExternalDocumentReferences {
		ext = append(ext, obj{"externalDocumentId": "DocumentRef-" + string(e.DocumentRefID), "spdxDocument": e.URI, "checksum": refChecksum(e.Checksum)})
	}
	set(o, "externalDocumentRefs", ext)
	if ci := d.CreationInfo; ci != nil {
		x := obj{}
		set(x, "licenseListVersion", ci.LicenseListVersion)
		var cs []any
		for _, c := range ci.Creators {
			cs = append(cs, c.CreatorType+": "+c.Creator)
		}
		set(x, "creators", cs)
		set(x, "created", ci.Created)
		set(x, "comment", ci.CreatorComment)
		set(o, "creationInfo", x)
	}
	var l []any
	for _, p := range d.Packages {
		l = append(l, refPackage(ver, p))
	}
	set(o, "packages", l)
	l = nil
	for _, f := range d.Files {
		l = append(l, refFile(ver, f))
	}
	set(o, "files", l)
	l = nil
	for _, s := range d.Snippets {
		l = append(l, refSnippet(s))
	}
	set(o, "snippets", l)
	l = nil
	for _, x := range d.OtherLicenses {
		y := obj{}
		set(y, "licenseId", x.LicenseIdentifier)
		set(y, "extractedText", x.ExtractedText)
		set(y, "name", x.LicenseName)
		set(y, "seeAlsos", strs(x.LicenseCrossReferences))
		set(y, "comment", x.LicenseComment)
		l = append(l, y)
	}
	set(o, "hasExtractedLicensingInfos", l)
	l = nil
	for _, r := range d.Relationships {
		l = append(l, refRelationship(r))
	}
	set(o, "relationships", l)
	l = nil
	for _, a := range d.Annotations {
		l = append(l, refAnnotation(*a))
	}
	set(o, "annotations", l)
	return o
}

// jsonText renders a value as JSON with random key order, white space and
// string escapes.
func (g *G) jsonText(v any) string {
	var b strings.Builder
	style := g.upto(2) // 0 compact, 1 spaced, 2 escaped
	g.jsonVal(&b, v, style)
	return b.String()
}

func (g *G) jsonVal(b *strings.Builder, v any, style int) {
	ws := func() {
		if style >= 1 {
			b.WriteString(pick(g, "", " ", "\n", "\t ", "\r\n"))
		}
	}
	switch x := v.(type) {
	case nil:
		b.WriteString("null")
	case bool, int:
		fmt.Fprint(b, x)
	case string:
		g.jsonString(b, x, style == 2 && g.oneIn(3))
	case []any:
		b.WriteByte('[')
		for i, y := range x {
			if i > 0 {
				b.WriteByte(',')
			}
			ws()
			g.jsonVal(b, y, style)
		}
		b.WriteByte(']')
	case obj:
		ks := make([]string, 0, len(x))
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		ks = shuffled(g, ks)
		b.WriteByte('{')
		for i, k := range ks {
			if i > 0 {
				b.WriteByte(',')
			}
			ws()
			g.jsonString(b, k, false)
			b.WriteByte(':')
			ws()
			g.jsonVal(b, x[k], style)
		}
		ws()
		b.WriteByte('}')
	case json.Number:
		b.WriteString(string(x))
	default:
		panic(fmt.Sprintf("jsonVal: %T", v))
	}
}

func (g *G) jsonString(b *strings.Builder, s string, escape bool) {
	b.WriteByte('"')
	for _, r := range s {
		switch {
		case r == '"' || r == '\\':
			b.WriteByte('\\')
			b.WriteRune(r)
		case r == '/' && escape:
			b.WriteString(`\/`)
		case r == '\n':
			b.WriteString(`\n`)
		case g.inYAML && (r >= 0x7f && r < 0xa0 || r == 0x2028 || r == 0x2029 || r == 0xfeff || r == 0xfffe || r == 0xffff):
			fmt.Fprintf(b, `\u%04X`, r)
		case r < 0x20 || escape && r < 0x10000 && (r > 0x7e || r%3 == 0):
			fmt.Fprintf(b, `\u%04x`, r)
		case escape && r >= 0x10000:
			h, l := utf16.EncodeRune(r)
			fmt.Fprintf(b, `\u%04X\u%04x`, h, l)
		default:
			b.WriteRune(r)
		}
	}
	b.WriteByte('"')
}

// compact drops what carries no information from decoded JSON: nulls, empty
// strings, lists and objects.
func compact(v any) any {
	switch x := v.(type) {
	case map[string]any:
		o := obj{}
		for k, y := range x {
			y = compact(y)
			if y == nil {
				continue
			}
			o[k] = y
		}
		if len(o) == 0 {
			return nil
		}
		return o
	case []any:
		var out []any
		for _, y := range x {
			out = append(out, compact(y))
		}
		if len(out) == 0 {
			return nil
		}
		return out
	case string:
		if x == "" {
			return nil
		}
	case int:
		return number(fmt.Sprint(x))
	case json.Number:
		return number(x)
	}
	return v
}

type number string

// what the schema demands even when there is nothing to say
var emptyStrings = regexp.MustCompile(`^\.(packages\[\]|files\[\]|packages\[\]\.files\[\]|snippets\[\])\.(copyrightText|downloadLocation|licenseConcluded|licenseDeclared)$|\.packageVerificationCodeValue$|\.artifactOfs\[\]\.(URI|homePage)$`)
var emptyOthers = regexp.MustCompile(`^\.creationInfo$|[fF]iles\[\]\.(checksums|licenseInfoInFiles)$|^\.packages\[\]\.licenseInfoFromFiles$|^\.snippets\[\]\.ranges$`)

// idle finds a key that is written though it has nothing to say.
func idle(ver, path string, v any) string {
	key := path[strings.LastIndexByte(path, '.')+1:]
	optional := ver == "2.3" && (strings.HasPrefix(key, "license") || path == ".packages[].copyrightText")
	switch x := v.(type) {
	case nil:
		if path != "" && (optional || !emptyOthers.MatchString(path)) {
			return path + " is null"
		}
	case string:
		if x == "" && !strings.HasSuffix(path, "[]") && (optional || !emptyStrings.MatchString(path)) {
			return path + " is empty"
		}
	case []any:
		if len(x) == 0 && (optional || !emptyOthers.MatchString(path)) {
			return path + " is an empty list"
		}
		for _, y := range x {
			if s := idle(ver, path+"[]", y); s != "" {
				return s
			}
		}
	case map[string]any:
		if len(x) == 0 {
			return path + " is an empty object"
		}
		for k, y := range x {
			if s := idle(ver, path+"."+k, y); s != "" {
				return s
			}
		}
	}
	return ""
}

// writtenAs compares what is written with what the schema prescribes.
func writtenAs(ver string, ref, got any) string {
	if df := Diff(compact(ref), compact(got)); df != "" {
		return "differs " + df
	}
	if s := idle(ver, "", got); s != "" {
		return "has nothing in it where it should have nothing: " + s
	}
	return ""
}

// emptyLists states now and then that there are none.
func (g *G) emptyLists(o obj) obj {
	for _, k := range []string{"externalDocumentRefs", "hasExtractedLicensingInfos", "annotations", "packages", "files", "snippets", "relationships", "documentDescribes"} {
		if _, ok := o[k]; !ok && g.oneIn(6) {
			o[k] = []any{}
		}
	}
	return o
}

// num is a JSON number.
func num(s string) json.Number { return json.Number(s) }
