package main

import (
	"sort"

	"github.com/spdx/tools-golang/spdx/v2/common"
	"github.com/spdx/tools-golang/spdx/v2/v2_3"
)

// tvOrder is the document with its collections in the order a tag-value file
// lists them: external references, files and packages by identifier.
func tvOrder(d *v2_3.Document, ver string) any {
	o := splitRanges(tvSorted(d))
	for _, q := range o.Packages {
		if q.PackageVerificationCode != nil && q.PackageVerificationCode.Value == "" {
			q.PackageVerificationCode = nil
		}
		if !q.FilesAnalyzed {
			q.IsFilesAnalyzedTagPresent = true
		}
	}
	return as(ver, o)
}

// tvSorted is the document with its collections in that order, nothing else
// changed.
func tvSorted(d *v2_3.Document) *v2_3.Document {
	o := *d
	o.ExternalDocumentReferences = append([]v2_3.ExternalDocumentRef{}, d.ExternalDocumentReferences...)
	sort.SliceStable(o.ExternalDocumentReferences, func(i, j int) bool {
		return o.ExternalDocumentReferences[i].DocumentRefID < o.ExternalDocumentReferences[j].DocumentRefID
	})
	files := func(fs []*v2_3.File) []*v2_3.File {
		out := append([]*v2_3.File{}, fs...)
		sort.SliceStable(out, func(i, j int) bool { return out[i].FileSPDXIdentifier < out[j].FileSPDXIdentifier })
		return out
	}
	o.Files = files(d.Files)
	o.Packages = nil
	for _, p := range d.Packages {
		q := *p
		q.Files = files(p.Files)
		o.Packages = append(o.Packages, &q)
	}
	sort.SliceStable(o.Packages, func(i, j int) bool { return o.Packages[i].PackageSPDXIdentifier < o.Packages[j].PackageSPDXIdentifier })
	return &o
}

// splitRanges takes ranges of both bytes and lines apart: a tag-value file
// states one after the other.
func splitRanges(d *v2_3.Document) *v2_3.Document {
	o := *d
	files := func(fs []*v2_3.File) []*v2_3.File {
		var out []*v2_3.File
		for _, f := range fs {
			f2 := *f
			f2.Snippets = nil
			for id, s := range f.Snippets {
				s2 := *s
				s2.Ranges = nil
				for _, r := range s.Ranges {
					bytes, lines := r, r
					bytes.StartPointer.LineNumber, bytes.EndPointer.LineNumber = 0, 0
					lines.StartPointer.Offset, lines.EndPointer.Offset = 0, 0
					if r.StartPointer.Offset != 0 {
						s2.Ranges = append(s2.Ranges, bytes)
					}
					if r.StartPointer.LineNumber != 0 {
						s2.Ranges = append(s2.Ranges, lines)
					}
				}
				if f2.Snippets == nil {
					f2.Snippets = map[common.ElementID]*v2_3.Snippet{}
				}
				f2.Snippets[id] = &s2
			}
			out = append(out, &f2)
		}
		return out
	}
	o.Files = files(d.Files)
	o.Packages = nil
	for _, p := range d.Packages {
		p2 := *p
		p2.Files = files(p.Files)
		o.Packages = append(o.Packages, &p2)
	}
	return &o
}
