From 11092ea333e133317f0d470f857f7899dcc6bd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:20 +0000
Subject: [PATCH 01/61] fix: decode JSON escape sequences in actors and
 identifiers

Creators, annotators, suppliers, originators and SPDX identifiers were read
by trimming quotes off the raw JSON bytes, so that any name holding a
character JSON escapes (a quote, a backslash, <, > or & under the default
HTML-safe encoding) came back changed. Decode them as JSON strings.
---
 spdx/v2/common/annotation.go    |  6 ++++--
 spdx/v2/common/creation_info.go |  6 ++++--
 spdx/v2/common/identifier.go    | 18 ++++++++++++------
 spdx/v2/common/package.go       | 12 ++++++++----
 spdx/v2/common/unmarshal.go     | 14 ++++++++++++++
 5 files changed, 42 insertions(+), 14 deletions(-)
 create mode 100644 spdx/v2/common/unmarshal.go

diff --git a/spdx/v2/common/annotation.go b/spdx/v2/common/annotation.go
index 096a36f..21154c7 100644
--- a/spdx/v2/common/annotation.go
+++ b/spdx/v2/common/annotation.go
@@ -19,8 +19,10 @@ type Annotator struct {
 // This function is also used when unmarshalling YAML
 func (a *Annotator) UnmarshalJSON(data []byte) error {
 	// annotator will simply be a string
-	annotatorStr := string(data)
-	annotatorStr = strings.Trim(annotatorStr, "\"")
+	annotatorStr, err := unmarshalString(data)
+	if err != nil {
+		return err
+	}
 
 	annotatorFields := strings.SplitN(annotatorStr, ":", 2)
 
diff --git a/spdx/v2/common/creation_info.go b/spdx/v2/common/creation_info.go
index 5fc52bc..12522f3 100644
--- a/spdx/v2/common/creation_info.go
+++ b/spdx/v2/common/creation_info.go
@@ -20,8 +20,10 @@ type Creator struct {
 // UnmarshalJSON takes an annotator in the typical one-line format and parses it into a Creator struct.
 // This function is also used when unmarshalling YAML
 func (c *Creator) UnmarshalJSON(data []byte) error {
-	str := string(data)
-	str = strings.Trim(str, "\"")
+	str, err := unmarshalString(data)
+	if err != nil {
+		return err
+	}
 	fields := strings.SplitN(str, ":", 2)
 
 	if len(fields) != 2 {
diff --git a/spdx/v2/common/identifier.go b/spdx/v2/common/identifier.go
index 17396a4..eb548e1 100644
--- a/spdx/v2/common/identifier.go
+++ b/spdx/v2/common/identifier.go
@@ -27,8 +27,10 @@ func (d DocumentID) MarshalJSON() ([]byte, error) {
 // UnmarshalJSON validates DocumentRef- prefixes and removes them when processing DocumentIDs
 func (d *DocumentID) UnmarshalJSON(data []byte) error {
 	// SPDX identifier will simply be a string
-	idStr := string(data)
-	idStr = strings.Trim(idStr, "\"")
+	idStr, err := unmarshalString(data)
+	if err != nil {
+		return err
+	}
 
 	documentID, err := trimDocumentIdPrefix(idStr)
 	if err != nil {
@@ -71,8 +73,10 @@ func (d ElementID) MarshalJSON() ([]byte, error) {
 // UnmarshalJSON validates SPDXRef- prefixes and removes them when processing ElementIDs
 func (d *ElementID) UnmarshalJSON(data []byte) error {
 	// SPDX identifier will simply be a string
-	idStr := string(data)
-	idStr = strings.Trim(idStr, "\"")
+	idStr, err := unmarshalString(data)
+	if err != nil {
+		return err
+	}
 
 	elementID, err := trimElementIdPrefix(idStr)
 	if err != nil {
@@ -141,8 +145,10 @@ func (d DocElementID) MarshalJSON() ([]byte, error) {
 // This function is also used when unmarshalling YAML
 func (d *DocElementID) UnmarshalJSON(data []byte) error {
 	// SPDX identifier will simply be a string
-	idStr := string(data)
-	idStr = strings.Trim(idStr, "\"")
+	idStr, err := unmarshalString(data)
+	if err != nil {
+		return err
+	}
 
 	// handle special cases
 	if idStr == "NONE" || idStr == "NOASSERTION" {
diff --git a/spdx/v2/common/package.go b/spdx/v2/common/package.go
index 0bcbe7d..ca4b528 100644
--- a/spdx/v2/common/package.go
+++ b/spdx/v2/common/package.go
@@ -20,8 +20,10 @@ type Supplier struct {
 // This function is also used when unmarshalling YAML
 func (s *Supplier) UnmarshalJSON(data []byte) error {
 	// the value is just a string presented as a slice of bytes
-	supplierStr := string(data)
-	supplierStr = strings.Trim(supplierStr, "\"")
+	supplierStr, err := unmarshalString(data)
+	if err != nil {
+		return err
+	}
 
 	if supplierStr == "NOASSERTION" {
 		s.Supplier = supplierStr
@@ -63,8 +65,10 @@ type Originator struct {
 // This function is also used when unmarshalling YAML
 func (o *Originator) UnmarshalJSON(data []byte) error {
 	// the value is just a string presented as a slice of bytes
-	originatorStr := string(data)
-	originatorStr = strings.Trim(originatorStr, "\"")
+	originatorStr, err := unmarshalString(data)
+	if err != nil {
+		return err
+	}
 
 	if originatorStr == "NOASSERTION" {
 		o.Originator = originatorStr
diff --git a/spdx/v2/common/unmarshal.go b/spdx/v2/common/unmarshal.go
new file mode 100644
index 0000000..21caa26
--- /dev/null
+++ b/spdx/v2/common/unmarshal.go
@@ -0,0 +1,14 @@
+// SPDX-License-Identifier: Apache-2.0 OR GPL-2.0-or-later
+
+package common
+
+import "encoding/json"
+
+// unmarshalString decodes a JSON string, including any escape sequences in it.
+func unmarshalString(data []byte) (string, error) {
+	var s string
+	if err := json.Unmarshal(data, &s); err != nil {
+		return "", err
+	}
+	return s, nil
+}
-- 
2.43.0


From 65088ae0b5cc4d6e787beeff4cc30dafd34c50b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:51 +0000
Subject: [PATCH 02/61] fix: wrap tag-value text that has white space at an end
 or a <text> tag

Such values came back trimmed, or cut at the tag, when read again.
---
 spdx/v2/v2_1/tagvalue/writer/util.go | 4 +++-
 spdx/v2/v2_2/tagvalue/writer/util.go | 4 +++-
 spdx/v2/v2_3/tagvalue/writer/util.go | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/spdx/v2/v2_1/tagvalue/writer/util.go b/spdx/v2/v2_1/tagvalue/writer/util.go
index 5298ee0..ef18a21 100644
--- a/spdx/v2/v2_1/tagvalue/writer/util.go
+++ b/spdx/v2/v2_1/tagvalue/writer/util.go
@@ -7,8 +7,10 @@ import (
 	"strings"
 )
 
+// textify wraps a value in <text> tags where a reader would otherwise not get it
+// back as it is: several lines, white space at either end, or a <text> tag in it.
 func textify(s string) string {
-	if strings.Contains(s, "\n") {
+	if strings.Contains(s, "\n") || strings.Contains(s, "<text>") || strings.TrimSpace(s) != s {
 		return fmt.Sprintf("<text>%s</text>", s)
 	}
 
diff --git a/spdx/v2/v2_2/tagvalue/writer/util.go b/spdx/v2/v2_2/tagvalue/writer/util.go
index 5298ee0..ef18a21 100644
--- a/spdx/v2/v2_2/tagvalue/writer/util.go
+++ b/spdx/v2/v2_2/tagvalue/writer/util.go
@@ -7,8 +7,10 @@ import (
 	"strings"
 )
 
+// textify wraps a value in <text> tags where a reader would otherwise not get it
+// back as it is: several lines, white space at either end, or a <text> tag in it.
 func textify(s string) string {
-	if strings.Contains(s, "\n") {
+	if strings.Contains(s, "\n") || strings.Contains(s, "<text>") || strings.TrimSpace(s) != s {
 		return fmt.Sprintf("<text>%s</text>", s)
 	}
 
diff --git a/spdx/v2/v2_3/tagvalue/writer/util.go b/spdx/v2/v2_3/tagvalue/writer/util.go
index 5298ee0..ef18a21 100644
--- a/spdx/v2/v2_3/tagvalue/writer/util.go
+++ b/spdx/v2/v2_3/tagvalue/writer/util.go
@@ -7,8 +7,10 @@ import (
 	"strings"
 )
 
+// textify wraps a value in <text> tags where a reader would otherwise not get it
+// back as it is: several lines, white space at either end, or a <text> tag in it.
 func textify(s string) string {
-	if strings.Contains(s, "\n") {
+	if strings.Contains(s, "\n") || strings.Contains(s, "<text>") || strings.TrimSpace(s) != s {
 		return fmt.Sprintf("<text>%s</text>", s)
 	}
 
-- 
2.43.0


From 6def42b1b6e1f470210e51e03c588af2976edf39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:07 +0000
Subject: [PATCH 03/61] fix: read every excluded file of a tag-value package
 verification code

Several excluded files, which the writer joins with a comma, came back as
one, and a name with a closing parenthesis was cut there.
---
 spdx/v2/v2_1/tagvalue/reader/parse_package.go | 16 +++++++++++-----
 spdx/v2/v2_2/tagvalue/reader/parse_package.go | 16 +++++++++++-----
 spdx/v2/v2_3/tagvalue/reader/parse_package.go | 16 +++++++++++-----
 3 files changed, 33 insertions(+), 15 deletions(-)

diff --git a/spdx/v2/v2_1/tagvalue/reader/parse_package.go b/spdx/v2/v2_1/tagvalue/reader/parse_package.go
index 4d4c491..a03713c 100644
--- a/spdx/v2/v2_1/tagvalue/reader/parse_package.go
+++ b/spdx/v2/v2_1/tagvalue/reader/parse_package.go
@@ -192,12 +192,18 @@ func extractCodeAndExcludes(value string) common.PackageVerificationCode {
 		return common.PackageVerificationCode{Value: value, ExcludedFiles: []string{}}
 	}
 
-	// if we're here, code is in first part and excludes filename is in
-	// second part, with trailing paren
+	// if we're here, code is in first part and excludes filenames are in
+	// second part, separated by commas, with trailing paren
 	code := strings.TrimSpace(sp[0])
-	parsedSp := strings.SplitN(sp[1], ")", 2)
-	fileName := strings.TrimSpace(parsedSp[0])
-	return common.PackageVerificationCode{Value: code, ExcludedFiles: []string{fileName}}
+	fileList := sp[1]
+	if end := strings.LastIndex(fileList, ")"); end >= 0 {
+		fileList = fileList[:end]
+	}
+	fileNames := []string{}
+	for _, fileName := range strings.Split(fileList, ", ") {
+		fileNames = append(fileNames, strings.TrimSpace(fileName))
+	}
+	return common.PackageVerificationCode{Value: code, ExcludedFiles: fileNames}
 }
 
 func extractPackageExternalReference(value string) (string, string, string, error) {
diff --git a/spdx/v2/v2_2/tagvalue/reader/parse_package.go b/spdx/v2/v2_2/tagvalue/reader/parse_package.go
index c6a17b0..679ddc3 100644
--- a/spdx/v2/v2_2/tagvalue/reader/parse_package.go
+++ b/spdx/v2/v2_2/tagvalue/reader/parse_package.go
@@ -206,12 +206,18 @@ func extractCodeAndExcludes(value string) common.PackageVerificationCode {
 		return common.PackageVerificationCode{Value: value, ExcludedFiles: []string{}}
 	}
 
-	// if we're here, code is in first part and excludes filename is in
-	// second part, with trailing paren
+	// if we're here, code is in first part and excludes filenames are in
+	// second part, separated by commas, with trailing paren
 	code := strings.TrimSpace(sp[0])
-	parsedSp := strings.SplitN(sp[1], ")", 2)
-	fileName := strings.TrimSpace(parsedSp[0])
-	return common.PackageVerificationCode{Value: code, ExcludedFiles: []string{fileName}}
+	fileList := sp[1]
+	if end := strings.LastIndex(fileList, ")"); end >= 0 {
+		fileList = fileList[:end]
+	}
+	fileNames := []string{}
+	for _, fileName := range strings.Split(fileList, ", ") {
+		fileNames = append(fileNames, strings.TrimSpace(fileName))
+	}
+	return common.PackageVerificationCode{Value: code, ExcludedFiles: fileNames}
 }
 
 func extractPackageExternalReference(value string) (string, string, string, error) {
diff --git a/spdx/v2/v2_3/tagvalue/reader/parse_package.go b/spdx/v2/v2_3/tagvalue/reader/parse_package.go
index b01fbef..126b078 100644
--- a/spdx/v2/v2_3/tagvalue/reader/parse_package.go
+++ b/spdx/v2/v2_3/tagvalue/reader/parse_package.go
@@ -222,12 +222,18 @@ func extractCodeAndExcludes(value string) *common.PackageVerificationCode {
 		return &common.PackageVerificationCode{Value: value, ExcludedFiles: []string{}}
 	}
 
-	// if we're here, code is in first part and excludes filename is in
-	// second part, with trailing paren
+	// if we're here, code is in first part and excludes filenames are in
+	// second part, separated by commas, with trailing paren
 	code := strings.TrimSpace(sp[0])
-	parsedSp := strings.SplitN(sp[1], ")", 2)
-	fileName := strings.TrimSpace(parsedSp[0])
-	return &common.PackageVerificationCode{Value: code, ExcludedFiles: []string{fileName}}
+	fileList := sp[1]
+	if end := strings.LastIndex(fileList, ")"); end >= 0 {
+		fileList = fileList[:end]
+	}
+	fileNames := []string{}
+	for _, fileName := range strings.Split(fileList, ", ") {
+		fileNames = append(fileNames, strings.TrimSpace(fileName))
+	}
+	return &common.PackageVerificationCode{Value: code, ExcludedFiles: fileNames}
 }
 
 func extractPackageExternalReference(value string) (string, string, string, error) {
-- 
2.43.0


From c288365c6815164d0dae1aaa472401e2eefae42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:18 +0000
Subject: [PATCH 04/61] fix: read tag-value lines longer than 64 KB

A long single-line value, which the writer writes happily, was refused
with bufio.Scanner: token too long.
---
 tagvalue/reader/reader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tagvalue/reader/reader.go b/tagvalue/reader/reader.go
index 786f7ea..3353345 100644
--- a/tagvalue/reader/reader.go
+++ b/tagvalue/reader/reader.go
@@ -6,6 +6,7 @@ import (
 	"bufio"
 	"fmt"
 	"io"
+	"math"
 	"strings"
 	"unicode"
 )
@@ -22,6 +23,8 @@ func ReadTagValues(content io.Reader) ([]TagValuePair, error) {
 	r := &tvReader{}
 
 	scanner := bufio.NewScanner(content)
+	// a line may be of any length
+	scanner.Buffer(nil, math.MaxInt)
 	for scanner.Scan() {
 		// read each line, one by one
 		err := r.readNextLine(scanner.Text())
-- 
2.43.0


From 408d0e2edc1470bfe9725c43d3ce751ed9edf8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:14 +0000
Subject: [PATCH 05/61] fix: report write errors when writing tag-value

Write promises an error if any is met, but a failing writer went unnoticed
and the document was cut short without a word.
---
 tagvalue/writer.go | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/tagvalue/writer.go b/tagvalue/writer.go
index d77bd3a..4501409 100644
--- a/tagvalue/writer.go
+++ b/tagvalue/writer.go
@@ -22,13 +22,39 @@ import (
 // if any error is encountered.
 func Write(doc common.AnyDocument, w io.Writer) error {
 	doc = convert.FromPtr(doc)
+	ew := &errWriter{w: w}
+	var err error
 	switch doc := doc.(type) {
 	case v2_1.Document:
-		return v2_1_writer.RenderDocument(&doc, w)
+		err = v2_1_writer.RenderDocument(&doc, ew)
 	case v2_2.Document:
-		return v2_2_writer.RenderDocument(&doc, w)
+		err = v2_2_writer.RenderDocument(&doc, ew)
 	case v2_3.Document:
-		return v2_3_writer.RenderDocument(&doc, w)
+		err = v2_3_writer.RenderDocument(&doc, ew)
+	default:
+		err = fmt.Errorf("unsupported document type: %s", convert.Describe(doc))
 	}
-	return fmt.Errorf("unsupported document type: %s", convert.Describe(doc))
+	if err != nil {
+		return err
+	}
+	return ew.err
+}
+
+// errWriter remembers the first error of the writer it wraps, and writes
+// nothing after it: the renderers do not look at what their writes return.
+type errWriter struct {
+	w   io.Writer
+	err error
+}
+
+func (ew *errWriter) Write(p []byte) (int, error) {
+	if ew.err != nil {
+		return 0, ew.err
+	}
+	n, err := ew.w.Write(p)
+	if err == nil && n < len(p) {
+		err = io.ErrShortWrite
+	}
+	ew.err = err
+	return n, err
 }
-- 
2.43.0


From 745a0607e61b45e6177d57d9b583a120e97b5621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:45 +0000
Subject: [PATCH 06/61] fix: list licenses with equal counts in a stable order

They came out in map order, so the same package gave different reports.
---
 reporter/reporter.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/reporter/reporter.go b/reporter/reporter.go
index 7ef32d0..db71e47 100644
--- a/reporter/reporter.go
+++ b/reporter/reporter.go
@@ -43,7 +43,13 @@ func Generate(pkg *spdx.Package, w io.Writer) error {
 		counts = append(counts, entry)
 	}
 
-	sort.Slice(counts, func(i, j int) bool { return counts[i].count > counts[j].count })
+	// most frequent first; by name where the counts are equal
+	sort.Slice(counts, func(i, j int) bool {
+		if counts[i].count != counts[j].count {
+			return counts[i].count > counts[j].count
+		}
+		return counts[i].lic < counts[j].lic
+	})
 
 	for _, c := range counts {
 		fmt.Fprintf(wr, "%d\t  %s\n", c.count, c.lic)
-- 
2.43.0


From dfa03129e5f107b5a691fa7777b2976c8b692d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:45 +0000
Subject: [PATCH 07/61] fix: report write errors when generating a license
 report

---
 reporter/reporter.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/reporter/reporter.go b/reporter/reporter.go
index db71e47..c1b1678 100644
--- a/reporter/reporter.go
+++ b/reporter/reporter.go
@@ -5,6 +5,7 @@
 package reporter
 
 import (
+	"bytes"
 	"fmt"
 	"io"
 	"sort"
@@ -22,7 +23,9 @@ func Generate(pkg *spdx.Package, w io.Writer) error {
 	}
 	totalFound, totalNotFound, foundCounts := countLicenses(pkg)
 
-	wr := tabwriter.NewWriter(w, 0, 0, 2, ' ', tabwriter.AlignRight)
+	// lay the report out in memory: only the write to w can fail
+	var report bytes.Buffer
+	wr := tabwriter.NewWriter(&report, 0, 0, 2, ' ', tabwriter.AlignRight)
 
 	fmt.Fprintf(wr, "%d\t  License found\n", totalFound)
 	fmt.Fprintf(wr, "%d\t  License not found\n", totalNotFound)
@@ -57,7 +60,8 @@ func Generate(pkg *spdx.Package, w io.Writer) error {
 	fmt.Fprintf(wr, "%d\t  TOTAL FOUND\n", totalFound)
 
 	wr.Flush()
-	return nil
+	_, err := report.WriteTo(w)
+	return err
 }
 
 func countLicenses(pkg *spdx.Package) (int, int, map[string]int) {
-- 
2.43.0


From 9882a4cfa8a2708b52a192cf78f5f8666585644b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:21 +0000
Subject: [PATCH 08/61] fix: make the searcher honour ignore patterns with a
 leading slash

SearcherPathsIgnored takes the same patterns as BuilderPathsIgnored, but
they were matched against file names starting with "./", so "/file" and
"/dir/" never matched.
---
 idsearcher/idsearcher.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/idsearcher/idsearcher.go b/idsearcher/idsearcher.go
index 7413bb4..7f39413 100644
--- a/idsearcher/idsearcher.go
+++ b/idsearcher/idsearcher.go
@@ -85,7 +85,8 @@ func BuildIDsDocument(packageName string, dirRoot string, idconfig *Config) (*sp
 		f.LicenseConcluded = "NOASSERTION"
 
 		// check whether the searcher should ignore this file
-		if utils.ShouldIgnore(f.FileName, idconfig.SearcherPathsIgnored) {
+		// (patterns start with a slash, as for the builder; file names with "./")
+		if utils.ShouldIgnore(strings.TrimPrefix(f.FileName, "."), idconfig.SearcherPathsIgnored) {
 			continue
 		}
 
-- 
2.43.0


From af7a249fb27c33e3e13ea0e4294220b9764f6f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:22 +0000
Subject: [PATCH 09/61] fix: find license IDs in files that have lines longer
 than 64 KB

The search of such a file silently stopped at the long line.
---
 idsearcher/idsearcher.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/idsearcher/idsearcher.go b/idsearcher/idsearcher.go
index 7f39413..801ba12 100644
--- a/idsearcher/idsearcher.go
+++ b/idsearcher/idsearcher.go
@@ -7,6 +7,7 @@ package idsearcher
 import (
 	"bufio"
 	"fmt"
+	"math"
 	"os"
 	"path/filepath"
 	"regexp"
@@ -153,6 +154,8 @@ func searchFileIDs(filePath string) ([]string, error) {
 	defer f.Close()
 
 	scanner := bufio.NewScanner(f)
+	// a line may be of any length: the IDs after a long one count, too
+	scanner.Buffer(nil, math.MaxInt)
 
 	for scanner.Scan() {
 		if strings.Contains(scanner.Text(), "SPDX-License-Identifier:") {
-- 
2.43.0


From 763c69f15e050b19e3040664cdca202829ad8994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:22 +0000
Subject: [PATCH 10/61] fix: do not take a license tag without an ID for a
 license

An empty one ended up in the concluded license, as in " AND MIT".
---
 idsearcher/idsearcher.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/idsearcher/idsearcher.go b/idsearcher/idsearcher.go
index 801ba12..1af2786 100644
--- a/idsearcher/idsearcher.go
+++ b/idsearcher/idsearcher.go
@@ -172,8 +172,11 @@ func searchFileIDs(filePath string) ([]string, error) {
 			// stop before trailing */ if it is present
 			lidToExtract := strs[1]
 			lidToExtract = strings.Split(lidToExtract, "*/")[0]
-			lid := strings.TrimSpace(lidToExtract)
-			lid = stripTrash(lid)
+			lid := strings.TrimSpace(stripTrash(lidToExtract))
+			// nothing there: not an ID
+			if lid == "" {
+				continue
+			}
 			idsMap[lid] = 1
 		}
 	}
-- 
2.43.0


From 0cfda21c415fd4218debdd7ebaae7ebb03acfb77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:58 +0000
Subject: [PATCH 11/61] fix: walk a directory given by way of a symbolic link

Such a root counted as a link, not as a directory: no file was found and no
error given, and the builder made an empty package of it.
---
 utils/filesystem.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/utils/filesystem.go b/utils/filesystem.go
index a24e2d1..a160d83 100644
--- a/utils/filesystem.go
+++ b/utils/filesystem.go
@@ -28,7 +28,11 @@ func GetAllFilePaths(dirRoot string, pathsIgnored []string) ([]string, error) {
 	if err != nil {
 		return nil, err
 	}
-	dirRoot = absRoot
+	// the root itself may be a symbolic link, which Walk would not follow
+	dirRoot, err = filepath.EvalSymlinks(absRoot)
+	if err != nil {
+		return nil, err
+	}
 	prefix := strings.TrimSuffix(filepath.ToSlash(dirRoot), "/")
 
 	err = filepath.Walk(dirRoot, func(path string, fi os.FileInfo, err error) error {
-- 
2.43.0


From 05a7ac06f1edd4b7d9004f09a4212c65f2fb9eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:25 +0000
Subject: [PATCH 12/61] fix: take an unknown creator type for Person in the
 builder

Config promises it; the type went into the document as it was, which then
can be written but not read.
---
 builder/build_creation_info.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/builder/build_creation_info.go b/builder/build_creation_info.go
index 1916c4e..5c207f5 100644
--- a/builder/build_creation_info.go
+++ b/builder/build_creation_info.go
@@ -18,6 +18,12 @@ import (
 //   - creator: creator string
 //   - testValues: for testing only; call with nil when using in production
 func BuildCreationInfoSection(creatorType string, creator string, testValues map[string]string) (*spdx.CreationInfo, error) {
+	switch creatorType {
+	case "Person", "Organization", "Tool":
+	default:
+		creatorType = "Person"
+	}
+
 	// build creator slices
 	creators := []common.Creator{
 		// add builder as a tool
-- 
2.43.0


From e13b40f3bfbf7b434e516b1032f580b1a6519e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:48 +0000
Subject: [PATCH 13/61] fix: write control characters in YAML so that they are
 read back

YAML reads the JSON form it is made of: U+0085 turned into a space there,
and DEL and other C1 controls made writing fail.
---
 yaml/writer.go | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/yaml/writer.go b/yaml/writer.go
index 4ec078f..4cec015 100644
--- a/yaml/writer.go
+++ b/yaml/writer.go
@@ -3,6 +3,9 @@
 package yaml
 
 import (
+	"bytes"
+	"encoding/json"
+	"fmt"
 	"io"
 
 	"sigs.k8s.io/yaml"
@@ -12,7 +15,12 @@ import (
 
 // Write takes an SPDX Document and an io.Writer, and writes the document to the writer in YAML format.
 func Write(doc common.AnyDocument, w io.Writer) error {
-	buf, err := yaml.Marshal(doc)
+	buf, err := json.Marshal(doc)
+	if err != nil {
+		return err
+	}
+
+	buf, err = yaml.JSONToYAML(escapeControls(buf))
 	if err != nil {
 		return err
 	}
@@ -24,3 +32,24 @@ func Write(doc common.AnyDocument, w io.Writer) error {
 
 	return nil
 }
+
+// escapeControls spells those characters as JSON escapes which JSON has in
+// strings as they are, but which YAML, as which the JSON is read, does not
+// permit there or, for U+0085, takes for a line break.
+func escapeControls(buf []byte) []byte {
+	isControl := func(r rune) bool {
+		return r >= 0x7f && r <= 0x9f || r == 0xfffe || r == 0xffff
+	}
+	if bytes.IndexFunc(buf, isControl) < 0 {
+		return buf
+	}
+	var out bytes.Buffer
+	for _, r := range string(buf) {
+		if isControl(r) {
+			fmt.Fprintf(&out, `\u%04x`, r)
+		} else {
+			out.WriteRune(r)
+		}
+	}
+	return out.Bytes()
+}
-- 
2.43.0


From b3fa829e9780a85c7686dbff85188deb96f73d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:27 +0000
Subject: [PATCH 14/61] fix: do not give a converted package an empty
 verification code

---
 spdx/v2/v2_3/document.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/spdx/v2/v2_3/document.go b/spdx/v2/v2_3/document.go
index 1c76750..3ea72f1 100644
--- a/spdx/v2/v2_3/document.go
+++ b/spdx/v2/v2_3/document.go
@@ -74,6 +74,13 @@ type Document struct {
 
 func From_v2_2(_ v2_2.Document, d *Document) {
 	d.SPDXVersion = Version
+
+	// version 2.2 has no way to leave the verification code out other than to have an empty one
+	for _, p := range d.Packages {
+		if p != nil && p.PackageVerificationCode != nil && p.PackageVerificationCode.Value == "" && len(p.PackageVerificationCode.ExcludedFiles) == 0 {
+			p.PackageVerificationCode = nil
+		}
+	}
 }
 
 func To_v2_2(_ Document, d *v2_2.Document) {
-- 
2.43.0


From 98e46dd1efd38e5359ef60bac1b1c292b36cc2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:07 +0000
Subject: [PATCH 15/61] fix: accept relationships to packaged files, snippets,
 other documents and NONE in ValidateDocument

---
 spdxlib/documents.go | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/spdxlib/documents.go b/spdxlib/documents.go
index a6a34ca..dff4e71 100644
--- a/spdxlib/documents.go
+++ b/spdxlib/documents.go
@@ -9,29 +9,47 @@ import (
 )
 
 // ValidateDocument returns an error if the Document is found to be invalid, or nil if the Document is valid.
-// Currently, this only verifies that all Element IDs mentioned in Relationships exist in the Document as either a
-// Package or an UnpackagedFile.
+// Currently, this only verifies that all Element IDs mentioned in Relationships exist in the Document as a Package,
+// a File or a Snippet. NONE, NOASSERTION and elements of other documents do not have to exist in it.
 func ValidateDocument(doc *spdx.Document) error {
-	// cache a map of package IDs for quick lookups
+	// cache a map of element IDs for quick lookups
 	validElementIDs := make(map[common.ElementID]bool)
+	addFile := func(file *spdx.File) {
+		validElementIDs[file.FileSPDXIdentifier] = true
+		for id := range file.Snippets {
+			validElementIDs[id] = true
+		}
+	}
+
 	for _, docPackage := range doc.Packages {
 		validElementIDs[docPackage.PackageSPDXIdentifier] = true
+		for _, file := range docPackage.Files {
+			addFile(file)
+		}
 	}
 
 	for _, unpackagedFile := range doc.Files {
-		validElementIDs[unpackagedFile.FileSPDXIdentifier] = true
+		addFile(unpackagedFile)
+	}
+
+	for _, snippet := range doc.Snippets {
+		validElementIDs[snippet.SnippetSPDXIdentifier] = true
 	}
 
 	// add the Document element ID
 	validElementIDs[common.MakeDocElementID("", "DOCUMENT").ElementRefID] = true
 
+	exists := func(id common.DocElementID) bool {
+		return id.SpecialID != "" || id.DocumentRefID != "" || validElementIDs[id.ElementRefID]
+	}
+
 	for _, relationship := range doc.Relationships {
-		if !validElementIDs[relationship.RefA.ElementRefID] {
-			return fmt.Errorf("%s used in relationship but no such package exists", string(relationship.RefA.ElementRefID))
+		if !exists(relationship.RefA) {
+			return fmt.Errorf("%s used in relationship but no such element exists", string(relationship.RefA.ElementRefID))
 		}
 
-		if !validElementIDs[relationship.RefB.ElementRefID] {
-			return fmt.Errorf("%s used in relationship but no such package exists", string(relationship.RefB.ElementRefID))
+		if !exists(relationship.RefB) {
+			return fmt.Errorf("%s used in relationship but no such element exists", string(relationship.RefB.ElementRefID))
 		}
 	}
 
-- 
2.43.0


From 5aeededd5f3d086a9755ab45bdd83f8a71207d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:33 +0000
Subject: [PATCH 16/61] fix: describe only packages of the document, each once,
 in GetDescribedPackageIDs

---
 spdxlib/described_elements.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/spdxlib/described_elements.go b/spdxlib/described_elements.go
index 5a72781..67a0537 100644
--- a/spdxlib/described_elements.go
+++ b/spdxlib/described_elements.go
@@ -40,6 +40,9 @@ func GetDescribedPackageIDs(doc *spdx.Document) ([]common.ElementID, error) {
 	eIDs, err := FilterRelationships(doc, func(relationship *spdx.Relationship) *common.ElementID {
 		refDocument := common.MakeDocElementID("", "DOCUMENT")
 
+		if relationship.RefA.DocumentRefID != "" || relationship.RefB.DocumentRefID != "" {
+			return nil
+		}
 		if relationship.Relationship == "DESCRIBES" && relationship.RefA == refDocument {
 			return &relationship.RefB.ElementRefID
 		} else if relationship.Relationship == "DESCRIBED_BY" && relationship.RefB == refDocument {
@@ -52,6 +55,21 @@ func GetDescribedPackageIDs(doc *spdx.Document) ([]common.ElementID, error) {
 		return nil, err
 	}
 
+	// keep each package of this document once: what is described may also be
+	// a file, an element of another document, or stated in both directions
+	packageIDs := map[common.ElementID]bool{}
+	for _, pkg := range doc.Packages {
+		packageIDs[pkg.PackageSPDXIdentifier] = true
+	}
+	described := eIDs[:0]
+	for _, eID := range eIDs {
+		if packageIDs[eID] {
+			described = append(described, eID)
+			delete(packageIDs, eID)
+		}
+	}
+	eIDs = described
+
 	if len(eIDs) == 0 {
 		return nil, fmt.Errorf("no DESCRIBES or DESCRIBED_BY relationships found for this Document")
 	}
-- 
2.43.0


From 0405557b0e36991c43788074051fd8dd1f8a5007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:38 +0000
Subject: [PATCH 17/61] fix: end a license ID at the end of an HTML comment

---
 idsearcher/idsearcher.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/idsearcher/idsearcher.go b/idsearcher/idsearcher.go
index 1af2786..f237792 100644
--- a/idsearcher/idsearcher.go
+++ b/idsearcher/idsearcher.go
@@ -169,9 +169,10 @@ func searchFileIDs(filePath string) ([]string, error) {
 				continue
 			}
 
-			// stop before trailing */ if it is present
+			// stop before trailing */ or --> if it is present
 			lidToExtract := strs[1]
 			lidToExtract = strings.Split(lidToExtract, "*/")[0]
+			lidToExtract = strings.Split(lidToExtract, "-->")[0]
 			lid := strings.TrimSpace(stripTrash(lidToExtract))
 			// nothing there: not an ID
 			if lid == "" {
-- 
2.43.0


From 40c5579d5a7ab8350ac6794cd8f1ebe7bde100d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:38 +0000
Subject: [PATCH 18/61] fix: describe how the searcher treats long lines

---
 docs/idsearcher-assumptions.md | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/docs/idsearcher-assumptions.md b/docs/idsearcher-assumptions.md
index 32b75e9..51489bb 100644
--- a/docs/idsearcher-assumptions.md
+++ b/docs/idsearcher-assumptions.md
@@ -2,10 +2,8 @@ SPDX-License-Identifier: CC-BY-4.0
 
 The short-form ID searcher in `package idsearcher` makes the following assumptions:
 
-- The searcher uses bufio.Scanner to scan the contents of each file, line by
-  line. If it encounters a line that is too large to fit within the buffer, it
-  will stop scanning that file. As a result, it will currently only pick up
-  short-form IDs that occur prior to such a line.
+- The searcher scans the contents of each file, line by line. A line may be of
+  any length, and is held in memory while it is scanned.
 
 - For PackageLicenseInfoFromFiles (in Package) and LicenseInfoInFile (in File),
   an exception should be treated as a separate "license". For example, in the
-- 
2.43.0


From df6ad916c34e6f374c8781c76dcb56b401c59856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:13 +0000
Subject: [PATCH 19/61] fix: report read errors when reading RDF

---
 rdf/reader.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/rdf/reader.go b/rdf/reader.go
index 9bc3369..573a35e 100644
--- a/rdf/reader.go
+++ b/rdf/reader.go
@@ -32,7 +32,11 @@ func ReadInto(content io.Reader, doc common.AnyDocument) error {
 	if !convert.IsPtr(doc) {
 		return fmt.Errorf("doc to read into must be a pointer")
 	}
-	var rdfParserObj, err = rdfloader.LoadFromReaderObject(content)
+	source := &errorKeeper{content: content}
+	var rdfParserObj, err = rdfloader.LoadFromReaderObject(source)
+	if source.err != nil {
+		return source.err
+	}
 	if err != nil {
 		return err
 	}
@@ -59,6 +63,21 @@ func ReadInto(content io.Reader, doc common.AnyDocument) error {
 	return convert.Document(data.(common.AnyDocument), doc)
 }
 
+// errorKeeper keeps the error that reading content ended with, as the RDF
+// parser takes any error after a complete document for its end.
+type errorKeeper struct {
+	content io.Reader
+	err     error
+}
+
+func (r *errorKeeper) Read(p []byte) (int, error) {
+	n, err := r.content.Read(p)
+	if err != nil && err != io.EOF {
+		r.err = err
+	}
+	return n, err
+}
+
 func getSpdxVersion(parser *gordfParser.Parser) (string, error) {
 	version := ""
 	for _, node := range parser.Triples {
-- 
2.43.0


From c04b1da080c6b8e0eef0dbed6bc44af9a32ec68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:45 +0000
Subject: [PATCH 20/61] fix: decode UTF-8, references and CDATA sections in RDF

---
 rdf/reader.go | 12 ++++++++--
 rdf/xml.go    | 64 +++++++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 74 insertions(+), 2 deletions(-)
 create mode 100644 rdf/xml.go

diff --git a/rdf/reader.go b/rdf/reader.go
index 573a35e..ce91158 100644
--- a/rdf/reader.go
+++ b/rdf/reader.go
@@ -3,12 +3,13 @@
 package rdf
 
 import (
+	"bufio"
 	"errors"
 	"fmt"
 	"io"
 
-	"github.com/spdx/gordf/rdfloader"
 	gordfParser "github.com/spdx/gordf/rdfloader/parser"
+	rdfloader "github.com/spdx/gordf/rdfloader/xmlreader"
 	"github.com/spdx/tools-golang/convert"
 	"github.com/spdx/tools-golang/spdx"
 	"github.com/spdx/tools-golang/spdx/common"
@@ -33,13 +34,20 @@ func ReadInto(content io.Reader, doc common.AnyDocument) error {
 		return fmt.Errorf("doc to read into must be a pointer")
 	}
 	source := &errorKeeper{content: content}
-	var rdfParserObj, err = rdfloader.LoadFromReaderObject(source)
+	reader := rdfloader.XMLReaderFromFileObject(bufio.NewReader(source))
+	root, err := reader.Read()
 	if source.err != nil {
 		return source.err
 	}
 	if err != nil {
 		return err
 	}
+	decodeText(&root)
+
+	rdfParserObj := gordfParser.New()
+	if err = rdfParserObj.Parse(root); err != nil {
+		return err
+	}
 
 	version, err := getSpdxVersion(rdfParserObj)
 	if err != nil {
diff --git a/rdf/xml.go b/rdf/xml.go
new file mode 100644
index 0000000..84adfbd
--- /dev/null
+++ b/rdf/xml.go
@@ -0,0 +1,64 @@
+// SPDX-License-Identifier: Apache-2.0 OR GPL-2.0-or-later
+
+package rdf
+
+import (
+	"regexp"
+	"strconv"
+	"strings"
+
+	rdfloader "github.com/spdx/gordf/rdfloader/xmlreader"
+)
+
+// decodeText replaces the text and the attribute values in the XML by what
+// they stand for: the XML reader makes a character of each byte, and leaves
+// character and entity references and CDATA sections as they are written.
+func decodeText(block *rdfloader.Block) {
+	for i := range block.OpeningTag.Attrs {
+		attr := &block.OpeningTag.Attrs[i]
+		attr.Value = decodeReferences(joinBytes(attr.Value))
+	}
+	if data, isCDATA := strings.CutPrefix(block.Value, "<![CDATA["); isCDATA {
+		// the reader keeps the bytes of these sections
+		block.Value = strings.TrimSuffix(data, "]]>")
+	} else {
+		block.Value = decodeReferences(joinBytes(block.Value))
+	}
+	for _, child := range block.Children {
+		decodeText(child)
+	}
+}
+
+// joinBytes gives the UTF-8 string each byte of which is a character of s
+func joinBytes(s string) string {
+	b := make([]byte, 0, len(s))
+	for _, r := range s {
+		b = append(b, byte(r))
+	}
+	return string(b)
+}
+
+var (
+	reference = regexp.MustCompile(`&(?:amp|lt|gt|quot|apos|#[0-9]+|#x[0-9a-fA-F]+);`)
+	entities  = map[string]string{"amp": "&", "lt": "<", "gt": ">", "quot": `"`, "apos": "'"}
+)
+
+// decodeReferences replaces the references that XML defines by the characters
+// they refer to
+func decodeReferences(s string) string {
+	return reference.ReplaceAllStringFunc(s, func(ref string) string {
+		name := ref[1 : len(ref)-1]
+		if text, ok := entities[name]; ok {
+			return text
+		}
+		base, digits := 10, name[1:]
+		if digits[0] == 'x' {
+			base, digits = 16, digits[1:]
+		}
+		code, err := strconv.ParseUint(digits, base, 31)
+		if err != nil {
+			return ref
+		}
+		return string(rune(code))
+	})
+}
-- 
2.43.0


From 95e682b55de7fa0649407bfde7263766d90139bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:17 +0000
Subject: [PATCH 21/61] fix: do not let nodes without an ID share one in RDF

---
 rdf/reader.go |  1 +
 rdf/xml.go    | 52 +++++++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 53 insertions(+)

diff --git a/rdf/reader.go b/rdf/reader.go
index ce91158..d7531ab 100644
--- a/rdf/reader.go
+++ b/rdf/reader.go
@@ -43,6 +43,7 @@ func ReadInto(content io.Reader, doc common.AnyDocument) error {
 		return err
 	}
 	decodeText(&root)
+	nameNodes(&root)
 
 	rdfParserObj := gordfParser.New()
 	if err = rdfParserObj.Parse(root); err != nil {
diff --git a/rdf/xml.go b/rdf/xml.go
index 84adfbd..be0475d 100644
--- a/rdf/xml.go
+++ b/rdf/xml.go
@@ -3,10 +3,12 @@
 package rdf
 
 import (
+	"fmt"
 	"regexp"
 	"strconv"
 	"strings"
 
+	gordfParser "github.com/spdx/gordf/rdfloader/parser"
 	rdfloader "github.com/spdx/gordf/rdfloader/xmlreader"
 )
 
@@ -62,3 +64,53 @@ func decodeReferences(s string) string {
 		return string(rune(code))
 	})
 }
+
+// nameNodes gives each node without an ID an rdf:nodeID of its own. The RDF
+// parser would number them itself, but does so from several goroutines at
+// once, and so may take two nodes for one.
+func nameNodes(root *rdfloader.Block) {
+	rdf := "rdf"
+	for _, attr := range root.OpeningTag.Attrs {
+		if attr.SchemaName == "xmlns" && strings.TrimSuffix(attr.Value, "#") == strings.TrimSuffix(gordfParser.RDFNS, "#") {
+			rdf = attr.Name
+		}
+	}
+
+	// nodes contain properties, and properties contain nodes
+	var unnamed []*rdfloader.Block
+	taken := map[string]bool{}
+	var visit func(parent *rdfloader.Block, areNodes bool)
+	visit = func(parent *rdfloader.Block, areNodes bool) {
+		for _, block := range parent.Children {
+			named := false
+			for _, attr := range block.OpeningTag.Attrs {
+				if attr.SchemaName != rdf {
+					continue
+				}
+				switch attr.Name {
+				case "nodeID":
+					taken[attr.Value] = true
+					named = true
+				case "about", "ID":
+					named = true
+				}
+			}
+			if areNodes && !named {
+				unnamed = append(unnamed, block)
+			}
+			visit(block, !areNodes)
+		}
+	}
+	visit(root, true)
+
+	last := 0
+	for _, block := range unnamed {
+		name := ""
+		for name == "" || taken[name] {
+			name = fmt.Sprintf("node%d", last)
+			last++
+		}
+		attr := rdfloader.Attribute{SchemaName: rdf, Name: "nodeID", Value: name}
+		block.OpeningTag.Attrs = append([]rdfloader.Attribute{attr}, block.OpeningTag.Attrs...)
+	}
+}
-- 
2.43.0


From bdcfc66d2b76bbc571df90f02495cfe0ec6e92d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:35 +0000
Subject: [PATCH 22/61] fix: list a package that an RDF document describes once

---
 spdx/v2/v2_2/rdf/reader/parse_spdx_document.go | 8 ++------
 spdx/v2/v2_3/rdf/reader/parse_spdx_document.go | 8 ++------
 2 files changed, 4 insertions(+), 12 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go b/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go
index 7629a92..74f8c31 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go
@@ -61,12 +61,8 @@ func (parser *rdfParser2_2) parseSpdxDocumentNode(spdxDocNode *gordfParser.Node)
 			err = parser.setReviewFromNode(subTriple.Object)
 		case SPDX_DESCRIBES_PACKAGE: // describes Package
 			// cardinality: min 0
-			var pkg *v2_2.Package
-			pkg, err = parser.getPackageFromNode(subTriple.Object)
-			if err != nil {
-				return err
-			}
-			parser.doc.Packages = append(parser.doc.Packages, pkg)
+			// this adds the package to the document, too
+			_, err = parser.getPackageFromNode(subTriple.Object)
 		case SPDX_HAS_EXTRACTED_LICENSING_INFO: // hasExtractedLicensingInfo
 			// cardinality: min 0
 			extractedLicensingInfo, err := parser.getExtractedLicensingInfoFromNode(subTriple.Object)
diff --git a/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go b/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go
index 7601c4d..180044e 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go
@@ -61,12 +61,8 @@ func (parser *rdfParser2_3) parseSpdxDocumentNode(spdxDocNode *gordfParser.Node)
 			err = parser.setReviewFromNode(subTriple.Object)
 		case SPDX_DESCRIBES_PACKAGE: // describes Package
 			// cardinality: min 0
-			var pkg *spdx.Package
-			pkg, err = parser.getPackageFromNode(subTriple.Object)
-			if err != nil {
-				return err
-			}
-			parser.doc.Packages = append(parser.doc.Packages, pkg)
+			// this adds the package to the document, too
+			_, err = parser.getPackageFromNode(subTriple.Object)
 		case SPDX_HAS_EXTRACTED_LICENSING_INFO: // hasExtractedLicensingInfo
 			// cardinality: min 0
 			extractedLicensingInfo, err := parser.getExtractedLicensingInfoFromNode(subTriple.Object)
-- 
2.43.0


From 769b87ff3306f3afc966ad59a047694e4e3b106f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:35 +0000
Subject: [PATCH 23/61] fix: read what an RDF node refers to by rdf:resource,
 and read it once

---
 spdx/v2/v2_2/rdf/reader/parse_file.go    | 4 ++++
 spdx/v2/v2_2/rdf/reader/parse_package.go | 4 ++++
 spdx/v2/v2_2/rdf/reader/parser.go        | 1 +
 spdx/v2/v2_2/rdf/reader/types.go         | 4 ++++
 spdx/v2/v2_2/rdf/reader/utils.go         | 7 ++++++-
 spdx/v2/v2_3/rdf/reader/parse_file.go    | 4 ++++
 spdx/v2/v2_3/rdf/reader/parse_package.go | 4 ++++
 spdx/v2/v2_3/rdf/reader/parser.go        | 1 +
 spdx/v2/v2_3/rdf/reader/types.go         | 4 ++++
 spdx/v2/v2_3/rdf/reader/utils.go         | 7 ++++++-
 10 files changed, 38 insertions(+), 2 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_file.go b/spdx/v2/v2_2/rdf/reader/parse_file.go
index ffc7645..86ded41 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_file.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_file.go
@@ -44,6 +44,10 @@ func (parser *rdfParser2_2) getFileFromNode(fileNode *gordfParser.Node) (file *v
 	}
 
 	for _, subTriple := range parser.nodeToTriples(fileNode) {
+		if parser.parsed[subTriple] {
+			continue
+		}
+		parser.parsed[subTriple] = true
 		switch subTriple.Predicate.ID {
 		case SPDX_FILE_NAME: // 4.1
 			// cardinality: exactly 1
diff --git a/spdx/v2/v2_2/rdf/reader/parse_package.go b/spdx/v2/v2_2/rdf/reader/parse_package.go
index bb4a331..93449f2 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_package.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_package.go
@@ -53,6 +53,10 @@ func (parser *rdfParser2_2) getPackageFromNode(packageNode *gordfParser.Node) (p
 
 	// iterate over all the triples associated with the provided package packageNode.
 	for _, subTriple := range parser.nodeToTriples(packageNode) {
+		if parser.parsed[subTriple] {
+			continue
+		}
+		parser.parsed[subTriple] = true
 		switch subTriple.Predicate.ID {
 		case RDF_TYPE:
 			// cardinality: exactly 1
diff --git a/spdx/v2/v2_2/rdf/reader/parser.go b/spdx/v2/v2_2/rdf/reader/parser.go
index 2c61491..f28c894 100644
--- a/spdx/v2/v2_2/rdf/reader/parser.go
+++ b/spdx/v2/v2_2/rdf/reader/parser.go
@@ -30,6 +30,7 @@ func NewParser2_2(gordfParserObj *gordfParser.Parser, nodeToTriples map[string][
 		files:            map[common.ElementID]*v2_2.File{},
 		assocWithPackage: map[common.ElementID]bool{},
 		cache:            map[string]*nodeState{},
+		parsed:           map[*gordfParser.Triple]bool{},
 	}
 	return &parser
 }
diff --git a/spdx/v2/v2_2/rdf/reader/types.go b/spdx/v2/v2_2/rdf/reader/types.go
index 2e2d7b0..6ff9a24 100644
--- a/spdx/v2/v2_2/rdf/reader/types.go
+++ b/spdx/v2/v2_2/rdf/reader/types.go
@@ -23,6 +23,10 @@ type rdfParser2_2 struct {
 
 	// mapping of nodeStrings to parsed object to save double computation.
 	cache map[string]*nodeState
+
+	// triples of packages and files which are already parsed: such a node may
+	// be referred to many times
+	parsed map[*gordfParser.Triple]bool
 }
 
 type Color int
diff --git a/spdx/v2/v2_2/rdf/reader/utils.go b/spdx/v2/v2_2/rdf/reader/utils.go
index 25db1fc..6ec2a2b 100644
--- a/spdx/v2/v2_2/rdf/reader/utils.go
+++ b/spdx/v2/v2_2/rdf/reader/utils.go
@@ -48,7 +48,12 @@ func (parser *rdfParser2_2) nodeToTriples(node *gordfParser.Node) []*gordfParser
 	if node == nil {
 		return []*gordfParser.Triple{}
 	}
-	return parser.nodeStringToTriples[node.String()]
+	if triples := parser.nodeStringToTriples[node.String()]; len(triples) > 0 || node.NodeType != gordfParser.RESOURCELITERAL {
+		return triples
+	}
+	// a reference (rdf:resource) to a node that is described elsewhere
+	described := gordfParser.Node{NodeType: gordfParser.IRI, ID: node.ID}
+	return parser.nodeStringToTriples[described.String()]
 }
 
 // returns which boolean was given as an input
diff --git a/spdx/v2/v2_3/rdf/reader/parse_file.go b/spdx/v2/v2_3/rdf/reader/parse_file.go
index cce0f9f..da898f7 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_file.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_file.go
@@ -44,6 +44,10 @@ func (parser *rdfParser2_3) getFileFromNode(fileNode *gordfParser.Node) (file *s
 	}
 
 	for _, subTriple := range parser.nodeToTriples(fileNode) {
+		if parser.parsed[subTriple] {
+			continue
+		}
+		parser.parsed[subTriple] = true
 		switch subTriple.Predicate.ID {
 		case SPDX_FILE_NAME: // 4.1
 			// cardinality: exactly 1
diff --git a/spdx/v2/v2_3/rdf/reader/parse_package.go b/spdx/v2/v2_3/rdf/reader/parse_package.go
index b868e7d..cc1af4f 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_package.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_package.go
@@ -53,6 +53,10 @@ func (parser *rdfParser2_3) getPackageFromNode(packageNode *gordfParser.Node) (p
 
 	// iterate over all the triples associated with the provided package packageNode.
 	for _, subTriple := range parser.nodeToTriples(packageNode) {
+		if parser.parsed[subTriple] {
+			continue
+		}
+		parser.parsed[subTriple] = true
 		switch subTriple.Predicate.ID {
 		case RDF_TYPE:
 			// cardinality: exactly 1
diff --git a/spdx/v2/v2_3/rdf/reader/parser.go b/spdx/v2/v2_3/rdf/reader/parser.go
index 93a382e..e02e063 100644
--- a/spdx/v2/v2_3/rdf/reader/parser.go
+++ b/spdx/v2/v2_3/rdf/reader/parser.go
@@ -30,6 +30,7 @@ func NewParser2_3(gordfParserObj *gordfParser.Parser, nodeToTriples map[string][
 		files:            map[common.ElementID]*spdx.File{},
 		assocWithPackage: map[common.ElementID]bool{},
 		cache:            map[string]*nodeState{},
+		parsed:           map[*gordfParser.Triple]bool{},
 	}
 	return &parser
 }
diff --git a/spdx/v2/v2_3/rdf/reader/types.go b/spdx/v2/v2_3/rdf/reader/types.go
index 1b0cd1b..eea3164 100644
--- a/spdx/v2/v2_3/rdf/reader/types.go
+++ b/spdx/v2/v2_3/rdf/reader/types.go
@@ -23,6 +23,10 @@ type rdfParser2_3 struct {
 
 	// mapping of nodeStrings to parsed object to save double computation.
 	cache map[string]*nodeState
+
+	// triples of packages and files which are already parsed: such a node may
+	// be referred to many times
+	parsed map[*gordfParser.Triple]bool
 }
 
 type Color int
diff --git a/spdx/v2/v2_3/rdf/reader/utils.go b/spdx/v2/v2_3/rdf/reader/utils.go
index a242589..aedd119 100644
--- a/spdx/v2/v2_3/rdf/reader/utils.go
+++ b/spdx/v2/v2_3/rdf/reader/utils.go
@@ -48,7 +48,12 @@ func (parser *rdfParser2_3) nodeToTriples(node *gordfParser.Node) []*gordfParser
 	if node == nil {
 		return []*gordfParser.Triple{}
 	}
-	return parser.nodeStringToTriples[node.String()]
+	if triples := parser.nodeStringToTriples[node.String()]; len(triples) > 0 || node.NodeType != gordfParser.RESOURCELITERAL {
+		return triples
+	}
+	// a reference (rdf:resource) to a node that is described elsewhere
+	described := gordfParser.Node{NodeType: gordfParser.IRI, ID: node.ID}
+	return parser.nodeStringToTriples[described.String()]
 }
 
 // returns which boolean was given as an input
-- 
2.43.0


From bb9ff1f44189d98d7d4b7d24b91d7548e90f5338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:58 +0000
Subject: [PATCH 24/61] fix: report an RDF node used as a file and a package
 instead of a panic

---
 spdx/v2/v2_2/rdf/reader/parse_file.go    | 5 ++++-
 spdx/v2/v2_2/rdf/reader/parse_package.go | 5 ++++-
 spdx/v2/v2_3/rdf/reader/parse_file.go    | 5 ++++-
 spdx/v2/v2_3/rdf/reader/parse_package.go | 5 ++++-
 4 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_file.go b/spdx/v2/v2_2/rdf/reader/parse_file.go
index 86ded41..1de7718 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_file.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_file.go
@@ -24,7 +24,10 @@ func (parser *rdfParser2_2) getFileFromNode(fileNode *gordfParser.Node) (file *v
 		}
 	} else if currState.Color == GREY {
 		// we have already started parsing this file node and we needn't parse it again.
-		return currState.object.(*v2_2.File), nil
+		if file, ok := currState.object.(*v2_2.File); ok {
+			return file, nil
+		}
+		return nil, fmt.Errorf("%s is used as a file, but is something else", fileNode.ID)
 	}
 
 	// setting color to grey to indicate that we've started parsing this node.
diff --git a/spdx/v2/v2_2/rdf/reader/parse_package.go b/spdx/v2/v2_2/rdf/reader/parse_package.go
index 93449f2..c0daed5 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_package.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_package.go
@@ -24,7 +24,10 @@ func (parser *rdfParser2_2) getPackageFromNode(packageNode *gordfParser.Node) (p
 		}
 	} else if currState.Color == GREY {
 		// we have already started parsing this package node and we needn't parse it again.
-		return currState.object.(*v2_2.Package), nil
+		if pkg, ok := currState.object.(*v2_2.Package); ok {
+			return pkg, nil
+		}
+		return nil, fmt.Errorf("%s is used as a package, but is something else", packageNode.ID)
 	}
 
 	// setting color of the state to grey to indicate that we've started to
diff --git a/spdx/v2/v2_3/rdf/reader/parse_file.go b/spdx/v2/v2_3/rdf/reader/parse_file.go
index da898f7..73f80b6 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_file.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_file.go
@@ -24,7 +24,10 @@ func (parser *rdfParser2_3) getFileFromNode(fileNode *gordfParser.Node) (file *s
 		}
 	} else if currState.Color == GREY {
 		// we have already started parsing this file node and we needn't parse it again.
-		return currState.object.(*spdx.File), nil
+		if file, ok := currState.object.(*spdx.File); ok {
+			return file, nil
+		}
+		return nil, fmt.Errorf("%s is used as a file, but is something else", fileNode.ID)
 	}
 
 	// setting color to grey to indicate that we've started parsing this node.
diff --git a/spdx/v2/v2_3/rdf/reader/parse_package.go b/spdx/v2/v2_3/rdf/reader/parse_package.go
index cc1af4f..52887ee 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_package.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_package.go
@@ -24,7 +24,10 @@ func (parser *rdfParser2_3) getPackageFromNode(packageNode *gordfParser.Node) (p
 		}
 	} else if currState.Color == GREY {
 		// we have already started parsing this package node and we needn't parse it again.
-		return currState.object.(*spdx.Package), nil
+		if pkg, ok := currState.object.(*spdx.Package); ok {
+			return pkg, nil
+		}
+		return nil, fmt.Errorf("%s is used as a package, but is something else", packageNode.ID)
 	}
 
 	// setting color of the state to grey to indicate that we've started to
-- 
2.43.0


From 35a66eb0ef6f875e1ec0e36a9338abe7d711d76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:38 +0000
Subject: [PATCH 25/61] fix: read packages and files of an RDF document that
 nothing refers to

---
 spdx/v2/v2_2/rdf/reader/parser.go | 10 ++++++++++
 spdx/v2/v2_3/rdf/reader/parser.go | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/spdx/v2/v2_2/rdf/reader/parser.go b/spdx/v2/v2_2/rdf/reader/parser.go
index f28c894..80f93ad 100644
--- a/spdx/v2/v2_2/rdf/reader/parser.go
+++ b/spdx/v2/v2_2/rdf/reader/parser.go
@@ -72,6 +72,16 @@ func LoadFromGoRDFParser(gordfParserObj *gordfParser.Parser) (*v2_2.Document, er
 			if err != nil {
 				return nil, err
 			}
+		case SPDX_PACKAGE:
+			// nothing may refer to the package
+			if _, err := parser.getPackageFromNode(typeTriples[0].Subject); err != nil {
+				return nil, fmt.Errorf("error parsing a package: %v", err)
+			}
+		case SPDX_FILE:
+			// nothing may refer to the file
+			if _, err := parser.getFileFromNode(typeTriples[0].Subject); err != nil {
+				return nil, fmt.Errorf("error parsing a file: %v", err)
+			}
 		// todo: check other root node attributes.
 		default:
 			continue
diff --git a/spdx/v2/v2_3/rdf/reader/parser.go b/spdx/v2/v2_3/rdf/reader/parser.go
index e02e063..6c2bf8e 100644
--- a/spdx/v2/v2_3/rdf/reader/parser.go
+++ b/spdx/v2/v2_3/rdf/reader/parser.go
@@ -72,6 +72,16 @@ func LoadFromGoRDFParser(gordfParserObj *gordfParser.Parser) (*spdx.Document, er
 			if err != nil {
 				return nil, err
 			}
+		case SPDX_PACKAGE:
+			// nothing may refer to the package
+			if _, err := parser.getPackageFromNode(typeTriples[0].Subject); err != nil {
+				return nil, fmt.Errorf("error parsing a package: %v", err)
+			}
+		case SPDX_FILE:
+			// nothing may refer to the file
+			if _, err := parser.getFileFromNode(typeTriples[0].Subject); err != nil {
+				return nil, fmt.Errorf("error parsing a file: %v", err)
+			}
 		// todo: check other root node attributes.
 		default:
 			continue
-- 
2.43.0


From e10ad46415159ccd8fa97702850c6aee26fdc965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:57 +0000
Subject: [PATCH 26/61] fix: spell the types of relationships read from RDF
 like the other formats

---
 spdx/v2/v2_2/rdf/reader/parse_relationship.go | 26 +++++++++++++++++++
 spdx/v2/v2_2/rdf/reader/parser.go             |  1 +
 spdx/v2/v2_3/rdf/reader/parse_relationship.go | 26 +++++++++++++++++++
 spdx/v2/v2_3/rdf/reader/parser.go             |  1 +
 4 files changed, 54 insertions(+)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_relationship.go b/spdx/v2/v2_2/rdf/reader/parse_relationship.go
index 1946933..775681f 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_relationship.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_relationship.go
@@ -5,6 +5,7 @@ package reader
 import (
 	"fmt"
 	"strings"
+	"unicode"
 
 	gordfParser "github.com/spdx/gordf/rdfloader/parser"
 	"github.com/spdx/gordf/rdfwriter"
@@ -154,3 +155,28 @@ func getRelationshipTypeFromURI(relnTypeURI string) (string, error) {
 	}
 	return "", fmt.Errorf("unknown relationshipType: '%s'", lastPart)
 }
+
+// RDF spells the types of relationships in a way of its own (describedBy):
+// in the document, they are spelled as in all the other formats (DESCRIBED_BY).
+func (parser *rdfParser2_2) setRelationshipTypes() {
+	for _, reln := range parser.doc.Relationships {
+		reln.Relationship = relationshipTypeFromRDF(reln.Relationship)
+	}
+}
+
+func relationshipTypeFromRDF(relnType string) string {
+	switch relnType {
+	case "amendment":
+		return common.TypeRelationshipAmends
+	case "testcaseOf":
+		return common.TypeRelationshipTestCaseOf
+	}
+	var spelled strings.Builder
+	for _, r := range relnType {
+		if unicode.IsUpper(r) {
+			spelled.WriteByte('_')
+		}
+		spelled.WriteRune(unicode.ToUpper(r))
+	}
+	return spelled.String()
+}
diff --git a/spdx/v2/v2_2/rdf/reader/parser.go b/spdx/v2/v2_2/rdf/reader/parser.go
index 80f93ad..a32142c 100644
--- a/spdx/v2/v2_2/rdf/reader/parser.go
+++ b/spdx/v2/v2_2/rdf/reader/parser.go
@@ -96,6 +96,7 @@ func LoadFromGoRDFParser(gordfParserObj *gordfParser.Parser) (*v2_2.Document, er
 	// Files attribute of the document
 	// WARNING: do not relocate following function call. It must be at the end of the function
 	parser.setUnpackagedFiles()
+	parser.setRelationshipTypes()
 	return parser.doc, nil
 }
 
diff --git a/spdx/v2/v2_3/rdf/reader/parse_relationship.go b/spdx/v2/v2_3/rdf/reader/parse_relationship.go
index b1753db..17ea425 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_relationship.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_relationship.go
@@ -5,6 +5,7 @@ package reader
 import (
 	"fmt"
 	"strings"
+	"unicode"
 
 	gordfParser "github.com/spdx/gordf/rdfloader/parser"
 	"github.com/spdx/gordf/rdfwriter"
@@ -154,3 +155,28 @@ func getRelationshipTypeFromURI(relnTypeURI string) (string, error) {
 	}
 	return "", fmt.Errorf("unknown relationshipType: '%s'", lastPart)
 }
+
+// RDF spells the types of relationships in a way of its own (describedBy):
+// in the document, they are spelled as in all the other formats (DESCRIBED_BY).
+func (parser *rdfParser2_3) setRelationshipTypes() {
+	for _, reln := range parser.doc.Relationships {
+		reln.Relationship = relationshipTypeFromRDF(reln.Relationship)
+	}
+}
+
+func relationshipTypeFromRDF(relnType string) string {
+	switch relnType {
+	case "amendment":
+		return common.TypeRelationshipAmends
+	case "testcaseOf":
+		return common.TypeRelationshipTestCaseOf
+	}
+	var spelled strings.Builder
+	for _, r := range relnType {
+		if unicode.IsUpper(r) {
+			spelled.WriteByte('_')
+		}
+		spelled.WriteRune(unicode.ToUpper(r))
+	}
+	return spelled.String()
+}
diff --git a/spdx/v2/v2_3/rdf/reader/parser.go b/spdx/v2/v2_3/rdf/reader/parser.go
index 6c2bf8e..97ada06 100644
--- a/spdx/v2/v2_3/rdf/reader/parser.go
+++ b/spdx/v2/v2_3/rdf/reader/parser.go
@@ -96,6 +96,7 @@ func LoadFromGoRDFParser(gordfParserObj *gordfParser.Parser) (*spdx.Document, er
 	// Files attribute of the document
 	// WARNING: do not relocate following function call. It must be at the end of the function
 	parser.setUnpackagedFiles()
+	parser.setRelationshipTypes()
 	return parser.doc, nil
 }
 
-- 
2.43.0


From 0d94b385986fdabca0a0130aebe6b7b688ed7cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:05 +0000
Subject: [PATCH 27/61] fix: read all the relationship types of SPDX from RDF

---
 spdx/v2/v2_2/rdf/reader/constants.go | 4 ++--
 spdx/v2/v2_3/rdf/reader/constants.go | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/constants.go b/spdx/v2/v2_2/rdf/reader/constants.go
index f68fdd9..045cc57 100644
--- a/spdx/v2/v2_2/rdf/reader/constants.go
+++ b/spdx/v2/v2_2/rdf/reader/constants.go
@@ -141,11 +141,11 @@ var (
 
 func AllRelationshipTypes() []string {
 	return []string{
-		"amendment", "ancestorOf", "buildDependencyOf", "buildToolOf",
+		"amendment", "amends", "ancestorOf", "buildDependencyOf", "buildToolOf",
 		"containedBy", "contains", "copyOf", "dataFile", "dataFileOf",
 		"dependencyManifestOf", "dependencyOf", "dependsOn", "descendantOf",
 		"describedBy", "describes", "devDependencyOf", "devToolOf",
-		"distributionArtifact", "documentation", "dynamicLink", "exampleOf",
+		"distributionArtifact", "documentation", "documentationOf", "dynamicLink", "exampleOf",
 		"expandedFromArchive", "fileAdded", "fileDeleted", "fileModified",
 		"generatedFrom", "generates", "hasPrerequisite", "metafileOf",
 		"optionalComponentOf", "optionalDependencyOf", "other", "packageOf",
diff --git a/spdx/v2/v2_3/rdf/reader/constants.go b/spdx/v2/v2_3/rdf/reader/constants.go
index 4220602..94ed138 100644
--- a/spdx/v2/v2_3/rdf/reader/constants.go
+++ b/spdx/v2/v2_3/rdf/reader/constants.go
@@ -145,16 +145,16 @@ var (
 
 func AllRelationshipTypes() []string {
 	return []string{
-		"amendment", "ancestorOf", "buildDependencyOf", "buildToolOf",
+		"amendment", "amends", "ancestorOf", "buildDependencyOf", "buildToolOf",
 		"containedBy", "contains", "copyOf", "dataFile", "dataFileOf",
 		"dependencyManifestOf", "dependencyOf", "dependsOn", "descendantOf",
 		"describedBy", "describes", "devDependencyOf", "devToolOf",
-		"distributionArtifact", "documentation", "dynamicLink", "exampleOf",
+		"distributionArtifact", "documentation", "documentationOf", "dynamicLink", "exampleOf",
 		"expandedFromArchive", "fileAdded", "fileDeleted", "fileModified",
 		"generatedFrom", "generates", "hasPrerequisite", "metafileOf",
 		"optionalComponentOf", "optionalDependencyOf", "other", "packageOf",
 		"patchApplied", "patchFor", "prerequisiteFor", "providedDependencyOf",
-		"runtimeDependencyOf", "staticLink", "testDependencyOf", "testOf",
+		"requirementDescriptionFor", "runtimeDependencyOf", "specificationFor", "staticLink", "testDependencyOf", "testOf",
 		"testToolOf", "testcaseOf", "variantOf",
 	}
 }
-- 
2.43.0


From 900c1369bddd53a76047b0b38abf088ee79a9940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:25 +0000
Subject: [PATCH 28/61] fix: read relationships to NONE and NOASSERTION from
 RDF as such

---
 spdx/v2/v2_2/rdf/reader/parse_relationship.go | 4 ++++
 spdx/v2/v2_3/rdf/reader/parse_relationship.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_relationship.go b/spdx/v2/v2_2/rdf/reader/parse_relationship.go
index 775681f..74e7ae5 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_relationship.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_relationship.go
@@ -60,6 +60,10 @@ func (parser *rdfParser2_2) parseRelationship(triple *gordfParser.Triple) (err e
 			if err != nil {
 				return err
 			}
+			if !strings.HasPrefix(getLastPartOfURI(subTriple.Object.ID), "SPDXRef-") && reln.RefB.DocumentRefID == "" {
+				// neither an element of this document nor of another one: NONE or NOASSERTION
+				reln.RefB = common.DocElementID{SpecialID: string(reln.RefB.ElementRefID)}
+			}
 
 			relatedSpdxElementTriples := parser.nodeToTriples(subTriple.Object)
 			if len(relatedSpdxElementTriples) == 0 {
diff --git a/spdx/v2/v2_3/rdf/reader/parse_relationship.go b/spdx/v2/v2_3/rdf/reader/parse_relationship.go
index 17ea425..e32c923 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_relationship.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_relationship.go
@@ -60,6 +60,10 @@ func (parser *rdfParser2_3) parseRelationship(triple *gordfParser.Triple) (err e
 			if err != nil {
 				return err
 			}
+			if !strings.HasPrefix(getLastPartOfURI(subTriple.Object.ID), "SPDXRef-") && reln.RefB.DocumentRefID == "" {
+				// neither an element of this document nor of another one: NONE or NOASSERTION
+				reln.RefB = common.DocElementID{SpecialID: string(reln.RefB.ElementRefID)}
+			}
 
 			relatedSpdxElementTriples := parser.nodeToTriples(subTriple.Object)
 			if len(relatedSpdxElementTriples) == 0 {
-- 
2.43.0


From 3985f9c88e3e27d6a986b09a3d1903a4d2882b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:51 +0000
Subject: [PATCH 29/61] fix: drop the prefix of external document IDs read from
 RDF, as everywhere

---
 spdx/v2/v2_2/rdf/reader/parse_spdx_document.go | 3 ++-
 spdx/v2/v2_3/rdf/reader/parse_spdx_document.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go b/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go
index 74f8c31..c2ac144 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go
@@ -4,6 +4,7 @@ package reader
 
 import (
 	"fmt"
+	"strings"
 
 	gordfParser "github.com/spdx/gordf/rdfloader/parser"
 	"github.com/spdx/tools-golang/spdx/v2/common"
@@ -92,7 +93,7 @@ func (parser *rdfParser2_2) getExternalDocumentRefFromNode(node *gordfParser.Nod
 		switch triple.Predicate.ID {
 		case SPDX_EXTERNAL_DOCUMENT_ID:
 			// cardinality: exactly 1
-			edr.DocumentRefID = common.DocumentID(triple.Object.ID)
+			edr.DocumentRefID = common.DocumentID(strings.TrimPrefix(triple.Object.ID, "DocumentRef-"))
 		case SPDX_SPDX_DOCUMENT:
 			// cardinality: exactly 1
 			// assumption: "spdxDocument" property of an external document
diff --git a/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go b/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go
index 180044e..e1e4eda 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go
@@ -4,6 +4,7 @@ package reader
 
 import (
 	"fmt"
+	"strings"
 
 	gordfParser "github.com/spdx/gordf/rdfloader/parser"
 	"github.com/spdx/tools-golang/spdx/v2/common"
@@ -92,7 +93,7 @@ func (parser *rdfParser2_3) getExternalDocumentRefFromNode(node *gordfParser.Nod
 		switch triple.Predicate.ID {
 		case SPDX_EXTERNAL_DOCUMENT_ID:
 			// cardinality: exactly 1
-			edr.DocumentRefID = common.DocumentID(triple.Object.ID)
+			edr.DocumentRefID = common.DocumentID(strings.TrimPrefix(triple.Object.ID, "DocumentRef-"))
 		case SPDX_SPDX_DOCUMENT:
 			// cardinality: exactly 1
 			// assumption: "spdxDocument" property of an external document
-- 
2.43.0


From 7a781991de4dee27bc71ce46f51827f592822ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:34 +0000
Subject: [PATCH 30/61] fix: keep the document of an element that a
 relationship read from RDF relates to

---
 spdx/v2/v2_2/rdf/reader/parse_relationship.go | 18 ++++++++++++++++++
 spdx/v2/v2_2/rdf/reader/parser.go             |  2 ++
 spdx/v2/v2_2/rdf/reader/types.go              |  3 +++
 spdx/v2/v2_3/rdf/reader/parse_relationship.go | 18 ++++++++++++++++++
 spdx/v2/v2_3/rdf/reader/parser.go             |  2 ++
 spdx/v2/v2_3/rdf/reader/types.go              |  3 +++
 6 files changed, 46 insertions(+)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_relationship.go b/spdx/v2/v2_2/rdf/reader/parse_relationship.go
index 74e7ae5..1523f27 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_relationship.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_relationship.go
@@ -60,6 +60,7 @@ func (parser *rdfParser2_2) parseRelationship(triple *gordfParser.Triple) (err e
 			if err != nil {
 				return err
 			}
+			parser.relatedURIs[&reln] = subTriple.Object.ID
 			if !strings.HasPrefix(getLastPartOfURI(subTriple.Object.ID), "SPDXRef-") && reln.RefB.DocumentRefID == "" {
 				// neither an element of this document nor of another one: NONE or NOASSERTION
 				reln.RefB = common.DocElementID{SpecialID: string(reln.RefB.ElementRefID)}
@@ -160,6 +161,23 @@ func getRelationshipTypeFromURI(relnTypeURI string) (string, error) {
 	return "", fmt.Errorf("unknown relationshipType: '%s'", lastPart)
 }
 
+// an element of another document is known by the URI of that document, which
+// the external document references have
+func (parser *rdfParser2_2) setExternalElements() {
+	documents := map[string]common.DocumentID{}
+	for _, ref := range parser.doc.ExternalDocumentReferences {
+		documents[strings.TrimSuffix(ref.URI, "#")] = ref.DocumentRefID
+	}
+	// elements of this document
+	delete(documents, parser.doc.DocumentNamespace)
+	for _, reln := range parser.doc.Relationships {
+		uri, _, _ := strings.Cut(parser.relatedURIs[reln], "#")
+		if docRef, ok := documents[uri]; ok && reln.RefB.ElementRefID != "" && reln.RefB.DocumentRefID == "" {
+			reln.RefB.DocumentRefID = docRef
+		}
+	}
+}
+
 // RDF spells the types of relationships in a way of its own (describedBy):
 // in the document, they are spelled as in all the other formats (DESCRIBED_BY).
 func (parser *rdfParser2_2) setRelationshipTypes() {
diff --git a/spdx/v2/v2_2/rdf/reader/parser.go b/spdx/v2/v2_2/rdf/reader/parser.go
index a32142c..778daec 100644
--- a/spdx/v2/v2_2/rdf/reader/parser.go
+++ b/spdx/v2/v2_2/rdf/reader/parser.go
@@ -31,6 +31,7 @@ func NewParser2_2(gordfParserObj *gordfParser.Parser, nodeToTriples map[string][
 		assocWithPackage: map[common.ElementID]bool{},
 		cache:            map[string]*nodeState{},
 		parsed:           map[*gordfParser.Triple]bool{},
+		relatedURIs:      map[*v2_2.Relationship]string{},
 	}
 	return &parser
 }
@@ -97,6 +98,7 @@ func LoadFromGoRDFParser(gordfParserObj *gordfParser.Parser) (*v2_2.Document, er
 	// WARNING: do not relocate following function call. It must be at the end of the function
 	parser.setUnpackagedFiles()
 	parser.setRelationshipTypes()
+	parser.setExternalElements()
 	return parser.doc, nil
 }
 
diff --git a/spdx/v2/v2_2/rdf/reader/types.go b/spdx/v2/v2_2/rdf/reader/types.go
index 6ff9a24..6b3bdfe 100644
--- a/spdx/v2/v2_2/rdf/reader/types.go
+++ b/spdx/v2/v2_2/rdf/reader/types.go
@@ -27,6 +27,9 @@ type rdfParser2_2 struct {
 	// triples of packages and files which are already parsed: such a node may
 	// be referred to many times
 	parsed map[*gordfParser.Triple]bool
+
+	// URIs of the elements that relationships relate to
+	relatedURIs map[*v2_2.Relationship]string
 }
 
 type Color int
diff --git a/spdx/v2/v2_3/rdf/reader/parse_relationship.go b/spdx/v2/v2_3/rdf/reader/parse_relationship.go
index e32c923..2f2b39b 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_relationship.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_relationship.go
@@ -60,6 +60,7 @@ func (parser *rdfParser2_3) parseRelationship(triple *gordfParser.Triple) (err e
 			if err != nil {
 				return err
 			}
+			parser.relatedURIs[&reln] = subTriple.Object.ID
 			if !strings.HasPrefix(getLastPartOfURI(subTriple.Object.ID), "SPDXRef-") && reln.RefB.DocumentRefID == "" {
 				// neither an element of this document nor of another one: NONE or NOASSERTION
 				reln.RefB = common.DocElementID{SpecialID: string(reln.RefB.ElementRefID)}
@@ -160,6 +161,23 @@ func getRelationshipTypeFromURI(relnTypeURI string) (string, error) {
 	return "", fmt.Errorf("unknown relationshipType: '%s'", lastPart)
 }
 
+// an element of another document is known by the URI of that document, which
+// the external document references have
+func (parser *rdfParser2_3) setExternalElements() {
+	documents := map[string]common.DocumentID{}
+	for _, ref := range parser.doc.ExternalDocumentReferences {
+		documents[strings.TrimSuffix(ref.URI, "#")] = ref.DocumentRefID
+	}
+	// elements of this document
+	delete(documents, parser.doc.DocumentNamespace)
+	for _, reln := range parser.doc.Relationships {
+		uri, _, _ := strings.Cut(parser.relatedURIs[reln], "#")
+		if docRef, ok := documents[uri]; ok && reln.RefB.ElementRefID != "" && reln.RefB.DocumentRefID == "" {
+			reln.RefB.DocumentRefID = docRef
+		}
+	}
+}
+
 // RDF spells the types of relationships in a way of its own (describedBy):
 // in the document, they are spelled as in all the other formats (DESCRIBED_BY).
 func (parser *rdfParser2_3) setRelationshipTypes() {
diff --git a/spdx/v2/v2_3/rdf/reader/parser.go b/spdx/v2/v2_3/rdf/reader/parser.go
index 97ada06..5e700e5 100644
--- a/spdx/v2/v2_3/rdf/reader/parser.go
+++ b/spdx/v2/v2_3/rdf/reader/parser.go
@@ -31,6 +31,7 @@ func NewParser2_3(gordfParserObj *gordfParser.Parser, nodeToTriples map[string][
 		assocWithPackage: map[common.ElementID]bool{},
 		cache:            map[string]*nodeState{},
 		parsed:           map[*gordfParser.Triple]bool{},
+		relatedURIs:      map[*spdx.Relationship]string{},
 	}
 	return &parser
 }
@@ -97,6 +98,7 @@ func LoadFromGoRDFParser(gordfParserObj *gordfParser.Parser) (*spdx.Document, er
 	// WARNING: do not relocate following function call. It must be at the end of the function
 	parser.setUnpackagedFiles()
 	parser.setRelationshipTypes()
+	parser.setExternalElements()
 	return parser.doc, nil
 }
 
diff --git a/spdx/v2/v2_3/rdf/reader/types.go b/spdx/v2/v2_3/rdf/reader/types.go
index eea3164..a1f35ea 100644
--- a/spdx/v2/v2_3/rdf/reader/types.go
+++ b/spdx/v2/v2_3/rdf/reader/types.go
@@ -27,6 +27,9 @@ type rdfParser2_3 struct {
 	// triples of packages and files which are already parsed: such a node may
 	// be referred to many times
 	parsed map[*gordfParser.Triple]bool
+
+	// URIs of the elements that relationships relate to
+	relatedURIs map[*spdx.Relationship]string
 }
 
 type Color int
-- 
2.43.0


From 25b3402a4c9a1bb4d9a2a2e88a36cc9c570ff617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:00 +0000
Subject: [PATCH 31/61] fix: take the files of a package as analyzed by default
 in RDF, too

---
 spdx/v2/v2_2/rdf/reader/parse_package.go | 4 +++-
 spdx/v2/v2_3/rdf/reader/parse_package.go | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_package.go b/spdx/v2/v2_2/rdf/reader/parse_package.go
index c0daed5..c892cb1 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_package.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_package.go
@@ -12,7 +12,9 @@ import (
 )
 
 func (parser *rdfParser2_2) getPackageFromNode(packageNode *gordfParser.Node) (pkg *v2_2.Package, err error) {
-	pkg = &v2_2.Package{} // new package which will be returned
+	// new package which will be returned; its files count as analyzed unless
+	// it states otherwise
+	pkg = &v2_2.Package{FilesAnalyzed: true}
 
 	currState := parser.cache[packageNode.ID]
 	if currState == nil {
diff --git a/spdx/v2/v2_3/rdf/reader/parse_package.go b/spdx/v2/v2_3/rdf/reader/parse_package.go
index 52887ee..ce9a5b3 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_package.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_package.go
@@ -12,7 +12,9 @@ import (
 )
 
 func (parser *rdfParser2_3) getPackageFromNode(packageNode *gordfParser.Node) (pkg *spdx.Package, err error) {
-	pkg = &spdx.Package{} // new package which will be returned
+	// new package which will be returned; its files count as analyzed unless
+	// it states otherwise
+	pkg = &spdx.Package{FilesAnalyzed: true}
 
 	currState := parser.cache[packageNode.ID]
 	if currState == nil {
-- 
2.43.0


From 0eb095b2f6107f5d9596c305df7227b9b33bfb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:21 +0000
Subject: [PATCH 32/61] fix: drop the prefix of the ID of a document read from
 RDF, as everywhere

---
 spdx/v2/v2_2/rdf/reader/parse_spdx_document.go | 4 ++--
 spdx/v2/v2_3/rdf/reader/parse_spdx_document.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go b/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go
index c2ac144..653afdb 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go
@@ -21,8 +21,8 @@ func (parser *rdfParser2_2) parseSpdxDocumentNode(spdxDocNode *gordfParser.Node)
 	if err != nil {
 		return err
 	}
-	parser.doc.DocumentNamespace = baseUri               // 2.5
-	parser.doc.SPDXIdentifier = common.ElementID(offset) // 2.3
+	parser.doc.DocumentNamespace = baseUri                                               // 2.5
+	parser.doc.SPDXIdentifier = common.ElementID(strings.TrimPrefix(offset, "SPDXRef-")) // 2.3
 
 	// parse other associated triples.
 	for _, subTriple := range parser.nodeToTriples(spdxDocNode) {
diff --git a/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go b/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go
index e1e4eda..46b74d0 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go
@@ -21,8 +21,8 @@ func (parser *rdfParser2_3) parseSpdxDocumentNode(spdxDocNode *gordfParser.Node)
 	if err != nil {
 		return err
 	}
-	parser.doc.DocumentNamespace = baseUri               // 2.5
-	parser.doc.SPDXIdentifier = common.ElementID(offset) // 2.3
+	parser.doc.DocumentNamespace = baseUri                                               // 2.5
+	parser.doc.SPDXIdentifier = common.ElementID(strings.TrimPrefix(offset, "SPDXRef-")) // 2.3
 
 	// parse other associated triples.
 	for _, subTriple := range parser.nodeToTriples(spdxDocNode) {
-- 
2.43.0


From e5115363f1c5c5f176225b566016b6cdcb629f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:56 +0000
Subject: [PATCH 33/61] fix: keep which element an annotation read from RDF
 annotates

---
 spdx/v2/v2_2/rdf/reader/parse_annotation.go    | 12 ++++++++++++
 spdx/v2/v2_2/rdf/reader/parse_file.go          |  2 +-
 spdx/v2/v2_2/rdf/reader/parse_package.go       |  2 +-
 spdx/v2/v2_2/rdf/reader/parse_spdx_document.go |  2 +-
 spdx/v2/v2_3/rdf/reader/parse_annotation.go    | 12 ++++++++++++
 spdx/v2/v2_3/rdf/reader/parse_file.go          |  2 +-
 spdx/v2/v2_3/rdf/reader/parse_package.go       |  2 +-
 spdx/v2/v2_3/rdf/reader/parse_spdx_document.go |  2 +-
 8 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_annotation.go b/spdx/v2/v2_2/rdf/reader/parse_annotation.go
index bbbfc62..eaf1a26 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_annotation.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_annotation.go
@@ -10,6 +10,18 @@ import (
 	"github.com/spdx/tools-golang/spdx/v2/v2_2"
 )
 
+// creates a new annotation of the triple's subject from its object
+func (parser *rdfParser2_2) parseAnnotation(triple *gordfParser.Triple) error {
+	if err := parser.parseAnnotationFromNode(triple.Object); err != nil {
+		return err
+	}
+	if annotated, err := getReferenceFromURI(triple.Subject.ID); err == nil {
+		ann := parser.doc.Annotations[len(parser.doc.Annotations)-1]
+		ann.AnnotationSPDXIdentifier = annotated
+	}
+	return nil
+}
+
 // creates a new instance of annotation and sets the annotation attributes
 // associated with the given node.
 // The newly created annotation is appended to the doc.
diff --git a/spdx/v2/v2_2/rdf/reader/parse_file.go b/spdx/v2/v2_2/rdf/reader/parse_file.go
index 1de7718..35429df 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_file.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_file.go
@@ -118,7 +118,7 @@ func (parser *rdfParser2_2) getFileFromNode(fileNode *gordfParser.Node) (file *v
 			file.FileAttributionTexts = append(file.FileAttributionTexts, subTriple.Object.ID)
 		case SPDX_ANNOTATION:
 			// cardinality: min 0
-			err = parser.parseAnnotationFromNode(subTriple.Object)
+			err = parser.parseAnnotation(subTriple)
 		case SPDX_RELATIONSHIP:
 			// cardinality: min 0
 			err = parser.parseRelationship(subTriple)
diff --git a/spdx/v2/v2_2/rdf/reader/parse_package.go b/spdx/v2/v2_2/rdf/reader/parse_package.go
index c892cb1..4abd6e7 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_package.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_package.go
@@ -157,7 +157,7 @@ func (parser *rdfParser2_2) getPackageFromNode(packageNode *gordfParser.Node) (p
 			pkg.PackageAttributionTexts = append(pkg.PackageAttributionTexts, subTriple.Object.ID)
 		case SPDX_ANNOTATION:
 			// cardinality: min 0
-			err = parser.parseAnnotationFromNode(subTriple.Object)
+			err = parser.parseAnnotation(subTriple)
 		default:
 			return nil, fmt.Errorf("unknown predicate id %s while parsing a package", subTriple.Predicate.ID)
 		}
diff --git a/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go b/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go
index 653afdb..d12116c 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go
@@ -77,7 +77,7 @@ func (parser *rdfParser2_2) parseSpdxDocumentNode(spdxDocNode *gordfParser.Node)
 			err = parser.parseRelationship(subTriple)
 		case SPDX_ANNOTATION: // annotations
 			// cardinality: min 0
-			err = parser.parseAnnotationFromNode(subTriple.Object)
+			err = parser.parseAnnotation(subTriple)
 		default:
 			return fmt.Errorf("invalid predicate while parsing SpdxDocument: %v", subTriple.Predicate)
 		}
diff --git a/spdx/v2/v2_3/rdf/reader/parse_annotation.go b/spdx/v2/v2_3/rdf/reader/parse_annotation.go
index 012bcf5..43d7478 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_annotation.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_annotation.go
@@ -10,6 +10,18 @@ import (
 	spdx "github.com/spdx/tools-golang/spdx/v2/v2_3"
 )
 
+// creates a new annotation of the triple's subject from its object
+func (parser *rdfParser2_3) parseAnnotation(triple *gordfParser.Triple) error {
+	if err := parser.parseAnnotationFromNode(triple.Object); err != nil {
+		return err
+	}
+	if annotated, err := getReferenceFromURI(triple.Subject.ID); err == nil {
+		ann := parser.doc.Annotations[len(parser.doc.Annotations)-1]
+		ann.AnnotationSPDXIdentifier = annotated
+	}
+	return nil
+}
+
 // creates a new instance of annotation and sets the annotation attributes
 // associated with the given node.
 // The newly created annotation is appended to the doc.
diff --git a/spdx/v2/v2_3/rdf/reader/parse_file.go b/spdx/v2/v2_3/rdf/reader/parse_file.go
index 73f80b6..ed0384d 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_file.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_file.go
@@ -118,7 +118,7 @@ func (parser *rdfParser2_3) getFileFromNode(fileNode *gordfParser.Node) (file *s
 			file.FileAttributionTexts = append(file.FileAttributionTexts, subTriple.Object.ID)
 		case SPDX_ANNOTATION:
 			// cardinality: min 0
-			err = parser.parseAnnotationFromNode(subTriple.Object)
+			err = parser.parseAnnotation(subTriple)
 		case SPDX_RELATIONSHIP:
 			// cardinality: min 0
 			err = parser.parseRelationship(subTriple)
diff --git a/spdx/v2/v2_3/rdf/reader/parse_package.go b/spdx/v2/v2_3/rdf/reader/parse_package.go
index ce9a5b3..5d9dd21 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_package.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_package.go
@@ -169,7 +169,7 @@ func (parser *rdfParser2_3) getPackageFromNode(packageNode *gordfParser.Node) (p
 			pkg.PackageAttributionTexts = append(pkg.PackageAttributionTexts, subTriple.Object.ID)
 		case SPDX_ANNOTATION:
 			// cardinality: min 0
-			err = parser.parseAnnotationFromNode(subTriple.Object)
+			err = parser.parseAnnotation(subTriple)
 		default:
 			return nil, fmt.Errorf("unknown predicate id %s while parsing a package", subTriple.Predicate.ID)
 		}
diff --git a/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go b/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go
index 46b74d0..8a22668 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go
@@ -77,7 +77,7 @@ func (parser *rdfParser2_3) parseSpdxDocumentNode(spdxDocNode *gordfParser.Node)
 			err = parser.parseRelationship(subTriple)
 		case SPDX_ANNOTATION: // annotations
 			// cardinality: min 0
-			err = parser.parseAnnotationFromNode(subTriple.Object)
+			err = parser.parseAnnotation(subTriple)
 		default:
 			return fmt.Errorf("invalid predicate while parsing SpdxDocument: %v", subTriple.Predicate)
 		}
-- 
2.43.0


From df69acc32cb8ed9d591eb8a02dbf2a65b1ae77d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:32 +0000
Subject: [PATCH 34/61] fix: keep all ranges of a snippet read from RDF, and
 the file they are in

---
 spdx/v2/v2_2/rdf/reader/parse_snippet_info.go | 23 +++++++++----------
 spdx/v2/v2_3/rdf/reader/parse_snippet_info.go | 20 ++++++++--------
 2 files changed, 22 insertions(+), 21 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_snippet_info.go b/spdx/v2/v2_2/rdf/reader/parse_snippet_info.go
index bafb4dd..ab61943 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_snippet_info.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_snippet_info.go
@@ -34,9 +34,6 @@ func (parser *rdfParser2_2) getSnippetInformationFromNode2_2(node *gordfParser.N
 				return nil, err
 			}
 			docElemID, err := ExtractDocElementID(getLastPartOfURI(siTriple.Object.ID))
-			if err != nil {
-				return nil, err
-			}
 			si.SnippetFromFileSPDXIdentifier = docElemID.ElementRefID
 		case SPDX_RANGE:
 			// cardinality: min 1
@@ -73,6 +70,11 @@ func (parser *rdfParser2_2) getSnippetInformationFromNode2_2(node *gordfParser.N
 			return nil, fmt.Errorf("unknown predicate %v", siTriple.Predicate.ID)
 		}
 	}
+	// the file may come after the ranges
+	for i := range si.Ranges {
+		si.Ranges[i].StartPointer.FileSPDXIdentifier = si.SnippetFromFileSPDXIdentifier
+		si.Ranges[i].EndPointer.FileSPDXIdentifier = si.SnippetFromFileSPDXIdentifier
+	}
 	return si, nil
 }
 
@@ -137,18 +139,15 @@ func (parser *rdfParser2_2) setSnippetRangeFromNode(node *gordfParser.Node, si *
 		return fmt.Errorf("start and end range type doesn't match")
 	}
 
-	si.Ranges = []common.SnippetRange{{
-		StartPointer: common.SnippetRangePointer{FileSPDXIdentifier: si.SnippetFromFileSPDXIdentifier},
-		EndPointer:   common.SnippetRangePointer{FileSPDXIdentifier: si.SnippetFromFileSPDXIdentifier},
-	}}
-
+	var snippetRange common.SnippetRange
 	if startRangeType == LINE_RANGE {
-		si.Ranges[0].StartPointer.LineNumber = start
-		si.Ranges[0].EndPointer.LineNumber = end
+		snippetRange.StartPointer.LineNumber = start
+		snippetRange.EndPointer.LineNumber = end
 	} else {
-		si.Ranges[0].StartPointer.Offset = start
-		si.Ranges[0].EndPointer.Offset = end
+		snippetRange.StartPointer.Offset = start
+		snippetRange.EndPointer.Offset = end
 	}
+	si.Ranges = append(si.Ranges, snippetRange)
 	return nil
 }
 
diff --git a/spdx/v2/v2_3/rdf/reader/parse_snippet_info.go b/spdx/v2/v2_3/rdf/reader/parse_snippet_info.go
index 10f9be7..9bc39b4 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_snippet_info.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_snippet_info.go
@@ -70,6 +70,11 @@ func (parser *rdfParser2_3) getSnippetInformationFromNode2_3(node *gordfParser.N
 			return nil, fmt.Errorf("unknown predicate %v", siTriple.Predicate.ID)
 		}
 	}
+	// the file may come after the ranges
+	for i := range si.Ranges {
+		si.Ranges[i].StartPointer.FileSPDXIdentifier = si.SnippetFromFileSPDXIdentifier
+		si.Ranges[i].EndPointer.FileSPDXIdentifier = si.SnippetFromFileSPDXIdentifier
+	}
 	return si, nil
 }
 
@@ -134,18 +139,15 @@ func (parser *rdfParser2_3) setSnippetRangeFromNode(node *gordfParser.Node, si *
 		return fmt.Errorf("start and end range type doesn't match")
 	}
 
-	si.Ranges = []common.SnippetRange{{
-		StartPointer: common.SnippetRangePointer{FileSPDXIdentifier: si.SnippetFromFileSPDXIdentifier},
-		EndPointer:   common.SnippetRangePointer{FileSPDXIdentifier: si.SnippetFromFileSPDXIdentifier},
-	}}
-
+	var snippetRange common.SnippetRange
 	if startRangeType == LINE_RANGE {
-		si.Ranges[0].StartPointer.LineNumber = start
-		si.Ranges[0].EndPointer.LineNumber = end
+		snippetRange.StartPointer.LineNumber = start
+		snippetRange.EndPointer.LineNumber = end
 	} else {
-		si.Ranges[0].StartPointer.Offset = start
-		si.Ranges[0].EndPointer.Offset = end
+		snippetRange.StartPointer.Offset = start
+		snippetRange.EndPointer.Offset = end
 	}
+	si.Ranges = append(si.Ranges, snippetRange)
 	return nil
 }
 
-- 
2.43.0


From ac9031c7cbcecdefd55e105b1e36e43aec5f289d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:42 +0000
Subject: [PATCH 35/61] fix: read relationships to documents and snippets from
 RDF

---
 spdx/v2/v2_2/rdf/reader/parse_relationship.go | 3 +++
 spdx/v2/v2_3/rdf/reader/parse_relationship.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_relationship.go b/spdx/v2/v2_2/rdf/reader/parse_relationship.go
index 1523f27..db2f56a 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_relationship.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_relationship.go
@@ -117,6 +117,9 @@ func (parser *rdfParser2_2) parseRelatedElementFromTriple(reln *v2_2.Relationshi
 			ElementRefID:  pkg.PackageSPDXIdentifier,
 		}
 
+	case SPDX_SPDX_DOCUMENT_CAPITALIZED, SPDX_SNIPPET:
+		// these are read elsewhere; the reference is known already
+
 	case SPDX_SPDX_ELEMENT:
 		// it shouldn't be associated with any other triple.
 		// it must be a uri reference.
diff --git a/spdx/v2/v2_3/rdf/reader/parse_relationship.go b/spdx/v2/v2_3/rdf/reader/parse_relationship.go
index 2f2b39b..42f5c6c 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_relationship.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_relationship.go
@@ -117,6 +117,9 @@ func (parser *rdfParser2_3) parseRelatedElementFromTriple(reln *spdx.Relationshi
 			ElementRefID:  pkg.PackageSPDXIdentifier,
 		}
 
+	case SPDX_SPDX_DOCUMENT_CAPITALIZED, SPDX_SNIPPET:
+		// these are read elsewhere; the reference is known already
+
 	case SPDX_SPDX_ELEMENT:
 		// it shouldn't be associated with any other triple.
 		// it must be a uri reference.
-- 
2.43.0


From ef03b35dae06082f636a2c8bc75117f9ad72f9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:05 +0000
Subject: [PATCH 36/61] fix: read snippets of an RDF document that other
 elements refer to

---
 spdx/v2/v2_2/rdf/reader/parser.go | 22 +++++++++++++---------
 spdx/v2/v2_3/rdf/reader/parser.go | 22 +++++++++++++---------
 2 files changed, 26 insertions(+), 18 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/parser.go b/spdx/v2/v2_2/rdf/reader/parser.go
index 778daec..1984b48 100644
--- a/spdx/v2/v2_2/rdf/reader/parser.go
+++ b/spdx/v2/v2_2/rdf/reader/parser.go
@@ -64,15 +64,6 @@ func LoadFromGoRDFParser(gordfParserObj *gordfParser.Parser) (*v2_2.Document, er
 		switch typeTriples[0].Object.ID {
 		case SPDX_SPDX_DOCUMENT_CAPITALIZED:
 			continue // it is already parsed.
-		case SPDX_SNIPPET:
-			snippet, err := parser.getSnippetInformationFromNode2_2(typeTriples[0].Subject)
-			if err != nil {
-				return nil, fmt.Errorf("error parsing a snippet: %v", err)
-			}
-			err = parser.setSnippetToFileWithID(snippet, snippet.SnippetFromFileSPDXIdentifier)
-			if err != nil {
-				return nil, err
-			}
 		case SPDX_PACKAGE:
 			// nothing may refer to the package
 			if _, err := parser.getPackageFromNode(typeTriples[0].Subject); err != nil {
@@ -91,6 +82,19 @@ func LoadFromGoRDFParser(gordfParserObj *gordfParser.Parser) (*v2_2.Document, er
 		}
 	}
 
+	// parsing snippets: no other element needs to refer to them, but
+	// relationships may
+	for _, typeTriple := range gordfWriter.FilterTriples(gordfParserObj.Triples, nil, &RDF_TYPE, &SPDX_SNIPPET) {
+		snippet, err := parser.getSnippetInformationFromNode2_2(typeTriple.Subject)
+		if err != nil {
+			return nil, fmt.Errorf("error parsing a snippet: %v", err)
+		}
+		err = parser.setSnippetToFileWithID(snippet, snippet.SnippetFromFileSPDXIdentifier)
+		if err != nil {
+			return nil, err
+		}
+	}
+
 	// parsing packages and files sets the files to a files variable which is
 	// associated with the parser and not the document. following method is
 	// necessary to transfer the files which are not set in the packages to the
diff --git a/spdx/v2/v2_3/rdf/reader/parser.go b/spdx/v2/v2_3/rdf/reader/parser.go
index 5e700e5..7544257 100644
--- a/spdx/v2/v2_3/rdf/reader/parser.go
+++ b/spdx/v2/v2_3/rdf/reader/parser.go
@@ -64,15 +64,6 @@ func LoadFromGoRDFParser(gordfParserObj *gordfParser.Parser) (*spdx.Document, er
 		switch typeTriples[0].Object.ID {
 		case SPDX_SPDX_DOCUMENT_CAPITALIZED:
 			continue // it is already parsed.
-		case SPDX_SNIPPET:
-			snippet, err := parser.getSnippetInformationFromNode2_3(typeTriples[0].Subject)
-			if err != nil {
-				return nil, fmt.Errorf("error parsing a snippet: %v", err)
-			}
-			err = parser.setSnippetToFileWithID(snippet, snippet.SnippetFromFileSPDXIdentifier)
-			if err != nil {
-				return nil, err
-			}
 		case SPDX_PACKAGE:
 			// nothing may refer to the package
 			if _, err := parser.getPackageFromNode(typeTriples[0].Subject); err != nil {
@@ -91,6 +82,19 @@ func LoadFromGoRDFParser(gordfParserObj *gordfParser.Parser) (*spdx.Document, er
 		}
 	}
 
+	// parsing snippets: no other element needs to refer to them, but
+	// relationships may
+	for _, typeTriple := range gordfWriter.FilterTriples(gordfParserObj.Triples, nil, &RDF_TYPE, &SPDX_SNIPPET) {
+		snippet, err := parser.getSnippetInformationFromNode2_3(typeTriple.Subject)
+		if err != nil {
+			return nil, fmt.Errorf("error parsing a snippet: %v", err)
+		}
+		err = parser.setSnippetToFileWithID(snippet, snippet.SnippetFromFileSPDXIdentifier)
+		if err != nil {
+			return nil, err
+		}
+	}
+
 	// parsing packages and files sets the files to a files variable which is
 	// associated with the parser and not the document. following method is
 	// necessary to transfer the files which are not set in the packages to the
-- 
2.43.0


From eca24968deff14874276501277429bdcef5cfff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:12 +0000
Subject: [PATCH 37/61] fix: read relationships, annotations and attribution
 texts of snippets from RDF

---
 spdx/v2/v2_2/rdf/reader/parse_snippet_info.go | 15 +++++++++++++++
 spdx/v2/v2_3/rdf/reader/parse_snippet_info.go | 15 +++++++++++++++
 2 files changed, 30 insertions(+)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_snippet_info.go b/spdx/v2/v2_2/rdf/reader/parse_snippet_info.go
index ab61943..47c44f9 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_snippet_info.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_snippet_info.go
@@ -66,6 +66,21 @@ func (parser *rdfParser2_2) getSnippetInformationFromNode2_2(node *gordfParser.N
 				return nil, fmt.Errorf("error parsing license info in snippet: %v", err)
 			}
 			si.SnippetLicenseConcluded = anyLicense.ToLicenseString()
+		case SPDX_ATTRIBUTION_TEXT:
+			// cardinality: min 0
+			si.SnippetAttributionTexts = append(si.SnippetAttributionTexts, siTriple.Object.ID)
+		case SPDX_ANNOTATION:
+			// cardinality: min 0
+			err = parser.parseAnnotation(siTriple)
+			if err != nil {
+				return nil, err
+			}
+		case SPDX_RELATIONSHIP:
+			// cardinality: min 0
+			err = parser.parseRelationship(siTriple)
+			if err != nil {
+				return nil, err
+			}
 		default:
 			return nil, fmt.Errorf("unknown predicate %v", siTriple.Predicate.ID)
 		}
diff --git a/spdx/v2/v2_3/rdf/reader/parse_snippet_info.go b/spdx/v2/v2_3/rdf/reader/parse_snippet_info.go
index 9bc39b4..f2301fd 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_snippet_info.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_snippet_info.go
@@ -66,6 +66,21 @@ func (parser *rdfParser2_3) getSnippetInformationFromNode2_3(node *gordfParser.N
 				return nil, fmt.Errorf("error parsing license info in snippet: %v", err)
 			}
 			si.SnippetLicenseConcluded = anyLicense.ToLicenseString()
+		case SPDX_ATTRIBUTION_TEXT:
+			// cardinality: min 0
+			si.SnippetAttributionTexts = append(si.SnippetAttributionTexts, siTriple.Object.ID)
+		case SPDX_ANNOTATION:
+			// cardinality: min 0
+			err = parser.parseAnnotation(siTriple)
+			if err != nil {
+				return nil, err
+			}
+		case SPDX_RELATIONSHIP:
+			// cardinality: min 0
+			err = parser.parseRelationship(siTriple)
+			if err != nil {
+				return nil, err
+			}
 		default:
 			return nil, fmt.Errorf("unknown predicate %v", siTriple.Predicate.ID)
 		}
-- 
2.43.0


From c60c2265f6a66c05474c9b4cb3ee70115202a878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:20 +0000
Subject: [PATCH 38/61] fix: read all the checksum algorithms of SPDX 2.3 from
 RDF

---
 spdx/v2/v2_3/rdf/reader/license_utils.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/spdx/v2/v2_3/rdf/reader/license_utils.go b/spdx/v2/v2_3/rdf/reader/license_utils.go
index 0faa740..e90b285 100644
--- a/spdx/v2/v2_3/rdf/reader/license_utils.go
+++ b/spdx/v2/v2_3/rdf/reader/license_utils.go
@@ -62,6 +62,16 @@ func getAlgorithmFromURI(algorithmURI string) (checksumAlgorithm string, err err
 		checksumAlgorithm = strings.ToUpper(algorithm)
 	case "sha1", "sha224", "sha256", "sha384", "sha512":
 		checksumAlgorithm = strings.ToUpper(algorithm)
+	case "sha3_256", "sha3_384", "sha3_512":
+		checksumAlgorithm = strings.ReplaceAll(strings.ToUpper(algorithm), "_", "-")
+	case "blake2b256":
+		checksumAlgorithm = string(common.BLAKE2b_256)
+	case "blake2b384":
+		checksumAlgorithm = string(common.BLAKE2b_384)
+	case "blake2b512":
+		checksumAlgorithm = string(common.BLAKE2b_512)
+	case "blake3", "adler32":
+		checksumAlgorithm = strings.ToUpper(algorithm)
 	default:
 		return "", fmt.Errorf("unknown checksum algorithm %s", algorithm)
 	}
-- 
2.43.0


From 24325c1011727e1a8e7c1cff661b419495f889ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:51 +0000
Subject: [PATCH 39/61] fix: read the primary package purpose from RDF if it is
 given as a URI

---
 spdx/v2/v2_3/rdf/reader/parse_package.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spdx/v2/v2_3/rdf/reader/parse_package.go b/spdx/v2/v2_3/rdf/reader/parse_package.go
index 5d9dd21..fd3a3f6 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_package.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_package.go
@@ -228,7 +228,9 @@ func (parser *rdfParser2_3) getPackageExternalRef(node *gordfParser.Node) (exter
 }
 
 func getPrimaryPackagePurpose(purpose string) string {
-	value := strings.ReplaceAll(purpose, "packagePurpose_", "")
+	value := getLastPartOfURI(strings.TrimSpace(purpose))
+	value = strings.TrimPrefix(value, "packagePurpose_")
+	value = strings.TrimPrefix(value, "purpose_")
 	value = strings.ReplaceAll(value, "_", "-")
 	value = strings.ToUpper(value)
 	switch value {
-- 
2.43.0


From b69868b83ff243f3e13b9388d76a376d072808f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:58 +0000
Subject: [PATCH 40/61] fix: keep the exception of a license read from RDF

---
 spdx/v2/v2_2/rdf/reader/license_utils.go | 5 ++++-
 spdx/v2/v2_3/rdf/reader/license_utils.go | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/license_utils.go b/spdx/v2/v2_2/rdf/reader/license_utils.go
index 87633a0..70fa4aa 100644
--- a/spdx/v2/v2_2/rdf/reader/license_utils.go
+++ b/spdx/v2/v2_2/rdf/reader/license_utils.go
@@ -107,7 +107,10 @@ func (lic ListedLicense) ToLicenseString() string {
 }
 
 func (lic WithExceptionOperator) ToLicenseString() string {
-	return lic.member.ToLicenseString()
+	if lic.licenseException.licenseExceptionId == "" {
+		return lic.member.ToLicenseString()
+	}
+	return lic.member.ToLicenseString() + " WITH " + lic.licenseException.licenseExceptionId
 }
 
 func (lic SpecialLicense) ToLicenseString() string {
diff --git a/spdx/v2/v2_3/rdf/reader/license_utils.go b/spdx/v2/v2_3/rdf/reader/license_utils.go
index e90b285..2943654 100644
--- a/spdx/v2/v2_3/rdf/reader/license_utils.go
+++ b/spdx/v2/v2_3/rdf/reader/license_utils.go
@@ -117,7 +117,10 @@ func (lic ListedLicense) ToLicenseString() string {
 }
 
 func (lic WithExceptionOperator) ToLicenseString() string {
-	return lic.member.ToLicenseString()
+	if lic.licenseException.licenseExceptionId == "" {
+		return lic.member.ToLicenseString()
+	}
+	return lic.member.ToLicenseString() + " WITH " + lic.licenseException.licenseExceptionId
 }
 
 func (lic SpecialLicense) ToLicenseString() string {
-- 
2.43.0


From f8c9899e7571a6c49a28a8c05644604e2d36bb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:06 +0000
Subject: [PATCH 41/61] fix: put brackets around an OR inside an AND in
 licenses read from RDF

---
 spdx/v2/v2_2/rdf/reader/license_utils.go | 12 +++++++++---
 spdx/v2/v2_3/rdf/reader/license_utils.go | 12 +++++++++---
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/license_utils.go b/spdx/v2/v2_2/rdf/reader/license_utils.go
index 70fa4aa..8788791 100644
--- a/spdx/v2/v2_2/rdf/reader/license_utils.go
+++ b/spdx/v2/v2_2/rdf/reader/license_utils.go
@@ -80,12 +80,18 @@ func mapLicensesToStrings(licences []AnyLicenseInfo) []string {
 
 /****** Type Functions ******/
 
-// TODO: should probably add brackets while linearizing a nested license.
+// AND binds tighter than OR: only a nested disjunction needs brackets.
 func (lic ConjunctiveLicenseSet) ToLicenseString() string {
-	return strings.Join(mapLicensesToStrings(lic.members), " AND ")
+	members := mapLicensesToStrings(lic.members)
+	for i, member := range lic.members {
+		if _, ok := member.(DisjunctiveLicenseSet); ok && strings.Contains(members[i], " OR ") {
+			members[i] = "(" + members[i] + ")"
+		}
+	}
+	return strings.Join(members, " AND ")
 }
 
-// TODO: should probably add brackets while linearizing a nested license.
+// AND binds tighter than OR: a nested conjunction needs no brackets.
 func (lic DisjunctiveLicenseSet) ToLicenseString() string {
 	return strings.Join(mapLicensesToStrings(lic.members), " OR ")
 }
diff --git a/spdx/v2/v2_3/rdf/reader/license_utils.go b/spdx/v2/v2_3/rdf/reader/license_utils.go
index 2943654..c1a24e3 100644
--- a/spdx/v2/v2_3/rdf/reader/license_utils.go
+++ b/spdx/v2/v2_3/rdf/reader/license_utils.go
@@ -90,12 +90,18 @@ func mapLicensesToStrings(licences []AnyLicenseInfo) []string {
 
 /****** Type Functions ******/
 
-// TODO: should probably add brackets while linearizing a nested license.
+// AND binds tighter than OR: only a nested disjunction needs brackets.
 func (lic ConjunctiveLicenseSet) ToLicenseString() string {
-	return strings.Join(mapLicensesToStrings(lic.members), " AND ")
+	members := mapLicensesToStrings(lic.members)
+	for i, member := range lic.members {
+		if _, ok := member.(DisjunctiveLicenseSet); ok && strings.Contains(members[i], " OR ") {
+			members[i] = "(" + members[i] + ")"
+		}
+	}
+	return strings.Join(members, " AND ")
 }
 
-// TODO: should probably add brackets while linearizing a nested license.
+// AND binds tighter than OR: a nested conjunction needs no brackets.
 func (lic DisjunctiveLicenseSet) ToLicenseString() string {
 	return strings.Join(mapLicensesToStrings(lic.members), " OR ")
 }
-- 
2.43.0


From c891820f19917203a55152d72d790d498a0ba98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:45 +0000
Subject: [PATCH 42/61] fix: read the URI of a project that an RDF file refers
 to by rdf:resource

---
 spdx/v2/v2_2/rdf/reader/parse_file.go | 2 +-
 spdx/v2/v2_3/rdf/reader/parse_file.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_file.go b/spdx/v2/v2_2/rdf/reader/parse_file.go
index 35429df..81ea22e 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_file.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_file.go
@@ -163,7 +163,7 @@ func (parser *rdfParser2_2) setFileChecksumFromNode(file *v2_2.File, checksumNod
 func (parser *rdfParser2_2) getArtifactFromNode(node *gordfParser.Node) (*v2_2.ArtifactOfProject, error) {
 	artifactOf := &v2_2.ArtifactOfProject{}
 	// setting artifactOfProjectURI attribute (which is optional)
-	if node.NodeType == gordfParser.IRI {
+	if node.NodeType == gordfParser.IRI || node.NodeType == gordfParser.RESOURCELITERAL {
 		artifactOf.URI = node.ID
 	}
 	// parsing rest triples and attributes of the artifact.
diff --git a/spdx/v2/v2_3/rdf/reader/parse_file.go b/spdx/v2/v2_3/rdf/reader/parse_file.go
index ed0384d..c1ca067 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_file.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_file.go
@@ -171,7 +171,7 @@ func (parser *rdfParser2_3) setFileChecksumFromNode(file *spdx.File, checksumNod
 func (parser *rdfParser2_3) getArtifactFromNode(node *gordfParser.Node) (*spdx.ArtifactOfProject, error) {
 	artifactOf := &spdx.ArtifactOfProject{}
 	// setting artifactOfProjectURI attribute (which is optional)
-	if node.NodeType == gordfParser.IRI {
+	if node.NodeType == gordfParser.IRI || node.NodeType == gordfParser.RESOURCELITERAL {
 		artifactOf.URI = node.ID
 	}
 	// parsing rest triples and attributes of the artifact.
-- 
2.43.0


From 12add3434378a371a538ed2214ed415993d3eba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:05 +0000
Subject: [PATCH 43/61] fix: read external references of the category
 PERSISTENT-ID from RDF

---
 spdx/v2/v2_2/rdf/reader/constants.go     | 1 +
 spdx/v2/v2_2/rdf/reader/parse_package.go | 2 ++
 spdx/v2/v2_3/rdf/reader/constants.go     | 1 +
 spdx/v2/v2_3/rdf/reader/parse_package.go | 2 ++
 4 files changed, 6 insertions(+)

diff --git a/spdx/v2/v2_2/rdf/reader/constants.go b/spdx/v2/v2_2/rdf/reader/constants.go
index 045cc57..a820bde 100644
--- a/spdx/v2/v2_2/rdf/reader/constants.go
+++ b/spdx/v2/v2_2/rdf/reader/constants.go
@@ -84,6 +84,7 @@ var (
 	SPDX_REFERENCE_CATEGORY_PACKAGE_MANAGER      = NS_SPDX + "referenceCategory_packageManager"
 	SPDX_REFERENCE_CATEGORY_SECURITY             = NS_SPDX + "referenceCategory_security"
 	SPDX_REFERENCE_CATEGORY_OTHER                = NS_SPDX + "referenceCategory_other"
+	SPDX_REFERENCE_CATEGORY_PERSISTENT_ID        = NS_SPDX + "referenceCategory_persistentId"
 
 	SPDX_REFERENCE_TYPE                   = NS_SPDX + "referenceType"
 	SPDX_REFERENCE_LOCATOR                = NS_SPDX + "referenceLocator"
diff --git a/spdx/v2/v2_2/rdf/reader/parse_package.go b/spdx/v2/v2_2/rdf/reader/parse_package.go
index 4abd6e7..4598c89 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_package.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_package.go
@@ -187,6 +187,8 @@ func (parser *rdfParser2_2) getPackageExternalRef(node *gordfParser.Node) (exter
 				externalDocRef.Category = "SECURITY"
 			case SPDX_REFERENCE_CATEGORY_PACKAGE_MANAGER:
 				externalDocRef.Category = "PACKAGE-MANAGER"
+			case SPDX_REFERENCE_CATEGORY_PERSISTENT_ID:
+				externalDocRef.Category = "PERSISTENT-ID"
 			case SPDX_REFERENCE_CATEGORY_OTHER:
 				externalDocRef.Category = "OTHER"
 			default:
diff --git a/spdx/v2/v2_3/rdf/reader/constants.go b/spdx/v2/v2_3/rdf/reader/constants.go
index 94ed138..2c9eeec 100644
--- a/spdx/v2/v2_3/rdf/reader/constants.go
+++ b/spdx/v2/v2_3/rdf/reader/constants.go
@@ -88,6 +88,7 @@ var (
 	SPDX_REFERENCE_CATEGORY_PACKAGE_MANAGER      = NS_SPDX + "referenceCategory_packageManager"
 	SPDX_REFERENCE_CATEGORY_SECURITY             = NS_SPDX + "referenceCategory_security"
 	SPDX_REFERENCE_CATEGORY_OTHER                = NS_SPDX + "referenceCategory_other"
+	SPDX_REFERENCE_CATEGORY_PERSISTENT_ID        = NS_SPDX + "referenceCategory_persistentId"
 
 	SPDX_REFERENCE_TYPE                   = NS_SPDX + "referenceType"
 	SPDX_REFERENCE_LOCATOR                = NS_SPDX + "referenceLocator"
diff --git a/spdx/v2/v2_3/rdf/reader/parse_package.go b/spdx/v2/v2_3/rdf/reader/parse_package.go
index fd3a3f6..3b5d089 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_package.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_package.go
@@ -199,6 +199,8 @@ func (parser *rdfParser2_3) getPackageExternalRef(node *gordfParser.Node) (exter
 				externalDocRef.Category = "SECURITY"
 			case SPDX_REFERENCE_CATEGORY_PACKAGE_MANAGER:
 				externalDocRef.Category = "PACKAGE-MANAGER"
+			case SPDX_REFERENCE_CATEGORY_PERSISTENT_ID:
+				externalDocRef.Category = "PERSISTENT-ID"
 			case SPDX_REFERENCE_CATEGORY_OTHER:
 				externalDocRef.Category = "OTHER"
 			default:
-- 
2.43.0


From 99e95df5376f4aeb20b65654b1c6fbad0113fda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:44 +0000
Subject: [PATCH 44/61] fix: read copyright texts NONE and NOASSERTION from RDF
 as such

---
 spdx/v2/v2_2/rdf/reader/parse_file.go         | 15 +++++++++++++--
 spdx/v2/v2_2/rdf/reader/parse_package.go      |  2 +-
 spdx/v2/v2_2/rdf/reader/parse_snippet_info.go |  2 +-
 spdx/v2/v2_3/rdf/reader/parse_file.go         | 15 +++++++++++++--
 spdx/v2/v2_3/rdf/reader/parse_package.go      |  2 +-
 spdx/v2/v2_3/rdf/reader/parse_snippet_info.go |  2 +-
 6 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_file.go b/spdx/v2/v2_2/rdf/reader/parse_file.go
index 81ea22e..ecfca41 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_file.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_file.go
@@ -85,10 +85,9 @@ func (parser *rdfParser2_2) getFileFromNode(fileNode *gordfParser.Node) (file *v
 		case SPDX_LICENSE_COMMENTS: // 4.7
 			// cardinality: max 1
 			file.LicenseComments = subTriple.Object.ID
-		// TODO: allow copyright text to be of type NOASSERTION
 		case SPDX_COPYRIGHT_TEXT: // 4.8
 			// cardinality: exactly 1
-			file.FileCopyrightText = subTriple.Object.ID
+			file.FileCopyrightText = getCopyrightTextFromNode(subTriple.Object)
 		case SPDX_LICENSE_INFO_FROM_FILES:
 			// TODO: implement it. It is not defined in the tools-golang model.
 		// deprecated artifactOf (see sections 4.9, 4.10, 4.11)
@@ -212,6 +211,18 @@ func setFileIdentifier(idURI string, file *v2_2.File) (err error) {
 	return nil
 }
 
+// copyright texts of files, packages and snippets can be NONE or NOASSERTION
+func getCopyrightTextFromNode(node *gordfParser.Node) string {
+	switch node.ID {
+	case SPDX_NONE_CAPS, SPDX_NONE_SMALL:
+		return "NONE"
+	case SPDX_NOASSERTION_CAPS, SPDX_NOASSERTION_SMALL:
+		return "NOASSERTION"
+	default:
+		return node.ID
+	}
+}
+
 func getNoticeTextFromNode(node *gordfParser.Node) string {
 	switch node.ID {
 	case SPDX_NOASSERTION_CAPS, SPDX_NOASSERTION_SMALL:
diff --git a/spdx/v2/v2_2/rdf/reader/parse_package.go b/spdx/v2/v2_2/rdf/reader/parse_package.go
index 4598c89..b88dd0d 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_package.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_package.go
@@ -125,7 +125,7 @@ func (parser *rdfParser2_2) getPackageFromNode(packageNode *gordfParser.Node) (p
 			pkg.PackageLicenseComments = subTriple.Object.ID
 		case SPDX_COPYRIGHT_TEXT: // 3.17
 			// cardinality: exactly 1
-			pkg.PackageCopyrightText = subTriple.Object.ID
+			pkg.PackageCopyrightText = getCopyrightTextFromNode(subTriple.Object)
 		case SPDX_SUMMARY: // 3.18
 			// cardinality: max 1
 			pkg.PackageSummary = subTriple.Object.ID
diff --git a/spdx/v2/v2_2/rdf/reader/parse_snippet_info.go b/spdx/v2/v2_2/rdf/reader/parse_snippet_info.go
index 47c44f9..7c86381 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_snippet_info.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_snippet_info.go
@@ -54,7 +54,7 @@ func (parser *rdfParser2_2) getSnippetInformationFromNode2_2(node *gordfParser.N
 		case SPDX_NAME:
 			si.SnippetName = siTriple.Object.ID
 		case SPDX_COPYRIGHT_TEXT:
-			si.SnippetCopyrightText = siTriple.Object.ID
+			si.SnippetCopyrightText = getCopyrightTextFromNode(siTriple.Object)
 		case SPDX_LICENSE_COMMENTS:
 			si.SnippetLicenseComments = siTriple.Object.ID
 		case RDFS_COMMENT:
diff --git a/spdx/v2/v2_3/rdf/reader/parse_file.go b/spdx/v2/v2_3/rdf/reader/parse_file.go
index c1ca067..e7a5464 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_file.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_file.go
@@ -85,10 +85,9 @@ func (parser *rdfParser2_3) getFileFromNode(fileNode *gordfParser.Node) (file *s
 		case SPDX_LICENSE_COMMENTS: // 4.7
 			// cardinality: max 1
 			file.LicenseComments = subTriple.Object.ID
-		// TODO: allow copyright text to be of type NOASSERTION
 		case SPDX_COPYRIGHT_TEXT: // 4.8
 			// cardinality: exactly 1
-			file.FileCopyrightText = subTriple.Object.ID
+			file.FileCopyrightText = getCopyrightTextFromNode(subTriple.Object)
 		case SPDX_LICENSE_INFO_FROM_FILES:
 			// TODO: implement it. It is not defined in the tools-golang model.
 		// deprecated artifactOf (see sections 4.9, 4.10, 4.11)
@@ -220,6 +219,18 @@ func setFileIdentifier(idURI string, file *spdx.File) (err error) {
 	return nil
 }
 
+// copyright texts of files, packages and snippets can be NONE or NOASSERTION
+func getCopyrightTextFromNode(node *gordfParser.Node) string {
+	switch node.ID {
+	case SPDX_NONE_CAPS, SPDX_NONE_SMALL:
+		return "NONE"
+	case SPDX_NOASSERTION_CAPS, SPDX_NOASSERTION_SMALL:
+		return "NOASSERTION"
+	default:
+		return node.ID
+	}
+}
+
 func getNoticeTextFromNode(node *gordfParser.Node) string {
 	switch node.ID {
 	case SPDX_NOASSERTION_CAPS, SPDX_NOASSERTION_SMALL:
diff --git a/spdx/v2/v2_3/rdf/reader/parse_package.go b/spdx/v2/v2_3/rdf/reader/parse_package.go
index 3b5d089..747ba37 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_package.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_package.go
@@ -125,7 +125,7 @@ func (parser *rdfParser2_3) getPackageFromNode(packageNode *gordfParser.Node) (p
 			pkg.PackageLicenseComments = subTriple.Object.ID
 		case SPDX_COPYRIGHT_TEXT: // 7.17
 			// cardinality: exactly 1
-			pkg.PackageCopyrightText = subTriple.Object.ID
+			pkg.PackageCopyrightText = getCopyrightTextFromNode(subTriple.Object)
 		case SPDX_SUMMARY: // 7.18
 			// cardinality: max 1
 			pkg.PackageSummary = subTriple.Object.ID
diff --git a/spdx/v2/v2_3/rdf/reader/parse_snippet_info.go b/spdx/v2/v2_3/rdf/reader/parse_snippet_info.go
index f2301fd..6a2e438 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_snippet_info.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_snippet_info.go
@@ -54,7 +54,7 @@ func (parser *rdfParser2_3) getSnippetInformationFromNode2_3(node *gordfParser.N
 		case SPDX_NAME:
 			si.SnippetName = siTriple.Object.ID
 		case SPDX_COPYRIGHT_TEXT:
-			si.SnippetCopyrightText = siTriple.Object.ID
+			si.SnippetCopyrightText = getCopyrightTextFromNode(siTriple.Object)
 		case SPDX_LICENSE_COMMENTS:
 			si.SnippetLicenseComments = siTriple.Object.ID
 		case RDFS_COMMENT:
-- 
2.43.0


From 320bd120aedaa6e53e2d45691a03ffcf264a47f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:52 +0000
Subject: [PATCH 45/61] fix: spell the types of files read from RDF like the
 other formats

---
 spdx/v2/v2_2/rdf/reader/parse_file.go | 10 ++++++++++
 spdx/v2/v2_2/rdf/reader/parser.go     |  1 +
 spdx/v2/v2_3/rdf/reader/parse_file.go | 10 ++++++++++
 spdx/v2/v2_3/rdf/reader/parser.go     |  1 +
 4 files changed, 22 insertions(+)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_file.go b/spdx/v2/v2_2/rdf/reader/parse_file.go
index ecfca41..52d9988 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_file.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_file.go
@@ -190,6 +190,16 @@ func (parser *rdfParser2_2) getFileTypeFromUri(uri string) (string, error) {
 	return strings.TrimPrefix(lastPart, "fileType_"), nil
 }
 
+// RDF spells the types of files in a way of its own (fileType_source):
+// in the document, they are spelled as in all the other formats (SOURCE).
+func (parser *rdfParser2_2) setFileTypes() {
+	for _, file := range parser.files {
+		for i := range file.FileTypes {
+			file.FileTypes[i] = strings.ToUpper(file.FileTypes[i])
+		}
+	}
+}
+
 // populates parser.doc.Files by a list of files which are not
 // associated with a package by the hasFile attribute
 // assumes: all the packages are already parsed.
diff --git a/spdx/v2/v2_2/rdf/reader/parser.go b/spdx/v2/v2_2/rdf/reader/parser.go
index 1984b48..6d06629 100644
--- a/spdx/v2/v2_2/rdf/reader/parser.go
+++ b/spdx/v2/v2_2/rdf/reader/parser.go
@@ -100,6 +100,7 @@ func LoadFromGoRDFParser(gordfParserObj *gordfParser.Parser) (*v2_2.Document, er
 	// necessary to transfer the files which are not set in the packages to the
 	// Files attribute of the document
 	// WARNING: do not relocate following function call. It must be at the end of the function
+	parser.setFileTypes()
 	parser.setUnpackagedFiles()
 	parser.setRelationshipTypes()
 	parser.setExternalElements()
diff --git a/spdx/v2/v2_3/rdf/reader/parse_file.go b/spdx/v2/v2_3/rdf/reader/parse_file.go
index e7a5464..d06e905 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_file.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_file.go
@@ -198,6 +198,16 @@ func (parser *rdfParser2_3) getFileTypeFromUri(uri string) (string, error) {
 	return strings.TrimPrefix(lastPart, "fileType_"), nil
 }
 
+// RDF spells the types of files in a way of its own (fileType_source):
+// in the document, they are spelled as in all the other formats (SOURCE).
+func (parser *rdfParser2_3) setFileTypes() {
+	for _, file := range parser.files {
+		for i := range file.FileTypes {
+			file.FileTypes[i] = strings.ToUpper(file.FileTypes[i])
+		}
+	}
+}
+
 // populates parser.doc.Files by a list of files which are not
 // associated with a package by the hasFile attribute
 // assumes: all the packages are already parsed.
diff --git a/spdx/v2/v2_3/rdf/reader/parser.go b/spdx/v2/v2_3/rdf/reader/parser.go
index 7544257..1c5a3a6 100644
--- a/spdx/v2/v2_3/rdf/reader/parser.go
+++ b/spdx/v2/v2_3/rdf/reader/parser.go
@@ -100,6 +100,7 @@ func LoadFromGoRDFParser(gordfParserObj *gordfParser.Parser) (*spdx.Document, er
 	// necessary to transfer the files which are not set in the packages to the
 	// Files attribute of the document
 	// WARNING: do not relocate following function call. It must be at the end of the function
+	parser.setFileTypes()
 	parser.setUnpackagedFiles()
 	parser.setRelationshipTypes()
 	parser.setExternalElements()
-- 
2.43.0


From c00cc638fdc12e82f383312e0959b350ea2f84d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:52 +0000
Subject: [PATCH 46/61] fix: read packages and files of an RDF document that
 only refer to each other

---
 spdx/v2/v2_2/rdf/reader/parser.go | 34 ++++++++++++-------------------
 spdx/v2/v2_3/rdf/reader/parser.go | 34 ++++++++++++-------------------
 2 files changed, 26 insertions(+), 42 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/parser.go b/spdx/v2/v2_2/rdf/reader/parser.go
index 6d06629..502a7b7 100644
--- a/spdx/v2/v2_2/rdf/reader/parser.go
+++ b/spdx/v2/v2_2/rdf/reader/parser.go
@@ -55,35 +55,27 @@ func LoadFromGoRDFParser(gordfParserObj *gordfParser.Parser) (*v2_2.Document, er
 		return nil, err
 	}
 
-	// parsing other root elements
+	// checking the root elements
 	for _, rootNode := range gordfWriter.GetRootNodes(parser.gordfParserObj.Triples) {
 		typeTriples := gordfWriter.FilterTriples(gordfParserObj.Triples, &rootNode.ID, &RDF_TYPE, nil)
 		if len(typeTriples) != 1 {
 			return nil, fmt.Errorf("every node must be associated with exactly 1 type Triple. found %d type triples", len(typeTriples))
 		}
-		switch typeTriples[0].Object.ID {
-		case SPDX_SPDX_DOCUMENT_CAPITALIZED:
-			continue // it is already parsed.
-		case SPDX_PACKAGE:
-			// nothing may refer to the package
-			if _, err := parser.getPackageFromNode(typeTriples[0].Subject); err != nil {
-				return nil, fmt.Errorf("error parsing a package: %v", err)
-			}
-		case SPDX_FILE:
-			// nothing may refer to the file
-			if _, err := parser.getFileFromNode(typeTriples[0].Subject); err != nil {
-				return nil, fmt.Errorf("error parsing a file: %v", err)
-			}
 		// todo: check other root node attributes.
-		default:
-			continue
-			// because in rdf it is quite possible that the root node is an
-			// element that has been used in the some other element as a child
-		}
 	}
 
-	// parsing snippets: no other element needs to refer to them, but
-	// relationships may
+	// parsing packages, files and snippets that the document doesn't refer to,
+	// be they root elements or not
+	for _, typeTriple := range gordfWriter.FilterTriples(gordfParserObj.Triples, nil, &RDF_TYPE, &SPDX_PACKAGE) {
+		if _, err := parser.getPackageFromNode(typeTriple.Subject); err != nil {
+			return nil, fmt.Errorf("error parsing a package: %v", err)
+		}
+	}
+	for _, typeTriple := range gordfWriter.FilterTriples(gordfParserObj.Triples, nil, &RDF_TYPE, &SPDX_FILE) {
+		if _, err := parser.getFileFromNode(typeTriple.Subject); err != nil {
+			return nil, fmt.Errorf("error parsing a file: %v", err)
+		}
+	}
 	for _, typeTriple := range gordfWriter.FilterTriples(gordfParserObj.Triples, nil, &RDF_TYPE, &SPDX_SNIPPET) {
 		snippet, err := parser.getSnippetInformationFromNode2_2(typeTriple.Subject)
 		if err != nil {
diff --git a/spdx/v2/v2_3/rdf/reader/parser.go b/spdx/v2/v2_3/rdf/reader/parser.go
index 1c5a3a6..4f7e63e 100644
--- a/spdx/v2/v2_3/rdf/reader/parser.go
+++ b/spdx/v2/v2_3/rdf/reader/parser.go
@@ -55,35 +55,27 @@ func LoadFromGoRDFParser(gordfParserObj *gordfParser.Parser) (*spdx.Document, er
 		return nil, err
 	}
 
-	// parsing other root elements
+	// checking the root elements
 	for _, rootNode := range gordfWriter.GetRootNodes(parser.gordfParserObj.Triples) {
 		typeTriples := gordfWriter.FilterTriples(gordfParserObj.Triples, &rootNode.ID, &RDF_TYPE, nil)
 		if len(typeTriples) != 1 {
 			return nil, fmt.Errorf("every node must be associated with exactly 1 type Triple. found %d type triples", len(typeTriples))
 		}
-		switch typeTriples[0].Object.ID {
-		case SPDX_SPDX_DOCUMENT_CAPITALIZED:
-			continue // it is already parsed.
-		case SPDX_PACKAGE:
-			// nothing may refer to the package
-			if _, err := parser.getPackageFromNode(typeTriples[0].Subject); err != nil {
-				return nil, fmt.Errorf("error parsing a package: %v", err)
-			}
-		case SPDX_FILE:
-			// nothing may refer to the file
-			if _, err := parser.getFileFromNode(typeTriples[0].Subject); err != nil {
-				return nil, fmt.Errorf("error parsing a file: %v", err)
-			}
 		// todo: check other root node attributes.
-		default:
-			continue
-			// because in rdf it is quite possible that the root node is an
-			// element that has been used in the some other element as a child
-		}
 	}
 
-	// parsing snippets: no other element needs to refer to them, but
-	// relationships may
+	// parsing packages, files and snippets that the document doesn't refer to,
+	// be they root elements or not
+	for _, typeTriple := range gordfWriter.FilterTriples(gordfParserObj.Triples, nil, &RDF_TYPE, &SPDX_PACKAGE) {
+		if _, err := parser.getPackageFromNode(typeTriple.Subject); err != nil {
+			return nil, fmt.Errorf("error parsing a package: %v", err)
+		}
+	}
+	for _, typeTriple := range gordfWriter.FilterTriples(gordfParserObj.Triples, nil, &RDF_TYPE, &SPDX_FILE) {
+		if _, err := parser.getFileFromNode(typeTriple.Subject); err != nil {
+			return nil, fmt.Errorf("error parsing a file: %v", err)
+		}
+	}
 	for _, typeTriple := range gordfWriter.FilterTriples(gordfParserObj.Triples, nil, &RDF_TYPE, &SPDX_SNIPPET) {
 		snippet, err := parser.getSnippetInformationFromNode2_3(typeTriple.Subject)
 		if err != nil {
-- 
2.43.0


From fe0e222f644118e3f6640cc6302b0327924541a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:11 +0000
Subject: [PATCH 47/61] fix: read RDF documents that one of their elements
 contains

---
 spdx/v2/v2_2/rdf/reader/parser.go | 13 +++++++++++++
 spdx/v2/v2_3/rdf/reader/parser.go | 13 +++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/spdx/v2/v2_2/rdf/reader/parser.go b/spdx/v2/v2_2/rdf/reader/parser.go
index 502a7b7..bbbb7c9 100644
--- a/spdx/v2/v2_2/rdf/reader/parser.go
+++ b/spdx/v2/v2_2/rdf/reader/parser.go
@@ -137,6 +137,19 @@ func (parser *rdfParser2_2) getSpdxDocNode() (node *gordfParser.Node, err error)
 			spdxDocNode = typeTriples[0].Subject
 		}
 	}
+	if spdxDocNode == nil {
+		// it isn't a root node if an element of the document contains it
+		for _, typeTriple := range gordfWriter.FilterTriples(parser.gordfParserObj.Triples, nil, &RDF_TYPE, &SPDX_SPDX_DOCUMENT_CAPITALIZED) {
+			if spdxDocNode != nil && spdxDocNode.ID != typeTriple.Subject.ID {
+				return nil, fmt.Errorf("found more than one SpdxDocument Node (%v and %v)", spdxDocNode, typeTriple.Subject)
+			}
+			spdxDocNode = typeTriple.Subject
+			if types := gordfWriter.FilterTriples(parser.gordfParserObj.Triples, &spdxDocNode.ID, &RDF_TYPE, nil); len(types) != 1 {
+				return nil, fmt.Errorf("%v must be associated with exactly one"+
+					" triple of predicate rdf:type, found %d triples", spdxDocNode, len(types))
+			}
+		}
+	}
 	if spdxDocNode == nil {
 		return nil, errors.New("RDF files must be associated with a SpdxDocument tag. No tag found")
 	}
diff --git a/spdx/v2/v2_3/rdf/reader/parser.go b/spdx/v2/v2_3/rdf/reader/parser.go
index 4f7e63e..dc4538e 100644
--- a/spdx/v2/v2_3/rdf/reader/parser.go
+++ b/spdx/v2/v2_3/rdf/reader/parser.go
@@ -137,6 +137,19 @@ func (parser *rdfParser2_3) getSpdxDocNode() (node *gordfParser.Node, err error)
 			spdxDocNode = typeTriples[0].Subject
 		}
 	}
+	if spdxDocNode == nil {
+		// it isn't a root node if an element of the document contains it
+		for _, typeTriple := range gordfWriter.FilterTriples(parser.gordfParserObj.Triples, nil, &RDF_TYPE, &SPDX_SPDX_DOCUMENT_CAPITALIZED) {
+			if spdxDocNode != nil && spdxDocNode.ID != typeTriple.Subject.ID {
+				return nil, fmt.Errorf("found more than one SpdxDocument Node (%v and %v)", spdxDocNode, typeTriple.Subject)
+			}
+			spdxDocNode = typeTriple.Subject
+			if types := gordfWriter.FilterTriples(parser.gordfParserObj.Triples, &spdxDocNode.ID, &RDF_TYPE, nil); len(types) != 1 {
+				return nil, fmt.Errorf("%v must be associated with exactly one"+
+					" triple of predicate rdf:type, found %d triples", spdxDocNode, len(types))
+			}
+		}
+	}
 	if spdxDocNode == nil {
 		return nil, errors.New("RDF files must be associated with a SpdxDocument tag. No tag found")
 	}
-- 
2.43.0


From ff2d14195f92b198ed66756d1d6418cdf752cded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:59 +0000
Subject: [PATCH 48/61] fix: read all the kinds of licenses that operators
 apply to from RDF

---
 spdx/v2/v2_2/rdf/reader/parse_license.go | 34 ++++++++++++++++++++++--
 spdx/v2/v2_3/rdf/reader/parse_license.go | 34 ++++++++++++++++++++++--
 2 files changed, 64 insertions(+), 4 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_license.go b/spdx/v2/v2_2/rdf/reader/parse_license.go
index 0f80ed2..c671a50 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_license.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_license.go
@@ -104,6 +104,36 @@ func (parser *rdfParser2_2) getSimpleLicensingInfoFromNode(node *gordfParser.Nod
 	return parser.getSimpleLicensingInfoFromTriples(simpleLicensingTriples)
 }
 
+// returns the license that an operator applies to: it may be described in the
+// document or not, and have more properties than a SimpleLicensingInfo
+func (parser *rdfParser2_2) getOperandFromNode(node *gordfParser.Node) (SimpleLicensingInfo, error) {
+	associatedTriples := rdfwriter.FilterTriples(parser.gordfParserObj.Triples, &node.ID, nil, nil)
+	if len(associatedTriples) == 0 {
+		lic, err := parser.getSpecialLicenseFromNode(node)
+		return SimpleLicensingInfo{licenseID: lic.ToLicenseString()}, err
+	}
+	nodeType, err := getNodeTypeFromTriples(associatedTriples, node)
+	if err != nil {
+		return SimpleLicensingInfo{}, err
+	}
+	switch nodeType {
+	case SPDX_LISTED_LICENSE, SPDX_LICENSE:
+		lic, err := parser.getLicenseFromNode(node)
+		return lic.SimpleLicensingInfo, err
+	case SPDX_EXTRACTED_LICENSING_INFO:
+		lic, err := parser.getExtractedLicensingInfoFromNode(node)
+		return lic.SimpleLicensingInfo, err
+	case SPDX_OR_LATER_OPERATOR:
+		// getAnyLicenseFromNode detects operators that apply to themselves
+		lic, err := parser.getAnyLicenseFromNode(node)
+		if err != nil {
+			return SimpleLicensingInfo{}, err
+		}
+		return SimpleLicensingInfo{licenseID: lic.ToLicenseString()}, nil
+	}
+	return parser.getSimpleLicensingInfoFromTriples(associatedTriples)
+}
+
 func (parser *rdfParser2_2) getWithExceptionOperatorFromNode(node *gordfParser.Node) (operator WithExceptionOperator, err error) {
 	associatedTriples := rdfwriter.FilterTriples(parser.gordfParserObj.Triples, &node.ID, nil, nil)
 	var memberFound bool
@@ -117,7 +147,7 @@ func (parser *rdfParser2_2) getWithExceptionOperatorFromNode(node *gordfParser.N
 					fmt.Errorf("more than one member found in the WithExceptionOperator (expected only 1)")
 			}
 			memberFound = true
-			member, err := parser.getSimpleLicensingInfoFromNode(triple.Object)
+			member, err := parser.getOperandFromNode(triple.Object)
 			if err != nil {
 				return operator, fmt.Errorf("error parsing member of a WithExceptionOperator: %v", err)
 			}
@@ -145,7 +175,7 @@ func (parser *rdfParser2_2) getOrLaterOperatorFromNode(node *gordfParser.Node) (
 		case RDF_TYPE:
 			continue
 		case SPDX_MEMBER:
-			operator.member, err = parser.getSimpleLicensingInfoFromNode(triple.Object)
+			operator.member, err = parser.getOperandFromNode(triple.Object)
 			if err != nil {
 				return operator, fmt.Errorf("error parsing simpleLicensingInfo of OrLaterOperator: %v", err)
 			}
diff --git a/spdx/v2/v2_3/rdf/reader/parse_license.go b/spdx/v2/v2_3/rdf/reader/parse_license.go
index ae50105..af49301 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_license.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_license.go
@@ -104,6 +104,36 @@ func (parser *rdfParser2_3) getSimpleLicensingInfoFromNode(node *gordfParser.Nod
 	return parser.getSimpleLicensingInfoFromTriples(simpleLicensingTriples)
 }
 
+// returns the license that an operator applies to: it may be described in the
+// document or not, and have more properties than a SimpleLicensingInfo
+func (parser *rdfParser2_3) getOperandFromNode(node *gordfParser.Node) (SimpleLicensingInfo, error) {
+	associatedTriples := rdfwriter.FilterTriples(parser.gordfParserObj.Triples, &node.ID, nil, nil)
+	if len(associatedTriples) == 0 {
+		lic, err := parser.getSpecialLicenseFromNode(node)
+		return SimpleLicensingInfo{licenseID: lic.ToLicenseString()}, err
+	}
+	nodeType, err := getNodeTypeFromTriples(associatedTriples, node)
+	if err != nil {
+		return SimpleLicensingInfo{}, err
+	}
+	switch nodeType {
+	case SPDX_LISTED_LICENSE, SPDX_LICENSE:
+		lic, err := parser.getLicenseFromNode(node)
+		return lic.SimpleLicensingInfo, err
+	case SPDX_EXTRACTED_LICENSING_INFO:
+		lic, err := parser.getExtractedLicensingInfoFromNode(node)
+		return lic.SimpleLicensingInfo, err
+	case SPDX_OR_LATER_OPERATOR:
+		// getAnyLicenseFromNode detects operators that apply to themselves
+		lic, err := parser.getAnyLicenseFromNode(node)
+		if err != nil {
+			return SimpleLicensingInfo{}, err
+		}
+		return SimpleLicensingInfo{licenseID: lic.ToLicenseString()}, nil
+	}
+	return parser.getSimpleLicensingInfoFromTriples(associatedTriples)
+}
+
 func (parser *rdfParser2_3) getWithExceptionOperatorFromNode(node *gordfParser.Node) (operator WithExceptionOperator, err error) {
 	associatedTriples := rdfwriter.FilterTriples(parser.gordfParserObj.Triples, &node.ID, nil, nil)
 	var memberFound bool
@@ -117,7 +147,7 @@ func (parser *rdfParser2_3) getWithExceptionOperatorFromNode(node *gordfParser.N
 					fmt.Errorf("more than one member found in the WithExceptionOperator (expected only 1)")
 			}
 			memberFound = true
-			member, err := parser.getSimpleLicensingInfoFromNode(triple.Object)
+			member, err := parser.getOperandFromNode(triple.Object)
 			if err != nil {
 				return operator, fmt.Errorf("error parsing member of a WithExceptionOperator: %v", err)
 			}
@@ -145,7 +175,7 @@ func (parser *rdfParser2_3) getOrLaterOperatorFromNode(node *gordfParser.Node) (
 		case RDF_TYPE:
 			continue
 		case SPDX_MEMBER:
-			operator.member, err = parser.getSimpleLicensingInfoFromNode(triple.Object)
+			operator.member, err = parser.getOperandFromNode(triple.Object)
 			if err != nil {
 				return operator, fmt.Errorf("error parsing simpleLicensingInfo of OrLaterOperator: %v", err)
 			}
-- 
2.43.0


From bfc4caf9cc9145f46508de3e5be3afaf0599bd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:38 +0000
Subject: [PATCH 49/61] fix: read license exceptions that RDF refers to by
 rdf:resource

---
 spdx/v2/v2_2/rdf/reader/parse_license.go | 4 ++++
 spdx/v2/v2_3/rdf/reader/parse_license.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_license.go b/spdx/v2/v2_2/rdf/reader/parse_license.go
index c671a50..81f3d40 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_license.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_license.go
@@ -72,6 +72,10 @@ func (parser *rdfParser2_2) getAnyLicenseFromNode(node *gordfParser.Node) (AnyLi
 
 func (parser *rdfParser2_2) getLicenseExceptionFromNode(node *gordfParser.Node) (exception LicenseException, err error) {
 	associatedTriples := rdfwriter.FilterTriples(parser.gordfParserObj.Triples, &node.ID, nil, nil)
+	if len(associatedTriples) == 0 {
+		// just the uri of a listed exception was found.
+		exception.licenseExceptionId = getLastPartOfURI(strings.TrimSpace(node.ID))
+	}
 	for _, triple := range associatedTriples {
 		value := triple.Object.ID
 		switch triple.Predicate.ID {
diff --git a/spdx/v2/v2_3/rdf/reader/parse_license.go b/spdx/v2/v2_3/rdf/reader/parse_license.go
index af49301..9ee2e0b 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_license.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_license.go
@@ -72,6 +72,10 @@ func (parser *rdfParser2_3) getAnyLicenseFromNode(node *gordfParser.Node) (AnyLi
 
 func (parser *rdfParser2_3) getLicenseExceptionFromNode(node *gordfParser.Node) (exception LicenseException, err error) {
 	associatedTriples := rdfwriter.FilterTriples(parser.gordfParserObj.Triples, &node.ID, nil, nil)
+	if len(associatedTriples) == 0 {
+		// just the uri of a listed exception was found.
+		exception.licenseExceptionId = getLastPartOfURI(strings.TrimSpace(node.ID))
+	}
 	for _, triple := range associatedTriples {
 		value := triple.Object.ID
 		switch triple.Predicate.ID {
-- 
2.43.0


From 4afc198acfcfde405ddd84cf9ea2230a7fb5b18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:34 +0000
Subject: [PATCH 50/61] fix: do not panic when writing nil elements of a
 document as tag-value

---
 spdx/v2/v2_1/tagvalue/writer/save_document.go | 22 ++++++++++---------
 spdx/v2/v2_1/tagvalue/writer/save_file.go     |  6 +++--
 spdx/v2/v2_1/tagvalue/writer/save_package.go  |  9 ++++----
 spdx/v2/v2_1/tagvalue/writer/util.go          | 15 +++++++++++++
 spdx/v2/v2_2/tagvalue/writer/save_document.go | 22 ++++++++++---------
 spdx/v2/v2_2/tagvalue/writer/save_file.go     |  6 +++--
 spdx/v2/v2_2/tagvalue/writer/save_package.go  |  9 ++++----
 spdx/v2/v2_2/tagvalue/writer/util.go          | 15 +++++++++++++
 spdx/v2/v2_3/tagvalue/writer/save_document.go | 22 ++++++++++---------
 spdx/v2/v2_3/tagvalue/writer/save_file.go     |  6 +++--
 spdx/v2/v2_3/tagvalue/writer/save_package.go  |  9 ++++----
 spdx/v2/v2_3/tagvalue/writer/util.go          | 15 +++++++++++++
 12 files changed, 108 insertions(+), 48 deletions(-)

diff --git a/spdx/v2/v2_1/tagvalue/writer/save_document.go b/spdx/v2/v2_1/tagvalue/writer/save_document.go
index f5ef79f..5e8ab21 100644
--- a/spdx/v2/v2_1/tagvalue/writer/save_document.go
+++ b/spdx/v2/v2_1/tagvalue/writer/save_document.go
@@ -53,33 +53,35 @@ func RenderDocument(doc *spdx.Document, w io.Writer) error {
 
 	if len(doc.Files) > 0 {
 		fmt.Fprintf(w, "##### Unpackaged files\n\n")
-		sort.Slice(doc.Files, func(i, j int) bool {
-			return doc.Files[i].FileSPDXIdentifier < doc.Files[j].FileSPDXIdentifier
+		files := nonNil(doc.Files)
+		sort.Slice(files, func(i, j int) bool {
+			return files[i].FileSPDXIdentifier < files[j].FileSPDXIdentifier
 		})
-		for _, fi := range doc.Files {
+		for _, fi := range files {
 			renderFile(fi, w)
 		}
 	}
 
 	// sort Packages by identifier
-	sort.Slice(doc.Packages, func(i, j int) bool {
-		return doc.Packages[i].PackageSPDXIdentifier < doc.Packages[j].PackageSPDXIdentifier
+	packages := nonNil(doc.Packages)
+	sort.Slice(packages, func(i, j int) bool {
+		return packages[i].PackageSPDXIdentifier < packages[j].PackageSPDXIdentifier
 	})
-	for _, pkg := range doc.Packages {
+	for _, pkg := range packages {
 		fmt.Fprintf(w, "##### Package: %s\n\n", pkg.PackageName)
 		renderPackage(pkg, w)
 	}
 
 	if len(doc.OtherLicenses) > 0 {
 		fmt.Fprintf(w, "##### Other Licenses\n\n")
-		for _, ol := range doc.OtherLicenses {
+		for _, ol := range nonNil(doc.OtherLicenses) {
 			renderOtherLicense(ol, w)
 		}
 	}
 
 	if len(doc.Relationships) > 0 {
 		fmt.Fprintf(w, "##### Relationships\n\n")
-		for _, rln := range doc.Relationships {
+		for _, rln := range nonNil(doc.Relationships) {
 			renderRelationship(rln, w)
 		}
 		fmt.Fprintf(w, "\n")
@@ -87,7 +89,7 @@ func RenderDocument(doc *spdx.Document, w io.Writer) error {
 
 	if len(doc.Annotations) > 0 {
 		fmt.Fprintf(w, "##### Annotations\n\n")
-		for _, ann := range doc.Annotations {
+		for _, ann := range nonNil(doc.Annotations) {
 			renderAnnotation(ann, w)
 			fmt.Fprintf(w, "\n")
 		}
@@ -95,7 +97,7 @@ func RenderDocument(doc *spdx.Document, w io.Writer) error {
 
 	if len(doc.Reviews) > 0 {
 		fmt.Fprintf(w, "##### Reviews\n\n")
-		for _, rev := range doc.Reviews {
+		for _, rev := range nonNil(doc.Reviews) {
 			renderReview(rev, w)
 		}
 	}
diff --git a/spdx/v2/v2_1/tagvalue/writer/save_file.go b/spdx/v2/v2_1/tagvalue/writer/save_file.go
index 5dc7116..fea33ad 100644
--- a/spdx/v2/v2_1/tagvalue/writer/save_file.go
+++ b/spdx/v2/v2_1/tagvalue/writer/save_file.go
@@ -37,7 +37,7 @@ func renderFile(f *spdx.File, w io.Writer) error {
 	if f.FileCopyrightText != "" {
 		fmt.Fprintf(w, "FileCopyrightText: %s\n", textify(f.FileCopyrightText))
 	}
-	for _, aop := range f.ArtifactOfProjects {
+	for _, aop := range nonNil(f.ArtifactOfProjects) {
 		fmt.Fprintf(w, "ArtifactOfProjectName: %s\n", aop.Name)
 		if aop.HomePage != "" {
 			fmt.Fprintf(w, "ArtifactOfProjectHomePage: %s\n", aop.HomePage)
@@ -70,7 +70,9 @@ func renderFile(f *spdx.File, w io.Writer) error {
 	sort.Strings(snippetKeys)
 	for _, sID := range snippetKeys {
 		s := f.Snippets[common.ElementID(sID)]
-		renderSnippet(s, w)
+		if s != nil {
+			renderSnippet(s, w)
+		}
 	}
 
 	return nil
diff --git a/spdx/v2/v2_1/tagvalue/writer/save_package.go b/spdx/v2/v2_1/tagvalue/writer/save_package.go
index 19d47cd..a4b49cd 100644
--- a/spdx/v2/v2_1/tagvalue/writer/save_package.go
+++ b/spdx/v2/v2_1/tagvalue/writer/save_package.go
@@ -93,7 +93,7 @@ func renderPackage(pkg *spdx.Package, w io.Writer) error {
 	if pkg.PackageComment != "" {
 		fmt.Fprintf(w, "PackageComment: %s\n", textify(pkg.PackageComment))
 	}
-	for _, s := range pkg.PackageExternalReferences {
+	for _, s := range nonNil(pkg.PackageExternalReferences) {
 		fmt.Fprintf(w, "ExternalRef: %s %s %s\n", s.Category, s.RefType, s.Locator)
 		if s.ExternalRefComment != "" {
 			fmt.Fprintf(w, "ExternalRefComment: %s\n", textify(s.ExternalRefComment))
@@ -103,10 +103,11 @@ func renderPackage(pkg *spdx.Package, w io.Writer) error {
 	fmt.Fprintf(w, "\n")
 
 	// also render any files for this package
-	sort.Slice(pkg.Files, func(i, j int) bool {
-		return pkg.Files[i].FileSPDXIdentifier < pkg.Files[j].FileSPDXIdentifier
+	files := nonNil(pkg.Files)
+	sort.Slice(files, func(i, j int) bool {
+		return files[i].FileSPDXIdentifier < files[j].FileSPDXIdentifier
 	})
-	for _, fi := range pkg.Files {
+	for _, fi := range files {
 		renderFile(fi, w)
 	}
 
diff --git a/spdx/v2/v2_1/tagvalue/writer/util.go b/spdx/v2/v2_1/tagvalue/writer/util.go
index ef18a21..dd284c6 100644
--- a/spdx/v2/v2_1/tagvalue/writer/util.go
+++ b/spdx/v2/v2_1/tagvalue/writer/util.go
@@ -16,3 +16,18 @@ func textify(s string) string {
 
 	return s
 }
+
+// nonNil leaves out elements that are nil: documents that were read from JSON
+// or converted can have them.
+func nonNil[T any](list []*T) []*T {
+	var out []*T
+	for _, x := range list {
+		if x != nil {
+			out = append(out, x)
+		}
+	}
+	if len(out) == len(list) {
+		return list
+	}
+	return out
+}
diff --git a/spdx/v2/v2_2/tagvalue/writer/save_document.go b/spdx/v2/v2_2/tagvalue/writer/save_document.go
index 2020a76..ea433c4 100644
--- a/spdx/v2/v2_2/tagvalue/writer/save_document.go
+++ b/spdx/v2/v2_2/tagvalue/writer/save_document.go
@@ -53,33 +53,35 @@ func RenderDocument(doc *spdx.Document, w io.Writer) error {
 
 	if len(doc.Files) > 0 {
 		fmt.Fprintf(w, "##### Unpackaged files\n\n")
-		sort.Slice(doc.Files, func(i, j int) bool {
-			return doc.Files[i].FileSPDXIdentifier < doc.Files[j].FileSPDXIdentifier
+		files := nonNil(doc.Files)
+		sort.Slice(files, func(i, j int) bool {
+			return files[i].FileSPDXIdentifier < files[j].FileSPDXIdentifier
 		})
-		for _, fi := range doc.Files {
+		for _, fi := range files {
 			renderFile(fi, w)
 		}
 	}
 
 	// sort Packages by identifier
-	sort.Slice(doc.Packages, func(i, j int) bool {
-		return doc.Packages[i].PackageSPDXIdentifier < doc.Packages[j].PackageSPDXIdentifier
+	packages := nonNil(doc.Packages)
+	sort.Slice(packages, func(i, j int) bool {
+		return packages[i].PackageSPDXIdentifier < packages[j].PackageSPDXIdentifier
 	})
-	for _, pkg := range doc.Packages {
+	for _, pkg := range packages {
 		fmt.Fprintf(w, "##### Package: %s\n\n", pkg.PackageName)
 		renderPackage(pkg, w)
 	}
 
 	if len(doc.OtherLicenses) > 0 {
 		fmt.Fprintf(w, "##### Other Licenses\n\n")
-		for _, ol := range doc.OtherLicenses {
+		for _, ol := range nonNil(doc.OtherLicenses) {
 			renderOtherLicense(ol, w)
 		}
 	}
 
 	if len(doc.Relationships) > 0 {
 		fmt.Fprintf(w, "##### Relationships\n\n")
-		for _, rln := range doc.Relationships {
+		for _, rln := range nonNil(doc.Relationships) {
 			renderRelationship(rln, w)
 		}
 		fmt.Fprintf(w, "\n")
@@ -87,7 +89,7 @@ func RenderDocument(doc *spdx.Document, w io.Writer) error {
 
 	if len(doc.Annotations) > 0 {
 		fmt.Fprintf(w, "##### Annotations\n\n")
-		for _, ann := range doc.Annotations {
+		for _, ann := range nonNil(doc.Annotations) {
 			renderAnnotation(ann, w)
 			fmt.Fprintf(w, "\n")
 		}
@@ -95,7 +97,7 @@ func RenderDocument(doc *spdx.Document, w io.Writer) error {
 
 	if len(doc.Reviews) > 0 {
 		fmt.Fprintf(w, "##### Reviews\n\n")
-		for _, rev := range doc.Reviews {
+		for _, rev := range nonNil(doc.Reviews) {
 			renderReview(rev, w)
 		}
 	}
diff --git a/spdx/v2/v2_2/tagvalue/writer/save_file.go b/spdx/v2/v2_2/tagvalue/writer/save_file.go
index 8a90dc1..0315eee 100644
--- a/spdx/v2/v2_2/tagvalue/writer/save_file.go
+++ b/spdx/v2/v2_2/tagvalue/writer/save_file.go
@@ -38,7 +38,7 @@ func renderFile(f *spdx.File, w io.Writer) error {
 	if f.FileCopyrightText != "" {
 		fmt.Fprintf(w, "FileCopyrightText: %s\n", textify(f.FileCopyrightText))
 	}
-	for _, aop := range f.ArtifactOfProjects {
+	for _, aop := range nonNil(f.ArtifactOfProjects) {
 		fmt.Fprintf(w, "ArtifactOfProjectName: %s\n", aop.Name)
 		if aop.HomePage != "" {
 			fmt.Fprintf(w, "ArtifactOfProjectHomePage: %s\n", aop.HomePage)
@@ -74,7 +74,9 @@ func renderFile(f *spdx.File, w io.Writer) error {
 	sort.Strings(snippetKeys)
 	for _, sID := range snippetKeys {
 		s := f.Snippets[common.ElementID(sID)]
-		renderSnippet(s, w)
+		if s != nil {
+			renderSnippet(s, w)
+		}
 	}
 
 	return nil
diff --git a/spdx/v2/v2_2/tagvalue/writer/save_package.go b/spdx/v2/v2_2/tagvalue/writer/save_package.go
index 56e96f7..38dcd40 100644
--- a/spdx/v2/v2_2/tagvalue/writer/save_package.go
+++ b/spdx/v2/v2_2/tagvalue/writer/save_package.go
@@ -93,7 +93,7 @@ func renderPackage(pkg *spdx.Package, w io.Writer) error {
 	if pkg.PackageComment != "" {
 		fmt.Fprintf(w, "PackageComment: %s\n", textify(pkg.PackageComment))
 	}
-	for _, s := range pkg.PackageExternalReferences {
+	for _, s := range nonNil(pkg.PackageExternalReferences) {
 		fmt.Fprintf(w, "ExternalRef: %s %s %s\n", s.Category, s.RefType, s.Locator)
 		if s.ExternalRefComment != "" {
 			fmt.Fprintf(w, "ExternalRefComment: %s\n", textify(s.ExternalRefComment))
@@ -106,10 +106,11 @@ func renderPackage(pkg *spdx.Package, w io.Writer) error {
 	fmt.Fprintf(w, "\n")
 
 	// also render any files for this package
-	sort.Slice(pkg.Files, func(i, j int) bool {
-		return pkg.Files[i].FileSPDXIdentifier < pkg.Files[j].FileSPDXIdentifier
+	files := nonNil(pkg.Files)
+	sort.Slice(files, func(i, j int) bool {
+		return files[i].FileSPDXIdentifier < files[j].FileSPDXIdentifier
 	})
-	for _, fi := range pkg.Files {
+	for _, fi := range files {
 		renderFile(fi, w)
 	}
 
diff --git a/spdx/v2/v2_2/tagvalue/writer/util.go b/spdx/v2/v2_2/tagvalue/writer/util.go
index ef18a21..dd284c6 100644
--- a/spdx/v2/v2_2/tagvalue/writer/util.go
+++ b/spdx/v2/v2_2/tagvalue/writer/util.go
@@ -16,3 +16,18 @@ func textify(s string) string {
 
 	return s
 }
+
+// nonNil leaves out elements that are nil: documents that were read from JSON
+// or converted can have them.
+func nonNil[T any](list []*T) []*T {
+	var out []*T
+	for _, x := range list {
+		if x != nil {
+			out = append(out, x)
+		}
+	}
+	if len(out) == len(list) {
+		return list
+	}
+	return out
+}
diff --git a/spdx/v2/v2_3/tagvalue/writer/save_document.go b/spdx/v2/v2_3/tagvalue/writer/save_document.go
index f3a3d64..604a106 100644
--- a/spdx/v2/v2_3/tagvalue/writer/save_document.go
+++ b/spdx/v2/v2_3/tagvalue/writer/save_document.go
@@ -52,33 +52,35 @@ func RenderDocument(doc *spdx.Document, w io.Writer) error {
 
 	if len(doc.Files) > 0 {
 		fmt.Fprintf(w, "##### Unpackaged files\n\n")
-		sort.Slice(doc.Files, func(i, j int) bool {
-			return doc.Files[i].FileSPDXIdentifier < doc.Files[j].FileSPDXIdentifier
+		files := nonNil(doc.Files)
+		sort.Slice(files, func(i, j int) bool {
+			return files[i].FileSPDXIdentifier < files[j].FileSPDXIdentifier
 		})
-		for _, fi := range doc.Files {
+		for _, fi := range files {
 			renderFile(fi, w)
 		}
 	}
 
 	// sort Packages by identifier
-	sort.Slice(doc.Packages, func(i, j int) bool {
-		return doc.Packages[i].PackageSPDXIdentifier < doc.Packages[j].PackageSPDXIdentifier
+	packages := nonNil(doc.Packages)
+	sort.Slice(packages, func(i, j int) bool {
+		return packages[i].PackageSPDXIdentifier < packages[j].PackageSPDXIdentifier
 	})
-	for _, pkg := range doc.Packages {
+	for _, pkg := range packages {
 		fmt.Fprintf(w, "##### Package: %s\n\n", pkg.PackageName)
 		renderPackage(pkg, w)
 	}
 
 	if len(doc.OtherLicenses) > 0 {
 		fmt.Fprintf(w, "##### Other Licenses\n\n")
-		for _, ol := range doc.OtherLicenses {
+		for _, ol := range nonNil(doc.OtherLicenses) {
 			renderOtherLicense(ol, w)
 		}
 	}
 
 	if len(doc.Relationships) > 0 {
 		fmt.Fprintf(w, "##### Relationships\n\n")
-		for _, rln := range doc.Relationships {
+		for _, rln := range nonNil(doc.Relationships) {
 			renderRelationship(rln, w)
 		}
 		fmt.Fprintf(w, "\n")
@@ -86,7 +88,7 @@ func RenderDocument(doc *spdx.Document, w io.Writer) error {
 
 	if len(doc.Annotations) > 0 {
 		fmt.Fprintf(w, "##### Annotations\n\n")
-		for _, ann := range doc.Annotations {
+		for _, ann := range nonNil(doc.Annotations) {
 			renderAnnotation(ann, w)
 			fmt.Fprintf(w, "\n")
 		}
@@ -94,7 +96,7 @@ func RenderDocument(doc *spdx.Document, w io.Writer) error {
 
 	if len(doc.Reviews) > 0 {
 		fmt.Fprintf(w, "##### Reviews\n\n")
-		for _, rev := range doc.Reviews {
+		for _, rev := range nonNil(doc.Reviews) {
 			renderReview(rev, w)
 		}
 	}
diff --git a/spdx/v2/v2_3/tagvalue/writer/save_file.go b/spdx/v2/v2_3/tagvalue/writer/save_file.go
index cdd3cc7..07afebe 100644
--- a/spdx/v2/v2_3/tagvalue/writer/save_file.go
+++ b/spdx/v2/v2_3/tagvalue/writer/save_file.go
@@ -38,7 +38,7 @@ func renderFile(f *spdx.File, w io.Writer) error {
 	if f.FileCopyrightText != "" {
 		fmt.Fprintf(w, "FileCopyrightText: %s\n", textify(f.FileCopyrightText))
 	}
-	for _, aop := range f.ArtifactOfProjects {
+	for _, aop := range nonNil(f.ArtifactOfProjects) {
 		fmt.Fprintf(w, "ArtifactOfProjectName: %s\n", aop.Name)
 		if aop.HomePage != "" {
 			fmt.Fprintf(w, "ArtifactOfProjectHomePage: %s\n", aop.HomePage)
@@ -74,7 +74,9 @@ func renderFile(f *spdx.File, w io.Writer) error {
 	sort.Strings(snippetKeys)
 	for _, sID := range snippetKeys {
 		s := f.Snippets[common.ElementID(sID)]
-		renderSnippet(s, w)
+		if s != nil {
+			renderSnippet(s, w)
+		}
 	}
 
 	return nil
diff --git a/spdx/v2/v2_3/tagvalue/writer/save_package.go b/spdx/v2/v2_3/tagvalue/writer/save_package.go
index 22ae2cc..2924398 100644
--- a/spdx/v2/v2_3/tagvalue/writer/save_package.go
+++ b/spdx/v2/v2_3/tagvalue/writer/save_package.go
@@ -105,7 +105,7 @@ func renderPackage(pkg *spdx.Package, w io.Writer) error {
 	if pkg.PackageComment != "" {
 		fmt.Fprintf(w, "PackageComment: %s\n", textify(pkg.PackageComment))
 	}
-	for _, s := range pkg.PackageExternalReferences {
+	for _, s := range nonNil(pkg.PackageExternalReferences) {
 		fmt.Fprintf(w, "ExternalRef: %s %s %s\n", s.Category, s.RefType, s.Locator)
 		if s.ExternalRefComment != "" {
 			fmt.Fprintf(w, "ExternalRefComment: %s\n", textify(s.ExternalRefComment))
@@ -118,10 +118,11 @@ func renderPackage(pkg *spdx.Package, w io.Writer) error {
 	fmt.Fprintf(w, "\n")
 
 	// also render any files for this package
-	sort.Slice(pkg.Files, func(i, j int) bool {
-		return pkg.Files[i].FileSPDXIdentifier < pkg.Files[j].FileSPDXIdentifier
+	files := nonNil(pkg.Files)
+	sort.Slice(files, func(i, j int) bool {
+		return files[i].FileSPDXIdentifier < files[j].FileSPDXIdentifier
 	})
-	for _, fi := range pkg.Files {
+	for _, fi := range files {
 		renderFile(fi, w)
 	}
 
diff --git a/spdx/v2/v2_3/tagvalue/writer/util.go b/spdx/v2/v2_3/tagvalue/writer/util.go
index ef18a21..dd284c6 100644
--- a/spdx/v2/v2_3/tagvalue/writer/util.go
+++ b/spdx/v2/v2_3/tagvalue/writer/util.go
@@ -16,3 +16,18 @@ func textify(s string) string {
 
 	return s
 }
+
+// nonNil leaves out elements that are nil: documents that were read from JSON
+// or converted can have them.
+func nonNil[T any](list []*T) []*T {
+	var out []*T
+	for _, x := range list {
+		if x != nil {
+			out = append(out, x)
+		}
+	}
+	if len(out) == len(list) {
+		return list
+	}
+	return out
+}
-- 
2.43.0


From 975f369fad4f366f73ed8726b7ff31a1e176c279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:42 +0000
Subject: [PATCH 51/61] fix: do not panic on nil elements of a document in
 spdxlib, licensediff and reporter

---
 licensediff/licensediff.go    | 6 ++++++
 reporter/reporter.go          | 3 +++
 spdxlib/described_elements.go | 6 ++++--
 spdxlib/documents.go          | 9 +++++++++
 spdxlib/relationships.go      | 3 +++
 5 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/licensediff/licensediff.go b/licensediff/licensediff.go
index 542ec5d..1f7e8c1 100644
--- a/licensediff/licensediff.go
+++ b/licensediff/licensediff.go
@@ -21,6 +21,9 @@ func MakePairs(p1 *spdx.Package, p2 *spdx.Package) (map[string]LicensePair, erro
 
 	// first, go through and add all files/licenses from p1
 	for _, f := range p1.Files {
+		if f == nil {
+			continue
+		}
 		pair := LicensePair{First: f.LicenseConcluded, Second: ""}
 		pairs[f.FileName] = pair
 	}
@@ -28,6 +31,9 @@ func MakePairs(p1 *spdx.Package, p2 *spdx.Package) (map[string]LicensePair, erro
 	// now, go through all files/licenses from p2. If already
 	// present, add as .second; if not, create new pair
 	for _, f := range p2.Files {
+		if f == nil {
+			continue
+		}
 		firstLic := ""
 		existingPair, ok := pairs[f.FileName]
 		if ok {
diff --git a/reporter/reporter.go b/reporter/reporter.go
index c1b1678..7188c9c 100644
--- a/reporter/reporter.go
+++ b/reporter/reporter.go
@@ -73,6 +73,9 @@ func countLicenses(pkg *spdx.Package) (int, int, map[string]int) {
 	totalNotFound := 0
 	foundCounts := map[string]int{}
 	for _, f := range pkg.Files {
+		if f == nil {
+			continue
+		}
 		if f.LicenseConcluded == "" || f.LicenseConcluded == "NOASSERTION" {
 			totalNotFound++
 		} else {
diff --git a/spdxlib/described_elements.go b/spdxlib/described_elements.go
index 67a0537..95a7261 100644
--- a/spdxlib/described_elements.go
+++ b/spdxlib/described_elements.go
@@ -23,7 +23,7 @@ func GetDescribedPackageIDs(doc *spdx.Document) ([]common.ElementID, error) {
 	if len(doc.Packages) == 0 {
 		return nil, fmt.Errorf("no Packages in Document")
 	}
-	if len(doc.Packages) == 1 {
+	if len(doc.Packages) == 1 && doc.Packages[0] != nil {
 		// get first (only) one and return its ID
 		for _, pkg := range doc.Packages {
 			return []common.ElementID{pkg.PackageSPDXIdentifier}, nil
@@ -59,7 +59,9 @@ func GetDescribedPackageIDs(doc *spdx.Document) ([]common.ElementID, error) {
 	// a file, an element of another document, or stated in both directions
 	packageIDs := map[common.ElementID]bool{}
 	for _, pkg := range doc.Packages {
-		packageIDs[pkg.PackageSPDXIdentifier] = true
+		if pkg != nil {
+			packageIDs[pkg.PackageSPDXIdentifier] = true
+		}
 	}
 	described := eIDs[:0]
 	for _, eID := range eIDs {
diff --git a/spdxlib/documents.go b/spdxlib/documents.go
index dff4e71..a6d67cd 100644
--- a/spdxlib/documents.go
+++ b/spdxlib/documents.go
@@ -15,6 +15,9 @@ func ValidateDocument(doc *spdx.Document) error {
 	// cache a map of element IDs for quick lookups
 	validElementIDs := make(map[common.ElementID]bool)
 	addFile := func(file *spdx.File) {
+		if file == nil {
+			return
+		}
 		validElementIDs[file.FileSPDXIdentifier] = true
 		for id := range file.Snippets {
 			validElementIDs[id] = true
@@ -22,6 +25,9 @@ func ValidateDocument(doc *spdx.Document) error {
 	}
 
 	for _, docPackage := range doc.Packages {
+		if docPackage == nil {
+			continue
+		}
 		validElementIDs[docPackage.PackageSPDXIdentifier] = true
 		for _, file := range docPackage.Files {
 			addFile(file)
@@ -44,6 +50,9 @@ func ValidateDocument(doc *spdx.Document) error {
 	}
 
 	for _, relationship := range doc.Relationships {
+		if relationship == nil {
+			continue
+		}
 		if !exists(relationship.RefA) {
 			return fmt.Errorf("%s used in relationship but no such element exists", string(relationship.RefA.ElementRefID))
 		}
diff --git a/spdxlib/relationships.go b/spdxlib/relationships.go
index 7f5038d..d4410a5 100644
--- a/spdxlib/relationships.go
+++ b/spdxlib/relationships.go
@@ -13,6 +13,9 @@ func FilterRelationships(doc *spdx.Document, filter func(*spdx.Relationship) *co
 	elementIDs := []common.ElementID{}
 
 	for _, relationship := range doc.Relationships {
+		if relationship == nil {
+			continue
+		}
 		if id := filter(relationship); id != nil {
 			elementIDs = append(elementIDs, *id)
 		}
-- 
2.43.0


From 952129ff2d9523bc8b42790d6a2d1070f5f20be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:31 +0000
Subject: [PATCH 52/61] fix: nil is an error to read or convert into and to
 write, not a panic

---
 convert/chain.go  |  6 ++++++
 convert/struct.go | 14 ++++++++++++--
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/convert/chain.go b/convert/chain.go
index e1607ec..57ef674 100644
--- a/convert/chain.go
+++ b/convert/chain.go
@@ -31,7 +31,13 @@ func Document(from common.AnyDocument, to common.AnyDocument) error {
 	if !IsPtr(to) {
 		return fmt.Errorf("struct to convert to must be a pointer")
 	}
+	if target := reflect.ValueOf(to); target.IsNil() || target.Elem().Kind() == reflect.Ptr {
+		return fmt.Errorf("struct to convert to must be a pointer to a document")
+	}
 	from = FromPtr(from)
+	if from == nil {
+		return fmt.Errorf("there is no struct to convert from")
+	}
 	if reflect.TypeOf(from) == reflect.TypeOf(FromPtr(to)) {
 		reflect.ValueOf(to).Elem().Set(reflect.ValueOf(from))
 		return nil
diff --git a/convert/struct.go b/convert/struct.go
index 7223dbd..44c7b94 100644
--- a/convert/struct.go
+++ b/convert/struct.go
@@ -9,17 +9,24 @@ import (
 	"github.com/spdx/tools-golang/spdx/common"
 )
 
-// FromPtr accepts a document or a document pointer and returns the direct struct reference
+// FromPtr accepts a document or a document pointer and returns the direct struct reference,
+// or nil if there is none
 func FromPtr(doc common.AnyDocument) common.AnyDocument {
 	value := reflect.ValueOf(doc)
-	for value.Type().Kind() == reflect.Ptr {
+	for value.Kind() == reflect.Ptr {
 		value = value.Elem()
 	}
+	if !value.IsValid() {
+		return nil
+	}
 	return value.Interface()
 }
 
 func IsPtr(obj common.AnyDocument) bool {
 	t := reflect.TypeOf(obj)
+	if t == nil {
+		return false
+	}
 	if t.Kind() == reflect.Interface {
 		t = t.Elem()
 	}
@@ -27,6 +34,9 @@ func IsPtr(obj common.AnyDocument) bool {
 }
 
 func Describe(o interface{}) string {
+	if FromPtr(o) == nil {
+		return fmt.Sprintf("%T: nil", o)
+	}
 	value := reflect.ValueOf(o)
 	typ := value.Type()
 	prefix := ""
-- 
2.43.0


From e10bea80d3d21e588d8ddfc03cf822e4d3080ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:10 +0000
Subject: [PATCH 53/61] fix: read RDF alike from a reader that at times gives
 no bytes

---
 rdf/reader.go | 28 ++++++++--------------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/rdf/reader.go b/rdf/reader.go
index d7531ab..abb3c69 100644
--- a/rdf/reader.go
+++ b/rdf/reader.go
@@ -4,6 +4,7 @@ package rdf
 
 import (
 	"bufio"
+	"bytes"
 	"errors"
 	"fmt"
 	"io"
@@ -33,12 +34,14 @@ func ReadInto(content io.Reader, doc common.AnyDocument) error {
 	if !convert.IsPtr(doc) {
 		return fmt.Errorf("doc to read into must be a pointer")
 	}
-	source := &errorKeeper{content: content}
-	reader := rdfloader.XMLReaderFromFileObject(bufio.NewReader(source))
-	root, err := reader.Read()
-	if source.err != nil {
-		return source.err
+	// read everything first: the RDF parser takes any error after a complete
+	// document for its end, and loses its way when a read gives no bytes
+	text, err := io.ReadAll(content)
+	if err != nil {
+		return err
 	}
+	reader := rdfloader.XMLReaderFromFileObject(bufio.NewReader(bytes.NewReader(text)))
+	root, err := reader.Read()
 	if err != nil {
 		return err
 	}
@@ -72,21 +75,6 @@ func ReadInto(content io.Reader, doc common.AnyDocument) error {
 	return convert.Document(data.(common.AnyDocument), doc)
 }
 
-// errorKeeper keeps the error that reading content ended with, as the RDF
-// parser takes any error after a complete document for its end.
-type errorKeeper struct {
-	content io.Reader
-	err     error
-}
-
-func (r *errorKeeper) Read(p []byte) (int, error) {
-	n, err := r.content.Read(p)
-	if err != nil && err != io.EOF {
-		r.err = err
-	}
-	return n, err
-}
-
 func getSpdxVersion(parser *gordfParser.Parser) (string, error) {
 	version := ""
 	for _, node := range parser.Triples {
-- 
2.43.0


From 8ce6f08f443ce02eabcff0a1e34f06f6deef8df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:59 +0000
Subject: [PATCH 54/61] fix: see the operators of short-form license
 expressions by any white space and case

---
 idsearcher/idsearcher.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/idsearcher/idsearcher.go b/idsearcher/idsearcher.go
index f237792..deff435 100644
--- a/idsearcher/idsearcher.go
+++ b/idsearcher/idsearcher.go
@@ -206,8 +206,11 @@ func stripTrash(lid string) string {
 }
 
 func makeElement(lic string) string {
-	if strings.Contains(lic, " AND ") || strings.Contains(lic, " OR ") {
-		return fmt.Sprintf("(%s)", lic)
+	// words may stand next to parens, and operators are in any case
+	for _, word := range strings.Fields(strings.NewReplacer("(", " ", ")", " ").Replace(lic)) {
+		if strings.EqualFold(word, "AND") || strings.EqualFold(word, "OR") {
+			return fmt.Sprintf("(%s)", lic)
+		}
 	}
 
 	return lic
@@ -219,13 +222,12 @@ func getIndividualLicenses(lic string) []string {
 	lic = strings.Replace(lic, ")", " ", -1)
 	lic = strings.Replace(lic, "+", " ", -1)
 
-	// now, split by spaces, trim, and add to slice
-	licElements := strings.Split(lic, " ")
+	// now, split by white space, and add to slice
+	licElements := strings.Fields(lic)
 	lics := []string{}
 	for _, elt := range licElements {
-		elt := strings.TrimSpace(elt)
-		// don't add if empty or if case-insensitive operator
-		if elt == "" || strings.EqualFold(elt, "AND") ||
+		// don't add if case-insensitive operator
+		if strings.EqualFold(elt, "AND") ||
 			strings.EqualFold(elt, "OR") || strings.EqualFold(elt, "WITH") {
 			continue
 		}
-- 
2.43.0


From 16df640a7655d210d3d2fd986d173c6b20a0d16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:10 +0000
Subject: [PATCH 55/61] fix: reject unknown properties of disjunctive license
 sets in RDF

---
 spdx/v2/v2_2/rdf/reader/parse_license.go | 2 ++
 spdx/v2/v2_3/rdf/reader/parse_license.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_license.go b/spdx/v2/v2_2/rdf/reader/parse_license.go
index 81f3d40..ff86b12 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_license.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_license.go
@@ -233,6 +233,8 @@ func (parser *rdfParser2_2) getDisjunctiveLicenseSetFromNode(node *gordfParser.N
 				return licenseSet, fmt.Errorf("error parsing disjunctive license set: %v", err)
 			}
 			licenseSet.members = append(licenseSet.members, member)
+		default:
+			return licenseSet, fmt.Errorf("unknown subTag for DisjunctiveLicenseSet: %s", triple.Predicate.ID)
 		}
 	}
 	return licenseSet, nil
diff --git a/spdx/v2/v2_3/rdf/reader/parse_license.go b/spdx/v2/v2_3/rdf/reader/parse_license.go
index 9ee2e0b..9cc94ad 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_license.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_license.go
@@ -233,6 +233,8 @@ func (parser *rdfParser2_3) getDisjunctiveLicenseSetFromNode(node *gordfParser.N
 				return licenseSet, fmt.Errorf("error parsing disjunctive license set: %v", err)
 			}
 			licenseSet.members = append(licenseSet.members, member)
+		default:
+			return licenseSet, fmt.Errorf("unknown subTag for DisjunctiveLicenseSet: %s", triple.Predicate.ID)
 		}
 	}
 	return licenseSet, nil
-- 
2.43.0


From a75d0b6ff13598a767680bcaba8bb028c5fb48d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:33 +0000
Subject: [PATCH 56/61] fix: accept a document comment after the creators in
 tag-value 2.1

The other versions do, and the specification lists the document comment
last in the creation information.
---
 spdx/v2/v2_1/tagvalue/reader/parse_creation_info.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spdx/v2/v2_1/tagvalue/reader/parse_creation_info.go b/spdx/v2/v2_1/tagvalue/reader/parse_creation_info.go
index 7ea0c1f..cc812b2 100644
--- a/spdx/v2/v2_1/tagvalue/reader/parse_creation_info.go
+++ b/spdx/v2/v2_1/tagvalue/reader/parse_creation_info.go
@@ -94,6 +94,9 @@ func (parser *tvParser) parsePairFromCreationInfo(tag string, value string) erro
 		return parser.parsePairForAnnotation(tag, value)
 	case "AnnotationComment":
 		return parser.parsePairForAnnotation(tag, value)
+	case "DocumentComment":
+		parser.st = psStart
+		return parser.parsePairFromStart(tag, value)
 	case "ExternalDocumentRef":
 		parser.st = psStart
 		return parser.parsePairFromStart(tag, value)
-- 
2.43.0


From bd1676e25047fc2e011523f49c38eedbe5a4d31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:32 +0000
Subject: [PATCH 57/61] fix: describe values with multi-byte text without a
 panic

---
 convert/struct.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/convert/struct.go b/convert/struct.go
index 44c7b94..c9e9da7 100644
--- a/convert/struct.go
+++ b/convert/struct.go
@@ -51,10 +51,9 @@ func Describe(o interface{}) string {
 }
 
 func limit(text string, length int) string {
-	if length <= 0 || len(text) <= length+3 {
+	r := []rune(text)
+	if length <= 0 || len(r) <= length+3 {
 		return text
 	}
-	r := []rune(text)
-	r = r[:length]
-	return string(r) + "..."
+	return string(r[:length]) + "..."
 }
-- 
2.43.0


From 8c71d98234d21dc4db70a395be8989a1d85844fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:11 +0000
Subject: [PATCH 58/61] fix: leave named pipes and sockets out of the files of
 a directory

---
 utils/filesystem.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/utils/filesystem.go b/utils/filesystem.go
index a160d83..ddc4ee0 100644
--- a/utils/filesystem.go
+++ b/utils/filesystem.go
@@ -43,8 +43,9 @@ func GetAllFilePaths(dirRoot string, pathsIgnored []string) ([]string, error) {
 		if fi.IsDir() {
 			return nil
 		}
-		// don't include path if it's a symbolic link
-		if fi.Mode()&os.ModeSymlink == os.ModeSymlink {
+		// don't include path if it's a symbolic link or anything else
+		// that is no regular file: a named pipe has no contents to hash
+		if !fi.Mode().IsRegular() {
 			return nil
 		}
 
-- 
2.43.0


From 023cc7ad693ab34d240e200480886bfcb93eb7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:15 +0000
Subject: [PATCH 59/61] fix: keep the colon of short-form IDs that refer to a
 license of another document

---
 idsearcher/idsearcher.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/idsearcher/idsearcher.go b/idsearcher/idsearcher.go
index deff435..019fd93 100644
--- a/idsearcher/idsearcher.go
+++ b/idsearcher/idsearcher.go
@@ -201,8 +201,14 @@ func searchFileIDs(filePath string) ([]string, error) {
 }
 
 func stripTrash(lid string) string {
-	re := regexp.MustCompile(`[^\w\s\d.\-\+()]+`)
-	return re.ReplaceAllString(lid, "")
+	// a license of another document keeps the colon between its two parts
+	re := regexp.MustCompile(`\bDocumentRef-[\w.\-]+:LicenseRef-|[^\w\s\d.\-\+()]+`)
+	return re.ReplaceAllStringFunc(lid, func(s string) string {
+		if strings.HasPrefix(s, "DocumentRef-") {
+			return s
+		}
+		return ""
+	})
 }
 
 func makeElement(lic string) string {
-- 
2.43.0


From 8d89bc2b46b21c6143156e0d60e794005c201222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:52 +0000
Subject: [PATCH 60/61] fix: tag-value states no file for a snippet that has
 none

---
 spdx/v2/v2_1/tagvalue/writer/save_snippet.go | 2 +-
 spdx/v2/v2_2/tagvalue/writer/save_snippet.go | 2 +-
 spdx/v2/v2_3/tagvalue/writer/save_snippet.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/spdx/v2/v2_1/tagvalue/writer/save_snippet.go b/spdx/v2/v2_1/tagvalue/writer/save_snippet.go
index afb5b80..00f8705 100644
--- a/spdx/v2/v2_1/tagvalue/writer/save_snippet.go
+++ b/spdx/v2/v2_1/tagvalue/writer/save_snippet.go
@@ -15,7 +15,7 @@ func renderSnippet(sn *spdx.Snippet, w io.Writer) error {
 		fmt.Fprintf(w, "SnippetSPDXID: %s\n", common.RenderElementID(sn.SnippetSPDXIdentifier))
 	}
 	snFromFileIDStr := common.RenderElementID(sn.SnippetFromFileSPDXIdentifier)
-	if snFromFileIDStr != "" {
+	if snFromFileIDStr != "SPDXRef-" {
 		fmt.Fprintf(w, "SnippetFromFileSPDXID: %s\n", snFromFileIDStr)
 	}
 
diff --git a/spdx/v2/v2_2/tagvalue/writer/save_snippet.go b/spdx/v2/v2_2/tagvalue/writer/save_snippet.go
index 6845ec9..9c2256a 100644
--- a/spdx/v2/v2_2/tagvalue/writer/save_snippet.go
+++ b/spdx/v2/v2_2/tagvalue/writer/save_snippet.go
@@ -15,7 +15,7 @@ func renderSnippet(sn *spdx.Snippet, w io.Writer) error {
 		fmt.Fprintf(w, "SnippetSPDXID: %s\n", common.RenderElementID(sn.SnippetSPDXIdentifier))
 	}
 	snFromFileIDStr := common.RenderElementID(sn.SnippetFromFileSPDXIdentifier)
-	if snFromFileIDStr != "" {
+	if snFromFileIDStr != "SPDXRef-" {
 		fmt.Fprintf(w, "SnippetFromFileSPDXID: %s\n", snFromFileIDStr)
 	}
 
diff --git a/spdx/v2/v2_3/tagvalue/writer/save_snippet.go b/spdx/v2/v2_3/tagvalue/writer/save_snippet.go
index f7914af..3aff07d 100644
--- a/spdx/v2/v2_3/tagvalue/writer/save_snippet.go
+++ b/spdx/v2/v2_3/tagvalue/writer/save_snippet.go
@@ -15,7 +15,7 @@ func renderSnippet(sn *spdx.Snippet, w io.Writer) error {
 		fmt.Fprintf(w, "SnippetSPDXID: %s\n", common.RenderElementID(sn.SnippetSPDXIdentifier))
 	}
 	snFromFileIDStr := common.RenderElementID(sn.SnippetFromFileSPDXIdentifier)
-	if snFromFileIDStr != "" {
+	if snFromFileIDStr != "SPDXRef-" {
 		fmt.Fprintf(w, "SnippetFromFileSPDXID: %s\n", snFromFileIDStr)
 	}
 
-- 
2.43.0


From 0dedf4ac4aecc769bbf16e6e6fc34a2390e53e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:48 +0000
Subject: [PATCH 61/61] fix: stop licence IDs before the end of comments of
 more languages

---
 idsearcher/idsearcher.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/idsearcher/idsearcher.go b/idsearcher/idsearcher.go
index 019fd93..0b7de5b 100644
--- a/idsearcher/idsearcher.go
+++ b/idsearcher/idsearcher.go
@@ -143,6 +143,11 @@ func BuildIDsDocument(packageName string, dirRoot string, idconfig *Config) (*sp
 }
 
 // ===== Utility functions (not version-specific) =====
+
+// commentEnds are the ends of comments that stripTrash would leave a part of;
+// one that contains another comes first.
+var commentEnds = []string{"*/", "--->", "-->", "--%>", "*)", "--}}", "-}"}
+
 func searchFileIDs(filePath string) ([]string, error) {
 	idsMap := map[string]int{}
 	ids := []string{}
@@ -169,10 +174,11 @@ func searchFileIDs(filePath string) ([]string, error) {
 				continue
 			}
 
-			// stop before trailing */ or --> if it is present
+			// stop before the end of the comment, such as */ or -->, if it is present
 			lidToExtract := strs[1]
-			lidToExtract = strings.Split(lidToExtract, "*/")[0]
-			lidToExtract = strings.Split(lidToExtract, "-->")[0]
+			for _, end := range commentEnds {
+				lidToExtract = strings.Split(lidToExtract, end)[0]
+			}
 			lid := strings.TrimSpace(stripTrash(lidToExtract))
 			// nothing there: not an ID
 			if lid == "" {
-- 
2.43.0

