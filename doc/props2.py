from gen import P
from props1 import J, TVR, TVW

P("C17", "Writing and reading are deterministic, side-effect free and concurrent",
  "The bytes written for a document depend on nothing but its contents: the same for a pointer, a value or a copy, every time, and in tag-value for any order of packages and files; writing JSON or YAML leaves the document unchanged, writing tag-value changes nothing but the order of its external references, packages and files. Any number of goroutines may read, convert and write documents at once, and write one shared document as JSON or YAML, without disturbing each other. The tag-value writer rejects what is no document, or lacks creation information, and writes nothing.",
  ["inputs", "schedules"],
  "Every document of the three versions and the three formats that are written, and any set of concurrent uses (RDF left out: its parser is a third party's and races with itself).",
  "The tests write each sample once, from a pointer, on one goroutine, and never run under the race detector.",
  ["json/writer.go", "yaml/writer.go", "tagvalue/writer.go", "convert/chain.go", "convert/struct.go", "json/marshal/json.go"] + TVW[1:],
  [("sections written from sorted copies or in place", "spdx/v2/v2_3/tagvalue/writer"), ("conversion steps registered once and shared", "convert/chain.go"), ("hashes written in sorted order", "spdx/v2/v2_3/tagvalue/writer")],
  "property-based testing (rapid): repeated and concurrent writes compared, under the race detector",
  "Schedules are those the Go scheduler gives under the race detector, not enumerated.")

P("C18", "A failing reader or writer is always reported",
  "When the reader given to any of the four readers fails, at whatever byte and even after the last one, an error is returned and the target document is left exactly as it was; in whatever pieces the reader delivers the bytes, the document read is the same. When the writer given to any of the writers or to the reporter fails, at whatever byte, an error is returned, and what was written before is the beginning of what was to be written.",
  ["inputs", "fault_sequences"],
  "Every document, format and version; failures at every byte offset, once or for good, with or without data in the same call, and every chunking.",
  "The tests use in-memory readers and writers, which never fail.",
  ["json/reader.go", "json/writer.go", "yaml/reader.go", "yaml/writer.go", "tagvalue/reader.go", "tagvalue/reader/reader.go", "tagvalue/writer.go", "rdf/reader.go", "reporter/reporter.go"],
  [("errors of the scanner, of io.ReadAll and of the sticky writer", "tagvalue/reader/reader.go, json/reader.go, tagvalue/writer.go")],
  "property-based testing (rapid): fault injection at drawn byte offsets",
  "RDF input is a fixed small document in two versions; chunking is not compared for it beyond success.")

P("C19", "The verification code is the SHA1 of the sorted file SHA1s",
  "GetVerificationCode gives the SHA1, in lower-case hexadecimal, of the concatenated SHA1 values of all given files in ascending order, leaving out exactly the file whose name equals the one to exclude, which it names as excluded. The order of the files, their other checksums and their other fields do not matter, a missing (nil) file is an error, and the files are left unchanged.",
  ["inputs"],
  "Every list of files, with any names, any number and order of checksums, and any excluded name.",
  "The tests hash two lists of five files.",
  ["utils/verification.go"], [("SHA1 values collected, sorted, joined, hashed", "utils/verification.go")],
  "property-based testing (rapid): compared with a reference computation, and over permutations",
  "The reference restates the definition of the SPDX specification.")

P("C20", "A built package describes exactly the directory it was built from",
  "Building a package section or a document from a directory lists every regular file that is not ignored, once, in directory order, as './path' with identifiers File0, File1 and so on and the SHA1, SHA256 and MD5 of its contents, and gives the package's name, identifier, download location, NOASSERTION fields and the verification code of those files. A document also states its namespace (prefix, name and code), its creators (the tool and the given creator), its creation time and that it DESCRIBES the package. A missing directory is an error, and the configuration is left unchanged.",
  ["inputs", "configurations"],
  "Every directory tree with files, directories, symbolic links and odd names, named in any way (relative, through links, with . and ..), any ignore patterns, creator types and package names.",
  "The tests build one fixed directory of five files.",
  ["builder/build.go", "builder/build_package.go", "builder/build_file.go", "builder/build_creation_info.go", "builder/build_relationship.go", "utils/filesystem.go", "utils/verification.go"],
  [("walk, hash, sort, verification code", "builder/build_package.go, utils/filesystem.go")],
  "property-based testing (rapid): generated directories, compared with a reference walk and hashes",
  "The exact form of the namespace's end is not judged.")

P("C21", "A directory walk lists exactly the files that are not ignored",
  "GetAllFilePaths gives every regular file below the directory exactly once, as a slash-separated path beginning with '/', in directory order, follows no symbolic link below the root, and leaves out exactly what the patterns ignore: '/path/file' one file, '/dir/' all below one directory, '**/file' and '**/dir/' a file or directory of that name anywhere, '**/dir/file' a file in a directory of that name. GetHashesForFilePath gives the SHA1, SHA256 and MD5 of the file's contents. A missing directory or file is an error.",
  ["inputs"],
  "Every directory tree with odd names, links and nested directories, every way to name the root, and every pattern of these forms.",
  "The tests list one fixed directory with a few patterns.",
  ["utils/filesystem.go"], [("walk with ignore patterns, hashing", "utils/filesystem.go")],
  "property-based testing (rapid): generated directories and patterns, compared with a reference matcher",
  "Whether '**/dir/file' also matches deeper below dir is not settled and not judged.")

P("C22", "The searcher finds exactly the short-form licence IDs of each file",
  "Building a document with the ID searcher finds, in each file that the searcher is not told to ignore, exactly the licence expressions that follow 'SPDX-License-Identifier:' near the beginning of a line, whatever the comment style and however long the lines. Each file lists the distinct licence IDs of its expressions, sorted and without operators, and concludes the expression found, or all distinct ones, compound ones in parentheses, joined by AND; the package lists the union over its files. Files without any and ignored files state NOASSERTION.",
  ["inputs", "configurations"],
  "Every directory whose files hold any lines with or without the tag, in any comment style, of any length, with any ignore patterns of the builder and the searcher.",
  "The tests search one directory of nine short files.",
  ["idsearcher/idsearcher.go", "builder/build.go", "utils/filesystem.go"], [("line scan, expression normalised, IDs extracted", "idsearcher/idsearcher.go")],
  "property-based testing (rapid): generated source files, compared with the expressions they were made from",
  "Near the beginning means: preceded by at most five characters, not counting punctuation other than . - + ( ).")

P("C23", "Licence comparison pairs and classifies exactly the files",
  "Comparing two packages pairs every file name of either package exactly once with the licence it has in each, and the results put each pair in exactly one place: only in the first, only in the second, in both with the same licence, or in both with different ones. Swapping the packages swaps the results.",
  ["inputs"],
  "Every two packages whose file names are unique within each and whose concluded licences are not empty.",
  "The tests compare two packages of eight files.",
  ["licensediff/licensediff.go"], [("maps from file name to licence pair", "licensediff/licensediff.go")],
  "property-based testing (rapid): compared with a reference classification, and for symmetry",
  "An empty licence is the function's own mark for a missing file, and so is left out.")

P("C24", "The licence report counts exactly, in one fixed order",
  "The report of a package lists each concluded licence of its files (NOASSERTION aside) once with the exact number of files it has, most frequent first and by name among equals, after the numbers of files with and without a known licence. The order of the files does not matter. A package whose files were not analysed is an error, and then nothing is written.",
  ["inputs"],
  "Every package of any number of files and licences whose names hold no tab or line break.",
  "The tests report one package of fifteen files.",
  ["reporter/reporter.go"], [("counting and sorting", "reporter/reporter.go")],
  "property-based testing (rapid): parsed report compared with a reference count, over permutations",
  "The report's text is parsed, not compared with a golden file.")
