import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
                   mechanism=[dict(name=a,where=b) for a,b in mech],
                   observe_at=observe or [],hook_needed=None)))
p("C01","Indexed search never misses a matching file",
  "For every regular expression and every indexed file, if some line of the file is matched by the regular expression, then the trigram query derived from the expression is satisfied by the file's trigrams, so the file is in the candidate list the index returns. Narrowing the search through the index never loses a match that a scan of all indexed files would find.",
  ["programs","inputs"],"all regular expressions (every operator, case folding, classes of every size) and all file contents",
  "TestQuery compares about 60 expressions with a fixed expected query string; it never relates a query to the texts the expression matches, so an over-strict query for an unlisted expression goes unnoticed.",
  ["index/regexp.go"],[("analyze/concat/alternate/simplify","index/regexp.go"),("Query.andOr/implies factoring","index/regexp.go"),("stringSet operations","index/regexp.go")],
  [("regexpInfo","exact/prefix/suffix sets and match query of a subexpression","index/regexp.go")],["index.RegexpQuery","index.Index.PostingQuery"])
p("C02","The matcher accepts exactly the lines the regular expression denotes",
  "On text that is valid UTF-8, matching a compiled expression against a buffer finds a match exactly when some line of the buffer contains a match under the standard (RE2 syntax, multi-line, per line) meaning of the expression, and the reported position is the end of the first such line. Anchors, word boundaries, case folding, classes and repetition mean the same as in the Go regexp syntax, and no match spans a newline.",
  ["programs","inputs"],"all expressions, all valid UTF-8 texts, all begin/end-of-text flags",
  "TestMatch checks about 90 (expression, text) pairs; the lazily built automaton has paths for every byte and assertion context that no sample covers.",
  ["regexp/match.go","regexp/utf.go","regexp/regexp.go"],[("matcher.computeNext / stepByte / stepEmpty","regexp/match.go"),("toByteProg","regexp/utf.go")],
  [("dstate","cached automaton state","regexp/match.go")],["regexp.Regexp.Match","regexp.Regexp.MatchString"])
p("C03","Reusing a compiled expression never changes its answers",
  "The answer for a text depends only on the expression, the text and the begin/end-of-text flags, not on which texts were matched before with the same compiled expression or with other expressions. Matching a string and matching the same bytes give the same answer.",
  ["histories","inputs"],"all sequences of matches on one compiled expression, all texts",
  "Each TestMatch case compiles a fresh expression and matches one text, so stale or wrongly shared cached automaton states are never consulted.",
  ["regexp/match.go"],[("dstate cache keyed by encoded NFA state","regexp/match.go"),("shared final state","regexp/match.go")],
  [("dstate cache","automaton states built so far","regexp/match.go")],["regexp.Regexp.Match","regexp.Regexp.MatchString"])
p("C04","Character classes match exactly the UTF-8 encodings of their members",
  "For every set of Unicode code points given as a class, range, literal or case-folded literal (surrogates excluded), a one-character match accepts exactly the UTF-8 byte sequences that encode members of the set. No other byte sequence, including overlong, truncated or out-of-range ones, is accepted.",
  ["inputs","programs"],"all rune ranges lo..hi in 0..0x10FFFF, all folded runes, all byte strings of up to four bytes",
  "Tests use a handful of ASCII, Greek and Japanese classes; range-splitting boundaries (0x7f/0x80, 0x7ff/0x800, 0xffff/0x10000, continuation byte edges) are not sampled.",
  ["regexp/utf.go","regexp/copy.go"],[("runeBuilder.addRange / suffix cache","regexp/utf.go"),("oneByteRange / fold handling","regexp/utf.go"),("appendFoldedRange","regexp/copy.go")],None,["regexp.Compile","regexp.Regexp.Match"])
p("C05","Grep prints exactly the matching lines, whatever the chunking",
  "Scanning a stream prints each matching line once, in order and complete, with its correct 1-based line number when numbers are requested, and nothing else; counts equal the number of matching lines, file-list mode prints the name once exactly if some line matches, and the match indicator used for the exit status is set exactly in that case. The output does not depend on how the stream is split into reads or where internal buffer boundaries fall, provided lines are short relative to the buffer.",
  ["inputs","schedules","configurations"],"all texts, all read fragmentations and buffer boundary positions, all combinations of the -l -c -n -h flags",
  "TestGrep has two tiny inputs that fit one read; no test crosses a buffer boundary, uses line numbers, counts or a missing final newline.",
  ["regexp/match.go","cmd/cgrep/cgrep.go"],[("Grep.Reader chunk loop","regexp/match.go"),("lineSuffixLen/countNL","regexp/match.go")],
  [("buf/chunkStart/lineno","unprocessed bytes, scan position, current line number","regexp/match.go")],["regexp.Grep.Reader output","cgrep exit status"])
p("C06","Context output shows the right neighbouring lines",
  "With -A, -B or -C context, every matching line is printed as a block headed by its true line number and containing exactly the requested number of preceding and following lines (fewer only at the start or end of the input), with only common leading indentation and trailing white space removed. This holds wherever internal buffer boundaries fall, provided the lines involved are short relative to the buffer.",
  ["inputs","schedules","configurations"],"all texts, context sizes, read fragmentations and buffer boundary positions",
  "No existing test uses context at all.",
  ["regexp/match.go"],[("lineContext/linePrefixLen/lineSuffixLen","regexp/match.go"),("pre-context slide in Grep.Reader","regexp/match.go")],None,["regexp.Grep.Reader output"])
p("C07","Posting lists contain exactly the files that contain the trigram",
  "After indexing any sequence of eligible files, the posting list of every three-byte sequence is exactly the ascending list of ids of the files whose content contains it, and the name stored for each id is the name the file was added under. Nothing is lost, invented, duplicated or reordered, however many files, trigrams and index blocks there are.",
  ["inputs","histories"],"all file sets, file contents and names; index sizes crossing every internal block, group and buffer boundary",
  "TestTrivialWrite/TestTrivialPosting use six and four tiny fixed files: a single index block, a single name group, one-byte offsets.",
  ["index/write.go","index/read.go","index/delta.go"],[("IndexWriter.add/mergePost/sortPost","index/write.go"),("postDataWriter 256-byte blocks","index/write.go"),("findList/postReader","index/read.go")],
  [("post","pending (trigram, file id) entries","index/write.go")],["index.Index.PostingList","index.Index.Name"])
p("C08","The index does not depend on when entries are spilled to disk",
  "The index file produced for a sequence of files is byte-for-byte the same no matter at which points the writer's in-memory entries were flushed to temporary storage. Merging the sorted runs yields every (trigram, file) entry exactly once in order.",
  ["schedules","inputs"],"all file contents and all placements of spill points",
  "TestTrivialWriteDisk spills at two fixed places for one fixed file set.",
  ["index/write.go","index/read.go"],[("flushPost/mergePost","index/write.go"),("postHeap","index/write.go"),("allPostReader","index/read.go")],
  [("postEnds","ends of spilled runs","index/write.go")],["index file bytes"])
p("C09","Exactly the text files are indexed",
  "A file is indexed exactly if it contains no NUL byte, no byte pair that cannot occur in UTF-8, no line longer than the line limit, no more than the limit of distinct trigrams, is not longer than the length limit and has a name without control characters. A rejected file leaves no trace in the index, and does not affect the files before or after it.",
  ["inputs","histories"],"all file contents and names, in any sequence of accepted and rejected files",
  "All test files are short plain ASCII; no test has a rejected file, a file at a limit, or a reader that delivers data in pieces.",
  ["index/write.go"],[("IndexWriter.add filters","index/write.go"),("validUTF8","index/write.go"),("isValidName","index/write.go")],None,["index.IndexWriter.Add","index.Index.Name"])
p("C10","Posting queries evaluate their Boolean expression exactly",
  "For every index and every AND/OR/ALL/NONE query tree over trigrams, the returned list is exactly the ascending, duplicate-free list of files for which the expression is true given the files' trigrams. The pairwise AND and OR operations return exactly the intersection and union.",
  ["inputs","programs"],"all query trees and all posting lists",
  "TestTrivialPosting checks AND and OR of two fixed lists; nested queries, restriction passing and empty lists are untested.",
  ["index/read.go"],[("postingQuery/postingAnd/postingOr/mergeOr","index/read.go"),("postReader.next restrict filter","index/read.go")],None,["index.Index.PostingQuery","index.Index.PostingAnd","index.Index.PostingOr"])
p("C11","Merging replaces re-indexed trees and keeps everything else",
  "Merging an older and a newer index yields the files of the older index that lie outside every root of the newer one, together with all files of the newer one, in path order, and each trigram's posting list is exactly the corresponding union. The merged root list is the ordered union with roots covered by another root removed.",
  ["inputs","histories"],"all pairs of indexes: roots (nested, equal, prefix-sharing, '/'), file names, contents, index format versions",
  "TestMerge merges one pair of small indexes with three and two roots and no nested or unusual roots.",
  ["index/merge.go","index/path.go"],[("Merge id range maps","index/merge.go"),("postMapReader","index/merge.go"),("Path.HasPathPrefix","index/path.go")],
  [("idrange maps","old id ranges to new ids","index/merge.go")],["index.Merge output via Index.Names/Roots/PostingList"])
p("C12","Incremental updates are equivalent to indexing from scratch",
  "After any sequence of index-and-merge updates, searching the resulting index gives the same files and the same posting lists as an index built in one go from the final state of the roots. In particular updating never fails because of how often, in what order or by which format version earlier updates were made.",
  ["histories","inputs"],"all sequences of updates (roots added, re-added, emptied) and file contents",
  "TestMerge performs one merge; no test merges an index that is itself the result of a merge.",
  ["index/merge.go","index/read.go"],[("posting list terminator handling","index/merge.go"),("Merge","index/merge.go")],None,["index.Merge applied repeatedly"])
p("C13","Integer list coding is lossless and decoding is safe",
  "Every sequence of non-negative deltas written to a posting list is read back identically, in both index format versions, whatever their sizes and bit alignment. Decoding arbitrary bytes either yields a value or reports a corrupt index; it never reads outside the data or loops forever.",
  ["inputs"],"all delta sequences, all byte strings",
  "TestDelta and TestGammaWriter sample fixed and random sequences of valid data; boundary values at particular bit offsets and malformed input are not covered.",
  ["index/delta.go"],[("deltaWriter.writeBits","index/delta.go"),("deltaReader.next64","index/delta.go")],None,["posting list bytes"])
p("C14","Path order is total and keeps every subtree contiguous",
  "The path order is a total order on valid path names in which slash sorts before every other byte, so that a directory, its contents and only its contents form one contiguous run. A path has another as path prefix exactly if it is that path or lies below it.",
  ["inputs"],"all pairs and triples of path names",
  "No test calls the comparison or prefix functions directly; the merge test only uses simple names.",
  ["index/path.go"],[("Path.Compare","index/path.go"),("Path.HasPathPrefix","index/path.go")],None,["index.Path.Compare","index.Path.HasPathPrefix"])
p("C15","Stored names are read back exactly, sequentially and at random",
  "Every list of non-empty paths written to a name list is read back identically, in both format versions, whether read from the start, by single id or as any sub-range, at every position relative to the prefix-compression groups. Reading arbitrary bytes as a name list terminates without reading outside the data.",
  ["inputs"],"all path lists, all id ranges, all byte strings",
  "Tests read at most eight short names, fewer than one compression group.",
  ["index/path.go","index/read.go"],[("PathWriter/PathReader","index/path.go"),("Index.NamesAt/Names/Name","index/read.go")],None,["index.Index.Name","index.Index.Names","index.Index.Roots"])
p("C16","Incomplete index files are recognised, complete ones pass the check",
  "Opening any proper prefix of an index file, as left by an interrupted write, reports a corrupt index instead of giving answers. Every index produced by building or merging opens and passes the integrity check, and a posting list that ends early or runs on after its recorded count is reported by that check.",
  ["crash_points","inputs"],"all truncation points, all index contents",
  "No test opens a truncated index or calls the integrity check.",
  ["index/read.go","index/check.go"],[("Open trailer magic","index/read.go"),("Index.Check","index/check.go")],None,["index.Open","index.Index.Check"])
p("C17","An interrupted update never damages the existing index",
  "If an incremental index update stops at any point, whether killed or because of an error, the index file that searches use is at that moment either the complete old index or the complete new one. A later update succeeds regardless of what the interrupted one left behind.",
  ["crash_points","fault_sequences"],"all points between file-system operations of an incremental update",
  "The command has no tests, and nothing exercises interruption.",
  ["cmd/cindex/cindex.go","index/merge.go","index/write.go"],[("write to side file, merge, rename","cmd/cindex/cindex.go")],None,["file system operations of cindex"])
p("C18","The indexing command indexes exactly the named trees",
  "After a run, the index covers the named roots and everything previously indexed outside them (nothing previous with -reset): each regular, non-hidden, eligible file below a root exactly once, and no hidden or temporary file or directory. Listing shows exactly the roots, and running without arguments re-indexes them.",
  ["inputs","histories","configurations"],"all directory trees, names, root arguments (repeated, nested, missing) and flag combinations",
  "The command has no tests.",
  ["cmd/cindex/cindex.go"],[("walk filter","cmd/cindex/cindex.go"),("root handling and merge","cmd/cindex/cindex.go")],None,["cindex","cindex -list","csearch"])
p("C19","A search finds what a brute-force scan finds",
  "A search, by the search command or in the web interface, prints the same lines as scanning every indexed file with the expression, restricted to files whose name matches the file name expression when one is given, in index order; the command exits 0 exactly if something matched. Case-insensitive, file-list, count and line-number modes agree with the scan too; files that have disappeared are skipped.",
  ["inputs","configurations"],"all expressions, file sets and contents, flag combinations",
  "Neither program has tests.",
  ["cmd/csearch/csearch.go","cmd/csweb/web.go","index/regexp.go","index/read.go","regexp/match.go"],[("candidate selection, -f filter and grep loop","cmd/csearch/csearch.go")],None,["csearch output and exit status"])
p("C20","Text shown in HTML pages never becomes markup",
  "In every HTML page and HTML search result, text taken from the query, from file names, from file contents or from error messages appears only in escaped form, so it cannot introduce tags, attributes or scripts. Un-escaping the displayed text gives back the original characters, each line under its own line number.",
  ["inputs"],"all query strings, file names and file contents",
  "The web server has no tests and no test uses HTML output mode.",
  ["cmd/csweb/web.go","regexp/match.go"],[("html.EscapeString at each output","cmd/csweb/web.go"),("Grep.esc","regexp/match.go")],None,["csweb responses","csearch -html"])
p("C21","The result limit is exact and reported",
  "With a match limit of N, a search outputs exactly the first N matches of the unlimited search, across all files, and reports that it was limited exactly if there was a further match. A search with at most N matches is complete and not reported as limited.",
  ["inputs","configurations"],"all texts, file sequences and limits",
  "No test sets a limit.",
  ["regexp/match.go","cmd/csweb/web.go"],[("Limit/Matches/Limited in Grep.Reader","regexp/match.go")],None,["Grep.Matches","Grep.Limited"])
p("C22","Members of ZIP files are indexed and found like files",
  "With ZIP indexing on, every eligible member of a ZIP file is indexed under a name combining archive and member, in path order, so that searching prints exactly the matching lines of that member; with it off, a ZIP file is treated like any other file. Replacing or removing the archive replaces or removes all its members in the next update.",
  ["inputs","configurations"],"all member names, orders and contents",
  "TestZip has one archive with sorted, unproblematic member names and never searches member contents back.",
  ["index/write.go","cmd/csearch/csearch.go","index/merge.go"],[("IndexWriter.Add zip branch","index/write.go"),("zip lookup in csearch/csweb","cmd/csearch/csearch.go"),("merge limit covers members","index/merge.go")],None,["index.IndexWriter.Add","csearch output"])
p("C23","The trigram set behaves as a mathematical set",
  "After any sequence of insertions and resets, membership, size and enumeration reflect exactly the distinct values inserted since the last reset, in order of first insertion. Leftover data from before a reset never shows through.",
  ["histories","inputs"],"all operation sequences and values",
  "The set has no tests of its own; users of it never check stale entries after a reset.",
  ["sparse/set.go"],[("dense/sparse cross-check","sparse/set.go")],[("dense, sparse","members in insertion order, and their positions","sparse/set.go")],["sparse.Set.Add","sparse.Set.Has","sparse.Set.Dense","sparse.Set.Len"])
p("C24","Old-format indexes answer like new-format ones",
  "An index in the older file format, holding the same files, gives the same names, roots, posting lists and query answers as one in the current format, and can be merged with a current one with the same result.",
  ["inputs","configurations"],"all file sets, names and contents",
  "The old format is checked for one fixed six-file index and one merge.",
  ["index/read.go","index/path.go","index/merge.go","index/delta.go"],[("version switches in the readers","index/read.go")],None,["index.Open on a version 1 file"])
p("C25","Concurrent searches share no mutable state",
  "Searches and page views running at the same time in one process, each with its own compiled expression and index handle, never write memory that another one reads or writes without synchronisation. Each therefore gives the answer it gives when run alone.",
  ["schedules","inputs"],"all interleavings of concurrent requests, all inputs",
  "No test runs two searches concurrently, and the race detector is not part of the suite.",
  ["regexp/match.go","index/read.go","cmd/csweb/web.go"],[("per-request Regexp, Grep and Index","cmd/csweb/web.go"),("shared final automaton state is never modified","regexp/match.go")],
  [("dmatch","package-level final automaton state","regexp/match.go")],["csweb handlers"])
p("C26","Links lead to what they name",
  "Following a link of a search result leads to the page of exactly the file it names, at the line it shows; following a link of a directory page, or one of the links to the directories above a page, leads to exactly the file or directory it names. This holds whatever characters the names and the expression contain.",
  ["inputs"],"all file and directory names that can be indexed, all expressions, all line numbers",
  "The web server has no tests and no test uses HTML output mode.",
  ["cmd/csweb/web.go","regexp/match.go"],[("href of each result","regexp/match.go"),("printHeader/serveDir links, show","cmd/csweb/web.go")],
  None,["csweb responses","csearch -html"])
p("C27","Every program uses the index the environment names and touches nothing else",
  "cindex writes, and csearch and csweb read, the index named by $CSEARCHINDEX or, if that is empty or not set, $HOME/.csearchindex, and no other. When cindex has finished, the only file it has created, changed or removed is that index: no temporary file is left behind, and no indexed file, nor any other index, is altered. Searching, listing and checking change no file at all.",
  ["configurations","histories"],"all settings of the environment, all sequences of cindex and csearch runs, all options",
  "No test runs a command; the tests name their index files themselves and do not look at what is left behind.",
  ["index/read.go","index/write.go","index/merge.go","cmd/cindex/cindex.go","cmd/csearch/csearch.go","cmd/csweb/web.go"],[("File","index/read.go"),("removal of temporary files in Flush and Merge","index/write.go"),("replacement of the index","cmd/cindex/cindex.go")],
  None,["the files of the index, home and temporary directories"])
p("C28","Diagnostics change nothing",
  "Asking for diagnostics changes no result: cindex writes byte for byte the same index with -verbose, -check, -stats or -cpuprofile as without, csearch and cgrep print the same with the same exit status with -verbose or -cpuprofile, and a page of csweb has the same results with -verbose. Without these options nothing is printed but results and errors.",
  ["inputs","configurations"],"all trees, texts, expressions and options",
  "No test runs a command or sets a verbose flag.",
  ["cmd/cindex/cindex.go","cmd/csearch/csearch.go","cmd/cgrep/cgrep.go","cmd/csweb/web.go","index/write.go","index/regexp.go"],[("verbose and check branches","cmd/cindex/cindex.go"),("verbose branches","cmd/csearch/csearch.go"),("ix.Verbose","index/write.go")],
  None,["index bytes, standard output and exit status of pairs of runs"])
p("C29","Errors are reported and confined to what they concern",
  "An expression that does not parse, for lines or for file names, makes a command print no result, say what is wrong and exit with a failure; the web page shows just the error. A file or member of an archive that cannot be read or indexed is named in a message and every other file is searched or indexed exactly as if it were not there; one that has gone or been closed to the user since it was indexed is passed over silently by a search. A command without an index or with wrong arguments says so and creates nothing.",
  ["inputs","fault_sequences"],"all malformed expressions, all positions of unreadable files, all names",
  "No test runs a command, and no test has an unreadable file.",
  ["cmd/cgrep/cgrep.go","cmd/csearch/csearch.go","cmd/cindex/cindex.go","cmd/csweb/web.go","regexp/match.go","index/write.go"],[("Grep.File and the read error in Grep.Reader","regexp/match.go"),("the walk function","cmd/cindex/cindex.go"),("errors of Compile","cmd/csearch/csearch.go")],
  None,["standard output, standard error and exit status; csweb responses"])
p("C30","Nothing read stays open",
  "However many files, directories and archives they read, the programs hold only a few of them open at a time: with a limit on open files well below the number of files, cindex writes the same index and cindex, csearch and cgrep print the same and exit the same as without a limit, whatever the files are and however reading each of them ends. The web server can answer any number of requests: a request it has answered, with whatever outcome, leaves no file or archive open and no index mapped.",
  ["inputs","histories"],"all kinds of files and outcomes, all histories of requests",
  "Tests read few files in one process and stop; what each leaves behind shows only after thousands.",
  ["cmd/csweb/web.go","cmd/csearch/csearch.go","index/write.go","index/read.go","regexp/match.go"],[("Grep.File","regexp/match.go"),("IndexWriter.AddFile","index/write.go"),("home","cmd/csweb/web.go"),("mmapFile","index/mmap_linux.go")],
  None,["output and index under a limit on open files; /proc/self/fd and /proc/self/maps between requests"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
