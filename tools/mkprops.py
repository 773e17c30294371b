#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text is easy to edit)."""
import json
G="textseg/grapheme_clusters.go"; T="textseg/internal/charprops/property_table.go"
R="textseg/internal/charprops/property_table_raw.go"; P="textseg/internal/charprops/properties.go"
M="textseg/internal/machine/state.go"; GT="textseg/internal/charprops/gentable/generate.go"
GM="textseg/internal/charprops/generate.go"; U="textseg/internal/charprops/ucdparse/ucd_scan.go"
TD="textseg/internal/charprops/ucdparse/testdata_scan.go"
A15="autoversion/textseg/unicode15.go"; A17="autoversion/textseg/unicode17.go"; AV="autoversion/textseg/version_agnostic.go"
props=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=list(observe)
    a["hook_needed"]=hook
    props.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Valid text is split exactly at UAX #29 extended grapheme cluster boundaries",
 "For every valid UTF-8 text, repeatedly applying ScanGraphemeClusters yields exactly the extended grapheme clusters that UAX #29 for Unicode 17.0 defines (rules GB1-GB999, including conjuncts GB9c, emoji ZWJ sequences GB11 and flag pairing GB12/GB13): no boundary is added and none is missed.",
 ["inputs"],"every finite sequence of Unicode scalar values",
 "The tests run the roughly 770 strings of GraphemeBreakTest.txt, nearly all of two or three characters with one sample character per property value; they say nothing about other characters, other combinations or longer look-behind.",
 [G,M,T,R],[("split loop","ScanGraphemeClusters in "+G),("boundary rules and state transitions","State.Transition, State.nextState in "+M),("character classes","LookupFirstChar in "+T)],
 [("State","what is remembered of the characters before the previous one",M),("prev","class of the previous character",G)],["textseg.ScanGraphemeClusters result"])
p("C02","Every scalar value is classified exactly as the Unicode 17.0 data says",
 "Each of the 1,112,064 Unicode scalar values takes part in segmentation with exactly the Grapheme_Cluster_Break, Extended_Pictographic and Indic_Conjunct_Break values that the Unicode 17.0 character database assigns to it, and every scalar value which the database does not list behaves as 'Other' with no conjunct property. This holds in every context in which the character can appear.",
 ["inputs"],"every scalar value, in every segmentation context",
 "The tests look up only the characters that the data files list, each only for the one property that the file lists; more than a million unlisted characters are never looked up, and no test checks that a listed character has nothing else.",
 [T,R,P],[("three-level table lookup","LookupFirstChar in "+T),("generated table",R)],
 [("lookupIndices, lookupProps","block-compressed map from UTF-8 bytes to properties",R)],["charprops.LookupFirstChar","textseg.ScanGraphemeClusters on texts holding the character"])
p("C03","Segmentation does not depend on how the input is chunked",
 "For every byte sequence, valid UTF-8 or not, and every way of delivering it in chunks (including a reader that fails part way or returns data together with an error, and any scanner buffer size that can hold the clusters), bufio.Scanner with ScanGraphemeClusters yields the same tokens as one call sequence over the whole delivered input; with a buffer that is too small it yields the first of them and then bufio.ErrTooLong, at the first cluster that cannot be decided within the buffer. In particular a token returned while more input may follow is never one that further input would have extended or changed.",
 ["inputs","histories","fault_sequences"],"every byte sequence, every partition of it into reads, every read failure point, and every initial buffer size",
 "The tests deliver well-formed sample strings either whole or one byte at a time; other partitions, malformed input in chunks, reader errors and calls whose buffer ends inside a character are reached by two hand-written cases.",
 [G,T],[("request for more data when undecided","returns of (0, nil, nil) in ScanGraphemeClusters, "+G),("incomplete-sequence detection","length check in LookupFirstChar, "+T)],(),["bufio.Scanner tokens","textseg.ScanGraphemeClusters(data, atEOF) for every prefix"])
p("C04","Any bytes at all: no panic, no error, always progress, nothing lost or altered",
 "For every byte slice and either value of atEOF, ScanGraphemeClusters returns without panicking, with a nil error, and either asks for more input (zero advance and nil token, only when not at EOF or when the input is empty; an empty or nil slice always gives this) or returns a non-empty token that is exactly the first 'advance' bytes of the slice it was given, sharing its memory. It never modifies the slice or reads beyond its length, so the tokens of a whole input concatenate to that input and scanning always terminates.",
 ["inputs"],"every byte slice (including overlong, surrogate, out-of-range and truncated encodings) and both values of atEOF",
 "Tests feed almost only well-formed text; of malformed input they try three literals.",
 [G,T,R],[("fallback to single-byte tokens","Error and count==0 branches of ScanGraphemeClusters, "+G),("bounds of table indices","LookupFirstChar in "+T)],(),["textseg.ScanGraphemeClusters results and the memory of its argument"])
p("C05","Each invalid byte is its own cluster and does not disturb its neighbours",
 "Every byte that is not part of a structurally well-formed UTF-8 sequence (stray continuation bytes, impossible lead bytes, lead bytes not followed by enough continuation bytes) is reported as a cluster of exactly that one byte. The well-formed text before and after it is segmented exactly as if the invalid byte were the end and the start of the text, whatever cluster or rule was in progress.",
 ["inputs"],"every byte sequence mixing well-formed characters of every class with malformed bytes and truncated sequences at every position",
 "No test checks the segmentation of text that mixes invalid bytes with multi-character clusters, apart from one truncated lead byte at the end of input.",
 [G,T],[("Error class and early return","ScanGraphemeClusters in "+G),("structural validation","LookupFirstChar in "+T)],(),["textseg.ScanGraphemeClusters tokens"])
p("C06","A cluster is delivered as soon as the input that decides it has arrived",
 "When more input may follow, ScanGraphemeClusters asks for more only while the first cluster's end is still open in the bytes it holds: as soon as the buffer holds the cluster and the complete character, or certainly invalid byte, that follows its end, the call returns the cluster. A sequence that can no longer become well-formed whatever bytes follow (such as a lead byte followed by a non-continuation byte) counts as certainly invalid at once, so at most one incomplete sequence is ever awaited.",
 ["inputs","histories"],"every byte sequence and every prefix of it as the currently buffered data",
 "The tests collect tokens only at the end of the input, so a scanner which withheld every token until EOF would pass them; no test calls the function without EOF and expects a token.",
 [G,T],[("decision after one look-ahead character","loop in ScanGraphemeClusters, "+G),("early rejection of impossible sequences","LookupFirstChar in "+T)],(),["textseg.ScanGraphemeClusters(data, false)"])
p("C07","Calls are independent of each other: no hidden state, safe to use concurrently",
 "The result of a ScanGraphemeClusters call depends only on the bytes and the atEOF flag of that call: not on any earlier call, on other scanners being advanced in between, on reuse of the same buffer with different contents, nor on calls executing concurrently in other goroutines. Concurrent use needs no locking and has no data race.",
 ["schedules","histories"],"every sequence of calls, every interleaving of scanners, and every thread schedule",
 "The tests run one scanner at a time in one goroutine from start to end.",
 [G,M,T],[("local state only","ScanGraphemeClusters in "+G),("read-only tables",R),("value-type State",M)],(("lookupIndices, lookupProps, zeroProperties","package variables, only ever read",T),),["results of concurrently executing textseg.ScanGraphemeClusters calls"],
 "none in /repo: scheduling points are inserted into a build-time copy by source rewriting")
p("C08","The property table is what the generator makes of the Unicode data, for any data",
 "The committed lookup table, and the one made by running the table generator on the repository's Unicode data files, give every scalar value exactly the properties in those files. For any other well-formed data files, the generated table gives every scalar value exactly the properties that the files assign (the union of its break or pictographic value and its conjunct value, and nothing for an unlisted scalar value), or generation fails visibly; it never silently produces a table that differs from the data.",
 ["inputs","programs"],"every well-formed set of property data files, in particular every placement of ranges relative to block and encoding-length limits",
 "No test runs the generator: its package has no tests, and the checked-in table is never regenerated by the build.",
 [GT,GM,R,U],[("tree construction","treeInProgress.ensureProps in "+GT),("block deduplication","treeInProgress.Compact, buildCompactedBlocks in "+GT),("rendering","main in "+GM)],(("rawProps, indices","tree under construction",GT),("propBlockIdxs, indexBlockIdxs","blocks already emitted, by content",GT)),["property_table_raw.go produced by go generate","gentable.BuildRawPropertyTree"])
p("C09","Unicode data files are read completely and exactly, and read errors surface",
 "For every file in the UCD property format, the scanner yields one entry per data line, in order, with exactly the code point range and the trimmed fields written there, ignoring comments, blank lines and lines with no fields, whatever the spacing around the fields, line endings, presence of a final newline, or chunking of the reader, and however often or how far the fields are iterated. The break-test scanner likewise yields exactly the characters and segments of each test line; malformed code points and read errors end the iteration with an error, never with a clean end of file.",
 ["inputs","fault_sequences"],"every file in the format, every chunking, and every read failure point",
 "One small example file is parsed by one test, with one spacing style; ranges, final lines without newline, failing readers and malformed numbers are not tried.",
 [U,TD],[("line and field splitting","Scanner.NextEntry in "+U),("segment splitting","TestDataScanner.NextEntry in "+TD)],(),["ucdparse.Scanner.NextEntry","ucdparse.TestDataScanner.NextEntry"])
p("C10","autoversion uses the Unicode version of the Go release and is fully transparent",
 "For every supported Go release (1.21 to 1.27) on every platform, exactly one versioned implementation is selected, the one for the Unicode version of that release's standard library, UnicodeMajorVersion equals the major part of unicode.Version, and with an unsupported release the ScanGraphemeClusters function is missing. For every input and atEOF value, autoversion's ScanGraphemeClusters returns exactly what the selected version's function returns.",
 ["configurations","inputs"],"every Go release and platform, and every input with either atEOF value",
 "The one test counts the clusters of one string at EOF under two releases; it does not look at UnicodeMajorVersion, other releases or platforms, streaming calls, or which version's rules were used.",
 [A15,A17,AV],[("build constraints",A15),("build constraints",A17)],(),["autoversion textseg.ScanGraphemeClusters, textseg.UnicodeMajorVersion under each Go release"])
p("C11","autoversion's token helpers return every token, intact, for inputs of any size",
 "For every buffer and split function, AllTokens returns exactly the tokens that the split function recognises in the buffer, in order and with their contents intact afterwards, TokenCount returns their number, and both report the split function's or scanner's error; other calls, at the same time, from within the split function, or later, make no difference. ScanUTF8Sequences delivers each well-formed UTF-8 sequence and each invalid byte as one token as soon as it is decided, independent of chunking and of literal U+FFFD characters, so that its tokens concatenate to the input.",
 ["inputs","histories"],"every buffer (in particular larger than the scanner's internal buffer), split function, and chunking",
 "TokenCount is called on one 24-byte string; AllTokens and ScanUTF8Sequences have no test in this repository, and the flaws corrected here needed more than 4096 bytes, or an invalid byte before the end, to show.",
 [AV],[("token copying","AllTokens in "+AV),("early decision","ScanUTF8Sequences in "+AV)],(),["autoversion textseg.AllTokens, TokenCount, ScanUTF8Sequences"])
p("C12","The boundary state machine is exact when run across a whole text",
 "Fed the classes of any text one character at a time, starting at its first character and continuing across cluster boundaries, the segmentation state machine decides every boundary exactly as UAX #29 does for the whole text. It accepts every class in every reachable state without panicking, and its verdict depends only on what it was fed since the start.",
 ["inputs","histories"],"every finite sequence of character classes",
 "The package has no tests; the public scanner restarts it at each boundary, so no test ever runs it across one.",
 [M],[("rules","State.Transition in "+M),("state update","State.nextState in "+M)],(("State","StateBase, StateAwaitEmojiFlag, StateGB11BeforeZWJ, StateGB11AfterZWJ, StateGB9cConsonant, StateGB9cLinker",M),),["machine.Begin, State.Transition"])
p("C13","UTF-8 sequences are delimited correctly for every possible buffer",
 "For every buffer the character lookup reports exactly one of: a complete structurally valid sequence with its length (1 to 4), 'incomplete' (length zero) exactly when the buffer is a proper prefix of some structurally valid sequence, or 'invalid' with length one in all other cases. The outcome for a complete sequence depends only on the bytes of that sequence, and no buffer makes the lookup panic.",
 ["inputs"],"every byte buffer of every length",
 "Five literals exercise incomplete and invalid input; all other lookups in the tests are of buffers holding exactly one valid character.",
 [T,R],[("lead byte classification and continuation checks","LookupFirstChar in "+T)],(),["charprops.LookupFirstChar"])
p("C14","Property values, their packed form and their names correspond one to one",
 "Packing any break (or pictographic) value with any conjunct value and unpacking it gives both back, also when one or both are the error values, which are distinct from all others; packing both error values, and nothing else, gives the error marker; exactly CR, LF and Control count as controls, and parsing a property value's printed name gives the value back. Any name other than the Unicode names of the supported values is parsed as 'none', and distinct values print differently.",
 ["inputs"],"every pair of property values, every byte value of the packed form, and every name",
 "Tests use the name lookups as their own oracle and only with names present in the data files; packing, printing and unknown names are not tested.",
 [P],[("bit layout","CharProperties in "+P),("name tables","LookupGCBProperty, LookupEmojiProperty, LookupInCBProperty, String in "+P)],(),["charprops value methods and lookups"])
p("C15","Table generation fails loudly and never leaves a damaged table claimed good",
 "If a data file is missing, unreadable, malformed, assigns conflicting values, or yields a table too large for its index type, or if the output cannot be created or fully written, the generator exits unsuccessfully with a message; when the failure is in reading or building, the existing table file is left untouched. Success means that the complete table was written.",
 ["fault_sequences","inputs"],"every input file failure, malformed content and output failure point",
 "The generator is compiled but never run by the tests.",
 [GM,GT],[("error propagation","BuildRawPropertyTree in "+GT),("write error handling","main in "+GM)],(),["exit status of generate.go and the content of property_table_raw.go"])
p("C16","Cluster length, count and position never affect boundary decisions",
 "Boundary decisions depend only on the UAX #29 rules, however long the text before, inside or after a cluster is: arbitrarily long runs of combining marks, spacing marks, prepended marks, jamo, conjunct links, emoji ZWJ sequences and regional indicators are kept together or paired to their very end, and the position or size of the buffer makes no difference.",
 ["inputs"],"every repetition count of every repeatable rule pattern, with every prefix and suffix",
 "The longest test string has fewer than ten characters.",
 [G,M],[("constant-size state","State in "+M),("unbounded loop","ScanGraphemeClusters in "+G)],(("state, prev, count","progress through the current cluster",G),),["textseg.ScanGraphemeClusters on long inputs"])
p("C17","The work of a call depends on the first cluster only, not on the buffer's size",
 "The work that one call of ScanGraphemeClusters does (memory it reads or allocates, and statements it executes) is at most proportional to the length of the token it returns plus a bounded look-ahead, or to the length of the buffer when it has to ask for more; it never grows with what follows the first cluster in the buffer, nor faster than linearly with the cluster. So splitting any text that is in memory takes time linear in its length, and hostile input cannot make it quadratic.",
 ["inputs"],"every buffer content and length, and both values of atEOF",
 "A test that splits a short string returns the same tokens however much of the buffer is read for each of them; no test uses a buffer long enough to notice.",
 [G,T,M],[("loop that ends at the first boundary","ScanGraphemeClusters in "+G),("look-ahead of one character","LookupFirstChar in "+T)],(),["memory touched and statements executed by textseg.ScanGraphemeClusters"])
p("C18","A program that uses autoversion carries only the selected Unicode version",
 "Whatever part of the autoversion package's API a program uses, and with whichever supported Go release it is built, the program contains the segmentation code and character tables of the selected Unicode version only: the grapheme cluster scanner and the tables of the other versions are not linked in.",
 ["configurations","programs"],"every supported Go release and every subset of the package's exported names that a program refers to",
 "Tests see what functions return, not what the linker keeps; a test binary refers to many names at once.",
 [A15,A17,AV,"autoversion/textseg/doc.go"],[("selection by build constraints","build tags of "+A15+" and "+A17),("helpers shared by all versions","imports of "+AV)],(),["symbols of linked programs (go tool nm -size)"])
p("C19","Segmentation is the same on every platform and in every build",
 "The library compiles for every port of every Go release it supports, and every build of it (for 32 and 64 bit processors of either byte order and for WebAssembly, with any supported release, with or without optimisation, cgo, the race detector, and any build tags) gives exactly the same result for the same call.",
 ["configurations","inputs"],"every build configuration (release, port, cgo, sanitizer, build tags) and every input",
 "The tests run in the one configuration of the machine that runs them.",
 [G,T,R,M,P],[("portable code without build constraints",G+", "+M+", "+T),("integer widths of table indices and packed values","LookupFirstChar in "+T)],(),["textseg.ScanGraphemeClusters results in programs built for each configuration"])
p("C20","The generated table is a function of the data files alone, and reproducible",
 "For any data files, every run of the table generator writes byte for byte the same table file, whatever the runtime's random choices (map iteration order, hash seeds, scheduling), the time, the environment, the working directory, the previous content of the file, and where the data files lie.",
 ["schedules","configurations","inputs"],"every set of data files, every resolution of the runtime's nondeterminism, and every environment of the generator run",
 "No test runs the generator; and one run of it could not show what another run writes.",
 [GM,GT,R],[("blocks numbered in the order of a tree walk","Compact and buildCompactedBlocks in "+GT),("rendering and formatting of the file","main in "+GM)],(("propBlockIdxs, indexBlockIdxs","maps from block contents to block numbers",GT),),["the bytes of property_table_raw.go"])
p("C21","Results depend on the arguments only, and calls leave nothing behind",
 "What the public functions return is determined by their arguments: it is the same at any time and speed of the clock, in any environment, locale and working directory, on any number of processors, and whatever the runtime chooses at random. And a call has no effect but its results: it writes nothing (no output, no file, no log), asks nothing of the operating system that changes or reads files, starts no goroutine that outlives it, keeps no reference to the caller's buffer, and does not add to the memory that the process holds, however many different texts have been processed.",
 ["configurations","inputs","histories"],"every input, in every environment of the process, and after any number of calls",
 "The tests run in one environment, look at return values only, and end after a few thousand short calls.",
 [G,T,M,AV],[("pure functions without package variables","ScanGraphemeClusters in "+G+", State in "+M+", LookupFirstChar in "+T),("private scanner per call","AllTokens and TokenCount in "+AV)],(),["results of textseg and autoversion functions","standard output and error, system calls, goroutines, descriptors, heap, weak pointers to buffers"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in props))
try:
    import jsonschema
    s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for x in props: jsonschema.validate(x,s)
    print("valid",len(props))
except ImportError: print("jsonschema not available",len(props))
