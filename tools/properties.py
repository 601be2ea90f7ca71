import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
GC="textseg/grapheme_clusters.go"; ST="textseg/internal/machine/state.go"; PT="textseg/internal/charprops/property_table.go"; RAW="textseg/internal/charprops/property_table_raw.go"; PR="textseg/internal/charprops/properties.go"
GT="textseg/internal/charprops/gentable/generate.go"; GEN="textseg/internal/charprops/generate.go"; US="textseg/internal/charprops/ucdparse/ucd_scan.go"; TD="textseg/internal/charprops/ucdparse/testdata_scan.go"
A15="autoversion/textseg/unicode15.go"; A17="autoversion/textseg/unicode17.go"; AV="autoversion/textseg/version_agnostic.go"
st=[("state","which multi-character rule the text so far is in the middle of",ST)]
p("C01","Clusters of valid text are exactly those of UAX #29 for Unicode 17",
 "For every valid UTF-8 text, of any length and any mixture of characters, the grapheme clusters reported when scanning it from its beginning to its end are exactly the extended grapheme clusters defined by the rules of UAX #29 over the Unicode 17.0.0 character data. This includes arbitrarily long runs of combining, conjoining, emoji-joining, Indic-conjunct and regional-indicator characters.",
 ["inputs"],"All finite sequences of Unicode scalar values encoded as UTF-8.",
 "The tests sample the official break-test lines (at most a dozen characters each) and pairs of characters; the rules GB9c, GB11 and GB12/13 look back over unbounded context, so the input space is infinite.",
 [GC,ST,PT,RAW,PR],[("rules GB3-GB999","machine.State.Transition"),("look-back compressed to a state","machine.State.nextState"),("two-level property table","charprops.LookupFirstChar")],["textseg.ScanGraphemeClusters"],st)
p("C02","Any byte string is split completely, losslessly and without error",
 "For every byte string, valid UTF-8 or not, scanning to the end terminates without a panic or an error, and the clusters reported are non-empty and concatenate to exactly the input. Each single call returns a token that is precisely the first bytes it consumes from its input, or consumes nothing and returns no token, and at the end of input it always consumes something while any bytes are left.",
 ["inputs"],"All byte strings, every prefix and suffix of them, at and not at end of input.",
 "Tests try a handful of malformed sequences; losslessness and totality must hold for every arrangement of stray, truncated and impossible bytes and at every cut.",
 [GC,PT],[("one byte consumed for anything undecodable","textseg.ScanGraphemeClusters"),("invalid and incomplete are told apart","charprops.LookupFirstChar")],["textseg.ScanGraphemeClusters"])
p("C03","Clusters do not depend on how the input is delivered",
 "For every byte string and every way of delivering it - any chunking down to single bytes, empty reads, redundant calls, end of input announced with or after the last bytes, any buffer size that suffices - the sequence of clusters is the same as when the whole input is offered at once.",
 ["inputs","schedules"],"All byte strings times all delivery schedules.",
 "The tests deliver each sample in one piece or byte by byte; there are 2^(n-1) chunkings of n bytes, and the risk lies in cuts inside characters next to particular contexts.",
 [GC,PT],[("more data requested unless a boundary is certain","textseg.ScanGraphemeClusters"),("incomplete sequences reported as such","charprops.LookupFirstChar")],["textseg.ScanGraphemeClusters","bufio.Scanner"])
p("C04","A cluster reported before the end of input is final",
 "Whenever a cluster is reported while the input has not ended, then no bytes that may follow - characters of any kind, malformed bytes, more bytes of a truncated character, or the end of input - would change that cluster.",
 ["inputs","histories"],"All incomplete buffers times all continuations of them.",
 "Every early report makes a claim about all possible futures; tests only ever see the one future in the sample.",
 [GC,ST],[("boundary decided only by complete next character","textseg.ScanGraphemeClusters")],["textseg.ScanGraphemeClusters"])
p("C05","A finished cluster is reported without needless waiting",
 "A cluster of complete characters is reported as soon as the complete next character has arrived, and any cluster at the latest once four bytes beyond its end have arrived. At the end of input the next cluster is reported at once, so that a streaming reader never has to hold back finished clusters or to buffer more than the current cluster plus four bytes.",
 ["inputs","schedules"],"All byte strings and all amounts of data present beyond the cluster.",
 "Tests compare final tokens only, and these are the same if the scan function asks for more data forever or until a later boundary.",
 [GC,PT],[("returns at the first certain boundary","textseg.ScanGraphemeClusters"),("a sequence counts as incomplete only while its announced bytes are missing","charprops.LookupFirstChar")],["textseg.ScanGraphemeClusters","bufio.Scanner"])
p("C06","Malformed bytes are isolated and leave the text around them intact",
 "Every byte that belongs to no structurally complete UTF-8 sequence becomes a cluster of its own, and every maximal run of valid text between such bytes is split exactly as if it were a whole text by itself. (Structurally complete but overlong, surrogate or out-of-range sequences are documented as unspecified and are excluded.)",
 ["inputs"],"All byte strings without structurally complete but forbidden sequences.",
 "The tests contain a few malformed samples; what is needed is every stray or truncated sequence at every position of every context, including inside multi-character constructs.",
 [GC,PT],[("invalid byte ends the cluster","textseg.ScanGraphemeClusters"),("sequence structure check","charprops.LookupFirstChar")],["textseg.ScanGraphemeClusters"])
p("C07","Scanning is a pure function: no history, no hidden state",
 "The result of a call depends only on the bytes passed and on whether the input has ended: never on earlier calls, on how often or with what other inputs the function was called, on where in memory the bytes lie, or on what that memory held before.",
 ["histories"],"All sequences of calls over all inputs and buffer placements.",
 "Each test makes few calls with fresh buffers in a fixed order; state carried between calls (caches, counters, retained pointers) shows only in particular histories.",
 [GC,ST,PT],[("all state in local variables","textseg.ScanGraphemeClusters"),("read-only tables","charprops property tables")],["textseg.ScanGraphemeClusters"])
p("C08","Concurrent use from any number of goroutines is safe",
 "Any number of goroutines may use the module at the same time, on the same or different read-only inputs, without synchronisation: there is no data race, and every call returns what it would return alone.",
 ["schedules"],"All interleavings of concurrent calls.",
 "The tests are sequential; a shared cache or lazily initialised table passes all of them.",
 [GC,ST,PT,AV],[("no writes to package state","textseg, machine, charprops packages"),("immutable tables","property_table_raw.go")],["textseg.ScanGraphemeClusters","autoversion AllTokens/TokenCount/ScanUTF8Sequences"])
p("C09","Input memory is only read, within its bounds, and not kept",
 "A call never writes to the input, not even temporarily, is not influenced by any byte outside the slice it is given (before it, or between its length and capacity), and the memory is not used any more by the library once the call has returned.",
 ["inputs","histories"],"All inputs in all memory placements, and the calls that follow after a buffer was withdrawn or reused.",
 "Ordinary slices in tests tolerate stray reads beyond the length, temporary writes and retained references without any visible effect.",
 [GC,PT],[("bounds-checked slicing","textseg.ScanGraphemeClusters"),("length check before multi-byte access","charprops.LookupFirstChar")],["textseg.ScanGraphemeClusters"])
p("C10","Every code point has its Unicode 17 segmentation behaviour",
 "Each of the 1,112,064 Unicode scalar values, in every role it can play next to characters of any class, behaves according to its Unicode 17.0.0 properties, including unassigned, private-use and noncharacter code points and the first and last code point of every range.",
 ["inputs"],"All scalar values times all left and right contexts that distinguish property classes.",
 "The tests look at the few thousand code points that occur in samples; a table error for any other one goes unnoticed.",
 [RAW,PT,PR],[("compressed tables by encoded length","charprops property tables"),("table lookup","charprops.LookupFirstChar")],["textseg.ScanGraphemeClusters"])
p("C11","Cost is bounded by the cluster, never by the rest of the buffer",
 "The work of a call is linear in the length of the cluster it reports and independent of how much data lies behind it: no more than four bytes past the cluster are looked at, clusters of a million characters are handled without deep recursion or quadratic time, and memory is not allocated in proportion to the input.",
 ["inputs"],"All inputs, in particular very long clusters and very large buffers.",
 "Test inputs are a few dozen bytes, on which quadratic work, validation of the whole buffer or recursion cost nothing.",
 [GC],[("single forward pass over one cluster","textseg.ScanGraphemeClusters")],["textseg.ScanGraphemeClusters"])
p("C12","Read errors and buffer limits lose and invent nothing",
 "When a reader fails after any number of bytes, alone or along with its last bytes, the clusters of exactly the bytes delivered come out and then that error; when the buffer limit is too small for a cluster, all clusters before it come out and then the too-long error, and clusters that fit the limit with four bytes to spare never hit it.",
 ["fault_sequences","inputs"],"All byte strings times all fault positions, delivery schedules and buffer limits.",
 "No test reads from a failing reader or with a small buffer limit.",
 [GC],[("at-end flag ends pending clusters","textseg.ScanGraphemeClusters"),("no more look-ahead than one character","textseg.ScanGraphemeClusters")],["bufio.Scanner over textseg.ScanGraphemeClusters"])
p("C13","The automatic module follows the Unicode version of the Go release",
 "In a program built with any Go release the module supports, the automatically selected splitter implements the grapheme cluster rules and data of exactly that Unicode version which the standard library of that release implements. With a release whose Unicode version it does not know, it must refuse to build rather than select a wrong version.",
 ["configurations","inputs"],"All supported Go releases and a future one, times all code points and contexts on which the candidate versions differ.",
 "The test run uses one toolchain and one sample; a wrong selection for another release is never executed.",
 [A15,A17],[("build constraints by Go release","unicode15.go, unicode17.go")],["autoversion textseg.ScanGraphemeClusters under Go 1.25, 1.26, 1.27"])
p("C14","The automatic splitter behaves identically to the version it selects",
 "For every input, whether or not at the end of input, in single calls and in streams, the automatically selected splitter returns the same number of bytes, the same token and the same error as calling the implementation of the selected Unicode version directly.",
 ["inputs","configurations"],"All byte strings, both end-of-input flags, under every supported Go release.",
 "The one existing test checks one sample per version at the end of input.",
 [A15,A17],[("delegation","unicode15.go, unicode17.go")],["autoversion textseg.ScanGraphemeClusters"])
p("C15","Collected tokens and token counts are what the scanner really yielded",
 "For every input and every split function that a standard scanner accepts - including ones that fail, skip bytes, end early, return empty tokens or tokens in their own memory, or panic - the collected tokens, their count, the error and any panic are exactly what a caller driving a standard scanner himself and copying every token would see. The collected tokens stay intact afterwards, whatever else is called, each in memory of its own, so that changing one or appending to it changes no other; and the input is not modified.",
 ["inputs","programs","histories"],"All inputs (also longer than the scanner's internal buffers), split functions and later calls.",
 "The existing tests collect tokens of inputs far smaller than the scanner's buffer, with well-behaved split functions.",
 [AV],[("copying collection loop","AllTokens"),("counting loop","TokenCount")],["autoversion textseg.AllTokens, TokenCount"])
p("C16","The UTF-8 sequence splitter yields exactly the sequences of the input",
 "For every byte string and every delivery of it, the tokens of the UTF-8 sequence splitter are the valid sequences, each whole (also an encoded U+FFFD), and the invalid bytes, each alone, exactly the pieces that ranging over the Go string yields. A valid sequence is reported as soon as it is complete and anything once four bytes are present, so that no delivery or read error stalls it or loses bytes.",
 ["inputs","schedules","fault_sequences"],"All byte strings times all deliveries and read faults.",
 "No existing test runs the splitter on U+FFFD, truncated or invalid sequences, or in pieces.",
 [AV],[("rune decoding with completeness check","ScanUTF8Sequences")],["autoversion textseg.ScanUTF8Sequences"])
p("C17","Regenerating the table from the shipped Unicode data changes nothing",
 "Running the documented generation step on the data files shipped in the repository always succeeds, gives the same file every time, whatever the environment or the old table, and a library built with that file behaves, for every code point in every context, identically to the committed one, both being what the shipped data say.",
 ["configurations","inputs"],"All runs of the generator on the shipped data, and all code points.",
 "No test runs the generator; the committed table and the generator can drift apart unnoticed.",
 [GEN,GT,US,RAW],[("generator program","charprops/generate.go"),("table layout and deduplication","gentable.generateTables")],["property_table_raw.go, and the library built with it"])
p("C18","The generator gives a right table for any well-formed Unicode data",
 "For any well-formed data files - any assignment of break properties to code points, in any order, layout and grouping into ranges, as another Unicode version may have it (which leaves alone what is stable, such as ASCII) - the generator either writes a table with which every code point behaves as those data say, or fails with a message because the data do not fit its table format. Data of ordinary size are always accepted.",
 ["inputs"],"All assignments of properties to code points and all ways of writing them as data files.",
 "No test generates a table; only the one shipped data set was ever run, which exercises few of the layout, deduplication and numbering paths.",
 [GEN,GT,US,PT],[("block deduplication and numbering","gentable"),("property extraction","charprops/generate.go")],["generated table compiled into the library"])
p("C19","The generator never succeeds with a wrong or partial table",
 "If a data file is missing, unreadable or has an entry that is malformed or cut short - a range that is none, no property, a Grapheme_Cluster_Break or Indic_Conjunct_Break value that does not exist - or contradicts another, or if the output cannot be written completely, the generator ends with a failure status and a message. It never reports success while the table on disk is not the complete table for the data, and on faulty input it leaves the previous table untouched.",
 ["fault_sequences"],"All positions of malformed lines, missing or unreadable files, and write failures at every offset.",
 "No test runs the generator, let alone under faults.",
 [GEN,US],[("error propagation","charprops/generate.go"),("entry validation","ucdparse.Scanner.NextEntry"),("table written at the end","charprops/generate.go")],["exit status, messages and property_table_raw.go of the generator"])
p("C20","The break machine is right when run on over a whole text",
 "Started once at the first character of any valid text and then stepped from character to character through all of the text without ever being restarted at a boundary, the break machine reports a boundary exactly where UAX #29 has one.",
 ["inputs","histories"],"All sequences of characters, hence all reachable machine states times all next characters.",
 "The public function restarts the machine at every boundary, so the states carried over a boundary are never observed by any test.",
 [ST],[("state carried over every character","machine.State.nextState"),("Begin and Transition contract","machine package documentation")],["machine.Begin, State.Transition"],st)
p("C21","The Unicode data reader returns exactly the entries of a file",
 "For any well-formed file in the Unicode Character Database format, however it is laid out, commented and delivered, the reader returns exactly its entries - code point range and all fields, trimmed, to be iterated over as often as one likes, also when more has been read - in order, and then end of file. A malformed code point range, a reversed or out-of-range one, a line without fields that is neither blank, comment nor @-directive, or a read error is returned as an error after the entries before it, never skipped or turned into an entry.",
 ["inputs","fault_sequences"],"All well-formed files and all single faults in them.",
 "The existing test reads one short, tidy example file without errors.",
 [US],[("line scanner and field splitting","ucdparse.Scanner")],["ucdparse.NewScanner, NextEntry, FirstField, AllFields"])
p("C22","The break-test reader returns exactly the cases of a file",
 "For any well-formed break-test file, however laid out and delivered, the reader returns exactly its cases, each with the encoded text and its segments, in order, and what it returned stays intact while more is read; then end of file. A reference to something that is no character, or a read error, is returned as an error after the cases before it.",
 ["inputs","fault_sequences","histories"],"All well-formed break-test files and single faults in them.",
 "The conformance tests rely on this reader but nothing tests it: a reader that drops or weakens cases makes the tests pass vacuously.",
 [TD],[("line parsing","ucdparse.TestDataScanner")],["ucdparse.NewTestDataScanner, NextEntry"])
p("C23","Programs carry the tables of the selected Unicode version only",
 "An executable built from a program that uses the automatic module contains the segmentation tables of the one Unicode version selected for its Go release and none of any other version.",
 ["configurations"],"All supported Go releases, in programs that use everything the automatic module exports.",
 "Tests cannot see what else was linked into their executable.",
 [A15,A17,AV,"autoversion/go.mod"],[("version modules imported under build constraints","unicode15.go, unicode17.go"),("version-independent helpers import no version","version_agnostic.go")],["symbols of the linked executable"])
p("C24","A character is looked up rightly whatever bytes surround it",
 "For every byte string, the character lookup returns for a valid sequence at its start the sequence's length and the code point's Unicode 17 break properties, for the beginning of a possible sequence that the string cuts short a length of zero, and for malformed bytes the error properties and length one (if the string also ends before all the bytes that the first one announces, zero is right as well; overlong, surrogate and out-of-range sequences are unspecified). The bytes after that sequence, and memory beyond the string, make no difference.",
 ["inputs"],"All byte strings of up to four bytes and all longer ones.",
 "The existing tests look up each code point by itself and four malformed strings; nothing after the character, and nothing cut short but one byte.",
 [PT,RAW,PR],[("sequence structure check","charprops.LookupFirstChar"),("two-level property table","charprops.LookupFirstChar")],["charprops.LookupFirstChar"])
p("C25","The same input gives the same result on every platform and in every build",
 "For the same input, every exported function gives the same result in every build and environment: on every operating system and architecture, with 32 and 64 bits, with every supported Go release (the automatic module: with every release of the same Unicode version), optimised or not, instrumented or not, whatever build tags and environment variables are set. Both modules compile for every platform that Go supports.",
 ["configurations","inputs"],"All platforms, toolchains, build modes, build tags and environments, times all inputs.",
 "Tests run in one build on one machine; files, constants and integer widths of other platforms are never executed.",
 [GC,ST,PT,A15,A17,AV],[("platform-independent code","all packages of both modules"),("table indices computed as int","charprops.LookupFirstChar")],["all exported functions of textseg and autoversion"])
p("C26","Using the library has no effect other than its results",
 "Neither loading the packages nor calling any exported function of either module, on any input, writes any output, touches files, network or processes, consults the environment or the clock, leaves goroutines or growing memory behind, changes process-wide settings or variables of other packages, or ends the process.",
 ["inputs","histories"],"All inputs and histories of calls of all exported functions.",
 "Tests look at return values; what else a call did to process and system they do not see.",
 [GC,ST,PT,A15,A17,AV],[("no I/O and no package state","all packages of both modules")],["system calls, output, memory and settings of a process that uses textseg and autoversion"])
p("C27","Names and packed forms of break properties correspond one to one",
 "Each Grapheme_Cluster_Break, emoji and Indic_Conjunct_Break value that the segmentation rules use is found under its Unicode name and described by that name; every other string - in another case, with something before or after it, a value of another property - is looked up as none. Packing a break property with a conjunct property and unpacking them gives the same two for every pair, different pairs have different packed forms and descriptions, none of them those of the error value, and exactly CR, LF and Control count as controls.",
 ["inputs"],"All strings as names and all pairs of values.",
 "Tests look up code points and never a name; the generator's use of the names is not run by any test.",
 [PR],[("name lookup","charprops.LookupGCBProperty, LookupEmojiProperty, LookupInCBProperty"),("packed representation","charprops.MakeCharProperties")],["charprops.LookupGCBProperty, LookupEmojiProperty, LookupInCBProperty, MakeCharProperties, CharProperties"])
P.sort(key=lambda x:x["id"])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x,ensure_ascii=True)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
