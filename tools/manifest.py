import json
T={
"C01":("Differential runtime monitor: every boundary the real scanner reports is compared online with an independent UAX #29 reference over pinned Unicode 17 data; amd64 and 386 builds","Held on the executed texts: all class sequences up to a length (exhaustive) plus random, pumped, grammatical and natural texts. Trusts the pinned data and reference rules (cross-checked with the official break tests on every run and with ICU 78 when pinned)."),
"C02":("Online totality/conservation monitor (bytes in = bytes out, token is a prefix, progress at EOF) with crash and hang watchdog, over exhaustive short and hostile long byte strings","Held on the executed byte strings; all byte strings of length 1-3 and all short strings over a hostile alphabet are among them."),
"C03":("Schedule-driving monitor: every chunking of short inputs and random schedules of long ones, raw and through bufio.Scanner, compared with one-piece delivery","Held on the delivery schedules executed; all 2^(n-1) chunkings for inputs of up to 10 bytes."),
"C04":("Finality monitor: each early report is re-observed under real and adversarial continuations","Held on the (prefix, continuation) pairs executed."),
"C05":("Bounded-progress monitor: deadlines in bytes delivered, not time, checked on calls and on byte-by-byte streams","Held on the deadlines checked; progress is judged in logical steps only."),
"C06":("Isolation monitor: clusters of damaged text compared with those of each valid run scanned by itself","Held on the executed texts; sequences documented as unspecified are skipped."),
"C07":("History monitor: recorded call histories over near-identical inputs in reused memory; equal arguments must give equal, and right, results","Held on the histories executed; hidden state that needs longer or other histories is not seen."),
"C08":("Go race detector over concurrent episodes without internal synchronisation (reports counted from its log) plus result monitors","Held on the interleavings observed; overlap and switches between goroutines are counted in the evidence."),
"C09":("Memory-protection monitor: read-only pages, guard pages, poison around the slice, withdrawn buffers; race-detector and AddressSanitizer builds","Held on the executed calls; accesses are caught by the MMU, at byte precision on the fenced sides."),
"C10":("Exhaustive monitor: every scalar value in 775 contexts against the reference","Every code point is executed in contexts that tell all classes apart, so table errors for single code points cannot hide; context characters are sampled."),
"C11":("Resource monitor: inaccessible memory behind the cluster, allocation counters, CPU-limited reruns for non-termination","Held on clusters of up to a million characters; super-linear work is seen only if it exceeds a generous CPU limit."),
"C12":("Fault injection at every offset of short inputs with a trace checker over the scanner's tokens and final error","All fault offsets for inputs of up to 24 bytes, sampled beyond."),
"C13":("Differential monitor over builds with three Go releases: implementation identity on all code points and version-distinguishing texts; refused build for an unknown release","Go 1.25, 1.26 and 1.27 are executed; other releases cannot be installed here (the build for a future one is simulated by its build tag)."),
"C14":("Online equivalence monitor between the automatic splitter and the selected implementation, per call and per stream, under three Go releases","Held on the executed calls and streams."),
"C15":("Reference-model monitor: bufio.Scanner driven by a copying user, 21 kinds of split functions, results re-checked after later calls and GC","Held on the executed inputs and split functions."),
"C16":("Reference-model monitor: ranging over the Go string; deliveries, read faults and prompt-report deadlines","Held on the executed byte strings and deliveries; all byte strings of up to 2 (thorough: 3) bytes."),
"C17":("Repeated runs of the real generator under varied environments; output digests, and exhaustive behavioural comparison of the rebuilt library","All code points in all distinguishing contexts, for the one shipped data set."),
"C18":("Generator driven with generated Unicode data sets; the library rebuilt with its table is observed on every code point against an independent reader of the same data","Held on the data sets generated; each is judged exhaustively over code points."),
"C19":("Fault injection into the real generator (files missing, unreadable, malformed or cut short at chosen lines; write failures at chosen offsets) with an outcome checker","Enumerates fault kinds and sampled positions; power loss is not simulated."),
"C20":("Trace monitor over the running state machine, never restarted, against the UAX #29 reference","Held on all class sequences up to a length and on long random texts."),
"C21":("Model-based monitor: files written from known entries, delivered in pieces with faults, read back through the real reader","Held on the generated files."),
"C22":("Model-based monitor: break-test files written from known segmentations, with retention of earlier results, read back through the real reader","Held on the generated files."),
"C23":("Self-inspection at run time: an executable built with each Go release reads the symbols and data of its own image while using the whole module","Go 1.25, 1.26 and 1.27; data are attributed to a version by symbol names and by content (32-byte pieces of each version's tables, searched in the executables of the other releases)."),
"C24":("Exhaustive monitor inside the module: the lookup on every four-byte string, with each prefix, against the reference decoder and pinned properties","All 4,294,967,296 four-byte strings and their prefixes are executed; longer strings are sampled. Overlong, surrogate and out-of-range sequences are documented as unspecified: only a sane length is required."),
"C25":("Differential monitor across builds: digests of results for the same inputs from amd64, 386, wasm, three Go releases, unoptimised, race and AddressSanitizer builds, other platforms' source files, build tags and environments","Held on the builds and inputs executed. Only x86 and WebAssembly can run here; for other platforms their selected source files are run on amd64 and compilation is tested. Byte order is varied only as far as the code asks encoding/binary.NativeEndian for it."),
"C27":("Exhaustive and random monitor inside the module: name lookups and packed pairs against the list of Unicode's value names","All pairs of values, all names of up to two bytes and one edit from a known name; longer strings are sampled."),
"C26":("System-call sanitizer: the process is confined by a seccomp filter from before the library's initialisation; output, goroutines, heap, settings and variables of other packages compared; environment and clock reads recorded in the standard library","Held on the executed inputs on linux/amd64."),
}
L={"C12":"fault_enumeration","C19":"fault_enumeration"}
m={"version":1,"setup_cmd":"python3 check.py setup","checks":[{"property":k,"quick_cmd":"python3 check.py "+k,"thorough_cmd":"VERIF_TIER=thorough python3 check.py "+k,"evidence_file":"evidence/%s.json"%k,"technique":t,"level":L.get(k,"exploration"),"level_note":n} for k,(t,n) in T.items()],"not_applicable":[],"notes":"No hooks in /repo: internal packages are observed by programs built inside the module through a build overlay. See DESIGN.md. 'python3 check.py replay FILE' re-executes the witness of a violation."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
import jsonschema; jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
