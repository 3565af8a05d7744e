"""The properties: single source for properties.jsonl and MANIFEST.json (meta/gen.py writes both)."""

P = []


def prop(id, title, statement, over, text, why, files, mech, claim=None, na=None, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, claim=claim, na=na,
                  state=state, observe=observe))


def claim(technique, note, level="other"):
    return dict(technique=technique, note=note, level=level)


DIG = ["mbo/digest/digest_sha256.h", "mbo/digest/digest_sha512.h", "mbo/digest/digest_sha1.h", "mbo/digest/digest_md5.h",
       "mbo/digest/digest_sha3.h", "mbo/digest/digest_shake.h", "mbo/digest/digest_blake2b.h", "mbo/digest/digest_blake3.h"]
TRUST = " Trusts clang's front end (the IR it emits for the current sources), the LLVM passes used to normalise it and the analyser."

prop("H04", "Finalising a stream only reads it, and copies share nothing",
     "Finalising a digest, HMAC or streaming-hash stream only reads the stream: it may be repeated with the same result, the stream may "
     "be continued afterwards as if it had never been finalised, and concurrent finalisations of one const stream do not race. A copy "
     "of a stream is independent of the original: neither observes later updates or finalisations of the other.",
     ["histories", "schedules"], "Every stream type, every state a stream can be in when finalised or copied, and every later operation.",
     "Tests peek at a few hand-picked positions of some streams; a write that only happens in one fill state is never seen.",
     DIG + ["mbo/digest/digest.h", "mbo/digest/digest_hmac.h", "mbo/hash/hash.h", "mbo/hash/hash_mumbo.h", "mbo/hash/hash_xxh64.h",
            "mbo/hash/hash_siphash.h"],
     [("finalise takes its state by value or by const reference", "mbo/digest/digest.h Streamer::Finalize"),
      ("states hold arrays and counters only, no pointers", "mbo/digest/*: State")],
     claim("interprocedural mod/ref analysis on LLVM IR",
           "For every finalise entry, after full inlining, no store or escaping call may reach the stream argument; stream states contain no "
           "pointers and are copied bytewise." + TRUST))

prop("H05", "Digests, MACs and hashes depend on nothing but their arguments",
     "Every digest, MAC, key derivation and hash value is a function of the argument bytes (and key, seed, context) alone: it does not "
     "depend on earlier or concurrent calls, on the address of the data, on the environment, on time or on any shared mutable state. "
     "Streams depend only on the bytes they absorbed. Calls from different threads on different objects never race.",
     ["inputs", "histories", "schedules"], "All call sequences and interleavings of all entry points, all inputs.",
     "A test runs one history on one thread; caches, statics and address-dependent paths look right in it.",
     DIG + ["mbo/digest/digest_hmac.h", "mbo/hash/hash.h"],
     [("all code is constexpr, free of statics", "mbo/digest, mbo/hash")],
     claim("whole-program effect analysis on LLVM IR",
           "Every function reachable from any public digest or hash entry is checked instruction by instruction against a closed list of "
           "allowed effects; reading uninitialised memory is not covered by this rule." + TRUST))

prop("H06", "Compile-time and run-time evaluation give the same digests and hashes",
     "A digest, MAC or hash evaluated in a constant expression equals the one computed at run time for the same input, for every input "
     "and every length.",
     ["inputs"], "All inputs of all algorithms, both evaluation modes.",
     "Static assertions compare a handful of strings; the paths differ by length class and byte values.",
     ["mbo/hash/hash_internal_util.h"] + DIG,
     [("dual-path little/big-endian loads", "mbo/hash/hash_internal_util.h Load64, Load32, Load32BE, Load64BE, LoadTail")],
     claim("dual-build IR comparison with bit-level provenance dataflow",
           "The code is compiled with the run-time and with the compile-time arm of every constant-evaluation test; each function whose IR "
           "differs must be shown equal on its whole domain by tracing every result bit." + TRUST))

prop("H07", "Digest and hash values do not depend on the machine's byte order",
     "Every digest, MAC and hash value is the same on little-endian and big-endian machines, for every input and every length.",
     ["inputs", "configurations"], "All inputs, both byte orders.",
     "The tests run on one little-endian machine; the big-endian arms are never executed.",
     ["mbo/hash/hash_internal_util.h"] + DIG,
     [("endian-independent loads", "mbo/hash/hash_internal_util.h"), ("shift-based output serialisation", "mbo/digest/*: Finalize")],
     claim("dual-build IR comparison plus access-width analysis",
           "Compiled for both byte orders; functions that differ must be shown equal by bit provenance, everywhere else no memory may be "
           "accessed at two widths." + TRUST))

prop("H08", "Hash values do not depend on the compiler offering 128-bit integers",
     "On compilers without a 128-bit integer type the library still compiles, and every hash value equals the one computed with that type, "
     "for every input.",
     ["inputs", "configurations"], "All operands of the wide multiplications, with and without the type.",
     "The tests run where the type exists; the fallback multiplication is never executed, and carries need rare operands.",
     ["mbo/hash/hash_internal_util.h"],
     [("portable 64x64->128 multiply", "mbo/hash/hash_internal_util.h Mult128, Mul128Fold64")],
     claim("dual-build IR comparison with polynomial-identity dataflow",
           "The fallback is shown to be the exact product (or its fold) as a polynomial identity over the integers with interval-checked "
           "absence of overflow." + TRUST))

ABS = (" Abstract interpretation of the IR with symbolic lengths and fill states (polyhedra), hash-consed value terms and inferred, "
       "step-checked inductive state forms; block functions are uninterpreted. Cases the domain cannot decide are reported as undecided in "
       "the evidence, never as violations." + TRUST)
HASH = ["mbo/hash/hash.h", "mbo/hash/hash_mumbo.h", "mbo/hash/hash_xxh64.h", "mbo/hash/hash_siphash.h", "mbo/hash/hash_internal_util.h"]

prop("H01", "How input is split into updates never changes a digest or hash",
     "Absorbing a message in any number of pieces of any sizes, empty ones included, gives the same digest or hash as absorbing it in one "
     "piece, and the same as the one-shot function. This holds for every digest and every hash that can be streamed, through both the "
     "algorithm's own stream functions and the Streamer class, whatever the fill state of the internal buffer.",
     ["inputs", "histories"], "Every message, every way to cut it into updates, every state of the internal buffer.",
     "Tests try a few chunk sizes over short messages; buffer, block, stripe and chunk boundaries meet in rarely sampled combinations.",
     DIG + ["mbo/digest/digest.h"] + HASH,
     [("buffering in StreamUpdate", "mbo/digest/*.h, mbo/hash/hash_*.h: StreamUpdate, StreamFinalize"),
      ("class front ends", "mbo/digest/digest.h Streamer, mbo/hash/hash.h HashStream")],
     claim("abstract interpretation on LLVM IR, two runs compared",
           "For every pair of update lengths, from fresh and from arbitrarily advanced states, the result term of two updates is compared with "
           "that of one." + ABS))

prop("H02", "Every message is padded, counted, chained and output as the standard says",
     "For every message length each digest absorbs exactly the blocks its standard prescribes: padding, length and counter encoding, "
     "chaining and tree structure, flags, initial values, output truncation and byte order of MD5, SHA-1, SHA-2, SHA-3, SHAKE, BLAKE2b and "
     "BLAKE3. The same holds for keyed hashing, key derivation and extendable output of any length.",
     ["inputs"], "All message lengths below 2^61 bytes, all keys, all output lengths.",
     "Published vectors cover a few lengths; counter words, tree merges and padding corner cases occur at lengths no test uses.",
     DIG + ["mbo/digest/digest.h"],
     [("padding and length fields", "mbo/digest/digest_{md5,sha1,sha256,sha512,sha3}.h: StreamFinalize"),
      ("BLAKE3 chunk counter, CV stack and root flags", "mbo/digest/digest_blake3.h"),
      ("BLAKE2b byte counter and last-block flag", "mbo/digest/digest_blake2b.h")],
     claim("abstract interpretation on LLVM IR against a specification of the framing",
           "The sequence of block-function calls and the output bytes are compared with an independent writing of the standard's framing for "
           "every length." + ABS))

prop("H03", "Digests and hashes touch only the memory they were given",
     "Computing a digest, MAC or hash reads only the bytes of the given message, key, seed and stream and writes only the result and the "
     "stream, for every length including zero and every fill state; no byte outside is read or written, the message is never modified, "
     "and no result depends on memory that was never initialised.",
     ["inputs", "histories"], "Every length, every buffer position, every split into updates.",
     "An over-read by a few bytes gives right results in tests and shows only at particular lengths next to an unmapped page.",
     DIG + HASH,
     [("tail and buffer handling", "mbo/hash/hash_internal_util.h LoadTail and the hash loops; mbo/digest/*: StreamUpdate")],
     claim("abstract interpretation on LLVM IR, memory obligations",
           "Every load, store and memory intrinsic is checked against the extent of the object it addresses for every length and fill state."
           + ABS))

prop("H09", "HMAC is RFC 2104 for every key and message length",
     "For every supported digest, every key length (empty, shorter than, equal to or longer than a block) and every message, HMAC equals the "
     "construction of RFC 2104, one-shot, streamed in any pieces and through the HmacStreamer class.",
     ["inputs", "histories"], "Every key and message, both interfaces.",
     "RFC vectors sample a handful of key lengths; the border between padding and hashing the key is one length per digest.",
     ["mbo/digest/digest_hmac.h", "mbo/digest/digest.h"],
     [("key preparation and inner/outer pass", "mbo/digest/digest_hmac.h StreamInit, StreamFinalize")],
     claim("abstract interpretation on LLVM IR against RFC 2104",
           "HMAC's result term is compared with RFC 2104 written over the library's own digest." + ABS))

prop("H10", "Hash front ends give the value the documentation derives from the algorithm",
     "The hasher class templates, free functions, functors, seed mangling and folding and combination helpers of mbo::hash return, for every "
     "input and seed, exactly the documented derivation from the selected algorithm's own 64- or 128-bit result; none of them changes, "
     "truncates or reseeds it otherwise.",
     ["inputs"], "All algorithms, all lengths, all seeds, all front ends.",
     "Tests compare a few strings per front end.",
     ["mbo/hash/hash.h"],
     [("Hasher, Hasher32/64/128, GetHash, combination helpers", "mbo/hash/hash.h")],
     claim("abstract interpretation on LLVM IR, value terms compared",
           "Each front end's value term is compared with the documented derivation for every length." + ABS))

prop("H11", "Canonical hashes are the published algorithms",
     "FNV-1a, SipHash-2-4 and 1-3, MurmurHash3, XXH64, rapidhash and XXH3 (64 and 128 bits) return exactly the published algorithm's value "
     "for every input, length and seed.",
     ["inputs"], "All inputs of all canonical algorithms.",
     "Vectors cover a few inputs per length class; every algorithm has many length classes with their own code.",
     ["mbo/hash/hash_fnv1a.h", "mbo/hash/hash_siphash.h", "mbo/hash/hash_murmur3.h", "mbo/hash/hash_xxh64.h", "mbo/hash/hash_xxh3.h",
      "mbo/hash/hash_rapidhash.h"],
     [("length-class dispatch and mixing", "mbo/hash/hash_{fnv1a,siphash,murmur3,xxh64,xxh3,rapidhash}.h")],
     claim("abstract interpretation on LLVM IR against a second writing of the algorithm",
           "The library's value term is compared with that of an independent writing of the published algorithm: inductively over the stripe "
           "loop where there is one, else for each length up to a cap stated in the evidence." + ABS))

prop("H12", "The block functions compute what the standards define",
     "The compression functions and permutations of MD5, SHA-1, SHA-224/256/384/512 and its truncations, SHA-3/SHAKE (Keccak-f), BLAKE2b and "
     "BLAKE3 compute, for every chaining value and every block content, exactly the function the published standard defines: round count, "
     "order, constants, rotations, message schedule and byte order.",
     ["inputs"], "Every content of the message blocks.",
     "Published vectors are a few messages; a step that goes wrong only for particular words passes them.",
     DIG,
     [("compression functions", "mbo/digest/digest_{md5,sha1,sha256,sha512,blake2b,blake3}.h: Compress"),
      ("Keccak-f[1600]", "mbo/digest/digest_sha3.h KeccakF")],
     claim("abstract interpretation on LLVM IR to value terms, normal forms compared with the standards",
           "Messages of fixed lengths (one and two blocks) with symbolic content are followed through the complete block function; the result "
           "term must equal that of the standard written independently." + TRUST))

AST = (" Trusts clang's parser; code that needs Abseil or RE2 is parsed against stand-in headers with the same interfaces.")
ST = ["mbo/file/file.cc", "mbo/file/artefact.cc", "mbo/file/glob.cc", "mbo/file/ini/ini_file.cc", "mbo/mope/mope.cc", "mbo/mope/ini.cc", "mbo/mope/mope_main.cc",
      "mbo/strings/parse.cc", "mbo/diff/diff_main.cc", "mbo/testing/runfiles_dir.cc"]

prop("E01", "No failure is dropped and no missing value is used",
     "Library and tool code that receives an absl::Status, absl::StatusOr or std::optional acts on it: a failure is never discarded, "
     "overwritten or left unread on a path that ends in success, and a value is only taken out where it was established that one is there.",
     ["inputs", "faults"], "Every call that can fail, failing in every way, on every path through its callers.",
     "Tests provoke a few failures; most failure paths (unreadable templates, short files, bad syntax at every spot) are never taken.",
     ST, [("MBO_RETURN_IF_ERROR, MBO_ASSIGN_OR_RETURN and MBO_MOVE_TO_OR_RETURN", "mbo/status/status_macros.h"),
          ("callers of fallible operations", "mbo/mope/mope.cc, mbo/file/*.cc, mbo/strings/parse.cc")],
     claim("dataflow over clang control-flow graphs (must-be-checked and must-hold-a-value)",
           "Every call that yields an outcome, every local that holds one and every dereference is an obligation." + AST))

prop("E02", "Reading to the end is told apart from failing to read",
     "A stream or file that stops delivering data because of a read error is reported as a failure, never treated as if it had ended there: no "
     "digest, hash, checksum verdict or file content is produced from a truncated read. A file is reported as written only after the data "
     "was flushed or the file closed and the stream tested.",
     ["inputs", "faults"], "Every read and write, failing at every point.",
     "Read errors half-way through a file and full disks do not happen in the tests.",
     ["mbo/digest/digest_main.cc", "mbo/hash/hash_tool.cc", "mbo/file/file.cc"],
     [("HexDigestStream, CheckStream", "mbo/digest/digest_main.cc"), ("standard input loop", "mbo/hash/hash_tool.cc"),
      ("SetContents, GetContents, GetMaxLines", "mbo/file/file.cc")],
     claim("interprocedural typestate analysis of stream objects",
           "Each stream's possibly-failed and possibly-unflushed states are followed along all paths to every successful return." + AST))

prop("E03", "File operations report failures instead of throwing",
     "Functions that report failure through Status or StatusOr, and functions declared noexcept, do not let a file system error escape as an "
     "exception: a file that vanishes, cannot be examined or cannot be listed leads to an error result.",
     ["inputs", "faults", "schedules"], "Every file system operation, failing at every point, including changes made by others meanwhile.",
     "The failures need permissions, races or broken media that the tests do not set up.",
     ["mbo/file/file.cc", "mbo/file/glob.cc", "mbo/file/glob.h"],
     [("Readable, GetMTime", "mbo/file/file.cc"), ("GlobLoopImpl, GlobRe2", "mbo/file/glob.cc"), ("FileSize", "mbo/file/glob.h")],
     claim("interprocedural exception analysis over the call graph",
           "No throwing form of a std::filesystem operation is reachable from such a function outside a handler." + AST))

prop("E04", "The tools exit with failure after anything has gone wrong",
     "A command-line tool never ends with exit status 0 once it has reported an error (other than a warning) on the error stream or an operation it "
     "called has failed, nor when the compared files differ (diff), a digest does not match or a listed file cannot be read (digest "
     "--check, except unreadable ones under --ignore_missing), or a checksum line is malformed under --strict.",
     ["inputs", "faults", "histories"], "Every sequence of inputs: many files and lines of which any one fails, in every combination of flags and order.",
     "The tests run the tools on few inputs; a status that a later success resets, or one counter left out, needs a particular combination.",
     ["mbo/diff/diff_main.cc", "mbo/digest/digest_main.cc", "mbo/file/glob_main.cc", "mbo/hash/hash_tool.cc", "mbo/mope/mope_main.cc"],
     [("Run, RunCheck, CheckStream", "mbo/digest/digest_main.cc"), ("exit codes", "mbo/diff/diff_main.cc Diff"), ("EXIT_IF_ERROR", "mbo/file/glob_main.cc")],
     claim("abstract interpretation of main over zero / non-zero values",
           "Every way from main's entry to its end, through the functions and lambdas of the file, is followed with the values of the status and "
           "count variables abstracted to zero, non-zero and unknown." + AST))

prop("S01", "Nothing is kept or shared behind the caller's back",
     "Library code keeps no writable static, global or thread-local storage other than variables that are only ever used under one mutex, and no class "
     "has members that change in const objects: const operations are safe to run concurrently, and a call leaves nothing behind that a "
     "later call can observe.",
     ["histories", "schedules"], "All sequences and interleavings of calls.",
     "A test runs one history on one thread; a cache or a scratch buffer looks right in it.",
     ["mbo/types/stringify_ostream.cc", "mbo/mope/mope.h", "mbo/log/demangle.cc", "mbo/log/scoped_stream.h", "mbo/types", "mbo/strings", "mbo/container",
      "mbo/file", "mbo/digest", "mbo/hash"],
     [("process-wide options behind a mutex", "mbo/types/stringify_ostream.cc g_stringify"), ("const expansion", "mbo/mope/mope.h Template::Expand")],
     claim("effect lint over declarations plus lock-set dataflow",
           "Every variable of static storage and every data member in the library is an obligation." + AST))

prop("B01", "Bytes of 128 and above are handled as such",
     "No operation lets the sign of a plain char into a result: bytes 128 to 255 are never widened, shifted, used as an index, handed to a "
     "character-class function or compared as negative numbers.",
     ["inputs"], "All byte values in all text and binary inputs.",
     "Test texts are ASCII; a sign extension changes nothing there.",
     ["mbo/digest/checksum.cc", "mbo/strings/parse.cc", "mbo/types/stringify.cc", "mbo/hash/hash_internal_util.h", "mbo/hash/hash_mangle.h"],
     [("conversions through unsigned char", "mbo/hash/hash_internal_util.h, mbo/digest/checksum.cc, mbo/types/stringify.cc")],
     claim("type-based flow rule over the syntax tree",
           "Every conversion, index, shift, comparison and classification of a plain char is an obligation." + AST))

prop("T01", "Scalars of any two types compare by their values",
     "The scalar comparisons (CompareScalar, CompareArithmetic, CompareIntegral, CompareFloat, CompareLess, WeakToStrong) order two numbers by "
     "their mathematical values whatever their types, widths and signedness, with no wrap-around, truncation or rounding; only a bool against an "
     "integer compares truth values. A NaN equals every NaN and is greater than every number, so that CompareScalar is a total order.",
     ["inputs"], "All values of all pairs of the built-in integer, character and floating types.",
     "The tests try a handful of int/unsigned pairs; the errors sit at type limits and in other pairs of types.",
     ["mbo/types/compare.h"],
     [("CompareScalar branches by signedness", "mbo/types/compare.h CompareScalar"), ("NaN order", "mbo/types/compare.h CompareFloat"),
      ("three-way comparator object", "mbo/types/compare.h CompareLess")],
     claim("abstract interpretation of LLVM IR over a finite partition of the argument pairs",
           "Every cell of the partition (points, open intervals, order of the two values, NaN) of all 361 type pairs is decided on the unchanged "
           "tree; cells a change makes undecidable are reported as undecided." + TRUST))

prop("T02", "Decomposing a struct gives every field, once and in order",
     "StructToTuple presents every field of a struct without non-empty bases exactly once and in declaration order, as references for lvalues and as values "
     "for rvalues, for every number of fields from 1 to 40 and with every supported compiler; types that cannot be decomposed are rejected "
     "at compile time.",
     ["inputs", "configurations"], "Every field count, value category and compiler.",
     "The tests use structs of a few fields; each count has its own generated code, and only one compiler's path is built.",
     ["mbo/types/tuple_extras.h", "mbo/types/internal/decompose_count.h"],
     [("overload set per field count (clang)", "mbo/types/internal/decompose_count.h DecomposeCountFunc"),
      ("initialiser counting (gcc)", "mbo/types/internal/decompose_count.h DecomposeInfo"),
      ("one branch per field count", "mbo/types/internal/decompose_count.h DecomposeHelper::ToTuple")],
     claim("type-level witness: programs that only compile if the property holds",
           "Fields of pairwise different types make the tuple's type determine which field went where; compiled by clang and gcc."))

prop("T03", "Compile-time searches and case selection match their definitions",
     "LinearSearch, ReverseSearch, MaxSearch and BinarySearch return the value their documentation defines for every range and every predicate "
     "(BinarySearch: every downward closed one), and NotFound exactly if there is none; Cases and CaseIndex select the first condition that is "
     "true, and void or 0 if none is.",
     ["inputs"], "All ranges, predicates and combinations of conditions.",
     "The tests use a few hand-picked predicates; errors sit at the ends of ranges.",
     ["mbo/types/template_search.h", "mbo/types/cases.h", "mbo/types/internal/cases.h"],
     [("the four searches", "mbo/types/template_search.h"), ("case expansion", "mbo/types/internal/cases.h CasesImpl, CaseIndexImpl")],
     claim("type-level witness: programs that only compile if the property holds",
           "Exhaustive for ranges within [0, 6[ and all predicates on them, thresholds in ranges up to 33 long, and up to six conditions; larger ones "
           "follow only by the uniformity of the templates."))
