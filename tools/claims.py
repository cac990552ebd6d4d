SAFE="Sound for the analysed SSA up to the listed trusted base: every reachable operation that can fault is an obligation proved on every path, for all inputs. Trusts the analyzer, the library models, the Go compiler's SSA and the size assumptions in the evidence file."
c("C01",AI,"proof",SAFE)
c("C02",AI+"; bounds on the values of tables of offsets as loop, contract and receiver invariants","proof",SAFE)
c("C03",AI,"proof",SAFE)
c("C04",AI+"; allocation-size obligations","proof",SAFE+" The bound is a fixed ratio per allocation site times the bytes supplied.")
WIRE="per-tag wire-grammar analysis: abstract interpretation of every path of each document reader, consumption chain compared with the specification's grammar table"
c("C15",WIRE,"proof","For each of the 256 tag bytes, every accepting path must consume exactly the specified pieces; every rejecting path must be provably on an invalid item; each supported tag must have an accepting path. Trusts the grammar table in analyzer/wire.go, the engine and the library models.")
c("C16",WIRE,"proof","As C15 for the reflection-driven readers. Rejections that blame the destination rather than the document are not judged.")
VAL="value analysis over the decoded paths: abstract interpretation of every path of each document reader, the value stored compared symbolically with the meaning of the bytes consumed"
c("C17",VAL,"proof","Bit-exact (GF(2) bit vectors for integers, byte order and width for floats, source span for strings) on every accepting path of every reader, for all inputs. Values stored through reflect setters are compared at the setter's argument.")
c("C33",VAL,"proof","For each of the 256 tags and both settings of PerlCompat the dynamic type of the stored interface is compared with the documented type; container elements are traced to the items read.")
c("C21","dataflow of back-reference offsets: every out-of-line read and table lookup must be dominated by entailed bounds","proof","Linear entailment on every path; the origin of offsets and the freshness of the table of tracked items are checked at every top-level read, for protocol versions 1 to 4.")
c("C32","typestate of the frozen payload along every accepting path (asserted shape, single element, exact bytes handed over, error checked)","proof","User hooks are opaque; what they do with the bytes is their business.")
EMIT="abstract interpretation of every path of the encoder: the bytes, varints and nested items appended (loops as counted repetitions) parsed with the wire grammar and compared with the value encoded"
HDR="path analysis of every exported function that takes a document: what each accepting path has established about the magic, version and type bytes and the decompression it performs"
c("C12",HDR,"proof","Bytes 0-4 are symbolic; each accepting path of each entry is compared with the table of valid magic and version pairs, with nothing assumed of callees that are not inlined.")
c("C13",HDR,"proof","As C12: each document type and version an accepting path admits is compared with the specification's table, and with the library calls and length fields on that path.")
c("C14","abstract interpretation of every path that returns a written document; its header bytes and token log are compared with the compression performed on the path","proof","The receiver's version is split over the constants the package ever stores in it; item contents are opaque here (C18).")
c("C29","token-log analysis of written bodies and consumption analysis of read bodies around every compression library call","proof","The libraries themselves (snappy, zlib, zstd) are trusted to invert one another. The declared uncompressed length of zlib bodies is not compared with the real one by the code and not by the check.")
c("C18",EMIT,"proof","Every accepting path of every writer is one item by induction over the recursive writers; lengths and counts are compared symbolically. Trusts the models of append, range and reflect.")
c("C19",EMIT,"proof","Bit-exact over GF(2) for integers, by byte order and source for floats, by source span for strings. json.Number is judged against any of its views that does not lose digits; COPY items are resolved by C20.")
c("C20","dataflow of back-reference offsets in the encoder: every path's table lookups, table stores and tracked bits compared with the position of the item written","proof","Tables are discovered by what is looked up in and stored to them; identities must separate values that differ in type or length. Assumes that equal addresses within one encoding mean the same value.")
c("C22",EMIT+"; the guards found true on each path decide which items and hooks are allowed","proof","Every path of every writer, for all option settings. The parameter that says that a reference precedes is found by trying all of them.")
c("C23","interval and linear analysis of the depth parameter at every recursive call of the encoder","proof","Induction over the recursive writers: each is analysed with at least one level left, each call must leave one level less and at least one. User hooks may recurse on their own.")
c("C39",EMIT+" and every part traced to the value encoded","proof","Loops are parsed as counted repetitions whose index or iterator selects the part. Field names come from tagsCache.Get (C30).")
c("C06","error-flow analysis: on every accepting path of every exported function, each step that returned an error must be known to have returned nil","proof","Nested steps, hooks and codec calls are opaque and may fail at any point, in every iteration of every loop. Conversions with a fallback (json.Number, strconv) and the Close of a reader are not steps.")
c("C07","exceptional control flow analysis: every call on every path is made to panic, deferred handlers are followed, and the outcome of the public function is compared with the kind of panic","proof","Panics are modelled at calls (hooks, reflection, codecs, package functions), with a value of any type, a string, an error and a runtime fault. Faults of the code itself are C01's.")
c("C30","path analysis of the function that builds the table of fields, data flow of tables through the package, and per-path comparison of the pairs written and the fields decoded with that table","proof","The table function is found by its signature, the loop over the fields by its induction variable. Trusts the models of reflect and strings.Title. Which type's table a writer uses is decided by the value encoded.")
c("C40","abstract interpretation of every reader: each nested item read is traced to the place it is stored in, by index expressions and keys","proof","Every accepting path of every reader, typed and untyped. Loops are judged per iteration with their induction variable. Trusts the models of reflect.")
c("C31","typestate analysis of values taken from a sync.Pool, over all paths of the functions they stay in, with taint of what shares memory with them; value analysis of the closures that fill the pools","proof","Roots are found by the calls of Get; a helper that hands out what it took is judged in its callers. Trusts sync.Pool and that Reset of a zlib writer discards its state. Pools kept in a map made in an init function, by level.")
c("C11","effect analysis: fixed point over all values that lead to memory of package-level variables, and a search for anything that changes what they lead to","proof","Flow-insensitive and context-insensitive over the whole package. What guards memory by a mutex would be reported. Values stored in memory of the user and read back are not followed.")
c("C05","abstract interpretation with inferred loop invariants: a lexicographic ranking of the ways round every loop, and a measure (bounded counters and flags, then the position in the document) over the recursive calls","proof","Destination types that are pointers to themselves (type P *P) are excluded. Library functions are trusted to return. Depth of nesting is bounded by the length of the document only (C36).")
c("C08","alias analysis: fixed point over all values that may share memory with a document, with results told apart by constant boolean arguments, and a search for places that hand them out","proof","Flow-insensitive. Trusts that UnmarshalBinary methods copy what they keep and that decompression libraries return memory of their own or of their first argument. Memory of the destination that already shares memory with the document is the caller's.")
c("C09","alias and effect analysis: fixed point over all values through which the memory of an input is reached, and a search for writes through them","proof","Flow-insensitive. Trusts that compression and hashing libraries only read their source, and user hooks. Code that hands out memory of the document may be reported here too.")
c("C10","interprocedural must-write-before-read dataflow over the fields that make up a decoder or encoder, with the state deferred calls restore; memo, pool and package-variable rules of C30, C31 and C11","proof","Fields are told apart by their declaration; calls of function values go to every function of the signature. A call that decodes or encodes is one that takes or returns bytes. User hooks that call back into the same object are not followed.")
c("C38",AI,"proof",SAFE+" Cyclic values need a depth limit.")
c("C24","abstract interpretation of both passes of the merger: for every tag byte, each way round the item loops is compared with the extent and the nested items the specification gives, and with the bytes copied","proof","By induction over the items. The loops are found by what they read; the list of expected items is an integer slice, the output a byte slice built by appends. Varints are trusted to varintdecode (C04), their padding is not followed.")
c("C27","abstract interpretation of both passes of the merger: every offset written, remembered or recorded is compared, as a linear expression, with the position of the item it stands for","proof","By induction over the items and appended documents; the table entries carry the invariant. Track bits are judged by the positions written after the last item.")
c("C26","abstract interpretation of Append and of what copies items: every successful path is compared with the count that starts, the loops that consume and scan the counts, and the number added","proof","Assumes that the list of expected items is an integer slice whose top bit may mark hashes. A loop that scans it must visit every element upwards or downwards.")
c("C25","abstract interpretation of every failing path of Append: fields, bytes and tables compared with their values at entry","proof","Tables must be purged by offset in a loop over the table; a merger that restores saved copies of its tables would be reported. Panics are C02's.")
c("C28","abstract interpretation of every path of Finish and of the first use: fields, result and bytes compared with those before, bounds on the count of elements","proof","The count must be written with binary.PutUvarint. Header bits of compressed documents are C14's.")
