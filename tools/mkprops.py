#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept as a script so that the text stays reviewable).
import json,os
D="Go/sereal/decode.go";E="Go/sereal/encode.go";M="Go/sereal/merge.go";S="Go/sereal/snappy.go";Z="Go/sereal/zlib.go";ZP="Go/sereal/zlib_purego.go";ZS="Go/sereal/zstd.go";C="Go/sereal/const.go";T="Go/sereal/tagscache.go";P="Go/sereal/perl.go";X="Go/sereal/errors.go";SP="sereal_spec.pod"
props=[]
def p(id,title,st,over,q,why,files,mech,state=(),obs=()):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if obs: d["anchors"]["observe_at"]=list(obs)
    d["anchors"]["hook_needed"]=None
    assert len(title)<=80,title
    assert st.count(". ")<3,(id,st)
    props.append(d)
I=["inputs"]
p("C01","Decoding arbitrary bytes never faults",
 "For every byte string and every destination, decoding a document's header, body or both returns normally with a result or an error. No out-of-range access, negative or absurd allocation size, write to an uninitialised table, failed type assertion or other runtime fault ever escapes to the caller.",
 I,"all byte strings passed to Unmarshal, UnmarshalHeader and UnmarshalHeaderBody, with every option setting and destination type",
 "the tests decode a few thousand well-formed documents written by the Perl encoder; hostile length, offset and size fields are an unbounded space",
 [D,S,Z,ZP,ZS],[("length and offset checks before every access",D),("varintdecode",D),("readHeader",D)],obs=["Unmarshal","Decoder.UnmarshalHeaderBody"])
p("C02","Merging arbitrary bytes never faults",
 "For every sequence of byte strings given to a merger, in every configuration, appending and finishing return normally with a result or an error, never with a runtime fault.",
 ["inputs","histories"],"all sequences of Append calls with arbitrary bytes, followed by Finish, for every option setting",
 "no test calls the merger at all; only a benchmark with missing data files mentions it",
 [M],[("two-pass scan of the appended document",M),("readString",M),("Merger.Append/Finish",M)],
 state=[("buf/lenOffset/bodyOffset","output buffer and the positions of its length field and body",M)],obs=["Merger.Append","Merger.Finish"])
p("C03","Inspecting or decompressing arbitrary bytes never faults",
 "For every byte string and every caller-supplied destination buffer, the header probe and the document decompressor return normally with an answer or an error, never with a runtime fault.",
 I,"all byte strings and destination buffers passed to LooksLikeSereal and DecompressDocument, for raw, snappy, zlib and zstd documents",
 "one test decompresses one well-formed snappy document into one buffer size",
 [D,S,Z,ZP,ZS],[("DecompressDocument",D),("decompress methods",S)],obs=["DecompressDocument","LooksLikeSereal"])
p("C04","Allocations are bounded by the bytes supplied",
 "A length, count or size field in a document never makes the library allocate more than a fixed multiple of the bytes actually supplied: every declared container, string or uncompressed size is checked against the remaining input, or a fixed expansion ratio, before memory is reserved for it.",
 I,"all documents given to decoding, merging and decompression, and each single allocation they cause",
 "tests only contain truthful size fields; a 20-byte document that declares a huge size is never tried",
 [D,M,S,Z,ZP],[("size checks before make",D),("zlib uncompressed-length varint",Z),("snappy decoded length",S)])
p("C05","Decoding and merging always make progress",
 "Every loop and recursion over a document either consumes input or counts down a finite bound. A COPY back-reference is followed at most one level deep, so no document, however its offsets point, makes decoding or merging run forever or recurse without consuming input.",
 I,"all documents, including self-referential offsets, padding runs and nested back-references",
 "non-termination only shows on adversarial offsets, which no test contains",
 [D,M],[("COPY nesting guard",D),("index advance in every branch",D),("merge loops",M)],state=[("copyDepth","COPY nesting level",D)])
p("C06","No internal error is lost",
 "Whenever a step of encoding, decoding, merging or (de)compression reports an error, whether from malformed input, a user (un)marshalling hook or a codec, the public call returns a non-nil error. It never reports success with a partial or default result.",
 ["inputs","fault_sequences"],"all inputs and all failures of nested steps, hooks and codecs",
 "tests exercise only a handful of error paths; each dropped error needs its own malformed input",
 [D,E,M,S,Z,ZP,ZS],[("error returns",D),("error returns",E),("error returns",M)])
p("C07","A panic during a call never turns into success",
 "A panic raised while a value is being encoded or decoded, including one raised by user code with a value of any type, either becomes the call's error or propagates to the caller. Runtime faults are re-raised, not masked, and no public encode or decode entry point lets a reflection type mismatch escape as a panic.",
 ["inputs","fault_sequences"],"all panic values raised under Marshal*/Unmarshal*",
 "no test raises a panic value that is neither a string nor an error",
 [D,E],[("deferred recover handlers",D),("deferred recover handlers",E)],obs=["Unmarshal","Marshal"])
p("C08","Decoded values do not alias the input",
 "Everything a decode call hands out (strings, byte slices, regular expressions, frozen payloads, map keys) is independent of the document's memory. Overwriting or reusing the input buffer afterwards never changes a decoded value. The same holds for the documents that decompression and a merger return.",
 I,"all documents and destinations",
 "tests never modify the input after decoding",
 [D],[("copying of binary data",D),("string conversions",D)])
p("C09","Inputs are never written to",
 "Decoding, decompressing and merging never write to the caller's document, not even into its spare capacity, and encoding never writes into byte slices, strings or containers reachable from the value being encoded.",
 I,"all documents, buffers with any spare capacity, and all encoded values",
 "one regression test checks one compressed document for one symptom",
 [D,E,M,S],[("separate output buffers",D),("append on own buffers only",E)])
p("C10","Calls on a reused encoder, decoder or merger document are independent",
 "The outcome of a call on a decoder or encoder depends only on its arguments, the options and the registered names, never on the success, failure or content of an earlier call on the same object.",
 ["histories","fault_sequences"],"all sequences of calls on one Decoder or Encoder, including calls that fail or panic midway",
 "tests reuse objects only after successful calls",
 [D,E,T],[("fresh tables per call",D),("marshalState per call",E)],state=[("tracked","offset to value table of the current document",D),("copyDepth","COPY nesting level",D),("tcache","type to field table, a pure cache",T)])
p("C11","Package-level functions are safe for concurrent use",
 "Concurrent calls of the package-level functions never race: they share no mutable state that is accessed without synchronisation, and nothing reachable from package-level variables is modified after initialisation except through synchronised types.",
 ["schedules"],"all interleavings of concurrent calls of Marshal, Unmarshal, DecompressDocument, LooksLikeSereal and of independent encoder, decoder and merger objects",
 "no test runs anything concurrently, and the race only shows on some schedules",
 [E,D,T,ZP,P],[("per-call objects",D),("default encoder",E),("sync.Pool for zlib writers",ZP)])
p("C12","Exactly the valid magic and version pairs are accepted",
 "A document is accepted only if the old magic comes with version 1 or 2, or the high-bit magic with version 3 or 4. The UTF-8 damaged magic is reported as such, every other magic or version is rejected by decoder, decompressor and merger alike, and the header probe says yes to every header they accept and to none with another magic or a version its magic cannot carry.",
 I,"all 2^32 magics x 16 versions x 16 document types",
 "seven hand-picked headers are tested",
 [D,C,SP],[("readHeader",D),("checkHeader",D)])
p("C13","Body compression is selected exactly by document type and version",
 "For every document type and protocol version, decoding, decompressing and merging pick the codec the specification assigns (raw, snappy only in version 1, incremental snappy, zlib from version 3, zstd from version 4) and reject every other combination with an error.",
 I,"all 16 document types x 16 versions",
 "only the combinations of the corpus (five) occur in tests",
 [D,M,C,SP],[("documentDecompressor",D)])
p("C14","Written headers describe the body that follows",
 "Every document written carries the magic that belongs to its version, the version in the low nibble and, in the high nibble, exactly the type of the compression applied to its body: zero if and only if the body is raw. A compressor that is not valid for the version produces an error, never a mislabelled document, and bodies (for a merger: documents) below the threshold stay raw.",
 ["inputs","configurations"],"all encoder versions, compressors, thresholds and body sizes; likewise for merged documents",
 "tests cover two compressors with one version each",
 [E,M,C,SP],[("MarshalWithHeader",E),("Merger.Finish",M)])
p("C15","Untyped decoding follows the wire format for every tag",
 "For each of the 256 tag bytes, decoding into an untyped destination consumes exactly the bytes and nested items the specification assigns to the tag, in order, ignoring the track bit, and rejects tags that are reserved or unsupported.",
 I,"all tag bytes in every decoder mode, with any following bytes",
 "the corpus is produced by one encoder and contains neither all tags nor non-canonical forms",
 [D,C,SP],[("decode tag dispatch",D)])
p("C16","Typed decoding follows the same wire format as untyped decoding",
 "For each of the 256 tag bytes, decoding into a typed destination consumes exactly the same bytes and nested items as decoding into an untyped one, or fails with an error. Elements that do not fit the destination are still consumed exactly.",
 I,"all tag bytes, with destinations of any type",
 "typed decoding is tested for one corpus file and a few structs",
 [D],[("decodeViaReflection tag dispatch",D)])
p("C17","Scalars decode to exactly the value on the wire",
 "Small integers, varints, zigzag integers, floats, doubles and booleans decode to exactly the number the specification assigns to their bytes, for every bit pattern, in both typed and untyped decoding (a narrower typed destination takes the number modulo its width), and strings and byte strings decode to exactly the bytes they span; a destination that already holds a byte slice or array is filled as far as it goes.",
 I,"all bit patterns of every scalar tag",
 "about twenty numbers are round-tripped; a wrong bit in a rarely used position goes unnoticed",
 [D],[("decodeInt/decodeZigzag/decodeFloat/decodeDouble/varintdecode",D)])
p("C18","Encoding a value emits exactly one well-formed item",
 "For every supported value and option, encoding appends exactly one complete item of the specified grammar: each tag is followed by exactly the payload the specification requires, every declared length equals the number of bytes that follow it, and every declared element count equals the number of elements written. Hash keys and class names are always strings.",
 ["inputs","configurations"],"all Go values, all encoder options and versions",
 "tests encode a few dozen values; a miscounted element shows only for particular contents",
 [E,C,SP],[("encode and its helpers",E)])
p("C19","Scalars encode to a representation of exactly the same value",
 "Every boolean, integer, float and string of any Go type, named types included, is written with a tag and payload whose specified meaning is that very value.",
 I,"all values of all scalar types and named types derived from them",
 "about twenty numbers of the predeclared types are tested; named types hardly at all",
 [E],[("encodeInt/encodeFloat/encodeDouble/encodeString/encodeBytes/varint",E)])
p("C20","Encoder back-references resolve to what they stand for",
 "Every COPY or REFP that the encoder writes holds the offset, in the coordinate system the document version prescribes, of the start of an earlier item of the same body or header that encodes the same string or the same Go object, and the target of every REFP carries the track bit. Distinct objects (different type, address or extent) are never conflated.",
 I,"all values with shared strings, pointers, slices and maps, for all versions",
 "only one shared map is round-tripped",
 [E],[("strTable",E),("ptrTable",E)],state=[("strTable","string to offset of its item",E),("ptrTable","object identity to offset of its item",E)])
p("C21","Decoder back-references are validated",
 "The decoder follows a COPY, REFP, ALIAS or class-name back-reference only to a position strictly before it in the same body or header, in the coordinate system of the document version. A REFP or ALIAS is honoured only if its target carried the track bit, and anything else is an error.",
 I,"all documents and all offset values",
 "tests contain only valid offsets written by the encoders",
 [D],[("offset checks",D),("tracked table",D)],state=[("tracked","offset to value table",D)])
p("C22","Encoder options are honoured",
 "With de-duplication disabled no COPY is written. With FREEZE disabled no frozen object is written and no marshalling hook is called, and in Perl-compatible mode every array and hash not behind a pointer is written behind one reference that has been put in front of it, in the other mode behind none.",
 ["inputs","configurations"],"all values and all option settings",
 "Perl compatibility is tested on one nested value, the other options not at all",
 [E],[("DisableDedup/DisableFREEZE/PerlCompat",E)])
p("C23","The encoder's recursion limit is enforced",
 "With a recursion limit of N, encoding descends at most N levels into nested or cyclic containers, pointers and wrapper objects before failing with the recursion-limit error. Every way of nesting counts.",
 ["inputs","configurations"],"all nested and cyclic values, all limits",
 "no test sets a limit",
 [E],[("remainingDepth",E)])
p("C24","Merging copies every item unchanged in extent",
 "For each of the 256 tag bytes, both passes of the merger step over exactly the bytes the specification assigns to the tag and expect exactly the nested items it has, and the bytes copied to the output are exactly the item's own bytes except for translated back-references and de-duplicated strings.",
 I,"all tag bytes in both passes, with any following bytes",
 "the merger is not tested",
 [M,C,SP],[("buildTrackTable",M),("mergeItems",M)])
p("C25","A failed append leaves the merger unchanged",
 "If appending a document fails, the merged document is the same as if the call had not been made: no bytes, element counts or de-duplication entries of the failed document remain, and later appends and the final result are unaffected.",
 ["histories","fault_sequences"],"all sequences of appends in which some fail at any point",
 "the merger is not tested",
 [M],[("Merger.Append",M)],state=[("strTable/objTable/length/buf","merger state",M)])
p("C26","Only complete, supported documents are merged",
 "Appending succeeds only if the document has a supported version and compression and its body holds all the items it declares. The count it returns, and adds to the merged container, is exactly the number of top-level elements added: one, or, with KeepFlat, all elements of a top-level array of the kind being merged.",
 ["inputs","histories"],"all documents, including truncated, over-long and unsupported ones",
 "the merger is not tested",
 [M],[("mergeItems stack",M),("Merger.Append",M)])
p("C27","Merged back-references stay inside the merged document",
 "Every COPY, REFP, ALIAS or class-name reference in merged output is written with an offset that was recorded, in output coordinates, for the very input item it referred to or for an identical string. Apart from track bits that the input items already carry, track bits are set on those target items and nowhere else.",
 ["inputs","histories"],"all sequences of appended documents with back-references",
 "the merger is not tested",
 [M],[("trackTable",M),("strTable/objTable",M)])
p("C28","Finishing a merge yields the whole document or an error",
 "Finish returns the complete merged document: the declared element count fits the reserved field, and compression of any body, compressible or not, replaces the body in full. If finishing fails, no later call presents a damaged document as a success.",
 ["inputs","configurations","histories"],"all merged contents, compressors and repeated Finish calls",
 "the merger is not tested",
 [M],[("Merger.Finish",M)])
p("C29","Compressed bodies are framed as specified, both ways",
 "Each codec writes the length fields the specification prescribes, equal to the lengths of what follows, in front of its payload, and reads back exactly that framing, so that the payload given to the decompression library is exactly what the compression library produced.",
 ["inputs","configurations"],"all bodies, codecs and levels",
 "two codecs are tested on one body each",
 [S,Z,ZS,SP],[("compress/decompress",S)])
p("C30","Struct fields are mapped by one rule in both directions",
 "Encoding and decoding use the same field-name table of a struct type: fields tagged \"-\" and unexported untagged fields never appear, all others appear under their tag or name. A decoded key stands for the field of that name, or else for the one whose name is the key with a capital first letter, and a key that names no field is skipped without touching the struct.",
 I,"all struct types and documents",
 "a handful of struct types is tested",
 [T,E,D],[("tagsCache.Get",T),("encodeStruct",E),("decodeHashViaReflection",D)])
p("C31","Pooled compressors are never shared or retained",
 "A pooled compressor is reset to a fresh private output before use, used only between its acquisition and its release, released at most once per acquisition, and only under the compression level it was created for. The compressed bytes returned are never shared with the pool.",
 ["schedules","histories"],"all interleavings of concurrent compressions at any level, including failing ones",
 "no test compresses concurrently or at two levels",
 [ZP],[("zlibWriterPools",ZP)])
p("C32","Frozen objects are thawed only from a well-formed payload",
 "A frozen object is accepted only if its payload is a reference to an array with exactly one byte string. Exactly these bytes are handed to the registered or destination unmarshaller, whose error is returned, or are delivered unchanged together with the class name when there is none.",
 I,"all documents with frozen objects and all registrations",
 "time.Time is the only frozen type tested, always well formed",
 [D],[("decodeObjectFreezeViaReflection",D)])
p("C33","Untyped decoding yields the documented Go type per tag and mode",
 "For every tag and every setting of the Perl-compatibility option, untyped decoding stores a value of the one Go type assigned to that wire type and mode: integers as int or uint, floats by width, strings as string, binary as bytes, arrays and hashes plain or as pointers, and the Perl wrappers only in Perl-compatible mode.",
 ["inputs","configurations"],"all tag bytes and modes",
 "tests cover the types that occur in the corpus, mostly in one mode",
 [D,P],[("decode",D)])
p("C34","Round trip reproduces the value",
 "For every supported value, decoding its encoding into a destination of the same type yields a value equal to the original.",
 I,"all supported values and destination types","a few dozen values are round-tripped",[E,D],[("encode",E),("decode",D)])
p("C35","Object graphs keep their sharing",
 "For every pointer graph, the decoded graph is isomorphic to the encoded one: what was shared is shared, what was distinct is distinct, and cycles are reproduced.",
 I,"all pointer graphs","one shared map is tested",[E,D],[("ptrTable",E),("tracked",D)])
p("C36","Decoding depth does not exhaust the stack",
 "No document, however deeply nested, makes the decoder exhaust the goroutine stack.",
 I,"all nesting depths","tests nest a few levels",[D],[("decode recursion",D)])
p("C37","Running time is linear in the size of the document",
 "Encoding, decoding and merging take time proportional to the size of value and document.",
 I,"all inputs","benchmarks sample a few inputs and assert nothing",[D,E,M],[("decode",D)])
p("C38","Encoding any value never faults",
 "For every value, header and option setting, encoding returns normally with a document or an error: no index or slice out of range, bad allocation size, write to an uninitialised table, nil dereference, failed type assertion or other runtime fault of the encoder's own ever escapes to the caller. A value that contains itself needs MaxRecursionDepth to be set, and faults of the user's own hooks are the user's.",
 I,"all values and headers passed to Marshal and MarshalWithHeader, with every option setting and compressor",
 "tests encode some dozens of values; a fault shows only for particular shapes, sharing and options",
 [E,T,S,Z,ZP],[("MarshalWithHeader",E),("back-reference patching",E),("reflection on user values",E)],obs=["Marshal","Encoder.MarshalWithHeader"])
p("C39","Composite values are written part by part",
 "A slice or array is written as all its elements in order, a map as every key with the value stored under it, a struct as an object of its type's name with the name and value of every exported field, a pointer as what it points to, and a Perl wrapper as its own parts. No part is left out, repeated, swapped or taken from another value.",
 I,"all composite values that the encoder supports",
 "tests encode a few small containers; a wrong part shows only for particular shapes",
 [E,T],[("encodeArray/encodeMap/encodeStruct/encodePointer",E)])
p("C40","Decoding stores every part where it belongs",
 "Element i of a decoded array becomes element i of the destination as far as that has room, each value of a hash ends up under the very key it was read with or in the field that key names, and what a reference, COPY or wrapper contains ends up in the destination's own referent or wrapper. A container made for the purpose has exactly the declared length, and nothing is stored that was not read.",
 I,"all documents with composite values and all destinations, typed and untyped",
 "tests decode a few small containers; an element in the wrong place shows only for particular sizes and shapes",
 [D],[("decodeArray/decodeHash",D),("decodeArrayViaReflection/decodeHashViaReflection",D)])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in props))
print(len(props))
