"""The properties (single source of properties.jsonl; run tools/mkmeta.py after editing)."""
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": ["src/" + f for f in files],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "observe_at": list(observe), "hook_needed": hook}})

prop("P01", "Building a byte value keeps its bytes, whatever the representation",
     "A byte value built from a static, borrowed, inline, owned, concatenated, shared or externally owned byte sequence reads back exactly that sequence, with the same length and emptiness, and so does every clone and every conversion of it to another form (owned vector, boxed slice, shared bytes, borrowed-or-owned). Which of the representations is chosen is never observable through the contents.",
     ["inputs"], "every content and length (in particular around the inline limit of 14 bytes), every constructor, every conversion between representations",
     "The tests build a handful of short literals; the four representations share one 16-byte union whose tag, inline length and pointer fields overlap, so a wrong tag bit or length shift only shows for particular lengths or constructors.",
     ["bytedata.rs", "byte_chunk.rs", "shared_bytes.rs", "external.rs", "stringdata.rs"],
     [("tagged union over four representations", "src/bytedata.rs ByteData, DataKind::kind"), ("length packed above the tag byte", "src/bytedata.rs ByteSlice::new/len"), ("inline copy", "src/byte_chunk.rs ByteChunk::from_slice")],
     [("kind", "low bits of the first byte select the representation", "src/bytedata.rs DataKind")], ["ByteData::as_slice", "ByteData::len", "From/Into impls"])

prop("P02", "Cutting a byte value is exactly slice indexing",
     "Taking a sub-range of a byte value, restricting it in place, splitting it at a position or taking a prefix off it yields exactly the bytes that indexing a slice with the same range yields, in every representation and for every kind of range, and leaves the original (or the remainder) with exactly its own bytes. A range or position that does not lie inside the value, including one whose bounds overflow, is refused by a panic and never yields bytes.",
     ["inputs"], "every representation, length and content, every range type with arbitrary bounds up to the maximum integer",
     "Bounds are computed by hand per representation with wrapping, inclusive and excluded ends and 32-bit offsets; the tests cut two or three in-range pieces and never approach a bound.",
     ["bytedata.rs", "byte_chunk.rs", "shared_bytes.rs", "external.rs"],
     [("range to offset conversion", "src/bytedata.rs sliced/into_sliced/make_sliced/into_shared_range"), ("offset arithmetic of shared slices", "src/shared_bytes.rs sliced/make_sliced"), ("inline shift", "src/byte_chunk.rs slice"), ("external reference split", "src/external.rs sliced_range/make_sliced_range")],
     [], ["ByteData::sliced", "ByteData::take_bytes", "ByteData::split_at", "SharedBytes::sliced_range"])

prop("P03", "Shared bytes are immutable, counted and freed exactly once",
     "Every clone and sub-range of a shared byte buffer keeps reading the same bytes, without copying them, for as long as it lives, no matter in which order the others are dropped or cut. The buffer reports itself as uniquely owned exactly when one handle remains, is freed exactly once when the last handle goes, with the size and alignment it was allocated with, and can be turned back into a growable buffer in place only when uniquely owned.",
     ["histories", "inputs"], "every history of cloning, cutting, dropping, converting and reusing handles of one buffer, every length and alignment",
     "Ownership is a hand-maintained counter in front of the bytes; a missing or extra increment only shows after a particular order of drops, and the tests exercise one clone.",
     ["shared_bytes.rs", "shared_bytes_builder.rs", "bytedata.rs"],
     [("reference count next to the data", "src/shared_bytes.rs SharedBytesMeta, Clone, Drop"), ("reuse of a unique buffer", "src/shared_bytes_builder.rs From<SharedBytes>")],
     [("refcnt", "number of live handles of the buffer", "src/shared_bytes.rs SharedBytesMeta"), ("len", "allocated size, needed to free it", "src/shared_bytes.rs SharedBytesMeta")],
     ["SharedBytes::is_unique", "SharedBytes::as_slice", "allocator calls"], "private state of the count and of the allocation")

prop("P04", "The byte builder is a growable byte buffer",
     "After any sequence of appends, reservations, truncations, clears and fills of its spare room, the builder holds exactly the bytes that the same operations leave in a plain vector, its capacity is never below its length and never below what was reserved, and the bytes keep the requested alignment. Freezing it yields exactly those bytes, and requests beyond the representable size are refused by a panic rather than wrapped.",
     ["histories", "inputs"], "every sequence of builder operations with every argument, every power-of-two alignment up to 512",
     "Growth is 32-bit arithmetic over raw allocations with two size classes; the tests append a few short slices and one alignment, so growth boundaries, reallocation and size overflow are never reached.",
     ["shared_bytes_builder.rs", "shared_bytes.rs"],
     [("growth policy and reallocation", "src/shared_bytes_builder.rs reserve/reserve_exact/extend_from_slice"), ("header placement for alignment", "src/shared_bytes.rs compute_start_offset"), ("freezing", "src/shared_bytes_builder.rs build")],
     [("off", "end of the written bytes, counted from the allocation start", "src/shared_bytes_builder.rs"), ("len", "size of the allocation, 0 when there is none", "src/shared_bytes_builder.rs")],
     ["SharedBytesBuilder::as_slice", "capacity", "build"])

prop("P05", "Inline chunks hold up to fourteen bytes exactly",
     "An inline chunk built from at most fourteen bytes holds exactly them, a longer input is refused by a panic, and cutting a chunk equals slice indexing including the refusals. Writing text to a chunk appends it completely, or fails and leaves the chunk unchanged when it does not fit.",
     ["inputs"], "every content, every length, every range with arbitrary bounds, every text",
     "The chunk shifts bytes in place through overlapping raw copies and truncates lengths to a byte; tests cover one or two literals.",
     ["byte_chunk.rs"], [("in-place shift and 8-bit length", "src/byte_chunk.rs slice"), ("write_str bound", "src/byte_chunk.rs write_str")],
     [("len", "number of bytes in use, at most 14", "src/byte_chunk.rs")], ["ByteChunk::as_slice", "ByteChunk::sliced", "core::fmt::Write"])

prop("P06", "Compile-time byte and text helpers agree with the standard library",
     "The helpers usable in constant evaluation for equality, prefix and suffix tests, sub-ranges of bytes and text, searching, splitting once and concatenation return, for every input, what the corresponding standard library operation returns; they never read outside their inputs. Concatenation through the constant macros yields the parts in order.",
     ["inputs"], "every haystack, needle, range and list of parts of any length",
     "The helpers use raw pointers with hand-computed bounds and loops; the doc tests check a single match each.",
     ["lib.rs", "macros.rs"], [("loops over raw slices", "src/lib.rs const_eq, const_starts_with, const_ends_with, const_find_bytes"), ("raw sub-slices", "src/lib.rs const_slice, const_slice_str, const_split_once_bytes"), ("constant concatenation", "src/lib.rs build_const_bytes, src/macros.rs")],
     [], ["the public const functions"])

prop("P07", "Decoding one character of UTF-8 agrees with the standard",
     "Decoding the next character of a byte sequence yields the character and width the Unicode standard defines for its start, and reports an error exactly when the start is not a well-formed character: overlong forms, surrogates, values out of range, stray or missing continuation bytes and truncated input included. Iterating over a byte sequence visits every character of well-formed parts at its position, always makes progress and stops at the end.",
     ["inputs"], "every byte sequence",
     "The decoders are hand written with bit masks and raw reads; the tests decode three strings with one bad byte.",
     ["lib.rs", "char_indicies.rs"], [("decoder", "src/lib.rs const_utf8_char_next"), ("iterator step", "src/char_indicies.rs next_const")], [], ["const_utf8_char_next", "Utf8CharIndices"])

prop("P08", "String values are always valid text and cut like strings",
     "A string value or string builder never holds bytes that are not valid UTF-8: construction from bytes succeeds exactly when they are valid and otherwise hands the input back unchanged. Cutting, splitting, trimming, taking a line or a prefix, and truncating yield exactly what the same operation on a plain string yields, and a cut that is out of range or inside a character is refused.",
     ["inputs", "histories"], "every text, byte sequence, range and predicate, in every representation",
     "String operations rely on unchecked conversions over hand-computed byte positions; tests use a few ASCII literals.",
     ["stringdata.rs", "shared_str_builder.rs"], [("validation on entry", "src/stringdata.rs try_from_shared/try_from_bytedata"), ("cutting through str ranges", "src/stringdata.rs sliced/split_at/take_while/take_line/trim"), ("boundary check on truncation", "src/shared_str_builder.rs truncate")], [], ["StringData::as_str", "SharedStrBuilder::as_str"])

prop("P09", "A byte queue is the concatenation of its chunks through any history",
     "After any history of pushing and popping at either end, appending another queue, splitting off a tail and cloning, the queue holds exactly the chunks those operations leave in a double-ended list: same chunks, same order, and byte and chunk counts that match them; flattening it into one value or vector gives their concatenation. Empty pieces never become chunks, and no chunk is lost, duplicated or freed twice.",
     ["histories", "inputs"], "every history of queue operations over chunks of every representation, across the internal block boundaries",
     "Chunks live in a linked list of fifteen-slot rings plus a separate first slot, with a separately kept byte count; tests push fewer than sixteen chunks and never mix ends.",
     ["queue/byte_queue.rs", "queue/linked_root.rs", "queue/linked_node_data.rs", "queue/linked_node_leaf.rs", "queue/chunk_iter.rs"],
     [("ring of slots", "src/queue/linked_node_data.rs"), ("list of rings and first slot", "src/queue/linked_root.rs"), ("byte count", "src/queue/byte_queue.rs remain")],
     [("beg,len", "occupied part of a ring", "src/queue/linked_node_data.rs"), ("count", "chunks in the queue", "src/queue/linked_root.rs"), ("remain", "bytes in the queue", "src/queue/byte_queue.rs")],
     ["ByteQueue::chunks", "ByteQueue::len", "ByteQueue::chunk_len"], "private state of the ring and of the list")

prop("P10", "Searching a byte queue equals searching its concatenation",
     "Finding a byte or a byte sequence, from the start or after a position, testing for a prefix, a suffix or a sequence at a position, and splitting on a separator give the same answer on a queue as on the flat concatenation of its chunks. How the bytes are divided into chunks never changes an answer.",
     ["inputs"], "every division of every content into chunks, every needle, position and predicate",
     "Matches that straddle chunk borders, overlap themselves or end at the very end need specific divisions; the tests search for one needle in one division.",
     ["queue/byte_queue.rs", "queue/split.rs"], [("cross-chunk comparison", "src/queue/byte_queue.rs find_slice_pos, exists_at"), ("separator iterator", "src/queue/split.rs SplitOn")], [], ["ByteQueue::find_slice", "exists_at", "split_on"])

prop("P11", "Cutting and editing a byte queue equals editing its concatenation",
     "Slicing, consuming, splitting off, draining, replacing a range and taking a prefix of a queue leave, and return, exactly the bytes that the same edit of the flat concatenation leaves and returns; a drained range is removed even if the drain is not run to its end. A range outside the queue is refused by a panic and changes nothing.",
     ["inputs", "histories"], "every division into chunks, every range and replacement, every history of edits",
     "Each edit walks chunks, splits the ones at the borders and keeps a separate byte count; only one range per operation is tested.",
     ["queue/byte_queue.rs", "queue/drain.rs"], [("range check", "src/queue/byte_queue.rs check_range"), ("chunk-wise cutting", "src/queue/byte_queue.rs slice/consume/split_off/replace_range"), ("removal when the drain ends", "src/queue/drain.rs")], [], ["ByteQueue contents after the edit"])

prop("P12", "Queue iterators agree with iterating over the concatenation",
     "The byte, chunk and draining iterators of a queue yield exactly the bytes or chunks of the queue in order, from whichever ends and with whichever skips, limits and jumps they are driven, and the remaining length they report is exact at every step. After the last item they keep yielding nothing.",
     ["inputs", "histories"], "every division into chunks, every way of stepping the iterators (next, jump, from the back, skip, limit)",
     "Iterators override jumping, counting and size reporting with their own arithmetic across blocks; tests only collect them from the start.",
     ["queue/byte_iter.rs", "queue/linked_iter.rs", "queue/chunk_iter.rs", "queue/drain.rs"], [("jump and count overrides", "src/queue/byte_iter.rs"), ("block traversal", "src/queue/linked_iter.rs")], [], ["Iterator and ExactSizeIterator impls"])

prop("P13", "Equality, order and hashing depend on contents only",
     "Two values compare equal exactly when their bytes are equal, order as their bytes order, and hash equally when equal, whatever their representation or division into chunks and across all the types that can be compared with each other. Comparison is reflexive, symmetric and transitive.",
     ["inputs"], "every pair of contents, representations and divisions, every pair of comparable types",
     "Comparisons are written out per pair of types with hand-made chunk walking; tests compare a few equal literals of one representation.",
     ["bytedata.rs", "shared_bytes.rs", "stringdata.rs", "queue/byte_queue.rs", "queue/string_queue.rs"], [("per-type comparison impls", "PartialEq/Ord/Hash impls in the listed files"), ("chunk walking", "src/queue/byte_queue.rs eq/cmp")], [], ["==, cmp, hash"])

prop("P14", "A string queue behaves like the string it spells",
     "Pushing, popping, slicing, draining, splitting, searching, replacing and iterating over the characters of a string queue give what the same operations on the concatenated string give, wherever the text is divided into chunks, and every piece it hands out is valid text. A cut inside a character or out of range is refused.",
     ["inputs", "histories"], "every text and every division at character borders, every range, pattern and history",
     "Character positions are tracked across chunk borders by hand; the tests use ASCII text in two chunks.",
     ["queue/string_queue.rs", "queue/char_iter.rs", "queue/split.rs", "queue/drain.rs"], [("boundary check", "src/queue/string_queue.rs"), ("character iteration across chunks", "src/queue/char_iter.rs")], [], ["StringQueue operations"])

prop("P15", "Externally owned bytes keep their owner alive and drop it once",
     "A byte value made from an external owner keeps that owner alive while any clone or sub-range of the value exists, and drops it exactly once when the last one goes. Converting such a value back returns the original owner without copying only when nothing else refers to it, and otherwise an equal copy.",
     ["histories", "inputs"], "every history of cloning, cutting, dropping and converting back, every owner type and size",
     "The owner is stored behind type-erased pointers with its own counter; tests create one value and drop it.",
     ["external.rs", "bytedata.rs"], [("type-erased owner and counter", "src/external.rs ExtBytesWrapper/ExtBytes"), ("take-back of the owner", "src/external.rs take_inner, src/bytedata.rs From impls")],
     [("ref_count", "live references to the owner", "src/external.rs")], ["drops of the owner", "pointer identity after taking back"])

prop("P16", "Reading and writing through std::io moves exactly the bytes",
     "Reading, buffered reading and vectored reading from any of the byte types deliver exactly their bytes in order, each once, with short reads only at the end, and leave exactly the unread rest; writing to a queue or builder appends exactly the written bytes. The reported counts equal the bytes moved.",
     ["inputs", "histories"], "every buffer size, sequence of reads and writes, division into chunks",
     "Each impl copies and advances by hand; the existing tests contain no reads with buffers larger or smaller than the data.",
     ["std.rs"], [("copy and advance", "src/std.rs Read/BufRead/Write impls")], [], ["std::io traits"])

prop("P17", "Exchanging bytes with the bytes crate neither changes, copies nor leaks them",
     "Converting between this crate's types and the bytes crate preserves the bytes exactly, shares instead of copying where sharing is promised, and frees everything exactly once in any order of drops on either side. Used through the generic buffer traits, remaining length, contiguous chunk, advancing, extracting and appending agree with the flat bytes.",
     ["inputs", "histories"], "every content and representation, every sequence of clone, slice, convert, advance and drop on both sides",
     "The zero-copy path fabricates foreign vtables over raw pointers; tests convert two literals.",
     ["bytes_1/bytedata.rs", "bytes_1/shared_bytes.rs", "bytes_1/mod.rs", "bytes_1/queue.rs", "bytes_1/shared_bytes_builder.rs"], [("foreign vtable", "src/bytes_1/shared_bytes.rs"), ("Buf/BufMut impls", "src/bytes_1/*.rs")], [], ["Bytes contents", "Buf/BufMut", "allocator calls"])

prop("P18", "Parsing a value gives what parsing its flat contents gives",
     "Any parser built from the combinator library's input operations gives the same result, the same remaining input and the same kind of error on this crate's byte, string and queue types as on the flat slice or string with the same contents. Division into chunks never matters.",
     ["inputs", "programs"], "every input content and division, every input operation with every argument",
     "A dozen input traits are re-implemented per type; the tests run one tag parser.",
     ["nom_7/bytedata.rs", "nom_7/stringdata.rs", "nom_7/bytequeue.rs", "nom_7/stringqueue.rs", "nom_7/mod.rs"], [("input traits", "src/nom_7/*.rs")], [], ["nom input traits and combinators"])

prop("P19", "An HTTP body delivers exactly its bytes and then ends",
     "Polled as an HTTP body, a value yields data frames whose concatenation is exactly its bytes, never an empty or oversized frame, no trailers, and then reports the end for ever. The size it announces is the exact number of bytes left at every step, and it claims to be at the end exactly when nothing is left.",
     ["inputs", "histories"], "every content, length and representation, at every step of polling, for both versions of the interface",
     "Frame splitting only happens beyond 64 KiB, which no test reaches.",
     ["http_body_04.rs", "http_body_1.rs"], [("frame splitting", "src/http_body_1.rs, src/http_body_04.rs poll_frame/poll_data"), ("size hint", "size_hint impls")], [], ["http_body::Body"])

prop("P20", "Debug and hexadecimal rendering spell the exact bytes",
     "Rendering a value for debugging yields a valid byte-string or string literal that denotes exactly its bytes, and rendering it in hexadecimal yields exactly two digits per byte in order, padded as requested; both are independent of representation, and for a byte queue of its division into chunks (a string queue renders as the list of its pieces).",
     ["inputs"], "every content, representation and division, every width",
     "Escapes are produced by hand per byte; tests render one printable literal.",
     ["byte_string_render.rs", "bytedata.rs", "queue/byte_queue.rs"], [("escaping", "src/byte_string_render.rs"), ("hex", "LowerHex/UpperHex impls")], [], ["format output"])

prop("P21", "Serializing and deserializing a value preserves it",
     "Deserializing the serialized form of a byte or string value yields an equal value, in whichever form a format delivers it (borrowed, transient or owned bytes or text, optional values, sequences of values). Bytes that are not valid text never become a string value: they are refused.",
     ["inputs"], "every content and representation, every form a format may deliver (borrowed, transient or owned bytes or text, optional values, sequences of values)",
     "Each delivery form has its own visitor method; no test drives any of them.",
     ["serde_1/mod.rs", "serde_1/bytedata.rs", "serde_1/stringdata.rs", "serde_1/shared_bytes.rs"], [("visitors", "src/serde_1/*.rs")], [], ["Serialize/Deserialize impls"])

prop("P22", "Interning returns one stored copy per content",
     "Interning equal contents twice returns the same stored bytes at the same address, different contents never share an entry, looked-up and interned values equal what was put in, and values that are too long are handed back unchanged.",
     ["inputs", "histories"], "every history of interning and looking up values of every length and representation",
     "The table is keyed by hash and compared by content; tests never intern two colliding or equal values of different representation.",
     ["interning/mod.rs", "interning/static.rs", "interning/byte_interning.rs"], [("lookup and insertion", "src/interning/static.rs")], [], ["returned pointers and contents"])

prop("P23", "Handles may be used and dropped from several threads",
     "Clones of a shared or external value may be read, cloned and dropped concurrently from several threads under every interleaving: the buffer is freed exactly once, after the last use of its bytes happened.",
     ["schedules"], "every interleaving of clones, reads and drops in any number of threads",
     "Tests are single-threaded; a race on the counter needs a particular interleaving and memory order.",
     ["shared_bytes.rs", "external.rs"], [("atomic reference count", "src/shared_bytes.rs Clone/Drop, src/external.rs Clone/Drop")], [("refcnt", "atomic count of handles", "src/shared_bytes.rs")], ["allocator calls"])

prop("P24", "Splitting a value on a separator gives the pieces between the matches",
     "Splitting a byte or string value on a separator yields, in order, exactly the stretches between successive non-overlapping matches, so that joining them with the separator gives back the value up to a trailing separator; splitting once yields the part before the first match and the rest, or the value itself when there is none.",
     ["inputs"], "every content, separator and representation",
     "Overlapping and adjacent matches and matches at either end need specific contents; tests split one literal.",
     ["bytedata.rs", "stringdata.rs", "lib.rs"], [("split iterator", "src/bytedata.rs split_on"), ("first match", "src/lib.rs const_find_bytes")], [], ["split_on", "split_once_on"])
