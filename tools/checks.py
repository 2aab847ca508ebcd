HOOKS = {"guard": "cfg bytedata_verif", "enable": "RUSTFLAGS=\"--cfg bytedata_verif\" (Kani build of the harness modules named h*)", "source_commits": ["857d5c0"]}
NOTES = "See DESIGN.md."
KV = "deductive contract harnesses (Kani/CBMC) on the real functions; executable contracts as bounded stand-in and replay"
NB = "executable contracts on the real functions over enumerated and seeded inputs (bounded stand-in)"
VN = "deductive verification (Verus) of functions extracted from the source on every run; executable contracts as bounded stand-in and replay"
KVN = "deductive verification: Verus on functions extracted from the source, Kani contract harnesses on the real functions; executable contracts as bounded stand-in and replay"
T = " Trusts Verus/Z3, vstd and the contracts listed in the evidence as trusted."
CHECKS = {
 "P02": {"technique": KVN, "level": "proof", "note": "Verus: shared and external bytes of every length and range. Kani: inline values complete; byte values over the other representations with unconstrained ranges at a value length of 17 (bounded). Trusts Kani/CBMC, Verus/Z3, std and the contracts listed in the evidence."},
 "P03": {"technique": VN, "level": "proof", "note": "Every block size, alignment, range and number of handles: memory and counter by the contracts of an allocator and of a counter of rights (with memory orderings). Histories across threads are also run by Miri (bounded)." + T},
 "P04": {"technique": VN, "level": "proof", "note": "Every builder function, alignments up to 512, every length up to 4 GiB; the memory by the contracts of an allocator. io::Write is P16." + T},
 "P05": {"technique": KVN, "level": "proof", "note": "Kani: complete over the whole domain (14 bytes) on the real functions. Verus: every function of ByteChunk, arguments of every length. Trusts Kani/CBMC, Verus/Z3 and std."},
 "P06": {"technique": VN, "level": "proof", "note": "All const helpers over byte slices and text, every length; the macros are bounded (executable contracts). Raw pointers are read through a slice-with-offset shim." + T},
 "P07": {"technique": VN, "level": "proof", "note": "const_utf8_char_next and Utf8CharIndices, every byte sequence. Raw pointers are read through a slice-with-offset shim." + T},
 "P09": {"technique": KVN, "level": "proof", "note": "Ring and list operations by Kani from every well-formed state, lists of any length, chunks opaque one-byte values; the byte queue over the list by Verus. Conversions from and into queues by Verus. What dropping releases is P15. Trusts Kani/CBMC, Verus/Z3, std."},
 "P10": {"technique": VN, "level": "proof", "note": "Every division into chunks, needle and position; chunks and the list of chunks by their contracts (P02, P09)." + T},
 "P11": {"technique": VN, "level": "proof", "note": "Every division into chunks, range and replacement; chunks and the list of chunks by their contracts (P02, P09). Refusal leaving the queue unchanged and forgotten drains are bounded." + T},
 "P12": {"technique": VN, "level": "proof", "note": "Byte, chunk and draining iterators over the list's contracts; the iterator over the list's rings itself over well-formed lists of any length." + T},
 "P13": {"technique": VN, "level": "proof", "note": "Queue against queue and slice, both directions, equality, order and hash; byte, string, shared values, builders and chunks against each other and against slices, texts and vectors." + T},
 "P15": {"technique": VN, "level": "proof", "note": "Owners of every type, size and alignment: creating, reading, cutting, cloning, taking back and dropping the handle; and that byte values route to it." + T},
 "P23": {"technique": VN, "level": "proof", "note": "Contracts of the counter with memory orderings (release to give a right back, acquire before freeing or reusing): each handle's functions are proved against them, which covers every interleaving; the C11 argument behind these contracts is trusted. Miri runs histories in three threads (bounded) and supplies failing schedules." + T},
 "P01": {"technique": VN, "level": "proof", "note": "Every length and representation: each constructor, conversion, cut and clone of byte values leaves what its contract says, byte for byte; chunk, shared and external bytes by their own contracts. That the old handles still read the same bytes after every mix of operations is also run natively (bounded). Implicit drops at scope ends are not modelled." + T},
 "P08": {"technique": VN, "level": "proof", "note": "Every function of StringData and SharedStrBuilder that makes, cuts or extends a text, every text and position; std's text functions by their contracts. Conversions and formatting by the contract of a formatter; what the `arbitrary` crate generates is bounded." + T},
 "P21": {"technique": VN, "level": "proof", "note": "What every serialize function hands over and what every visitor function makes of what it is told, all lengths; serde itself by its contracts. Round trips through real formats are bounded." + T},
 "P24": {"technique": VN, "level": "proof", "note": "take_while, take_line, split functions and iterators of byte values, every length and every predicate (as a pure function of the byte)." + T},
 "P14": {"technique": VN, "level": "proof", "note": "Every text and division at character borders; chunks, list and byte queue by their contracts (P02, P09-P12); generated queues are bounded." + T},
 "P16": {"technique": VN, "level": "proof", "note": "Reading (plain, vectored, to the end, up to a byte, buffered) from values, shared bytes and queues, writing (plain, vectored) to builders and queues: every content, buffer list and division into chunks; the caller's buffers by their contracts." + T},
 "P17": {"technique": VN, "level": "proof", "note": "Conversions between byte values, shared bytes, queues and `Bytes`, the functions `Bytes` calls on a shared block (with their memory orderings), Buf of values, shared bytes and queues, BufMut of the builder: every content, division and range; the bytes crate by its documentation and by the layout of `Bytes`. Miri runs histories (bounded)." + T},
 "P19": {"technique": VN, "level": "proof", "note": "Every body of http_1 (bytes, shared bytes, queue): frames, end of stream, size hint, for every content and every history of polls; http-body's traits by their signatures." + T},
 "P20": {"technique": VN, "level": "proof", "note": "Debug and hex renderings, every length and byte, against the denotation of the byte-string literal; the formatter by its contract (what is written is appended, errors are passed on)." + T},
 "P18": {"technique": VN, "level": "proof", "note": "Every input operation of byte values, string values, byte queues and string queues, every content, division and argument; nom's own answers for slices and `str` by their contracts (comparison without case of texts only as whatever nom answers). HexDisplay and whole parsers are bounded." + T},
 "P22": {"technique": VN, "level": "proof", "note": "What each interning function stores and gives back, for every value and every content of the pool; the concurrent map and the atomics by their contracts. Threads are run natively (bounded)." + T},
}
for i in range(1, 25):
    k = "P%02d" % i
    if k not in CHECKS:
        CHECKS[k] = {"technique": NB, "level": "exploration", "note": "Bounded: says nothing beyond the enumerated and seeded cases."}
CHECKS = dict(sorted(CHECKS.items()))
NOT = {}
