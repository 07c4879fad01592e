"""Technique and assurance of each check, for the manifest."""
READ = "readings by the real code of %s, each decided by TLC stepping the TLA+ reader machine (spec/Reader.tla) through the same tokens"
WRITE = "outputs of the real code for %s, each walked by TLC along the events the TLA+ writer specification (spec/Writer.tla) intends"
TR = "Every recorded reading is decided by the TLA+ reader. Types, documents and limits are enumerated within small scopes and sampled beyond. Trusts TLC, the renderer of documents and the harness."
TW = "Every recorded output is decided by the TLA+ writer specification. Types and values are enumerated within small scopes and sampled beyond. Trusts TLC, the lexer for outputs and the harness."
SMALL = "all token sequences of bounded length that TLC enumerates for small types (ReadGen), and generated documents "
NOTES = {
    "C01": (WRITE % "trees of elements TLC enumerates (TreeGen) and generated values of fixed and random types" + " (aspect wf: tags, nesting, bound prefixes, no duplicates)", TW),
    "C02": (WRITE % "all small trees of elements over namespaces, prefixes and force (TreeGen) and generated values" + " (aspect name: names resolved by the TLA+ namespace scopes)", TW),
    "C03": ("Texts TLC enumerates (CodecGen), all code points and random texts written by the real code; TLC decides by the TLA+ coding relation (spec/Codec.tla) whether what was written denotes the text", "Exhaustive over code points and short texts, sampled beyond. Trusts TLC and the harness."),
    "C04": ("Texts TLC enumerates over alphabets around each form of reference (CodecGen), all references by number and random texts; decoded by the real code and by the TLA+ decoding machine (spec/Codec.tla)", "Exhaustive over short texts and numbers, sampled beyond. Trusts TLC and the harness."),
    "C05": (WRITE % "a census of scalars x modes x wrappers and generated values" + "; the outputs are read back by the real reader and by the TLA+ reader, both of which have to give the value", TW),
    "C06": (READ % (SMALL + "with renamed, shadowed, moved and removed declarations"), TR),
    "C07": (READ % (SMALL + "with permuted, unknown and look-alike elements and attributes"), TR),
    "C08": (READ % (SMALL + "with dropped and repeated parts, and a census of scalars x modes x wrappers x occurrences"), TR),
    "C09": (READ % (SMALL + "cut off, with wrong, missing and extra end tags and trailing content"), TR),
    "C10": (READ % (SMALL + "around given and default limits"), TR),
    "C11": (READ % (SMALL + "captured dynamically"), TR),
    "C12": ("Programs of calls to nested readers that TLC enumerates over small documents (CursorGen), and random ones over large documents, run by the real code; TLC follows each in the TLA+ model of the pull interface (spec/Cursor.tla)", "All programs up to the bound over the small documents, sampled beyond. Trusts TLC, the renderer of documents and the harness."),
    "C13": ("Programs of writer calls that TLC enumerates (CallGen) and random ones, run by the real code with every illegal call tried in between; TLC follows each in the TLA+ protocol of the writer (spec/Calls.tla, CallCheck.tla)", "All programs up to the bound, sampled beyond. Trusts TLC, the lexer for outputs and the harness."),
    "C14": (READ % "a census of texts for every scalar, within one edit of its values, and generated documents" + " with the TLA+ definition of scalar texts (spec/Scalars.tla); written values by the TLA+ writer", TR),
    "C15": ("Names that TLC derives from identifiers and renaming rules (spec/Rename.tla, NameGen) against the names the real code writes and accepts, decided by the TLA+ writer and reader", TR),
    "C16": ("Logs of writes to sinks that fail at every single write, checked by TLC against the TLA+ protocol between serializer and sink (spec/Sink.tla)", "A failure at every write of each sampled value. Trusts TLC and the recording sink."),
    "C17": (WRITE % "all small trees of elements over namespaces, prefixes and force (TreeGen) and generated values" + " (aspect place: the TLA+ relation between scope, declarations and prefixes)", TW),
    "C18": (READ % (SMALL + "for transparent, forwarding and tuple types, permuted, dropped, repeated and renamed"), TR),
    "C19": (WRITE % "a census of scalars x modes x wrappers and generated values" + " (aspect value: the intended events, in order, and nothing else)", TW),
    "C20": (READ % (SMALL + "damaged in any way, whose tokens come from the lexer") + "; large inputs against small ones", TR),
}
