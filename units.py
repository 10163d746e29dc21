"""Which proof units decide which property, and what stays assumed."""

FMT = "the itoa crate prints an i32 as its decimal digits"
PROPS = {
    "C01": {
        "units": ["doc", "history", "xref", "chunks"],
        "technique": "deductive verification (Verus) of Pdf::finish, the table writer and a client",
        "note": "Pdf::finish, write_offsets (three nested loops), PlainXRefWriter, the trailer writers and the constructors are verified for every set of objects: the bytes are the objects, the table, the trailer and the end; proved readers of the table look up each number and get the position at which that object begins, or a link of the free list. A verified client reaches this after any history of objects, streams, appended chunks and settings.",
        "assumes": [
            "object numbers below i32::MAX and files below 10^10 bytes (wider offsets do not fit the 10 digits of an entry)",
            "sort leaves the same items in order of their numbers",
            "core::fmt prints zero-padded decimal numbers",
            "a vector has at most isize::MAX bytes",
        ],
    },
    "C02": {
        "units": ["doc", "history", "xref", "chunks"],
        "technique": "deductive verification (Verus) of the cross-reference stream writer and a client",
        "note": "finish_with_xref_stream and _and_filter, XRefStreamWriter, determine_field_width and write_offsets are verified for every set of objects, any file length and any filter closure: the unfiltered data are entries of 1, w and 2 bytes that hold every offset and number, a proved reader looks each up, and the dictionary has the type, /W, the size and the trailer entries.",
        "assumes": [
            "object numbers below i32::MAX; data of at most i32::MAX bytes (longer data panics, as documented)",
            "sort leaves the same items in order of their numbers",
            "the filter closure may do anything but panic",
            "a vector has at most isize::MAX bytes",
        ],
    },
    "C03": {
        "units": ["strings"],
        "technique": "deductive verification (Verus) of the extracted string writers",
        "note": "Every obligation of Str::write, Str::is_balanced, Buf::push_octal/push_hex is discharged for all byte strings: the bytes appended are exactly one string object that a reader automaton for ISO 32000 7.3.4 decodes to the input.",
        "assumes": [
            "byte strings of at most i32::MAX bytes (the parenthesis counter is an i32)",
        ],
    },
    "C04": {
        "units": ["strings", "text"],
        "technique": "deductive verification (Verus) of the extracted text string writers",
        "note": "TextStr::write, TextStrWithLang::write, write_utf16be_* and LanguageIdentifier are verified for all texts: the string read back decodes (PDFDocEncoding or UTF-16BE with BOM) to the same code points and language tags.",
        "assumes": [
            "str::encode_utf16 yields the UTF-16 code units (iterated as a slice)",
            "texts whose written size is at most i32::MAX",
        ],
    },
    "C05": {
        "units": ["names"],
        "technique": "deductive verification (Verus) of the extracted name writer",
        "note": "Name::write, is_regular_character and Buf::push_hex are verified for all byte strings against a reader of name objects.",
        "assumes": [],
    },
    "C06": {
        "units": ["numbers"],
        "technique": "deductive verification (Verus) of the extracted number writers",
        "note": "push_int, push_float, push_real, push_decimal and the i32 and f32 writers are verified against a reader of PDF number syntax: the text is a number without exponent whose value rounds to the given float.",
        "assumes": [
            "itoa, ryu and core::fmt print a number that rounds to the value, in the syntax assumed in floats.vt",
            "f32 comparisons and casts are uninterpreted functions with the axioms of floats.vt",
        ],
    },
    "C07": {
        "units": ["date"],
        "technique": "deductive verification (Verus) of the extracted Date type",
        "note": "Date::new, all setters and Date::write are verified for all values against the date format of ISO 32000 7.9.4.",
        "assumes": ["core::fmt prints zero-padded decimal numbers"],
    },
    "C08": {
        "units": ["objects", "values", "numbers", "strings", "names", "refs"],
        "technique": "deductive verification (Verus) of the extracted object writers and of a recursive client",
        "note": "Every function of Obj, Array, Dict, TypedArray, TypedDict and Stream is verified against a tokenizer of PDF syntax for both modes and all states, and a verified client writes any tree of values and any sequence of objects; a proved reader rebuilds exactly the tree from the tokens.",
        "assumes": [
            "collections of fewer than i32::MAX items",
            "writers are dropped exactly once, where Rust drops them (the extraction makes the drop a call)",
            "iterators passed to items and pairs yield a finite sequence",
        ],
    },
    "C09": {
        "units": ["chunks", "objects", "values"],
        "technique": "deductive verification (Verus) of the extracted stream writers and of a client",
        "note": "Stream::start, Drop for Stream and Chunk::stream are verified: /Length, the data verbatim, the keyword lines and endobj, with any further entries.",
        "assumes": ["data of at most i32::MAX bytes (longer data panics, as documented)"],
    },
    "C10": {
        "units": ["chunks", "values", "starters", "history"],
        "technique": "deductive verification (Verus) of the extracted Chunk type and of a client",
        "note": "Chunk::indirect, stream, extend and the constructors keep the invariant that every recorded position is where that object begins; appending adds the bytes unchanged and shifts the positions, and is associative.",
        "assumes": ["Vec::extend and Iterator::map on slices append and map all items in order"],
    },
    "C11": {
        "units": ["renumber", "tokens", "values", "chunks"],
        "technique": "deductive verification (Verus) of the renumbering code and of a client",
        "note": "Every function of renumber.rs and Chunk::renumber, renumber_into under contract for all bytes: the object is found, patched exactly at the references a reader would see, and positioned; a verified client writes any list of values and streams, renumbers it with any mapping, and gets each object back with its number and references replaced and the mapping asked exactly about them, in order.",
        "assumes": [
            "memchr::memmem::find and rfind return the first and last occurrence",
            "str::from_utf8 and str::parse::<i32> on digits; bool::then_some; u8::is_ascii_digit",
            "slice::get, split_at, ends_with, starts_with, Iterator::copied and peekable (wrappers in slicelib.vt, renumlib.vt)",
            "the mapping is a function value that may keep state; its questions and answers are logged",
            "objects shorter than i32::MAX bytes, as everything written",
        ],
    },
    "C12": {
        "units": ["limits", "objects", "values", "chunks", "names", "numbers", "refs", "strings", "text", "date", "content"],
        "technique": "deductive verification (Verus) of Limits and of every writer that registers a limit",
        "note": "Each register function and merge takes the maximum, every object writer registers exactly its own event, and a lemma over histories gives the maxima; content stream operands are covered by the same primitive contracts.",
        "assumes": ["f32::max and f32::abs on non-NaN values (axioms in limlib.vt)"],
    },
    "C16": {
        "units": ["refs"],
        "technique": "deductive verification (Verus) of the extracted Ref type",
        "note": "Ref::new is verified twice: it panics for every number that is not positive, and never for a positive one; next, bump, get and write for all references.",
        "assumes": ["references below i32::MAX (next after the largest panics)"],
    },
    "C13": {
        "units": ["content"],
        "technique": "deductive verification (Verus) of every content stream method",
        "note": "Each method of Content, ShowPositioned, PositionedItems and Operation has a contract that states the operands and the operator, taken from the operator table of ISO 32000 (Annex A), as the tokens appended; all are discharged for all arguments and both modes.",
        "assumes": [
            "an operator name is used as the bytes of its text",
            "Buf, numbers, names and strings as proved under C03, C05 and C06",
        ],
    },
    "C14": {
        "units": ["calc"],
        "technique": "deductive verification (Verus) of the extracted calculator encoder and of a client",
        "note": "PostScriptOp::encode, write_slice (loop invariant), write (mutual recursion with a termination measure) and operator are verified for every tree: a reader of words and braces, and a block decoder, give back exactly the operators, literals and nested blocks; the operator names are those of Table 42 and all different.",
        "assumes": [
            "finite real literals; numbers as proved under C06",
            "Vec::pop removes the last byte",
        ],
    },
    "C15": {
        "units": ["cmap", "text"],
        "technique": "deductive verification (Verus) of the extracted UnicodeCmap and of a client",
        "note": "with_writing_mode, pair, pair_with_multiple, flush_range and finish are verified for every history and both code widths: a tokenizer and a reader of bfchar blocks get the required header, the whole code space, and exactly the given entries in order, in blocks that announce their 1 to 100 entries; the texts decode from UTF-16BE to the given characters.",
        "assumes": [
            "name, registry and ordering hold no line end (the header repeats them in comments)",
            "char::encode_utf16 yields the UTF-16 code units",
        ],
    },
    "C17": {
        "units": ["guards", "guarded", "xrefguard", "xref", "refs", "chunks", "docguard", "doc"],
        "technique": "deductive verification (Verus) of every checked function, once per direction",
        "note": "Each function that checks a requirement is verified twice: with its assertions as proof obligations it is shown never to panic when the requirement holds (guards, xrefguard, docguard), and with its assertions as exits it is shown to return only when the requirement holds (guarded, refs, chunks, xref, doc).",
        "assumes": [
            "f32 comparisons are uninterpreted functions with the axioms of guardlib.vt",
            "sort leaves the same items in order of their numbers",
        ],
    },
    "C18": {
        "units": ["enums", "set_forms"],
        "technique": "deductive verification (Verus) of every enumeration and flag set",
        "note": "to_name and to_int of every enumeration against tables of the names of ISO 32000, lemmas that different values have different names, and the bits of every flag with the set operations over them.",
        "assumes": ["the bitflags macro gives the constants and set operations that its documentation states"],
    },
    "C19": {
        "units": ["writers", "set_actions", "set_annotations", "set_attributes", "set_color", "set_content",
                  "set_files", "set_font", "set_forms", "set_functions", "set_object", "set_renditions",
                  "set_structure", "set_transitions", "set_xobject", "starters", "doc"],
        "technique": "deductive verification (Verus) of every typed writer and setter",
        "note": "Every typed writer starts with the entries the standard requires and every setter appends exactly the entries of the table in tables/setters.txt (transcribed from ISO 32000) or of the hand-written contract, counts them, and leaves everything before unchanged.",
        "assumes": [
            "the keys, names and value types in tables/setters.txt and proofs/spec_*.vt are those of ISO 32000",
            "iterator arguments yield a finite sequence of items",
        ],
    },
    "C20": {
        "units": ["roles", "enums"],
        "technique": "deductive verification (Verus) of the structure roles and conversions",
        "note": "to_name, role_type, into_pdf_2_0, compatibility_1_7, the accessors and both TryFrom conversions for all roles, heading levels and options; lemmas that the conversions agree with the equality of names.",
        "assumes": [
            "core::fmt prints the heading level in decimal; io::Cursor keeps the bytes written",
            "the reading of ISO 32000-2 annex L and 14.8.4 in proofs/rolelib.vt",
        ],
    },
    "C21": {
        "units": ["doc", "history", "chunks"],
        "technique": "deductive verification (Verus) of the document header and a client",
        "note": "The constructors, set_version, set_binary_marker and finish are verified: only the header bytes change, every recorded position stays right, and a verified client shows that after any history the file begins with the last version and marker.",
        "assumes": [
            "the chunk of the document is not replaced through DerefMut",
            "a vector has at most isize::MAX bytes",
        ],
    },
    "C22": {
        "units": ["sides", "enums"],
        "technique": "deductive verification (Verus) of Sides and of the attributes that take one",
        "note": "Sides::new, from_array, uniform, is_uniform, into_array, the three writers and the six setters: one value exactly if all sides compare equal, otherwise the four in the order before, after, start, end.",
        "assumes": [
            "== on f32 and on arrays of f32 compares numbers in order; derived == compares variants",
            "the mapping functions given to write_map_primitive keep no state",
        ],
    },
}
