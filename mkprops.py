#!/usr/bin/env python3
"""Writes properties.jsonl."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "state": [dict(zip(("name","meaning","where"), s)) for s in state],
                  "mechanism": [dict(zip(("name","where"), m)) for m in mech],
                  "observe_at": list(observe), "hook_needed": None}})

p("C01", "The cross-reference table of a finished file locates every object",
  "In a finished document, `startxref` gives the byte offset of the `xref` keyword; the table has one 20-byte entry for every number from 0 up to its stated size, each written object number's in-use entry gives the byte offset at which exactly that object (`N 0 obj`) begins, and every other number is a free entry that belongs to one linked list starting and ending at object 0. The trailer's size is one more than the highest object number, and it carries the catalog, info and ID entries that were supplied and no others.",
  ["inputs","histories"], "every set of distinct object numbers, written in any order with any contents, in both spacing modes",
  "tests write objects 1..n densely or one sparse case; gaps, out-of-order numbers, large numbers and large offsets are infinitely many",
  ["src/lib.rs","src/chunk.rs"],
  [("Pdf::finish","src/lib.rs"),("Pdf::finish_with_xref_table / write_offsets","src/lib.rs"),("Chunk::indirect","src/chunk.rs")],
  [("offsets","object number and start offset of every object","src/chunk.rs Chunk.offsets")], ["bytes of Pdf::finish"])
p("C02", "The cross-reference stream of a finished file locates every object",
  "When a document is finished with a cross-reference stream, `startxref` gives the offset of that stream's object, and the stream, decoded with its own /W, /Size and /Index, gives every written object number (its own included) a type-1 entry with the byte offset of exactly that object and every other number up to the size a free entry of one linked list. Field widths are large enough that no offset or object number is truncated, and the stream dictionary carries the trailer entries that were supplied.",
  ["inputs","histories"], "every set of distinct object numbers, any order, any file length, any number for the stream itself",
  "tests cover a single small file; field widths only change at 256, 65536, ... objects or bytes",
  ["src/lib.rs"], [("Pdf::finish_with_xref_stream","src/lib.rs"),("write_offsets","src/lib.rs")],
  [("offsets","object number and start offset of every object","src/chunk.rs Chunk.offsets")], ["bytes of Pdf::finish_with_xref_stream"])
p("C03", "Byte strings read back exactly",
  "For every byte string, the string object that is written is one complete PDF string object that a conforming reader decodes to exactly the same bytes. This holds whatever parentheses, backslashes, line ends, control or high bytes it contains, and nothing of it leaks into the following object.",
  ["inputs"], "every byte string, in every position a string may be written",
  "tests try a dozen strings; escapes interact (an octal escape before a digit, a lone carriage return, partial parenthesis nesting)",
  ["src/object.rs","src/buf.rs"], [("Sealed for Str","src/object.rs"),("Str::is_balanced","src/object.rs"),("Buf::push_hex, Buf::push_octal","src/buf.rs")], (), ["written bytes"])
p("C04", "Text strings read back as the same Unicode text and language tags",
  "For every Unicode text (without U+001B, which PDF cannot represent), the text string that is written decodes under the PDF rules (PDFDocEncoding, or UTF-16BE after a byte order mark) to exactly that text. A text string with languages is UTF-16BE and decodes to the same sequence of language tags and texts; language identifiers are accepted exactly when language and region are two ASCII alphanumeric characters each.",
  ["inputs"], "every Unicode string and every list of tagged strings",
  "tests use a few short strings; the boundary between the two encodings and surrogate pairs span all of Unicode",
  ["src/object.rs"], [("Sealed for TextStr","src/object.rs"),("Sealed for TextStrWithLang","src/object.rs"),("LanguageIdentifier","src/object.rs")], (), ["written bytes"])
p("C05", "Names read back exactly",
  "For every byte sequence, the name object that is written consists of a solidus, unescaped regular characters from `!` to `~`, and `#xx` escapes, and a conforming reader decodes it to exactly the same bytes. No byte of the name can end the name early or be read as part of another token.",
  ["inputs"], "every byte sequence used as a name, key or operand",
  "tests use a handful of names; every one of 256 byte values at every position matters",
  ["src/object.rs","src/buf.rs"], [("Sealed for Name","src/object.rs"),("is_regular_character","src/object.rs")], (), ["written bytes"])
p("C06", "Numbers are valid PDF numbers with exactly the given value",
  "Every integer is written as a decimal integer with exactly that value. Every finite real is written in PDF number syntax (optional sign, digits, at most one point, never an exponent) and its decimal value rounds to exactly the given float; where a real is forced, as in calculator functions, the decimal point is present.",
  ["inputs"], "all 2^32 integers and all finite single-precision floats",
  "tests format about ten numbers; precision loss or exponents only show for particular magnitudes",
  ["src/buf.rs","src/object.rs"], [("Buf::push_int, push_float, push_decimal, push_real","src/buf.rs"),("Sealed for i32, f32, Rect","src/object.rs")], (), ["written bytes"])
p("C07", "Dates are valid PDF dates with the clamped fields",
  "Every date value is written as a string of the PDF date format containing the year and then exactly those fields whose superior fields are all set, each clamped to its documented range. The offset from UTC is written only if the time is complete, with the sign of its hour, both parts two digits, and `Z` or a zero offset for UTC.",
  ["inputs","histories"], "every sequence of field settings with any argument values",
  "tests check a few dates; clamping, missing middle fields and negative offsets combine",
  ["src/object.rs"], [("Date and its setters","src/object.rs"),("Sealed for Date","src/object.rs")], (), ["written bytes"])
p("C08", "Objects nest and stay separate tokens in pretty and compact modes",
  "Whatever sequence of primitives, arrays, dictionaries and streams is written through the object writers, in pretty or compact mode and at any nesting depth, the output parses into exactly the objects that were written, in order and with the same nesting, framed as indirect objects. Adjacent tokens never merge, no delimiter is missing when a writer is dropped or finished, and both modes give the same objects.",
  ["inputs","histories","configurations"], "every well-typed sequence of writer calls, nested to any depth, in both modes",
  "tests fix a few shapes in one mode; the need for a separator depends on both neighbours and on the mode",
  ["src/object.rs","src/chunk.rs"], [("Obj::primitive","src/object.rs"),("Array, Dict, TypedArray, TypedDict and their Drop","src/object.rs"),("Obj::direct/indirect","src/object.rs")],
  [("needs_padding, indent","whether a separator is required before the next token","src/object.rs Obj")], ["written bytes"])
p("C09", "Stream objects carry their data verbatim with the right length",
  "A stream object's dictionary has a direct /Length equal to the number of data bytes, the data appears verbatim between `stream` and `endstream` each on their own line, and the object is closed with `endobj`. All entries added to the stream dictionary are in it, and writing a stream's filter and other common entries uses the standard keys.",
  ["inputs","histories","configurations"], "every data byte sequence and every set of dictionary entries, both modes",
  "tests use short text data; data can contain any bytes, including `endstream`",
  ["src/object.rs","src/chunk.rs"], [("Stream::start, Drop for Stream","src/object.rs"),("Chunk::stream","src/chunk.rs")], (), ["written bytes"])
p("C10", "Chunks keep the position of every object through concatenation",
  "At every moment the recorded references of a chunk are exactly the numbers of the objects written to it, in order, and each recorded position is where that object begins in the chunk's bytes. Appending a chunk to another or to a document appends its bytes unchanged and shifts its positions accordingly, so that the result equals writing all objects to one chunk.",
  ["inputs","histories"], "every history of writes, appends and merges over any number of chunks",
  "tests append one or two chunks; offsets depend on the whole history",
  ["src/chunk.rs"], [("Chunk::indirect, extend, refs, as_bytes, len","src/chunk.rs")],
  [("offsets","(number, offset) per object","src/chunk.rs")], ["Chunk::refs, Chunk::as_bytes, Pdf::finish"])
p("C11", "Renumbering changes the object numbers and references and nothing else",
  "Renumbering a chunk with a mapping yields a chunk with the same objects in the same order in which every object number and every indirect reference is replaced by its image, and every other byte between the first and the last token of each object, including text inside strings, streams, names and numbers that merely looks like a reference, is unchanged. The positions recorded for the result are correct, and the mapping is asked exactly about the numbers that occur.",
  ["inputs"], "every chunk the library can write, with any contents, and every mapping",
  "tests renumber two fixed chunks; string and stream contents and token adjacency are unbounded",
  ["src/renumber.rs","src/chunk.rs"], [("renumber, extract_object, patch_object","src/renumber.rs"),("Chunk::renumber","src/chunk.rs")], (), ["Chunk::renumber output"])
p("C12", "The reported implementation limits are the maxima over everything written",
  "After any history of writes, merges and appends, the limits reported for a buffer, chunk or content stream are exactly the maxima, over what was written into it or merged, of the absolute value of integers and of reals, the length of names and of strings, the number of items of arrays and of entries of dictionaries. No operation lowers them, and merging takes the field-wise maximum.",
  ["inputs","histories"], "every history of writes and merges",
  "tests check one small document; each kind of writer must report to the right field with the right number",
  ["src/buf.rs","src/object.rs","src/chunk.rs","src/content.rs"], [("Limits::register_*, merge","src/buf.rs"),("Drop for Array/Dict","src/object.rs"),("Chunk::extend, merge_limits","src/chunk.rs")],
  [("limits","running maxima","src/buf.rs Limits")], ["Chunk::limits, Buf::limits"])
p("C13", "Content stream operators are written with the right operands in order",
  "Each content stream method appends exactly one operator of the PDF operator table, preceded by its operands in the order and of the types that the table prescribes and with exactly the given values, or the sequence documented for compound methods. Operators and operands are always separate tokens in both modes, and nothing else is written.",
  ["inputs","histories","configurations"], "every sequence of content stream calls with any arguments, both modes",
  "tests cover a few dozen calls in one order; each of about 80 methods has its own operator and operand order",
  ["src/content.rs","src/color.rs"], [("Content and its methods","src/content.rs"),("Operation","src/content.rs"),("ShowPositioned, PositionedItems","src/content.rs")], (), ["bytes of Content::finish"])
p("C14", "PostScript calculator functions are encoded faithfully",
  "Every calculator program, with conditionals nested to any depth, is encoded as one brace-delimited token sequence that a reader decodes to the same operators, literals and nested blocks in the same order. Real literals keep their decimal point and integers have none.",
  ["inputs"], "every finite tree of calculator operators",
  "tests encode two programs; nesting and operator choice are unbounded",
  ["src/functions.rs","src/buf.rs"], [("PostScriptOp::encode, write_slice, write, operator","src/functions.rs")], (), ["PostScriptOp::encode output"])
p("C15", "Unicode CMaps map exactly the given codes to the given text",
  "A generated CMap has the required header, the code space range of its code width, and bfchar entries that map exactly the given character codes to exactly the given Unicode text in UTF-16BE. Blocks hold at most 100 entries, each announces exactly the number of entries it holds, and no entry is lost or duplicated.",
  ["inputs","histories"], "every sequence of mappings for every code width",
  "tests write one mapping each; blocks only roll over beyond 100 entries",
  ["src/font.rs"], [("UnicodeCmap::new, pair, pair_with_multiple, flush_range, finish","src/font.rs")], [("mappings, count","pending entries of the current block","src/font.rs")], ["UnicodeCmap::finish"])
p("C16", "References are always valid object numbers and allocation never repeats",
  "A reference can only be created for a positive number and its number is what was given; every other number is refused. Allocating from a running reference returns each number once, in increasing order without gaps, and a reference is written as `N 0 R`.",
  ["inputs","histories"], "every 32-bit number and every history of allocations",
  "tests create a few references; the boundary cases are 0, negatives and the maximum",
  ["src/object.rs"], [("Ref::new, get, next, bump","src/object.rs"),("Sealed for Ref","src/object.rs")], (), ["Ref API"])
p("C17", "Documented argument and order requirements are enforced",
  "A call that violates a documented requirement panics, so no output comes from it, and a call that satisfies the requirement never panics. The requirements are: an object number is between 1 and i32::MAX; stream data is at most i32::MAX bytes and a stream is an indirect object; each object number is written at most once in a finished document; an ICC profile has 1, 3 or 4 components; a Separation or DeviceN space gets its alternate space first, once, then its tint transform, then its attributes; steps of tiling patterns are not zero; line widths are not negative; flatness is from 0 to 100; predictor colors are positive and bits per component are 1, 2, 4, 8 or 16; the page mode after full screen is not full screen; and the count of visible outline items is not negative.",
  ["inputs","histories"], "every argument value and call order of the checked methods",
  "tests never exercise most guards; each guard is a boundary over all arguments or call orders",
  ["src/color.rs","src/content.rs","src/object.rs","src/structure.rs","src/lib.rs"], [("assert! and panic! in setters, constructors and Pdf::finish","src")], (), ["panics"])
p("C18", "Enumerations and flags are written as the standard's names and bits",
  "Every value of the enumerations and flag sets for PDF features is written as exactly the name, integer, or bit mask that the PDF standard assigns to it. Distinct values are always written differently, and combining flags writes the union of their bits.",
  ["inputs"], "every variant of every enumeration and every combination of flags",
  "tests touch a small fraction of several hundred variants",
  ["src/actions.rs","src/annotations.rs","src/attributes.rs","src/color.rs","src/content.rs","src/files.rs","src/font.rs","src/forms.rs","src/functions.rs","src/renditions.rs","src/structure.rs","src/transitions.rs","src/xobject.rs"], [("to_name, to_int, bits","src")], (), ["written names"])
p("C19", "Typed writers use the standard key and value for each entry",
  "Each typed setter adds exactly one dictionary entry (or the entries it documents) under the key that the PDF standard defines for it, with a value of the prescribed type and exactly the given content, and typed writers start with the required /Type and /Subtype. Nothing else in the dictionary changes.",
  ["inputs","histories"], "every typed setter with any argument, in any order",
  "tests cover few of about 600 setters",
  ["src"], [("setters of the typed writers","src")], (), ["written dictionaries"])
p("C20", "Structure roles and their PDF 2.0 mapping follow the standard",
  "Every structure role is written as its standard name, and the mapping from PDF 1.7 roles to PDF 2.0 roles and compatible roles gives the role of the same meaning that the standard prescribes. The predicates on roles and attributes that the documentation defines are correct for all roles and heading levels.",
  ["inputs"], "every role, heading level and option",
  "tests do not cover the mapping tables",
  ["src/structure.rs"], [("StructRole, StructRole2 and conversions","src/structure.rs")], (), ["written roles"])
p("C21", "The file header announces the version and binary content",
  "Every document begins with `%PDF-M.m` for the last version that was set (1.7 if none was; a component above 9 is ignored) and then a comment line with the four marker bytes (four bytes of 128 unless another marker was set). Setting the version or the marker at any point of the history replaces only those bytes of the header: the length of the document, every later byte and every recorded object position stay the same.",
  ["inputs","histories"], "every version and marker, set at any point of the history",
  "tests use the default header",
  ["src/lib.rs"], [("Pdf::new, set_version, set_binary_marker","src/lib.rs")], (), ["first bytes of the file"])
p("C22", "Layout attributes with sides collapse only when all sides agree",
  "Attributes that take a value per side or per edge write a single value exactly when all sides are equal, and otherwise an array of the four values in the order before, after, start, end. Reading the entry back yields exactly the given value for each side.",
  ["inputs"], "every combination of side values for every layout attribute that has sides",
  "tests write one case; every permutation of equal and different sides matters",
  ["src/attributes.rs"], [("Sides and its users","src/attributes.rs")], (), ["written attributes"])
with open("/verif/properties.jsonl","w") as f:
    for x in P:
        f.write(json.dumps(x)+"\n")
