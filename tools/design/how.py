# How each property is decided: what is compared with what.
HOW = {
"M01": "Each primitive is run on objects of exact size with symbolic contents (sizes, offsets and alignments forked), once with the real loops (no abstraction), and every byte of destination and neighbours is compared with the byte-wise definition. Alignment arithmetic is one query over all 47-bit addresses.",
"M02": "The arena's step is decided from a *symbolic state* (base address, capacity, fill, request size and alignment all solver variables), so it is an induction step: histories of any length follow. Pools, sub-arenas and the heap are run over every sequence of operations; blocks' addresses, overlap and contents are asserted after each step.",
"M03": "Every sequence of operations with symbolic items against a plain model sequence kept in the harness (length, every item, capacity), with one-byte and 24-byte items so that byte and item counts cannot be confused.",
"M04": "Every sequence of set/remove/grow/rehash/clear with symbolic keys (equal or not is the solver's choice; one-byte keys and few slots make chains) against a list of pairs; strides of many keys for growth.",
"M05": "The real table-driven code with symbolic bytes against bit-wise polynomial division computed in the harness: equality of two bit-vector terms, one query per length. Burst detection follows from equality with the standard CRC.",
"M06": "Every operation with symbolic contents in exactly sized, read-only, unterminated objects, compared with the plain definition written in the harness.",
"M07": "Every sequence of operations on a builder against a plain text model; length, capacity, terminator and contents are asserted after each.",
"M08": "Texts with symbolic characters are read and compared with a direct reading; symbolic 64-bit values are written in power-of-two bases (loops unrolled fully); decimal writing is non-linear (division), so it is bounded to few digits plus windows around every length boundary.",
"M09": "Symbolic texts, numbers, flags and buffer sizes against the C meaning computed in the harness; every format text of a few symbolic characters in exact buffers for memory safety and termination.",
"M10": "Every text of a few bytes, each byte fully symbolic, in an exactly sized object without terminator, against an independent statement of what the longest token at each place is; longer texts over small alphabets; many tokens for growth.",
"M11": "Directive texts built from forked shapes and symbolic characters; tokens' types, texts and the kept content are compared, and what follows is lexed as usual.",
"M12": "Registration (three ways) and use of a symbolic name: token type, flags and the macro's record.",
"M13": "Grammar harness (see above) over variables; node fields: name, specifiers, chained declarators.",
"M14": "Grammar harness over functions: name, exact specifier set, parameters' names and number, body, attributes, export.",
"M15": "Grammar harness over operators, conversions, constructors, destructors; declaration or definition, parameters, initializer lists.",
"M16": "Grammar harness over classes, structs, unions, enumerations and their forward declarations; name, bases in order, attributes.",
"M17": "Grammar harness over using, typedef, template, friend, namespace, extern and export blocks.",
"M18": "Grammar harness over whole bodies: every kind of entry alone and next to every other one; entries' kinds, order, links, parents, counts and the text.",
"M19": "Grammar harness with registered macros in every position; tokens and neighbours unchanged.",
"M20": "Each constructor is called with parts picked and named symbolically, its strings exact and freed before serializing; the text is compared with the declaration spelled next to it. For refusals one node with a *symbolic kind* is offered in every place: a constructor must accept it exactly for the kinds in the table of the harness, and reaching a failure report is the only other outcome.",
"M21": "Every history of operations on two lists is run next to plain arrays; count, index, iteration, links, ends and the text are compared after each. Specifier values are symbolic and pairwise different.",
"M22": "The template is symbolic text (any byte), as are the values; the result is compared with a plain expander in the harness. Templates, values and buffers are objects of exactly their size.",
"M23": "All pairs out of families of declarations, both ways and as bodies; a symbolic letter in place of every name. The validity of a body uses the same table of fitting kinds as M20.",
"M24": "Each of 75 kinds of declaration (global, in a class, in a namespace) is a text object of exact size; the cut, the place of the damage and the damaging byte are symbolic or forked. Reads outside, null and endless runs are violations of the engine itself; a report ends the path as refused; otherwise body links, count and the tokens of the printed text are compared with the input. Not compared: the tokens of macros, execution bodies and damaged template parameters, and bytes that turn a token into another spelling of a formatting token.",
"M25": "The sizes, the kind of declaration, its place and the history are forked, names and digits symbolic. Each text read is printed and compared token by token, again after further texts, after the other context's work and after deinit, reset and re-init; constants, macros and the current context are compared with those of a new context. A build with a print buffer of 48 bytes makes most names and bodies longer than the buffer. Not covered: names whose CRC-32 collide (the checksum is taken as injective), the base context ended before others (documented as not allowed).",
"M26": "The Windows calls are replaced by a file system of arrays (harness/winfiles.hpp) whose transfers may be short or fail at a chosen call; every history is run next to an array and an index and compared after each operation. Buffers are objects of exactly their size. Not covered: the POSIX half of filesystem.cpp (the library's target here is Windows), failing seeks; the position after an *_at operation is taken as it is.",
"M27": "Histories of builder steps are forked, texts and numbers symbolic; the file is compared byte by byte with the parts joined. Files of every kind of declaration are read, printed, read again and compared by tokens and by kind and name (printed class bodies gain a blank line, so bytes are not compared). Scanned files are all sequences out of 14 lines; the expected text is computed line by line.",
"M28": "Tables are written cell by cell in every form, the text of cells symbolic, next to an array of the texts meant; nodes are compared with it, also after writing and reading again and after freeing the first table. Not covered: an unquoted single column of empty cells (not distinguishable from blank lines), ADT trees and their number parsing (the parent pointers of ADT nodes do not survive growth by design; nothing in the library uses them).",
"M29": "The library is compiled with its `crc32` replaced by an XOR of the bytes masked to 64 or 2 values, a legal checksum under which collisions are everywhere; the texts are symbolic and assumed to collide (on the code before its repair the same entries also found real CRC-32 collisions with a keyword, at a cost of 230 s of solver time). Keywords: any text of up to 10 bytes is given a kind only if it is that kind's text. Not covered: the `HashTable` container itself, whose keys are numbers by contract (M02).",
"M30": "The repository's own gen_c_library runs (natively, on the sources as they are now) and writes the C library; it is compiled with the build's options and linked to the harnesses of M01 to M12 and M26 to M28, in which `engine/bindc` replaces the body of every C++ library function that has a twin (`gen_name`; about 470, and 59 globals) by a call of that twin. So the same symbolic inputs, models and assertions decide the C code, including the arrays and hash tables it writes out per type (items of one byte and tokens; tables of strings). The clang-format and refactor steps of the build are stood in for by `engine/refactor.py`, which applies the repository's own c_library.refactor. Not covered: the selection macros (_Generic) themselves, which choose at compile time, and names the library defines itself, which have its prefix by design.",
"M31": "As M30, with the grammar harnesses of M13 to M17: the text is read by the generated parser and printed by the generated serializer.",
"M32": "As M30, with the harnesses of M18 to M25 and M29. For M29 the C library's checksum is replaced as the C++ library's is.",
"M33": "The repository's own gen_singleheader runs (natively, on the sources as they are now) and writes gen.hpp; the harnesses of the named properties are compiled with that header and GEN_IMPLEMENTATION in place of the sources, and decided as there. The clang-format step of the build is left out. Not covered: a header included in several files (a matter of linking).",
"M34": "As M33, with the files gen_segmented writes.",
}
