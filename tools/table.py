T = "The three existing tests compile generated headers and run one fixed input through them"
R("M01", "Memory primitives do exactly what their byte-wise definition says",
  "Filling, clearing, copying and moving memory change exactly the requested bytes to exactly the requested values, for any contents, sizes, alignments and (for moves) any overlap. Searching for a byte returns the first occurrence inside the given range or nothing. Rounding an address up to a power of two gives the smallest multiple that is not below it.",
  ["inputs"], "all contents, all sizes and alignments up to a bound", T + "; they never vary size, alignment or overlap.",
  [D + "memory.cpp", D + "memory.hpp"], [("mem_set / mem_copy / mem_move / mem_find", D + "memory.cpp"), ("align_forward, align_forward_s64", D + "memory.hpp")], observe=["the bytes of the destination and of its neighbours"])
R("M02", "Allocators hand out disjoint, aligned blocks inside their own memory",
  "Every block an arena, fixed arena, pool or the heap hands out is aligned as asked, lies inside the memory the allocator owns, and overlaps no block that is still in use; when there is no room the request fails instead. Memory asked to be cleared reads as zero, growing a heap block keeps its contents, and freeing everything makes the whole capacity available again.",
  ["inputs", "histories"], "all request sizes, alignments and start addresses; all sequences of requests up to a bound", T + "; which allocation pattern arises is fixed by that input.",
  [D + "memory.cpp", D + "memory.hpp"], [("arena_allocator_proc", D + "memory.cpp"), ("pool_allocator_proc, pool_init_align", D + "memory.cpp"), ("heap_allocator_proc", D + "memory.cpp")],
  state=[("TotalUsed", "bytes an arena has handed out", D + "memory.hpp"), ("FreeList", "blocks of a pool not in use", D + "memory.hpp")])
R("M03", "A growable array behaves as the sequence of its items under every operation",
  "After any sequence of appends, insertions, removals, fills, reservations, resizes and clears, an array holds exactly the items a plain sequence would hold, in order, with capacity at least its length. Operations that cannot be done (an index out of range) leave the array as it was and say so.",
  ["inputs", "histories"], "all item values, indices and operation sequences up to a bound", T + "; most of these operations are never called by it.",
  [C + "../dependencies/containers.hpp"], [("array_append*, array_remove_at, array_grow, array_set_capacity", D + "containers.hpp")], state=[("ArrayHeader", "length and capacity ahead of the items", D + "containers.hpp")])
R("M04", "A hash table is a map from keys to the latest value under every history",
  "After any sequence of insertions, overwrites, removals, growth, rehashing and clearing, looking up a key gives the value last stored under it, and nothing when there is none. Iterating visits every live entry exactly once.",
  ["inputs", "histories"], "all keys (colliding or not) and operation sequences up to a bound", T + "; removal, iteration and collisions do not occur in it.",
  [D + "containers.hpp"], [("hashtable_set/get/remove/grow/rehash, hashtable__find", D + "containers.hpp")], state=[("Hashes", "first entry of each chain", D + "containers.hpp"), ("Entries", "chained entries", D + "containers.hpp")])
R("M05", "Checksums equal the published CRC-32 and CRC-64 of their input",
  "The 32-bit and 64-bit checksums of any byte sequence equal the standard reflected polynomial division of it, and depend on nothing else. In particular two inputs that differ in one burst of up to 32 bits never share a 32-bit checksum, which is what identifies interned strings.",
  ["inputs"], "all byte sequences up to a bound", T + "; a wrong table entry changes keys consistently and stays invisible.",
  [D + "hashing.cpp"], [("crc32, crc64 and their tables", D + "hashing.cpp")])
R("M06", "C strings and string views: every query and copy matches its plain meaning",
  "Character classification, case conversion, comparison, search, trimming, copying and reversal of terminated strings, and equality, prefix, containment, duplication and white-space display of length-delimited strings, give for every content exactly the result of their plain definition. None of them reads or writes outside the string it was given, and a length-delimited string need not be terminated.",
  ["inputs"], "all contents and lengths up to a bound", T + "; a bound off by one or a wrong sign shows only on particular contents.",
  [D + "string_ops.cpp", D + "string_ops.hpp", D + "strings.cpp", D + "strings.hpp"], [("char_* and c_str_*", D + "string_ops.hpp"), ("str_*", D + "strings.hpp")])
R("M07", "A string builder holds exactly the text its operations describe",
  "After any sequence of appends, joins, trims, strips, clears and duplications a string builder's text, length and terminator are those of the plain text operation, with capacity at least its length, and growing never loses or changes what was written. Equality, prefix and containment queries on builders agree with the plain comparison of their texts.",
  ["inputs", "histories"], "all contents and operation sequences up to a bound", T + "; which growth points are hit is fixed by that input.",
  [D + "strings.hpp", D + "strings.cpp"], [("strbuilder_append*, strbuilder_make_space_for, strbuilder_trim*", D + "strings.hpp")], state=[("StringHeader", "length and capacity ahead of the text", D + "strings.hpp")])
R("M08", "Converting numbers to text and back is exact in every base",
  "Reading a number in base 10, 16 or with an automatic base gives the value of the longest valid prefix and the position after it. Writing a number in any supported base gives its canonical digits, terminated and without leading zeros, so that reading it back gives the same number.",
  ["inputs"], "all texts up to a bound; all 64-bit values in power-of-two bases, bounded digits in others", T + "; the only numbers it converts are small.",
  [D + "string_ops.cpp"], [("c_str_to_i64, u64_to_str, i64_to_str", D + "string_ops.cpp")])
R("M09", "Formatted printing is faithful and never writes outside its buffer",
  "Formatting text and whole numbers with any flags, width and precision gives the C meaning of the conversion, cut to the buffer and terminated. No format text and no argument makes it write outside the buffer it was given, and the count it returns is the number of characters written, or a failure when the text did not fit.",
  ["inputs", "configurations"], "all texts, values and flag combinations within bounds; any format text up to a bound", T + "; buffers there are always large enough.",
  [D + "printing.cpp"], [("c_str_fmt_va, _print_string, _print_u64", D + "printing.cpp")], note="Floating point conversions are not covered.")

L = "components/lexer.cpp"
R("M10", "The lexer splits any text into its longest tokens and reads nothing outside it",
  "For any text the lexer either reports a failure or yields tokens that are slices of the text in order, with only white space between them, each being the longest identifier, number, literal, comment, operator or bracket at its place and carrying its kind, line and column. It never reads outside the text, terminated or not, and keeps every token however many there are.",
  ["inputs"], "all texts up to a bound", T + "; odd texts (unterminated literals and comments, operators at the end) do not occur in it.",
  ["base/" + L, "base/components/parser_types.hpp"], [("lex, lex_found_token, lexer_skip_whitespace", "base/" + L)], observe=["tokens' text, kind, flags, line and column"])
R("M11", "Preprocessor directives are read as name, parameters and exact content",
  "A define gives its name, its parameters and its content up to the end of the line, continued lines included; conditions and pragmas keep their line; an include keeps its file name with its quotes; an unknown directive is kept whole. What follows the directive's line is read as usual.",
  ["inputs"], "all names, parameter lists, contents and line ends up to a bound", T + "; few directive shapes occur in it.",
  ["base/" + L], [("lex_preprocessor_directive, lex_preprocessor_define", "base/" + L)])
R("M12", "A registered macro is recognized exactly where its registration says",
  "A name reads as a macro of the registered kind exactly when that name was registered, by any of the registration functions, and it is used with arguments if and only if it was registered as taking them. Its permitted uses as attribute or specifier are those registered.",
  ["inputs", "configurations"], "all kinds, flags and uses; names up to a bound", T + "; it registers a handful of macros.",
  ["base/" + L, "base/components/interface.cpp"], [("register_macro, register_macros, register_macros_arr, lookup_macro", "base/components/interface.cpp"), ("lex_found_token", "base/" + L)], state=[("Macros", "the table of registered macros", "base/components/interface.hpp")])
PP = "base/components/parser.cpp"; PI = "base/components/interface.parsing.cpp"; AC = "base/components/ast.cpp"; SR = "the text an AST serializes to, token by token, and the AST's own fields"
R("M13", "Variables read and written back keep every token, name, type and initial value",
  "A variable declaration of any supported form (specifiers, attributes, any type, pointers, array bounds, bit fields, initial values in all notations, several declarators, trailing comments) parses, and its serialization is the same sequence of tokens. The node carries the declared name, and the declarators of one declaration are chained in order.",
  ["inputs"], "all combinations of the declaration's parts up to a bound; all names and digits", T + "; a part dropped or moved only for one combination stays invisible.",
  [PP, "base/components/code_serialization.cpp"], [("parse_variable_after_name, parse_variable_declaration_list", PP), ("var_to_strbuilder_ref", "base/components/code_serialization.cpp")], observe=[SR])
IL = "base/components/inlines.hpp"; CS = "base/components/code_serialization.cpp"; UP = "base/components/interface.upfront.cpp"
R("M14", "Functions read and written back keep every token, parameter, specifier and body",
  "A function of any supported form (export, attributes, specifiers, any return type, any parameter list with names, arrays, default values and '...', const/override/final, pure, deleted, any body, trailing comment) parses, and its serialization is the same sequence of tokens. The node carries its name, exactly the specifiers written, and its parameters in order with their names and their number.",
  ["inputs"], "all combinations of the declaration's parts up to a bound; all names and digits", T + "; a part dropped or moved only for one combination stays invisible.",
  [PP, CS, UP], [("parse_function_after_name, parse_params, parse_function_body", PP), ("fn_to_strbuilder_def/fwd, params_to_strbuilder_ref", CS), ("def_function", UP)], observe=[SR])
R("M15", "Operators, conversions, constructors and destructors survive reading and writing",
  "An operator of any supported kind (free, member or qualified, unary, binary, allocation, call and subscript), a conversion to any type, a constructor with any parameters, initializers, default or delete, and a destructor parse, and their serialization is the same sequence of tokens. Declarations and definitions are told apart, and parameters and initializers are kept.",
  ["inputs"], "all combinations of the declaration's parts up to a bound; all names and digits", T + "; most operators never occur in it.",
  [PP, CS, UP, "base/components/gen/eoperator.hpp"], [("parse_operator_after_ret_type, parser_parse_operator_cast, parser_parse_constructor, parser_parse_destructor", PP), ("operator__validate", UP), ("operator_to_strbuilder_*, constructor_to_strbuilder_*", CS)], observe=[SR])
R("M16", "Classes, structs, unions and enumerations survive reading and writing",
  "A class, struct or union with export, attributes, final, bases, any members and trailing comment, or an enumeration with attributes, underlying type, entries, values, and comments and directives between entries, parses, and its serialization is the same sequence of tokens. The node carries its name, its parts and its bases in order, and forward declarations are told apart from definitions.",
  ["inputs"], "all combinations of the declaration's parts up to a bound; all names and digits", T + "; a part dropped only for one combination stays invisible.",
  [PP, CS, UP], [("parse_class_struct, parse_class_struct_body, parser_parse_union, parser_parse_enum", PP), ("class_to_strbuilder_*, struct_to_strbuilder_*, union_to_strbuilder_*, enum_to_strbuilder_*", CS)], observe=[SR])
R("M17", "Aliases, templates, friends and blocks survive reading and writing",
  "Using aliases and declarations, typedefs (of types, arrays, functions and of definitions in place), templates over any declaration with any parameters, friends, namespaces, extern linkage and export blocks parse, and their serialization is the same sequence of tokens. Names, parameter counts, export and the kind of the declaration inside are kept.",
  ["inputs"], "all combinations of the declaration's parts up to a bound; all names and digits", T + "; a part dropped only for one combination stays invisible.",
  [PP, CS, UP], [("parser_parse_using, parser_parse_typedef, parser_parse_template, parser_parse_friend, parse_namespace, parser_parse_extern_link", PP), ("using_to_strbuilder_*, typedef_to_strbuilder_ref, template_to_strbuilder_ref", CS)], observe=[SR])
R("M18", "A body keeps every declaration, in order, as the kind that was written",
  "Every supported declaration, comment and directive inside any body that may hold it (global, namespace, class, struct, union, enumeration, linkage, export) becomes one entry of the right kind, in source order, with consistent forward and backward links and count. What stands next to it does not change how it is read, and the body's serialization is the same sequence of tokens.",
  ["inputs"], "all kinds of declaration in all kinds of body, and all ordered pairs of them", T + "; two declarations that disturb each other only side by side stay invisible.",
  [PP, CS, "base/components/inlines.hpp", "base/components/ast.cpp"], [("parse_global_nspace, parse_class_struct_body, parse_complicated_definition, parse_operator_function_or_variable", PP), ("body_to_strbuilder_ref", CS), ("body_append, code_append", "base/components/inlines.hpp")], observe=[SR])
R("M19", "Uses of registered macros are kept whole wherever they may stand",
  "A registered macro used as a statement, type name, attribute, specifier or value, with or without arguments, a braced body and a semicolon, is kept with its exact text in every position it may take. The declarations around it are read as if it were absent or an ordinary part, and the serialization is the same sequence of tokens.",
  ["inputs", "configurations"], "all macro kinds and flags in all positions, up to a bound", T + "; most macro kinds and positions do not occur in it.",
  [PP, CS], [("parse_simple_preprocess, parse_attributes, parser_parse_type", PP)], observe=[SR])
R("M20", "Code built with the upfront constructors is exactly the given parts",
  "Every def_ constructor returns a node of its kind that holds the given parts and serializes as the declaration they spell, whatever happens to the caller's strings afterwards. Bodies hold their entries in the given order, array and variadic forms agree. A part or entry of a kind that does not fit, a missing one, or an operator with the wrong number of operands is refused with a failure report.",
  ["inputs", "configurations"], "all constructors with all kinds of parts, names symbolic, up to a bound", T + "; the upfront constructors are not tested with symbolic parts, and never with wrong ones.",
  [UP, IL], [("def_ constructors, operator__validate, def_*_body", UP), ("code_append, body_append_body, params_get", IL)], observe=[SR])
R("M21", "Bodies, parameters, specifiers and bases keep what was added, in order",
  "After any sequence of appends and removals a body, parameter list, specifier list or list of bases holds exactly what was added, in order; counts, indices, iteration and links agree, and it prints just that. Something added to several lists appears in each of them without the others being changed, also when it is a body with entries of its own.",
  ["inputs", "histories"], "all histories of list operations, up to a bound", T + "; histories with shared entries and full lists do not occur in it.",
  [IL, "base/components/ast.hpp", "base/components/ast.cpp"], [("code_append, body_append, body_append_body, code_entry", IL), ("params_append, params_get", IL), ("specifiers_append, specifiers_remove", IL), ("class_add_interface, struct_add_interface", IL), ("code_duplicate", "base/components/ast.cpp")], observe=[SR])
R("M22", "Templates are filled in with the given values and become that very code",
  "token_fmt replaces each <name> by the value given for that name and keeps every other character; values are taken literally and apply to that call only. It ends for every template and never writes outside its buffer; what does not fit is reported. untyped_str, untyped_fmt, untyped_token_fmt and code_fmt make untyped code that prints exactly the resulting text, and parse_fmt reads it as if it had been written by hand.",
  ["inputs", "configurations"], "all templates and values, up to a bound", T + "; templates with unmatched brackets, unknown names or values that look like tokens do not occur in it.",
  ["base/components/interface.untyped.cpp", IL], [("token_fmt_va, untyped_str, untyped_fmt, untyped_token_fmt", "base/components/interface.untyped.cpp"), ("token_fmt_impl", IL)], observe=[SR])
R("M23", "Declarations compare equal exactly when they declare the same",
  "code_is_equal holds for two readings of the same declaration and for a node and its duplicate. It fails, in both directions and without a crash, when kind, name, type, specifiers, parameters, bases, export, presence of attributes or the entries of a body differ; texts of expressions, bodies and comments are left to the eye. code_validate_body holds exactly for the entries that fit in that kind of body.",
  ["inputs"], "all pairs of declarations of a family, up to a bound", T + "; code_is_equal and code_validate_body are not called by it on code that differs.",
  ["base/components/ast.cpp", "base/components/ast_case_macros.cpp"], [("code_is_equal, code_duplicate, code_debug_str, code_validate_body", "base/components/ast.cpp")], observe=[SR])

R("M24", "Every text is read or refused with a report, and what is read keeps its tokens",
  "A declaration cut off anywhere, with any one byte replaced, or with up to three bytes missing is either refused with a report or read. Reading it never touches memory outside the text, dereferences null or runs without end. What is read is a body whose entries are linked both ways and counted, and whose printed text has the tokens of the input.",
  ["inputs"], "all damaged declarations, up to a bound", T + "; no test gives the parser a text that is not C++.",
  ["base/components/parser.cpp", "base/components/lexer.cpp", "base/components/code_serialization.cpp"], [("parse_global_body on damaged declarations of each kind, code_to_strbuilder of what was read", "base/components/parser.cpp"), ("lex", "base/components/lexer.cpp")], observe=[SR])
R("M25", "Neither configured sizes nor earlier work change what is read and printed",
  "The same text gives the same code whatever sizes, limits and allocators a context sets: pools, arenas, buckets, tokens, caching length, print buffer; growing keeps earlier code and names intact, and a request or printed text larger than a block is met. After a context is reset, or ended and begun again, it works as a new one, with its constants and its own macros and none of the old. Several contexts stay apart.",
  ["configurations", "histories"], "all combinations of size settings and histories of contexts, up to a bound", T + "; the tests use one context with default sizes.",
  ["base/components/interface.cpp", "base/components/parser.cpp", "base/dependencies/strings.cpp", "base/dependencies/memory.hpp"], [("init, deinit, reset, set_context, make_code, cache_str, register_macro, fallback_allocator_proc", "base/components/interface.cpp"), ("strbuilder_append_fmt_va", "base/dependencies/strings.cpp"), ("parse_global_body", "base/components/parser.cpp")], observe=[SR])


R("M26", "A file holds what was written to it, whatever the system transfers at a time",
  "Reads and writes at the position or at an offset move exactly the bytes asked for, also when the system moves fewer at a time; success means all were moved. A failing transfer or open is reported as such, changes nothing else and leaks no handle. A memory stream behaves as a file: it grows with what is written, reads end at its content, a clone leaves the caller's buffer alone, and reading a whole file gives all of it or nothing.",
  ["fault_sequences", "histories"], "all histories of file operations with short and failing transfers, up to a bound", T + "; transfers there are always complete and never fail.",
  ["base/dependencies/filesystem.cpp", "base/dependencies/filesystem.hpp"], [("file_open_mode, file_close, _win32_file_read/write/seek", "base/dependencies/filesystem.cpp"), ("file_read_contents, file_stream_open, _memory_file_read/write/seek", "base/dependencies/filesystem.cpp"), ("file_read, file_write, file_read_at, file_write_at", "base/dependencies/filesystem.hpp")], observe=["the bytes of the file, the results and the position, against an array and an index"])
R("M27", "A generated file is what its builder was given and reads back as that code",
  "A builder's file is the printed code, lines and formatted text in the order given, also with several builders open; a file that cannot be opened or written whole is reported. A file read with parse_file, printed and read again is the same code. scan_file gives a file's text without the leading INTELLISENSE_DIRECTIVES block, never looks outside it, and reports a file it cannot read.",
  ["histories", "fault_sequences"], "all histories of builder steps, kinds of declaration and faults, up to a bound", T + "; its writes never fail and only its own block of directives is scanned.",
  ["base/auxiliary/builder.cpp", "base/auxiliary/scanner.cpp"], [("builder_open, builder_print, builder_print_fmt_va, builder_pad_lines, builder_write", "base/auxiliary/builder.cpp"), ("scan_file, parse_file", "base/auxiliary/scanner.cpp")], observe=["the bytes of the file written, the tokens of what is read back"])
R("M28", "A table of values is read cell by cell as written, or refused",
  "Every cell of a delimiter separated text becomes one node with exactly its text, under its column, for any delimiter, line end and quoting; empty cells, doubled quotes, quoted delimiters and lines are kept. Rows of different length, an open quote, text behind a quoted cell and an empty text are refused. A written table reads as the same table, and the readers of enum tables report a file that is missing or has too few columns.",
  ["inputs"], "all tables up to a bound in size", T + "; the tables it reads have one or two plain columns.",
  ["base/dependencies/parsing.cpp", "base/auxiliary/scanner.cpp"], [("csv_parse_delimiter, csv_write_strbuilder_delimiter, csv_free", "base/dependencies/parsing.cpp"), ("parse_csv_one_column, parse_csv_two_columns", "base/auxiliary/scanner.cpp")], observe=["the text of each node of each column, against the cells written"])
R("M29", "Names are told apart by their text, never by their checksum alone",
  "Two texts with the same checksum stay two texts: keywords, specifiers and attributes are recognised by their letters, each name keeps its own text however many names share its checksum, a macro is found under its own name only, and each template token gets its own value. Equal texts are one cached string. Declarations whose names share checksums are read and printed as written.",
  ["inputs"], "all pairs of texts with equal checksums, up to a bound in length", T + "; no test contains two names with the same CRC-32.",
  ["base/components/interface.cpp", "base/components/interface.untyped.cpp", "base/helpers/base_codegen.hpp"], [("cache_str, lookup_macro, register_macro, register_macros_arr", "base/components/interface.cpp"), ("token_fmt_impl", "base/components/interface.untyped.cpp"), ("str_to_toktype, str_to_specifier (generated)", "base/helpers/base_codegen.hpp")], observe=["the text of each cached string, macro and token, against the bytes given", SR])

CL = ["gen_c_library/c_library.cpp", "gen_c_library/components/containers.array.hpp", "gen_c_library/components/containers.hashtable.hpp", "gen_c_library/components/memory.fixed_arena.hpp", "base/helpers/base_codegen.hpp"]
CT = "The stable tests generate and compile the C library and run nothing of it"
R("M30", "The generated C library stores, formats, reads files and tokenizes as stated",
  "What is stated of memory, allocators, containers, strings, numbers, formatting, tokens, directives and macros, files, builders and tables (M01 to M12 and M26 to M28) holds of the C library that gen_c_library writes from the same sources. Its functions have the names of the C++ library's with its prefix, and its arrays and hash tables, written out for each type, behave as the templates do.",
  ["inputs", "histories", "fault_sequences"], "all inputs and histories, up to a bound", CT + "; nothing compares its behaviour with the C++ library's.",
  CL, [("the generated containers, allocators, strings, files and lexer", "gen_c_library/c_library.cpp"), ("gen_array, gen_array_base", "gen_c_library/components/containers.array.hpp"), ("gen_hashtable, gen_hashtable_base", "gen_c_library/components/containers.hashtable.hpp")], observe=["the results of the C library's functions, against the same plain models as the C++ library's"])
R("M31", "The generated C library reads and prints every declaration as stated",
  "What is stated of reading and printing variables, functions, operators, constructors, destructors, classes, structs, unions, enumerations, aliases, templates, friends and blocks (M13 to M17) holds of the C library that gen_c_library writes from the same sources: the node has the parts that were written and the printed text has the tokens of the source.",
  ["inputs"], "all combinations of the declaration's parts up to a bound; all names and digits", CT + "; nothing compares its behaviour with the C++ library's.",
  CL + [PP, CS], [("the generated parser and serializer", "gen_c_library/c_library.cpp"), ("gen_etoktype, gen_eoperator, gen_especifier (tables of names)", "base/helpers/base_codegen.hpp")], observe=[SR])
R("M32", "The generated C library builds, fills in, compares and validates code as stated",
  "What is stated of bodies, macros, upfront constructors, lists, templates with tokens, comparison, damaged texts, contexts and equal checksums (M18 to M25 and M29) holds of the C library that gen_c_library writes from the same sources. Default arguments, variadic forms and the ways to walk a list work as in the C++ library.",
  ["inputs", "histories", "configurations"], "all combinations and histories, up to a bound", CT + "; nothing compares its behaviour with the C++ library's.",
  CL + [UP, IL], [("the generated interface", "gen_c_library/c_library.cpp"), ("body_to_strbuilder_ref, begin_ and next_ functions", IL)], observe=[SR])
R("M33", "The generated single header behaves as the sources it is made of",
  "What is stated of containers, strings, formatting, lexing, declarations, bodies, upfront constructors, templates, comparison, contexts, files and tables (M03, M04, M06, M08 to M13, M15, M16, M19, M20, M22, M23, M25, M26, M28) holds of gen.hpp, the one header that gen_singleheader writes from the sources, when it is included with its implementation.",
  ["inputs", "histories"], "all inputs and histories, up to a bound", "The stable tests generate and compile the single header and run a few examples with it.",
  ["gen_singleheader/singleheader.cpp", "gen_singleheader/components/header_start.hpp", "base/helpers/base_codegen.hpp", "base/auxiliary/scanner.cpp"], [("gen_main (the order and choice of the parts)", "gen_singleheader/singleheader.cpp"), ("gen_etoktype, gen_eoperator, gen_especifier, gen_ast_inlines", "base/helpers/base_codegen.hpp")], observe=["the results of the header's functions, against the same plain models as the sources'"])
R("M34", "The generated segmented library behaves as the sources it is made of",
  "What is stated of containers, strings, formatting, lexing, declarations, bodies, upfront constructors, templates, comparison, contexts, files and tables (M03, M04, M06, M08 to M13, M15, M16, M19, M20, M22, M23, M25, M26, M28) holds of the headers and sources that gen_segmented writes: gen.dep, gen, gen.builder and gen.scanner.",
  ["inputs", "histories"], "all inputs and histories, up to a bound", "The stable tests generate and compile the segmented library and run nothing of it.",
  ["gen_segmented/segmented.cpp", "base/helpers/base_codegen.hpp", "base/auxiliary/scanner.cpp"], [("gen_main (the order and choice of the parts)", "gen_segmented/segmented.cpp"), ("gen_etoktype, gen_eoperator, gen_especifier, gen_ast_inlines", "base/helpers/base_codegen.hpp")], observe=["the results of the library's functions, against the same plain models as the sources'"])
