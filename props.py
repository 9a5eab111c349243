import sys; U = sys.modules["__main__"].Unit
PROPS = {}
def P(pid, bounds, units, assumptions=()):
    PROPS[pid] = dict(units=units, bounds=bounds, assumptions=list(assumptions))
P("M01", "fills of 0..48 bytes at 8 alignments, copies up to 24 bytes, overlapping moves up to 18 bytes over 12x12 offsets, searches of up to 20 bytes at 8 alignments (thorough: larger); alignment arithmetic for all 47-bit addresses", [
    U("memory.cpp", "h_mem_set", {"n": 48}, {"n": 130}, fast=False, labels=["set"], workers=2),
    U("memory.cpp", "h_mem_zero", {"n": 72}, {"n": 200}, fast=False, labels=["zero"], workers=1),
    U("memory.cpp", "h_mem_copy", {"n": 24}, fast=False, labels=["copy"], workers=2),
    U("memory.cpp", "h_mem_move", {"n": 18}, {"n": 40}, fast=False, labels=["move"], workers=4),
    U("memory.cpp", "h_mem_find", {"n": 16}, {"n": 26}, fast=False, labels=["find"], workers=4),
    U("memory.cpp", "h_align", fast=False, labels=["align"], workers=2),
])
P("M02", "arena: one step from every state (any start address, capacity, fill level, size below 2^40; alignments 1..64), so histories of any length; sequences of 3 allocations; pools: 1-3 blocks, 6 block sizes, every alloc/free sequence of 6 steps; heap: sizes to 20", [
    U("alloc.cpp", "h_arena_step", labels=["full", "given"], workers=8, time=120),
    U("alloc.cpp", "h_arena_seq", {"steps": 3}, {"steps": 4}, labels=["seq"], workers=4),
    U("alloc.cpp", "h_arena_sub", labels=["sub"], workers=1),
    U("alloc.cpp", "h_pool", {"steps": 5}, {"steps": 8}, labels=["pool", "exhausted"], workers=4),
    U("alloc.cpp", "h_heap", {"n": 12}, {"n": 40}, labels=["freed", "resized"], workers=2),
])
P("M03", "arrays of 1-byte and 24-byte items, initial capacities 1-3, every sequence of 3 operations out of ten kinds, all item values; growth to 60 items", [
    U("containers.cpp", "h_array_char", {"steps": 3}, {"steps": 4}, labels=["append", "append items", "insert", "insert items", "pop", "remove", "fill", "reserve", "resize"], workers=4),
    U("containers.cpp", "h_array_big", {"steps": 3}, {"steps": 4}, labels=["append", "insert items"], workers=4),
    U("containers.cpp", "h_array_grow", {"n": 60}, {"n": 190}, labels=["grown"], workers=1),
])
P("M04", "tables of 1-3 initial slots, every sequence of 3 set/remove/grow/clear operations with one-byte symbolic keys; up to 24 keys of 40 strides through growth, rehash and removal", [
    U("containers.cpp", "h_hash_ops", {"steps": 3}, {"steps": 5}, labels=["overwritten", "removed", "ops"], workers=6),
    U("containers.cpp", "h_hash_many", {"n": 24}, {"n": 80}, labels=["many"], workers=2),
])
P("M05", "every input of up to 8 bytes (15 thorough), with the real tables", [
    U("hashes.cpp", "h_crc32", {"n": 8}, {"n": 15}, crc=True, labels=["crc32"], workers=3),
    U("hashes.cpp", "h_crc64", {"n": 8}, {"n": 15}, crc=True, labels=["crc64"], workers=3),
    U("hashes.cpp", "h_crc_vec", crc=True, labels=["vec"], workers=1),
])
P("M06", "every character; strings of up to 4-6 symbolic bytes in exactly sized objects, all limits and capacities up to 8", [
    U("strings.cpp", "h_chars", labels=["chars"], workers=1),
    U("strings.cpp", "h_cstr_cmp", {"n": 3}, {"n": 5}, labels=["cmp"], workers=2),
    U("strings.cpp", "h_cstr_misc", {"n": 3}, {"n": 5}, labels=["misc"], workers=3),
    U("strings.cpp", "h_cstr_copy", {"n": 6}, {"n": 9}, labels=["copy"], workers=1),
    U("strings.cpp", "h_str", {"n": 4}, {"n": 6}, labels=["str"], workers=2),
    U("strings.cpp", "h_visualize", {"n": 3}, {"n": 5}, labels=["vis"], workers=1),
])
P("M07", "builders made in 4 ways, every sequence of 3 operations out of nine kinds with symbolic bytes; trimming of up to 5 bytes by any 2-character set; joins of up to 3 parts; growth to 120 bytes; texts without NUL characters", [
    U("strings.cpp", "h_builder", {"steps": 2}, {"steps": 4}, labels=["char", "cstr", "dup", "clear", "trim", "strip", "end"], workers=4),
    U("strings.cpp", "h_builder_q", {"n": 4}, {"n": 6}, labels=["q"], workers=2),
    U("strings.cpp", "h_builder_trim", {"n": 4}, {"n": 7}, labels=["trimmed"], workers=2),
    U("strings.cpp", "h_builder_join", labels=["join"], workers=1),
    U("strings.cpp", "h_builder_skip", labels=[], workers=1),
    U("strings.cpp", "h_builder_grow", {"n": 120}, {"n": 190}, labels=["grown"], workers=1),
])
P("M08", "reading: every text of up to 5 bytes, bases 0, 10 and 16; writing: every 64-bit value in bases 8 and 16, every value of up to 4 digits in base 10, 25 values around each of 11 length boundaries in 5 bases", [
    U("numbers.cpp", "h_read", {"n": 4}, {"n": 6}, labels=["negative", "hex"], workers=3),
    U("numbers.cpp", "h_write_hex", labels=["pow2"], workers=2), U("numbers.cpp", "h_write_oct", labels=["pow2"], workers=2),
    U("numbers.cpp", "h_write", labels=["write"], workers=1),
    U("numbers.cpp", "h_write_dec", {"n": 3}, {"n": 4}, labels=["dec"], workers=4),
])
P("M09", "texts up to 4 symbolic bytes, widths to 5, buffers of 1-12 bytes; whole numbers around ten type limits in 11 conversions; every 16-bit value in hexadecimal with padding; any format text of up to 4 characters (floating point left out) in exactly sized buffers", [
    U("format.cpp", "h_fmt_text", {"n": 4}, {"n": 6}, labels=["fits", "short"], workers=2), U("format.cpp", "h_fmt_num", labels=["fits", "short"], workers=2), U("format.cpp", "h_fmt_hex", labels=["fits", "short"], workers=2),
    U("format.cpp", "h_fmt_seq", labels=["fits", "short"], workers=2), U("format.cpp", "h_fmt_any", {"n": 3}, {"n": 4}, labels=["any"], workers=4), U("format.cpp", "h_fmt_file", labels=["file"], workers=1),
])
P("M10", "every text of up to 3 bytes; every text of 4 bytes over nine 6-9 character alphabets (comments, literals, operators, brackets, directives, numbers, line ends), each in an exactly sized object with no terminator; 300 tokens", [
    U("lexer.cpp", "h_lex_any", {"n": 3}, {"n": 3}, labels=["lexed"], workers=4, time=120),
    U("lexer.cpp", "h_lex_sets", {"n": 4}, {"n": 6}, labels=["lexed"], workers=4, time=120),
    U("lexer.cpp", "h_lex_many", {"n": 150}, labels=["many"], workers=1),
])
P("M11", "ten directives with optional blanks, three line ends, a following token; macro names of 2 characters, up to 2 parameters or '...', contents of up to 2 symbolic bytes, continued lines and escaped quotes", [
    U("lexer.cpp", "h_lex_directives", labels=["unsupported", "else", "include", "define", "line"], workers=4),
])
P("M12", "macros of 3 kinds and 8 flag sets registered in 3 ways, used with and without arguments in 3 contexts, names of 2 characters", [
    U("lexer.cpp", "h_lex_macro", labels=["macro", "name"], workers=2),
])
P("M13", "10 specifier combinations x 10 base types x 10 suffixes x 20 initial values, 6 attributes, exports, trailing comments, up to 2 further declarators of 9 kinds; names of 2 characters and digits symbolic", [
    U("parse_var.cpp", "h_var", labels=["var"], workers=3), U("parse_var.cpp", "h_var_extra", labels=["extra"], workers=3), U("parse_var.cpp", "h_var_list", labels=["list"], workers=2),
])
P("M14", "9 specifier prefixes x 9 return types x 10 suffixes x 6 attributes, 11 parameter list shapes (11 types, packs, 4 name forms, 14 default values), 8 bodies, 7 endings; names of 2 characters and digits symbolic", [
    U("parse_fn.cpp", "h_fn", labels=["fn"], workers=8), U("parse_fn.cpp", "h_fn_params", labels=["params"], workers=8, time=240), U("parse_fn.cpp", "h_fn_body", labels=["body"], workers=2), U("parse_fn.cpp", "h_fn_tail", labels=["tail"], workers=4),
])
P("M15", "33 binary and 10 unary operators, allocation operators, members and qualified ones, conversions to every type form, constructors with 9 parameter lists and 6 endings, destructors with 7 endings; names of 2 characters and digits symbolic", [
    U("parse_fn.cpp", "h_op", labels=["op"], workers=8), U("parse_fn.cpp", "h_op_more", labels=["more"], workers=8), U("parse_fn.cpp", "h_opcast", labels=["opcast"], workers=2), U("parse_fn.cpp", "h_ctor", labels=["ctor"], workers=8), U("parse_fn.cpp", "h_dtor", labels=["dtor"], workers=1),
])
P("M16", "classes, structs and unions with export, 5 attributes, final, up to 8 bases, 6-7 member forms, forward declarations; enumerations with 4 underlying types, up to 3 entries with 8 value forms, comments, blank lines and directives between entries; names of 2 characters and digits symbolic", [
    U("parse_rec.cpp", "h_record", labels=["record"], workers=4), U("parse_rec.cpp", "h_record_fwd", labels=["fwd"], workers=1), U("parse_rec.cpp", "h_union", labels=["union"], workers=8),
    U("parse_rec.cpp", "h_enum", labels=["enum"], workers=4), U("parse_rec.cpp", "h_enum_layout", labels=["layout"], workers=2), U("parse_rec.cpp", "h_enum_fwd", labels=["efwd"], workers=1),
])
P("M17", "aliases of 6 kinds, typedefs of 13 kinds, templates with up to 2 parameters of 18 kinds over 12 declarations, friends of 8 kinds, namespaces, linkage and export blocks; names of 2 characters and digits symbolic", [
    U("parse_rec.cpp", "h_using", labels=["using"], workers=2), U("parse_rec.cpp", "h_typedef", labels=["typedef"], workers=2), U("parse_rec.cpp", "h_template", labels=["template"], workers=8, time=240), U("parse_rec.cpp", "h_friend", labels=["friend"], workers=2), U("parse_rec.cpp", "h_space", labels=["space"], workers=1),
])
P("M18", "every kind of declaration in each of 8 kinds of body, and every ordered pair of them, runs of 7 in four orders", [
    U("parse_body.cpp", "h_body_one", labels=["body"], workers=8), U("parse_body.cpp", "h_body_two", labels=["body"], workers=8), U("parse_body.cpp", "h_body_many", {"n": 7}, {"n": 14, "seps": 1}, labels=["body"], workers=8, time=240),
])
P("M19", "11 registered macros (statement, type name, expression; functional, with a body, as attribute or specifier) with 5 argument lists in 7 surroundings and every position of a declaration", [
    U("parse_macro.cpp", h, labels=["macro"], workers=4) for h in ["h_macro_stmt", "h_macro_type", "h_macro_attr", "h_macro_value"]
])
_UP = [U("upfront.cpp", h, labels=["built"], workers=4) for h in ["h_up_var", "h_up_fn", "h_up_record", "h_up_enum", "h_up_more", "h_up_text", "h_up_comment", "h_up_operator"]]
P("M20", "34 constructors and 9 kinds of body with up to 3 parts or entries each; names and digits symbolic; a part of each of the 63 kinds in 45 places and in every body, missing names, parts and entries in 35; operators with 0 to 3 operands", _UP + [
    U("upfront.cpp", "h_up_wrong_part", labels=["good", "bad", "decided"], workers=4), U("upfront.cpp", "h_up_wrong_entry", labels=["decided"], workers=4), U("upfront.cpp", "h_up_missing", labels=[], workers=4), U("upfront.cpp", "h_up_wrong_operator", labels=[], workers=4)
])
P("M21", "histories of 4 appends over 2 bodies, 5 kinds of entry and other bodies; 4 over two parameter lists; 4 additions and removals of any 3 specifiers, also on a full list; 2 classes sharing 4 base types", [
    U("lists.cpp", "h_list_body", labels=["list"], workers=8, time=200), U("lists.cpp", "h_list_params", labels=["list"], workers=2), U("lists.cpp", "h_list_specs", labels=["list"], workers=2), U("lists.cpp", "h_list_bases", labels=["list"], workers=2),
])
P("M22", "every template of up to 5 bytes with up to 2 values; 7 templates with values that hold tokens in two calls each; buffers of 0 to 7 bytes; texts of 4 symbolic bytes; 4 forms of parsed template", [
    U("untyped.cpp", "h_tmpl_text", labels=["expanded"], workers=4), U("untyped.cpp", "h_tmpl_calls", labels=["called"], workers=4), U("untyped.cpp", "h_tmpl_room", labels=["fits"], workers=2), U("untyped.cpp", "h_tmpl_untyped", labels=["untyped"], workers=2), U("untyped.cpp", "h_tmpl_parse", labels=["parsed"], workers=2),
])
P("M23", "every pair out of about 35 declarations of each of ten families; any letter in place of each name; 9 kinds of body validated with an entry of each of the 63 kinds", [
    U("equal.cpp", "h_eq_pairs", labels=["same", "other"], workers=8, time=200), U("equal.cpp", "h_eq_names", labels=["named"], workers=4, time=120), U("upfront.cpp", "h_up_wrong_entry", labels=["decided", "validated"], workers=4),
])
P("M24", "75 kinds of declaration in three places; every prefix, every byte replaced by any other, every run of up to 3 bytes left out", [
    U("broken.cpp", "h_broken_cut", labels=["read", "ended"], workers=8), U("broken.cpp", "h_broken_byte", labels=["read", "ended"], workers=8, time=600), U("broken.cpp", "h_broken_drop", labels=["read", "ended"], workers=8, time=200),
])
P("M25", "20 sets of sizes, allocators and limits (1 block per pool, 40 byte arenas, 1 token, ...) and the defaults, with 75 kinds of declaration in three places; a print buffer of 48 bytes; 8 histories of ending, resetting and switching contexts", [
    U("context.cpp", "h_ctx_sizes", labels=["read"], workers=8, time=300), U("context.cpp", "h_ctx_default", labels=["read"], workers=4, time=120), U("context.cpp", "h_ctx_long", labels=["printed"], workers=8, time=120, defs=("-DGEN_PRINTF_MAXLEN=48",)),
    U("context.cpp", "h_ctx_again", {"n": 1}, {"n": 4}, labels=["again"], workers=8, time=300),
])
P("M26", "disk files of up to 2 operations of 11 kinds (up to 3 bytes each) over 6 modes, transfers of 1-2 bytes at a time, one failing at any point; memory streams of 3 kinds over up to 3 operations; whole files of up to 4 bytes; every error code of a failed open", [
    U("files.cpp", "h_file_ops", {"n": 2}, {"n": 3}, labels=["file", "missing"], workers=8, time=200), U("files.cpp", "h_file_stream", {"n": 3}, {"n": 4}, labels=["stream"], workers=8, time=200),
    U("files.cpp", "h_file_contents", labels=["read", "nothing"], workers=2), U("files.cpp", "h_file_open", labels=["opened"], workers=2),
])
P("M27", "builders of up to 2 steps (9 kinds of code, lines, formatted text), two builders interleaved over 3 steps, a write failing at any point; every of 75 kinds of declaration through files; scanned files of up to 3 lines out of 14 and 3 line ends", [
    U("generate.cpp", "h_builder", {"n": 2}, {"n": 3}, labels=["written"], workers=8, time=200), U("generate.cpp", "h_builder_two", labels=["two"], workers=8, time=200), U("generate.cpp", "h_parse_file", labels=["again"], workers=8, time=120),
    U("generate.cpp", "h_scan", {"n": 3}, {"n": 4}, labels=["scanned"], workers=8, time=200), U("generate.cpp", "h_scan_missing", labels=["there"], workers=1),
])
P("M28", "tables of up to 2 rows and 2-3 columns, 4 delimiters, 2 line ends, any two cells in 6 forms with symbolic text (thorough: three), blank lines; 6 kinds of broken tables; tables read from files with a failing read", [
    U("csv.cpp", "h_csv_table", {"any": 2}, {"any": 3}, labels=["table", "written"], workers=8, time=200), U("csv.cpp", "h_csv_broken", labels=["broken"], workers=4, time=120), U("csv.cpp", "h_csv_file", {"any": 2}, {"any": 3}, labels=["file"], workers=8, time=200),
])
P("M29", "checksums replaced by ones of 2 and 64 values: every text of up to 10 bytes as a keyword, any 2 strings, macros and template tokens of up to 2-3 bytes, and 75 kinds of declaration in three places, one name symbolic", [
    U("names.cpp", "h_names_token", {"n": 10}, {"n": 14}, labels=["token", "none"], workers=8, time=120, crc=True), U("names.cpp", "h_names_spec", {"n": 10}, {"n": 14}, labels=["specifier", "none"], workers=8, time=120, crc=True),
    U("names.cpp", "h_names_cache", {"n": 2}, {"n": 3}, labels=["same", "different"], workers=8, time=120, crc=True, defs=("-DCRC_MASK=1",)), U("names.cpp", "h_names_macro", {"n": 2}, {"n": 3}, labels=["registered"], workers=8, time=120, crc=True, defs=("-DCRC_MASK=1",)),
    U("names.cpp", "h_names_tmpl", {"n": 3}, {"n": 4}, labels=["replaced"], workers=8, time=60, crc=True, defs=("-DCRC_MASK=1",)), U("names.cpp", "h_names_decl", {"n": 1}, {"n": 2}, labels=["read"], workers=8, time=200, crc=True, defs=("-DCRC_MASK=1",)),
])
def same(flag, slow, pids): # the same entries, against a generated library
    more = lambda u: (flag,) + (("-DCRC_MASK=0x5F",) if flag == "-DCLIB" and u.file == "names.cpp" and not u.defs else ())
    units = list({(u.file, u.entry, tuple(u.defs)): u for p in pids for u in PROPS[p]["units"]}.values())
    return [U(u.file, u.entry, u.quick, u.thorough, labels=u.labels, workers=u.workers, time=u.time and max(slow * u.time, 75 * slow), ttime=u.ttime, steps=u.steps, fast=u.fast, crc=u.crc, stubs=u.stubs, defs=tuple(u.defs) + more(u)) for u in units if flag == "-DCLIB" or u.file != "names.cpp"]
def C_(*pids): return same("-DCLIB", 2, pids)
P("M30", "the entries and bounds of M01 to M12 and M26 to M28, bound to the C library; containers of 1-byte and token items and tables of strings", C_("M01", "M02", "M03", "M04", "M05", "M06", "M07", "M08", "M09", "M10", "M11", "M12", "M26", "M27", "M28"))
P("M31", "the entries and bounds of M13 to M17, bound to the C library", C_("M13", "M14", "M15", "M16", "M17"))
P("M32", "the entries and bounds of M18 to M25 and M29, bound to the C library", C_("M18", "M19", "M20", "M21", "M22", "M23", "M24", "M25", "M29"))
LIB_ = ("M03", "M04", "M06", "M08", "M09", "M10", "M11", "M12", "M13", "M15", "M16", "M19", "M20", "M22", "M23", "M25", "M26", "M28")
P("M33", "the entries and bounds of M03, M04, M06, M08 to M13, M15, M16, M19, M20, M22, M23, M25, M26 and M28, against the single header", same("-DSINGLE", 1.5, LIB_))
P("M34", "the entries and bounds of M03, M04, M06, M08 to M13, M15, M16, M19, M20, M22, M23, M25, M26 and M28, against the segmented library", same("-DSEGMENTED", 1.5, LIB_))
