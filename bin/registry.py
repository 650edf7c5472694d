"""Which harnesses decide which property, and within which bounds."""

COMMON_ASSUMPTIONS = [
    "the code is executed as rustc's optimised LLVM IR (overflow checks on, panic=abort, LTO, x86-64 Linux, little-endian); allocation never fails",
    "the symbolic executor (/verif/symex) and z3 are trusted; sampled paths are replayed against the real build and must agree",
    "claims hold within the stated bounds only",
]


CLI = [
    "the tool's main is executed on an in-memory file system that stands for the operating system (open, read, write, stat, rename, ...); replays run the real program in a scratch directory, with a preloaded library for the fault schedules",
]


def H(name, bound, reach=(1,), **k):
    return dict(name=name, bound=bound, reach=list(reach), **k)


PROPS = {
    "C01": dict(harnesses=[
        H("x64_mov_r64_r64", "all 16x16 register pairs"),
        H("x64_mov_r32_r32", "all 16x16 register pairs"),
        H("x64_mov_r16_r16", "all 16x16 register pairs"),
        H("x64_mov_r64_imm", "all registers, all 2^64 immediates"),
        H("x64_mov_r32_imm", "all registers, all 2^32 immediates"),
        H("x64_mov_r16_imm", "all registers, all 2^16 immediates"),
        H("x64_ret_syscall", "no operands"),
    ]),
    "C02": dict(harnesses=[
        H("x64_mem_reg", "store and lea, all base x register pairs, no displacement"),
        H("x64_mem_reg_offset", "store and lea, all base x register pairs, all 2^32 displacements"),
        H("x64_mem_rip", "store and lea, all registers, all 2^32 displacements"),
        H("x64_mem_sib", "store and lea, all base/none x index x scale x register x 2^32 displacements"),
    ]),
    "C03": dict(harnesses=[
        H("x64_push_pop_reg", "all registers of both sizes"),
        H("x64_push_imm", "all 8/16/32-bit immediates"),
    ]),
    "C04": dict(harnesses=[
        H("x64_imm_offset64", "all registers, all old and new 64-bit immediates"),
        H("x64_imm_offset32", "all registers, all old and new 32-bit immediates"),
    ]),
    "C05": dict(harnesses=[
        H("x64_reg_names", "all 64 registers, printed directly and through the sum type"),
        H("x64_reg_codes", "all 16 hardware numbers in three sizes"),
    ]),
    "C06": dict(harnesses=[
        H("mac_header", "all field values, up to 3 (thorough 4) arbitrary flags pushed in any order"),
        H("mac_header_flag_sets", "flag subsets of two groups of four (thorough: all 2^16)", shards={"thorough": 8}),
    ]),
    "C07": dict(harnesses=[
        H("mac_lc_segment", "0-1 sections, all field values, names of 0/3/16 (thorough 0..16) ASCII bytes, one attribute"),
        H("mac_lc_segment_wide", "0-2 sections, two attributes each, otherwise as above", tier="thorough", shards=8),
        H("mac_lc_symtab", "all field values"),
        H("mac_lc_dysymtab", "all field values"),
        H("mac_lc_build_version", "all field values, up to 2 (thorough 3) tools"),
        H("mac_lc_segment_many", "segments of 3/255/256/257 (thorough also 9/127/128/254/300) sections, the last one arbitrary"),
        H("mac_lc_build_version_many", "build versions of 9/255/256/257 (thorough up to 8193) tools"),
        H("mac_section_attrs", "up to 3 (thorough 4) section attributes in any order, repeated or not, all types"),
    ]),
    "C08": dict(harnesses=[
        H("mac_nlist", "all field values, all types"),
        H("mac_reloc", "all field values (24-bit symbol numbers, 4-bit types)"),
        H("mac_reloc_codes", "all type and length codes"),
    ]),
    "C09": dict(harnesses=[
        H("mac_back_header", "all 32-byte headers whose flag word lies in one 8-bit (thorough 12-bit) window", shards={"thorough": 8}),
        H("mac_back_segment", "all segment commands of 0-1 sections with ASCII zero-padded names, section flags in one window", shards={"thorough": 8}),
        H("mac_back_fixed", "all symtab and dysymtab commands"),
        H("mac_back_build_version", "all build-version commands with 0-2 tools"),
        H("mac_back_nlist", "all 16-byte symbol entries"),
        H("mac_back_reloc", "all 8-byte relocation entries"),
        H("mac_back_size_mismatch", "all command numbers and sizes"),
        H("mac_back_names", "section names of 1/4/9/16 bytes, the last 1-3 (thorough 1-4) of them any bytes"),
        H("mac_back_many", "segments and build versions of 3/256 (thorough 3/255/256/257) entries, the last arbitrary"),
    ]),
    "C10": dict(harnesses=[
        H("mac_swap_header", "all field values, up to 2 flags"),
        H("mac_swap_segment", "0-1 sections, all field values"),
        H("mac_swap_symtab", "all field values"),
        H("mac_swap_dysymtab", "all field values"),
        H("mac_swap_build_version", "0-2 tools, all field values"),
        H("mac_swap_nlist", "all field values"),
        H("mac_swap_reloc", "all field values"),
        H("mac_swap_segment_many", "3/255/256/257 sections, the last arbitrary"),
        H("mac_swap_build_version_many", "9/255/256/257 tools"),
    ]),
    "C11": dict(harnesses=[
        H("mac_strings", "1-3 (thorough 4) strings of 0-2 (thorough 3) ASCII bytes, every offset looked up"),
        H("mac_strings_big", "257-300 (thorough 5000) strings, and strings of 254-256, 65535 and 70000 (thorough 11 shapes) bytes with arbitrary ends"),
    ]),
    "C12": dict(harnesses=[
        H("obj_layout", "text of 0/1/7/8/9 and data of 0/1/8 bytes (thorough 0..9 and 0..8), bss absent or present, up to 2 (3) text, 1 data, 1 bss symbols, up to 2 text and 1 data relocations", shards={"thorough": 8}),
        H("obj_big_contents", "text of 0/255/256/257/65535/65541 and data of 0/1/256/65539 (thorough 14 and 8 sizes) bytes of a fixed pattern with 9 arbitrary bytes, no bss or any odd size or any size from 2^33, with or without a relocation"),
        H("obj_big_symbols", "254-258 symbols, names of 254/255/256/65536 bytes, or labels anywhere in contents of up to 70000 bytes"),
        H("obj_big_relocs", "257/258/3 symbols with 3/257/255 text relocations (thorough 7 mixes up to 300), contents of 5/256/65541 bytes"),
    ]),
    "C13": dict(harnesses=[
        H("obj_contents", "text and data of 0/1/5/8/9/24 (thorough 14 sizes up to 64) arbitrary bytes, bss of 0 or any size below 2^62", shards={"quick": 2, "thorough": 8}),
        H("obj_big_contents", "text of 0/255/256/257/65535/65541 and data of 0/1/256/65539 (thorough 14 and 8 sizes) bytes of a fixed pattern with 9 arbitrary bytes, no bss or any odd size or any size from 2^33"),
    ]),
    "C14": dict(harnesses=[
        H("obj_symbols", "up to one symbol of any kind, binding and value in each of text, data, bss; text of 0/3/8, data of 0/2 bytes, bss of 0/7/2^40", reach=(1, 2)),
        H("obj_symbol_names", "3 (thorough 4) symbols with distinct printable names of 0-3 (0-4) bytes, over one or two sections", shards={"thorough": 8}),
        H("obj_big_symbols", "254-258 (thorough 127-302) symbols, names of 254/255/256/65536 bytes, or labels anywhere in contents of up to 70000 bytes"),
    ]),
    "C15": dict(harnesses=[
        H("obj_relocs", "2-3 symbols, up to 2 text and 1 data relocations against any of them, all addresses and PC-relative bits, all widths of the first (thorough: of each)", shards=8),
        H("obj_big_relocs", "257/258/3 symbols with 3/257/255 text relocations (thorough 7 mixes up to 300), contents of 5/256/65541 bytes"),
    ]),
    "C16": dict(harnesses=[
        H("asm_data_num", "db/dw/dd/dq with one literal: every value of hexadecimal literals of 1, w-1, w, w+1 digits (thorough every length up to w+2) in either case and of decimal literals of 1, m-1, m, m+1 digits (thorough every length); 20-digit literals in the 1000 (10^6) values around 2^64", reach=(1, 9)),
        H("asm_data_list", "one or two lines of 1-3 literals (two decimal or all hexadecimal digits each), separators ', ' and ',' (thorough also two blanks and comma-tab)"),
        H("asm_data_list_long", "255-257 (thorough 127-2000) literals on one line or one each"),
        H("asm_data_zeros", "literals with 1/3/17/20/256/257 (thorough 14 counts up to 300) leading zeros"),
    ]),
    "C17": dict(harnesses=[
        H("asm_data_str", "db/dw/dd/dq with a string of 0-4 (thorough 0-8; dq also +5) arbitrary printable bytes or tabs, with or without a label, comment or final newline"),
        H("asm_data_mixed", "2 (thorough 2-3) items, each a literal or a string of 0-3 arbitrary printable bytes"),
        H("asm_data_utf8", "one arbitrary character of two or three UTF-8 bytes after 0-1 others"),
        H("asm_data_unclosed", "unclosed strings of 0-3 arbitrary characters", reach=(1, 9)),
        H("asm_data_str_long", "strings of 255/256/257/8191/8193/65536/65537 (thorough 20 lengths) bytes, two or three of them arbitrary, with or without a literal after"),
    ]),
    "C18": dict(harnesses=[
        H("asm_mov_regs", "all 48x48 pairs of register names", reach=(1, 9)),
        H("asm_mov_imm", "all 48 registers, literals as in asm_data_num", reach=(1, 9), shards={"thorough": 8}),
        H("asm_mov_not_reg", "every destination name of 1-3 (thorough 4) letters and digits that names no register", reach=(1, 9)),
    ]),
    "C19": dict(harnesses=[
        H("asm_expr", "sums and differences of two literals, each of 3/10 decimal, 4/8/16 hexadecimal digits or within 500 of 2^64 (thorough 10 forms), into a 16-, 32- and 64-bit register", reach=(1, 2), shards=8, lazy_fmt=True),
        H("asm_expr_bad", "12 shapes of malformed operands with arbitrary digits", reach=(1, 9)),
    ]),
    "C20": dict(harnesses=[
        H("asm_push_imm", "hexadecimal literals of 1-9 (thorough 17) digits, decimal literals of 1-11 (19) digits, the 1000 decimal literals around 2^64", shards={"quick": 4, "thorough": 8}),
        H("asm_push_reg", "all 48 register names"),
        H("asm_plain", "ret and syscall"),
        H("asm_stray", "nine complete instructions followed by 1-2 arbitrary printable characters", reach=(1, 9)),
        H("asm_missing", "31 incomplete or unknown lines", reach=(1, 9)),
    ]),
    "C21": dict(harnesses=[
        H("asm_spelling", "13 kinds of lines in 6 spellings (arbitrary blanks, comments of arbitrary bytes, CRLF, no final newline) after 4 kinds of empty lines"),
        H("asm_spelling_pairs", "pairs of lines in differing spellings", shards={"quick": 4, "thorough": 8}),
        H("asm_spelling_long", "13 kinds of lines with 1/255/256/257/4096/8191/65536 (thorough 13 numbers) blanks before, between or after, characters of comment, empty lines, and comments in other scripts", shards=8),
        H("asm_commas", "blanks around the comma of register moves"),
        H("asm_data_commas", "0-2 blanks on each side of the commas between 2-3 literals and strings, four directives"),
    ]),
    "C22": dict(harnesses=[
        H("asm_programs", "every program of 4 (thorough 5) lines drawn from section switches, labels, labelled and plain data and instructions, with up to one global declaration", shards={"quick": 4, "thorough": 8}),
        H("asm_globals", "every subset of declarations before and after three labels in two sections"),
        H("asm_label_names", "label names of 1-3 (thorough 4) arbitrary printable characters"),
        H("asm_bss_data", "seven lines that would put bytes into .bss", reach=(1, 9)),
        H("asm_programs_long", "labels in every section behind strings of 255/256/65535/65536 (thorough 10 lengths) bytes"),
        H("asm_programs_many", "254-257 (thorough 127-300) lines of code or data, with a label or a declaration for each, half or few", shards={"quick": 2, "thorough": 4}),
        H("asm_programs_switching", "4/7/31/128/257 (thorough 11 numbers up to 300) section switches with labels, operands and data between"),
        H("asm_names_apart", "two different names of 1-2 (thorough 1-3) letters of either case, digits, signs, each defined in five ways, used as operands, one of them or none global"),
        H("asm_keyword_names", "17 mnemonics, directives and registers followed by 1-2 arbitrary letters, digits or signs, as labels and operands"),
        H("asm_label_names_long", "two names of 32/255/256/257/65536 (thorough 13 lengths) bytes that differ in one place, any letters there"),
    ]),
    "C23": dict(harnesses=[
        H("asm_symbol_operands", "two or three symbol operands (four registers) before and after labels in .text and .data", shards={"quick": 4, "thorough": 8}),
        H("asm_symbol_operand_names", "all 32 wide registers, symbol names of 1-2 (thorough 3) arbitrary identifier characters", shards={"thorough": 8}),
        H("asm_undefined_symbol", "undefined names of 1-2 (thorough 3) letters", reach=(1, 9)),
        H("asm_names_apart_undefined", "a defined and an undefined name of 1-2 (thorough 1-3) letters of either case, digits, signs"),
        H("asm_undefined_among", "one undefined name (five kinds) after 0-5/8/16/33/256 (thorough 23 numbers up to 300) and before 0/1/6 operands that name labels, in the same or another section", reach=(1, 9)),
        H("asm_symbol_reg16", "all 16-bit registers", reach=(1, 9)),
        H("asm_symbol_operands_long", "operands and labels behind strings of 128/254/256/65533/65536 (thorough 14 lengths) bytes"),
        H("asm_symbol_operands_many", "2/257/258 symbols with 258/7/260 operands (thorough 7 mixes up to 300)"),
    ]),
    "C24": dict(harnesses=[
        H("asm_any_bytes", "every source of up to 3 (thorough 4) bytes", reach=(1, 2), shards={"thorough": 8}),
        H("asm_any_tail", "every source of 18 line beginnings followed by 1-2 (thorough 3) arbitrary bytes", reach=(1, 2), shards={"thorough": 8}),
        H("asm_any_tokens", "every source of up to 4 (thorough 5) of 16 tokens", reach=(1, 2), shards={"thorough": 8}),
        H("asm_missing", "31 incomplete or unknown lines", reach=(1, 9)),
        H("asm_any_long", "eight lines of 255/256/8192 (thorough 10 lengths up to 65536) characters with one arbitrary byte at the start, middle, end or after", reach=(1, 2)),
        H("asm_undefined_symbol", "undefined names of 1-2 (thorough 3) letters", reach=(1, 9)),
        H("asm_undefined_among", "one undefined name (five kinds) after 0-5/8/16/33/256 (thorough 23 numbers up to 300) and before 0/1/6 operands that name labels, in the same or another section", reach=(1, 9)),
        H("asm_names_apart_undefined", "a defined and an undefined name of 1-2 (thorough 1-3) letters of either case, digits, signs"),
        H("asm_bss_data", "seven lines that would put bytes into .bss", reach=(1, 9)),
        H("asm_expr_bad", "12 shapes of malformed operands with arbitrary digits", reach=(1, 9)),
        H("asm_twice_sources", "0/100/257 (thorough up to 300) definitions between, in one source or two", reach=(1, 9)),
    ]),
    "C25": dict(harnesses=[
        H("obj_sink_pieces", "sinks taking 1/3/7/1000 bytes at a time, interrupted before any of the first 24 (thorough 200) calls"),
        H("obj_sink_fails", "sinks failing or accepting nothing after any number of bytes"),
        H("asm_out_pieces", "the assembler writing to the same sinks"),
        H("asm_out_fails", "the assembler writing to sinks that break at any byte"),
        H("asm_out_large", "files of 300/8193/65536 (thorough 6 sizes) bytes in pieces of 255/4096/8192 bytes or whole, broken off near the end or not"),
    ]),
    "C26": dict(harnesses=[
        H("mac_chunked", "every record kind, first piece of any size, then pieces of 1/3/64 bytes, interrupted before call 0/1/2 or never", shards=8),
        H("mac_truncated", "every record kind cut at every length"),
        H("asm_source_pieces", "a program of nine lines read in pieces: first piece of any size, then 1/5/4096 bytes, interrupted before call 0/1/2 or never"),
        H("asm_source_split", "the program given in two sources split after any line"),
        H("asm_source_fails", "the source breaking off with an error after any number of bytes"),
        H("asm_source_buffers", "the program after a comment that puts any of its bytes on the boundary of a buffer of 256 to 16384 bytes (powers of two; thorough also 1000, 32768, 65536), delivered whole or in pieces of that size"),
    ]),
    "C27": dict(assumptions=CLI, harnesses=[
        H("cli_names", "names of 1-4 (thorough 1-6) bytes (one pair above 127 beyond two bytes) for the source and 1-3 (1-4) for the output, here, in a directory or behind ./, three argument orders, three previous outputs", shards=8),
        H("cli_sources", "four kinds of sources with arbitrary literals, default and given output, three previous outputs"),
        H("cli_faults", "reads and writes of 1/5/7/30/100 bytes at a time, or interrupted at any of the first 4 (thorough 12) calls"),
        H("cli_large", "sources of 8192 and 20000 (thorough also 8193 and 65537) bytes"),
        H("cli_history", "two runs, the second with or without overwriting the first output"),
        H("cli_arguments", "argument vectors of up to 4 (thorough 5) of four words", reach=(1, 2, 3)),
    ]),
    "C28": dict(assumptions=CLI, harnesses=[
        H("cli_bad_source", "seven kinds of invalid sources, three previous outputs, default and given output"),
        H("cli_any_source", "five line beginnings followed by 1-2 (thorough 3) arbitrary bytes", reach=(1, 2)),
        H("cli_arguments", "argument vectors of up to 4 (thorough 5) of four words", reach=(1, 2, 3)),
        H("cli_unreadable", "sources of any name of 1-3 (thorough 1-5) bytes that are missing, directories, or in a missing directory"),
        H("cli_unwritable", "outputs of any such name that are directories or in a missing directory"),
        H("cli_same_file", "outputs that are the source, by default or with -o, here, behind ./ or in a directory, names of 1-3 (thorough 1-5) bytes"),
        H("cli_read_fails", "reading fails at any byte, in pieces or not, three previous outputs"),
        H("cli_write_fails", "the device is full after 0/1/32/half/all but one (thorough any number of) bytes, in pieces or not"),
    ]),
    "C29": dict(harnesses=[
        H("asm_twice", "pairs of names of 1-2 (thorough 1-5) arbitrary letters of either case, digits, signs, equal or different, four ways to define each, 0-2 definitions between, with or without global", reach=(1, 2, 9)),
        H("asm_twice_sources", "0/100/257 (thorough up to 300) definitions between, in one source or two", reach=(1, 9)),
        H("asm_twice_long", "two names of 16/32/64/255/256/257/4096 (thorough 15 lengths up to 65536) letters, equal or different in one place; the first, middle or last of 9/33/65/257 (thorough 12 numbers up to 300) names again", reach=(1, 2, 9), shards={"quick": 2, "thorough": 8}),
    ]),
    "C30": dict(assumptions=CLI, harnesses=[
        H("cli_diag_line", "nine kinds of wrong lines after every sequence of up to 2 (thorough 3) of twelve kinds of fine lines, three continuations", shards={"thorough": 8}),
        H("cli_diag_line_many", "wrong, non-UTF-8, unreadable lines and repeated names after 9/99/255-257 (thorough up to 4097) lines", reach=(1, 2)),
        H("cli_diag_symbol", "undefined names of 2-4 (thorough 2-7) letters"),
        H("cli_diag_file", "missing sources, outputs that are directories or on a full device, with any name of 2-4 (thorough 2-7) printable characters"),
    ]),
    "C31": dict(harnesses=[
        H("asm_again", "four kinds of programs with up to 13 names and arbitrary literals, written twice by one assembler or by two, with another program before or in between, three hash keys"),
        H("obj_again", "objects of eight symbols of all kinds and seven relocations with arbitrary values, written twice, three hash keys"),
    ]),
    "C32": dict(harnesses=[
        H("obj_read_back", "text of 0/1/8, data of 0/3 bytes, bss of 0 or any size, up to one symbol of any kind in each, up to two relocations", shards={"quick": 4, "thorough": 8}),
        H("obj_big_read_back", "the objects of obj_big_contents, obj_big_symbols and obj_big_relocs: up to 70000 bytes, 258 symbols, names of 65536 bytes, 257 (thorough 300) relocations", shards={"quick": 3, "thorough": 8}),
        H("asm_read_back", "programs of three lines of code or data and up to three names of 1-3 letters, code, data, bss and operands"),
    ]),
    "C33": dict(harnesses=[
        H("x64_buffers", "arrays of 0-15 arbitrary bytes in buffers of 1/3/4/8/15, one byte of a copy changed"),
        H("x64_buffer_numbers", "numbers of 1/2/4/8 bytes and any value in buffers of 1/4/8/15"),
        H("x64_buffer_refuses", "ten kinds of contents too long for the buffer, among them every length above 15"),
    ]),
    "C34": dict(harnesses=[
        H("asm_parts", "six programs of 6-8 lines (labels, declarations before and after, symbol operands, all sections, any data), one split anywhere and another near the end (thorough: two anywhere), parts with and without a final line end, with and without a file written in between"),
    ]),
}
