# writes properties.jsonl and MANIFEST.json (python3-vt bin/gen.py)
import json
P=[]
def p(id,title,statement,over,q,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=q),why_tests_cant=why,anchors=a))
X="at-x64/src/"; M="at-mac/src/"; O="at-obj/src/"; A="at-asm/src/"
p("C01","Register and immediate moves encode the instruction asked for",
 "The bytes produced for a register-to-register or immediate-to-register move of 16, 32 or 64 bits, for a return and for a system call are exactly one valid x86-64 instruction, which any decoder reads as that operation on those operands with that immediate value and nothing more.",
 ["inputs"],"every pair of registers of each width, every register with every 16-, 32- and 64-bit immediate",
 "Tests encode a handful of register/immediate combinations and compare bytes; high registers, REX bits, opcode-embedded register fields and immediate bytes interact over 2^64 immediates times 16 registers.",
 [X+"instruction/mov.rs",X+"instruction/ret.rs",X+"instruction/syscall.rs",X+"encoder/mod.rs",X+"encoder/bytecode.rs",X+"bytes.rs",X+"reg.rs"],
 [("encoder assembling prefix, REX, opcode, ModRM, immediate",X+"encoder/mod.rs"),("per-operand instruction impls",X+"instruction/mov.rs"),("little-endian immediate bytes",X+"bytes.rs")],
 ["Instruction::bytecode()"])
p("C02","Memory operands encode the address that was asked for",
 "The bytes produced for a store to memory or an address computation denote, in 64-bit mode, exactly the effective address described by the operand: base register plus signed displacement, base plus index times scale plus displacement, or instruction-pointer-relative displacement. The special encodings of the stack pointer, frame pointer and their extended counterparts never change which registers take part.",
 ["inputs"],"every base/index/scale/register combination and every 32-bit displacement",
 "Tests cover a few bases and small displacements; boundary displacements (127/128, negative) and rsp/rbp/r12/r13 bases each need a different ModRM/SIB form, 2^32 displacements times thousands of register tuples.",
 [X+"mem.rs",X+"encoder/mod.rs",X+"encoder/bytecode.rs",X+"instruction/lea.rs",X+"instruction/mov.rs"],
 [("ModRM/SIB/displacement selection",X+"encoder/mod.rs"),("memory operand forms",X+"mem.rs")],["Instruction::bytecode()"])
p("C03","Push and pop encode the operand they were given",
 "Pushing a register, popping into a register, and pushing an 8-, 16- or 32-bit immediate produce one valid 64-bit-mode instruction of the right operand size naming that register or carrying exactly that immediate's bytes.",
 ["inputs"],"every 16- and 64-bit register, every 8/16/32-bit immediate","Tests check a few registers and immediates.",
 [X+"instruction/push.rs",X+"instruction/pop.rs",X+"encoder/mod.rs"],
 [("push/pop impls",X+"instruction/push.rs"),("encoder",X+"encoder/mod.rs")],["Instruction::bytecode()"])
p("C04","The reported immediate position is where the immediate is",
 "For an immediate-to-register move, overwriting the bytes at the reported offset with another value of the same width yields exactly the instruction that moves that other value into the same register.",
 ["inputs"],"every 32/64-bit register, every pair of old and new immediates","One test reads a single offset; relocation correctness needs it for all registers (with and without REX) and all values.",
 [X+"instruction/mov.rs"],[("offset_to_imm_bytes",X+"instruction/mov.rs")],["offset_to_imm_bytes()","bytecode()"])
p("C05","Register names and hardware numbers agree with the architecture",
 "Every register prints the name the assembler language uses for it, and its encoding (low three bits plus extension bit) is the number x86-64 assigns to that name, alike in all sizes.",
 ["inputs"],"all registers of all four kinds","Tests use only some registers; a swapped pair in one table stays invisible.",
 [X+"reg.rs"],[("register code tables and Display",X+"reg.rs")],["Display of registers","register encodings in emitted bytes"])
p("C06","File headers are written as the Mach-O layout demands and read back",
 "A 64-bit file header is written as exactly 32 bytes with magic, CPU type and subtype, file type, command count, command size, flags and reserved word at their defined offsets, and reading those bytes yields an equal header and consumes nothing more.",
 ["inputs"],"every combination of field values and every set of header flags","One test round-trips one header.",
 [M+"header.rs",M+"io.rs"],[("Header64::write_into/read_from_in",M+"header.rs"),("Flags bit mapping",M+"header.rs")],["Header64::write_into","Header64::read_from_in"])
p("C07","Load commands are written as the Mach-O layout demands and read back",
 "Segment commands with their sections, symbol-table, dynamic-symbol-table and build-version commands are written with every field at its defined offset and width, occupy exactly the size they announce, and read back equal without consuming anything beyond.",
 ["inputs"],"every field value, names of 0 to 16 ASCII characters, every section type, attributes in any order and repetition, up to two sections and three tools","Each command has one fixed round-trip test with small values, which hides truncated fields, swapped neighbours and full-width names.",
 [M+"load_command/mod.rs",M+"load_command/segment64.rs",M+"load_command/symtab.rs",M+"load_command/dysymtab.rs",M+"load_command/build_version.rs",M+"io.rs"],
 [("write_into/read_from_in of each command",M+"load_command/"),("fixed-size names",M+"io.rs")],["LoadCommand::write_into","LoadCommand::read_from_in"])
p("C08","Symbol and relocation entries are written per the layout and read back",
 "Symbol-table entries are 16 bytes and relocation entries 8 bytes with every field and bit-field at its defined position, every type and length maps to its defined code, and both read back equal.",
 ["inputs"],"every field value and every symbol type byte, 24-bit symbol numbers","Tests encode one or two entries; the packed bit-fields need all values.",
 [M+"nlist.rs",M+"reloc.rs"],[("NTypeField::to_u8/from_u8",M+"nlist.rs"),("bit packing",M+"reloc.rs")],["NList64::write_into","RelocationInfo::write_into"])
p("C09","Reading a record and writing it again reproduces its bytes",
 "Whatever bytes are accepted as a header, load command, symbol entry or relocation entry, writing the decoded record gives the very same bytes; a name read is the field's bytes up to the first NUL, never an altered version of them; a load command whose announced size contradicts its contents is never accepted.",
 ["inputs"],"every byte string of the record's size (names that are written again restricted to ASCII padded with zeros)","Tests only decode bytes the library itself wrote, so information dropped or confused by the decoder is invisible.",
 [M+"header.rs",M+"load_command/mod.rs",M+"load_command/segment64.rs",M+"load_command/build_version.rs",M+"nlist.rs",M+"reloc.rs",M+"io.rs"],
 [("read_from_in",M+"load_command/mod.rs"),("from_u32/from_u8 code tables",M+"nlist.rs")],["read_from_in","write_into"])
p("C10","Byte-swapped files decode to the same records",
 "A header with the opposite-endian magic is recognised as such and reports the opposite byte order, and every record whose multi-byte fields are byte-swapped accordingly decodes to the same value as its native twin.",
 ["inputs"],"every field value of every record kind","Tests only read little-endian data.",
 [M+"header.rs",M+"io.rs",M+"load_command/",M+"nlist.rs",M+"reloc.rs"],[("endianness parameter of the readers",M+"io.rs"),("Magic",M+"header.rs")],["read_from_in(.., Endian)"])
p("C11","String table offsets always lead to the string stored there",
 "Strings pushed to a string table are stored in order, each NUL-terminated, after a leading NUL; looking up any offset gives the text from there up to the next NUL, and iterating yields the stored strings in order.",
 ["inputs"],"every sequence of up to four strings of up to three ASCII bytes, every offset","Tests use two fixed strings.",
 [M+"string_table.rs"],[("StringTable push/get/iter",M+"string_table.rs")],["StringTable::get","StringTable::iter","as_ref"])
p("C12","Every written object file is structurally sound",
 "For any object, the written file is a well-formed 64-bit Mach-O object: command counts and sizes are right, every section's contents, every relocation list, the symbol table and the string table lie inside the file without overlapping each other or the headers, the relocation and symbol tables are aligned to their entries, the unnamed segment covers exactly the section contents with all access rights, the header claims nothing of a linked image, and no symbol refers outside the string table.",
 ["inputs","programs"],"every combination of section sizes around the alignment boundary, symbol counts, relocation counts and symbol values","One test writes one object; the offsets are computed independently in several places and only agree if the padding, counts and sizes of each interact right.",
 [O+"macho.rs",O+"object.rs",O+"num.rs"],[("offset computations for sections, relocations and tables",O+"macho.rs"),("alignment helpers",O+"num.rs")],["macho::write_into output"])
p("C13","Section contents and addresses survive into the object file",
 "The written file contains each non-empty section of the object exactly once under its conventional name, with exactly its bytes (or its zero-filled size), the right kind and attributes, and addresses that follow one another without gaps.",
 ["inputs"],"every content of text and data up to the bound and every zero-fill size below 2^62","The single test uses one small text section.",
 [O+"macho.rs",O+"object.rs"],[("gen_section64s, write_section_data_into",O+"macho.rs"),("Sections::iter",O+"object.rs")],["macho::write_into output"])
p("C14","Symbols survive into the object file with name, binding and address",
 "Every symbol of an object appears exactly once in the written symbol table, found by its own name even when names are prefixes or suffixes of each other, as undefined, absolute or defined in the right section, external exactly when requested, and with the right value.",
 ["inputs"],"every kind, binding and value, every tuple of distinct short names, every section","The test has one symbol; name lookup by prefix/suffix, section ordinals with absent sections and address bases need all combinations.",
 [O+"macho.rs",O+"object.rs",M+"string_table.rs",M+"nlist.rs"],[("gen_nlist64s, gen_string_table",O+"macho.rs")],["macho::write_into output"])
p("C15","Relocations survive into the object file and name the right symbol",
 "Every relocation of a section appears in the written file in order, attached to that section, with its address, width and PC-relative bit, and referring to the symbol table entry of the symbol it names.",
 ["inputs"],"every address, width, PC-relative bit, symbol choice and name","The test has at most one relocation to one symbol; index lookup and per-section offsets need several.",
 [O+"macho.rs",M+"reloc.rs"],[("gen_relocation_infos",O+"macho.rs")],["macho::write_into output"])
p("C16","Numeric data assembles to exactly the bytes written, or is refused",
 "A data definition of bytes, words, double or quad words with decimal or hexadecimal literals puts each value into the current section little-endian at the unit's width, in order; a literal that does not fit its unit, or 64 bits, is refused with a diagnostic and no output.",
 ["inputs","programs"],"every value of decimal and hexadecimal literals in both letter cases up to and beyond 64 bits, every unit, several separators","Tests use a few small literals; range checks have their boundary at specific values.",
 [A+"parsers/data.rs",A+"parsers/num.rs",A+"assembler.rs"],[("write_num range checks",A+"parsers/data.rs"),("number parsing",A+"parsers/num.rs")],["object file written by the assembler","stderr and exit status"])
p("C17","String data assembles to exactly its bytes plus unit padding",
 "A string in a data definition contributes its bytes unchanged, including blanks, commas, semicolons and non-ASCII characters, padded with zeros to a multiple of the unit; an unclosed string is refused with a diagnostic.",
 ["inputs","programs"],"every string of printable characters up to the bound, alone or mixed with literals, with labels and comments","Tests use \"Hello\"-like strings only; separators and comment characters inside strings need all characters.",
 [A+"parsers/data.rs",A+"parsers/line.rs"],[("write_str padding, DataDefIter",A+"parsers/data.rs"),("comment stripping",A+"parsers/line.rs")],["object file written by the assembler"])
p("C18","Assembled moves do what the source line says",
 "A move between registers, or of a literal into a register, assembles to exactly one instruction that performs it; a literal too large for the register, mixed register sizes of an unsupported kind, or a destination that is no register is refused with a diagnostic.",
 ["inputs","programs"],"all 48x48 register pairs, all registers with all literal values, all short destination names","Six fixed lines are tested.",
 [A+"parsers/instruction/mov.rs",A+"parsers/reg.rs",A+"parsers/expr.rs",X+"instruction/mov.rs"],[("operand dispatch",A+"parsers/instruction/mov.rs"),("register names",A+"parsers/reg.rs")],["object file written by the assembler"])
p("C19","Constant expressions have their 64-bit value",
 "An operand that is a sum or difference of two literals has its value modulo 2^64, is accepted exactly when that value fits the destination register, and a malformed expression is refused with a diagnostic instead of being partly ignored.",
 ["inputs"],"all values of two literals of the listed shapes, both operators, three register widths; twelve shapes of malformed operands","Three fixed sums are tested; wrap-around and range boundaries depend on both values.",
 [A+"parsers/expr.rs",A+"parsers/num.rs",A+"parsers/instruction/mov.rs"],[("Expr parsing and evaluation",A+"parsers/expr.rs")],["object file written by the assembler"])
p("C20","Push, return and system call assemble faithfully or are refused",
 "Pushing a literal assembles to one instruction that pushes exactly that 64-bit value, pushing a 64-bit register pushes that register, return and system call assemble to themselves; values that no encoding represents, other registers, and missing or extra operands are refused with a diagnostic.",
 ["inputs","programs"],"all literals to beyond 64 bits, all 48 register names, trailing garbage of arbitrary printable characters, 31 malformed lines","No test assembles a push; sign extension makes the result depend on the literal's top bit.",
 [A+"parsers/instruction/push.rs",A+"parsers/instruction/mod.rs",X+"instruction/push.rs"],[("immediate width choice",A+"parsers/instruction/push.rs")],["object file written by the assembler"])
p("C21","Layout, comments and line endings never change the result",
 "Adding or changing blanks, tabs, empty lines, comments, carriage returns before line ends or a missing final newline does not change the object file the program assembles to.",
 ["inputs","programs"],"13 kinds of lines in 6 spellings with arbitrary blanks and arbitrary comment bytes, and pairs of lines in differing spellings","Tests use one canonical spelling.",
 [A+"parsers/line.rs",A+"parsers/",A+"reader.rs"],[("comment stripping and tokenising",A+"parsers/line.rs")],["object file written by the assembler"])
p("C22","Labels name the place where they stand, global exactly when declared",
 "In every program, each label becomes one symbol in the section current at its definition, valued at the number of bytes placed in that section before it, external exactly when declared global anywhere in the program; the bytes of each section are those of its lines in order regardless of switching back and forth.",
 ["programs"],"every program of up to five lines over section switches, labels, data, instructions and global declarations; arbitrary short label names","Tests assemble no multi-section program.",
 [A+"assembler.rs",A+"parsers/section.rs",A+"parsers/global_symbol.rs",A+"parsers/line.rs"],[("current section and label offsets",A+"assembler.rs")],["object file written by the assembler"],[("current section","where following lines go",A+"assembler.rs"),("declared globals","names made external at the end",A+"assembler.rs")])
p("C23","Symbol operands become relocations a linker can resolve",
 "An instruction whose operand is a label assembles to the instruction with a zero immediate plus one relocation, in the same section, whose address and width cover exactly that immediate and which names that label, whether it is defined earlier or later; an undefined name is refused with a diagnostic.",
 ["programs","inputs"],"every wide register, several symbol operands before and after labels in two sections, arbitrary short names","No test assembles a symbol operand.",
 [A+"parsers/instruction/mov.rs",A+"assembler.rs",O+"macho.rs",X+"instruction/mov.rs"],[("LocalReloc creation",A+"parsers/instruction/mov.rs"),("relocation address",A+"assembler.rs"),("undefined reference check",A+"assembler.rs")],["object file written by the assembler"])
p("C24","Any source either assembles or is diagnosed, never crashes",
 "For every byte sequence given as source, the assembler either writes a structurally sound object file or ends with a non-zero status and a diagnostic on standard error; it never panics, never loops and never ends silently with success but no output.",
 ["inputs"],"every source of up to three bytes, line beginnings with arbitrary continuations, and every token sequence of up to five tokens","Tests feed only well-formed lines.",
 [A+"assembler.rs",A+"reader.rs",A+"parsers/",O+"macho.rs"],[("error reporting of every parser",A+"parsers/"),("reader errors",A+"reader.rs")],["exit status","stderr","object file"])
p("C25","A sink that takes pieces or fails never yields a wrong object file",
 "Writing to a sink that accepts only part of each write or is interrupted by signals delivers exactly the same file, and a sink that fails or stops accepting at any byte is never reported as a success.",
 ["fault_sequences"],"all piece sizes listed, an interruption before any call, failure after any number of bytes","Tests write to an in-memory vector only.",
 [O+"macho.rs",M+"io.rs",M+"header.rs",A+"assembler.rs"],[("write_all on every record",M+"io.rs")],["bytes received by the sink","process outcome"])
p("C26","How the input arrives never changes what is read",
 "Reading a record or a program from a source that delivers it in arbitrary pieces or with interruptions gives the same result as reading it whole, and input that breaks off early or with an error is reported, never accepted as complete.",
 ["fault_sequences","inputs"],"first piece of any size, several following sizes, interruptions, truncation at every length","Tests read from in-memory slices only.",
 [M+"io.rs",M+"load_command/",A+"reader.rs"],[("read_exact everywhere",M+"io.rs"),("buffered line reader",A+"reader.rs")],["decoded record","object file"])
p("C27","The tool writes exactly the object file, exactly where it was asked to",
 "Run on a source that assembles, the command-line tool ends with success, and the file named after -o, or the source's name with its extension replaced by .o, then holds exactly the object file the library produces for that source, whatever it held before, however the operating system splits or interrupts reads and writes; the source and every other file stay as they were and nothing else is created.",
 ["inputs","fault_sequences","configurations"],"every file name of up to six bytes, three argument orders, plain names and names in directories, absent, shorter and longer previous outputs, sources of several kinds and sizes with arbitrary literals, piecewise and interrupted reads and writes, one run after another","No test runs the tool at all.",
 [A+"main.rs",A+"assembler.rs",A+"reader.rs"],[("argument handling",A+"main.rs"),("opening, reading and writing files",A+"main.rs")],["files after the run","exit status"])
p("C28","A run that fails says so and destroys nothing",
 "When the source is invalid, missing, unreadable or breaks off, when the arguments are incomplete or contradictory or make the source its own output, or when the output cannot be opened or written completely, the tool ends with a non-zero status and a diagnostic on standard error instead of crashing; unless the failure is that of writing the output itself, every file, including an older output, is as it was before.",
 ["inputs","fault_sequences","configurations"],"seven kinds of invalid sources and all short byte sequences, every argument vector of up to five words, sources missing or of the wrong kind under any name, read errors at every byte, a full device after any number of bytes, outputs that cannot be created","No test runs the tool at all.",
 [A+"main.rs",A+"assembler.rs"],[("argument handling",A+"main.rs"),("order of assembling and opening the output",A+"main.rs"),("error paths",A+"main.rs")],["files after the run","exit status","stderr"])
p("C29","A name is defined once; a second definition is refused",
 "A program that defines one name twice, as a line of its own or on data, in the same or different sections or sources, however far apart and whether declared global or not, is refused with a diagnostic; names that differ anywhere are never taken for one another.",
 ["programs","inputs"],"every pair of names of up to five letters, four ways to define each, definitions in between, up to 300 other names, one source or two","No test defines a name twice.",
 [A+"assembler.rs"],[("check_not_defined",A+"assembler.rs")],["exit status","stderr","object file"])
p("C30","Diagnostics point to what is wrong",
 "The diagnostic for a wrong line gives that line's number counting every line from one, including empty and comment lines, also when the line is not text; the one for a source that cannot be read gives the line or the file; the diagnostic for an undefined or repeated symbol names the symbol, and the one for a file that cannot be used names the file.",
 ["programs","inputs","fault_sequences"],"nine kinds of wrong lines after every sequence of up to four of twelve kinds of fine lines, wrong lines after up to 4097 lines, arbitrary symbol and file names of up to seven characters","No test looks at a diagnostic.",
 [A+"assembler.rs",A+"main.rs",A+"reader.rs"],[("line counting",A+"assembler.rs"),("undefined and repeated symbols",A+"assembler.rs"),("file errors",A+"main.rs")],["stderr of the tool"])
p("C31","The same input gives the same file, every time",
 "Assembling a source or writing an object gives the same bytes whenever it is repeated: by the same assembler or another one, before, after or alongside others, and whatever the random keys of hash tables and the addresses in memory happen to be.",
 ["histories","inputs","configurations"],"programs and objects with up to thirteen names and arbitrary values, written twice in four histories, under different hash keys","Tests write each object once, and an order that depends on random keys may come out right in any one run.",
 [A+"assembler.rs",O+"macho.rs",O+"object.rs",M+"string_table.rs"],[("order of symbols, strings and relocations",O+"macho.rs"),("state kept between lines",A+"assembler.rs")],["object file bytes"])
p("C32","Every file written is read back by the library's own readers",
 "Following the headers of a written object file with the library's own readers yields a header, load commands, symbol entries, relocation entries and a string table that are accepted, name every symbol of the object once with its kind, binding and value, and, written again in place, reproduce the file byte for byte.",
 ["inputs","configurations"],"objects of up to three symbols of any kind, name and value and two relocations, assembled programs of three names","Tests read back records one at a time from fixed bytes, never a whole file that was just written.",
 [O+"macho.rs",M+"header.rs",M+"load_command/mod.rs",M+"nlist.rs",M+"reloc.rs",M+"string_table.rs"],[("writing order",O+"macho.rs"),("readers",M+"load_command/mod.rs")],["object file bytes","records read back"])
p("C33","A byte buffer is exactly the bytes it was made from",
 "A buffer of bounded size made from an array, a number or a length holds exactly those bytes, little-endian for numbers and zero for a length alone, with that length; changing a copy changes nothing else; two buffers are equal exactly when their lengths and bytes are; what exceeds the bound is refused, never cut off.",
 ["inputs"],"arrays of 0 to 15 arbitrary bytes in buffers of 1 to 15, numbers of all widths and values, every length beyond the bound","Tests meet buffers only as the results of a few instructions.",
 [X+"bytes.rs"],[("conversions",X+"bytes.rs"),("equality",X+"bytes.rs")],["bytes","length"])
p("C34","A program may be handed over in parts",
 "A program read in several parts, cut between any two lines, gives exactly the object file of the whole: the section in force, the labels, the global declarations and the symbol operands carry over from part to part, the last line of a part needs no line end, and a file written between the parts is the file of the parts so far and changes nothing in what follows.",
 ["inputs","histories"],"programs of up to 8 lines with arbitrary data, one cut anywhere and one at or just before the end (thorough: two cuts anywhere)","Every test and the command line read one source once.",
 [A+"assembler.rs"],[("state carried over",A+"assembler.rs"),("declarations",A+"assembler.rs")],["text","splits"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
import sys
sys.path.insert(0,"/verif/bin"); import registry
assert [x["id"] for x in P]==sorted(registry.PROPS), "ids"
TECH="symbolic execution of the code's LLVM IR + SMT (z3), all inputs within bounds, counterexamples replayed natively"
checks=[]
for x in P:
    b="; ".join(h["bound"] for h in registry.PROPS[x["id"]]["harnesses"])
    checks.append(dict(property=x["id"],quick_cmd="python3 bin/check.py %s"%x["id"],thorough_cmd="python3 bin/check.py %s --tier thorough"%x["id"],
      evidence_file="evidence/%s.json"%x["id"],technique=TECH,level="model_checking",
      level_note="Holds for every value within the bounds, decided path by path: "+b+". Trusted: the executor in symex/, z3, rustc's IR as the code's meaning, and the reference decoder/reader in harness/; sampled paths are re-run against the real build and must agree."))
m=dict(version=1,setup_cmd="python3 bin/check.py --setup",checks=checks,not_applicable=[])
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1,ensure_ascii=False); open("/verif/MANIFEST.json","a").write("\n")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,s)
jsonschema.validate(m,json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(P), max(len(x["title"]) for x in P))
