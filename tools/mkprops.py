#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            observe_at=list(observe), hook_needed=hook)))

ASM = "at-asm/src/assembler.rs"; LINE = "at-asm/src/parsers/line.rs"; DATA = "at-asm/src/parsers/data.rs"
EXPR = "at-asm/src/parsers/expr.rs"; NUM = "at-asm/src/parsers/num.rs"; REGP = "at-asm/src/parsers/reg.rs"
MOVP = "at-asm/src/parsers/instruction/mov.rs"; PUSHP = "at-asm/src/parsers/instruction/push.rs"
INSTP = "at-asm/src/parsers/instruction/mod.rs"; MAIN = "at-asm/src/main.rs"; READER = "at-asm/src/reader.rs"
ENC = "at-x64/src/encoder/mod.rs"; BC = "at-x64/src/encoder/bytecode.rs"; REG = "at-x64/src/reg.rs"; MEM = "at-x64/src/mem.rs"
BYTES = "at-x64/src/bytes.rs"
XI = ["at-x64/src/instruction/%s.rs" % n for n in ("mov", "lea", "push", "pop", "ret", "syscall")]
MACHO = "at-obj/src/macho.rs"; OBJ = "at-obj/src/object.rs"; ONUM = "at-obj/src/num.rs"
HDR = "at-mac/src/header.rs"; IO = "at-mac/src/io.rs"; LC = "at-mac/src/load_command/mod.rs"
SEG = "at-mac/src/load_command/segment64.rs"; SYMT = "at-mac/src/load_command/symtab.rs"
DYS = "at-mac/src/load_command/dysymtab.rs"; BV = "at-mac/src/load_command/build_version.rs"
NL = "at-mac/src/nlist.rs"; REL = "at-mac/src/reloc.rs"; STR = "at-mac/src/string_table.rs"

prop("C01", "An assembled program does what its source says when linked and run",
 "For every straight-line program of mov, push, ret and syscall lines with data and labels, linking the object file by the ordinary Mach-O rules (sections placed at any addresses, each relocated field increased by the address of its symbol) and executing it on an x86-64 processor from its entry label gives the same sequence of system calls (with the same argument registers and the same memory contents behind pointers), the same final registers and the same stack as executing the source lines one by one.",
 ["programs", "inputs"], "all straight-line source programs in the supported language, all load addresses",
 "at-asm/tests/run.sh does this for four fixed programs and only on macOS; no unit test assembles a whole program, let alone executes one.",
 [ASM, LINE, MOVP, PUSHP, INSTP, MACHO, ENC],
 [("line-by-line assembly into sections, symbols and relocations", ASM + " read_from"), ("Mach-O emission", MACHO + " write_into")],
 [("section bytes", "machine code and data emitted so far", OBJ + " TextSection/DataSection"), ("relocs", "fields still to be patched by the linker", OBJ + " Reloc")],
 ["object file written for a source text"])

prop("C02", "Register and immediate instructions encode to exactly what was asked",
 "Every instruction the encoder library builds from registers and immediates (mov between registers of equal width, mov of an immediate to a register, push of a register or immediate, pop of a register, ret, syscall) yields bytes that a processor in 64-bit mode decodes as that one instruction, with the same operation, operand size, registers and immediate bits, and with no byte left over. The library's reported position of a mov's immediate is where the immediate's bytes really start.",
 ["inputs"], "all 16 registers of each width in every operand position, all immediate values",
 "The unit tests compare two or three byte strings per form; they never see most registers (16x16 pairs) or immediates, and never check that bytes decode back.",
 XI + [ENC, BC, REG, BYTES],
 [("REX/ModRM/opcode assembly", ENC + " Encoder::encode"), ("byte layout", BC + " ByteCode::to_bytes"), ("register codes", REG)],
 [("REX, opcode, ModRM, imm", "fields of the instruction under construction", BC + " ByteCode")],
 ["Instruction::bytecode() of every public instruction type"])

prop("C03", "Memory operands encode the effective address they denote",
 "For every load-address or store instruction with a memory operand, the bytes decode to the same register operand and to an effective address equal to base + index * 2^scale + displacement for every combination of base, index, scale and 32-bit displacement (the displacement is a two's-complement number, sign-extended to 64 bits; RSP as index means no index; a missing base contributes zero). RIP-relative operands decode as RIP-relative with that displacement, and no byte is left over.",
 ["inputs"], "all base/index registers or none, scales 0-3, all 2^32 displacements, all 16 registers as the other operand",
 "The lea and mov unit tests sample eleven operands with displacement 0 or 42; the special cases of the ISA (RBP/R13 without displacement, RSP/R12 as base, disp8 against disp32) are barely touched.",
 [ENC, MEM, BC, XI[0], XI[1]],
 [("mode / r/m / SIB / displacement selection", ENC + " impl RegMemLike for Mem64")],
 [("Mem64", "addressing form requested by the caller", MEM)],
 ["Instruction::bytecode() of Lea<Reg64, Mem64> and Mov<Mem64, Reg64>"])

prop("C04", "Each symbolic operand yields one relocation over its immediate field",
 "In the object file produced for any accepted source, each mov line whose source operand is a symbol has exactly one relocation entry, belonging to the section the line was assembled into, absolute and external, designating that very symbol's symbol-table entry, whose address and width cover exactly the immediate field of that instruction (8 bytes for a 64-bit destination, 4 bytes for a 32-bit one), and that field is zero in the file. No other line yields a relocation entry.",
 ["programs", "inputs"], "all programs, all destination registers, any number and order of symbolic operands, forward and backward references, any section",
 "No unit test assembles a symbolic operand; the only program with one (reloc_hello_world.s) has one relocation, in the first section, and is run only on macOS.",
 [ASM, MOVP, XI[0], MACHO, REL],
 [("relocation offset", MOVP + " / Mov::offset_to_imm_bytes"), ("section-relative address", ASM + " read_from, Line::Instruction"), ("symbol lookup", MACHO + " gen_relocation_infos")],
 [("relocs", "pending relocations per section, in source order", OBJ + " Reloc")],
 ["relocation entries and symbol table of the object file"])

prop("C05", "Section contents are the source lines' bytes, in order, in the right section",
 "For every accepted source the text and data sections of the object file contain exactly the bytes of the data and instruction lines that were in force under that section, in source order, with nothing added, lost, reordered or moved to the other section, however often the source switches sections. Lines before the first section directive belong to the text section.",
 ["programs", "histories"], "all sequences of section switches, labels, data and instruction lines",
 "The unit tests parse single lines; the section state machine and the accumulation of bytes across switches are not tested at all.",
 [ASM, LINE, "at-asm/src/parsers/section.rs", OBJ, MACHO],
 [("current section", ASM + " cur_sect / cur_sect_mut"), ("append", ASM + " SectionMut::write_bytes"), ("emission", MACHO + " write_section_data_into, gen_section64s")],
 [("cur_sect", "section in force", ASM), ("bytes", "contents so far", OBJ)],
 ["section contents in the object file"])

prop("C06", "Every label becomes one symbol at the address where it stands",
 "For every accepted source the symbol table has exactly one entry per label in the source (both 'name:' lines and labels on data lines) and no other entry; the entry bears the label's name, is defined in the section in which the label stands, and its value is that section's address plus the number of bytes emitted into that section before the label. This holds also for labels at the very end of a section and in sections that contain no bytes.",
 ["programs", "histories"], "all programs: any number of labels, in any section, in any order, names that are prefixes or suffixes of one another",
 "No test looks at a symbol table produced from source; addresses depend on everything assembled before the label.",
 [ASM, MACHO, OBJ, STR, NL],
 [("label address", ASM + " read_from, Line::Symbol / Line::Data"), ("nlist generation", MACHO + " gen_nlist64s"), ("names", MACHO + " gen_string_table, get_strx")],
 [("symbols", "labels seen so far with section offset", OBJ + " Symbol")],
 ["symbol and string tables of the object file"])

prop("C07", "Exactly the labels declared global are external",
 "For every accepted source a label's symbol is external if and only if some line of the source declares that name global, whether the declaration comes before or after the label, in whatever section it stands and however many declarations there are. A declaration changes nothing else, and declaring a name that is never defined as a label adds no symbol.",
 ["programs", "histories"], "all programs: any set and placement of global declarations relative to the labels",
 "Only programs with a single global before its label exist, and no test inspects the external bit.",
 [ASM, "at-asm/src/parsers/global_symbol.rs", OBJ, MACHO],
 [("deferred marking", ASM + " end of read_from"), ("symbol iteration", OBJ + " Object::symbols_mut"), ("n_ext", MACHO + " gen_nlist64s")],
 [("ext_symbols", "names declared global so far", ASM)],
 ["external bit of each symbol-table entry"])

prop("C08", "Data directives emit their items exactly",
 "For every data line, db, dw, dd and dq emit each numeric item as a little-endian integer of 1, 2, 4 or 8 bytes and each quoted item as its bytes verbatim (including ';', ',' and blanks inside the quotes), padded with zero bytes to a multiple of the directive's width, in the order written and with nothing in between. A numeric item that does not fit the width makes the whole line an error.",
 ["inputs"], "all directives, all item lists mixing numbers and strings, all values and string lengths, with or without label",
 "One unit test with nine fixed lines; no boundary value, no string length per width, no semicolon in a string.",
 [DATA, LINE, NUM],
 [("splitting", DATA + " split_parts, DataDefIter"), ("width check and padding", DATA + " write_num, write_str"), ("comment removal", LINE)],
 [], ["data section of the object file"])

prop("C09", "Numeric operands denote their value or are refused, never altered",
 "A decimal or 0x-hexadecimal literal, or a sum or difference 'a + b' / 'a - b' of two of them, denotes its value modulo 2^64, and exactly that value is what a mov line loads into a 64-bit register. For 32-bit and 16-bit destinations the value is loaded unchanged if it fits the width and the line is refused otherwise; a push line pushes a 64-bit value whose low 32 bits are the operand; literals of more than 64 bits, and anything left over after the expression, are refused.",
 ["inputs"], "all literals and two-operand expressions, all destination widths",
 "Three expressions and no boundary values are tested; overflow, wrap-around, truncation and sign extension are not.",
 [EXPR, NUM, MOVP, PUSHP],
 [("literals", NUM), ("two-operand expressions", EXPR), ("width check", MOVP + " as_u32/as_u16"), ("immediate size choice", PUSHP)],
 [], ["bytes assembled for the line"])

prop("C10", "An instruction line assembles to the instruction it spells",
 "For every mov, push, ret and syscall line with register, immediate or symbol operands, the emitted bytes decode on x86-64 to the instruction spelled: same mnemonic, destination first and source second, the very registers named, for all 16 names at each of the 64-, 32- and 16-bit widths. Operands of different widths are never silently combined.",
 ["inputs"], "all pairs of register names and all operand kinds for each mnemonic",
 "Six mov lines are tested; no push line and hardly any register name.",
 [MOVP, PUSHP, INSTP, REGP, ENC] + XI[:1],
 [("operand dispatch", MOVP + ", " + PUSHP), ("register names", REGP)],
 [], ["bytes assembled for the line"])

prop("C11", "Invalid source is refused loudly and never yields an object",
 "If any line of the source is not a valid line of the language (unknown mnemonic, directive, section or operand, missing or surplus operands, malformed or out-of-range number, unterminated string, data or code in .bss, a name defined as a label twice), or a symbol used as operand is defined nowhere in the source, assembling fails: the process ends with a non-zero status and a message on standard error, which for a line that cannot be parsed gives that line's number, and no object is produced. A source that contains only valid lines is never refused.",
 ["inputs", "programs"], "all source texts; the offending line at any position and under any section",
 "The tests check two malformed section lines; the assembler's error path ends the process and so cannot be reached by the unit tests.",
 [ASM, LINE, INSTP, MOVP, PUSHP, DATA, "at-asm/src/parsers/section.rs", "at-asm/src/parsers/global_symbol.rs", MAIN],
 [("error report and exit", ASM + " read_from"), ("fall-through to 'unrecognized line'", LINE), ("undefined symbols", MACHO + " get_sym_idx"), (".bss guard", ASM + " SectionMut")],
 [("cur_line", "number of the line being read", ASM)],
 ["exit status, standard error, output of the assembler"])

prop("C12", "Comments, blank lines and spacing do not change the object",
 "Adding or removing blank lines, comments (from a ';' outside quotes to the end of the line), leading or trailing blanks, tabs instead of spaces, extra blanks between tokens or around commas, and ending lines with CR LF or omitting the final newline never changes the object file produced for a source, nor turns an accepted source into a refused one.",
 ["inputs", "programs"], "all programs and all ways of laying them out",
 "The parsers are tested with one spelling per line; layout variants are not generated anywhere.",
 [LINE, DATA, MOVP, PUSHP, READER],
 [("comment removal and tokenising", LINE), ("operand splitting and trimming", MOVP + ", " + DATA)],
 [], ["object file bytes for two layouts of the same program"])

prop("C13", "Assembly is deterministic and independent of how input and output are cut",
 "The object file is a function of the source text alone: assembling the same text again (in the same or another process, while other assemblers are at work or not) gives identical bytes; feeding the text to one assembler in several pieces cut at line ends gives the same object as feeding it at once; the sizes in which the input stream delivers its bytes or the output stream accepts them make no difference; and writing the object twice gives the same bytes twice.",
 ["inputs", "histories", "schedules"], "all programs, all cuts into pieces, all read and write granularities, repeated writes",
 "No test feeds an assembler twice, uses a stream with short reads or writes, or writes an object twice.",
 [ASM, READER, MACHO, IO],
 [("line reader", READER), ("state kept between calls", ASM + " Assembler fields"), ("write_all everywhere", MACHO + ", " + IO)],
 [("Assembler", "current section, line counter, object, globals", ASM)],
 ["object file bytes"])

prop("C14", "Every emitted file is a well-formed Mach-O object",
 "For every object, however many bytes, symbols and relocations each section has, the emitted file is a valid 64-bit x86-64 MH_OBJECT file: the counts and sizes in the header and load commands match the commands present; section, relocation, symbol and string areas lie inside the file, do not overlap each other or the headers, and have exactly the advertised sizes; the segment covers all its sections in memory and in the file and is not larger in the file than in memory; section address ranges are disjoint; every string index, section number and relocation symbol index is in range; the relocation and symbol tables start at multiples of 8 and any bytes between areas are zero padding.",
 ["inputs", "configurations"], "all objects: any combination of empty and non-empty sections, all sizes modulo the 8-byte alignment, any number of symbols and relocations",
 "at-obj has no tests at all; the offsets are computed in four separate places that must agree for every size.",
 [MACHO, OBJ, ONUM, HDR, SEG, SYMT, REL, NL],
 [("offset arithmetic", MACHO + " gen_segment_command64, gen_section64s, gen_symtab_command"), ("alignment", ONUM), ("padding", MACHO + " write_section_data_into")],
 [("file layout", "header, commands, section data, relocations, symbols, strings", MACHO + " write_into")],
 ["bytes written by the object writer"])

prop("C15", "An object is recovered unchanged from its file",
 "For every object given to the object writer, a reader of the file finds exactly that object: each non-empty section with its standard name, type, and contents (or zero-fill size), each symbol with its name, kind (undefined, absolute, or defined in its section), value, external bit and, for absolute and undefined symbols, no section; and each relocation with its section, address, width, pc-relative bit and the symbol it names. Nothing else is in the file, and an object with a relocation for a symbol that it does not have is refused.",
 ["inputs"], "all objects built through the public types: three sections, all symbol kinds, relocations in text and data, names that overlap",
 "at-obj has no tests; the assembler never creates absolute or undefined symbols or a sized .bss, so even end-to-end runs do not reach them.",
 [MACHO, OBJ, NL, REL, STR],
 [("nlist generation", MACHO + " gen_nlist64s"), ("relocation generation", MACHO + " gen_relocation_infos"), ("section headers", MACHO + " gen_section64_from_*")],
 [("Object", "sections with bytes, symbols, relocations", OBJ)],
 ["bytes written by the object writer"])

prop("C16", "Every Mach-O record survives write and read",
 "For each Mach-O record type of the library (header, segment command, section, symbol-table command, dynamic-symbol-table command, build-version command and tool entry, symbol entry, relocation entry), writing any record value and reading it back in the machine's byte order yields an equal value; the number of bytes written and the number consumed by the reader both equal the type's declared size, and every field occupies the position and width that the Mach-O format gives it.",
 ["inputs"], "all field values of every record type that the format can represent",
 "One fixed value per record is tested, mostly with zero or repeated fields, so swapped, truncated or misplaced fields can go unnoticed.",
 [HDR, SEG, SYMT, DYS, BV, NL, REL, IO],
 [("read_from_in / write_into pairs", "each record type in at-mac/src"), ("fixed-size strings", IO)],
 [], ["bytes written and value read back for each record type"])

prop("C17", "Files of either byte order are read as the same values",
 "For every record type, reading the big-endian encoding and the little-endian encoding of the same record yields the same field values (the magic number aside, whose value tells the order), including the bit-fields of relocation entries; and the byte order reported when a header is read is the one in which that header was written.",
 ["inputs", "configurations"], "all records in both byte orders",
 "All tests read in the native order only, so the reverse-order half of every reader is never executed.",
 [HDR, IO, REL, NL, SEG, SYMT, DYS, BV, LC],
 [("byte-order dispatch", IO + " read_in!"), ("magic number", HDR + " Header64::read_from"), ("bit-field order", REL + " read_from_in")],
 [], ["values read from byte sequences in both orders"])

prop("C18", "A sequence of load commands is read back command by command",
 "For every sequence of load commands (segment with its sections, symbol table, dynamic symbol table, build version with its tools) written one after the other, reading yields the same sequence; each read consumes exactly the size the command declares, so that the following command starts where the previous one ended, and the size reported for a command is the size it occupies.",
 ["inputs", "histories"], "all sequences of commands, any number of sections and tools, both byte orders for reading",
 "The load-command reader and writer are not tested at all; only single records are.",
 [LC, SEG, SYMT, DYS, BV],
 [("dispatch by command type with put-back of the type word", LC + " LoadCommand::read_from_in")],
 [("stream position", "where the next command starts", LC)],
 ["commands read from a written stream"])

prop("C19", "A string table returns every string at the offset where it was added",
 "For every sequence of additions of ASCII strings (without zero bytes) to a string table, each string is found at the offset equal to the table's length just before it was added, at every later time; offset 0 always gives the empty string; the table's bytes are a zero byte followed by each string and a zero byte; and iterating yields the added strings in order, whether the table was built by additions or from such bytes.",
 ["histories", "inputs"], "all sequences of additions (including empty strings, duplicates, and strings that are parts of others) and all lookups",
 "Three tests with a single string each.",
 [STR],
 [("append with terminator", STR + " push_with_null"), ("lookup up to the next zero", STR + " get"), ("iteration", STR + " iter")],
 [("data", "bytes of the table", STR)],
 ["get, iter, len and bytes of the table"])

prop("C20", "The command writes the object where asked, and only when it succeeds",
 "The assembler command writes the object for its input (a file or a named pipe) to the path given by -o (wherever -o stands on the command line) or else to the input path with extension .o, replacing whatever that file held before, exits with status 0, and leaves the input (when a different file) and all other files untouched. If the arguments are unusable, the input cannot be read or the source is refused, it exits non-zero and creates or changes no file.",
 ["configurations", "inputs", "histories"], "all argument orders, existing or missing outputs of any earlier length, valid and invalid sources",
 "The command has no tests in the Rust suite; run.sh uses a single argument order, a fresh output and valid sources only.",
 [MAIN, ASM],
 [("argument handling", MAIN + " Config::init"), ("output opened with truncation", MAIN + " main")],
 [], ["exit status and file system after the command"])

prop("C21", "A failing input or output stream is never reported as success",
 "If reading the source fails at any byte, or the output refuses to take the object's bytes at any byte position, assembling and writing do not return normally, and the command does not exit with status 0; whatever was written before the failure is a prefix of the correct object.",
 ["fault_sequences", "crash_points"], "every byte position of input and output as the point of failure",
 "No test injects an I/O failure.",
 [MAIN, ASM, READER, MACHO, IO],
 [("unwrap on every write and read", MACHO + ", " + IO + ", " + READER)],
 [], ["outcome of the call or command, bytes received by the failing sink"])

prop("C22", "Coded fields map to the numbers the Mach-O format assigns, both ways",
 "Every named constant of the library (magic numbers, CPU and file types, header flags, section types and attributes, symbol types and debugging entries, platforms, tools, relocation lengths and types, version numbers) is written as the number the Mach-O format assigns to it, and that number is read as that constant; for sets of flags or attributes every subset maps to the union of its bits and back. A number that stands for none of the known constants is never read as one.",
 ["inputs"], "all constants, all subsets of flags and attributes, all byte values of coded fields",
 "Tests use one constant per field and no flag sets.",
 [HDR, SEG, NL, REL, BV],
 [("to_u32/from_u32 pairs", HDR + ", " + SEG + ", " + BV), ("symbol type byte", NL + " NTypeField")],
 [], ["from_*/to_* functions and the records that use them"])

prop("C23", "Instruction byte strings never lose, add or exceed bytes",
 "A bounded byte string built from an integer or an array holds exactly that many bytes, integers in little-endian order, equals another one if and only if both hold the same bytes, and cannot be built past its capacity; the encoding of every instruction has at least 1 and at most 15 bytes.",
 ["inputs"], "all capacities and contents, all instructions",
 "The type has no tests of its own.",
 [BYTES, BC],
 [("length check", BYTES + " with_len, From impls"), ("total length", BC + " to_bytes")],
 [("len", "number of valid bytes", BYTES)],
 ["public operations of the bounded byte string"])

prop("C24", "Printed register names are the names the assembler accepts",
 "Every register of the library prints as its standard x86-64 name, all 64 names (8-, 16-, 32- and 64-bit) are distinct, and a printed 64-, 32- or 16-bit name, used as operand in a source line, denotes the register that printed it; widening a register to its full-width register keeps the register number.",
 ["inputs"], "all 64 registers",
 "No test prints a register; only a handful of names are ever parsed.",
 [REG, REGP],
 [("Display impls", REG), ("name tables", REGP), ("widening", REG + " to_reg64/to_reg32")],
 [], ["Display output and bytes assembled from it"])

prop("C25", "The library reads back the object files it writes",
 "For every object (contents of text, data and zero-fill sections; undefined, absolute and section symbols; relocations to symbols whose names are unique), reading the written file with the library's own readers - header, as many load commands as it announces, then the relocations, symbols and string table those commands point at - succeeds, consumes exactly the announced command area, and yields the same contents, sizes, symbols (name, kind, section, value, scope) and relocations (place, symbol, pc-relative, length).",
 ["inputs"], "all objects",
 "No test writes an object and reads it back; the records are only tested one value at a time.",
 [MACHO, HDR, SEG, NL, REL],
 [("the writer", MACHO + " write_into"), ("the readers", HDR + ", " + SEG + ", " + NL + ", " + REL + ", at-mac/src/string_table.rs")],
 [], ["macho::write_into", "read_from / read_from_in / StringTable::from / get"])

prop("C26", "Records and objects cut short by a stream are never taken for whole",
 "For every record, sequence of load commands and object: reading from a stream that ends or fails before the last byte of a record never yields a record, while the records that are complete before that point are read unchanged; writing into a stream that refuses a byte (by an error or by taking nothing) does not return normally, and what the stream took is a prefix of the record's, sequence's or object's bytes; a stream that delivers or takes every byte, in pieces of any size, gives the whole.",
 ["fault_sequences", "inputs"], "all records and objects, all positions at which a stream ends or fails",
 "Tests read from and write into complete in-memory buffers only.",
 [IO, HDR, SEG, NL, REL, MACHO],
 [("reads and writes of numbers and names", IO), ("record readers and writers", HDR + ", " + SEG + ", " + NL + ", " + REL), ("object writer", MACHO + " write_into")],
 [], ["read_from / read_from_in / write_into on failing streams"])

prop("C27", "The library does the same on machines of either byte order",
 "On a big-endian machine as on a little-endian one: the encoder's instruction bytes are those of the instruction asked for; every record is written in the machine's byte order, with each field at the place Mach-O gives it in a file of that order, and is read back equal; files of either order are read as the same values, the magic number telling whether the file's order is the machine's; sequences of load commands are read back command by command; and an object written by the library is read back as that object.",
 ["inputs", "configurations"], "all records, instructions and objects, both byte orders of the machine",
 "Tests run on one machine; the code for the other byte order is not even compiled.",
 [REL, IO, HDR, "at-x64/src/bytes.rs"],
 [("the variants for big-endian machines", REL + " write_into, " + IO), ("instruction bytes", "at-x64/src/bytes.rs")],
 [], ["the harness on a big-endian machine (Miri, s390x)"])

prop("C28", "Bytes that encode nothing are refused; nothing that does not fit is written",
 "Any bytes are read either as the very record, load command or string table that they encode (so that encoding it again gives these bytes, what lies behind the end of a name aside) or not at all: an unknown command, a coded field with no known meaning, and a command whose declared size is not that of the command with its declared number of entries are refused, while every encoding of a value is read. Values that do not fit (names longer than their field or with a zero byte, relocation symbol numbers and types beyond their bits, strings with zero bytes added to a string table) are refused, never written as another value.",
 ["inputs"], "all byte sequences read as any record type, as load commands or as a string table, in both byte orders; all field values, fitting or not",
 "Tests read only what the library has just written, and write only values that fit.",
 [HDR, LC, SEG, SYMT, DYS, BV, NL, REL, STR, IO],
 [("checks of declared sizes and types", SEG + ", " + SYMT + ", " + DYS + ", " + BV + ", " + LC), ("coded fields", HDR + ", " + NL), ("names and strings", IO + ", " + STR)],
 [], ["read_from / read_from_in / StringTable::from on arbitrary bytes; write_into, push_with_null on arbitrary values"])

prop("C29", "An object beyond the format's offsets or addresses is refused, never mangled",
 "For every object, of whatever size, the object writer either writes a file that a reader takes for exactly that object (contents at the places the headers name, areas disjoint and inside the file, addresses, symbol values and relocations unchanged) or refuses it without returning. It refuses whatever would need a file offset beyond 32 bits or an address beyond 64 bits, and writes every object that has room to spare (contents and tables below 4 GB by 64 kB or more, addresses below 2^63). The assembler does the same for a source of any length, and refuses one that would need a relocation 2 GB or more into its section, which the format's signed 32-bit addresses cannot name.",
 ["inputs"], "all objects: sections of zero up to more than 2^32 bytes, zero-fill sections of up to 2^64 - 1 bytes, symbol offsets and values of all 64 bits",
 "A test with gigabytes of contents is never written, and the offsets only wrap there.",
 [MACHO, OBJ, ONUM, SEG, SYMT, ASM],
 [("size check", MACHO + " check_size"), ("relocation addresses", ASM + " read_from"), ("offset arithmetic", MACHO + " gen_section64s, gen_symtab_command, gen_nlist64s"), ("sizes", OBJ + " SectionRef::file_size, vm_size")],
 [("file layout", "header, commands, section data, relocations, symbols, strings", MACHO + " write_into")],
 ["bytes written by the object writer, or its refusal to return"])

prop("C30", "Nothing depends on how the tools are built",
 "Built with checked arithmetic and debug assertions (cargo's dev profile) or optimised without them (cargo's release profile), the libraries and the command give the same outcome for every request: the same instruction bytes, the same object file for a source or its refusal in both, the same records, commands, tables and values read or the same refusal. In particular no refusal of invalid sources, bytes or values relies on an arithmetic overflow or an assertion that the optimised build does not check, and the optimised build's outcomes satisfy the same specification.",
 ["configurations", "inputs"], "both build profiles; all inputs of the encoder, assembler, object writer, record readers and writers, string tables and the command",
 "The tests run in the dev profile only, where an overflow is a panic; users run the release build.",
 [ASM, LINE, DATA, NUM, ENC, BC, BYTES, MACHO, OBJ, HDR, SEG, BV, NL, REL, STR, IO],
 [("size arithmetic", SEG + ", " + BV + ", " + MACHO), ("number parsing", NUM + ", " + EXPR), ("capacity and width checks", BYTES + ", " + BC + ", " + REL + ", " + IO)],
 [], ["outcomes of the same requests in the two builds"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
