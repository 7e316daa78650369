#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the wording is reviewable)."""
import json, os
P = []


def p(id, title, statement, over, qtext, why, files, mech):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech])))


X = 'at-x64/src/'
M = 'at-mac/src/'
O = 'at-obj/src/'
S = 'at-asm/src/'

p('C01', 'Register identity: number, extension bit, widening and name agree',
  'Every general-purpose register of every width has the hardware register number and the high-register flag that the x86-64 manual gives it, no two registers of one width share them, and its widened form is the same hardware register. The printed name of a register is its standard assembler name.',
  ['inputs'], 'all 16 registers of each of the 4 widths',
  'The suite touches a handful of registers through a few encodings; a slip in one register of one width is not sampled.',
  [X + 'reg.rs'], [('register code tables', X + 'reg.rs Register::register_code / is_extended'), ('widening', X + 'reg.rs Reg::to_reg64, to_reg32'), ('Display impls', X + 'reg.rs')])
p('C02', 'Register and immediate instructions encode to exactly themselves',
  'For every operand combination of register-to-register moves, immediate moves, pushes, pops, return and system call that the instruction library accepts, the emitted bytes are one valid x86-64 instruction that a decoder reads back as the same operation, operand size, registers and immediate value, with nothing left over.',
  ['inputs'], 'all registers of all widths, all immediate values of each width',
  'Tests check a few literal byte strings; the operand space is 2^64 immediates times 256 register pairs.',
  [X + 'instruction/mov.rs', X + 'instruction/push.rs', X + 'instruction/pop.rs', X + 'instruction/ret.rs', X + 'instruction/syscall.rs', X + 'encoder/mod.rs', X + 'encoder/bytecode.rs'],
  [('Mov/Push/Pop/Ret/Syscall encoders', X + 'instruction/*.rs Instruction::bytes'), ('prefix and ModRM assembly', X + 'encoder/')])
p('C03', 'Memory operands encode to the address the operand describes',
  'For every memory operand (base register plus displacement, instruction-pointer relative, or scaled index with or without base) used in a move to memory or an address load, the emitted bytes decode to an access with the same base, index, scale and displacement and the same other register. This includes the registers whose encodings are special and every displacement value.',
  ['inputs'], 'all base and index registers, all scales, all 32-bit displacements, all source/destination registers',
  'The suite samples a few displacements; boundary values at the short/long displacement switch and the special base registers are where encoders fail.',
  [X + 'mem.rs', X + 'instruction/mov.rs', X + 'instruction/lea.rs', X + 'encoder/mod.rs', X + 'encoder/bytecode.rs'],
  [('addressing-form choice', X + 'encoder/ and ' + X + 'mem.rs'), ('operand constructors', X + 'mem.rs Mem64::reg, reg_offset, rip_offset, sib')])
p('C04', 'The reported immediate position is where the immediate really is',
  'For every immediate move that reports the byte offset of its immediate, writing a value of the immediate\'s width at that offset of the emitted bytes is the same as having encoded that value, and the immediate is the last thing in the instruction.',
  ['inputs'], 'all registers, all immediate values, both operand sizes',
  'The number is used by the assembler to place relocations; tests only check it for one or two registers.',
  [X + 'instruction/mov.rs'], [('offset_to_imm_bytes', X + 'instruction/mov.rs')])
p('C05', 'Encoding is total and bounded by the architectural length limit',
  'Encoding any constructible instruction value terminates without panicking or overflowing its buffer and yields between 1 and 15 bytes.',
  ['inputs'], 'all instruction values constructible through the public interface',
  'Buffer-capacity overflow or arithmetic overflow shows only for the longest forms.',
  [X + 'bytes.rs', X + 'instruction/mod.rs', X + 'encoder/mod.rs'], [('fixed-capacity byte buffer', X + 'bytes.rs BytesAtMost'), ('Instruction::bytes', X + 'instruction/mod.rs')])
p('C06', 'Mach-O record writers emit the documented layout and declared size',
  'Writing a Mach-O header, segment, section, symbol-table, dynamic-symbol-table, build-version, symbol or relocation record emits exactly its declared number of bytes, with each field at the offset and width that the Mach-O file format prescribes.',
  ['inputs'], 'all field values of all record kinds',
  'Round-trip tests on one sample cannot see a pair of fields swapped in both directions, nor a field whose sample value is zero.',
  [M + 'header.rs', M + 'load_command/segment64.rs', M + 'load_command/symtab.rs', M + 'load_command/dysymtab.rs', M + 'load_command/build_version.rs', M + 'nlist.rs', M + 'reloc.rs'],
  [('write_into methods and SIZE constants', M + '**')])
p('C07', 'Mach-O record readers take each field from its documented position',
  'Reading a Mach-O record takes every field from the offset and width prescribed by the file format in the file\'s byte order, and consumes exactly the record\'s size, in both byte orders.',
  ['inputs'], 'all record bytes, both byte orders',
  'Tests read one little-endian object produced by one compiler; big-endian reading and most field values are never exercised.',
  [M + 'header.rs', M + 'load_command/', M + 'nlist.rs', M + 'reloc.rs', M + 'io.rs'], [('read_from_in methods', M + '**'), ('Endian dispatch', M + 'io.rs')])
p('C08', 'Mach-O records survive writing followed by reading',
  'Any record value that the writers accept is returned unchanged when the written bytes are read back in native byte order.',
  ['inputs'], 'all record values representable in the format',
  'The suite round-trips fixed samples only.',
  [M + 'header.rs', M + 'load_command/', M + 'nlist.rs', M + 'reloc.rs'], [('write_into / read_from_in pairs', M + '**')])
p('C09', 'Enumerated Mach-O codes match the format; unknown codes are refused',
  'Every named code (magic, CPU type and subtype, file type, header flag, section type and attribute, platform, tool, symbol type) is written as and recognised from the number the Mach-O format assigns to it, and a number with no named meaning is never turned into some other named meaning.',
  ['inputs'], 'all 2^32 (or 2^8) raw codes in both directions',
  'Each table has up to dozens of entries; tests touch those in one sample file.',
  [M + 'header.rs', M + 'load_command/segment64.rs', M + 'load_command/build_version.rs', M + 'nlist.rs'],
  [('from_u32/to_u32 style conversions', M + 'header.rs, load_command/*.rs, nlist.rs')])
p('C10', 'Packed bit fields keep every component separate and in place',
  'Relocation info words, symbol type bytes, section flag words, header flag words and packed version numbers put each component into the bits the format assigns to it and read it back from the same bits, with no component leaking into another, in either byte order.',
  ['inputs'], 'all component values within their bit widths, both byte orders',
  'Bit-packing slips appear only for values that use the top bits of a component.',
  [M + 'reloc.rs', M + 'nlist.rs', M + 'load_command/segment64.rs', M + 'load_command/build_version.rs', M + 'header.rs'],
  [('RelocationInfo packing', M + 'reloc.rs'), ('NTypeField', M + 'nlist.rs'), ('section flags', M + 'load_command/segment64.rs'), ('Flags', M + 'header.rs')])
p('C11', 'Load commands are dispatched by code and sized consistently',
  'A load command is written with the code of its kind and a size equal to the bytes that follow through its end, including nested section or tool entries; reading recognises the kind from the code alone, reads exactly that many bytes and the declared number of nested entries, and refuses codes it does not know.',
  ['inputs'], 'all load command kinds, all field values, any number of nested entries explored up to the stated bound',
  'One sample object contains one command of each kind with a fixed number of nested entries.',
  [M + 'load_command/mod.rs', M + 'load_command/segment64.rs', M + 'load_command/build_version.rs'],
  [('LoadCommand::read_from_in / write_into / cmd_size', M + 'load_command/mod.rs')])
p('C12', 'String table: stored strings are retrievable at the returned index',
  'A string added to a string table starts at the length the table had before, and from then on looking that position up returns exactly that string whatever is added later; the raw bytes of the table are the added strings each followed by one zero byte.',
  ['inputs', 'histories'], 'all sequences of additions (explored up to the stated number) of strings with arbitrary bytes other than zero',
  'Tests push two fixed strings.',
  [M + 'string_table.rs'], [('push_with_null/get/iter', M + 'string_table.rs')])
p('C13', 'Fixed-width names are zero padded and never overflow or truncate',
  'Segment and section names of up to 16 ASCII characters (other than zero) are stored as exactly 16 bytes, the name followed by zero bytes, and read back as the same name.',
  ['inputs'], 'all ASCII names of 0 to 16 characters',
  'Only names that happen to occur in the sample are tested; the 16-byte boundary case has no terminator at all.',
  [M + 'load_command/segment64.rs', M + 'io.rs'], [('name padding and trimming', M + 'load_command/segment64.rs, ' + M + 'io.rs')])
p('C14', 'Every offset, size and count in an object file describes that file',
  'In every object file written, the load command count and size, section data offsets, relocation offsets and counts, symbol table offset and count and string table offset and size are those of the data actually found at those positions, and the regions do not overlap or run past the end of the file.',
  ['inputs'], 'all objects with any combination of sections, section contents of any length, and numbers of relocations and symbols up to the stated bound',
  'Offsets depend on sums of aligned sizes; tests check two objects with fixed lengths.',
  [O + 'macho.rs', O + 'num.rs'], [('layout computation gen_*', O + 'macho.rs'), ('aligned/padding', O + 'num.rs')])
p('C15', 'Section and segment geometry is consistent',
  'Sections of a written object are laid out one after another in the segment without overlap at increasing addresses that respect their alignment, carry the name, kind, attributes, size and alignment of what they hold, uninitialised sections occupy address space but no file space, and the segment\'s memory size covers them all and is at least its file size.',
  ['inputs'], 'all objects, all section lengths',
  'Depends on sums of arbitrary lengths modulo the alignment.',
  [O + 'macho.rs', O + 'object.rs'], [('gen_segment_command64 / gen_section64s', O + 'macho.rs'), ('Sections::iter', O + 'object.rs')])
p('C16', 'Symbol table entries denote exactly the symbols of the object',
  'Each symbol of an object (names distinct) appears in the written symbol table exactly once, with its own name, the number of the section that holds it (or none), an address equal to that section\'s address plus the symbol\'s offset, and the external flag exactly when it was marked external; no other symbols appear.',
  ['inputs'], 'all objects with any combination of sections, symbol names and addresses, with numbers of symbols up to the stated bound',
  'Needs several sections with several symbols each, with absent sections in between; tests use one.',
  [O + 'macho.rs', O + 'object.rs'], [('gen_nlist64s', O + 'macho.rs'), ('gen_string_table', O + 'macho.rs')])
p('C17', 'Relocation entries name the right place and the right symbol',
  'Each relocation of a section is written once, in that section\'s relocation table, with its own address, length and pc-relative flag, marked external, and with the index of the symbol it names in the written symbol table.',
  ['inputs'], 'all objects, any number of symbols and relocations up to the stated bound, all addresses',
  'The index is a position in a list built elsewhere; tests have one relocation naming one symbol.',
  [O + 'macho.rs'], [('gen_relocation_infos', O + 'macho.rs')])
p('C18', 'Section contents reach the file unchanged and in full',
  'The bytes found in the written object at a section\'s declared file position are exactly the bytes put into that section, in order and in full, for every section with content; the gaps between are zero.',
  ['inputs'], 'all section contents of any length',
  'Lengths not sampled by tests decide the padding.',
  [O + 'macho.rs'], [('section data writing', O + 'macho.rs write_into')])
p('C19', 'A label denotes the position of what follows it',
  'In the assembled object the address of every label, whether on a line of its own or in front of data, is the position in its section of the first byte emitted after it.',
  ['programs'], 'programs built from the statement forms of the language up to the stated number of lines, with arbitrary operands and data lengths',
  'Depends on the lengths of all preceding statements and section switches.',
  [S + 'assembler.rs', S + 'parsers/line.rs'], [('Line::Symbol and Line::Data handling', S + 'assembler.rs')])
p('C20', 'Statements are emitted to the selected section in source order',
  'Every instruction and data statement contributes its bytes to the section selected by the nearest preceding section directive (the text section if none), after everything already emitted there, and to no other section.',
  ['programs'], 'programs up to the stated number of lines with interleaved section directives',
  'Needs interleavings of section switches; tests have one data and one text stretch.',
  [S + 'assembler.rs'], [('cur_sect_mut', S + 'assembler.rs')])
p('C21', 'Exactly the symbols declared global are external',
  'A symbol is external in the output if and only if a global directive names it exactly, wherever that directive stands relative to the definition and whichever section defines the symbol.',
  ['programs'], 'programs up to the stated number of lines, arbitrary symbol names',
  'The order of directive and definition, and similar names, are not varied by tests.',
  [S + 'assembler.rs', S + 'parsers/global_symbol.rs'], [('ext_symbols post-pass', S + 'assembler.rs')])
p('C22', 'A symbolic operand becomes one relocation at its immediate field',
  'An instruction whose immediate is a symbol name emits a zero immediate and exactly one relocation in its section, located at that immediate field, of that width, absolute, naming that symbol; instructions and data without symbolic operands emit none.',
  ['programs'], 'symbolic moves to all registers at arbitrary positions in the section',
  'The position depends on preceding code and on the encoding chosen.',
  [S + 'assembler.rs', S + 'parsers/instruction/mov.rs'], [('LocalReloc to Reloc', S + 'assembler.rs'), ('symbolic operand', S + 'parsers/instruction/mov.rs')])
p('C23', 'Instruction text assembles to the instruction it denotes',
  'Every instruction line of the supported forms assembles to bytes that decode to the written operation with the written registers and the written immediate value; an immediate that the operand cannot represent is refused rather than altered.',
  ['programs', 'inputs'], 'all register names, all numeric operands, all supported mnemonics',
  'Immediate ranges are 2^64 wide and the boundary behaviour (sign extension) is not sampled.',
  [S + 'parsers/instruction/mod.rs', S + 'parsers/instruction/mov.rs', S + 'parsers/instruction/push.rs', X + 'instruction/'],
  [('per-mnemonic parsers', S + 'parsers/instruction/')])
p('C24', 'Register names map to their own register and nothing else does',
  'Each standard register name in an operand denotes that register at that width, and no other word is taken for a register.',
  ['inputs'], 'all words (every byte string up to the stated length)',
  'Tables of 48 names; tests use three of them, and never a near miss.',
  [S + 'parsers/reg.rs'], [('name tables', S + 'parsers/reg.rs')])
p('C25', 'Data directives emit exactly the listed values',
  'A data directive emits its items in order, numbers in little-endian form at the directive\'s width and strings as their bytes zero padded up to a multiple of that width; a number that does not fit the width is refused.',
  ['programs', 'inputs'], 'all four widths, all numbers, strings of arbitrary content and length, lists of items up to the stated bound',
  'Numbers and string lengths are sampled at one or two points.',
  [S + 'parsers/data.rs'], [('write_num / write_str / item splitting', S + 'parsers/data.rs')])
p('C26', 'Numeric literals and sums have their arithmetic value',
  'Decimal and hexadecimal literals that fit 64 bits denote their value and larger ones are never assembled, and a sum or difference of two literals denotes the result modulo 2^64 without crashing.',
  ['inputs'], 'all literals and all pairs of literals',
  'Overflow behaviour is at the edge of a 128-bit space.',
  [S + 'parsers/num.rs', S + 'parsers/expr.rs'], [('from_str_radix', S + 'parsers/num.rs'), ('Expr', S + 'parsers/expr.rs')])
p('C27', 'No part of a statement is silently ignored',
  'If a line carries anything beyond a complete statement (other than white space, item separators or a comment) the assembler refuses it; it never assembles a statement while ignoring trailing text.',
  ['programs', 'inputs'], 'all statement forms followed by an arbitrary extra word',
  'Tests contain only well-formed lines, apart from one section directive.',
  [S + 'parsers/line.rs', S + 'parsers/instruction/', S + 'parsers/expr.rs', S + 'parsers/section.rs', S + 'parsers/global_symbol.rs'],
  [('end-of-line checks', S + 'parsers/')])
p('C28', 'A bad line stops assembly with its line number and failure status',
  'When a line cannot be parsed (or puts bytes into an uninitialised section) the assembler reports an error that carries that line\'s number (counting every line from 1) and ends with a nonzero status without producing output; if every line is accepted it reports nothing and succeeds.',
  ['programs'], 'an unrecognised line at each position of programs up to the stated length',
  'No test covers an error exit.',
  [S + 'assembler.rs', S + 'main.rs'], [('error exit', S + 'assembler.rs read_from')])
p('C29', 'The output file is only touched after successful assembly',
  'The output path is created, truncated or written only after the whole input has been read and accepted, and on success it holds exactly the assembled object and nothing else.',
  ['crash_points', 'inputs', 'fault_sequences'], 'every path through the program from start to exit',
  'Needs a failing input together with a pre-existing output file; the command-line program has no tests.',
  [S + 'main.rs'], [('main', S + 'main.rs')])
p('C30', 'Command line: input and output paths are the ones given',
  'The program reads the one input path given and writes the path given by the output option, or the input path with the object suffix in place of its last extension when there is none; unusable command lines (no input, several inputs, an output option without a path) are refused without touching files.',
  ['inputs', 'configurations'], 'argument lists of every shape up to the stated length',
  'The command-line program has no tests.',
  [S + 'main.rs'], [('Config', S + 'main.rs')])
p('C31', 'Output depends only on the input',
  'No source of nondeterminism (clock, randomness, hash iteration order, environment variables, thread identity, addresses) can influence assembled output; assembling the same input twice gives the same bytes.',
  ['programs', 'histories'], 'every function reachable from the program entry and the library entry points',
  'A test cannot show the absence of a nondeterministic source.',
  [S + 'main.rs', S + 'assembler.rs', O + 'macho.rs'], [('call graph from the entry points', 'all crates')])
p('C32', 'Input/output failures are never swallowed or half done',
  'If any read or write of the underlying streams fails or is short at any point, the operation does not complete as if it had succeeded: either it propagates the failure or it aborts.',
  ['fault_sequences'], 'a failure at every individual input or output call on every path',
  'No test injects an I/O failure.',
  [M + '**', O + 'macho.rs', S + 'main.rs', S + 'reader.rs', S + 'assembler.rs'], [('every Read/Write call site', 'all crates')])
p('C33', 'White space, blank lines and comments do not change meaning',
  'Changing the amount of white space (blanks and tabs) between the tokens of a line, adding blank lines, or adding a comment at the end of a line does not change the assembled object.',
  ['programs'], 'all statement forms with white space runs of any length and arbitrary comment text',
  'Tests contain a fixed spacing.',
  [S + 'parsers/line.rs'], [('comment stripping and tokenisation', S + 'parsers/')])
p('C34', 'Assembled programs link and run with the described behaviour',
  'An object produced from a program, linked by the system linker, yields an executable whose observable behaviour is that of the source program.',
  ['programs'], 'all programs', 'Depends on an external linker, loader and CPU.',
  [S + 'assembler.rs', O + 'macho.rs'], [('whole pipeline', 'all crates')])
p('C35', 'Time and memory stay proportional to the input size',
  'Assembling a source file takes time and memory bounded by a low polynomial of its size and never exhausts the stack.',
  ['inputs'], 'all input sizes', 'Tests use tiny inputs.',
  [S + 'assembler.rs', O + 'macho.rs'], [('whole pipeline', 'all crates')])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['id']
        f.write(json.dumps(x, ensure_ascii=False) + '\n')
print(len(P))
