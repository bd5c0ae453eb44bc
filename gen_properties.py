#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the text stays reviewable)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))

LIB = "nxas::assemble() result words"
p("C01", "Every accepted instruction assembles to its Maxwell encoding",
  "For every supported mnemonic, operand form (register, constant buffer, immediate, predicate, system register, texture/image/video/conversion operands) and legal combination of modifiers, the 64-bit instruction word equals the Maxwell encoding: the opcode of exactly the form that was written, every register, predicate, constant-buffer and modifier value in its own field, and the documented default wherever an optional modifier or operand is left out.",
  ["inputs", "programs"], "all 265 instruction forms x every modifier/keyword x every register, predicate, constant-buffer address",
  "The suite checks 1085 fixed single instructions; whole families (LEA, XMAD, SHF, SHR, ISCADD, IADD, PSETP, P2R/R2P, FLO, POPC, SHFL, LDG/STG/LDS/STS/LDL/STL, ATOM(S), RED, SULD/SUST, VMNMX, flow control) have no test at all and most keyword/register values in tested families are never sampled.",
  ["src/table.h", "src/operand.h", "src/helper.cpp", "src/parse.cpp"],
  [("instruction form table", "src/table.h"), ("operand encoders", "src/operand.h"), ("form selection, first match wins", "src/parse.cpp: parse_instruction")],
  [LIB])
p("C02", "Integer immediates are encoded exactly or rejected",
  "For every integer operand of every instruction form, every value inside that operand's range (signed or unsigned, including fields split over two places) is encoded exactly, whatever notation it is written in, and every value outside the range is rejected with an error. No out-of-range or unparsable integer is ever wrapped, truncated, saturated or spilled into another field.",
  ["inputs"], "all integer operands x all 64-bit (and longer) integer literals, boundaries in particular",
  "Tests use a few mid-range values per field; no test places a value on or one past either boundary of most fields, and no test uses a literal beyond 64 bits.",
  ["src/helper.cpp", "src/operand.h", "src/context.cpp"],
  [("range check", "src/helper.cpp: convert_integer"), ("split signed immediate", "src/helper.cpp: assemble_signed_20bit_immediate"), ("literal scanner", "src/context.cpp: tokenize")],
  [LIB, "exit status and stderr"])
p("C03", "Floating-point immediates carry the written value",
  "For every literal (decimal fraction, integer, +/-INF, +/-QNAN) accepted as a floating-point operand, the encoded bits are the sign, exponent and leading mantissa bits of the literal's IEEE value: single precision (full 32 bits, or truncated to 20), double precision truncated to 20 bits, or half precision, rounded to nearest even from the single-precision value (full 16 bits, or truncated to sign plus 9). The sign is kept even for negative zero, and an integer literal that single precision cannot hold exactly is rejected where a single-precision immediate is expected.",
  ["inputs"], "all floating-point operand forms x all literals (subnormal, tie, overflow, huge, tiny, signed zero, INF, QNAN)",
  "Tests use small integers and a handful of simple fractions: no subnormal, rounding tie, overflow to infinity, negative zero, or value outside single-precision range.",
  ["src/helper.cpp", "src/fp16.h", "src/context.cpp"],
  [("float/double/half immediate encoders", "src/helper.cpp"), ("fp32 to fp16 conversion", "src/fp16.h")],
  [LIB, "exit status and stderr"])
p("C04", "Distinct instructions get distinct encodings; fields do not interfere",
  "Two accepted instructions that differ in a meaningful operand, modifier, operand order or form never assemble to the same bits (instruction word plus its scheduling bits), and changing one operand or modifier of an instruction changes only the bits that belong to it, by the same amount whatever the other operands are. No combination of individually legal operands may collide: it is either encoded so that every part is recoverable or rejected.",
  ["inputs"], "all pairs of accepted instructions of a form, single-operand perturbations and cross-form pairs of the same mnemonic",
  "Unit tests compare single encodings with constants; they never relate two encodings to each other and never combine modifiers that share bits.",
  ["src/table.h", "src/operand.h", "src/opcode.h"],
  [("bit collision assertion", "src/opcode.h: opcode::add_bits"), ("field positions", "src/table.h")],
  [LIB])
p("C05", "A guard predicate affects only the guard field, for every instruction",
  "Prefixing any predicable instruction with @Pn, @!Pn, @PT or @!PT sets the 4-bit guard field to that predicate and polarity and leaves every other bit as in the unguarded instruction, and leaving the guard out is the same as writing @PT. Instructions that cannot be predicated (PBK, SSY, CAL, PCNT) accept only an absent or @PT guard; an out-of-range or malformed guard is always rejected.",
  ["inputs"], "all forms x all 16 guards x malformed guards",
  "Tests use guards on a few mnemonics only (@P0 and @!PT), and never on non-predicable instructions.",
  ["src/parse.cpp", "src/context.cpp", "src/table.h"],
  [("guard encoding", "src/parse.cpp: assemble_predicate"), ("NO_PRED check", "src/parse.cpp: parse_insn")],
  [LIB, "exit status and stderr"])
p("C06", "Scheduling annotations land in the right control-word slot",
  "For a program of any length, the control word that opens each group of three instructions holds, for each of the three in order, exactly the stall count, yield flag, write barrier, read barrier, wait mask and register-reuse bits written on that instruction, with the no-barrier/no-stall default for everything not written and for padding slots. Annotations may come in any order; an annotation that is repeated, unknown, or out of range is rejected.",
  ["inputs", "programs"], "all programs x all annotation sets and orders on every slot",
  "The test driver never looks at the control word: it compares only the second word of one-instruction programs.",
  ["src/parse.cpp", "src/nxas.cpp", "src/opcode.h"],
  [("annotation parser", "src/parse.cpp: assemble_sched"), ("control word packing", "src/nxas.cpp: generate_sched")],
  [LIB, "exit status and stderr"])
p("C07", "Programs are laid out as complete groups in source order",
  "The output for n instructions is ceil(n/3) groups of four 64-bit words: one control word followed by three instruction words in source order, with missing instructions of the last group filled by unconditional NOPs and an empty program giving an empty output. Each instruction's word and scheduling bits are the same wherever the instruction stands in whatever program, except for position-relative branch offsets; nothing is dropped, duplicated, reordered or influenced by neighbours or by the other forms tried before it.",
  ["programs"], "all instruction sequences of any length",
  "Every test program has exactly one instruction.",
  ["src/nxas.cpp", "src/parse.cpp", "src/write.cpp"],
  [("group assembly and padding", "src/nxas.cpp: assemble"), ("context/opcode restore between tried forms", "src/parse.cpp: parse_instruction")],
  [LIB])
p("C08", "Branches reach exactly the label or address they name",
  "For every flow instruction that takes a target (BRA, PBK, SSY, CAL, PCNT) at any position of any program, the encoded signed 24-bit offset equals the target's address minus the address following the branch, where a label's address is that of the instruction that follows it (control words included) and a number is an absolute address. Forward and backward references, several labels on one address and labels at the end of the program all resolve; an undefined label or a target outside the 24-bit range is rejected.",
  ["programs"], "all programs with labels on any instruction and branches between any two positions",
  "Only 'foo: BRA foo' in a one-instruction program is tested; no test crosses a group boundary or refers forward.",
  ["src/context.cpp", "src/operand.h", "src/parse.cpp"],
  [("label prepass", "src/context.cpp: generate_labels"), ("relative offset", "src/operand.h: label"), ("program counter", "src/parse.cpp: parse_instruction")],
  [LIB, "exit status and stderr"],
  [("pc", "address of the next instruction, skipping control words", "src/context.h")])
p("C09", "The dksh container is self-consistent and describes the program",
  "For every program assembled with '.dksh compute', the output starts with a DKSH header whose sizes and offsets describe the file exactly (control section and code section each 256-byte aligned and filling the whole file), whose program record carries the type, the entry point of the label 'main' (relative to the code, group aligned), the register count, workgroup size, shared and local memory sizes (rounded up to their alignment), per-warp scratch size and zeroed unused fields, and whose code section is exactly the raw program followed by zero padding.",
  ["programs", "configurations"], "all compute programs x all directive values x all code lengths",
  "No test produces a dksh file; src/dksh.cpp and the padding code have no coverage.",
  ["src/dksh.cpp", "src/write.cpp", "src/options.cpp"],
  [("header writer", "src/dksh.cpp: write_dksh"), ("padding", "src/write.cpp: context::binary")],
  [LIB])
p("C10", "Directives are honoured or rejected, never ignored or misread",
  "Every directive (.dksh, .type, .num_gprs, .workgroup_size, .shared_memory, .local_memory) written on its own line takes effect regardless of its order and place among other directives and labels, and does not alter any instruction of the program. Unknown directives, wrong or missing arguments, values that do not fit, trailing text, a second program type, a missing or misaligned 'main', and program kinds that cannot be written are rejected with an error.",
  ["configurations", "inputs"], "all directive sequences, argument values and placements",
  "No test uses a directive.",
  ["src/options.cpp", "src/dksh.cpp", "src/write.cpp", "src/parse.cpp"],
  [("directive parser", "src/options.cpp: parse_option")],
  [LIB, "exit status and stderr"])
p("C11", "Meaning does not depend on layout or literal notation",
  "Rewriting a program without changing its tokens (any spaces, tabs, CR or LF between tokens, several statements on a line or one over many lines, labels on their own line or before a statement, renamed labels) or respelling a token without changing its value (decimal, hexadecimal in either case, octal, leading sign or zeros, leading zeros in register numbers, lower-case predicates, @Y or @YIELD, PT written out, default keywords written out) gives identical output, and a program rejected in one spelling is rejected in the other.",
  ["programs", "inputs"], "all programs x all equivalent respellings",
  "Each test instruction has one canonical spelling on one line.",
  ["src/context.cpp", "src/parse.cpp"],
  [("tokenizer", "src/context.cpp: tokenize")],
  [LIB, "exit status and stderr"])
p("C12", "Malformed statements are never accepted",
  "A statement that does not match one of the supported forms token for token (unknown mnemonic or modifier, modifier in the wrong place or repeated, missing, extra, swapped or wrong-kind operand, missing comma, bracket, bar or semicolon, negation, absolute value or complement where the operand has none, register or predicate number out of range, stray text or a label inside the statement) is rejected: the assembler fails and produces no output. It is never assembled as some other instruction, and no written token is ever silently ignored.",
  ["inputs"], "all token-level mutations of valid statements, and arbitrary token sequences",
  "25 failure tests sample a few error kinds, mostly on NOP and F2F.",
  ["src/parse.cpp", "src/operand.h", "src/helper.cpp", "src/context.cpp"],
  [("form matching to the semicolon", "src/parse.cpp: parse_insn"), ("keyword lookup", "src/helper.cpp: find_in_table")],
  ["exit status and stderr", LIB])
p("C13", "Any input ends in a result or a clean error, never in a crash",
  "For any source text whatsoever (arbitrary bytes, including NUL and non-ASCII, any length or nesting), assembling terminates and either returns a result or exits with a failure status after printing a non-empty error message. It never aborts, crashes, fails an internal assertion, hangs, or performs an out-of-bounds access or other undefined behaviour.",
  ["inputs"], "all byte strings",
  "Tests feed 1110 short ASCII lines without sanitizers; internal assertions guard user-reachable states.",
  ["src/context.cpp", "src/parse.cpp", "src/operand.h", "src/helper.cpp", "src/nxas.cpp", "src/options.cpp", "src/dksh.cpp"],
  [("error paths", "src/error.cpp"), ("instruction count", "src/nxas.cpp: assemble"), ("bit collision assertion", "src/opcode.h")],
  ["process exit status, stderr, sanitizer reports"])
p("C14", "Errors name the file, line and column of the offending text",
  "When a statement is rejected, the message printed on standard error starts with the given file name and the 1-based line and column of the token at fault (for an unknown mnemonic, a malformed literal, an out-of-range register or predicate, a bad value or an undefined label: that very token; tabs advance the column by four), and the program exits with a failure status having printed nothing on standard output. Valid statements, labels, directives and blank lines before the error do not disturb the position.",
  ["inputs", "programs"], "all programs with one injected error at any statement, line and column",
  "Failure tests accept any non-zero exit and never read the message.",
  ["src/error.cpp", "src/context.cpp", "src/parse.cpp"],
  [("line/column tracking", "src/context.cpp: next"), ("message formatting", "src/error.cpp: fail, fatal_error"), ("best error selection", "src/parse.cpp: parse_instruction")],
  ["stderr, exit status"])
p("C15", "The command line tool writes exactly the assembled program or fails",
  "'nxas <input> -o <output>' (arguments in either order) exits 0 only if the output file holds exactly the assembled words of the whole input in little-endian order, replacing what was there. On any failure (bad or missing arguments, unreadable input, assembly error, output that cannot be opened or written completely) it exits non-zero with a message, and when the failure is not in writing itself it neither creates nor modifies the output file.",
  ["inputs", "fault_sequences"], "all argument lists, input files and output write faults (full device, size limit at any byte)",
  "The command line program is not exercised by any test.",
  ["src/command_line.cpp"],
  [("argument loop, file reading and writing", "src/command_line.cpp: main, read_file")],
  ["exit status, output file, stderr"])
p("C16", "Assembling is a pure function of the source text",
  "The result of assembling a text depends only on that text: it is the same on every call, whatever was assembled before in the process, whatever file name is given, wherever the text lies in memory, whatever locale the process has set and whatever other threads are assembling at the same time. Calls do not modify their input.",
  ["histories", "schedules"], "all histories of calls in a process, sequential and concurrent",
  "Each test process makes exactly one call.",
  ["src/nxas.cpp", "src/context.cpp", "src/parse.cpp", "src/table.h"],
  [("all state is in the per-call context", "src/context.h"), ("constant tables", "src/table.h, src/operand.h")],
  [LIB])
p("C17", "Memory addresses and constant-buffer operands are encoded exactly",
  "For every memory, attribute and constant-buffer operand (global, local, shared, atomic, surface, LDC, ALD/AST, c[bank][offset]) the base register (RZ when left out), bank and byte offset are all recoverable from the encoding: positive, negative and zero offsets, with or without base register, are stored exactly in the operand's signed or unsigned field. An offset or bank that is out of range, or not a multiple of the unit the field counts in, is rejected rather than rounded or wrapped, and a negative offset without a base register is rejected.",
  ["inputs"], "all addressing operands x base registers x offsets (boundaries, misaligned, negative)",
  "No test uses a load, store, atomic or surface instruction; constant-buffer tests use small aligned offsets.",
  ["src/operand.h", "src/helper.cpp"],
  [("memory operand", "src/operand.h: memory::address"), ("attribute operands", "src/operand.h: ald"), ("constant buffer operand", "src/helper.cpp: assemble_constant_buffer")],
  [LIB, "exit status and stderr"])
p("C18", "Register reuse hints are recorded per operand slot or rejected",
  "Writing .reuse after a source register sets exactly that operand slot's reuse bit for that instruction (first, second or third source slot) and changes nothing in the instruction word or in other instructions' scheduling bits, alone or combined with any other modifiers and annotations. On destinations and other registers that have no reuse slot it is rejected.",
  ["inputs", "programs"], "all forms x all subsets of register operands carrying .reuse x all positions in a group",
  "No test writes .reuse and no test looks at the control word.",
  ["src/helper.cpp", "src/opcode.h", "src/nxas.cpp"],
  [("reuse flag", "src/helper.cpp: try_reuse"), ("packing", "src/nxas.cpp: generate_sched")],
  [LIB, "exit status and stderr"])
with open("/verif/properties.jsonl", "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
