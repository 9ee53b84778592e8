#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script because JSON lines are unreadable to edit)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, title
    P.append(d)
ONLY = "The repository's only test checks page alignment of fourteen addresses; "

# ---------------------------------------------------------------- CPU
p("C01", "Arithmetic and logic instructions compute the right result and flags",
  "For every arithmetic/logic instruction in both widths, every operand value and every choice of registers (aliases, r0 and the special registers included), the destination receives the two's-complement result: add, sub, and, or, xor; shl, asr, lsr with the shift count taken modulo the operand width; mul gives the full double-width product, high half in the first destination and low half in the second; div gives quotient then remainder. Zero and sign describe the (for mul: low half of the) result, carry is unsigned carry/borrow (for mul: high half non-zero), overflow is signed overflow (for mul: same as carry), logic operations and shifts clear carry and overflow, and div leaves the flags alone or, with divisor 0, traps with the zero-division mode. Nothing else - no other register, no memory, no mode flag - changes.",
  ["inputs"], "all opcodes 41-54, all register combinations, all operand values and prior flags",
  ONLY + "no instruction is ever executed by a test, and results depend on every operand value, register alias and width.",
  ["src/blf4/isa/handlers.rs", "src/blf4/mod.rs"],
  [("binop_b/binop_w and the per-op closures", "src/blf4/isa/handlers.rs"), ("mul_*/div_*", "src/blf4/isa/handlers.rs")],
  ["register file, flags and memory after one executed instruction"])
p("C02", "Byte and wide registers are consistent views of one register file",
  "After any sequence of register writes, r1-r5 expose their halves as -l/-h byte registers that each change only their own half, r6-r10 expose their low byte as -b and a byte write clears the high half, r0/r0b always read zero, and wide reads see exactly the combined bytes. The special registers rs, rl, rf, rp, rh hold what was last written to them and never alias a general register.",
  ["histories", "inputs"], "all sequences of byte/wide register writes and reads through instructions and through the debugger-facing register accessors",
  ONLY + "aliasing faults appear only for particular register pairs after particular write histories.",
  ["src/blf4/mod.rs", "src/blf4/register_type.rs"],
  [("general_purposes byte array indexing in read_br/write_br/read_wr/write_wr", "src/blf4/mod.rs")],
  ["all 16 byte and 16 wide registers after every write"])
p("C03", "Conditional jumps decide exactly the relation their mnemonic names",
  "After subtracting two values of either width, jez/jnz/jlt/jle/jgt/jge are taken exactly when the first operand is equal/unequal/less/less-or-equal/greater/greater-or-equal to the second as signed numbers, and jb/jae/ja/jbe exactly for the corresponding unsigned relation; jo/jno follow signed overflow. Over every flag combination each jump and its opposite are complementary, a taken jump goes to its immediate target, and a jump not taken goes to the next instruction, with no other effect.",
  ["inputs"], "all pairs of operands of both widths, all flag combinations, all jump targets",
  ONLY + "no jump is executed by any test; the wrong condition only shows for particular operand pairs.",
  ["src/blf4/isa/handlers.rs"],
  [("jez..jbe and jif", "src/blf4/isa/handlers.rs"), ("sub_b/sub_w flag computation", "src/blf4/isa/handlers.rs")],
  ["program counter after the jump"])
p("C04", "Instruction decoding: lengths, operand order and rejection of bad encodings",
  "Every opcode has one fixed encoding: opcode byte, then register nibbles high-first, then a little-endian immediate; executing it consumes exactly that many bytes and uses exactly those operands. Every opcode byte that is not an instruction, every non-zero padding nibble and every undefined load-immediate/jump option traps with the invalid mode and leaves registers and memory alone. jmp, call and ret set the program counter (and link register or stack pointer) as documented.",
  ["inputs"], "all instruction byte sequences at all addresses and CPU states",
  ONLY + "the 256 x 2^24 encodings are never decoded by a test.",
  ["src/blf4/isa/mod.rs", "src/blf4/isa/handlers.rs", "src/blf4/mod.rs"],
  [("OP_HANDLERS dispatch table", "src/blf4/isa/handlers.rs"), ("arg_pair/arg_imm_byte/arg_imm_wide", "src/blf4/isa/handlers.rs"), ("fetch", "src/blf4/mod.rs")],
  ["program counter, registers, trap mode after one step"])
p("C05", "Loads, stores and the stack move exactly the addressed bytes",
  "A load or store touches exactly the byte or little-endian pair of bytes at base plus offset (addresses wrap modulo 2^16, so negative offsets work) and changes nothing else. Push first lowers the stack pointer by the operand size and then writes there, pop reads and then raises it, so any interleaving of byte and wide pushes and pops behaves like a byte stack in memory; ret n raises it by n.",
  ["histories", "inputs"], "all sequences of load/store/push/pop/call/ret over all register contents and addresses in direct mode",
  ONLY + "memory effects depend on address arithmetic wrap-around and operation history.",
  ["src/blf4/isa/handlers.rs", "src/blf4/mod.rs"],
  [("load_*/store_* handlers", "src/blf4/isa/handlers.rs"), ("pushw/pushb/popw/popb, read_wide/write_wide", "src/blf4/mod.rs")],
  ["whole memory and register file after each instruction"])
p("C06", "Virtual memory translates, checks permissions and marks pages dirty",
  "With virtual mode on, every fetch, read and write reaches exactly the physical byte selected by the two-level table as it is at that moment (4-bit, 5-bit, 7-bit split), and is allowed only if both entries are present, carry the X, R or W permission for the kind of access and, in user mode, the U permission; otherwise the access traps with a fault naming a violated condition (level-1 fault, level-2 fault, illegal read/write/execute, illegal operation) and the data is neither read nor changed. A successful write sets the dirty flag in both entries on its path and no access changes any other bit of any table entry. Wide accesses translate each of their two bytes separately.",
  ["inputs", "histories"], "all page tables, addresses, access kinds and modes, and sequences of accesses through them",
  ONLY + "translation depends on two table entries, the mode and on which pages were touched before.",
  ["src/blf4/mod.rs"],
  [("addr_resolve/read_entry", "src/blf4/mod.rs"), ("dirty flag update", "src/blf4/mod.rs")],
  ["trap mode, physical memory and table bytes after each access"])
p("C07", "User-mode code is confined",
  "While it stays in user mode, no sequence of instructions can change the page-table pointer, the trap-handler pointer, the addressing mode or leave user mode other than by trapping, nor read those two registers or use the privileged instructions, which trap with the illegal-operation mode. It can change physical memory only in pages mapped user-writable (plus dirty flags), and its execution does not depend on the content of memory it has no user-readable or user-executable mapping for.",
  ["programs", "inputs"], "all user-mode instruction sequences over all page tables and memory contents",
  ONLY + "confinement quantifies over every program an untrusted user could run.",
  ["src/blf4/mod.rs", "src/blf4/isa/handlers.rs"],
  [("user_mode checks in read_wr/write_wr, read_entry and privileged handlers", "src/blf4/mod.rs, src/blf4/isa/handlers.rs")],
  ["privileged registers, mode flags, physical memory, and lock-step of two runs differing in inaccessible memory"])
p("C08", "Traps reach the handler with full state saved, and returning restores it",
  "With a trap handler installed, every trap (including one raised while fetching the instruction itself) enters the handler in supervisor mode with the trap mode in r1 and every other general register unchanged, having pushed the interrupted state below the stack pointer. Executing the handler-return instruction with the trap flag set restores every register, the arithmetic, user-mode and virtual-mode flags as they were when the trap occurred, clears the trap flag and continues at the interrupted program counter; without the trap flag it traps with the illegal-handler-return mode. With no handler installed the machine stops reporting the trap mode.",
  ["inputs", "histories", "fault_sequences"], "all trapping instructions, CPU states, modes and handler bodies that preserve the frame",
  ONLY + "trap entry and return are never exercised; state loss shows only across a trap/return pair.",
  ["src/blf4/mod.rs", "src/blf4/isa/handlers.rs"],
  [("execute_instruction trap path", "src/blf4/mod.rs"), ("push_registers/pop_registers", "src/blf4/mod.rs"), ("reth", "src/blf4/isa/handlers.rs")],
  ["CPU state and memory at handler entry and after return"])
p("C09", "No guest program can crash the emulator",
  "Whatever bytes are executed, from whatever registers, flags, memory, page tables and installed handlers, each emulated step either completes or reports a trap; the emulator itself never aborts or panics. The same start state always leads to the same sequence of states.",
  ["programs", "inputs", "histories"], "all byte strings executed as code from all machine states",
  ONLY + "crashes need wrap-around addresses, odd shift counts or extreme stack pointers that samples do not reach.",
  ["src/blf4/mod.rs", "src/blf4/isa/handlers.rs", "src/mem.rs", "src/machine/mod.rs"],
  [("wrapping 16-bit arithmetic in fetch, stack and address computation", "src/blf4/mod.rs, src/blf4/isa/handlers.rs")],
  ["absence of panics; equality of two runs"])
p("C10", "Programs behave as the composition of the documented instructions",
  "Running any program for any number of steps, in direct or virtual mode and in user or supervisor mode, gives the same registers, flags, memory, I/O history and trap as executing the documented instruction semantics one at a time.",
  ["programs", "histories"], "all instruction sequences with branches, calls, stack use, self-modification, mode switches and port I/O",
  ONLY + "whole-program behaviour depends on state carried between instructions.",
  ["src/blf4/mod.rs", "src/blf4/isa/handlers.rs", "src/machine/mod.rs", "src/mem.rs"],
  [("execute_instruction", "src/blf4/mod.rs"), ("Machine::execute_once", "src/machine/mod.rs")],
  ["full machine state compared with a reference interpreter after every step"])

# ---------------------------------------------------------------- machine
p("M01", "Physical memory is a flat 16 MiB store with ports and write-protected ROM",
  "After any history of reads and writes over the 24-bit physical space, addresses 0-7f go to the I/O ports (each access forwarded once, in order, with its port number and value), addresses 80-7fff read the ROM image padded with zeroes (or zero without one) and ignore writes, and every other address reads the last byte written to it, initially zero. No address aliases another and a copy of the memory is independent of the original.",
  ["histories", "inputs"], "all histories of physical reads and writes, all ROM images up to the ROM size",
  ONLY + "aliasing between the lazily created 64 KiB cells only shows on particular address histories.",
  ["src/mem.rs"],
  [("LazyMain::read/write", "src/mem.rs"), ("with_rom", "src/mem.rs"), ("read_n/write_n", "src/mem.rs")],
  ["bytes read back, port access log"])
p("M02", "The loader maps a program exactly as its object file says",
  "For every object whose segments fit the address space, after loading: every segment byte is at its address and the rest of each mapped page is zero; text is executable only (also readable if the object asks), read-only data readable only, data and heap readable and writable, zero/unknown segments everything, each page carrying the union of what its segments need, all user-accessible. The stack area of the requested size ends at ffff, the heap (when there is a heap segment) covers the requested size from the heap segment's start, both writable, and no page outside those is mapped; distinct virtual pages use distinct physical pages that do not overlap the tables. Execution starts at the entry in user mode with virtual memory on, stack and frame pointer at ffff.",
  ["inputs", "configurations"], "all objects: segment kinds, offsets, lengths, shared pages, stack/heap sizes, flags",
  ONLY + "nothing loads an object in a test; errors need particular offsets, sizes or shared pages.",
  ["src/blf4/std_kernel.rs", "src/blf4/std_kernel/load_user_binary.rs"],
  [("MmapBuilder::add_segment/map/map_wr_pages", "src/blf4/std_kernel.rs"), ("load_user_binary", "src/blf4/std_kernel/load_user_binary.rs")],
  ["permission and content of each of the 65536 virtual addresses as seen by the CPU"])
p("M03", "The built-in kernel services system calls and error handlers faithfully",
  "For a loaded program, each write call emits exactly the byte in r2l and each read call puts the next input byte into r1l, both through I/O port 1 and in program order, and set-handler records the handler; afterwards the program continues in user mode at the next instruction with all other registers, flags and memory unchanged. Any trap other than halt and system calls transfers to the registered handler with the trap mode in r1, or, with none registered, ends the run with that trap mode; halt always ends it, and an unknown call number ends it with the system-call trap.",
  ["programs", "histories"], "all sequences of system calls and faults in user programs, all inputs",
  ONLY + "no system call is executed by a test; ordering and state preservation are properties of histories.",
  ["src/blf4/std_kernel.rs", "src/machine/mod.rs"],
  [("EKernel::handle_trap", "src/blf4/std_kernel.rs"), ("Machine::execute_once", "src/machine/mod.rs")],
  ["port log, CPU state after each call"])
p("M04", "The runner reports how a program ended and forwards its I/O",
  "Running an object with the emulator command sends exactly the program's output bytes to standard output, feeds standard input to it in order, and exits with success exactly when it halts, otherwise failing and naming the trap (a program that asks for more input than there is fails after all its output); a file that is not an object or has no entry point is refused without running. With the termination-point option it prints the trap mode and the named defined symbol closest at or before the final program counter with the right distance. In raw mode any image up to the ROM size starts at 80 in direct mode, and a larger one is refused.",
  ["programs", "configurations"], "all objects, raw images, inputs and option combinations",
  ONLY + "the command-line runner is never run by a test.",
  ["src/bin/t.rs", "src/mem.rs", "src/machine/mod.rs"],
  [("t_main", "src/bin/t.rs"), ("StdIo", "src/mem.rs"), ("with_rom", "src/mem.rs")],
  ["stdout bytes, stderr, exit status"])

p("M05", "The memory map shown to a program is the one it runs with",
  "The debugging system call (number 0) prints one line per page that both page table levels mark present, in ascending order and no other, giving the page's virtual and physical address and its user, execute, write and read permissions: a capital letter where the page grants it, followed by `!` if the upper level withholds it, a small letter where only the upper level has it. In direct mode it says so in one line, with the addresses direct mode reaches. For a loaded program these are the object's pages and permissions, the same each time, and the text appears in its place among the program's output. Showing the map changes no register, flag, memory or port.",
  ["inputs", "programs"], "all page tables outside the ports, all programs at any point of their output",
  ONLY + "the call is never made by a test; permissions that differ between the levels are not even reachable with the loader's tables alone.",
  ["src/blf4/mod.rs", "src/blf4/std_kernel.rs"],
  [("print_mmap", "src/blf4/mod.rs"), ("EKernel::handle_trap", "src/blf4/std_kernel.rs")],
  ["text of the map", "state and memory before and after"])

# ---------------------------------------------------------------- files
p("F01", "Object files round-trip",
  "Writing any object and reading it back yields the same entry point, flags, stack size, heap size, segments, symbols (name, visibility, segment, location, order) and relocations, each present exactly if it was present before. Whatever bytes precede the object in the file are preserved on writing, do not confuse reading, and the recorded offset is where the object starts.",
  ["inputs"], "all object contents representable in the format, all file prefixes",
  ONLY + "no object file is written or read by a test; field mix-ups need particular combinations of optional parts.",
  ["src/aalv/mod.rs", "src/aalv/obj.rs", "src/aalv/obj/sec_impl.rs"],
  [("Section impls", "src/aalv/obj/sec_impl.rs"), ("AalvWriter::write_section, AalvReader::read_section", "src/aalv/mod.rs"), ("read_magic", "src/aalv/mod.rs")],
  ["object read back, file bytes, independent parse of the file"])
p("F02", "Reading object files never crashes, and damaged files are rejected",
  "For arbitrary file contents, reading as an object or archive either succeeds or reports an error; it never panics or hangs. Every proper truncation of a valid object is rejected, unknown underscore sections, unknown segment types, unknown flags and duplicate segments are rejected, and any accepted file, once re-written, reads back as the same object.",
  ["inputs", "fault_sequences"], "all byte strings, in particular truncations and mutations of valid objects and archives",
  ONLY + "malformed input is never fed to the reader.",
  ["src/aalv/mod.rs", "src/aalv/obj.rs", "src/aalv/obj/sec_impl.rs", "src/aalv/savn.rs"],
  [("read_section_headers, ReadWindow", "src/aalv/mod.rs"), ("Object::from_aalv_reader", "src/aalv/obj.rs")],
  ["Ok/Err/panic of the reader, re-read object"])
p("F03", "Archives contain exactly the objects put in, in order",
  "An archive made from any list of object files (executable ones with a leading interpreter line included) yields, when read, exactly those objects, complete, in the given order, and then ends; anything not starting with the archive marker is not taken for an archive.",
  ["inputs"], "all lists of objects",
  ONLY + "archives are never built or read by a test.",
  ["src/bin/tar.rs", "src/aalv/savn.rs", "src/aalv/mod.rs"],
  [("tar_main", "src/bin/tar.rs"), ("Iter::next", "src/aalv/savn.rs"), ("AalvReader::end", "src/aalv/mod.rs")],
  ["sequence of objects read back"])
p("F04", "A tool that reports success has written its whole output",
  "If writing the output object fails at any byte - the last one included - because the file cannot grow, the assembler, linker, stripper and archiver report an error and exit with failure; they exit with success only if the complete output can be read back. An object with a section too large for the format is refused rather than written damaged.",
  ["fault_sequences", "crash_points"], "every byte offset at which writing may fail, for all objects and tools",
  ONLY + "no write fault is ever injected.",
  ["src/aalv/mod.rs", "src/aalv/obj.rs", "src/bin/tc.rs", "src/bin/tl.rs", "src/bin/tstrip.rs", "src/bin/tar.rs"],
  [("AalvWriter end-of-file handling", "src/aalv/mod.rs"), ("Object::write_to_file", "src/aalv/obj.rs")],
  ["exit status and readability of the output under a file-size limit"])
p("F05", "The container format holds any sections, whoever defines them",
  "Sections written one by one through the library's writer, at any position of a file and whatever their number, names and contents, are laid out as the format says and nothing before them changes, whether the writer is finished or dropped and however few bytes the file takes at a time. A reader finds the container after any other bytes, lists the sections not yet read in file order, and gives for a name the first of them, whose content is exactly its bytes: reading all of it or part of it never reaches beyond its end. Reading them in any order and all or none of them, it ends right behind the container, where the next one can be read. A section of more than 65535 bytes is refused, and an error of a section's own reader or writer is passed on.",
  ["inputs", "histories"], "all sequences of sections, orders and ways of reading them, and files of one or several containers",
  ONLY + "the container format is only reached through objects, whose sections are written in one order and always read whole.",
  ["src/aalv/mod.rs"],
  [("AalvWriter::write_section, finish, Drop", "src/aalv/mod.rs"), ("AalvReader::new, read_section, remaing_sections, end", "src/aalv/mod.rs"), ("ReadWindow, CountedWriter", "src/aalv/mod.rs")],
  ["bytes of the file, contents and names returned by the reader, its position at the end"])

# ---------------------------------------------------------------- assembler
p("A01", "Every instruction line assembles to its documented encoding",
  "Every accepted spelling of every instruction (aliases, register names, numeric bases, spacing) assembles to the one documented byte sequence for that mnemonic and those operands. An instruction line whose operand count, register sizes or operand kinds fit no form of the mnemonic is rejected, never assembled to something else.",
  ["inputs"], "all instruction lines over the grammar, well- and ill-formed",
  ONLY + "the assembler is never run by a test; encodings vary over mnemonics x operand forms x registers.",
  ["src/source/mod.rs", "src/blf4/isa/mod.rs", "src/bin/tc.rs"],
  [("parse_ins and DataOperand::parse_*", "src/source/mod.rs"), ("write_data_operand", "src/source/mod.rs")],
  ["segment bytes of the object written by the assembler, or its refusal"])
p("A02", "Number, character and string literals mean what they say",
  "Decimal, 0x, 0o and 0b numbers, in range, with or without sign or size suffix, character literals and every string escape denote exactly their value wherever they are allowed: byte and wide data directives, strings and instruction immediates. Malformed escapes and literals are rejected with an error. A number out of range in a data directive keeps its low bits and draws one warning; correct lines draw none.",
  ["inputs"], "all literals in all notations and all strings",
  ONLY + "no literal is parsed by a test.",
  ["src/source/mod.rs"],
  [("parse_number, parse_bytechar", "src/source/mod.rs")],
  ["bytes in the assembled object"])
p("A03", "Labels, segments and relocations describe the assembled image exactly",
  "For any source, split over included files or not: each segment holds its lines' bytes in source order however segments are interleaved; segments start page-aligned at or above 80 and do not overlap; each label's symbol gives the address of the byte that followed it, with the right segment and visibility; every use of a label as an immediate or data word holds its address and is listed by exactly one relocation naming that place and symbol, and nothing else is. Undefined globals and references become undefined symbols; the entry point is where it was declared.",
  ["inputs", "programs"], "all multi-segment sources with labels, forward references, visibility directives, includes and entry points",
  ONLY + "layout and relocation errors depend on the arrangement of segments, labels and uses.",
  ["src/source/mod.rs", "src/source/symbols.rs", "src/bin/tc.rs"],
  [("process layout", "src/source/mod.rs"), ("Symbols", "src/source/symbols.rs"), ("label_reads to RelocationEntry", "src/bin/tc.rs")],
  ["independent parse of the object against a model of the source"])
p("A04", "Wrong sources are diagnosed, never miscompiled, and never crash the assembler",
  "For any source containing errors the assembler exits with failure, writes no object for it, and reports every erroneous line with its line number and no correct line; a source without errors assembles. Arbitrary bytes as source lead to success or a reported error, never a crash or hang, and one bad file does not keep the others on the command line from being assembled.",
  ["inputs"], "all sources: mutated, erroneous and arbitrary bytes, and mixtures of good and bad files",
  ONLY + "no erroneous source is ever assembled.",
  ["src/source/mod.rs", "src/source/err.rs", "src/source/symbols.rs", "src/bin/tc.rs"],
  [("SourceLines::add_error and error chaining", "src/source/mod.rs, src/source/err.rs"), ("tc main loop", "src/bin/tc.rs")],
  ["exit status, stderr line numbers, presence of output"])

# ---------------------------------------------------------------- linker
p("L01", "Linking places segments and resolves every reference to its definition",
  "Linking any set of compatible objects gives, per segment kind, the concatenation of the inputs' segments in command-line order at an aligned, non-overlapping address; every relocated word holds the final address of the symbol it refers to - the local one of its own file or the one global definition, wherever in the command line that file is - and every other byte is unchanged. Symbols and relocations of the output describe the new places, undefined ones stay undefined, and the entry point is the first input's or the requested one.",
  ["inputs", "configurations"], "all sets and orders of objects with local/global/undefined symbols, all alignments and options",
  ONLY + "the linker is never run by a test; resolution depends on file order and symbol interplay.",
  ["src/bin/tl.rs"],
  [("segment placement, symbol merge and relocation patching in tl_main", "src/bin/tl.rs")],
  ["independent parse of the linked object against a model"])
p("L02", "Links that cannot be right fail and leave the output alone",
  "Linking fails with a diagnostic and leaves any existing output file untouched when a global symbol is defined twice, when an executable is requested with an undefined reference, without an entry point or with an unknown entry symbol, when the result does not fit the address space, or when an input cannot be read or is inconsistent. It never crashes, and links with none of these problems succeed.",
  ["inputs", "configurations"], "all sets of objects and options, including damaged objects",
  ONLY + "no failing link is exercised.",
  ["src/bin/tl.rs"],
  [("failure flag and Error variants in tl_main", "src/bin/tl.rs")],
  ["exit status, stderr, bytes of the output path"])
p("L03", "Linking in stages equals linking at once",
  "Linking some consecutive inputs into an intermediate object and then linking that with the rest gives the same segments, the same symbol resolution and the same relocations as linking all inputs at once, up to the numbering of symbols; linking is deterministic.",
  ["inputs", "histories"], "all object lists and all ways of splitting them into stages",
  ONLY + "no link is run by a test; staging errors need cross-file symbols.",
  ["src/bin/tl.rs", "src/aalv/obj.rs"],
  [("relocation and symbol output of tl_main", "src/bin/tl.rs")],
  ["segments, resolved symbols and relocations of both outputs"])
p("L04", "Archive linking pulls in exactly the members that are needed",
  "Linking against archives includes a member exactly when it defines a global some included object or input still needs, or itself needs a global an input defines, repeated until nothing changes; members not needed contribute nothing. The result is the same as naming the included members explicitly after the inputs, in the order in which they become needed, the first in the archives first, whatever other options are given; an executable that still has an undefined reference or no entry is refused.",
  ["inputs", "configurations"], "all inputs and archives with acyclic, cyclic and chained dependencies between members",
  ONLY + "archives are never linked in a test; closure errors need chains of members.",
  ["src/bin/tl.rs", "src/aalv/savn.rs"],
  [("read_archives, DefinedMap", "src/bin/tl.rs")],
  ["linked object versus the explicit link of a model's selection"])
p("L05", "Stripping changes no behaviour",
  "Stripping an object removes only local symbol names (or, when asked for, the whole symbol and relocation tables); entry, sizes, flags, segments, everything else and the file prefix stay. Stripped objects link to the same image as unstripped ones, stripping twice is the same as once, full stripping without an entry point is refused unless forced, and one unreadable file neither prevents the others from being stripped nor goes unreported.",
  ["inputs", "configurations"], "all objects and option combinations, before or after linking",
  ONLY + "the stripper is never run by a test.",
  ["src/bin/tstrip.rs", "src/bin/tl.rs", "src/aalv/obj.rs"],
  [("inner_main", "src/bin/tstrip.rs"), ("strip_internal", "src/bin/tl.rs")],
  ["object before and after, linked images"])

# ---------------------------------------------------------------- tools
p("T01", "Disassembly names exactly the instruction the CPU would execute",
  "For every valid instruction at every address the disassembly gives its address, its bytes, the right mnemonic and all operands in assembly order (labels where the caller names an address) and the right next location, and assembling that text again gives the same bytes. It marks as block ends exactly the instructions after which execution does not continue in line; a byte that is no opcode is shown as that byte and ends the block; and disassembling never changes the machine.",
  ["inputs"], "all instruction encodings, addresses and label maps",
  ONLY + "nothing is disassembled in a test.",
  ["src/disassemble.rs"],
  [("disassemble_instruction", "src/disassemble.rs")],
  ["annotated text, next location, block-end flag, machine state"])
p("T02", "Object dumps list what is in the object",
  "For any object or archive the dump tool lists every symbol once with its visibility, address and segment (or as undefined), disassembles everything reachable in line from the entry and global symbols under the right labels with no label's block repeated, and with relocations shown lists each relocation inside a disassembled instruction with its symbol. A file that cannot be read is reported and makes the exit status a failure while the rest is still dumped.",
  ["inputs", "configurations"], "all objects, archives and option combinations",
  ONLY + "the dump tool is never run by a test.",
  ["src/bin/tobjdump.rs", "src/disassemble.rs"],
  [("symbols, disassembly, read_objs", "src/bin/tobjdump.rs")],
  ["stdout lines and exit status against an independent parse"])
p("T03", "Debugging a program does not change what it does",
  "For any program and any sequence of step and inspection commands, stepping under the debugger produces the same output and the same final trap as running it directly, each displayed register, flag set and memory value is the machine's actual value at that point, and inspection commands do not alter the machine. Bad commands, unreadable addresses, wild jumps and end of input are handled without crashing or hanging; an unreadable object, or an entry that is neither an address nor a defined symbol of it, is refused.",
  ["programs", "histories"], "all programs and debugger command sequences",
  ONLY + "the debugger is never run by a test.",
  ["src/bin/tdbg.rs", "src/disassemble.rs"],
  [("tdbg_loop", "src/bin/tdbg.rs")],
  ["debugger transcript against a reference execution"])
p("T04", "The tool chain preserves program meaning end to end",
  "Any program assembled from one or several source files, linked in any order or through archives and stripped or not, and run, produces the output and final trap that the source means, independent of how it was split into files and segments.",
  ["programs", "configurations"], "all multi-file programs with calls, data, loops and I/O, and all ways of building them",
  ONLY + "no program is ever built and run by a test.",
  ["src/bin/tc.rs", "src/bin/tl.rs", "src/bin/t.rs", "src/source/mod.rs", "src/blf4/mod.rs", "src/blf4/std_kernel.rs"],
  [("assembler, linker, loader, CPU and kernel in sequence", "src/bin")],
  ["stdout and exit of the built program against the model's prediction"])
p("T05", "The tools are reproducible",
  "The same command on the same files with the same input gives the same exit status, the same output and messages, and the same files, byte for byte - whatever the directory, the environment variables and earlier results that are overwritten - and, for the assembler, the stripper and the dump tool, whether several files are named in one command or in one each. (Which of several valid reasons the linker shows for including an archive member is open; so are the initial values of registers the loader does not set.)",
  ["inputs", "configurations", "histories"], "all sequences of tool runs over all files, directories and environments",
  ONLY + "a test that runs a command once cannot see that the next run, or a run after another file, differs.",
  ["src/bin/tc.rs", "src/bin/tl.rs", "src/bin/tar.rs", "src/bin/tstrip.rs", "src/bin/tobjdump.rs", "src/bin/t.rs", "src/bin/tdbg.rs", "src/source/mod.rs", "src/source/symbols.rs"],
  [("loop over the files of a command", "src/bin/tc.rs"), ("order of symbols and relocations", "src/source/symbols.rs"), ("maps of symbols and the order of messages", "src/bin/tl.rs"), ("dump of several objects", "src/bin/tobjdump.rs")],
  ["exit status, stdout, stderr and every file of two executions"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P), "properties")
