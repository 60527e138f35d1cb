#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a generator so that the statements stay reviewable)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

ONLY="The only test of the project checks the page-alignment helper; "
H="src/blf4/isa/handlers.rs"; B="src/blf4/mod.rs"

p("C01","Arithmetic and logic results and flags",
"For every pair of operand values and both widths, add, sub, and, or, xor, shl, asr, lsr, mul and div put the documented two's-complement result in the documented destination registers (shift counts are taken modulo the operand width; div gives quotient then remainder, mul the upper then the lower half; for mul with equal destinations the register ends with the lower half, for div with the remainder). The two-operand operations set zero and sign from the result, carry on unsigned and overflow on signed overflow of add and sub (both are cleared by logic and shift operations); mul sets zero and sign from the lower half and carry = overflow = (upper half is non-zero); div leaves flags alone. A zero divisor causes the zero-division trap and changes no register or flag result; no other register, flag or memory byte is ever changed.",
["inputs"],"all operand values (all 65536 byte pairs; all wide pairs) of every arithmetic/logic operation, and all prior flag values",
ONLY+"no test executes an instruction. Boundary operands (carry out, sign change, shift counts at or beyond the width) are a tiny fraction of the 2^32 pairs.",
[H],[("binop_b/binop_w and the mul/div/shift handlers",H)],["registers and flags after one executed instruction"])

p("C02","Register file views stay consistent",
"Every register number names exactly one of the documented views: writing any byte or wide register is visible at once through every view that shares its storage (low byte, high byte, whole) and through no other register. r0/r0b always read zero, and writing the byte view of r6-r10 clears the high byte while the l/h views of r1-r5 leave the other byte alone. In user mode the page-table and trap-handler registers can be neither read nor written: the attempt traps as an illegal operation and leaves both registers unchanged.",
["histories","inputs"],"all sequences of register writes (32 views, boundary values) up to the depth bound, all views read after each",
ONLY+"aliasing between views shows only for particular register numbers and write orders.",
[B,"src/blf4/register_type.rs",H],[("register decoding read_br/write_br/read_wr/write_wr",B)],["all 32 register views"],
[("general purpose storage","ten 16-bit registers shared by byte and wide views",B)])

p("C03","Loads, stores and stack operations",
"A store writes exactly the source register's byte, or its two bytes in little-endian order, at (base + offset) modulo 65536, and a load reads the same location into the destination only; the second byte of a wide access is at the next address modulo 65536. push first lowers the stack pointer by the operand size and then writes there; pop first reads at the stack pointer and then raises it, all modulo 65536 (pop into the stack pointer leaves the popped value). No other register, flag or memory byte changes.",
["inputs","programs"],"all eight load/store forms and four stack forms, every register combination, boundary addresses and offsets including wrap-around, direct and virtual mode",
ONLY+"no load, store, push or pop is ever executed by a test.",
[H,B],[("load/store/push/pop handlers",H),("read_wide/write_wide/pushw/popw",B)],["registers and memory after each instruction"])

p("C04","Control transfer",
"Each conditional jump goes to its target exactly when its documented flag condition holds (jez Z, jnz !Z, jlt S!=O, jge S=O, jle S!=O and Z, jgt S=O and !Z, jo O, jno !O, jb/jc C, jae/jnc !C, ja !C and !Z, jbe C or Z) and otherwise falls through to the next instruction. call stores the address of the following instruction in the link register and jumps; ret n adds n to the stack pointer and continues at the link register; jmp goes to its immediate or register. Nothing else (flags, other registers, memory) changes, and the program counter advances by exactly the instruction's length, modulo 65536, for every non-jumping instruction.",
["inputs","programs"],"all 12 conditional jumps x 16 flag states, all ret immediates, all jump registers, boundary program counters",
ONLY+"no jump is executed by a test; a wrong condition needs a particular flag combination.",
[H],[("jif and the conditional jump handlers, call, ret, ldi_w",H)],["program counter, link and stack register after one instruction"])

p("C05","Every byte pattern decodes to one instruction or traps",
"Every opcode byte with every operand bytes either executes as exactly one instruction of the instruction set, reading its register operands from the documented nibbles and its immediate as little-endian bytes after them, or causes the invalid-instruction trap. Opcodes that are not assigned, non-zero padding nibbles after an odd number of registers, and ldi option values other than load and jump always trap as invalid, with no register, flag-result or memory effect.",
["inputs"],"all 2^24 combinations of opcode and two operand bytes (with boundary third bytes), in supervisor and user mode",
ONLY+"the decode table has 256 entries and 16M operand patterns; none is exercised.",
[H,"src/blf4/isa/mod.rs","src/u4.rs"],[("opcode dispatch table and operand decoding",H)],["trap result, registers, memory after one instruction"])

p("C06","Trap delivery and handler return",
"When the trap-handler register is zero a trap stops the machine and is reported as its cause; otherwise, whatever instruction or fetch caused it, the machine enters supervisor mode with the trap flag set, continues at the handler address with the trap cause in r1, and has pushed the interrupted state (flags as they were before the trap, program counter, and all 15 wide registers) on the stack. reth executed with the trap flag set restores every register, the flags (mode and virtual-memory flag included) and the program counter to that saved state with the trap flag cleared; without the trap flag it traps as an illegal handler return. A trap that occurs while saving the state stops the machine with that second cause.",
["histories","programs"],"all sequences, up to the depth bound, of trapping and non-trapping instructions, in user and supervisor mode, direct and virtual mode, with and without a handler, nested",
ONLY+"trap entry and return need multi-step histories in combinations of mode, cause and handler that no test builds.",
[B,H],[("trap entry in instruction execution, register save/restore",B),("reth",H)],["complete machine state after each step; trap frame contents"],
[("trap flag, user flag, virtual flag, rh","trap state machine",B)])

p("C07","User mode is confined",
"Starting in user mode, whatever instructions are executed, the machine leaves user mode only by a trap, and until then the page-table register, the trap-handler register and the virtual-memory flag keep their values. Privileged instructions (usr, vmon, vmoff, pstore, pload) and uses of the page-table and trap-handler registers trap as illegal operations, the privileged instructions without any data access. In user mode with virtual memory on, no byte is read, written or executed in a page that is not marked user-accessible at both table levels, apart from the page-table bookkeeping itself.",
["programs","histories"],"all user-mode instruction sequences up to the depth bound over an alphabet covering every opcode, over mapped pages of every permission class",
ONLY+"confinement is a statement about every user program; no test runs one.",
[B,H],[("privilege checks in handlers and register access",H),("permission check in address translation",B)],["machine state and physical memory access log after each instruction"])

p("C08","Virtual address translation and permissions",
"With virtual memory on, every access to virtual address A goes to the physical page named by the second-level entry that A's middle bits select in the table named by the first-level entry that A's top four bits select in the table at the page-table register, plus A's seven offset bits; with virtual memory off it goes to physical address A. An access succeeds only if both entries are present, both permit the kind of access (read, write, execute) and, in user mode, both are user-accessible; otherwise nothing is accessed and it traps: first-level page fault or second-level page fault for the first missing entry (whatever its other bits say), illegal operation for a supervisor-only entry in user mode, illegal read, write or execute for a missing permission.",
["inputs","configurations"],"all combinations of the entry flag bits at both levels x access kind x mode, all virtual page numbers, boundary physical page numbers",
ONLY+"translation is never executed by a test; 2 x 64 x 64 flag combinations per access kind.",
[B],[("two-level table walk",B)],["trap cause, physical memory access log"])

p("C09","Page tables change only by dirty marking",
"A successful write through virtual memory leaves the dirty flag set in both page-table entries used for it, and translation never changes any other bit of any entry. Reads, instruction fetches and refused accesses change no page-table byte.",
["inputs","configurations","histories"],"all flag combinations at both levels (each level dirty or not) x access kinds x modes, and sequences of accesses",
ONLY+"a wrong dirty update is visible only in table memory after particular dirty/clean combinations of the two levels.",
[B],[("dirty flag update in the table walk",B)],["page-table memory after each access"],
[("D bit of both levels","set after a write","page tables in guest memory")])

p("C10","Physical memory map",
"Physical addresses 0x000000-0x00007f are the I/O ports, 0x000080-0x007fff are read-only memory holding the given image followed by zeroes (all zeroes without one), and every address above up to 0xffffff is memory that returns the last byte written to exactly that address, or zero if none. A port access reaches the device exactly once with its port number and value; writes to read-only memory have no effect, and no other access reaches the device.",
["histories","inputs"],"all sequences of reads and writes up to the depth bound over boundary addresses, all ROM image lengths",
ONLY+"the memory map is never accessed by a test, and boundaries between regions and lazily created blocks need specific address sequences.",
["src/mem.rs"],[("LazyMain read/write/with_rom","src/mem.rs")],["bytes read, device access log"],
[("rom, ram0, cells, ports","regions of the physical address space","src/mem.rs")])

p("C11","No guest program can crash the emulator",
"From every machine state (any register values, program counter, flags, memory and page tables), executing the next instruction either completes or reports a trap: the emulator itself never panics, aborts or hangs, also when addresses, the stack pointer or the program counter wrap around the address space. The same holds for every raw image of at most the ROM size started in raw-binary mode, as long as standard input and output work.",
["inputs","programs"],"all opcodes and operand bytes from boundary states (registers, pc and rs at the ends of the address space, virtual mode with tables in any state)",
ONLY+"a crash needs an address computation at the edge of the address space; tests execute no instruction.",
[H,B,"src/mem.rs","src/bin/t.rs"],[("wrapping address arithmetic",B),("bounds of memory regions","src/mem.rs")],["panic or abort of the instruction step / of the t process"])

L="src/blf4/std_kernel.rs"; LU="src/blf4/std_kernel/load_user_binary.rs"
p("C12","A loaded program sees exactly its image",
"After loading an object as a user program, every byte of every segment is found at its address with the segment's permissions (text execute, and read if the readable-text flag is set; rodata read; data and heap read and write; zero and unknown all), pages shared by several segments permitting what any of them permits. In addition at least the declared heap size (0x400 by default) from the start of the heap segment, if there is one, and at least the declared stack size (0x180 by default) below the top of memory are readable and writable; all other pages are unmapped, and unfilled bytes are zero. Distinct virtual pages never share physical memory with each other or with page tables, execution starts in user mode with virtual memory on at the entry point with rs and rf at 0xffff, and loading into a machine that ran something before gives the same image.",
["configurations","inputs"],"all objects over a bounded set of segment types, offsets, lengths, sizes and flags that fit the address space, fresh and reused machines",
ONLY+"no object is ever loaded by a test; overlap, page sharing and partial pages appear for particular offsets and lengths.",
[LU,L],[("segment mapping and page-table construction",L),("segment permissions, heap and stack placement",LU)],["bytes and permissions of all 512 virtual pages; initial registers"])

p("C13","Emulated kernel services",
"With the emulated kernel, syscall 3 places exactly one input byte in the low byte of r1, syscall 4 emits exactly the low byte of r2, syscall 15 sets the error handler to r2, syscall 0 shows the memory map; each continues after the syscall in user mode and changes nothing else. Any other trap except halt continues at the error handler with the trap cause in r1 if one is set, and stops the program with that trap otherwise; halt and unknown syscall numbers always stop it.",
["programs","histories"],"all sequences up to the depth bound of syscalls, halts and faults with and without an error handler",
ONLY+"no program is run by a test.",
[L,"src/machine/mod.rs"],[("handle_trap of the emulated kernel",L)],["final trap, device input and output log, registers, mode"])

p("C14","Kernel page allocator never hands out a page twice",
"Over every sequence of page allocations and frees, an allocated page is page-aligned, filled with zeroes, and disjoint from every page currently allocated, and freed pages are handed out again before fresh memory is taken.",
["histories"],"all alloc/free/dirty sequences up to the depth bound",
ONLY+"aliasing appears only after particular alloc/free orders.",
[L],[("allocate_page/free_page free list threaded through guest memory",L)],["addresses returned and page contents"],
[("next_free, page_bumper","free list head and bump pointer",L)],"cfg(telda_verif) re-export of the emulated kernel type")

O="src/aalv/obj.rs"; OS="src/aalv/obj/sec_impl.rs"; A="src/aalv/mod.rs"
p("C15","Object files round-trip",
"Writing any object (entry point, flags, stack size, heap size, segments, symbols, relocations, in any combination) and reading the file back yields an equal object, whatever bytes (such as a script line) precede it in the file, and writing at an offset leaves those preceding bytes intact and ends the file with the object, whatever the file held before. A part too large for the format's 16-bit section size is reported as an error, never written truncated.",
["inputs","configurations"],"all objects over bounded component domains, with and without preceding bytes, including prefixes that resemble the file signature",
ONLY+"no object is written or read by a test.",
[O,OS,A],[("section codecs",OS),("container writer/reader",A)],["object read back, file bytes"])

p("C16","Malformed object files are rejected cleanly",
"Reading any byte string as an object file either yields an object or reports an error: it never panics, hangs or reads outside the file. Every proper prefix of a valid object file is rejected, as are files with a wrong signature, unknown segment types, unknown flag letters, duplicate segments or unknown reserved sections.",
["inputs","fault_sequences","crash_points"],"all truncations and all single-byte substitutions of a set of files covering every section type, all short section headers",
ONLY+"no file, well-formed or not, is read by a test.",
[A,OS,O],[("section header scan, section codecs",A)],["result of reading the bytes"])

p("C17","Archives contain exactly their members",
"An archive built from any sequence of object files (also executable ones with a script line) yields, when read, exactly those objects in that order and then ends. A file without the archive signature, or truncated within a member, is reported as an error.",
["histories","inputs"],"all member sequences up to the length bound over a pool of objects, all truncation points",
ONLY+"no archive is written or read by a test.",
["src/aalv/savn.rs","src/bin/tar.rs",A],[("archive iteration","src/aalv/savn.rs")],["objects yielded, tool exit status"])

S="src/source/mod.rs"; TC="src/bin/tc.rs"
p("C18","Assembler encodes instructions as documented",
"Every accepted instruction, for every mnemonic and alias and every choice of registers and immediates, assembles to exactly its documented encoding: opcode by mnemonic and operand kinds, registers packed in order as nibbles with a zero last nibble when their number is odd, then a little-endian immediate. Byte and wide register names map to their documented numbers, and ret without operand means ret 0.",
["inputs"],"all mnemonics x all register combinations (up to 65536 per form) x boundary immediates",
ONLY+"nothing is assembled by a test.",
[S,TC,"src/blf4/isa/mod.rs","src/blf4/register_type.rs"],[("parse_ins, write_data_operand",S)],["segment bytes of the object produced"])

p("C19","Invalid source is rejected, line by line",
"A source line is accepted only if it is an empty line, comment, label, known directive with a valid argument, or known mnemonic with exactly the operand kinds of one of its documented forms. If any line is invalid the assembler fails with a message giving the file and line of every invalid line, writes no object, and never crashes; definitions of the same label twice, used but undefined non-global labels, symbols both defined and declared as references, two entry points, and labels, entries or data before any segment are errors.",
["inputs","programs"],"all mnemonics x all operand-kind sequences up to length 5, all short line sequences over an error alphabet",
ONLY+"no source text is parsed by a test.",
[S,"src/source/err.rs","src/source/symbols.rs",TC],[("operand form matching",S),("error accumulation","src/source/err.rs")],["exit status, error lines, presence of the object file"])

p("C20","Assembler layout, symbols and relocations",
"The object's segments contain the assembled lines of each segment in source order, placed one after another in the order data, rodata, text, heap from 0x80 on, each at the next multiple of 128. Every label's symbol has the address of the line that follows it in its segment; every use of a label in an instruction or wide directive holds the label's address and has exactly one relocation entry naming that location, segment and symbol; symbols are global exactly when declared global or reference, undefined ones keep the placeholder, and the entry is the address where it was declared. A program that does not fit the address space is refused with a message.",
["programs"],"all programs up to the length bound over a line alphabet of segments, labels, uses, data and declarations",
ONLY+"layout depends on the order of segment switches, labels and uses across lines.",
[S,"src/source/symbols.rs",TC],[("process: segment placement and label resolution",S),("relocation output",TC)],["object file content"],
[("symbol table","labels with definition and use","src/source/symbols.rs")])

p("C21","Literals and strings denote their value",
"Decimal, 0x, 0o and 0b numbers with optional sign and optional b or w size suffix, character literals, and string directives with the escapes \\r \\t \\n \\0 \\\\ \\' \\\" \\xHH denote exactly their value: a byte or wide receives its low 8 or 16 bits, byte-suffixed literals must fit 8 bits and wide-suffixed ones 16 bits. Malformed literals and escapes are reported as errors and never crash the assembler.",
["inputs"],"all strings up to the length bound over an alphabet of digits, prefixes, suffixes, quotes and escape characters, in each literal position",
ONLY+"no literal is parsed by a test.",
[S],[("parse_number, parse_bytechar",S)],["bytes assembled or error reported"])

p("C22","Include behaves as insertion of the file",
"Including a file (relative to the including file's folder, nested or repeated) has the effect of assembling its lines at that point, with these lines starting outside any segment and the including file continuing in its own segment afterwards. Labels, declarations and the entry point are shared; errors in an included file carry its own name and line and make the assembly fail, as does a missing file.",
["programs"],"all small include trees over an alphabet of file bodies, including nested folders and missing files",
ONLY+"no source file is read by a test.",
[S],[("include handling in line processing",S)],["object content, error messages"])

p("C23","Disassembly agrees with execution and assembly",
"For every byte pattern at every address, disassembling shows the address and bytes of the instruction; for every valid instruction it reports the same length that executing it consumes, and for every valid instruction that the assembler can produce the text names the mnemonic and all operands so that assembling it gives back the same bytes. Disassembly never changes registers, program counter or memory, reports a trap instead of touching inaccessible memory, and never panics for code outside of the I/O page, also at the end of the address space.",
["inputs"],"all opcodes x all operand bytes (all register fields, boundary immediates), boundary addresses, with and without label names",
ONLY+"nothing is disassembled by a test.",
["src/disassemble.rs"],[("disassemble_instruction","src/disassemble.rs")],["text, next address, machine state"])

T="src/bin/tl.rs"
p("C24","Linking places and resolves everything",
"The linked output holds, per segment, the input objects' bytes concatenated in input order, segments following one another in type order from 0x80 at the requested alignment, and every relocated location holds the final address of the symbol it refers to: the unique global definition among the inputs for global names, the file's own symbol for internal ones. The output's symbols, relocations and entry point (the first input that has one, or the requested symbol or address) give the final addresses, so that internal names never interfere across files; with internal stripping only names of internal symbols are lost. An executable output has execute permission.",
["configurations","programs"],"all ordered pairs and triples of objects over a pool with global/internal definitions, references, sizes and entries, x alignment, strip and entry options",
ONLY+"nothing is linked by a test; a relocation error needs particular combinations of files and order.",
[T],[("layout, symbol merge, relocation",T)],["output object"],
[("global symbol map and deferred references","resolution state",T)])

p("C25","Incremental linking equals linking at once",
"Linking some inputs first (without making an executable) and linking the result with the remaining ones, in order and with the same alignment, gives the same segments, entry point, global symbol addresses and relocated values as linking all inputs at once. This holds for every grouping that keeps the order.",
["histories","configurations"],"all groupings of triples (and quadruples) of objects from the pool",
ONLY+"it relates several runs of the tool over generated objects.",
[T,O],[("relocations and symbols kept in linked objects",T)],["output objects of both ways"])

p("C26","Archives contribute exactly the needed members",
"When linking with archives, a member is included exactly when, on scanning members in order and restarting after each inclusion, it defines a global symbol that the inputs or members included before reference and the inputs do not define, or it references a global symbol that the inputs define. Included members follow the inputs in order of inclusion; the output equals linking those members as ordinary inputs in that order.",
["configurations"],"all small archives over a member pool x input objects, several archives",
ONLY+"member selection is a fixpoint over symbol dependencies; no test links an archive.",
[T,"src/aalv/savn.rs"],[("read_archives selection loop",T)],["output object, compared with an explicit link"])

p("C27","Linking fails cleanly on unresolved or conflicting input",
"If a global symbol is defined in more than one input, or an executable is requested while a referenced symbol is undefined, no entry point exists or the requested entry symbol is not a defined global, the linker exits with failure and a message and neither creates nor alters the output file. In all other cases with readable consistent inputs that fit the address space it succeeds; inputs or layouts that exceed the address space or the format's limits end in failure and a message, never in a truncated output.",
["configurations"],"all pairs/triples over the object pool x executable and entry options, plus oversize combinations",
ONLY+"no failing link is tested.",
[T,A],[("duplicate/undefined detection, failure flag",T)],["exit status, output file"])

p("C28","Stripping keeps the program's meaning",
"Stripping an object without options removes only the names of internal symbols; stripping with the all option removes exactly the symbol and relocation tables and refuses (leaving the file unchanged) when there is no entry point unless forced. Segments, entry point, sizes, flags and any bytes before the object are kept exactly and nothing follows it, so the program runs and links (also from an archive) as before; several files are each processed independently and any failure gives a failing exit status.",
["inputs","configurations"],"all objects of the pool (plain and executable) x option combinations x several files",
ONLY+"no object is stripped by a test.",
["src/bin/tstrip.rs",O],[("symbol and relocation removal","src/bin/tstrip.rs")],["object after stripping, exit status"])

p("C29","Assemble, link and run gives the program's meaning",
"For every program, assembling, linking (directly, through an archive, partially, stripped or not) and running it with the emulator produces the output bytes, consumed input and final trap that the instruction set defines for the source. The emulator's exit status is success exactly when the program halts (when the termination point is requested, always: it names the final trap and the nearest preceding symbol), and a raw image is run from 0x80 in direct mode without emulated kernel (refused with a message if it exceeds the ROM).",
["programs"],"all programs up to the length bound over an instruction-snippet alphabet with data, calls, loops, cross-file references, x build routes",
ONLY+"no program is run by a test.",
["src/bin/t.rs",TC,T,LU,B],[("whole tool chain","src/bin")],["process output and exit status"])

p("C30","Success is reported only for completely written output",
"If writing an output file fails at any byte, the assembler, linker, archiver and stripper exit with failure. They exit with success only when the output file on disk is complete; an unreadable or missing input likewise gives a failing exit status.",
["fault_sequences","crash_points"],"a write failure injected at every byte position of every output of every tool",
ONLY+"no write failure is provoked by a test.",
[A,TC,T,"src/bin/tar.rs","src/bin/tstrip.rs"],[("error propagation from buffered writers",A)],["exit status versus file content"])

p("C31","The debugger shows and steps the real machine",
"Whatever command sequence is given, execution starts at the entry point or the address or symbol requested, each stop of the debugger shows the instruction at the program counter and the label defined there, step-in executes exactly one instruction, next and step-out run to the next point where the call depth (calls entered minus returns executed since the start) is the current one or one less, go-to sets the program counter, and register and memory queries show the current values without changing anything. The program's output and final trap are those of the emulator for the same instructions; unreadable addresses, unmapped program counters, unknown commands and end of input are reported or end the session, never crash or hang the debugger.",
["histories"],"all command sequences up to the depth bound on programs with nested calls, loops and faults",
ONLY+"no debugger command is executed by a test.",
["src/bin/tdbg.rs","src/disassemble.rs"],[("command loop and nesting count","src/bin/tdbg.rs")],["debugger transcript"],
[("current_nesting, target_nesting","stepping state","src/bin/tdbg.rs")])

p("C32","Object dumps tell the truth",
"The symbol listing shows every symbol of every object given (or contained in a given archive), in order, with its scope, address and segment or that it is undefined. The disassembly listing shows, at their addresses, the actual bytes of the code reachable in straight line from the entry point, global symbols and labels referenced, with relocated locations marked when asked for; if any file cannot be read the exit status is failure and the other files are still shown.",
["inputs","configurations"],"all objects of the pool and archives of them x option combinations, unreadable files at each position",
ONLY+"the dump tool is never run by a test.",
["src/bin/tobjdump.rs","src/disassemble.rs"],[("listing loops","src/bin/tobjdump.rs")],["tool output and exit status"])

with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
