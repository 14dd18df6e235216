#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a program so that the long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or []
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

S = "m68000/src/"
prop("C01", "Every opcode word decodes to exactly the instruction the MC68000 defines for it",
 "Each of the 65536 opcode words decodes to exactly one MC68000 instruction with the operands, sizes and addressing modes the Programmer's Reference Manual assigns to that bit pattern, and every pattern the MC68000 leaves undefined (including modes not allowed for the instruction) decodes as unknown/illegal. Decoding consumes exactly the extension words the instruction has, in order, and sign- and zero-extends them as defined. A memory failure on the opcode word is returned as an error, never as a made-up instruction.",
 ["inputs"], "all 65536 opcodes, each with extension-word sets that include every 16-bit value for at least one carrier of every operand layout, at several addresses",
 "No test decodes an opcode: the decoder table has 4096 hand-placed lines and its errors show only on the particular opcodes concerned.",
 [S+"decoder.rs", S+"isa.rs", S+"instruction.rs", S+"addressing_modes.rs", S+"utils.rs"],
 [("decoder table", S+"decoder.rs DECODER"), ("operand decoding", S+"instruction.rs Instruction::from_opcode and the per-layout functions"), ("extension words", S+"addressing_modes.rs AddressingMode::from_memory")],
 observe=["Instruction::from_memory", "Isa::from(u16)"])
prop("C02", "Integer, BCD and compare instructions compute the defined result and flags",
 "Executing ADD/SUB/NEG/CMP families (with extend, immediate, quick, address and memory forms), MULS/MULU, DIVS/DIVU, ABCD/SBCD/NBCD, EXT, CLR and TST writes exactly the result the MC68000 defines for the operand size and sets X, N, Z, V and C exactly as defined (including sticky Z for the extended forms, signed/unsigned overflow on division with the destination left unchanged, and divide by zero raising the zero-divide exception). Nothing else changes: bits of the destination outside the operand size, other registers, memory, the system byte of the status register.",
 ["inputs"], "all opcodes of these instructions, all addressing modes, all prior condition codes, all 8-bit operand pairs, boundary-complete 16/32-bit operands (all 16-bit divisors and EXT inputs)",
 "The tests cover a handful of operand pairs of the helper traits and no instruction execution; carry, overflow and size-masking slips need particular operands.",
 [S+"interpreter.rs", S+"utils.rs"],
 [("instruction handlers", S+"interpreter.rs execute_add..execute_tst"), ("carry and overflow helpers", S+"utils.rs CarryingOps, IsEven")],
 state=[("sr", "condition codes", S+"status_register.rs")], observe=["M68000::interpreter_exception", "registers", "memory writes"])
prop("C03", "Logic, shift, rotate and bit instructions compute the defined result and flags",
 "Executing AND/OR/EOR/NOT and their immediate, CCR and SR forms, ASL/ASR/LSL/LSR/ROL/ROR/ROXL/ROXR in register and memory form with every count, BTST/BCHG/BCLR/BSET, Scc, TAS and SWAP writes exactly the result the MC68000 defines and sets X, N, Z, V and C exactly as defined, also for a count of zero, for counts above the operand size and for bit numbers taken modulo 32 or 8. Nothing else changes.",
 ["inputs"], "all opcodes of these instructions, all addressing modes, all prior condition codes, all counts 0-63 and register counts beyond, all bit numbers, all 8-bit operands and boundary-complete 16/32-bit operands",
 "No test executes a shift, rotate or bit instruction; flags of long rotates through X or of counts over the size need particular counts and operands.",
 [S+"interpreter.rs", S+"utils.rs", S+"status_register.rs"],
 [("instruction handlers", S+"interpreter.rs execute_and..execute_tas"), ("condition evaluation", S+"status_register.rs condition")],
 observe=["M68000::interpreter_exception", "registers", "memory writes"])
prop("C04", "Data movement and effective addresses read and write exactly the right places",
 "Every effective address mode reads or writes exactly the bytes the MC68000 defines (displacements and indexes sign-extended, index size honoured, wrap-around modulo 2^32, PC-relative from the extension word, post-increment/pre-decrement by operand size with A7 kept even for bytes). MOVE, MOVEA, MOVEQ, MOVEM, MOVEP, LEA, PEA, EXG, LINK, UNLK and the moves to and from CCR, SR and USP transfer exactly the defined data in the defined memory and register order with the defined flags, and change nothing else.",
 ["inputs"], "all opcodes of these instructions (all source x destination modes), all 16-bit displacements, all brief extension words, all register lists, register contents including address wrap-around, user and supervisor mode",
 "No test executes a memory-to-memory instruction; wrong sign extension or register aliasing (same register as base, index, operand and destination) needs particular combinations.",
 [S+"interpreter.rs", S+"addressing_modes.rs", S+"memory_access.rs"],
 [("effective address computation", S+"addressing_modes.rs / interpreter.rs get_effective_address"), ("operand access", S+"interpreter.rs get_byte/set_byte.. helpers"), ("register transfer order", S+"interpreter.rs execute_movem, execute_movep")],
 observe=["M68000::interpreter_exception", "registers", "memory accesses"])
prop("C05", "Branches, calls, returns and conditional traps steer the program as defined",
 "Bcc, BRA, BSR, DBcc, JMP, JSR, RTS, RTR, TRAP, TRAPV, CHK, NOP, ILLEGAL and unimplemented opcodes leave exactly the defined program counter, stack contents, counter register and flags: all sixteen conditions are evaluated as defined for every combination of condition codes, targets are computed from the address after the opcode word, DBcc counts only the low word and stops at -1, and return addresses are those of the following instruction. The traps raise exactly their vector, exactly when their condition holds.",
 ["inputs"], "all opcodes of these instructions, all 32 condition-code combinations, all 8- and 16-bit displacements, all 65536 DBcc counters and boundary-complete CHK operands",
 "No test executes a branch; condition mistakes show only for particular flag combinations and off-by-two targets only for particular encodings.",
 [S+"interpreter.rs", S+"status_register.rs", S+"instruction.rs"],
 [("control-flow handlers", S+"interpreter.rs execute_bcc, execute_bsr, execute_dbcc, execute_jsr, execute_rts, execute_rtr, execute_trap"), ("condition table", S+"status_register.rs CONDITIONS")],
 observe=["M68000::interpreter_exception", "pc", "stack"])
prop("C06", "User-mode code can never reach supervisor state",
 "Code running in user mode can never change the supervisor bit, trace bit, interrupt mask or supervisor stack pointer, stop the processor or reset the peripherals, except by raising an exception. Every privileged instruction attempted in user mode raises a privilege violation and has no other effect, and the stack pointer seen as A7 is always the user one in user mode and the supervisor one in supervisor mode.",
 ["programs", "inputs"], "every opcode executed from user mode over all status-register patterns and adversarial operands, and all short sequences of instructions over an alphabet of privilege-relevant instructions",
 "Privilege checks are absent from the tests; a single handler without the check or an unmasked status-register write breaks isolation.",
 [S+"interpreter.rs", S+"isa.rs", S+"lib.rs", S+"status_register.rs"],
 [("privilege checks", S+"interpreter.rs check_supervisor users"), ("active stack pointer", S+"lib.rs Registers::sp/a")],
 state=[("sr.s", "supervisor bit", S+"status_register.rs"), ("usp/ssp", "the two stack pointers", S+"lib.rs")],
 observe=["registers after each step", "reset callback", "stop flag"])
prop("C07", "Memory failures and odd addresses become exceptions with contained effects",
 "Whenever an instruction must access an address the memory refuses, the step reports an access (bus) error; whenever it must access a word or long at an odd address or fetch from one, it reports an address error and the memory is never asked for that odd access. A fault raised this way leaves memory outside the instruction's own destination and registers the instruction does not use unchanged, and a program whose accesses all succeed never sees such an error.",
 ["fault_sequences", "inputs"], "every opcode with a failure injected at each byte of its memory footprint (all single-fault patterns) and with odd values in every address source",
 "The tests never run an instruction against failing memory; each access site has to propagate its own error.",
 [S+"interpreter.rs", S+"memory_access.rs", S+"interpreter_fast.rs", S+"exception.rs"],
 [("error propagation", S+"interpreter.rs get/set helpers returning Result<_, u8>"), ("alignment checks", S+"memory_access.rs / interpreter.rs check_alignment")],
 observe=["vector returned by interpreter_exception", "addresses seen by the memory implementation"])
prop("C08", "The disassembling interpreter behaves exactly like the fast interpreter",
 "Executing an instruction through the disassembling interpreter produces exactly the same registers, memory accesses, exceptions, cycle counts and stop state as the normal interpreter from the same state, and additionally returns the address and text of the instruction it executed. This holds for all instructions, including faulting, illegal and traced ones, and while exceptions are pending or the processor is stopped.",
 ["programs", "inputs"], "all 65536 opcodes over several register files, status registers, extension words, fault placements and pending exceptions, plus short multi-step histories",
 "The two interpreters are two separately written sets of ~80 wrappers; no test compares them.",
 [S+"interpreter_fast.rs", S+"interpreter_disassembler.rs"],
 [("per-instruction wrappers", S+"interpreter_fast.rs"), ("disassembler wrappers", S+"interpreter_disassembler.rs")],
 observe=["interpreter_exception vs disassembler_interpreter_exception"])
prop("C09", "Pending exceptions are never lost and are taken by priority and mask",
 "Every exception requested is eventually processed exactly once: none is lost when several are pending, whatever their vectors and order of request. Interrupts at or below the current mask stay pending until the mask allows them, level 7 is never masked, exceptions are taken so that the handler of the highest-priority one runs first, reset supersedes everything, and taking an interrupt raises the mask to its level.",
 ["histories", "schedules"], "all sequences of exception requests up to a bounded length over an alphabet covering every exception class and interrupt level, interleaved with execution steps, at every initial interrupt mask, in stopped and running state",
 "The outcome depends on the set and order of simultaneous requests; the tests never request two exceptions.",
 [S+"exception.rs", S+"lib.rs"],
 [("pending set", S+"exception.rs Exception Ord and BTreeSet"), ("masking and priority", S+"exception.rs process_pending_exceptions")],
 state=[("exceptions", "pending exceptions", S+"lib.rs M68000")],
 observe=["order of stacked frames", "sr", "pc"])
prop("C10", "Exception frames are laid out as defined and returning restores the program",
 "Taking an exception stores exactly the frame the configured stack format defines for that vector (address and contents of every word, the access information of bus and address errors excepted) on the supervisor stack, enters supervisor mode with tracing off and continues at the address in the vector table. The stacked address is that of the next instruction for interrupts and traps and that of the offending instruction for illegal, unimplemented and privileged ones; returning from the exception restores the program counter, the whole status register and both stack pointers exactly.",
 ["inputs", "configurations"], "all 256 vectors x both processor models x all status-register patterns x boundary stack pointers; every trapping instruction followed by a return",
 "No test processes an exception; frame layout depends on the vector and the processor model.",
 [S+"exception.rs", S+"cpu_details.rs", S+"interpreter.rs"],
 [("frame construction", S+"exception.rs process_exception"), ("return", S+"interpreter.rs execute_rte"), ("stack format", S+"cpu_details.rs StackFormat")],
 observe=["memory writes", "registers"])
prop("C11", "STOP and the run loops agree with single stepping",
 "After STOP the processor does nothing until an exception it accepts (an unmasked interrupt or a reset) is requested, and then continues after the STOP. Running for a cycle budget, until an exception or until stopped has exactly the effect, cycle total and reported vector of repeatedly executing single steps under the same stopping rule, and the automatic form of a step equals the reporting form followed by requesting the reported exception.",
 ["programs", "histories"], "programs enumerated over an instruction alphabet (plain, faulting, trapping and stopping instructions) x all cycle budgets in a range x pending exceptions",
 "The loops are untested; differences need a stop or an exception at a particular position in the budget.",
 [S+"interpreter_fast.rs", S+"lib.rs", S+"exception.rs", S+"interpreter.rs"],
 [("run loops", S+"interpreter_fast.rs cycle, cycle_until_exception, loop_until_exception_stop"), ("stop flag", S+"interpreter.rs execute_stop, exception.rs exception()")],
 observe=["cycle", "cycle_until_exception", "loop_until_exception_stop", "stop"])
prop("C12", "Assembled instructions decode back to what was asked for",
 "Every instruction emitted by the assembler decodes to exactly the instruction, size, registers, addressing modes, immediates and displacements that were requested. Requests that do not correspond to an MC68000 instruction (invalid register number, size, addressing mode, count or displacement) are rejected by a panic instead of being encoded into something else. Branches take the one-word form exactly when the displacement fits it.",
 ["inputs"], "every assembler function with all registers, sizes, conditions, directions and addressing modes, boundary-complete immediates and displacements, and out-of-range values for each parameter",
 "The tests assemble one or two instances of each function; a wrong field position or a missing validity check shows only for particular operands.",
 [S+"assembler.rs", S+"addressing_modes.rs"],
 [("emitters", S+"assembler.rs"), ("extension words", S+"addressing_modes.rs AddressingMode::assemble")],
 observe=["assembler::* output decoded by an independent decoder and by Instruction::from_memory"])
prop("C13", "Disassembly is total and faithfully describes the instruction",
 "Every decodable instruction disassembles without failing, to a text that names the executed operation with its size and shows every operand: registers, addressing mode, displacement, immediate value, register list and branch target, in source-destination order. Two instructions with different operations or operands never print the same text.",
 ["inputs"], "all 65536 opcodes x extension-word sets covering every 16-bit value for at least one carrier of every operand layout",
 "No test looks at the text of an instruction.",
 [S+"disassembler.rs", S+"addressing_modes.rs", S+"instruction.rs"],
 [("text production", S+"disassembler.rs"), ("operand text", S+"addressing_modes.rs Display")],
 observe=["Instruction::disassemble", "disassembler_interpreter"])
prop("C14", "The C interface behaves exactly like the Rust interface",
 "Each C function has exactly the effect and return value of its Rust counterpart on the same state, for both processor models: stepping, running, requesting exceptions, reading and writing registers, fetching words and disassembling. Every memory access the core makes reaches the matching C callback with the same address, value and user data, an error code returned by a callback becomes an access error, and text output never exceeds the buffer it was given and is always NUL-terminated.",
 ["programs", "inputs", "fault_sequences"], "all functions x both models x program alphabet x callback failure placements x all buffer lengths up to past the text length",
 "The C crate has no tests.",
 ["m68000-ffi/src/lib.rs", "m68000-ffi/src/mc68000.rs", "m68000-ffi/src/scc68070.rs", "include/m68000/m68000-ffi.h"],
 [("exported functions", "m68000-ffi/src/lib.rs cinterface macro"), ("callback adapter", "m68000-ffi/src/lib.rs impl MemoryAccess for m68000_callbacks_t")],
 observe=["extern C functions", "callbacks"])
prop("C15", "Memory implementations and accessors are big-endian, coherent and bounded",
 "For the provided memory implementations, reads of byte, word and long return the big-endian composition of the bytes last written, an access succeeds exactly when all its bytes lie inside, and a failed byte or word access changes nothing and never panics. The default long accessors equal two consecutive word accesses, the word iterator yields successive words until the first failure, and the core's next-word and peek accessors return the word at the program counter, advancing it or not as documented.",
 ["inputs", "histories"], "all memory sizes up to a bound x all addresses around the ends and around 2^32 x all operation sequences up to a bounded length",
 "The tests use one fixed buffer and in-range addresses.",
 [S+"memory_access.rs", S+"lib.rs"],
 [("slice memory", S+"memory_access.rs impl MemoryAccess for [u8]"), ("defaults", S+"memory_access.rs get_long, set_long, iter_u16"), ("fetch", S+"lib.rs get_next_word, get_next_long, peek_next_word")],
 observe=["MemoryAccess methods", "M68000::get_next_word"])
prop("C16", "Execution times follow the processor's timing tables",
 "Each executed instruction reports the execution time its processor model's tables define: the instruction's base time for its size and operand class, plus the effective address time of each memory or immediate operand, plus per-count and per-register terms, plus the time of exceptions processed in that step. For the MC68000 model these equal the MC68000 User's Manual tables, for the SCC68070 model the SCC68070 manual tables.",
 ["inputs", "configurations"], "all 65536 opcodes x condition outcomes x counts x register lists, for both models and for a model giving every table entry a distinct value",
 "No test checks any cycle count.",
 [S+"cpu_details.rs", S+"cpu_details/mc68000.rs", S+"cpu_details/scc68070.rs", S+"interpreter.rs", S+"addressing_modes.rs"],
 [("timing constants", S+"cpu_details/*.rs"), ("composition", S+"interpreter.rs execute_* return values"), ("EA times", S+"addressing_modes.rs exec time")],
 observe=["cycle count returned by the step functions"])
prop("C17", "Tracing traps exactly after each traced instruction",
 "With the trace bit set before an instruction, a trace exception follows that instruction once it has completed, and never otherwise; the trace bit as it was before the instruction decides, not as the instruction leaves it. Processing an exception turns tracing off until the status register is restored, and the documented exemption of privileged instructions is the only one for instructions that complete.",
 ["programs", "inputs"], "all opcodes x trace bit before x supervisor bit, and all short programs that set, clear and restore the trace bit",
 "No test sets the trace bit.",
 [S+"interpreter_fast.rs", S+"interpreter_disassembler.rs", S+"exception.rs"],
 [("trace decision", S+"interpreter_fast.rs interpreter_exception"), ("trace off", S+"exception.rs process_exception")],
 observe=["vector returned by the step", "sr"])
prop("C18", "Status register, register file and arithmetic helpers keep their meaning",
 "The status register converts to and from its 16-bit form with every implemented bit in its defined position and unimplemented bits reading as zero, each flag and condition accessor reads or writes exactly its own bits, and register accessors read and write exactly the selected register at the selected width with A7 following the supervisor bit. The carry and overflow helpers return exactly the mathematical result, carry and overflow for all operands.",
 ["inputs"], "all 65536 status-register values, all registers x widths x boundary values, all 8-bit operand pairs with both carries, all 16-bit pairs in the thorough run",
 "The tests sample a few values of each.",
 [S+"status_register.rs", S+"lib.rs", S+"utils.rs"],
 [("status register", S+"status_register.rs"), ("register accessors", S+"lib.rs Registers"), ("carry helpers", S+"utils.rs CarryingOps")],
 observe=["StatusRegister", "Registers", "utils traits"])
prop("C19", "Whole-machine histories follow the processor's step semantics",
 "For any sequence of instructions and exception requests, the sequence of registers, memory contents, cycle counts and reported exceptions is the one obtained by applying the processor's defined step to each prefix: no hidden state carries over between steps, and a copy of the machine continues exactly like the original. Cycle counts and outcomes depend only on the visible machine state, its pending exceptions and memory.",
 ["histories", "programs"], "all sequences up to a bounded depth over an alphabet of instructions and exception requests, from several initial states, for both processor models",
 "Hidden or stale state shows only over several steps; the tests run none.",
 [S+"lib.rs", S+"interpreter_fast.rs", S+"exception.rs", S+"interpreter.rs"],
 [("step", S+"interpreter_fast.rs interpreter_exception"), ("state", S+"lib.rs M68000")],
 observe=["interpreter_exception", "exception", "Clone"])
prop("C20", "No guest program or memory content can crash the host",
 "Executing any opcode with any extension words, register contents and status register, in memory that answers every access and with vectors and stacks that are usable, returns normally: no panic, arithmetic overflow or endless loop, also with arithmetic checks enabled. Disassembling any word sequence returns normally too.",
 ["inputs", "programs"], "all 65536 opcodes x register files of extreme values x extension words x both models, with overflow checks on, plus exhaustive short programs",
 "A panic needs the particular extreme operand (division, shift count, address wrap-around) in a particular instruction.",
 [S+"interpreter.rs", S+"addressing_modes.rs", S+"instruction.rs", S+"disassembler.rs", S+"exception.rs"],
 [("wrapping arithmetic", S+"interpreter.rs Wrapping use"), ("totality of dispatch", S+"interpreter_fast.rs execute table")],
 observe=["return of each public step function"])
prop("C21", "Each step touches exactly the memory its instruction defines, once",
 "A step asks the memory for exactly the bytes of its opcode and extension words, its memory operands, the stack entries it pops or pushes and the vectors of the exceptions it processes. Each such byte is read or written as often as the instruction defines, once per operand and direction; a memory operand that is modified in place is read before it is written, an operand that is only overwritten is not read, and one that is only read or only addressed is not written. Devices with side effects on access therefore see no spurious, repeated or missing access.",
 ["inputs", "configurations"], "all 65536 opcodes over register files, extension words and status registers, all register lists, all pairs of exception vectors, both processor models",
 "The tests compare values in plain memory, where an extra, repeated or missing access leaves no trace.",
 [S+"interpreter.rs", S+"addressing_modes.rs", S+"memory_access.rs", S+"exception.rs", S+"instruction.rs"],
 [("operand access", S+"interpreter.rs / memory_access.rs get_* and set_* helpers"), ("stacking", S+"exception.rs process_exception"), ("extension words", S+"memory_access.rs MemoryIter")],
 observe=["every call of the MemoryAccess implementation"])
prop("C22", "A reset brings any machine to the defined start state",
 "A new core has all registers zero, status register $2700 and a reset pending, or none when built without one. A step with a reset pending, whatever the state (running, stopped, traced, user or supervisor mode) and whatever else is pending, loads the supervisor stack pointer from address 0 and the program counter from address 4, sets supervisor mode and interrupt mask 7, turns tracing off, writes no memory and keeps every other register, discards all other pending exceptions, and then executes the first instruction in the same step. Nothing else of the past influences the machine afterwards.",
 ["histories", "inputs"], "all status registers x all other pending vectors x order of request x stopped or not x boundary vectors, and a reset at the end of every short history, for both processor models",
 "The tests never reset a core that has a past.",
 [S+"lib.rs", S+"exception.rs", S+"interpreter_fast.rs", S+"interpreter_disassembler.rs"],
 [("construction", S+"lib.rs new / new_no_reset"), ("reset", S+"exception.rs reset"), ("superseding", S+"exception.rs process_pending_exceptions")],
 observe=["registers, memory accesses, cycles and vector of the step after the request", "the following steps"])
prop("C23", "The command-line tools agree with the library",
 "The disassemble program lists every instruction of the given range of the input file exactly once, in order: each line is the address where the instruction starts (hexadecimal with 0x) and the text the library gives for it, the first instruction starts at the beginning position, each next one where the previous one ended including its extension words, and every instruction that starts before the ending position or the end of the file is listed. The listing goes to the output file if one is given and can be created, else to the standard output. A file that ends inside an instruction of the range ends the program with an error status after the lines before it. The table generator writes a table whose 65536 entries are those of the library's decoder.",
 ["inputs", "configurations"], "all files of up to 3 words (thorough: 4) over an alphabet of words, with and without an odd byte, x all ranges; a file holding every opcode, whole and in 63 parts; all 65536 generated entries",
 "No test runs the programs.",
 ["m68000/src/bin/disassemble.rs", "m68000/src/bin/decoder.rs", S+"disassembler.rs", S+"decoder.rs", S+"memory_access.rs", S+"instruction.rs"],
 [("listing loop", "m68000/src/bin/disassemble.rs main"), ("table generator", "m68000/src/bin/decoder.rs"), ("decoder table", S+"decoder.rs DECODER")],
 observe=["output and exit status of the programs"])
prop("C24", "The building blocks of instructions convert without loss",
 "The public data types instructions and exceptions are made of keep their meaning in every conversion. Assembling an addressing mode gives the mode and register field and the extension words that read back as the same mode, in source position and, where the MC68000 allows the mode, in the MOVE destination position. Verifying a mode against lists of modes and mode 7 registers answers exactly whether it is among them and its register exists. Brief extension words hold exactly the fields they are made from, and register numbers above 7 are refused. Sizes convert to and from their encodings, and codes that encode no size are refused. Printing in hexadecimal changes the base of immediate values only. Each operand accessor returns the operands of its own form and refuses all others, and the decoding table yields the operands of every opcode. Exceptions are totally ordered, equal exactly when their vectors are.",
 ["inputs"], "all 65536 opcodes through all 29 accessors; all modes x registers x 3 x 65536 words; all 256 x 32 lists; all 65536 brief extension words and size codes; all triples of vectors",
 "The tests sample a few modes of some instructions and none of these functions by themselves.",
 [S+"addressing_modes.rs", S+"instruction.rs", S+"isa.rs", S+"exception.rs"],
 [("addressing modes", S+"addressing_modes.rs from_memory/assemble/assemble_move_dst/verify"), ("operands", S+"instruction.rs Operands"), ("decoding table", S+"isa.rs ISA_ENTRY"), ("ordering", S+"exception.rs Ord")],
 observe=["returned values", "panics"])
prop("C25", "The shipped C headers describe the compiled library",
 "With the ffi feature, the headers in include/m68000 can be used as they are and describe the library exactly: each compiles on its own, in any order, in C and in C++; every structure, tagged union and enumeration of the headers has the size, field places and values of its Rust counterpart, so that a C program reads in every field, by the name the header gives it, what Rust wrote, and the reverse; and a C program compiled against them and linked with the static library of the documented build gets from every function the results, registers, disassembly text and memory accesses that the Rust interface gives.",
 ["inputs", "configurations"], "all orders of inclusion x 4 compilers x 24 language standards; every field of every structure; the decoded instructions of all 65536 opcodes and every form of operands with boundary values; 13 calls on all 65536 opcodes x both models x compilers x optimisation levels",
 "No test includes the headers, compiles C or looks at the layout of a structure.",
 ["include/m68000/m68000.h", "include/m68000/m68000-ffi.h", "m68000-ffi/src/lib.rs", S+"instruction.rs", S+"addressing_modes.rs", S+"lib.rs", S+"status_register.rs", S+"exception.rs"],
 [("headers", "include/m68000"), ("repr(C) types", S+"instruction.rs, addressing_modes.rs, lib.rs, status_register.rs, exception.rs"), ("interface functions", "m68000-ffi/src/lib.rs cinterface!")],
 observe=["compilation and linking", "fields read and written by C", "results and callbacks of the linked program"])
prop("C26", "Cores are independent of each other, of their place and of the thread",
 "What a core does depends only on its own state and the memory structure it is given. Any number of cores of both processor models, driven through the Rust methods or the C interface, in any order in one thread, or each in any thread, or one from inside a memory access of another, each behave exactly as if they were alone in the process: same results, cycle counts, exceptions, disassembly, memory accesses and registers. Nothing an earlier or deleted core did, and no copy made of a core, influences it; moving a core in memory does not either. Cores and the public values of the library may be moved to and shared with other threads.",
 ["schedules", "histories", "inputs"], "all orders of the lives of all pairs of 64 actors (4 kinds of core x 16 programs); an action of one inside every memory access of every action of the other, in the same and in another thread; all assignments of actions to two threads; cores succeeding each other in the same storage; all 65536 opcodes run by four cores in all 24 orders x both directions x both interfaces; thorough: triples",
 "Every test runs one core, or several that never meet, in a thread of its own.",
 [S+"lib.rs", S+"interpreter_fast.rs", S+"interpreter_disassembler.rs", S+"interpreter.rs", S+"exception.rs", "m68000-ffi/src/lib.rs"],
 [("core state", S+"lib.rs M68000"), ("stepping", S+"interpreter_fast.rs, interpreter_disassembler.rs"), ("C cores", "m68000-ffi/src/lib.rs cinterface!")],
 observe=["results, registers and memory accesses of every action", "auto traits"])
prop("C27", "The build configuration does not change behaviour",
 "What a core, the disassembler, the assembler and the other public functions do does not depend on how the crate is built: with or without optimisation, for size, with link-time optimisation, with overflow checks and debug assertions (development builds) or without them (release builds), and with or without the ffi feature. Results, registers, cycle counts, exceptions, memory accesses and encodings are the same, an argument that is rejected with a panic is rejected in all of them, and every property of this list that holds in one holds in the others.",
 ["configurations", "inputs", "histories"], "the explorations of C01-C12, C15, C17, C18, C20-C22, C24 repeated as built in 1 (quick: chosen spaces) or 5 (thorough) other configurations, compared item by item",
 "The tests run in one configuration, the development build without the feature, which is not the one that users run.",
 ["m68000/Cargo.toml", "Cargo.toml", S+"lib.rs", S+"assembler.rs", S+"addressing_modes.rs", S+"interpreter_fast.rs", S+"interpreter_disassembler.rs", S+"exception.rs"],
 [("feature", "m68000/Cargo.toml ffi"), ("argument checks", S+"assembler.rs, addressing_modes.rs"), ("wrapping arithmetic", S+"lib.rs Registers, instruction semantics")],
 observe=["everything the other checks observe, as digests and as verdicts"])
prop("C28", "Memory-safe and the same on every host",
 "On a host of any word size and byte order, no instruction executed through the Rust or the C interface and no history of calls that a C program may make (creating and deleting cores in any order, running, disassembling into a buffer of the stated length, requesting exceptions, fetching, using the register pointers for as long as the core lives) has undefined behaviour: nothing is read before it is written, written outside the buffer given, used after it was given back or given back twice, and when the program has deleted its cores nothing remains allocated. The results are the same on all hosts.",
 ["histories", "inputs", "configurations"], "all histories of 3 (thorough: 4) calls over 40 on the machine; all histories of 1 call over 40 and 2 over 14 (thorough: 2 over 40) interpreted with all checks for a 32-bit big-endian host (thorough: and this one); one (thorough: three) opcodes of every instruction, size and pair of addressing modes x 4 situations on both interfaces",
 "No test runs on another host, calls a function of the C interface, or looks at what remains allocated.",
 ["m68000-ffi/src/lib.rs", S+"lib.rs", S+"memory_access.rs", S+"interpreter_fast.rs", S+"interpreter_disassembler.rs"],
 [("C interface", "m68000-ffi/src/lib.rs cinterface!"), ("byte order", S+"memory_access.rs"), ("core", S+"lib.rs M68000")],
 observe=["undefined behaviour", "allocations that remain", "results, registers, text, memory writes"])
prop("C29", "A processor model of the user's own is honoured",
 "An application may configure the core with a processor model of its own (an implementation of CpuDetails). The core then takes every execution time, including those of exceptions and of the reset, from that model and only from it, at the full width of the host's usize, in single steps and in the totals, budgets and stopping points of the run loops, with either interpreter; it builds and unwinds the stack frames of the format the model names. Everything else (results, registers, memory accesses, reported exceptions, stop state) is exactly that of the provided processor with the same stack format, whatever the times are: also when they are zero, above 32 bits or equal to those of another model, and when the model carries data of its own.",
 ["inputs", "histories", "configurations"], "four models (times all different above 32 bits with each frame format; all different and small with data of its own; all zero) x all opcodes x register files x extension words x operands, refused and odd operands; all pairs of vectors; all histories of 5 (thorough: 6) of 23 actions; all programs of 4 (thorough: 5) of 12 instructions with budgets around every partial sum",
 "The tests and the benches only use the two provided models, in which many of the times coincide and all are small.",
 [S+"cpu_details.rs", S+"interpreter.rs", S+"interpreter_fast.rs", S+"exception.rs", S+"addressing_modes.rs", S+"memory_access.rs"],
 [("the trait", S+"cpu_details.rs CpuDetails"), ("frame formats", S+"exception.rs process_exception"), ("run loops", S+"interpreter_fast.rs cycle, cycle_until_exception, loop_until_exception_stop")],
 observe=["cycle counts and totals", "registers, memory accesses, vectors and stop state of every step"])
prop("C30", "The example microcontroller runs a ROM on its memory map",
 "The example program scc68070, started in a directory with a file cpudiag40.rom, runs that ROM on a minimal SCC68070 board and prints what the ROM writes to the serial port. The file appears from 0x400000 on (at most 1 MiB of it; what lies behind a shorter one reads as 0) in a memory that covers the addresses below 0x500000 and is otherwise 0 at first; the reset vectors are those at its beginning, although the addresses 0 to 7 themselves are memory. The only other addresses are the registers 0x80002011 to 0x8000201B, which read as 0, 0x80002013 as 0x0E; 0x80002011 to 0x80002019 can be written, and each byte written to 0x80002019 (also as part of a word or long word) is printed as the character with that code. Every other access is a bus error, without aliases of what exists; a word is its two bytes in big-endian order. The program executes exactly 1 000 000 000 instructions, prints one line with the time they took and ends successfully; without a readable ROM file it ends with an error.",
 ["inputs"], "every access kind x every address around the peripheral, the ends of the memory and of the address space, and all powers of two with their combinations with existing addresses; the whole memory printed for ROM lengths around all limits and after being written in bytes, words and long words; reset vectors; the billionth instruction",
 "No test runs the program; the ROM it was written for touches a few of the addresses.",
 ["m68000/src/bin/scc68070.rs"],
 [("memory map", "m68000/src/bin/scc68070.rs Memory68070"), ("run", "m68000/src/bin/scc68070.rs main")],
 observe=["standard output", "exit status"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
