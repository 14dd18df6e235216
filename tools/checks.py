LOCK = 'explicit-state model checking: exhaustive enumeration of bounded state spaces of a reference model, every model transition replayed on the implementation (lock-step conformance)'
CHECKS['C02'] = (LOCK, 'All opcodes of the class x register files x extension words x operand lattices; complete byte operand pairs with condition codes; complete 16-bit divisors. Operands outside the lattices are not covered for word and long sizes.')
CHECKS['C03'] = (LOCK, 'All opcodes of the class; complete byte operands; all shift counts 0..63 on boundary values; all immediates to CCR/SR; word and long operands from lattices.')
CHECKS['C04'] = (LOCK, 'All opcodes of the class; all 65536 extension words, register lists and displacements on several register files; registers from fixed files.')
CHECKS['C05'] = (LOCK, 'All opcodes of the class x all condition codes; all displacements, DBcc counters, CHK values and saved CCR words; program counters and stack pointers from fixed sets.')
CHECKS['C06'] = (LOCK, 'Invariant of user mode checked on every opcode from every combination of register file, extension words, operands and condition codes; all 65536 operand words of the instructions that load the condition codes; all user programs of five (thorough: six) instructions over 22.')
CHECKS['C07'] = (LOCK, 'Every access of every opcode refused in turn, every access of exception processing refused in turn, odd address patterns, opcode fetch at 5 x 65536 addresses. Partial effects of a faulting instruction are only bounded, not compared.')
CHECKS['C08'] = ('explicit-state enumeration of bounded configurations with product exploration of the two interpreters of the implementation (bisimulation check over the following steps)', 'All opcodes, all pairs of pending vectors, faults at every access; register and operand values from fixed sets.')
CHECKS['C16'] = (LOCK, 'All opcodes, all values of each extension word of one opcode per form, condition outcomes, shift counts and exception vectors on both processors; the model tables are transcribed from the manuals.')
CHECKS['C20'] = ('exhaustive enumeration of the opcode space with bounded operand and extension-word lattices, executed on the implementation under a panic monitor', 'All opcodes x extension-word patterns x extreme register files; all values of the first extension word per addressing form; all pairs of pending vectors; pairs of instructions strided; lives of 66 000 steps.')
HIST = 'explicit-state model checking: all histories of steps and requests up to a depth, explored on the implementation in lock-step with the reference model'
CHECKS['C09'] = ('exhaustive enumeration of sets and histories of exception requests on the implementation, with a ghost monitor that reads the processing order back from the stacked frames', 'All ordered pairs of vectors under all masks on the MC68000, all ordered triples (thorough: quadruples) of 28 representative vectors, all ranges of vectors at once, faults while pending vectors are processed, all histories of six (thorough: seven) actions over 14.')
CHECKS['C10'] = (HIST, 'All vectors x all 1024 status registers x both stack formats; all pairs of vectors nested; all opcodes through raise, process and return; all status and format words in RTE. Memory contents and stack positions from fixed sets.')
CHECKS['C11'] = ('exhaustive enumeration of programs, requests and cycle budgets; product exploration of the run loops against iterated steps, and of STOP in lock-step with the reference model', 'All STOP operands; all vectors for the STOP operands that differ in mask and supervisor bit; all programs of three (thorough: four) instructions over 14 and 9 (thorough: 67) budgets; counted loops of up to 65536 turns; budgets up to usize::MAX.')
CHECKS['C17'] = (HIST, 'All opcodes with tracing on and off from bounded register and operand sets; all programs of four (thorough: five) instructions over 18 that change the trace bit, of three (thorough: four) with an interrupt between traced instructions.')
CHECKS['C19'] = (HIST, 'All histories of four (thorough: five) actions over 39 instructions and requests, and over 38 actions of a host, from three start states on both processors; each action 66 000 times on one core.')
ENUM = 'exhaustive enumeration of the input space of the implementation, compared item by item with an independent reference model (explicit-state conformance checking)'
CHECKS['C01'] = (ENUM, 'All 65536 opcodes against an independent decoder; all 65536 values of every extension word of one opcode per layout (thorough: of every opcode); opcode fetches refused at every alignment.')
CHECKS['C12'] = (ENUM, 'Every assembler function with all registers, sizes, conditions, modes and directions, complete bytes and boundary words, and out-of-range values of every parameter; decoded back by the independent decoder and by the crate.')
CHECKS['C13'] = (ENUM, 'All opcodes with extension words from value sets, all 65536 values of every extension word of one opcode per layout (thorough: of every opcode); texts compared with an independent renderer modulo spelling, and checked to be pairwise distinct.')
CHECKS['C14'] = ('product exploration of the C interface (called from C through its headers) and the Rust interface over all opcodes, failure placements, buffer lengths, short programs, budgets and exception requests', 'All opcodes from bounded register and extension word sets; every access refused in turn; all buffer lengths up to two past the text; all programs of three (thorough: four) instructions over 17; all pairs of named vectors; all 65536 words and boundary longs fetched, read and written. Calls whose Rust counterpart panics are skipped.')
CHECKS['C15'] = ('explicit-state exploration of all access histories up to a depth on memories of all small sizes, against a byte-array model', 'All sizes up to the bound, all addresses around the ends and around 2^32, all histories of the stated depth; 18 sizes up to 16 MiB around every power of two.')
CHECKS['C18'] = (ENUM, 'All 65536 status registers and their fields, all registers x widths, all byte operands with carries; word operands complete in the thorough run for addition and subtraction; long operands from lattices.')
CHECKS['C21'] = (LOCK, 'All opcodes x register files x extension words x status registers, all register lists, all pairs of vectors; the accesses of both sides compared byte by byte. Steps that fault are left to C07.')
CHECKS['C22'] = (HIST, 'All 1024 status registers x all other vectors x order x stopped; reset after every history of four (thorough: five) of 39 actions; reset vectors from a boundary set. Unreadable reset vectors are not covered (the core panics by design: there is no state to fall back to).')
CHECKS['C23'] = (ENUM, 'The two programs run on all files of up to three (thorough: four) words over 12 words with every range, into new and existing output files, on a file of all opcodes, and the complete generated table. Odd beginning positions are not explored.')
CHECKS['C24'] = (ENUM, 'All opcodes, modes, registers, lists, brief extension words, size codes and triples of vectors; absolute long addresses and long immediates from 3 x 65536 values.')
CHECKS['C25'] = (ENUM, 'All inclusion orders with 4 compilers and 24 language standards; all structures, field by field, in both directions; C and C++ programs linked with the static library compared with the Rust side on all opcodes x 13 calls x both models. One platform (x86-64 Linux).')
CHECKS['C26'] = ('stateless exploration of all interleavings of the lives of several cores on the implementation, at the granularity of actions and of memory accesses, compared with records made in processes of their own', 'All pairs of 64 actors in all orders; nesting at every memory access; two threads (quick: every seventh pair); all opcodes in all orders of four cores. Programs are three actions long; preemption between memory accesses is not explored (the library calls out only there and holds no synchronisation).')
CHECKS['C27'] = ('differential exhaustive enumeration: the bounded spaces of the other checks explored again on the implementation as built in other configurations, outcomes compared item by item and verdict by verdict', 'Release with the ffi feature on 35 space sets and the C interface (C14) in a plain release build (thorough: five configurations, all quick spaces of 20 properties in one of them). One compiler version and target; outcomes compared as 64-bit digests per item.')
CHECKS['C28'] = ('stateless exploration of all histories of C interface calls up to a depth, natively with a checking allocator and in an interpreter that detects undefined behaviour (Miri) on another host, with results compared between hosts', 'All histories of three (thorough: four) calls over 40 natively, of two over 14 (thorough: 40) interpreted; one (three) opcodes per instruction form x 4 situations. Aliasing rules (Stacked Borrows) are not judged; the caller is Rust code using C function pointers.')
CHECKS['C29'] = (LOCK, 'Four processor models of an application stand for all: times all different and above 32 bits with each frame format, all different and small with data of its own, all zero. All opcodes, all pairs of vectors, all histories of five (thorough: six) of 23 actions, all programs of four (thorough: five) of 12 instructions with budgets around every partial sum of the times.')
CHECKS['C30'] = (ENUM, 'The program run on generated ROMs: every kind of access at all addresses of bounded sets (4344; thorough 13632), the complete memory printed for 4 (thorough: 13) ROM lengths and after three ways of writing all of it, 2 (thorough: 33) pairs of reset vectors, one program of exactly a billion instructions. Accesses that wrap around the end of the address space are not made; the text of the last line is not judged beyond being one line that begins with a digit.')
