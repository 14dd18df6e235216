import json,subprocess
log=dict(reversed(l.split(' ',1)) for l in subprocess.check_output(['git','-C','/repo','log','--format=%h %s'],text=True).splitlines())
fixed=[
('C09','fix: do not lose pending exceptions that share a priority','two different exceptions of equal priority pending together (e.g. vectors 25 and 26): all but the first requested were discarded'),
('C09','fix: process pending interrupts by level, on-chip ones included','interrupts of levels 3 and 5 pending together: the handler of the lower level could run first; on-chip interrupts were ordered with the traps'),
('C06','fix: ORI and EORI to CCR leave the system byte alone','ORI #$2000,CCR in user mode entered supervisor mode (also C03)'),
('C02','fix: EXT.W sets N and Z from the word result','EXT.W D0 with D0=$80000001 set N from bit 31'),
('C02','fix: DIVS with a quotient of -32768 is not an overflow','DIVS with quotient exactly -32768 reported an overflow'),
('C05','fix: JSR computes its target before pushing the return address','JSR (d,A7) and JSR (A7) jumped relative to the decremented stack pointer'),
('C05','fix: CHK sets N according to the bound that is violated','CHK trapping left N unchanged'),
('C01','fix: MOVEM to (An)+ and from -(An) are illegal opcodes','opcodes 4898-489F, 48D8-48DF, 4CA0-4CA7, 4CE0-4CE7 decoded as MOVEM'),
('C15','fix: word access at the last byte of a byte slice fails instead of panicking','[u8] get_word/set_word at len-1 panicked, set_word after writing one byte'),
('C16','fix: count the long operand time once for read-modify-write instructions','ADD.L D0,(A0) took 24 cycles instead of 20 on the MC68000'),
('C08','fix: the disassembling interpreter skips an unreadable opcode like the normal one','opcode fetch refused: the two interpreters left different program counters'),
('C11','fix: cycle returns the cycles executed by the STOP that overshoots the budget','cycle(mem, 2) executing a 4-cycle STOP returned 2'),
('C10','fix: the saved PC of an illegal, unimplemented or privileged instruction is its own address','vectors 4, 8, 10 and 11 stacked the address after the instruction (also C05)'),
('C11','fix: a masked interrupt does not leave the stopped state','requesting an interrupt the mask inhibits ended STOP'),
('C11','fix: user and spurious interrupts leave the stopped state','requesting vector 24 or 64..255 while stopped left the processor stopped'),
('C16','fix: processing time of line A, line F and of vectored interrupts','vectors 10, 11, 15 and 57..255 took the reset time'),
('C12','fix: reject invalid registers in the operands of ADDA, CMPA, MOVE, MOVEA and SUBA','adda(0, Word, Drd(8)) was assembled as D0C8 (ADDA.W A0,A0); likewise for every mode with a register above 7 in ADDA, CMPA, SUBA, MOVEA and the MOVE source'),
('C14','fix: leave a zero-length disassembly buffer untouched in the C interface','m68000_*_disassembler_interpreter with len = 0 copied len - 1 = SIZE_MAX bytes'),
('C04','fix: LINK A7 stores the decremented stack pointer','LINK A7,#d stored the stack pointer as it was before its decrement'),
('C25','fix: m68000-ffi.h includes stddef.h for size_t','a C or C++ program that includes m68000-ffi.h first, like the documented example, did not compile (size_t undeclared)'),
]
known=[
('C16','C16:Chk:operand-time-of-trapping-instruction','CHK that traps: the effective address time is not counted (TODO in interpreter.rs: the Err path carries no time)'),
('C16','C16:Divs:operand-time-of-trapping-instruction','DIVS by zero: the effective address time is not counted (TODO in interpreter.rs)'),
('C16','C16:Divu:operand-time-of-trapping-instruction','DIVU by zero: the effective address time is not counted (TODO in interpreter.rs)'),
]
ROLES = {'Imm': 'fetching immediate operand', 'ImmHi': 'fetching immediate operand high', 'ImmLo': 'fetching immediate operand low', 'List': 'fetching list operand', 'Disp': 'fetching displacement operand', 'Count': 'fetching count operand',
         'D16': 'Ariwd', 'Brief': 'Ariwi8', 'AbsW': 'AbsShort', 'AbsHi': 'AbsLong high', 'AbsLo': 'AbsLong low', 'PcD16': 'Pciwd', 'PcBrief': 'Pciwi8', 'ImmEa': 'Immediate', 'ImmEaHi': 'Immediate high', 'ImmEaLo': 'Immediate low'}
for r, site in ROLES.items():
    known.append(('C07', 'ext-word-fetch-panic:' + r, f'memory refuses an extension word read at the call site "{site}": the process panics (expect) instead of an access error, because Instruction::from_opcode and AddressingMode::from_memory are infallible public functions'))
for m, i in [('Trap', 'TRAP #n'), ('Trapv', 'TRAPV that traps'), ('Chk', 'CHK that traps'), ('Divs', 'DIVS by zero'), ('Divu', 'DIVU by zero')]:
    known.append(('C17', f'C17:{m}:no-trace-after-trap', f'{i} with the trace bit set: the trace exception that should follow the processing of the trap is never raised (a step reports one exception only, and the trace cannot be raised behind the back of an application that handles the trap itself)'))
known.append(('C12','C12:Btst:not-rejected:Imm','btst_static with an immediate operand is assembled (083C), which is no MC68000 instruction and which the decoder calls unknown; the existing test tests/assembler.rs requires it to be assembled'))
with open('/verif/known_findings.jsonl','w') as f:
    for p,k,w in known: f.write(json.dumps({'status':'known','property':p,'key':k,'what':w})+'\n')
    for p,m,w in fixed: f.write(json.dumps({'status':'fixed','property':p,'commit':log[m],'what':w,'entry':f'fixed: property={p} {log[m]} {w}'})+'\n')
