// The C side of the checker: uses the C interface exactly as a C program does, through the repository's headers.
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include "m68000/m68000-ffi.h"

// Callbacks written in C that hand over to the recording memory (in Rust, with a fixed plain ABI).
uint64_t tape_get(uint32_t kind, uint32_t addr, void *user);                 // exception << 32 | data
uint64_t tape_set(uint32_t kind, uint32_t addr, uint32_t data, void *user);
void tape_reset(void *user);

static m68000_memory_result_t unpack(uint64_t v)
{
    m68000_memory_result_t r;
    memset(&r, 0xA5, sizeof r); // padding is not part of the result
    r.data = (uint32_t)v;
    r.exception = (uint8_t)(v >> 32);
    return r;
}
static m68000_memory_result_t gb(uint32_t a, void *u) { return unpack(tape_get(1, a, u)); }
static m68000_memory_result_t gw(uint32_t a, void *u) { return unpack(tape_get(2, a, u)); }
static m68000_memory_result_t gl(uint32_t a, void *u) { return unpack(tape_get(4, a, u)); }
static m68000_memory_result_t sb(uint32_t a, uint8_t d, void *u) { return unpack(tape_set(1, a, d, u)); }
static m68000_memory_result_t sw(uint32_t a, uint16_t d, void *u) { return unpack(tape_set(2, a, d, u)); }
static m68000_memory_result_t sl(uint32_t a, uint32_t d, void *u) { return unpack(tape_set(4, a, d, u)); }
static void rst(void *u) { tape_reset(u); }

static m68000_callbacks_t callbacks(void *user)
{
    m68000_callbacks_t c;
    c.get_byte = gb;
    c.get_word = gw;
    c.get_long = gl;
    c.set_byte = sb;
    c.set_word = sw;
    c.set_long = sl;
    c.reset_instruction = rst;
    c.user_data = user;
    return c;
}

// Plain representation of the registers shared with the Rust side.
typedef struct
{
    uint32_t d[8], a[7], usp, ssp, pc;
    uint8_t t, s, mask, x, n, z, v, c;
} plain_regs;

static void out_regs(const m68000_registers_t *r, plain_regs *p)
{
    memcpy(p->d, r->d, sizeof p->d);
    memcpy(p->a, r->a, sizeof p->a);
    p->usp = r->usp;
    p->ssp = r->ssp;
    p->pc = r->pc;
    p->t = r->sr.t;
    p->s = r->sr.s;
    p->mask = r->sr.interrupt_mask;
    p->x = r->sr.x;
    p->n = r->sr.n;
    p->z = r->sr.z;
    p->v = r->sr.v;
    p->c = r->sr.c;
}
static void in_regs(const plain_regs *p, m68000_registers_t *r)
{
    memcpy(r->d, p->d, sizeof p->d);
    memcpy(r->a, p->a, sizeof p->a);
    r->usp = p->usp;
    r->ssp = p->ssp;
    r->pc = p->pc;
    r->sr.t = p->t;
    r->sr.s = p->s;
    r->sr.interrupt_mask = p->mask;
    r->sr.x = p->x;
    r->sr.n = p->n;
    r->sr.z = p->z;
    r->sr.v = p->v;
    r->sr.c = p->c;
}

typedef struct
{
    size_t cycles;
    uint32_t pc;
    uint32_t data;
    uint32_t exception; // 0x100: the function returns none
} plain_result;

// The vectors by their C names.
static const m68000_vector_t VECTORS[] = {
    ResetSspPc, AccessError, AddressError, IllegalInstruction, ZeroDivide, ChkInstruction, TrapVInstruction, PrivilegeViolation, Trace,
    LineAEmulator, LineFEmulator, FormatError, UninitializedInterrupt, SpuriousInterrupt,
    Level1Interrupt, Level2Interrupt, Level3Interrupt, Level4Interrupt, Level5Interrupt, Level6Interrupt, Level7Interrupt,
    Trap0Instruction, Trap1Instruction, Trap2Instruction, Trap3Instruction, Trap4Instruction, Trap5Instruction, Trap6Instruction, Trap7Instruction,
    Trap8Instruction, Trap9Instruction, Trap10Instruction, Trap11Instruction, Trap12Instruction, Trap13Instruction, Trap14Instruction, Trap15Instruction,
    Level1OnChipInterrupt, Level2OnChipInterrupt, Level3OnChipInterrupt, Level4OnChipInterrupt, Level5OnChipInterrupt, Level6OnChipInterrupt, Level7OnChipInterrupt,
    UserInterrupt,
};

#define MODEL(M) \
    void *M##_new(int reset) { return reset ? m68000_##M##_new() : m68000_##M##_new_no_reset(); } \
    void M##_delete(void *c) { m68000_##M##_delete(c); } \
    const void *M##_registers(const void *c, plain_regs *p) { const m68000_registers_t *r = m68000_##M##_registers(c); out_regs(r, p); return r; } \
    void *M##_registers_mut(void *c, const plain_regs *p) { m68000_registers_t *r = m68000_##M##_registers_mut(c); if(p) in_regs(p, r); return r; } \
    void M##_get_registers(const void *c, plain_regs *p) { m68000_registers_t r = m68000_##M##_get_registers(c); out_regs(&r, p); } \
    void M##_set_registers(void *c, const plain_regs *p) { m68000_registers_t r; memset(&r, 0, sizeof r); in_regs(p, &r); m68000_##M##_set_registers(c, r); } \
    void M##_exception(void *c, uint32_t i) { m68000_##M##_exception(c, VECTORS[i]); } \
    plain_result M##_call(void *c, void *user, uint32_t what, size_t n, char *str) \
    { \
        m68000_callbacks_t cb = callbacks(user); \
        plain_result r = { 0, 0, 0, 0x100 }; \
        switch(what) \
        { \
            case 0: r.cycles = m68000_##M##_interpreter(c, &cb); break; \
            case 1: { m68000_exception_result_t e = m68000_##M##_interpreter_exception(c, &cb); r.cycles = e.cycles; r.exception = e.exception; break; } \
            case 2: { m68000_disassembler_result_t e = m68000_##M##_disassembler_interpreter(c, &cb, str, n); r.cycles = e.cycles; r.pc = e.pc; break; } \
            case 3: { m68000_disassembler_exception_result_t e = m68000_##M##_disassembler_interpreter_exception(c, &cb, str, n); r.cycles = e.cycles; r.pc = e.pc; r.exception = e.exception; break; } \
            case 4: r.cycles = m68000_##M##_cycle(c, &cb, n); break; \
            case 5: { m68000_exception_result_t e = m68000_##M##_cycle_until_exception(c, &cb, n); r.cycles = e.cycles; r.exception = e.exception; break; } \
            case 6: { m68000_exception_result_t e = m68000_##M##_loop_until_exception_stop(c, &cb); r.cycles = e.cycles; r.exception = e.exception; break; } \
            case 7: { m68000_memory_result_t e = m68000_##M##_get_next_word(c, &cb); r.data = e.data; r.exception = e.exception; break; } \
            case 8: { m68000_memory_result_t e = m68000_##M##_get_next_long(c, &cb); r.data = e.data; r.exception = e.exception; break; } \
            case 9: { m68000_memory_result_t e = m68000_##M##_peek_next_word(c, &cb); r.data = e.data; r.exception = e.exception; break; } \
        } \
        return r; \
    }

MODEL(mc68000)
MODEL(scc68070)
