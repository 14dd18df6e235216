/* A program that uses the C interface as an application does: compiled by every compiler as C and as C++, linked with the
   static library of the documented build, and compared case by case with the Rust side (src/bin/mc_head.rs mirrors it). */
#include HEADER
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

/* A computed memory: the content of an address depends on the case; at most 64 bytes are written. */
typedef struct
{
    uint32_t key, calls, writes, resets, refuse;
    uint32_t at[64];
    uint8_t val[64];
    uint64_t log;
} mem_t;

static uint64_t mix(uint64_t h, uint64_t v)
{
    h ^= v + 0x9E3779B97F4A7C15u + (h << 6) + (h >> 2);
    h *= 0xBF58476D1CE4E5B9u;
    return h ^ (h >> 29);
}

static uint8_t content(const mem_t *m, uint32_t a)
{
    uint32_t i;
    for(i = m->writes; i-- > 0;)
        if(m->at[i] == a) return m->val[i];
    if(m->calls > 120) return a & 1 ? 0xFC : 0x4A;
    if((a & ~1u) == 0x1000) return a & 1 ? (uint8_t)m->key : (uint8_t)(m->key >> 8);
    if(a > 0x1001 && a < 0x100A) return (uint8_t)(mix(m->key, a) >> 20);
    return a & 1 ? 0xFC : 0x4A;
}
static uint32_t get(mem_t *m, uint32_t a, uint32_t n)
{
    uint32_t v = 0, i;
    m->calls++;
    m->log = mix(mix(m->log, n), a);
    for(i = 0; i < n; i++) v = v << 8 | content(m, a + i);
    return v;
}
static void put(mem_t *m, uint32_t a, uint32_t n, uint32_t v)
{
    uint32_t i;
    m->calls++;
    m->log = mix(mix(mix(m->log, n + 16), a), v);
    for(i = 0; i < n && m->writes < 64; i++)
    {
        m->at[m->writes] = a + i;
        m->val[m->writes++] = (uint8_t)(v >> (8 * (n - 1 - i)));
    }
}
static m68000_memory_result_t ok(uint32_t v)
{
    m68000_memory_result_t r;
    memset(&r, 0xA5, sizeof r);
    r.data = v;
    r.exception = 0;
    return r;
}
/* Data accesses that are refused. */
static int bad(mem_t *m, uint32_t a) { return m->refuse && (a < 0x1000 || a >= 0x1010); }
static m68000_memory_result_t err(mem_t *m, uint32_t a)
{
    m68000_memory_result_t r;
    m->log = mix(m->log, a);
    memset(&r, 0x77, sizeof r);
    r.exception = 2;
    return r;
}
static m68000_memory_result_t gb(uint32_t a, void *u) { if(bad((mem_t *)u, a)) return err((mem_t *)u, a); return ok(get((mem_t *)u, a, 1) | 0xABCDEF00u); }
static m68000_memory_result_t gw(uint32_t a, void *u) { if(bad((mem_t *)u, a)) return err((mem_t *)u, a); return ok(get((mem_t *)u, a, 2) | 0xABCD0000u); }
static m68000_memory_result_t gl(uint32_t a, void *u) { if(bad((mem_t *)u, a)) return err((mem_t *)u, a); return ok(get((mem_t *)u, a, 4)); }
static m68000_memory_result_t sb(uint32_t a, uint8_t d, void *u) { if(bad((mem_t *)u, a)) return err((mem_t *)u, a); put((mem_t *)u, a, 1, d); return ok(0x11111111u); }
static m68000_memory_result_t sw(uint32_t a, uint16_t d, void *u) { if(bad((mem_t *)u, a)) return err((mem_t *)u, a); put((mem_t *)u, a, 2, d); return ok(0x22222222u); }
static m68000_memory_result_t sl(uint32_t a, uint32_t d, void *u) { if(bad((mem_t *)u, a)) return err((mem_t *)u, a); put((mem_t *)u, a, 4, d); return ok(0x33333333u); }
static void rst(void *u) { ((mem_t *)u)->resets++; }

static uint64_t regs(uint64_t h, const m68000_registers_t *r)
{
    int i;
    for(i = 0; i < 8; i++) h = mix(h, r->d[i]);
    for(i = 0; i < 7; i++) h = mix(h, r->a[i]);
    h = mix(mix(mix(h, r->usp), r->ssp), r->pc);
    h = mix(mix(mix(mix(h, r->sr.t), r->sr.s), r->sr.interrupt_mask), r->sr.x);
    return mix(mix(mix(mix(h, r->sr.n), r->sr.z), r->sr.v), r->sr.c);
}
static void start(m68000_registers_t *r, uint32_t op, uint32_t k)
{
    int i;
    for(i = 0; i < 8; i++) r->d[i] = (uint32_t)(mix(op + k, (uint64_t)i) >> 11);
    for(i = 0; i < 7; i++) r->a[i] = (uint32_t)(mix(op + k, 100u + (uint64_t)i) >> 13) & 0xFFFFFFFEu;
    r->usp = 0xA000;
    r->ssp = 0x9000;
    r->pc = 0x1000;
    r->sr.t = false;
    r->sr.s = (op ^ k) % 5 != 0;
    r->sr.interrupt_mask = (uint8_t)(op % 8);
    r->sr.x = op & 1;
    r->sr.n = op & 2;
    r->sr.z = op & 4;
    r->sr.v = op & 8;
    r->sr.c = op & 16;
}

static const m68000_vector_t VECTORS[] = {
    AccessError, AddressError, IllegalInstruction, ZeroDivide, ChkInstruction, TrapVInstruction, PrivilegeViolation, Trace,
    LineAEmulator, LineFEmulator, FormatError, UninitializedInterrupt, SpuriousInterrupt,
    Level1Interrupt, Level2Interrupt, Level3Interrupt, Level4Interrupt, Level5Interrupt, Level6Interrupt, Level7Interrupt,
    Trap0Instruction, Trap1Instruction, Trap2Instruction, Trap3Instruction, Trap4Instruction, Trap5Instruction, Trap6Instruction, Trap7Instruction,
    Trap8Instruction, Trap9Instruction, Trap10Instruction, Trap11Instruction, Trap12Instruction, Trap13Instruction, Trap14Instruction, Trap15Instruction,
    Level1OnChipInterrupt, Level2OnChipInterrupt, Level3OnChipInterrupt, Level4OnChipInterrupt, Level5OnChipInterrupt, Level6OnChipInterrupt, Level7OnChipInterrupt,
    UserInterrupt, ResetSspPc,
};
#define VECTORS_LEN (sizeof VECTORS / sizeof VECTORS[0])

/* One case: a core, its registers, one call. */
#define MODEL(M) \
    static uint64_t M##_case(uint32_t op, uint32_t what) \
    { \
        mem_t m; \
        m68000_callbacks_t cb; \
        m68000_registers_t r; \
        uint64_t h = what; \
        char str[64]; \
        size_t i; \
        m68000_##M##_t *c = what == 11 ? m68000_##M##_new() : m68000_##M##_new_no_reset(); \
        memset(&m, 0, sizeof m); \
        m.key = op; \
        m.refuse = what == 12; \
        cb.get_byte = gb; cb.get_word = gw; cb.get_long = gl; \
        cb.set_byte = sb; cb.set_word = sw; cb.set_long = sl; \
        cb.reset_instruction = rst; \
        cb.user_data = &m; \
        memset(str, 0x55, sizeof str); \
        if(op & 1) { memset(&r, 0, sizeof r); start(&r, op, what); m68000_##M##_set_registers(c, r); } \
        else start(m68000_##M##_registers_mut(c), op, what); \
        switch(what) \
        { \
            case 0: h = mix(h, m68000_##M##_interpreter(c, &cb)); break; \
            case 12: \
            case 1: { m68000_exception_result_t e = m68000_##M##_interpreter_exception(c, &cb); h = mix(mix(h, e.cycles), e.exception); break; } \
            case 2: { m68000_disassembler_result_t e = m68000_##M##_disassembler_interpreter(c, &cb, str, sizeof str); h = mix(mix(h, e.cycles), e.pc); break; } \
            case 3: { m68000_disassembler_exception_result_t e = m68000_##M##_disassembler_interpreter_exception(c, &cb, str, sizeof str); h = mix(mix(mix(h, e.cycles), e.pc), e.exception); break; } \
            case 4: h = mix(h, m68000_##M##_cycle(c, &cb, 1)); break; \
            case 5: { m68000_exception_result_t e = m68000_##M##_cycle_until_exception(c, &cb, 1); h = mix(mix(h, e.cycles), e.exception); break; } \
            case 6: { m68000_exception_result_t e = m68000_##M##_loop_until_exception_stop(c, &cb); h = mix(mix(h, e.cycles), e.exception); break; } \
            case 7: { m68000_memory_result_t e = m68000_##M##_get_next_word(c, &cb); h = mix(mix(h, e.data), e.exception); break; } \
            case 8: { m68000_memory_result_t e = m68000_##M##_get_next_long(c, &cb); h = mix(mix(h, e.data), e.exception); break; } \
            case 9: { m68000_memory_result_t e = m68000_##M##_peek_next_word(c, &cb); h = mix(mix(h, e.data), e.exception); break; } \
            case 10: m68000_##M##_exception(c, VECTORS[op % VECTORS_LEN]); h = mix(h, m68000_##M##_interpreter(c, &cb)); break; \
            case 11: h = mix(h, m68000_##M##_interpreter(c, &cb)); break; \
        } \
        if(what == 2 || what == 3) \
        { \
            str[sizeof str - 1] = 0; \
            for(i = 0; str[i]; i++) h = mix(h, (uint8_t)str[i]); \
        } \
        h = mix(mix(mix(mix(h, m.calls), m.writes), m.resets), m.log); \
        h = regs(h, m68000_##M##_registers(c)); \
        r = m68000_##M##_get_registers(c); \
        h = regs(h, &r); \
        m68000_##M##_delete(c); \
        return h; \
    }
MODEL(mc68000)
MODEL(scc68070)

int main(int argc, char **argv)
{
    uint32_t op, what, from, to;
    FILE *out;
    if(argc != 4) return 3;
    from = (uint32_t)strtoul(argv[2], NULL, 0);
    to = (uint32_t)strtoul(argv[3], NULL, 0);
    out = fopen(argv[1], "wb");
    if(!out) return 4;
    for(op = from; op < to; op++)
        for(what = 0; what < 13; what++)
        {
            uint64_t h[2];
            h[0] = mc68000_case(op, what);
            h[1] = scc68070_case(op, what);
            if(fwrite(h, sizeof h, 1, out) != 1) return 5;
        }
    return fclose(out) ? 6 : 0;
}
