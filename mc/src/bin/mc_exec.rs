//! Checks of instruction execution: C02 to C05.

use mc::bus::Bus;
use mc::decode::*;
use mc::drive::*;
use mc::engine::{self, Ctx, W};
use mc::exec::*;
use m68000::memory_access::MemoryAccess;
use m68000::status_register::StatusRegister;

fn is_c02(m: Mn) -> bool {
    use Mn::*;
    matches!(m, Add | Adda | Addi | Addq | Addx | Sub | Suba | Subi | Subq | Subx | Neg | Negx | Cmp | Cmpa | Cmpi | Cmpm | Muls | Mulu | Divs | Divu | Abcd | Sbcd | Nbcd | Ext | Clr | Tst)
}
fn is_c03(m: Mn) -> bool {
    use Mn::*;
    matches!(m, And | Andi | Andiccr | Andisr | Or | Ori | Oriccr | Orisr | Eor | Eori | Eoriccr | Eorisr | Not | Asm | Asr | Lsm | Lsr | Rom | Ror | Roxm | Roxr | Btst | Bchg | Bclr | Bset | Scc | Tas | Swap)
}
fn is_c04(m: Mn) -> bool {
    use Mn::*;
    matches!(m, Move | Movea | Moveq | Movem | Movep | Lea | Pea | Exg | Link | Unlk | Moveccr | Movefsr | Movesr | Moveusp)
}
fn is_c05(m: Mn) -> bool {
    use Mn::*;
    matches!(m, Bcc | Bra | Bsr | Dbcc | Jmp | Jsr | Rts | Rtr | Trap | Trapv | Chk | Nop | Illegal | Unknown)
}

/// Every opcode of the class x register files x extension words x operand values x condition codes.
fn opsweep(c: &Ctx, tag: &'static str, sel: fn(Mn) -> bool) {
    let files: Vec<u32> = if c.thorough() { (0..20).collect() } else { (0..10).collect() };
    let exts = c.by(10, 24);
    let ccrs: &[u16] = c.by(&[0x2700, 0x001F, 0x2710, 0x000A], &[0x2700, 0x001F, 0x2710, 0x000A, 0x2715, 0x0004, 0x270F, 0x0011]);
    let seed = c.seed as u32;
    c.space(&format!("{tag}.opcodes"), ALL_OPS, |i, w| {
        let op = i as u16;
        let f = classify(op);
        if !sel(f.mn) { return; }
        w.stat("opcodes in scope", 1);
        let mut sc = Scratch::default();
        let mut bus = Bus::new(seed);
        let ne = if ext_words(&f) == 0 { 1 } else { exts };
        let mut words = Vec::new();
        for &k in &files {
            for e in 0..ne {
                for (n, &(s, d)) in SHORT.iter().enumerate() {
                    // Every operand pair meets every condition code pattern over the register files.
                    let sr = ccrs[(n + e + k as usize) % ccrs.len()];
                    for sr in [sr, ccrs[(n + e + k as usize + 1) % ccrs.len()]] {
                        bus.clear();
                        let mut st = regfile(k, c.seed);
                        st.sr = sr;
                        words.clear();
                        words.push(op);
                        ext_fill(&f, e, &mut words);
                        if n > 0 { set_operands(&mut st, &mut bus, &mut words, s, d); }
                        bus.set_code(st.pc, &words);
                        lockstep::<Mc>(w, tag, &st, &mut bus, &mut sc, NOCYC);
                    }
                }
            }
        }
        if op & 0x3FF == 0x2C1 { w.sample(|| format!("opcode {op:04X} {:?} over {} register files x {ne} extension sets", f.mn, files.len())); }
    });
}

/// One case with the given operands.
fn value_case(w: &mut W, tag: &str, bus: &mut Bus, sc: &mut Scratch, op: u16, sr: u16, s: u32, d: u32) {
    let f = classify(op);
    bus.clear();
    let mut st = regfile(0, 0);
    st.sr = sr;
    let mut words = vec![op];
    ext_fill(&f, 0, &mut words);
    set_operands(&mut st, bus, &mut words, s, d);
    bus.set_code(st.pc, &words);
    lockstep::<Mc>(w, tag, &st, bus, sc, NOCYC);
}

/// Opcodes of the class that are representative of its operation x size x operand class: registers 1 and 2 (0 and 1
/// for address registers), one per addressing class.
fn representatives(sel: fn(Mn) -> bool, sz: u8, eas: &[u8]) -> Vec<u16> {
    let mut v = Vec::new();
    for op in 0..=0xFFFFu16 {
        let f = classify(op);
        if !sel(f.mn) || f.sz != sz { continue; }
        if f.ea != 0xFF {
            if !eas.contains(&f.ea) { continue; }
            if matches!(f.mn, Mn::Addq | Mn::Subq) { if !matches!(f.q, 1 | 7 | 8) { continue; } } else if f.mn == Mn::Scc { if f.ea != 1 && f.ea != 0x11 { continue; } } else if f.x != 2 && !matches!(f.mn, Mn::Addi | Mn::Subi | Mn::Cmpi | Mn::Andi | Mn::Ori | Mn::Eori | Mn::Clr | Mn::Neg | Mn::Negx | Mn::Not | Mn::Tst | Mn::Nbcd | Mn::Tas | Mn::Asm | Mn::Lsm | Mn::Rom | Mn::Roxm | Mn::Btst | Mn::Bchg | Mn::Bclr | Mn::Bset | Mn::Moveccr | Mn::Movesr | Mn::Movefsr) { continue; }
            if matches!(f.mn, Mn::Btst | Mn::Bchg | Mn::Bclr | Mn::Bset) && f.dir && f.x != 2 { continue; }
        } else if f.y != 1 || (f.x != 2 && !matches!(f.mn, Mn::Ext | Mn::Swap | Mn::Asr | Mn::Lsr | Mn::Ror | Mn::Roxr)) {
            continue;
        } else if matches!(f.mn, Mn::Asr | Mn::Lsr | Mn::Ror | Mn::Roxr) && f.ir && f.x != 2 {
            continue;
        }
        v.push(op);
    }
    v
}

/// Values: all pairs of bytes, boundary pairs of words and longs, all condition codes.
fn values(c: &Ctx, tag: &'static str, sel: fn(Mn) -> bool) {
    let seed = c.seed as u32;
    let ccr = |k: u16| 0x2700 | k;
    // Bytes: complete.
    let ops = representatives(sel, 1, c.by(&[0x01, 0x11], &[0x01, 0x11, 0x19, 0x21, 0x39]));
    let n = ops.len() as u64;
    let step = c.by(3u16, 1);
    c.space(&format!("{tag}.bytes"), n * 256, |i, w| {
        let op = ops[(i / 256) as usize];
        let s = (i % 256) as u32;
        let (mut sc, mut bus) = (Scratch::default(), Bus::new(seed));
        for d in 0..256u32 {
            // X and Z are the flags the operations read: all four combinations, the others alternate.
            let mut k = (s + d) as u16 % step;
            while k < 32 {
                value_case(w, tag, &mut bus, &mut sc, op, ccr(k), 0xA5C3_9600 | s, 0x5A3C_6900 | d);
                k += step;
            }
        }
    });
    for sz in [2u8, 4] {
        let ops = representatives(sel, sz, c.by(&[0x01, 0x09, 0x11, 0x3C], &[0x01, 0x09, 0x11, 0x19, 0x21, 0x39, 0x3C]));
        let n = ops.len() as u64;
        let lat: Vec<u32> = if c.thorough() || sz == 4 { let mut v = L32.to_vec(); v.extend(L16); v.sort(); v.dedup(); v } else { let mut v = L16.to_vec(); v.extend(&L32[12..30]); v };
        let m = lat.len() as u64;
        let step = c.by(3u16, 1);
        c.space(&format!("{tag}.{}", if sz == 2 { "words" } else { "longs" }), n * m, |i, w| {
            let op = ops[(i / m) as usize];
            let s = lat[(i % m) as usize];
            let (mut sc, mut bus) = (Scratch::default(), Bus::new(seed));
            for (j, &d) in lat.iter().enumerate() {
                let mut k = (i as u16 + j as u16) % step;
                while k < 32 {
                    value_case(w, tag, &mut bus, &mut sc, op, ccr(k), s, d);
                    k += step;
                }
            }
        });
    }
}

/// Structured pairs of words and longs, and every 16-bit value in either role against boundary values.
fn grids(c: &Ctx, tag: &'static str, sel: fn(Mn) -> bool) {
    let seed = c.seed as u32;
    let pair = |i: u64, j: usize| [0x2700u16, 0x271F, 0x2710, 0x270F, 0x2704, 0x271B][(i as usize + j) % 6];
    for sz in [2u8, 4] {
        let ops: Vec<u16> = representatives(sel, sz, &[0x01]);
        let lat = if sz == 2 { runs(16, 1) } else if c.thorough() { runs(32, 1) } else { let mut v = powers(32, 1); v.extend(runs(32, 0).into_iter().step_by(3)); v.extend(L32); v.sort(); v.dedup(); v };
        let m = lat.len() as u64;
        let lr = &lat;
        let or = &ops;
        c.space(&format!("{tag}.{}", if sz == 2 { "word-grid" } else { "long-grid" }), ops.len() as u64 * m, |i, w| {
            let op = or[(i / m) as usize];
            let s = lr[(i % m) as usize];
            let (mut sc, mut bus) = (Scratch::default(), Bus::new(seed));
            for (j, &d) in lr.iter().enumerate() { value_case(w, tag, &mut bus, &mut sc, op, pair(i, j), s, d); }
            if i % (m * 4) == 7 { w.sample(|| format!("opcode {op:04X} {}: {s:#X} with {m} values", mnem(op))); }
        });
        if sz == 2 {
            c.space(&format!("{tag}.every-word"), 65536, |i, w| {
                let (mut sc, mut bus) = (Scratch::default(), Bus::new(seed));
                for &op in or {
                    for (j, d) in [0u32, 1, 0x7F, 0x80, 0xFF, 0x7FFF, 0x8000, 0x8001, 0xFFFF, i as u32, i as u32 ^ 0xFFFF, (i as u32).wrapping_neg() & 0xFFFF].into_iter().enumerate() {
                        value_case(w, tag, &mut bus, &mut sc, op, pair(i, j), i as u32 | 0x5A5A_0000, d | 0xA5A5_0000);
                        if j < c.by(4, 9) { value_case(w, tag, &mut bus, &mut sc, op, pair(i, j + 1), d | 0x00FF_0000, i as u32 | 0xFF00_0000); }
                    }
                }
            });
        }
    }
}

fn c02(c: &Ctx) {
    opsweep(c, "C02", is_c02);
    values(c, "C02", is_c02);
    grids(c, "C02", is_c02);
    let seed = c.seed as u32;
    // Every 16-bit divisor / multiplicand and every EXT input against boundary-complete other operands.
    let ops: [u16; 4] = [0x84C1, 0x85C1, 0xC4C1, 0xC5C1]; // DIVU D1,D2; DIVS D1,D2; MULU; MULS.
    let mut divd: Vec<u32> = L32.to_vec();
    divd.extend([0x0000_7FFF, 0x3FFF_0000, 0xC000_8000, 0x8000_0000, 0x4000_7FFF, 0xC000_0000, 0x7FFE_8001, 0xFFFF_FF01]);
    c.space("C02.all-16-bit-divisors", 65536, |i, w| {
        let (mut sc, mut bus) = (Scratch::default(), Bus::new(seed));
        for op in ops {
            for (j, &d) in divd.iter().enumerate() {
                value_case(w, "C02", &mut bus, &mut sc, op, 0x2700 | (i as u16).wrapping_add(j as u16) & 31, i as u32 | 0xBEEF_0000, d);
            }
            // Dividends that put the quotient exactly on either side of the 16-bit limits.
            let s = i as u32;
            let ss = s as u16 as i16 as i64;
            for q in [-32769i64, -32768, -32767, 32766, 32767, 32768, 65535, 65536] {
                for r in [-1i64, 0, 1] {
                    let d = if op == 0x84C1 { (s as i64) * q + r } else { ss * q + r };
                    value_case(w, "C02", &mut bus, &mut sc, op, 0x2700 | (q as u16) & 31, s, d as u32);
                }
            }
        }
        for op in [0x4881u16, 0x48C1] {
            for hi in [0u32, 0xFFFF_0000, 0x1234_0000] {
                for k in [0, 0x1F] { value_case(w, "C02", &mut bus, &mut sc, op, 0x2700 | k, i as u32 | hi, 0); }
            }
        }
    });
    if c.thorough() { pairs(c); }
}

/// A memory that holds one instruction word.
struct One(u16);
impl MemoryAccess for One {
    fn get_byte(&mut self, _: u32) -> Option<u8> { None }
    fn get_word(&mut self, addr: u32) -> Option<u16> { if addr == PC { Some(self.0) } else { None } }
    fn set_byte(&mut self, _: u32, _: u8) -> Option<()> { None }
    fn set_word(&mut self, _: u32, _: u16) -> Option<()> { None }
    fn reset_instruction(&mut self) {}
}

/// All pairs of 16-bit operands, against arithmetic in wider integers.
fn pairs(c: &Ctx) {
    // Source, destination, X -> low bits of D2, which bits those are, condition codes, which of them change.
    type F = fn(i64, i64, i64) -> (u32, u32, u16, u16);
    fn nz16(r: i64) -> u16 { (r as u16 == 0) as u16 * 4 | (r as i16 <= -1) as u16 * 8 }
    fn u(x: i64) -> i64 { x & 0xFFFF }
    fn add(s: i64, d: i64, x: i64) -> (u32, u32, u16, u16) {
        let r = s + d + x;
        let c = (u(s) + u(d) + x > 0xFFFF) as u16;
        (r as u16 as u32, 0xFFFF, nz16(r) | ((r != r as i16 as i64) as u16) << 1 | c | c << 4, 31)
    }
    fn sub(s: i64, d: i64, x: i64) -> (u32, u32, u16, u16) {
        let r = d - s - x;
        let c = (u(s) + x > u(d)) as u16;
        (r as u16 as u32, 0xFFFF, nz16(r) | ((r != r as i16 as i64) as u16) << 1 | c | c << 4, 31)
    }
    fn wide(r: u32) -> (u32, u32, u16, u16) { (r, !0, (r == 0) as u16 * 4 | (r >> 31) as u16 * 8, 15) }
    let ops: Vec<(u16, F, u8)> = vec![
        (0xD441, |s, d, _| add(s, d, 0), 0),
        (0x9441, |s, d, _| sub(s, d, 0), 0),
        (0xB441, |s, d, _| { let (_, _, f, _) = sub(s, d, 0); (u(d) as u32, 0xFFFF, f & 15, 15) }, 0),
        (0xD541, add, 1),
        (0x9541, sub, 1),
        (0xC4C1, |s, d, _| wide((u(s) * u(d)) as u32), 0),
        (0xC5C1, |s, d, _| wide((s * d) as u32), 0),
    ];
    // Opcodes that work on D1 and D2; 1: X takes part.
    let n = ops.len() as u64;
    let or = &ops;
    c.space("C02.all-16-bit-pairs", 65536, |i, w| {
        let s = i as u16 as i16 as i64;
        let mut core = load::<Mc>(&St { pc: PC, sr: 0x2700, ..St::new() });
        for &(op, f, x) in or {
            let mut mem = One(op);
            let mut bad = None;
            for v in 0..65536u32 {
                let d = v as u16 as i16 as i64;
                let ccr = (v ^ i as u32 ^ v >> 7) as u16 & 31;
                core.regs.pc.0 = PC;
                core.regs.sr = StatusRegister::from(0x2700 | ccr);
                core.regs.d[1].0 = i as u32 | 0x5A5A_0000;
                core.regs.d[2].0 = v | 0xC3C3_0000;
                let vec = match engine::guard(|| core.interpreter_exception(&mut mem).1) { Ok(v) => v, Err(e) => { bad = Some((v, ccr, e)); break } };
                let (r, mask, cc, ccmask) = f(s, d, if x == 1 { (ccr >> 4) as i64 } else { 0 });
                let cc = if x == 1 && r == 0 { cc & !4 | ccr & 4 } else { cc };
                let want = if mask == !0 { r } else { 0xC3C3_0000 | r };
                let got = u16::from(core.regs.sr);
                if vec.is_some() || core.regs.d[2].0 != want || core.regs.d[1].0 != i as u32 | 0x5A5A_0000 || core.regs.pc.0 != PC + 2 || got != 0x2700 | cc & ccmask | ccr & !ccmask {
                    bad = Some((v, ccr, format!("vector {vec:?}, D2 {:08X} expected {want:08X}, SR {got:04X} expected {:04X}", core.regs.d[2].0, 0x2700 | cc & ccmask | ccr & !ccmask)));
                    break;
                }
            }
            if let Some((v, ccr, what)) = bad { w.fail(format!("C02:{}:pair", mnem(op)), || format!("opcode {op:04X}, D1 5A5A{i:04X}, D2 C3C3{v:04X}, CCR {ccr:02X}: {what}")); }
        }
        w.stat("16-bit operand pairs compared", n * 65536);
        w.transitions(n * 65536);
    });
}

fn c03(c: &Ctx) {
    opsweep(c, "C03", is_c03);
    values(c, "C03", is_c03);
    grids(c, "C03", is_c03);
    let seed = c.seed as u32;
    // Shifts and rotates: every count and every value of a byte, boundary values of words and longs.
    let mut ops = Vec::new();
    for op in 0xE000..=0xEFFFu16 {
        let f = classify(op);
        if matches!(f.mn, Mn::Asr | Mn::Lsr | Mn::Ror | Mn::Roxr) && f.y == 1 && (!f.ir || f.x == 2) { ops.push(op); }
    }
    let vals = |sz: u8| -> Vec<u32> {
        match sz { 1 => (0..256).collect(), 2 => { let mut v = L16.to_vec(); v.extend((0..16).map(|b| 1 << b)); v.extend((0..16).map(|b| 0xFFFF ^ 1 << b)); v }
            _ => { let mut v = L32.to_vec(); v.extend((0..32).map(|b| 1u32 << b)); v.extend((0..32).map(|b| !(1u32 << b))); v } }
    };
    let n = ops.len() as u64;
    c.space("C03.shift-counts", n * 80, |i, w| {
        let op = ops[(i / 80) as usize];
        let k = i % 80;
        // Register counts: 0..=63 and values whose low six bits only matter.
        let count = if k < 64 { k as u32 } else { [64u32, 65, 0xFF, 0x80, 0x100, 0x8000_0000, 0xFFFF_FFFF, 0xFFFF_FFC0, 0x0001_0000, 127, 128, 72, 96, 0x1234_5660, 0x7FFF_FFFF, 0x40][(k - 64) as usize] };
        let f = classify(op);
        if !f.ir && k > 0 { return; }
        let (mut sc, mut bus) = (Scratch::default(), Bus::new(seed));
        for v in vals(f.sz) {
            for fl in [0u16, 0x10, 0x0F, 0x1F] {
                value_case(w, "C03", &mut bus, &mut sc, op, 0x2700 | fl, v | if f.sz == 1 { 0x8181_8100 } else if f.sz == 2 { 0x8001_0000 } else { 0 }, count);
            }
        }
    });
    // Bit operations: all bit numbers (dynamic 0..=255 and large, static all 16-bit words) on registers and memory.
    let bitops: Vec<u16> = (0..=0xFFFu16).filter(|&op| { let f = classify(op); matches!(f.mn, Mn::Btst | Mn::Bchg | Mn::Bclr | Mn::Bset) && matches!(f.ea, 1 | 0x11) && (!f.dir || f.x == 2) }).collect();
    let n = bitops.len() as u64;
    c.space("C03.bit-numbers", n * 256, |i, w| {
        let op = bitops[(i / 256) as usize];
        let b = (i % 256) as u32;
        let (mut sc, mut bus) = (Scratch::default(), Bus::new(seed));
        for hi in [0u32, 0x100, 0xFF00, 0xFFFF_FF00] {
            for v in L32.iter().copied().chain((0..32).map(|k| 1u32 << k)) {
                value_case(w, "C03", &mut bus, &mut sc, op, 0x2700 | (b as u16 & 31), v, b | hi);
            }
        }
    });
    // Immediate to CCR and SR: all words, all prior condition codes.
    c.space("C03.sr-immediates", 65536, |i, w| {
        let (mut sc, mut bus) = (Scratch::default(), Bus::new(seed));
        for op in [0x003Cu16, 0x007C, 0x023C, 0x027C, 0x0A3C, 0x0A7C] {
            for sr in [0x2700u16, 0x271F, 0x200A, 0x0015, 0x050A, 0x2315, 0x0000] {
                bus.clear();
                let mut st = regfile(0, 0);
                st.sr = sr;
                bus.set_code(st.pc, &[op, i as u16]);
                lockstep::<Mc>(w, "C03", &st, &mut bus, &mut sc, NOCYC);
            }
        }
    });
    conditions(c, "C03", |m| m == Mn::Scc);
}

/// All 16 conditions under all 32 condition codes.
fn conditions(c: &Ctx, tag: &'static str, sel: fn(Mn) -> bool) {
    let seed = c.seed as u32;
    c.space(&format!("{tag}.conditions"), ALL_OPS, |i, w| {
        let op = i as u16;
        let f = classify(op);
        if !sel(f.mn) { return; }
        let (mut sc, mut bus) = (Scratch::default(), Bus::new(seed));
        for ccr in 0..32u16 {
            for hi in [0x2700u16, 0x0000] {
                bus.clear();
                let mut st = regfile(0, 0);
                st.sr = hi | ccr;
                let mut words = vec![op];
                ext_fill(&f, 0, &mut words);
                bus.set_code(st.pc, &words);
                lockstep::<Mc>(w, tag, &st, &mut bus, &mut sc, NOCYC);
            }
        }
    });
}

/// Address arithmetic: bases x indices x displacements of the addressing modes, for loads, stores and LEA, and the
/// stepping of the incrementing modes, from the edges of the address space and of the 16-bit ranges.
fn addresses(c: &Ctx) {
    let seed = c.seed as u32;
    let bases: Vec<u32> = powers(32, c.by(1, 2));
    let n = bases.len() as u64;
    let br = &bases;
    let disps: [u8; 9] = [0, 1, 2, 0x7E, 0x7F, 0x80, 0x81, 0xFE, 0xFF];
    // The base of the second operand differs, so that one that is used for the other shows.
    c.space("C04.address-arithmetic", n * n, |i, w| {
        let (mut sc, mut bus) = (Scratch::default(), Bus::new(seed));
        let (base, index) = (br[(i / n) as usize], br[(i % n) as usize]);
        for (k, d) in disps.into_iter().enumerate() {
            for long in [0u16, 0x800] {
                // Index in D1 or A1 (base A0), in the base register itself, in A7; base A0, A7 or PC.
                for (r, b) in [(1u16, 0u16), (9, 0), (8, 0), (15, 0), (2, 7), (9, 7), (15, 7), (3, 8), (12, 8)] {
                    let mode = if b == 8 { 0x3B } else { 0x30 | b };
                    let op = match k % 3 { 0 => 0x41C0 | mode | 5 << 9, 1 => 0x1C00 | mode & 0x3F, _ => 0x2C00 | mode & 0x3F };
                    for op in [op, if b == 8 { 0x487B } else { 0x1180 | b << 9 & 0xE00 | 4 }] {
                        bus.clear();
                        let mut st = regfile(0, 0);
                        st.sr = if k & 1 == 0 { 0x2700 } else { 0x001F };
                        if b == 8 { st.pc = base & !1; } else { st.set_a(b as u8, base); }
                        if b == 8 || r & 7 != b || r < 8 { if r < 8 { st.d[r as usize] = index } else { st.set_a(r as u8 & 7, index) } }
                        let words = [op, r << 12 | long | d as u16];
                        bus.set_code(st.pc, &words);
                        lockstep::<Mc>(w, "C04", &st, &mut bus, &mut sc, NOCYC);
                    }
                }
            }
        }
    });
    c.space("C04.stepping", n, |i, w| {
        let (mut sc, mut bus) = (Scratch::default(), Bus::new(seed));
        let base = br[i as usize];
        for op in 0..=0xFFFFu16 {
            let f = classify(op);
            if !is_c04(f.mn) { continue; }
            let steps = |ea: u8| matches!(ea >> 3, 2..=6);
            if !(f.ea != 0xFF && steps(f.ea) || matches!(f.mn, Mn::Movep | Mn::Link | Mn::Unlk)) && f.mn != Mn::Move { continue; }
            // One representative per other register of MOVE, all otherwise.
            if f.mn == Mn::Move && !(op & 7 == op >> 9 & 7 || op & 7 == 7 || op >> 9 & 7 == 7 || op & 7 == (op >> 9 & 7) + 1) { continue; }
            let mut words = vec![op];
            ext_fill(&f, (i % 7) as usize, &mut words);
            for sr in [0x2700u16, 0x0015] {
                bus.clear();
                let mut st = regfile(0, 0);
                st.sr = sr;
                for r in 0..8 { st.set_a(r, base.wrapping_add(r as u32 * 8 & if op & 0x40 == 0 { 0 } else { 0x38 })); }
                bus.set_code(st.pc, &words);
                lockstep::<Mc>(w, "C04", &st, &mut bus, &mut sc, NOCYC);
            }
        }
    });
}

fn c04(c: &Ctx) {
    opsweep(c, "C04", is_c04);
    values(c, "C04", is_c04);
    grids(c, "C04", is_c04);
    addresses(c);
    let seed = c.seed as u32;
    // Moves to SR and CCR, and STOP-like loads, of all words.
    c.space("C04.sr-moves", 65536, |i, w| {
        let (mut sc, mut bus) = (Scratch::default(), Bus::new(seed));
        for op in [0x44C1u16, 0x46C1, 0x44FC, 0x46FC, 0x44D1, 0x46D1, 0x40C1, 0x40D1] {
            for sr in [0x2700u16, 0x271F, 0x0000, 0x001F] { value_case(w, "C04", &mut bus, &mut sc, op, if op & 0xFF80 == 0x4080 { i as u16 & SR_BITS & 0x7FFF } else { sr }, i as u32, 0); }
        }
    });
    let carriers = |mode: u8, reg: u8| -> Vec<u16> {
        let ea = (mode << 3 | reg) as u16;
        // LEA, PEA, MOVE.L ea,D1; MOVE.B ea,D1; MOVE.W D1,ea (as destination); MOVEM both ways; CLR.L; ADD.W.
        let mut v: Vec<u16> = vec![0x43C0 | ea, 0x4840 | ea, 0x2200 | ea, 0x1200 | ea, 0x3200 | ea, 0x4280 | ea, 0xD240 | ea];
        v.push(0x3001 | (reg as u16) << 9 | (mode as u16) << 6);
        v.push(0x2001 | (reg as u16) << 9 | (mode as u16) << 6);
        v.push(0x1001 | (reg as u16) << 9 | (mode as u16) << 6);
        v.retain(|op| classify(*op).mn != Mn::Unknown);
        v
    };
    // All 65536 values of a one-word extension for every mode that has one, through several carriers.
    let modes: [(u8, u8); 7] = [(5, 0), (5, 7), (6, 1), (6, 7), (7, 0), (7, 2), (7, 3)];
    c.space("C04.extension-words", 65536, |i, w| {
        let (mut sc, mut bus) = (Scratch::default(), Bus::new(seed));
        for (m, r) in modes {
            for op in carriers(m, r) {
                for k in c.by(&[0u32, 1, 2, 3][..], &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11][..]) {
                    bus.clear();
                    let mut st = regfile(*k, c.seed);
                    st.sr = if i & 1 == 0 { 0x2700 } else { 0x001F };
                    bus.set_code(st.pc, &[op, i as u16]);
                    lockstep::<Mc>(w, "C04", &st, &mut bus, &mut sc, NOCYC);
                }
            }
        }
    });
    // All register lists for every MOVEM mode and both sizes.
    let mm: Vec<u16> = (0..=0xFFFFu16).filter(|&op| { let f = classify(op); f.mn == Mn::Movem && (f.ea >> 3 == 7 || matches!(f.ea & 7, 1 | 7)) }).collect();
    c.space("C04.register-lists", 65536, |i, w| {
        let (mut sc, mut bus) = (Scratch::default(), Bus::new(seed));
        for &op in &mm {
            let f = classify(op);
            for k in c.by(&[0u32, 2, 4][..], &[0, 1, 2, 3, 4, 5, 6, 7][..]) {
                bus.clear();
                let mut st = regfile(*k, c.seed);
                st.sr = if op & 1 == i as u16 & 1 { 0x2700 } else { 0x001F };
                let mut words = vec![op];
                ext_fill(&f, 0, &mut words);
                words[1] = i as u16;
                bus.set_code(st.pc, &words);
                lockstep::<Mc>(w, "C04", &st, &mut bus, &mut sc, NOCYC);
            }
        }
    });
    // LINK and MOVEP displacements: all.
    c.space("C04.displacements", 65536, |i, w| {
        let (mut sc, mut bus) = (Scratch::default(), Bus::new(seed));
        for op in [0x4E50u16, 0x4E56, 0x0308, 0x0348, 0x0388, 0x03C8, 0x0F0F, 0x0FCF] {
            for k in [0u32, 1] {
                bus.clear();
                let mut st = regfile(k, c.seed);
                st.sr = if i & 1 == 0 { 0x2700 } else { 0x001F };
                bus.set_code(st.pc, &[op, i as u16]);
                lockstep::<Mc>(w, "C04", &st, &mut bus, &mut sc, NOCYC);
            }
        }
    });
    // All 65536 MOVE-class opcodes with the same register in every role, at the ends of the address space.
    c.space("C04.aliasing", ALL_OPS, |i, w| {
        let op = i as u16;
        let f = classify(op);
        if !is_c04(f.mn) { return; }
        let (mut sc, mut bus) = (Scratch::default(), Bus::new(seed));
        for base in [0x0003_0000u32, 0, 0xFFFF_FFFC, 0x7FFF_FFFE, 0x8000] {
            for e in 0..c.by(12, 24) {
                for sr in [0x2700u16, 0x0000] {
                    bus.clear();
                    let mut st = St::new();
                    st.pc = PC;
                    st.sr = sr;
                    st.d = [base.wrapping_add(0x10); 8];
                    st.a = [base; 7];
                    st.usp = base;
                    st.ssp = base;
                    let mut words = vec![op];
                    ext_fill(&f, e, &mut words);
                    bus.set_code(st.pc, &words);
                    lockstep::<Mc>(w, "C04", &st, &mut bus, &mut sc, NOCYC);
                }
            }
        }
    });
}

fn c05(c: &Ctx) {
    opsweep(c, "C05", is_c05);
    conditions(c, "C05", is_c05);
    let seed = c.seed as u32;
    // All 16-bit displacements of Bcc/BRA/BSR/DBcc, from several program counters.
    c.space("C05.displacements", 65536, |i, w| {
        let (mut sc, mut bus) = (Scratch::default(), Bus::new(seed));
        for op in [0x6000u16, 0x6100, 0x6200, 0x6700, 0x6E00, 0x51C9, 0x57CA, 0x50C9, 0x4EFB, 0x4EBB, 0x4EFA, 0x4EBA, 0x4EB8, 0x4EF8, 0x4EA9, 0x4EF1, 0x4EB7, 0x4EAF] {
            for pc in [PC, 0, 0xFFFF_FFF8, 0x7FFF_FFFC] {
                for sr in [0x2700u16, 0x2704, 0x0009] {
                    bus.clear();
                    let mut st = regfile((i & 1) as u32, c.seed);
                    st.sr = sr;
                    st.pc = pc;
                    bus.set_code(st.pc, &[op, i as u16]);
                    lockstep::<Mc>(w, "C05", &st, &mut bus, &mut sc, NOCYC);
                }
            }
        }
    });
    // Every condition x every condition code x every displacement.
    if c.thorough() {
        c.space("C05.conditions-displacements", 65536, |i, w| {
            let (mut sc, mut bus) = (Scratch::default(), Bus::new(seed));
            for cc in 0..16u16 {
                for op in [0x6000 | cc << 8, 0x50CB | cc << 8] {
                    for ccr in 0..32u16 {
                        bus.clear();
                        let mut st = regfile(0, c.seed);
                        st.sr = if i & 1 == 0 { 0x2700 } else { 0 } | ccr;
                        st.d[3] = [1u32, 0x0001_0000, 0xFFFF_FFFF, 0x8000][(i as usize + ccr as usize) & 3];
                        bus.set_code(st.pc, &[op, i as u16]);
                        lockstep::<Mc>(w, "C05", &st, &mut bus, &mut sc, NOCYC);
                    }
                }
            }
        });
    }
    // Where the instruction stands x displacement x stack: every branch, jump and call form.
    let at: Vec<u32> = powers(32, 2).into_iter().filter(|x| x & 1 == 0).collect();
    let n = at.len() as u64;
    let ar = &at;
    let forms: Vec<u16> = (0..=0xFFFFu16).filter(|&op| {
        let f = classify(op);
        match f.mn { Mn::Jmp | Mn::Jsr => f.ea >> 3 == 7 || matches!(f.ea & 7, 1 | 7), Mn::Dbcc => f.y == 2, Mn::Bcc | Mn::Bra | Mn::Bsr => matches!(op as u8, 0 | 2 | 0x7E | 0x80 | 0xFE | 0xFC), Mn::Rts | Mn::Rtr | Mn::Trap | Mn::Trapv => true, _ => false }
    }).collect();
    let fr = &forms;
    c.space("C05.places", n * forms.len() as u64, |i, w| {
        let (mut sc, mut bus) = (Scratch::default(), Bus::new(seed));
        let (pc, op) = (ar[(i % n) as usize], fr[(i / n) as usize]);
        let f = classify(op);
        for e in 0..if ext_words(&f) == 0 { 1 } else { c.by(24, 250) } {
            for sp in [0x000B_0000u32, 0, 2, 4, 0x8000_0002, 0xFFFF_FFFE] {
                // A stack over the instruction itself is left out: it would be read and written at once.
                if pc.wrapping_sub(sp.wrapping_sub(8)) < 24 || sp.wrapping_sub(8).wrapping_sub(pc) < 8 { continue; }
                bus.clear();
                let mut st = regfile((e & 1) as u32, c.seed);
                st.sr = [0x2700u16, 0x0015, 0x270A, 0x0004][(i as usize + e) & 3];
                st.pc = pc;
                st.set_a(7, sp);
                let mut words = vec![op];
                ext_fill(&f, e, &mut words);
                bus.set_code(st.pc, &words);
                lockstep::<Mc>(w, "C05", &st, &mut bus, &mut sc, NOCYC);
            }
        }
    });
    // All DBcc counters.
    c.space("C05.counters", 65536, |i, w| {
        let (mut sc, mut bus) = (Scratch::default(), Bus::new(seed));
        for op in [0x51C9u16, 0x57C9, 0x56C9, 0x5EC9] {
            for ccr in [0u16, 4, 0x1F, 0x0A] {
                for hi in [0u32, 0xFFFF_0000, 0x0001_0000] {
                    bus.clear();
                    let mut st = regfile(0, c.seed);
                    st.sr = 0x2700 | ccr;
                    st.d[1] = hi | i as u32;
                    bus.set_code(st.pc, &[op, if i & 1 == 0 { 0xFFF0 } else { 0x0100 }]);
                    lockstep::<Mc>(w, "C05", &st, &mut bus, &mut sc, NOCYC);
                }
            }
        }
    });
    // CHK: boundary pairs, and every 16-bit value against fixed bounds.
    let bounds: Vec<u32> = if c.thorough() { powers(16, 16) } else { L16.to_vec() };
    let bounds = &bounds;
    c.space("C05.chk", 65536, |i, w| {
        let (mut sc, mut bus) = (Scratch::default(), Bus::new(seed));
        for op in [0x4581u16, 0x4591, 0x45BC] {
            for &b in bounds {
                value_case(w, "C05", &mut bus, &mut sc, op, 0x2700 | (i as u16 & 31), b | 0x8000_0000, i as u32 | 0x7FFF_0000);
            }
        }
    });
    // Returns: every saved condition code word, boundary addresses, both modes.
    c.space("C05.returns", 65536, |i, w| {
        let (mut sc, mut bus) = (Scratch::default(), Bus::new(seed));
        for (op, with) in [(0x4E77u16, true), (0x4E75, false)] {
            for target in [0u32, 0x1000, 0xFFFF_FFFE, 0x7FFF_FFFF, 0x8000_0001] {
                for sr in [0x2700u16, 0x001F, 0x2315] {
                    for k in [0u32, 1] {
                        bus.clear();
                        let mut st = regfile(k, c.seed);
                        st.sr = sr;
                        let sp = st.a(7);
                        if with { bus.put16(sp, i as u16); bus.put32(sp.wrapping_add(2), target); } else { bus.put32(sp, target ^ i as u32); }
                        bus.set_code(st.pc, &[op]);
                        lockstep::<Mc>(w, "C05", &st, &mut bus, &mut sc, NOCYC);
                    }
                }
            }
        }
    });
}

fn main() {
    engine::main(&[("C02", c02), ("C03", c03), ("C04", c04), ("C05", c05)]);
}
