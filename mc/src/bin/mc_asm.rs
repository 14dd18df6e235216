//! C12: the assembler. Every function with every combination of its parameters, compared with the reference decoder.

use m68000::addressing_modes::{AddressingMode as M, BriefExtensionWord};
use m68000::assembler::{self as asm, Condition};
use m68000::instruction::{Direction as Dir, Instruction, Size};
use m68000::MemoryAccess;
use mc::decode::*;
use mc::drive::pick;
use mc::engine::{self, guard, Ctx, H, W};
use mc::text;
use std::collections::HashMap;

/// An instruction asked for: the fields that apply, in the terms of the reference decoder.
#[derive(Clone, Copy, Debug)]
struct Rq { mn: Mn, sz: u8, x: u16, y: u16, dir: Option<bool>, ir: bool, q: u32, ea: Am, ea2: Am, imm: Option<u32> }

fn rq(mn: Mn) -> Rq { Rq { mn, sz: 0, x: 0, y: 0, dir: Some(false), ir: false, q: 0, ea: Am::None, ea2: Am::None, imm: None } }
impl Rq {
    fn sz(mut self, s: Size) -> Rq { self.sz = s as u8; self }
    fn s(mut self, s: u8) -> Rq { self.sz = s; self }
    fn x(mut self, x: u16) -> Rq { self.x = x; self }
    fn y(mut self, y: u16) -> Rq { self.y = y; self }
    /// Second: the direction that is the true form; first: the other; anything else is not an instruction.
    fn dir(mut self, d: Dir, no: Dir, yes: Dir) -> Rq { self.dir = if d == yes { Some(true) } else if d == no { Some(false) } else { None }; self }
    fn form(mut self, d: bool) -> Rq { self.dir = Some(d); self }
    fn q(mut self, q: u32) -> Rq { self.q = q; self }
    fn ea(mut self, a: Am) -> Rq { self.ea = a; self }
    fn ea2(mut self, a: Am) -> Rq { self.ea2 = a; self }
    fn imm(mut self, i: u32) -> Rq { self.imm = Some(i); self }
}

type Key = (Mn, u8, u16, u16, bool, bool, u32, u8, u8);

/// Fields of a form that carry meaning.
fn key(f: &Form) -> Key {
    use Mn::*;
    let x = match f.mn {
        Abcd | Sbcd | Addx | Subx | Add | Sub | And | Or | Cmp | Eor | Adda | Suba | Cmpa | Cmpm | Chk | Divs | Divu | Muls | Mulu | Lea | Movep | Movea | Moveq | Exg | Asr | Lsr | Ror | Roxr | Bcc | Dbcc | Scc => f.x,
        Bchg | Bclr | Bset | Btst if f.dir => f.x,
        _ => 0,
    };
    let y = if f.ea == 0xFF { match f.mn {
        Abcd | Sbcd | Addx | Subx | Cmpm | Movep | Exg | Asr | Lsr | Ror | Roxr | Dbcc | Ext | Link | Swap | Unlk | Moveusp => f.y,
        _ => 0,
    } } else { 0 };
    let q = match f.mn { Trap | Addq | Subq | Exg => f.q as u32, Moveq => f.q as u32, _ => 0 };
    let dir = match f.mn { Cmp | Eor => false, _ => f.dir };
    // The size of these follows from the operation or the operand.
    let sz = match f.mn { Bchg | Bclr | Bset | Btst => 0, _ => f.sz };
    (f.mn, sz, x as u16, y as u16, dir, f.ir, q, f.ea, f.ea2)
}

fn field(a: Am) -> Option<u8> {
    let r = |m: u8, r: u8| if r <= 7 { Some(m << 3 | r) } else { None };
    match a {
        Am::None => Some(0xFF),
        Am::D(x) => r(0, x), Am::A(x) => r(1, x), Am::Ind(x) => r(2, x), Am::Post(x) => r(3, x), Am::Pre(x) => r(4, x),
        Am::Disp(x, _) => r(5, x), Am::Idx(x, _) => r(6, x),
        Am::AbsW(_) => Some(0x38), Am::AbsL(_) => Some(0x39), Am::PcDisp(..) => Some(0x3A), Am::PcIdx(..) => Some(0x3B), Am::Imm(_) => Some(0x3C),
    }
}

struct Table(HashMap<Key, u16>);
impl Table {
    fn new() -> Table {
        let mut t = HashMap::new();
        for op in 0..=0xFFFFu16 {
            let f = classify(op);
            if f.mn == Mn::Unknown { continue; }
            let old = t.insert(key(&f), op);
            assert!(old.is_none() || matches!(f.mn, Mn::Bcc | Mn::Bra | Mn::Bsr), "two opcodes for {f:?}: {old:04X?} {op:04X}");
        }
        Table(t)
    }
    /// The opcode of a request, if there is such an instruction.
    fn find(&self, r: &Rq) -> Option<u16> {
        if r.x > 15 || r.y > 255 || r.q > 255 { return None; }
        let sz = match r.mn { Mn::Bchg | Mn::Bclr | Mn::Bset | Mn::Btst => 0, _ => r.sz };
        self.0.get(&(r.mn, sz, r.x, r.y, r.dir?, r.ir, r.q, field(r.ea)?, field(r.ea2)?)).copied()
    }
}

/// Same operand, whatever the program counter recorded in it.
fn same_am(a: Am, b: Am, sz: u8) -> bool {
    let bits = match sz { 1 => 0xFF, 4 => u32::MAX, _ => 0xFFFF };
    match (a, b) {
        (Am::PcDisp(_, d), Am::PcDisp(_, e)) => d == e,
        (Am::PcIdx(_, d), Am::PcIdx(_, e)) => d == e,
        (Am::Imm(v), Am::Imm(u)) => (v ^ u) & bits == 0,
        (a, b) => a == b,
    }
}

struct Mem<'a>(&'a [u16]);
impl MemoryAccess for Mem<'_> {
    fn get_byte(&mut self, _: u32) -> Option<u8> { None }
    fn get_word(&mut self, a: u32) -> Option<u16> { self.0.get((a.wrapping_sub(0x1000) >> 1) as usize).copied() }
    fn set_byte(&mut self, _: u32, _: u8) -> Option<()> { None }
    fn set_word(&mut self, _: u32, _: u16) -> Option<()> { None }
    fn reset_instruction(&mut self) {}
}

trait Words { fn words(self) -> Vec<u16>; }
impl Words for u16 { fn words(self) -> Vec<u16> { vec![self] } }
impl Words for [u16; 2] { fn words(self) -> Vec<u16> { self.to_vec() } }
impl Words for Vec<u16> { fn words(self) -> Vec<u16> { self } }

/// Judges one call of the assembler.
fn judge<T: Words>(w: &mut W, t: &Table, r: Rq, call: impl FnOnce() -> T, show: impl Fn() -> String) {
    w.transition();
    w.trace();
    let want = t.find(&r);
    let got = guard(|| call().words());
    w.digest(|| { let mut h = H::new(); match &got { Ok(v) => for x in v { h.add(*x as u64); }, Err(_) => h.add(1 << 32) } h.get() });
    let mut h = H::new();
    h.add(r.mn as u64 | (r.sz as u64) << 8 | (r.x as u64) << 16 | (r.y as u64) << 32 | (r.dir.map_or(2, |d| d as u64)) << 48 | (r.ir as u64) << 56);
    h.add(r.q as u64 | (r.imm.unwrap_or(0) as u64) << 16);
    for b in format!("{:?}{:?}", r.ea, r.ea2).bytes() { h.add(b as u64); }
    w.state(h.get());
    let mn = r.mn;
    let words = match (want, got) {
        (None, Err(_)) => { w.outcome(mn as u64); w.stat("requests rejected", 1); return; }
        (None, Ok(v)) => { w.fail(format!("C12:{mn:?}:not-rejected{}", shape(&r)), || format!("{} is assembled into {v:04X?}", show())); return; }
        (Some(_), Err(e)) => { w.fail(format!("C12:{mn:?}:rejected"), || format!("{} panics: '{e}'", show())); return; }
        (Some(_), Ok(v)) => v,
    };
    w.stat("requests encoded", 1);
    let op = words.first().copied().unwrap_or(0);
    w.outcome(op as u64 | 1 << 32);
    let f = classify(op);
    let bad = |w: &mut W, what: &str| w.fail(format!("C12:{mn:?}:{what}"), || format!("{} is assembled into {words:04X?}, which is {f:?}", show()));
    if f.mn == Mn::Unknown || (f.mn, key(&f)) != (mn, key(&classify(want.unwrap()))) { bad(w, "opcode"); return; }
    let Ok(ins) = finish::<()>(op, f, 0x1000, &mut |a| words.get((a.wrapping_sub(0x1000) >> 1) as usize).copied().ok_or(())) else { bad(w, "too-short"); return };
    if ins.words() as usize != words.len() { bad(w, "length"); return; }
    let sz = if matches!(mn, Mn::Bchg | Mn::Bclr | Mn::Bset | Mn::Btst) { 1 } else { f.sz };
    if !same_am(ins.am, r.ea, sz) { bad(w, "operand"); return; }
    if !same_am(ins.am2, r.ea2, sz) { bad(w, "destination"); return; }
    if let Some(imm) = r.imm {
        let have = match mn { Mn::Bra | Mn::Bsr | Mn::Bcc => text::branch_disp(&ins) as u16 as u32, _ => ins.imm };
        let bits = match mn {
            Mn::Addi | Mn::Andi | Mn::Cmpi | Mn::Eori | Mn::Ori | Mn::Subi => text::imm_bits(&ins),
            Mn::Andiccr | Mn::Eoriccr | Mn::Oriccr | Mn::Bchg | Mn::Bclr | Mn::Bset | Mn::Btst => 0xFF,
            _ => 0xFFFF,
        };
        if (have ^ imm) & bits != 0 { bad(w, "immediate"); return; }
        // Documented: one word when the displacement fits it and is not zero, otherwise two.
        let short = (-128..=127).contains(&(imm as u16 as i16)) && imm as u16 != 0;
        if matches!(mn, Mn::Bra | Mn::Bsr | Mn::Bcc) && (words.len() == 1) != short { bad(w, "branch-form"); return; }
    }
    // The crate's own decoder agrees.
    let back = guard(|| { let mut m = Mem(&words); let mut it = m.iter_u16(0x1000); (Instruction::from_memory(&mut it), it.next_addr) });
    let bits = text::imm_bits(&ins);
    match back {
        Ok((Ok(i), next)) if next == ins.next && i.opcode == op && text::norm(i.operands, mn, bits) == text::norm(text::operands(&ins), mn, bits) => {}
        b => w.fail(format!("C12:{mn:?}:decode"), || format!("{} is assembled into {words:04X?}, decoded as {b:?}", show())),
    }
}

/// What distinguishes the ways a request can be wrong.
fn shape(r: &Rq) -> String {
    let a = |a: Am| match a { Am::None => String::new(), a => { let t = format!("{a:?}"); format!(":{}{}", t.split('(').next().unwrap(), if field(a).is_none() { "!" } else { "" }) } };
    format!("{}{}{}", a(r.ea), a(r.ea2), if r.dir.is_none() { ":direction" } else if r.x > 7 || r.y > 7 { ":register" } else { "" })
}

const REGS: [u8; 12] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 255];
const SIZES: [Size; 3] = [Size::Byte, Size::Word, Size::Long];
const DIRS: [Dir; 13] = [
    Dir::RegisterToMemory, Dir::MemoryToRegister, Dir::DstReg, Dir::DstEa, Dir::Left, Dir::Right, Dir::RegisterToUsp, Dir::UspToRegister, Dir::RegisterToRegister, Dir::MemoryToMemory, Dir::ExchangeData, Dir::ExchangeAddress,
    Dir::ExchangeDataAddress,
];
const CONDS: [Condition; 16] = [
    Condition::T, Condition::F, Condition::HI, Condition::LS, Condition::CC, Condition::CS, Condition::NE, Condition::EQ, Condition::VC, Condition::VS, Condition::PL, Condition::MI, Condition::GE, Condition::LT, Condition::GT,
    Condition::LE,
];
const I32: [u32; 14] = [0, 1, 0x12, 0x7F, 0x80, 0xFF, 0x7FFF, 0x8000, 0xFFFF, 0x1_2345, 0x7FFF_FFFF, 0x8000_0000, 0x1234_5678, 0xFFFF_FFFF];

/// Addressing modes: every kind, every register (also invalid ones), boundary extension values.
fn modes(deep: bool) -> Vec<Am> {
    let mut v = Vec::new();
    let d16: &[i16] = if deep { &[0, 1, -1, 2, 0x7F, 0x80, 0x7FFF, -0x8000, 0x1234, -0x1235, 0x00FF, -0x100] } else { &[0x1234, -2, -0x8000, 0x7FFF] };
    let mut brief = Vec::new();
    for a in [false, true] { for r in 0..8 { for l in [false, true] { for d in [0i8, 1, -1, 127, -128] {
        if deep || (r as i16 + d as i16) % 3 == 0 { brief.push(BriefExtensionWord::new(a, r, l, d).0); }
    } } } }
    for r in REGS {
        v.extend([Am::D(r), Am::A(r), Am::Ind(r), Am::Post(r), Am::Pre(r)]);
        v.extend(d16.iter().map(|d| Am::Disp(r, *d)));
        v.extend(brief.iter().enumerate().filter(|(k, _)| deep || (k + r as usize) % 4 == 0).map(|(_, e)| Am::Idx(r, *e)));
    }
    v.extend([0u16, 1, 0x7FFF, 0x8000, 0xFFFE, 0x1234].map(Am::AbsW));
    v.extend([0u32, 1, 0xFFFF, 0x1_0000, 0x7FFF_FFFF, 0x8000_0000, 0xFFFF_FFFE, 0x1234_5678].map(Am::AbsL));
    v.extend(d16.iter().map(|d| Am::PcDisp(0x5555_0000, *d)));
    v.extend(brief.iter().map(|e| Am::PcIdx(0xAAAA_0000, *e)));
    v.extend(I32.map(Am::Imm));
    v
}

/// Immediates beyond the operand size are not judged: nothing says what they mean.
fn oversized(a: Am, sz: u8) -> bool {
    match a { Am::Imm(v) => match sz { 1 => v > 0xFF && v < 0xFFFF_FF80, 4 => false, _ => v > 0xFFFF && v < 0xFFFF_8000 }, _ => false }
}

fn c12(ctx: &Ctx) {
    ctx.assume("Immediates wider than the operand size and condition-code masks above 0xFF are not judged: the assembler does not define them. Bit numbers beyond the operand size may be refused, but not changed.");
    ctx.assume("A branch may be encoded with 8 or 16 displacement bits, as long as it decodes to the requested displacement.");
    let t = &Table::new();
    let ams = &modes(ctx.thorough());
    type Ea1 = fn(M) -> Vec<u16>;
    type SzEa = fn(Size, M) -> Vec<u16>;
    type RegEa = fn(u8, M) -> Vec<u16>;
    type RegSzEa = fn(u8, Size, M) -> Vec<u16>;
    type RegDirSzEa = fn(u8, Dir, Size, M) -> Vec<u16>;
    type SzEaImm = fn(Size, M, u32) -> Vec<u16>;

    // One effective address.
    let one: &[(Mn, u8, Ea1, &str)] = &[
        (Mn::Jmp, 0, asm::jmp, "jmp"), (Mn::Jsr, 0, asm::jsr, "jsr"), (Mn::Pea, 4, asm::pea, "pea"), (Mn::Nbcd, 1, asm::nbcd, "nbcd"), (Mn::Tas, 1, asm::tas, "tas"),
        (Mn::Moveccr, 2, asm::moveccr, "moveccr"), (Mn::Movefsr, 2, asm::movefsr, "movefsr"), (Mn::Movesr, 2, asm::movesr, "movesr"),
    ];
    let sized: &[(Mn, SzEa, &str)] = &[(Mn::Clr, asm::clr, "clr"), (Mn::Neg, asm::neg, "neg"), (Mn::Negx, asm::negx, "negx"), (Mn::Not, asm::not, "not"), (Mn::Tst, asm::tst, "tst")];
    let reg: &[(Mn, u8, RegEa, &str)] = &[
        (Mn::Chk, 2, asm::chk, "chk"), (Mn::Divs, 2, asm::divs, "divs"), (Mn::Divu, 2, asm::divu, "divu"), (Mn::Muls, 2, asm::muls, "muls"), (Mn::Mulu, 2, asm::mulu, "mulu"), (Mn::Lea, 4, asm::lea, "lea"),
        (Mn::Bchg, 0, asm::bchg_dynamic, "bchg_dynamic"), (Mn::Bclr, 0, asm::bclr_dynamic, "bclr_dynamic"), (Mn::Bset, 0, asm::bset_dynamic, "bset_dynamic"), (Mn::Btst, 0, asm::btst_dynamic, "btst_dynamic"),
    ];
    let regsz: &[(Mn, RegSzEa, &str)] = &[
        (Mn::Adda, asm::adda, "adda"), (Mn::Cmpa, asm::cmpa, "cmpa"), (Mn::Suba, asm::suba, "suba"), (Mn::Cmp, asm::cmp, "cmp"), (Mn::Eor, asm::eor, "eor"),
        (Mn::Movea, |r, s, a| asm::movea(s, r, a), "movea"), (Mn::Addq, asm::addq, "addq"), (Mn::Subq, asm::subq, "subq"),
    ];
    let regdir: &[(Mn, RegDirSzEa, &str)] = &[(Mn::Add, asm::add, "add"), (Mn::And, asm::and, "and"), (Mn::Or, asm::or, "or"), (Mn::Sub, asm::sub, "sub")];
    let imm: &[(Mn, SzEaImm, &str)] = &[(Mn::Addi, asm::addi, "addi"), (Mn::Andi, asm::andi, "andi"), (Mn::Cmpi, asm::cmpi, "cmpi"), (Mn::Eori, asm::eori, "eori"), (Mn::Ori, asm::ori, "ori"), (Mn::Subi, asm::subi, "subi")];
    ctx.space("C12:effective-address", ams.len() as u64, |i, w| {
        let a = ams[i as usize];
        let m = text::mode(a);
        for (mn, sz, f, name) in one {
            if oversized(a, *sz) { continue; }
            judge(w, t, rq(*mn).s(*sz).ea(a), || f(m), || format!("{name}({m:?})"));
        }
        for (mn, f, name) in sized { for s in SIZES {
            judge(w, t, rq(*mn).sz(s).ea(a), || f(s, m), || format!("{name}({s:?}, {m:?})"));
        } }
        for (mn, sz, f, name) in reg { for r in REGS {
            if oversized(a, if *sz == 0 { 1 } else { *sz }) { continue; }
            judge(w, t, rq(*mn).s(*sz).x(r as u16).form(*sz == 0).ea(a), || f(r, m), || format!("{name}({r}, {m:?})"));
        } }
        for (mn, f, name) in regsz { for r in REGS { for s in SIZES {
            if oversized(a, s as u8) { continue; }
            let q = rq(*mn).sz(s).ea(a);
            let q = if matches!(mn, Mn::Addq | Mn::Subq) { q.q(r as u32) } else { q.x(r as u16) };
            judge(w, t, q, || f(r, s, m), || format!("{name}({r}, {s:?}, {m:?})"));
        } } }
        for (mn, f, name) in regdir { for r in REGS { for s in SIZES { for d in DIRS {
            if oversized(a, s as u8) { continue; }
            judge(w, t, rq(*mn).sz(s).x(r as u16).dir(d, Dir::DstReg, Dir::DstEa).ea(a), || f(r, d, s, m), || format!("{name}({r}, {d:?}, {s:?}, {m:?})"));
        } } } }
        for (mn, f, name) in imm { for s in SIZES { for v in I32 {
            if oversized(Am::Imm(v), s as u8) { continue; }
            judge(w, t, rq(*mn).sz(s).ea(a).imm(v), || f(s, m, v), || format!("{name}({s:?}, {m:?}, {v:#X})"));
        } } }
        for (mn, f, name) in [(Mn::Bchg, asm::bchg_static as fn(M, u8) -> Vec<u16>, "bchg_static"), (Mn::Bclr, asm::bclr_static, "bclr_static"), (Mn::Bset, asm::bset_static, "bset_static"), (Mn::Btst, asm::btst_static, "btst_static")] {
            for n in (0..32).chain([32, 33, 37, 63, 64, 127, 128, 200, 255]) {
                // A number beyond the operand may be refused, but not changed.
                if (n > 7 && !matches!(a, Am::D(_)) || n > 31) && guard(|| f(m, n)).is_err() { continue; }
                judge(w, t, rq(mn).ea(a).imm(n as u32), || f(m, n), || format!("{name}({m:?}, {n})"));
            }
        }
        for d in DIRS {
            for (mn, f, name) in [(Mn::Asm, asm::asm as fn(Dir, M) -> Vec<u16>, "asm"), (Mn::Lsm, asm::lsm, "lsm"), (Mn::Rom, asm::rom, "rom"), (Mn::Roxm, asm::roxm, "roxm")] {
                judge(w, t, rq(mn).s(2).dir(d, Dir::Right, Dir::Left).ea(a), || f(d, m), || format!("{name}({d:?}, {m:?})"));
            }
            for s in SIZES { for mask in [0u16, 1, 0x8000, 0xFFFF, 0x1234, 0xA5C3] {
                judge(w, t, rq(Mn::Movem).sz(s).dir(d, Dir::RegisterToMemory, Dir::MemoryToRegister).ea(a).imm(mask as u32), || asm::movem(d, s, m, mask), || format!("movem({d:?}, {s:?}, {m:?}, {mask:04X})"));
            } }
        }
        for (k, c) in CONDS.iter().enumerate() { judge(w, t, rq(Mn::Scc).s(1).x(k as u16).ea(a), || asm::scc(*c, m), || format!("scc({c:?}, {m:?})")); }
        w.sample(|| format!("{m:?}: e.g. tst.w {:?}", guard(|| asm::tst(Size::Word, m))));
    });

    ctx.space("C12:move", ams.len() as u64, |i, w| {
        let src = ams[i as usize];
        for dst in ams { for s in SIZES {
            if oversized(src, s as u8) || oversized(*dst, s as u8) { continue; }
            judge(w, t, rq(Mn::Move).sz(s).ea(src).ea2(*dst), || asm::r#move(s, text::mode(*dst), text::mode(src)), || format!("move({s:?}, {:?}, {:?})", text::mode(*dst), text::mode(src)));
        } }
    });

    // Register forms.
    ctx.space("C12:registers", 256, |i, w| {
        let x = i as u8;
        for y in 0..=255u8 {
            if x > 20 && y > 20 && x != 255 && y != 255 { continue; }
            for d in DIRS {
                let rr = |mn| rq(mn).x(x as u16).y(y as u16).dir(d, Dir::RegisterToRegister, Dir::MemoryToMemory);
                judge(w, t, rr(Mn::Abcd).s(1), || asm::abcd(x, d, y), || format!("abcd({x}, {d:?}, {y})"));
                judge(w, t, rr(Mn::Sbcd).s(1), || asm::sbcd(x, d, y), || format!("sbcd({x}, {d:?}, {y})"));
                for s in SIZES {
                    judge(w, t, rr(Mn::Addx).sz(s), || asm::addx(x, s, d, y), || format!("addx({x}, {s:?}, {d:?}, {y})"));
                    judge(w, t, rr(Mn::Subx).sz(s), || asm::subx(x, s, d, y), || format!("subx({x}, {s:?}, {d:?}, {y})"));
                    for disp in [0i16, 1, -1, 0x7FFF, -0x8000] {
                        judge(w, t, rq(Mn::Movep).sz(s).x(x as u16).y(y as u16).dir(d, Dir::MemoryToRegister, Dir::RegisterToMemory).imm(disp as u16 as u32), || asm::movep(x, d, s, y, disp), || format!("movep({x}, {d:?}, {s:?}, {y}, {disp})"));
                    }
                }
                let q = match d { Dir::ExchangeData => Some(0), Dir::ExchangeAddress => Some(1), Dir::ExchangeDataAddress => Some(2), _ => None };
                let e = Rq { dir: q.map(|_| false), ..rq(Mn::Exg).s(4).x(x as u16).y(y as u16).q(q.unwrap_or(0)) };
                judge(w, t, e, || asm::exg(x, d, y), || format!("exg({x}, {d:?}, {y})"));
            }
            for s in SIZES { judge(w, t, rq(Mn::Cmpm).sz(s).x(x as u16).y(y as u16), || asm::cmpm(x, s, y), || format!("cmpm({x}, {s:?}, {y})")); }
            judge(w, t, rq(Mn::Moveq).s(4).x(x as u16).q(y as u32), || asm::moveq(x, y as i8), || format!("moveq({x}, {})", y as i8));
        }
        judge(w, t, rq(Mn::Trap).q(if x > 15 { 999 } else { x as u32 }), || asm::trap(x), || format!("trap({x})"));
        for l in [false, true] { judge(w, t, rq(Mn::Ext).s(if l { 4 } else { 2 }).y(x as u16), || asm::ext(l, x), || format!("ext({l}, {x})")); }
        judge(w, t, rq(Mn::Swap).s(4).y(x as u16), || asm::swap(x), || format!("swap({x})"));
        judge(w, t, rq(Mn::Unlk).y(x as u16), || asm::unlk(x), || format!("unlk({x})"));
        for d in DIRS { judge(w, t, rq(Mn::Moveusp).s(4).y(x as u16).dir(d, Dir::RegisterToUsp, Dir::UspToRegister), || asm::moveusp(d, x), || format!("moveusp({d:?}, {x})")); }
    });

    // Shifts by register.
    let counts: Vec<u16> = (0..18).chain([255, 256, 264, 0x8000, 0xFFFF]).collect();
    ctx.space("C12:shifts", counts.len() as u64, |i, w| {
        let c = counts[i as usize];
        type F = fn(u16, Dir, Size, bool, u16) -> u16;
        for (mn, f, name) in [(Mn::Asr, asm::asr as F, "asr"), (Mn::Lsr, asm::lsr, "lsr"), (Mn::Ror, asm::ror, "ror"), (Mn::Roxr, asm::roxr, "roxr")] {
            for d in DIRS { for s in SIZES { for ir in [false, true] { for reg in counts.iter().copied() {
                if c == 8 && !ir { continue; }
                let r = Rq { ir, ..rq(mn).sz(s).x(c).y(reg).dir(d, Dir::Right, Dir::Left) };
                judge(w, t, r, || f(c, d, s, ir, reg), || format!("{name}({c}, {d:?}, {s:?}, {ir}, {reg})"));
            } } } }
        }
    });

    // Sixteen-bit parameters, complete.
    ctx.space("C12:words", 65536, |i, w| {
        let v = i as u16;
        let d = v as i16;
        let im = |mn, s| rq(mn).s(s).imm(v as u32);
        for (k, c) in CONDS.iter().enumerate() {
            judge(w, t, rq(Mn::Bcc).x(if k < 2 { 99 } else { k as u16 }).imm(v as u32), || asm::bcc(*c, d), || format!("bcc({c:?}, {d})"));
            for r in if v % pick(w, 4, 1) == 0 { &REGS[..] } else { &REGS[3..4] } {
                judge(w, t, rq(Mn::Dbcc).s(2).x(k as u16).y(*r as u16).imm(v as u32), || asm::dbcc(*c, *r, d), || format!("dbcc({c:?}, {r}, {d})"));
            }
        }
        judge(w, t, rq(Mn::Bra).imm(v as u32), || asm::bra(d), || format!("bra({d})"));
        judge(w, t, rq(Mn::Bsr).imm(v as u32), || asm::bsr(d), || format!("bsr({d})"));
        for r in REGS { judge(w, t, rq(Mn::Link).s(2).y(r as u16).imm(v as u32), || asm::link(r, d), || format!("link({r}, {d})")); }
        judge(w, t, im(Mn::Andisr, 2), || asm::andisr(v), || format!("andisr({v:#X})"));
        judge(w, t, im(Mn::Eorisr, 2), || asm::eorisr(v), || format!("eorisr({v:#X})"));
        judge(w, t, im(Mn::Orisr, 2), || asm::orisr(v), || format!("orisr({v:#X})"));
        judge(w, t, im(Mn::Stop, 0), || asm::stop(v), || format!("stop({v:#X})"));
        if v <= 0xFF {
            judge(w, t, im(Mn::Andiccr, 1), || asm::andiccr(v), || format!("andiccr({v:#X})"));
            judge(w, t, im(Mn::Eoriccr, 1), || asm::eoriccr(v), || format!("eoriccr({v:#X})"));
            judge(w, t, im(Mn::Oriccr, 1), || asm::oriccr(v), || format!("oriccr({v:#X})"));
        }
        judge(w, t, rq(Mn::Movep).s(4).x(3).y(5).form(true).imm(v as u32), || asm::movep(3, Dir::RegisterToMemory, Size::Long, 5, d), || format!("movep(3, RegisterToMemory, Long, 5, {d})"));
        judge(w, t, rq(Mn::Movem).s(2).form(true).ea(Am::Post(6)).imm(v as u32), || asm::movem(Dir::MemoryToRegister, Size::Word, M::Ariwpo(6), v), || format!("movem(MemoryToRegister, Word, Ariwpo(6), {v:#X})"));
        judge(w, t, rq(Mn::Movem).s(4).form(false).ea(Am::Pre(7)).imm(v as u32), || asm::movem(Dir::RegisterToMemory, Size::Long, M::Ariwpr(7), v), || format!("movem(RegisterToMemory, Long, Ariwpr(7), {v:#X})"));
        for a in [Am::Disp(4, d), Am::AbsW(v), Am::PcDisp(0, d), Am::AbsL((v as u32) << 16 | (v ^ 0xFFFF) as u32), Am::Idx(2, v), Am::PcIdx(0, v)] {
            let m = text::mode(a);
            judge(w, t, rq(Mn::Jsr).ea(a), || asm::jsr(m), || format!("jsr({m:?})"));
            judge(w, t, rq(Mn::Lea).s(4).x(6).ea(a), || asm::lea(6, m), || format!("lea(6, {m:?})"));
            judge(w, t, rq(Mn::Move).s(2).ea(a).ea2(Am::Disp(1, !d)), || asm::r#move(Size::Word, M::Ariwd(1, !d), m), || format!("move(Word, Ariwd(1, {}), {m:?})", !d));
        }
        for s in SIZES {
            let long = (v as u32) << 16 | (v.rotate_left(3)) as u32;
            let val = if s == Size::Long { long } else if s == Size::Word { v as u32 } else { v as u32 & 0xFF };
            judge(w, t, rq(Mn::Addi).sz(s).ea(Am::AbsL(long)).imm(val), || asm::addi(s, M::AbsLong(long), val), || format!("addi({s:?}, AbsLong({long:#X}), {val:#X})"));
            judge(w, t, rq(Mn::Cmp).sz(s).x(5).ea(Am::Imm(val)), || asm::cmp(5, s, M::Immediate(val)), || format!("cmp(5, {s:?}, Immediate({val:#X}))"));
        }
    });

    // No parameters; brief extension words.
    ctx.space("C12:plain", 8, |i, w| {
        let (mn, f, name): (Mn, fn() -> u16, &str) = [
            (Mn::Illegal, asm::illegal as fn() -> u16, "illegal"), (Mn::Nop, asm::nop, "nop"), (Mn::Reset, asm::reset, "reset"), (Mn::Rte, asm::rte, "rte"), (Mn::Rtr, asm::rtr, "rtr"), (Mn::Rts, asm::rts, "rts"), (Mn::Trapv, asm::trapv, "trapv"),
            (Mn::Nop, asm::nop, "nop"),
        ][i as usize];
        judge(w, t, rq(mn), f, || format!("{name}()"));
        for address in [false, true] { for reg in 0..=255u8 { for long in [false, true] { for d in -128..=127i8 {
            let got = guard(|| { let b = BriefExtensionWord::new(address, reg, long, d); (b.0, b.disp(), b.to_string()) });
            w.transition();
            let want = (reg <= 7).then(|| ((address as u16) << 15 | (reg as u16) << 12 | (long as u16) << 11 | d as u8 as u16, d, format!("{}{reg}.{}", if address { 'A' } else { 'D' }, if long { 'L' } else { 'W' })));
            if want != got.clone().ok() { w.fail("C12:brief-extension-word", || format!("BriefExtensionWord::new({address}, {reg}, {long}, {d}) gives {got:?}, expected {want:?}")); }
            if reg > 20 { break; }
        } } } }
    });
}

fn main() {
    engine::main(&[("C12", c12)]);
}
