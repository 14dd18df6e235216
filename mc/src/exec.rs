//! Reference model of the processor: one step of the machine, written from the Programmer's Reference Manual and the
//! User's Manual with plain 32-bit values, size masks and bit-serial shifts. It shares no code with the crate.

use crate::bus::Bus;
use crate::decode::*;
use crate::times::{Cpu, K};

pub const X: u16 = 16;
pub const N: u16 = 8;
pub const Z: u16 = 4;
pub const V: u16 = 2;
pub const C: u16 = 1;
pub const S: u16 = 0x2000;
pub const T: u16 = 0x8000;
pub const SR_BITS: u16 = 0xA71F;

/// Set of pending exception vectors.
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Pend(pub [u64; 4]);

impl Pend {
    pub fn add(&mut self, v: u8) { self.0[v as usize >> 6] |= 1 << (v & 63); }
    pub fn remove(&mut self, v: u8) { self.0[v as usize >> 6] &= !(1 << (v & 63)); }
    pub fn has(&self, v: u8) -> bool { self.0[v as usize >> 6] >> (v & 63) & 1 == 1 }
    pub fn is_empty(&self) -> bool { self.0 == [0; 4] }
    pub fn list(&self) -> Vec<u8> { (0..=255u8).filter(|v| self.has(*v)).collect() }
}

/// Machine state.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Default)]
pub struct St {
    pub d: [u32; 8],
    pub a: [u32; 7],
    pub usp: u32,
    pub ssp: u32,
    pub sr: u16,
    pub pc: u32,
    pub stop: bool,
    pub ir: u16,
    pub pend: Pend,
}

impl St {
    pub fn new() -> St {
        St { sr: 0x2700, ir: 0xFFFF, ..Default::default() }
    }
    pub fn a(&self, r: u8) -> u32 {
        if r < 7 { self.a[r as usize] } else if self.sr & S != 0 { self.ssp } else { self.usp }
    }
    pub fn set_a(&mut self, r: u8, v: u32) {
        if r < 7 { self.a[r as usize] = v } else if self.sr & S != 0 { self.ssp = v } else { self.usp = v }
    }
    pub fn mask(&self) -> u8 { (self.sr >> 8 & 7) as u8 }
}

/// Interrupt level of a vector (autovectors and on-chip interrupts), if it is subject to the mask.
pub fn level(v: u8) -> Option<u8> {
    match v { 25..=31 | 57..=63 => Some(v & 7), _ => None }
}

/// Order in which simultaneous exceptions are processed: later processed means higher priority.
/// (group, level): group 0 first.
pub fn order(v: u8) -> (u8, u8) {
    match v {
        3 => (5, 0),
        2 => (4, 0),
        9 => (3, 0),
        25..=31 | 57..=63 => (2, v & 7),
        24 | 64..=255 => (2, 0),
        4 => (1, 1),
        8 => (1, 0),
        _ => (0, 0),
    }
}

/// Whether requesting `v` ends a STOP.
pub fn wakes(v: u8, mask: u8) -> bool {
    match v {
        0 | 9 | 24 | 64..=255 => true,
        _ => match level(v) { Some(l) => l == 7 || l > mask, None => false },
    }
}

pub fn request(s: &mut St, v: u8) {
    if wakes(v, s.mask()) { s.stop = false; }
    s.pend.add(v);
}

/// Destination whose value the architecture leaves undefined.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Dc { None, DByte(u8), Mem(u32) }

/// What the model says about a step.
#[derive(Clone, Copy, Debug)]
pub struct Out {
    pub cyc: u64,
    /// Cycles of exception processing included in `cyc`.
    pub proc_cyc: u64,
    pub vec: Option<u8>,
    /// The vector is a bus or address error met during the instruction.
    pub fault: bool,
    /// The fault happened on the opcode fetch.
    pub fetch_fault: bool,
    /// The fault happened on an extension word.
    pub ext_fault: bool,
    /// Status register bits the architecture defines after this step.
    pub sr_mask: u16,
    pub dc: Dc,
    pub ins: Option<Ins>,
    /// Exceptions processed before the instruction.
    pub processed: u32,
    /// The outcome is outside what the model defines (double fault during exception processing).
    pub undefined: bool,
    pub traced: bool,
    /// Processing an exception failed: the stack pointer and the frames below its initial value are partly written.
    pub frame_fault: bool,
    /// Operand time of a CHK or division that trapped (not included in `cyc`).
    pub trap_ea: u64,
}

enum E {
    /// Bus or address error.
    F(u8),
    /// Exception raised by the instruction.
    V(u8),
}

type R<T> = Result<T, E>;

struct M<'a> {
    s: &'a mut St,
    b: &'a mut Bus,
    cpu: &'a Cpu,
    sr_mask: u16,
    dc: Dc,
    trap_ea: u64,
}

fn msk(sz: u8) -> u32 { match sz { 1 => 0xFF, 2 => 0xFFFF, _ => 0xFFFF_FFFF } }
fn msb(sz: u8) -> u32 { match sz { 1 => 0x80, 2 => 0x8000, _ => 0x8000_0000 } }
fn sext(v: u32, sz: u8) -> u32 { match sz { 1 => v as u8 as i8 as i32 as u32, 2 => v as u16 as i16 as i32 as u32, _ => v } }

#[derive(Clone, Copy)]
enum Loc { D(u8), A(u8), M(u32), I(u32) }

pub fn cond(cc: u8, sr: u16) -> bool {
    let (n, z, v, c) = (sr & N != 0, sr & Z != 0, sr & V != 0, sr & C != 0);
    match cc {
        0 => true,
        1 => false,
        2 => !c && !z,
        3 => c || z,
        4 => !c,
        5 => c,
        6 => !z,
        7 => z,
        8 => !v,
        9 => v,
        10 => !n,
        11 => n,
        12 => n == v,
        13 => n != v,
        14 => n == v && !z,
        _ => z || n != v,
    }
}

fn index(s: &St, e: u16) -> u32 {
    let r = (e >> 12 & 7) as u8;
    let v = if e & 0x8000 != 0 { s.a(r) } else { s.d[r as usize] };
    (if e & 0x800 != 0 { v } else { sext(v, 2) }).wrapping_add(sext(e as u32 & 0xFF, 1))
}

/// Address of a memory operand, with the side effects on the address register.
pub fn addr_of(s: &mut St, am: Am, sz: u8) -> u32 {
    let inc = |r: u8| if r == 7 && sz == 1 { 2 } else { sz as u32 };
    match am {
        Am::Ind(r) => s.a(r),
        Am::Post(r) => { let a = s.a(r); s.set_a(r, a.wrapping_add(inc(r))); a }
        Am::Pre(r) => { let a = s.a(r).wrapping_sub(inc(r)); s.set_a(r, a); a }
        Am::Disp(r, d) => s.a(r).wrapping_add(d as i32 as u32),
        Am::Idx(r, e) => s.a(r).wrapping_add(index(s, e)),
        Am::AbsW(w) => w as i16 as i32 as u32,
        Am::AbsL(l) => l,
        Am::PcDisp(b, d) => b.wrapping_add(d as i32 as u32),
        Am::PcIdx(b, e) => b.wrapping_add(index(s, e)),
        _ => unreachable!(),
    }
}

fn bcd_ok(v: u32) -> bool { v & 15 < 10 && v >> 4 & 15 < 10 }
fn dec(v: u32) -> i32 { (v >> 4 & 15) as i32 * 10 + (v & 15) as i32 }
fn bcd(v: i32) -> u32 { ((v / 10) << 4 | v % 10) as u32 }

impl M<'_> {
    fn t(&self, k: K) -> u64 { self.cpu.t[k as usize] }

    fn rd(&mut self, a: u32, sz: u8) -> R<u32> {
        if sz == 1 { return self.b.rd8(a).map(|v| v as u32).ok_or(E::F(2)); }
        if a & 1 != 0 && !self.b.lenient { return Err(E::F(3)); }
        let h = self.b.rd16(a).ok_or(E::F(2))? as u32;
        if sz == 2 { return Ok(h); }
        let l = self.b.rd16(a.wrapping_add(2)).ok_or(E::F(2))? as u32;
        Ok(h << 16 | l)
    }
    fn wr(&mut self, a: u32, sz: u8, v: u32) -> R<()> {
        if sz == 1 { return self.b.wr8(a, v as u8).ok_or(E::F(2)); }
        if a & 1 != 0 && !self.b.lenient { return Err(E::F(3)); }
        if sz == 2 { return self.b.wr16(a, v as u16).ok_or(E::F(2)); }
        self.b.wr16(a, (v >> 16) as u16).ok_or(E::F(2))?;
        self.b.wr16(a.wrapping_add(2), v as u16).ok_or(E::F(2))
    }
    fn push(&mut self, sz: u8, v: u32) -> R<()> {
        let a = self.s.a(7).wrapping_sub(sz as u32);
        self.s.set_a(7, a);
        self.wr(a, sz, v)
    }
    fn pop(&mut self, sz: u8) -> R<u32> {
        let a = self.s.a(7);
        self.s.set_a(7, a.wrapping_add(sz as u32));
        self.rd(a, sz)
    }
    fn addr(&mut self, am: Am, sz: u8) -> u32 { addr_of(self.s, am, sz) }
    fn loc(&mut self, am: Am, sz: u8) -> Loc {
        match am {
            Am::D(r) => Loc::D(r),
            Am::A(r) => Loc::A(r),
            Am::Imm(v) => Loc::I(v),
            _ => Loc::M(self.addr(am, sz)),
        }
    }
    fn get(&mut self, l: Loc, sz: u8) -> R<u32> {
        Ok(match l {
            Loc::D(r) => self.s.d[r as usize] & msk(sz),
            Loc::A(r) => self.s.a(r) & msk(sz),
            Loc::I(v) => v & msk(sz),
            Loc::M(a) => self.rd(a, sz)?,
        })
    }
    fn put_d(&mut self, r: u8, sz: u8, v: u32) {
        let d = &mut self.s.d[r as usize];
        *d = *d & !msk(sz) | v & msk(sz);
    }
    fn put(&mut self, l: Loc, sz: u8, v: u32) -> R<()> {
        match l {
            Loc::D(r) => { self.put_d(r, sz, v); Ok(()) }
            Loc::A(r) => { self.s.set_a(r, sext(v, sz)); Ok(()) }
            Loc::M(a) => self.wr(a, sz, v),
            Loc::I(_) => unreachable!(),
        }
    }

    fn eac(&self, am: Am, sz: u8) -> u64 {
        let k = match am {
            Am::None | Am::D(_) | Am::A(_) => return 0,
            Am::Ind(_) => K::EA_ARI,
            Am::Post(_) => K::EA_ARIWPO,
            Am::Pre(_) => K::EA_ARIWPR,
            Am::Disp(..) => K::EA_ARIWD,
            Am::Idx(..) => K::EA_ARIWI8,
            Am::AbsW(_) => K::EA_ABSSHORT,
            Am::AbsL(_) => K::EA_ABSLONG,
            Am::PcDisp(..) => K::EA_PCIWD,
            Am::PcIdx(..) => K::EA_PCIWI8,
            Am::Imm(_) => K::EA_IMMEDIATE,
        };
        self.t(k) + if sz == 4 { 4 } else { 0 }
    }

    fn flag(&mut self, f: u16, on: bool) {
        if on { self.s.sr |= f } else { self.s.sr &= !f }
    }
    fn nz(&mut self, r: u32, sz: u8) {
        self.flag(N, r & msb(sz) != 0);
        self.flag(Z, r & msk(sz) == 0);
    }
    /// Flags of a logical result.
    fn logic(&mut self, r: u32, sz: u8) {
        self.nz(r, sz);
        self.flag(V | C, false);
    }
    fn x(&self) -> u64 { (self.s.sr & X != 0) as u64 }

    fn do_add(&mut self, s: u32, d: u32, sz: u8, x: u64, ext: bool) -> u32 {
        let m = msk(sz);
        let (s, d) = (s & m, d & m);
        let full = s as u64 + d as u64 + x;
        let r = full as u32 & m;
        let c = full > m as u64;
        let v = !(s ^ d) & (s ^ r) & msb(sz) != 0;
        self.flag(C, c);
        self.flag(X, c);
        self.flag(V, v);
        self.flag(N, r & msb(sz) != 0);
        if ext { if r != 0 { self.flag(Z, false) } } else { self.flag(Z, r == 0) }
        r
    }
    /// d - s.
    fn do_sub(&mut self, s: u32, d: u32, sz: u8, x: u64, ext: bool, cmp: bool) -> u32 {
        let m = msk(sz);
        let (s, d) = (s & m, d & m);
        let full = (d as i64) - (s as i64) - x as i64;
        let r = full as u32 & m;
        let c = full < 0;
        let v = (d ^ s) & (d ^ r) & msb(sz) != 0;
        self.flag(C, c);
        if !cmp { self.flag(X, c); }
        self.flag(V, v);
        self.flag(N, r & msb(sz) != 0);
        if ext { if r != 0 { self.flag(Z, false) } } else { self.flag(Z, r == 0) }
        r
    }

    fn shift(&mut self, mn: Mn, left: bool, sz: u8, v: u32, count: u32) -> u32 {
        let (m, hi) = (msk(sz), msb(sz));
        let mut v = v & m;
        let mut c = false;
        let mut ov = false;
        let mut x = self.s.sr & X != 0;
        let rotx = matches!(mn, Mn::Roxr | Mn::Roxm);
        if rotx { c = x; }
        for _ in 0..count {
            let out = v & if left { hi } else { 1 } != 0;
            let top = v & hi;
            let body = if left { v << 1 & m } else { v >> 1 };
            v = match mn {
                Mn::Asr | Mn::Asm => if left { body } else { body | top },
                Mn::Lsr | Mn::Lsm => body,
                Mn::Ror | Mn::Rom => body | if out { if left { 1 } else { hi } } else { 0 },
                _ => body | if x { if left { 1 } else { hi } } else { 0 },
            };
            if v & hi != top { ov = true; }
            c = out;
            if !matches!(mn, Mn::Ror | Mn::Rom) { x = out; }
        }
        self.nz(v, sz);
        self.flag(C, c);
        self.flag(X, x);
        self.flag(V, ov && left && matches!(mn, Mn::Asr | Mn::Asm));
        v
    }

    fn sup(&self) -> R<()> {
        if self.s.sr & S != 0 { Ok(()) } else { Err(E::V(8)) }
    }

    fn run(&mut self, i: &Ins) -> R<u64> {
        let f = &i.f;
        let (sz, am, imm) = (f.sz, i.am, i.imm);
        let mem = am.is_mem();
        // Picks one of the four usual entries.
        let pick = |m: &Self, rb: K, rl: K, mb: K, ml: K| m.t(match (mem, sz == 4) { (false, false) => rb, (false, true) => rl, (true, false) => mb, (true, true) => ml });
        let pc2 = i.pc.wrapping_add(2);
        Ok(match f.mn {
            Mn::Unknown => return Err(E::V(match i.op >> 12 { 10 => 10, 15 => 11, _ => 4 })),
            Mn::Illegal => return Err(E::V(4)),

            Mn::Abcd | Mn::Sbcd => {
                let (ls, ld) = if f.dir {
                    (Loc::M(self.addr(Am::Pre(f.y), 1)), Loc::M(self.addr(Am::Pre(f.x), 1)))
                } else { (Loc::D(f.y), Loc::D(f.x)) };
                let (s, d) = (self.get(ls, 1)?, self.get(ld, 1)?);
                let x = self.x() as i32;
                let (r, c) = if f.mn == Mn::Abcd {
                    let t = dec(s) + dec(d) + x;
                    (bcd(t % 100), t > 99)
                } else {
                    let t = dec(d) - dec(s) - x;
                    (bcd((t + 200) % 100), t < 0)
                };
                self.bcd_flags(r, c);
                if !bcd_ok(s) || !bcd_ok(d) { self.undef(ld); }
                self.put(ld, 1, r & 0xFF)?;
                self.t(match (f.mn == Mn::Abcd, f.dir) { (true, false) => K::ABCD_REG, (true, true) => K::ABCD_MEM, (false, false) => K::SBCD_REG, _ => K::SBCD_MEM })
            }
            Mn::Nbcd => {
                let l = self.loc(am, 1);
                let d = self.get(l, 1)?;
                let t = -dec(d) - self.x() as i32;
                let r = bcd((t + 200) % 100);
                self.bcd_flags(r, t < 0);
                if !bcd_ok(d) { self.undef(l); }
                self.put(l, 1, r)?;
                self.t(if mem { K::NBCD_MEM } else { K::NBCD_REG }) + self.eac(am, 1)
            }

            Mn::Add | Mn::Sub | Mn::And | Mn::Or => {
                let l = self.loc(am, sz);
                let e = self.get(l, sz)?;
                let d = self.s.d[f.x as usize] & msk(sz);
                let (s, d) = if f.dir { (d, e) } else { (e, d) };
                let r = match f.mn {
                    Mn::Add => self.do_add(s, d, sz, 0, false),
                    Mn::Sub => self.do_sub(s, d, sz, 0, false, false),
                    Mn::And => { self.logic(s & d, sz); s & d }
                    _ => { self.logic(s | d, sz); s | d }
                };
                if f.dir { self.put(l, sz, r)? } else { self.put_d(f.x, sz, r) }
                let ks = match f.mn {
                    Mn::Add => [K::ADD_REG_BW, K::ADD_REG_L, K::ADD_REG_L_RDIMM, K::ADD_MEM_BW, K::ADD_MEM_L],
                    Mn::Sub => [K::SUB_REG_BW, K::SUB_REG_L, K::SUB_REG_L_RDIMM, K::SUB_MEM_BW, K::SUB_MEM_L],
                    Mn::And => [K::AND_REG_BW, K::AND_REG_L, K::AND_REG_L_RDIMM, K::AND_MEM_BW, K::AND_MEM_L],
                    _ => [K::OR_REG_BW, K::OR_REG_L, K::OR_REG_L_RDIMM, K::OR_MEM_BW, K::OR_MEM_L],
                };
                let k = if f.dir { if sz == 4 { 4 } else { 3 } } else if sz != 4 { 0 } else if mem { 1 } else { 2 };
                self.t(ks[k]) + self.eac(am, sz)
            }
            Mn::Adda | Mn::Suba | Mn::Cmpa => {
                let l = self.loc(am, sz);
                let s = sext(self.get(l, sz)?, sz);
                let d = self.s.a(f.x);
                let ks = match f.mn {
                    Mn::Adda => { self.s.set_a(f.x, d.wrapping_add(s)); [K::ADDA_WORD, K::ADDA_LONG, K::ADDA_LONG_RDIMM] }
                    Mn::Suba => { self.s.set_a(f.x, d.wrapping_sub(s)); [K::SUBA_WORD, K::SUBA_LONG, K::SUBA_LONG_RDIMM] }
                    _ => { self.do_sub(s, d, 4, 0, false, true); [K::CMPA, K::CMPA, K::CMPA] }
                };
                self.t(ks[if sz == 2 { 0 } else if mem { 1 } else { 2 }]) + self.eac(am, sz)
            }
            Mn::Addi | Mn::Subi | Mn::Cmpi | Mn::Andi | Mn::Ori | Mn::Eori => {
                let l = self.loc(am, sz);
                let d = self.get(l, sz)?;
                let s = imm & msk(sz);
                let (r, k) = match f.mn {
                    Mn::Addi => (self.do_add(s, d, sz, 0, false), pick(self, K::ADDI_REG_BW, K::ADDI_REG_L, K::ADDI_MEM_BW, K::ADDI_MEM_L)),
                    Mn::Subi => (self.do_sub(s, d, sz, 0, false, false), pick(self, K::SUBI_REG_BW, K::SUBI_REG_L, K::SUBI_MEM_BW, K::SUBI_MEM_L)),
                    Mn::Cmpi => (self.do_sub(s, d, sz, 0, false, true), pick(self, K::CMPI_REG_BW, K::CMPI_REG_L, K::CMPI_MEM_BW, K::CMPI_MEM_L)),
                    Mn::Andi => (s & d, pick(self, K::ANDI_REG_BW, K::ANDI_REG_L, K::ANDI_MEM_BW, K::ANDI_MEM_L)),
                    Mn::Ori => (s | d, pick(self, K::ORI_REG_BW, K::ORI_REG_L, K::ORI_MEM_BW, K::ORI_MEM_L)),
                    _ => (s ^ d, pick(self, K::EORI_REG_BW, K::EORI_REG_L, K::EORI_MEM_BW, K::EORI_MEM_L)),
                };
                if matches!(f.mn, Mn::Andi | Mn::Ori | Mn::Eori) { self.logic(r, sz); }
                if f.mn != Mn::Cmpi { self.put(l, sz, r)?; }
                k + self.eac(am, sz)
            }
            Mn::Addq | Mn::Subq => {
                let q = f.q as u32;
                let add = f.mn == Mn::Addq;
                if let Am::A(r) = am {
                    let a = self.s.a(r);
                    self.s.set_a(r, if add { a.wrapping_add(q) } else { a.wrapping_sub(q) });
                    return Ok(self.t(match (add, sz == 4) { (true, true) => K::ADDQ_REG_L, (true, false) => K::ADDQ_REG_BW, (false, true) => K::SUBQ_REG_L, _ => K::SUBQ_AREG_BW }));
                }
                let l = self.loc(am, sz);
                let d = self.get(l, sz)?;
                let r = if add { self.do_add(q, d, sz, 0, false) } else { self.do_sub(q, d, sz, 0, false, false) };
                self.put(l, sz, r)?;
                self.eac(am, sz) + if add { pick(self, K::ADDQ_REG_BW, K::ADDQ_REG_L, K::ADDQ_MEM_BW, K::ADDQ_MEM_L) } else { pick(self, K::SUBQ_DREG_BW, K::SUBQ_REG_L, K::SUBQ_MEM_BW, K::SUBQ_MEM_L) }
            }
            Mn::Addx | Mn::Subx => {
                let (ls, ld) = if f.dir {
                    (Loc::M(self.addr(Am::Pre(f.y), sz)), Loc::M(self.addr(Am::Pre(f.x), sz)))
                } else { (Loc::D(f.y), Loc::D(f.x)) };
                let (s, d) = (self.get(ls, sz)?, self.get(ld, sz)?);
                let x = self.x();
                let add = f.mn == Mn::Addx;
                let r = if add { self.do_add(s, d, sz, x, true) } else { self.do_sub(s, d, sz, x, true, false) };
                self.put(ld, sz, r)?;
                self.t(match (add, f.dir, sz == 4) {
                    (true, false, false) => K::ADDX_REG_BW, (true, false, true) => K::ADDX_REG_L, (true, true, false) => K::ADDX_MEM_BW, (true, true, true) => K::ADDX_MEM_L,
                    (false, false, false) => K::SUBX_REG_BW, (false, false, true) => K::SUBX_REG_L, (false, true, false) => K::SUBX_MEM_BW, (false, true, true) => K::SUBX_MEM_L,
                })
            }
            Mn::Andiccr => { self.s.sr &= imm as u16 | 0xFF00; self.t(K::ANDICCR) }
            Mn::Oriccr => { self.s.sr |= imm as u16 & 0x1F; self.t(K::ORICCR) }
            Mn::Eoriccr => { self.s.sr ^= imm as u16 & 0x1F; self.t(K::EORICCR) }
            Mn::Andisr => { self.sup()?; self.s.sr &= imm as u16; self.t(K::ANDISR) }
            Mn::Orisr => { self.sup()?; self.s.sr |= imm as u16 & SR_BITS; self.t(K::ORISR) }
            Mn::Eorisr => { self.sup()?; self.s.sr ^= imm as u16 & SR_BITS; self.t(K::EORISR) }

            Mn::Asm | Mn::Lsm | Mn::Rom | Mn::Roxm => {
                let l = self.loc(am, 2);
                let v = self.get(l, 2)?;
                let r = self.shift(f.mn, f.dir, 2, v, 1);
                self.put(l, 2, r)?;
                self.eac(am, 2) + self.t(match f.mn { Mn::Asm => K::ASM, Mn::Lsm => K::LSM, Mn::Rom => K::ROM, _ => K::ROXM })
            }
            Mn::Asr | Mn::Lsr | Mn::Ror | Mn::Roxr => {
                let count = if f.ir { self.s.d[f.x as usize] & 63 } else if f.x == 0 { 8 } else { f.x as u32 };
                let v = self.s.d[f.y as usize] & msk(sz);
                let r = self.shift(f.mn, f.dir, sz, v, count);
                self.put_d(f.y, sz, r);
                let (b, l, c) = match f.mn {
                    Mn::Asr => (K::ASR_BW, K::ASR_L, K::ASR_COUNT),
                    Mn::Lsr => (K::LSR_BW, K::LSR_L, K::LSR_COUNT),
                    Mn::Ror => (K::ROR_BW, K::ROR_L, K::ROR_COUNT),
                    _ => (K::ROXR_BW, K::ROXR_L, K::ROXR_COUNT),
                };
                self.t(if sz == 4 { l } else { b }) + self.t(c) * count as u64
            }

            Mn::Bcc | Mn::Bra | Mn::Bsr => {
                let word = f.pre == Pre::Word;
                let disp = if word { sext(imm, 2) } else { sext(f.q as u32, 1) };
                match f.mn {
                    Mn::Bra => { self.s.pc = pc2.wrapping_add(disp); self.t(if word { K::BRA_WORD } else { K::BRA_BYTE }) }
                    Mn::Bsr => {
                        self.push(4, i.next)?;
                        self.s.pc = pc2.wrapping_add(disp);
                        self.t(if word { K::BSR_WORD } else { K::BSR_BYTE })
                    }
                    _ => if cond(f.x, self.s.sr) {
                        self.s.pc = pc2.wrapping_add(disp);
                        self.t(K::BCC_BRANCH)
                    } else {
                        self.t(if word { K::BCC_NO_BRANCH_WORD } else { K::BCC_NO_BRANCH_BYTE })
                    },
                }
            }
            Mn::Dbcc => {
                if cond(f.x, self.s.sr) { return Ok(self.t(K::DBCC_TRUE)); }
                let c = (self.s.d[f.y as usize] as u16).wrapping_sub(1);
                self.put_d(f.y, 2, c as u32);
                if c == 0xFFFF { self.t(K::DBCC_FALSE_NO_BRANCH) } else {
                    self.s.pc = pc2.wrapping_add(sext(imm, 2));
                    self.t(K::DBCC_FALSE_BRANCH)
                }
            }
            Mn::Scc => {
                let l = self.loc(am, 1);
                let c = cond(f.x, self.s.sr);
                self.put(l, 1, if c { 0xFF } else { 0 })?;
                self.eac(am, 1) + self.t(match (mem, c) { (false, false) => K::SCC_REG_FALSE, (false, true) => K::SCC_REG_TRUE, (true, false) => K::SCC_MEM_FALSE, _ => K::SCC_MEM_TRUE })
            }

            Mn::Btst | Mn::Bchg | Mn::Bclr | Mn::Bset => {
                let n = if f.dir { self.s.d[f.x as usize] } else { imm };
                let l = self.loc(am, sz);
                let v = self.get(l, sz)?;
                let bit = 1u32 << (n % if sz == 4 { 32 } else { 8 });
                self.flag(Z, v & bit == 0);
                match f.mn {
                    Mn::Bchg => self.put(l, sz, v ^ bit)?,
                    Mn::Bclr => self.put(l, sz, v & !bit)?,
                    Mn::Bset => self.put(l, sz, v | bit)?,
                    _ => {}
                }
                let reg = matches!(am, Am::D(_));
                let ks = match f.mn {
                    Mn::Btst => [K::BTST_STA_REG, K::BTST_STA_MEM, K::BTST_DYN_REG, K::BTST_DYN_MEM],
                    Mn::Bchg => [K::BCHG_STA_REG, K::BCHG_STA_MEM, K::BCHG_DYN_REG, K::BCHG_DYN_MEM],
                    Mn::Bclr => [K::BCLR_STA_REG, K::BCLR_STA_MEM, K::BCLR_DYN_REG, K::BCLR_DYN_MEM],
                    _ => [K::BSET_STA_REG, K::BSET_STA_MEM, K::BSET_DYN_REG, K::BSET_DYN_MEM],
                };
                self.t(ks[f.dir as usize * 2 + !reg as usize]) + self.eac(am, 1)
            }

            Mn::Chk => {
                let l = self.loc(am, 2);
                let bound = self.get(l, 2)? as u16 as i16;
                let d = self.s.d[f.x as usize] as u16 as i16;
                self.sr_mask &= !(Z | V | C);
                if d < 0 || d > bound {
                    self.flag(N, d < 0);
                    self.trap_ea = self.eac(am, 2);
                    return Err(E::V(6));
                }
                self.sr_mask &= !N;
                self.t(K::CHK_NO_TRAP) + self.eac(am, 2)
            }
            Mn::Clr => {
                let l = self.loc(am, sz);
                self.put(l, sz, 0)?;
                self.logic(0, sz);
                self.eac(am, sz) + pick(self, K::CLR_REG_BW, K::CLR_REG_L, K::CLR_MEM_BW, K::CLR_MEM_L)
            }
            Mn::Cmp => {
                let l = self.loc(am, sz);
                let s = self.get(l, sz)?;
                let d = self.s.d[f.x as usize];
                self.do_sub(s, d, sz, 0, false, true);
                self.eac(am, sz) + self.t(if sz == 4 { K::CMP_L } else { K::CMP_BW })
            }
            Mn::Cmpm => {
                let ls = Loc::M(self.addr(Am::Post(f.y), sz));
                let ld = Loc::M(self.addr(Am::Post(f.x), sz));
                let (s, d) = (self.get(ls, sz)?, self.get(ld, sz)?);
                self.do_sub(s, d, sz, 0, false, true);
                self.t(if sz == 4 { K::CMPM_L } else { K::CMPM_BW })
            }
            Mn::Divu | Mn::Divs => {
                let l = self.loc(am, 2);
                let s = self.get(l, 2)?;
                let d = self.s.d[f.x as usize];
                if s == 0 {
                    self.sr_mask &= !(N | Z | V);
                    self.flag(C, false);
                    self.trap_ea = self.eac(am, 2);
                    return Err(E::V(5));
                }
                self.flag(C, false);
                let (q, r, over) = if f.mn == Mn::Divu {
                    let q = d / s;
                    (q, d % s, q > 0xFFFF)
                } else {
                    let (s, d) = (sext(s, 2) as i32 as i64, d as i32 as i64);
                    let q = d / s;
                    (q as u32, (d % s) as u32, q < -32768 || q > 32767)
                };
                self.flag(V, over);
                if over { self.sr_mask &= !(N | Z); } else {
                    self.nz(q, 2);
                    self.s.d[f.x as usize] = r << 16 | q & 0xFFFF;
                }
                self.eac(am, 2) + self.t(if f.mn == Mn::Divu { K::DIVU } else { K::DIVS })
            }
            Mn::Mulu | Mn::Muls => {
                let l = self.loc(am, 2);
                let s = self.get(l, 2)?;
                let d = self.s.d[f.x as usize] & 0xFFFF;
                let r = if f.mn == Mn::Mulu { s * d } else { (sext(s, 2) as i32).wrapping_mul(sext(d, 2) as i32) as u32 };
                self.s.d[f.x as usize] = r;
                self.logic(r, 4);
                self.eac(am, 2) + self.t(if f.mn == Mn::Mulu { K::MULU } else { K::MULS })
            }
            Mn::Eor => {
                let l = self.loc(am, sz);
                let r = self.get(l, sz)? ^ self.s.d[f.x as usize] & msk(sz);
                self.put(l, sz, r)?;
                self.logic(r, sz);
                self.eac(am, sz) + pick(self, K::EOR_REG_BW, K::EOR_REG_L, K::EOR_MEM_BW, K::EOR_MEM_L)
            }
            Mn::Exg => {
                let (x, y) = (f.x, f.y);
                match f.q {
                    0 => self.s.d.swap(x as usize, y as usize),
                    1 => { let (a, b) = (self.s.a(x), self.s.a(y)); self.s.set_a(x, b); self.s.set_a(y, a); }
                    _ => { let (a, b) = (self.s.d[x as usize], self.s.a(y)); self.s.d[x as usize] = b; self.s.set_a(y, a); }
                }
                self.t(K::EXG)
            }
            Mn::Ext => {
                let v = self.s.d[f.y as usize];
                let r = if sz == 2 { sext(v, 1) } else { sext(v, 2) };
                self.put_d(f.y, sz, r);
                self.logic(r, sz);
                self.t(K::EXT)
            }
            Mn::Jmp | Mn::Jsr | Mn::Lea | Mn::Pea => {
                let a = self.addr(am, 4);
                let j = match am { Am::Ind(_) => 0, Am::Disp(..) => 1, Am::Idx(..) => 2, Am::AbsW(_) => 3, Am::AbsL(_) => 4, Am::PcDisp(..) => 5, _ => 6 };
                let base = match f.mn {
                    Mn::Jmp => { self.s.pc = a; K::JMP_ARI }
                    Mn::Jsr => { self.push(4, i.next)?; self.s.pc = a; K::JSR_ARI }
                    Mn::Lea => { self.s.set_a(f.x, a); K::LEA_ARI }
                    _ => { self.push(4, a)?; K::PEA_ARI }
                };
                self.cpu.t[base as usize + j]
            }
            Mn::Link => {
                // LINK A7 stores the decremented stack pointer.
                let v = if f.y == 7 { self.s.a(7).wrapping_sub(4) } else { self.s.a(f.y) };
                self.push(4, v)?;
                let sp = self.s.a(7);
                self.s.set_a(f.y, sp);
                self.s.set_a(7, sp.wrapping_add(sext(imm, 2)));
                self.t(K::LINK)
            }
            Mn::Unlk => {
                let v = self.s.a(f.y);
                self.s.set_a(7, v);
                let p = self.pop(4)?;
                self.s.set_a(f.y, p);
                self.t(K::UNLK)
            }
            Mn::Move => {
                let l = self.loc(am, sz);
                let v = self.get(l, sz)?;
                let l2 = self.loc(i.am2, sz);
                self.put(l2, sz, v)?;
                self.logic(v, sz);
                self.t(if matches!(i.am2, Am::Pre(_)) { K::MOVE_DST_ARIWPR } else { K::MOVE_OTHER }) + self.eac(am, sz) + self.eac(i.am2, sz)
            }
            Mn::Movea => {
                let l = self.loc(am, sz);
                let v = self.get(l, sz)?;
                self.s.set_a(f.x, sext(v, sz));
                self.t(K::MOVEA) + self.eac(am, sz)
            }
            Mn::Moveccr => {
                let l = self.loc(am, 2);
                let v = self.get(l, 2)? as u16;
                self.s.sr = self.s.sr & 0xFF00 | v & 0x1F;
                self.t(K::MOVECCR) + self.eac(am, 2)
            }
            Mn::Movefsr => {
                let l = self.loc(am, 2);
                let v = self.s.sr as u32;
                self.put(l, 2, v)?;
                self.t(if mem { K::MOVEFSR_MEM } else { K::MOVEFSR_REG }) + self.eac(am, 2)
            }
            Mn::Movesr => {
                self.sup()?;
                let l = self.loc(am, 2);
                let v = self.get(l, 2)? as u16;
                self.s.sr = v & SR_BITS;
                self.t(K::MOVESR) + self.eac(am, 2)
            }
            Mn::Moveusp => {
                self.sup()?;
                if f.dir { let u = self.s.usp; self.s.set_a(f.y, u) } else { self.s.usp = self.s.a(f.y) }
                self.t(K::MOVEUSP)
            }
            Mn::Movem => {
                let list = imm as u16;
                let n = list.count_ones() as u64;
                let j = match am { Am::Ind(_) => K::MOVEM_ARI, Am::Post(_) => K::MOVEM_ARIWPO, Am::Pre(_) => K::MOVEM_ARIWPR, Am::Disp(..) => K::MOVEM_ARIWD, Am::Idx(..) => K::MOVEM_ARIWI8,
                    Am::AbsW(_) => K::MOVEM_ABSSHORT, Am::AbsL(_) => K::MOVEM_ABSLONG, Am::PcDisp(..) => K::MOVEM_PCIWD, _ => K::MOVEM_PCIWI8 };
                let cost = self.t(j) + if f.dir { self.t(K::MOVEM_MTR) } else { 0 } + n * self.t(if sz == 4 { K::MOVEM_LONG } else { K::MOVEM_WORD });
                let step = sz as u32;
                if let Am::Pre(r) = am {
                    // Register 15 - bit.
                    let before = *self.s;
                    let mut a = before.a(r);
                    for bit in 0..16u8 {
                        if list >> bit & 1 == 0 { continue; }
                        let reg = 15 - bit;
                        let v = if reg < 8 { before.d[reg as usize] } else { before.a(reg - 8) };
                        a = a.wrapping_sub(step);
                        // A long is transferred low word first on this mode; the result is the same.
                        self.wr(a, sz, v)?;
                    }
                    self.s.set_a(r, a);
                    return Ok(cost);
                }
                let mut a = if let Am::Post(r) = am { self.s.a(r) } else { self.addr(am, sz) };
                for reg in 0..16u8 {
                    if list >> reg & 1 == 0 { continue; }
                    if f.dir {
                        let v = sext(self.rd(a, sz)?, sz);
                        if reg < 8 { self.s.d[reg as usize] = v } else { self.s.set_a(reg - 8, v) }
                    } else {
                        let v = if reg < 8 { self.s.d[reg as usize] } else { self.s.a(reg - 8) };
                        self.wr(a, sz, v)?;
                    }
                    a = a.wrapping_add(step);
                }
                if let Am::Post(r) = am { self.s.set_a(r, a); }
                cost
            }
            Mn::Movep => {
                let mut a = self.s.a(f.y).wrapping_add(sext(imm, 2));
                let mut v = if f.dir { self.s.d[f.x as usize] } else { 0 };
                for k in (0..sz).rev() {
                    if f.dir { self.wr(a, 1, v >> (8 * k))?; } else { v = v << 8 | self.rd(a, 1)?; }
                    a = a.wrapping_add(2);
                }
                if !f.dir { self.put_d(f.x, sz, v); }
                self.t(match (f.dir, sz == 4) { (true, false) => K::MOVEP_RTM_WORD, (true, true) => K::MOVEP_RTM_LONG, (false, false) => K::MOVEP_MTR_WORD, _ => K::MOVEP_MTR_LONG })
            }
            Mn::Moveq => {
                let v = sext(f.q as u32, 1);
                self.s.d[f.x as usize] = v;
                self.logic(v, 4);
                self.t(K::MOVEQ)
            }
            Mn::Neg | Mn::Negx => {
                let l = self.loc(am, sz);
                let d = self.get(l, sz)?;
                let ext = f.mn == Mn::Negx;
                let x = if ext { self.x() } else { 0 };
                let r = self.do_sub(d, 0, sz, x, ext, false);
                self.put(l, sz, r)?;
                self.eac(am, sz) + if ext { pick(self, K::NEGX_REG_BW, K::NEGX_REG_L, K::NEGX_MEM_BW, K::NEGX_MEM_L) } else { pick(self, K::NEG_REG_BW, K::NEG_REG_L, K::NEG_MEM_BW, K::NEG_MEM_L) }
            }
            Mn::Nop => self.t(K::NOP),
            Mn::Not => {
                let l = self.loc(am, sz);
                let r = !self.get(l, sz)?;
                self.put(l, sz, r)?;
                self.logic(r, sz);
                self.eac(am, sz) + pick(self, K::NOT_REG_BW, K::NOT_REG_L, K::NOT_MEM_BW, K::NOT_MEM_L)
            }
            Mn::Reset => { self.sup()?; self.b.resets += 1; self.t(K::RESET) }
            Mn::Rte => {
                self.sup()?;
                let sr = self.pop(2)? as u16;
                let pc = self.pop(4)?;
                let mut cost = self.t(K::RTE);
                if self.cpu.scc {
                    let fmt = self.pop(2)?;
                    match fmt >> 12 {
                        0 => {}
                        15 => { let sp = self.s.a(7); self.s.set_a(7, sp.wrapping_add(26)); cost += 101; }
                        _ => return Err(E::V(14)),
                    }
                }
                self.s.sr = sr & SR_BITS;
                self.s.pc = pc;
                cost
            }
            Mn::Rtr => {
                let ccr = self.pop(2)? as u16;
                let pc = self.pop(4)?;
                self.s.sr = self.s.sr & 0xFF00 | ccr & 0x1F;
                self.s.pc = pc;
                self.t(K::RTR)
            }
            Mn::Rts => { self.s.pc = self.pop(4)?; self.t(K::RTS) }
            Mn::Stop => { self.sup()?; self.s.sr = imm as u16 & SR_BITS; self.s.stop = true; self.t(K::STOP) }
            Mn::Swap => {
                let r = self.s.d[f.y as usize].rotate_left(16);
                self.s.d[f.y as usize] = r;
                self.logic(r, 4);
                self.t(K::SWAP)
            }
            Mn::Tas => {
                let l = self.loc(am, 1);
                let v = self.get(l, 1)?;
                self.logic(v, 1);
                self.put(l, 1, v | 0x80)?;
                self.eac(am, 1) + self.t(if mem { K::TAS_MEM } else { K::TAS_REG })
            }
            Mn::Trap => return Err(E::V(32 + f.q)),
            Mn::Trapv => { if self.s.sr & V != 0 { return Err(E::V(7)); } self.t(K::TRAPV_NO_TRAP) }
            Mn::Tst => {
                let l = self.loc(am, sz);
                let v = self.get(l, sz)?;
                self.logic(v, sz);
                self.eac(am, sz) + pick(self, K::TST_REG_BW, K::TST_REG_L, K::TST_MEM_BW, K::TST_MEM_L)
            }
        })
    }

    fn bcd_flags(&mut self, r: u32, c: bool) {
        self.flag(C | X, c);
        if r != 0 { self.flag(Z, false); }
        self.sr_mask &= !(N | V);
    }

    /// Operand digits are not decimal: the result and the condition codes are undefined.
    fn undef(&mut self, l: Loc) {
        self.sr_mask &= !0x1F;
        self.dc = match l { Loc::D(r) => Dc::DByte(r), Loc::M(a) => Dc::Mem(a), _ => Dc::None };
    }

    /// Processes one exception: frame, mode, vector.
    fn process(&mut self, v: u8) -> R<u64> {
        if v == 0 {
            self.s.ssp = self.rd(0, 4)?;
            self.s.pc = self.rd(4, 4)?;
            self.s.sr = self.s.sr & !T | S | 0x0700;
            self.s.stop = false;
            return Ok(self.cpu.reset);
        }
        let sr = self.s.sr;
        self.s.sr = sr & !T | S;
        if let Some(l) = level(v) { self.s.sr = self.s.sr & !0x0700 | (l as u16) << 8; }
        let (pc, ir) = (self.s.pc, self.s.ir as u32);
        let group0 = v == 2 || v == 3;
        if self.cpu.scc {
            if group0 {
                // 26 bytes of internal information, opcode in IRC and IR.
                self.push(2, 0)?;
                self.push(2, ir)?;
                self.push(2, ir)?;
                for _ in 0..10 { self.push(2, 0)?; }
                self.push(2, 0xF000 | v as u32 * 4)?;
            } else {
                self.push(2, v as u32 * 4)?;
            }
            self.push(4, pc)?;
            self.push(2, sr as u32)?;
        } else {
            self.push(4, pc)?;
            self.push(2, sr as u32)?;
            if group0 {
                self.push(2, ir)?;
                self.push(4, 0)?;
                self.push(2, 0)?;
            }
        }
        self.s.pc = self.rd(v as u32 * 4, 4)?;
        Ok((self.cpu.vector)(v))
    }
}

/// Pending exceptions that the mask lets through, in processing order.
pub fn ready(s: &St) -> Vec<u8> {
    let mut v: Vec<u8> = s.pend.list().into_iter().filter(|&v| match level(v) { Some(l) => l == 7 || l > s.mask(), None => true }).collect();
    v.sort_by_key(|&v| (order(v), v));
    v
}

/// One step of the machine.
pub fn step(s: &mut St, b: &mut Bus, cpu: &Cpu) -> Out {
    let mut o = Out { cyc: 0, proc_cyc: 0, vec: None, fault: false, fetch_fault: false, ext_fault: false, sr_mask: SR_BITS, dc: Dc::None, ins: None, processed: 0, undefined: false, traced: false, frame_fault: false, trap_ea: 0 };
    if s.stop { return o; }
    let mut m = M { s, b, cpu, sr_mask: SR_BITS, dc: Dc::None, trap_ea: 0 };
    if !m.s.pend.is_empty() {
        if m.s.pend.has(0) {
            m.s.pend = Pend::default();
            match m.process(0) { Ok(c) => o.proc_cyc += c, Err(_) => { o.undefined = true; return o; } }
            o.processed += 1;
        } else {
            for v in ready(m.s) {
                m.s.pend.remove(v);
                o.processed += 1;
                match m.process(v) {
                    Ok(c) => o.proc_cyc += c,
                    Err(E::F(e)) => {
                        if e == 2 && v == 2 { o.undefined = true; return o; }
                        o.frame_fault = true;
                        let n = if e == 2 && level(v).is_some() { 24 } else { e };
                        m.s.pend.add(n);
                    }
                    Err(E::V(_)) => unreachable!(),
                }
            }
        }
    }
    o.cyc = o.proc_cyc;
    let pc = m.s.pc;
    if pc & 1 != 0 {
        o.vec = Some(3);
        o.fault = true;
        o.fetch_fault = true;
        return o;
    }
    let Some(op) = m.b.rd16(pc) else {
        o.vec = Some(2);
        o.fault = true;
        o.fetch_fault = true;
        m.s.pc = pc.wrapping_add(2);
        return o;
    };
    m.s.ir = op;
    let b = &mut *m.b;
    let ins = match finish(op, classify(op), pc, &mut |a| b.rd16(a).ok_or(())) {
        Ok(i) => i,
        Err(()) => {
            o.vec = Some(2);
            o.fault = true;
            o.ext_fault = true;
            return o;
        }
    };
    o.ins = Some(ins);
    let traced = m.s.sr & T != 0;
    m.s.pc = ins.next;
    match m.run(&ins) {
        Ok(c) => {
            o.cyc += c;
            if traced && !ins.f.mn.privileged() { o.vec = Some(9); o.traced = true; }
        }
        Err(E::F(v)) => { o.vec = Some(v); o.fault = true; }
        Err(E::V(v)) => {
            o.vec = Some(v);
            // The offending instruction's own address for those that did not execute at all.
            if matches!(v, 4 | 8 | 10 | 11) { m.s.pc = pc; }
        }
    }
    o.sr_mask = m.sr_mask;
    o.dc = m.dc;
    o.trap_ea = m.trap_ea;
    o
}
