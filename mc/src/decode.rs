//! Reference decoder of the MC68000 instruction set, written from the Programmer's Reference Manual's
//! instruction formats. It shares no code with the crate under test.

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(u8)]
pub enum Mn {
    Unknown, Abcd, Add, Adda, Addi, Addq, Addx, And, Andi, Andiccr, Andisr, Asm, Asr, Bcc, Bchg, Bclr, Bra, Bset,
    Bsr, Btst, Chk, Clr, Cmp, Cmpa, Cmpi, Cmpm, Dbcc, Divs, Divu, Eor, Eori, Eoriccr, Eorisr, Exg, Ext, Illegal,
    Jmp, Jsr, Lea, Link, Lsm, Lsr, Move, Movea, Moveccr, Movefsr, Movesr, Moveusp, Movem, Movep, Moveq, Muls,
    Mulu, Nbcd, Neg, Negx, Nop, Not, Or, Ori, Oriccr, Orisr, Pea, Reset, Rom, Ror, Roxm, Roxr, Rte, Rtr, Rts,
    Sbcd, Scc, Stop, Sub, Suba, Subi, Subq, Subx, Swap, Tas, Trap, Trapv, Tst, Unlk,
}

impl Mn {
    pub fn privileged(self) -> bool {
        matches!(self, Mn::Andisr | Mn::Eorisr | Mn::Orisr | Mn::Movesr | Mn::Moveusp | Mn::Reset | Mn::Rte | Mn::Stop)
    }
}

/// Addressing mode with its extension words.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Am {
    None,
    D(u8),
    A(u8),
    Ind(u8),
    Post(u8),
    Pre(u8),
    Disp(u8, i16),
    Idx(u8, u16),
    AbsW(u16),
    AbsL(u32),
    /// Base (address of the extension word) and displacement.
    PcDisp(u32, i16),
    PcIdx(u32, u16),
    Imm(u32),
}

impl Am {
    pub fn is_mem(self) -> bool {
        !matches!(self, Am::None | Am::D(_) | Am::A(_) | Am::Imm(_))
    }
}

/// What extension words precede those of the effective address.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pre {
    None,
    /// One word.
    Word,
    /// One or two words depending on the size.
    Sized,
}

/// What an opcode alone says.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Form {
    pub mn: Mn,
    /// Operand size in bytes (0: unsized).
    pub sz: u8,
    /// Register or data field of bits 9-11, condition for Bcc/DBcc/Scc, quick data.
    pub x: u8,
    /// Register of bits 0-2 for the forms without an effective address.
    pub y: u8,
    /// Direction or form: see each instruction.
    pub dir: bool,
    /// Shift count is a register.
    pub ir: bool,
    /// 8-bit immediate part of the opcode.
    pub q: u8,
    pub pre: Pre,
    /// Effective address field (mode<<3|reg), 0xFF when there is none.
    pub ea: u8,
    /// Second effective address (MOVE destination).
    pub ea2: u8,
}

const ALL: u16 = 0xFFF;
const AN: u16 = 1 << 1;
const DN: u16 = 1 << 0;
const PC: u16 = 1 << 9 | 1 << 10;
const IMM: u16 = 1 << 11;
const DATA: u16 = ALL & !AN;
const MEM: u16 = ALL & !AN & !DN;
const ALTER: u16 = ALL & !PC & !IMM;
const DALTER: u16 = ALTER & !AN;
const MALTER: u16 = MEM & ALTER;
const POST: u16 = 1 << 3;
const PRED: u16 = 1 << 4;
const CONTROL: u16 = MEM & !IMM & !POST & !PRED;

fn ok(ea: u8, cat: u16) -> bool {
    let (m, r) = (ea >> 3, ea & 7);
    let i = if m < 7 { m } else { 7 + r };
    i < 12 && cat >> i & 1 == 1
}

const UNK: Form = Form { mn: Mn::Unknown, sz: 0, x: 0, y: 0, dir: false, ir: false, q: 0, pre: Pre::None, ea: 0xFF, ea2: 0xFF };

/// Classifies an opcode.
pub fn classify(op: u16) -> Form {
    classify_opt(op).unwrap_or(UNK)
}

fn classify_opt(op: u16) -> Option<Form> {
    let ea = (op & 0x3F) as u8;
    let mode = ea >> 3;
    let y = (op & 7) as u8;
    let x = (op >> 9 & 7) as u8;
    let s2 = (op >> 6 & 3) as u8;
    let bit8 = op & 0x100 != 0;
    let cc = (op >> 8 & 15) as u8;
    let szs = [1u8, 2, 4, 0];
    let sz = szs[s2 as usize];
    let f = |mn| Form { mn, x, y, ..UNK };
    let need = |cond: bool| if cond { Some(()) } else { None };
    Some(match op >> 12 {
        0x0 => {
            if bit8 {
                if mode == 1 {
                    return Some(Form { dir: op & 0x80 != 0, sz: if op & 0x40 != 0 { 4 } else { 2 }, pre: Pre::Word, ..f(Mn::Movep) });
                }
                let mn = [Mn::Btst, Mn::Bchg, Mn::Bclr, Mn::Bset][s2 as usize];
                need(ok(ea, if mn == Mn::Btst { DATA } else { DALTER }))?;
                return Some(Form { dir: true, sz: if mode == 0 { 4 } else { 1 }, ea, ..f(mn) });
            }
            if x == 4 {
                let mn = [Mn::Btst, Mn::Bchg, Mn::Bclr, Mn::Bset][s2 as usize];
                need(ok(ea, if mn == Mn::Btst { DATA & !IMM } else { DALTER }))?;
                return Some(Form { sz: if mode == 0 { 4 } else { 1 }, pre: Pre::Word, ea, ..f(mn) });
            }
            let special = match op {
                0x003C => Some((Mn::Oriccr, 1)), 0x007C => Some((Mn::Orisr, 2)),
                0x023C => Some((Mn::Andiccr, 1)), 0x027C => Some((Mn::Andisr, 2)),
                0x0A3C => Some((Mn::Eoriccr, 1)), 0x0A7C => Some((Mn::Eorisr, 2)),
                _ => None,
            };
            if let Some((mn, sz)) = special {
                return Some(Form { sz, pre: Pre::Word, ..f(mn) });
            }
            let mn = match x { 0 => Mn::Ori, 1 => Mn::Andi, 2 => Mn::Subi, 3 => Mn::Addi, 5 => Mn::Eori, 6 => Mn::Cmpi, _ => return None };
            need(s2 != 3 && ok(ea, DALTER))?;
            Form { sz, pre: Pre::Sized, ea, ..f(mn) }
        }
        0x1..=0x3 => {
            let sz = [0, 1, 4, 2][(op >> 12) as usize];
            let ea2 = ((op >> 3 & 0x38) | (op >> 9 & 7)) as u8;
            need(ok(ea, if sz == 1 { DATA } else { ALL }))?;
            if ea2 >> 3 == 1 {
                need(sz != 1)?;
                return Some(Form { sz, ea, ..f(Mn::Movea) });
            }
            need(ok(ea2, DALTER))?;
            Form { sz, ea, ea2, ..f(Mn::Move) }
        }
        0x4 => {
            if bit8 {
                return match s2 {
                    2 => need(ok(ea, DATA)).map(|_| Form { sz: 2, ea, ..f(Mn::Chk) }),
                    3 => need(ok(ea, CONTROL)).map(|_| Form { sz: 4, ea, ..f(Mn::Lea) }),
                    _ => None,
                };
            }
            match x {
                0 | 1 | 2 | 3 => {
                    if s2 == 3 {
                        let (mn, cat) = match x { 0 => (Mn::Movefsr, DALTER), 2 => (Mn::Moveccr, DATA), 3 => (Mn::Movesr, DATA), _ => return None };
                        need(ok(ea, cat))?;
                        return Some(Form { sz: 2, ea, ..f(mn) });
                    }
                    need(ok(ea, DALTER))?;
                    Form { sz, ea, ..f([Mn::Negx, Mn::Clr, Mn::Neg, Mn::Not][x as usize]) }
                }
                4 => match s2 {
                    0 => { need(ok(ea, DALTER))?; Form { sz: 1, ea, ..f(Mn::Nbcd) } }
                    1 => {
                        if mode == 0 { return Some(Form { sz: 4, ..f(Mn::Swap) }); }
                        need(ok(ea, CONTROL))?;
                        Form { sz: 4, ea, ..f(Mn::Pea) }
                    }
                    _ => {
                        let sz = if s2 == 2 { 2 } else { 4 };
                        if mode == 0 { return Some(Form { sz, ..f(Mn::Ext) }); }
                        need(ok(ea, (CONTROL & ALTER) | PRED))?;
                        Form { sz, pre: Pre::Word, ea, dir: false, ..f(Mn::Movem) }
                    }
                },
                5 => {
                    if op == 0x4AFC { return Some(f(Mn::Illegal)); }
                    need(ok(ea, DALTER))?;
                    if s2 == 3 { Form { sz: 1, ea, ..f(Mn::Tas) } } else { Form { sz, ea, ..f(Mn::Tst) } }
                }
                6 => {
                    need(s2 >= 2 && ok(ea, CONTROL | POST))?;
                    Form { sz: if s2 == 2 { 2 } else { 4 }, pre: Pre::Word, ea, dir: true, ..f(Mn::Movem) }
                }
                _ => match s2 {
                    1 => match op & 0x3F {
                        0x00..=0x0F => Form { q: (op & 15) as u8, ..f(Mn::Trap) },
                        0x10..=0x17 => Form { pre: Pre::Word, sz: 2, ..f(Mn::Link) },
                        0x18..=0x1F => f(Mn::Unlk),
                        0x20..=0x27 => Form { dir: false, sz: 4, ..f(Mn::Moveusp) },
                        0x28..=0x2F => Form { dir: true, sz: 4, ..f(Mn::Moveusp) },
                        0x30 => f(Mn::Reset),
                        0x31 => f(Mn::Nop),
                        0x32 => Form { pre: Pre::Word, ..f(Mn::Stop) },
                        0x33 => f(Mn::Rte),
                        0x35 => f(Mn::Rts),
                        0x36 => f(Mn::Trapv),
                        0x37 => f(Mn::Rtr),
                        _ => return None,
                    },
                    2 | 3 => {
                        need(ok(ea, CONTROL))?;
                        Form { ea, ..f(if s2 == 2 { Mn::Jsr } else { Mn::Jmp }) }
                    }
                    _ => return None,
                },
            }
        }
        0x5 => {
            if s2 == 3 {
                if mode == 1 { return Some(Form { x: cc, sz: 2, pre: Pre::Word, ..f(Mn::Dbcc) }); }
                need(ok(ea, DALTER))?;
                return Some(Form { x: cc, sz: 1, ea, ..f(Mn::Scc) });
            }
            need(ok(ea, if sz == 1 { DALTER } else { ALTER }))?;
            Form { sz, ea, q: if x == 0 { 8 } else { x }, ..f(if bit8 { Mn::Subq } else { Mn::Addq }) }
        }
        0x6 => {
            let q = op as u8;
            let mn = match cc { 0 => Mn::Bra, 1 => Mn::Bsr, _ => Mn::Bcc };
            Form { x: cc, q, pre: if q == 0 { Pre::Word } else { Pre::None }, ..f(mn) }
        }
        0x7 => { need(!bit8)?; Form { sz: 4, q: op as u8, ..f(Mn::Moveq) } }
        0x8 | 0xC => {
            let or = op >> 12 == 8;
            if s2 == 3 {
                need(ok(ea, DATA))?;
                let mn = match (or, bit8) { (true, false) => Mn::Divu, (true, true) => Mn::Divs, (false, false) => Mn::Mulu, _ => Mn::Muls };
                return Some(Form { sz: 2, ea, ..f(mn) });
            }
            if bit8 && mode < 2 {
                if s2 == 0 { return Some(Form { sz: 1, dir: mode == 1, ..f(if or { Mn::Sbcd } else { Mn::Abcd }) }); }
                // EXG: 01000 (D,D), 01001 (A,A), 10001 (D,A).
                need(!or)?;
                let q = match (s2, mode) { (1, 0) => 0, (1, 1) => 1, (2, 1) => 2, _ => return None };
                return Some(Form { sz: 4, q, ..f(Mn::Exg) });
            }
            need(ok(ea, if bit8 { MALTER } else { DATA }))?;
            Form { sz, ea, dir: bit8, ..f(if or { Mn::Or } else { Mn::And }) }
        }
        0x9 | 0xD => {
            let sub = op >> 12 == 9;
            if s2 == 3 {
                need(ok(ea, ALL))?;
                return Some(Form { sz: if bit8 { 4 } else { 2 }, ea, ..f(if sub { Mn::Suba } else { Mn::Adda }) });
            }
            if bit8 && mode < 2 {
                return Some(Form { sz, dir: mode == 1, ..f(if sub { Mn::Subx } else { Mn::Addx }) });
            }
            need(ok(ea, if bit8 { MALTER } else if sz == 1 { DATA } else { ALL }))?;
            Form { sz, ea, dir: bit8, ..f(if sub { Mn::Sub } else { Mn::Add }) }
        }
        0xB => {
            if s2 == 3 {
                need(ok(ea, ALL))?;
                return Some(Form { sz: if bit8 { 4 } else { 2 }, ea, ..f(Mn::Cmpa) });
            }
            if !bit8 {
                need(ok(ea, if sz == 1 { DATA } else { ALL }))?;
                return Some(Form { sz, ea, ..f(Mn::Cmp) });
            }
            if mode == 1 { return Some(Form { sz, ..f(Mn::Cmpm) }); }
            need(ok(ea, DALTER))?;
            Form { sz, ea, dir: true, ..f(Mn::Eor) }
        }
        0xE => {
            if s2 == 3 {
                need(op & 0x800 == 0 && ok(ea, MALTER))?;
                return Some(Form { sz: 2, dir: bit8, ea, ..f([Mn::Asm, Mn::Lsm, Mn::Roxm, Mn::Rom][(x & 3) as usize]) });
            }
            let mn = [Mn::Asr, Mn::Lsr, Mn::Roxr, Mn::Ror][(op >> 3 & 3) as usize];
            Form { sz, dir: bit8, ir: op & 0x20 != 0, ..f(mn) }
        }
        _ => return None,
    })
}

/// A decoded instruction.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Ins {
    pub op: u16,
    pub pc: u32,
    pub f: Form,
    /// Immediate, list, displacement word(s) preceding the effective address.
    pub imm: u32,
    pub am: Am,
    pub am2: Am,
    /// Address following the instruction.
    pub next: u32,
}

impl Ins {
    pub fn words(&self) -> u32 {
        self.next.wrapping_sub(self.pc) / 2
    }
}

fn read_am<E>(ea: u8, sz: u8, at: &mut u32, fetch: &mut impl FnMut(u32) -> Result<u16, E>) -> Result<Am, E> {
    if ea == 0xFF {
        return Ok(Am::None);
    }
    let r = ea & 7;
    let mut word = |at: &mut u32| -> Result<u16, E> { let w = fetch(*at)?; *at = at.wrapping_add(2); Ok(w) };
    Ok(match (ea >> 3, r) {
        (0, _) => Am::D(r),
        (1, _) => Am::A(r),
        (2, _) => Am::Ind(r),
        (3, _) => Am::Post(r),
        (4, _) => Am::Pre(r),
        (5, _) => Am::Disp(r, word(at)? as i16),
        (6, _) => Am::Idx(r, word(at)?),
        (_, 0) => Am::AbsW(word(at)?),
        (_, 1) => { let h = word(at)?; let l = word(at)?; Am::AbsL((h as u32) << 16 | l as u32) }
        (_, 2) => { let b = *at; Am::PcDisp(b, word(at)? as i16) }
        (_, 3) => { let b = *at; Am::PcIdx(b, word(at)?) }
        (_, _) => if sz == 4 { let h = word(at)?; let l = word(at)?; Am::Imm((h as u32) << 16 | l as u32) } else { Am::Imm(word(at)? as u32) },
    })
}

/// Reads the extension words of `op`, located at `pc`.
pub fn finish<E>(op: u16, f: Form, pc: u32, fetch: &mut impl FnMut(u32) -> Result<u16, E>) -> Result<Ins, E> {
    let mut at = pc.wrapping_add(2);
    let mut imm = 0;
    if f.pre != Pre::None {
        imm = fetch(at)? as u32;
        at = at.wrapping_add(2);
        if f.pre == Pre::Sized && f.sz == 4 {
            imm = imm << 16 | fetch(at)? as u32;
            at = at.wrapping_add(2);
        }
    }
    let am = read_am(f.ea, f.sz, &mut at, fetch)?;
    let am2 = read_am(f.ea2, f.sz, &mut at, fetch)?;
    Ok(Ins { op, pc, f, imm, am, am2, next: at })
}

/// Number of extension words an opcode has.
pub fn ext_words(f: &Form) -> usize {
    let e = |ea: u8| -> usize {
        if ea == 0xFF { return 0; }
        match (ea >> 3, ea & 7) {
            (5, _) | (6, _) | (7, 0) | (7, 2) | (7, 3) => 1,
            (7, 1) => 2,
            (7, 4) => if f.sz == 4 { 2 } else { 1 },
            _ => 0,
        }
    };
    let p = match f.pre { Pre::None => 0, Pre::Word => 1, Pre::Sized => if f.sz == 4 { 2 } else { 1 } };
    p + e(f.ea) + e(f.ea2)
}

/// Role of each extension word, for reports and for choosing values.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum ExtRole { Imm, List, Disp, Count, D16, Brief, AbsW, AbsHi, AbsLo, PcD16, PcBrief, ImmEa, ImmEaHi, ImmEaLo, ImmHi, ImmLo }

pub fn ext_roles(f: &Form) -> Vec<ExtRole> {
    let mut v = Vec::new();
    match f.pre {
        Pre::None => {}
        Pre::Word => v.push(match f.mn {
            Mn::Movem => ExtRole::List,
            Mn::Bcc | Mn::Bra | Mn::Bsr | Mn::Dbcc | Mn::Movep | Mn::Link => ExtRole::Disp,
            Mn::Btst | Mn::Bchg | Mn::Bclr | Mn::Bset => ExtRole::Count,
            _ => ExtRole::Imm,
        }),
        Pre::Sized => if f.sz == 4 { v.push(ExtRole::ImmHi); v.push(ExtRole::ImmLo) } else { v.push(ExtRole::Imm) },
    }
    for ea in [f.ea, f.ea2] {
        if ea == 0xFF { continue; }
        match (ea >> 3, ea & 7) {
            (5, _) => v.push(ExtRole::D16),
            (6, _) => v.push(ExtRole::Brief),
            (7, 0) => v.push(ExtRole::AbsW),
            (7, 1) => { v.push(ExtRole::AbsHi); v.push(ExtRole::AbsLo) }
            (7, 2) => v.push(ExtRole::PcD16),
            (7, 3) => v.push(ExtRole::PcBrief),
            (7, 4) => if f.sz == 4 { v.push(ExtRole::ImmEaHi); v.push(ExtRole::ImmEaLo) } else { v.push(ExtRole::ImmEa) },
            _ => {}
        }
    }
    v
}
