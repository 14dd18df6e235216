//! What the crate's decoder and disassembler have to say about a reference instruction.

use crate::decode::*;
use m68000::addressing_modes::{AddressingMode as M, BriefExtensionWord};
use m68000::instruction::{Direction as Dir, Operands as O, Size};

pub fn size(sz: u8) -> Size {
    match sz { 1 => Size::Byte, 2 => Size::Word, 4 => Size::Long, _ => panic!("size {sz}") }
}

pub fn mode(a: Am) -> M {
    match a {
        Am::D(r) => M::Drd(r),
        Am::A(r) => M::Ard(r),
        Am::Ind(r) => M::Ari(r),
        Am::Post(r) => M::Ariwpo(r),
        Am::Pre(r) => M::Ariwpr(r),
        Am::Disp(r, d) => M::Ariwd(r, d),
        Am::Idx(r, e) => M::Ariwi8(r, BriefExtensionWord(e)),
        Am::AbsW(a) => M::AbsShort(a),
        Am::AbsL(a) => M::AbsLong(a),
        Am::PcDisp(b, d) => M::Pciwd(b, d),
        Am::PcIdx(b, e) => M::Pciwi8(b, BriefExtensionWord(e)),
        Am::Imm(v) => M::Immediate(v),
        Am::None => panic!("no addressing mode"),
    }
}

/// Displacement of a branch.
pub fn branch_disp(i: &Ins) -> i16 {
    if i.f.pre == Pre::Word { i.imm as u16 as i16 } else { i.f.q as i8 as i16 }
}

/// The decoded operands of an instruction, as the crate documents them.
pub fn operands(i: &Ins) -> O {
    use Mn::*;
    let f = &i.f;
    let am = || mode(i.am);
    let sz = || size(f.sz);
    let lr = if f.dir { Dir::Left } else { Dir::Right };
    let rm = if f.dir { Dir::MemoryToMemory } else { Dir::RegisterToRegister };
    match f.mn {
        Unknown | Illegal | Nop | Reset | Rte | Rtr | Rts | Trapv => O::NoOperands,
        Andiccr | Andisr | Eoriccr | Eorisr | Oriccr | Orisr | Stop => O::Immediate(i.imm as u16),
        Addi | Andi | Cmpi | Eori | Ori | Subi => O::SizeEffectiveAddressImmediate(sz(), am(), i.imm),
        Bchg | Bclr | Bset | Btst => O::EffectiveAddressCount(am(), if f.dir { f.x } else { i.imm as u8 }),
        Jmp | Jsr | Moveccr | Movefsr | Movesr | Nbcd | Pea | Tas => O::EffectiveAddress(am()),
        Clr | Neg | Negx | Not | Tst => O::SizeEffectiveAddress(sz(), am()),
        Chk | Divs | Divu | Lea | Muls | Mulu => O::RegisterEffectiveAddress(f.x, am()),
        Movep => O::RegisterDirectionSizeRegisterDisplacement(f.x, if f.dir { Dir::RegisterToMemory } else { Dir::MemoryToRegister }, sz(), f.y, i.imm as u16 as i16),
        Movea => O::SizeRegisterEffectiveAddress(sz(), f.x, am()),
        Move => O::SizeEffectiveAddressEffectiveAddress(sz(), mode(i.am2), am()),
        Exg => O::RegisterOpmodeRegister(f.x, [Dir::ExchangeData, Dir::ExchangeAddress, Dir::ExchangeDataAddress][f.q as usize], f.y),
        Ext => O::OpmodeRegister(if f.sz == 2 { 2 } else { 3 }, f.y),
        Trap => O::Vector(f.q),
        Link => O::RegisterDisplacement(f.y, i.imm as u16 as i16),
        Swap | Unlk => O::Register(f.y),
        Moveusp => O::DirectionRegister(if f.dir { Dir::UspToRegister } else { Dir::RegisterToUsp }, f.y),
        Movem => O::DirectionSizeEffectiveAddressList(if f.dir { Dir::MemoryToRegister } else { Dir::RegisterToMemory }, sz(), am(), i.imm as u16),
        Addq | Subq => O::DataSizeEffectiveAddress(f.q & 7, sz(), am()),
        Scc => O::ConditionEffectiveAddress(f.x, am()),
        Dbcc => O::ConditionRegisterDisplacement(f.x, f.y, i.imm as u16 as i16),
        Bra | Bsr => O::Displacement(branch_disp(i)),
        Bcc => O::ConditionDisplacement(f.x, branch_disp(i)),
        Moveq => O::RegisterData(f.x, f.q as i8),
        Add | And | Cmp | Eor | Or | Sub => O::RegisterDirectionSizeEffectiveAddress(f.x, if f.dir { Dir::DstEa } else { Dir::DstReg }, sz(), am()),
        Adda | Cmpa | Suba => O::RegisterSizeEffectiveAddress(f.x, sz(), am()),
        Abcd | Addx | Sbcd | Subx => O::RegisterSizeModeRegister(f.x, sz(), rm, f.y),
        Cmpm => O::RegisterSizeRegister(f.x, sz(), f.y),
        Asm | Lsm | Rom | Roxm => O::DirectionEffectiveAddress(lr, am()),
        Asr | Lsr | Ror | Roxr => O::RotationDirectionSizeModeRegister(if !f.ir && f.x == 0 { 0 } else { f.x }, lr, sz(), f.ir, f.y),
    }
}

/// Brings operands that mean the same to one form: unused halves of byte immediates, quick data and counts of zero
/// for eight, directions that CMP and EOR do not have.
pub fn norm(o: O, mn: Mn, imm_bits: u32) -> O {
    let m = |a: M| match a { M::Immediate(v) => M::Immediate(v & imm_bits), a => a };
    match o {
        O::SizeEffectiveAddressImmediate(s, a, i) => O::SizeEffectiveAddressImmediate(s, m(a), i & imm_bits),
        O::Immediate(i) => O::Immediate(i & imm_bits as u16),
        O::EffectiveAddressCount(a, n) => O::EffectiveAddressCount(m(a), n),
        O::EffectiveAddress(a) => O::EffectiveAddress(m(a)),
        O::SizeEffectiveAddress(s, a) => O::SizeEffectiveAddress(s, m(a)),
        O::RegisterEffectiveAddress(r, a) => O::RegisterEffectiveAddress(r, m(a)),
        O::SizeRegisterEffectiveAddress(s, r, a) => O::SizeRegisterEffectiveAddress(s, r, m(a)),
        O::SizeEffectiveAddressEffectiveAddress(s, d, a) => O::SizeEffectiveAddressEffectiveAddress(s, m(d), m(a)),
        O::DataSizeEffectiveAddress(d, s, a) => O::DataSizeEffectiveAddress(if d == 0 { 8 } else { d }, s, m(a)),
        O::ConditionEffectiveAddress(c, a) => O::ConditionEffectiveAddress(c, m(a)),
        O::RegisterDirectionSizeEffectiveAddress(r, d, s, a) => O::RegisterDirectionSizeEffectiveAddress(r, if matches!(mn, Mn::Cmp | Mn::Eor) { Dir::DstReg } else { d }, s, m(a)),
        O::RegisterSizeEffectiveAddress(r, s, a) => O::RegisterSizeEffectiveAddress(r, s, m(a)),
        O::RotationDirectionSizeModeRegister(n, d, s, ir, r) => O::RotationDirectionSizeModeRegister(if !ir && n == 0 { 8 } else { n }, d, s, ir, r),
        o => o,
    }
}

/// Bits of an immediate the instruction uses. Displacements, lists and control words are complete.
pub fn imm_bits(i: &Ins) -> u32 {
    match i.f.sz { 1 => 0xFF, 2 => 0xFFFF, _ => u32::MAX }
}

const CC: [&str; 16] = ["T", "F", "HI", "LS", "CC", "CS", "NE", "EQ", "VC", "VS", "PL", "MI", "GE", "LT", "GT", "LE"];

fn ea(a: Am) -> String {
    let idx = |e: u16| format!("{}{}.{}", if e & 0x8000 != 0 { 'A' } else { 'D' }, e >> 12 & 7, if e & 0x800 != 0 { 'L' } else { 'W' });
    match a {
        Am::D(r) => format!("D{r}"),
        Am::A(r) => format!("A{r}"),
        Am::Ind(r) => format!("(A{r})"),
        Am::Post(r) => format!("(A{r})+"),
        Am::Pre(r) => format!("-(A{r})"),
        Am::Disp(r, d) => format!("({d}, A{r})"),
        Am::Idx(r, e) => format!("({}, A{r}, {})", e as u8 as i8, idx(e)),
        Am::AbsW(a) => format!("({a}).W"),
        Am::AbsL(a) => format!("({a}).L"),
        Am::PcDisp(_, d) => format!("({d}, PC)"),
        Am::PcIdx(_, e) => format!("({}, PC, {})", e as u8 as i8, idx(e)),
        Am::Imm(v) => format!("#{v}"),
        Am::None => "?".into(),
    }
}

/// The text of an instruction, numbers in decimal.
pub fn text(i: &Ins) -> String {
    use Mn::*;
    let f = &i.f;
    let s = ["", "B", "W", "", "L"][f.sz as usize];
    let name = format!("{:?}", f.mn).to_uppercase();
    let a = ea(i.am);
    let (x, y) = (f.x, f.y);
    let target = i.pc.wrapping_add(2).wrapping_add(branch_disp(i) as u32);
    let d16 = i.imm as u16 as i16;
    let lr = if f.dir { "L" } else { "R" };
    match f.mn {
        Unknown => format!("Unknown instruction {:04X} at {:#X}", i.op, i.pc),
        Illegal | Nop | Reset | Rte | Rtr | Rts | Trapv => name,
        Andiccr => format!("ANDI {}, CCR", i.imm),
        Eoriccr => format!("EORI {}, CCR", i.imm),
        Oriccr => format!("ORI {}, CCR", i.imm),
        Andisr => format!("ANDI {}, SR", i.imm),
        Eorisr => format!("EORI {}, SR", i.imm),
        Orisr => format!("ORI {}, SR", i.imm),
        Stop => format!("STOP #{}", i.imm),
        Addi | Andi | Cmpi | Eori | Ori | Subi => format!("{name}.{s} #{}, {a}", i.imm),
        Bchg | Bclr | Bset | Btst => if f.dir { format!("{name} D{x}, {a}") } else { format!("{name} #{}, {a}", i.imm as u8) },
        Jmp | Jsr | Nbcd | Pea | Tas => format!("{name} {a}"),
        Moveccr => format!("MOVE {a}, CCR"),
        Movesr => format!("MOVE {a}, SR"),
        Movefsr => format!("MOVE SR, {a}"),
        Clr | Neg | Negx | Not | Tst => format!("{name}.{s} {a}"),
        Chk | Divs | Divu | Muls | Mulu => format!("{name}.W {a}, D{x}"),
        Lea => format!("LEA {a}, A{x}"),
        Movep => if f.dir { format!("MOVEP.{s} D{x}, ({d16}, A{y})") } else { format!("MOVEP.{s} ({d16}, A{y}), D{x}") },
        Movea => format!("MOVEA.{s} {a}, A{x}"),
        Move => format!("MOVE.{s} {a}, {}", ea(i.am2)),
        Exg => match f.q { 0 => format!("EXG D{x}, D{y}"), 1 => format!("EXG A{x}, A{y}"), _ => format!("EXG D{x}, A{y}") },
        Ext => format!("EXT.{s} D{y}"),
        Trap => format!("TRAP #{}", f.q),
        Link => format!("LINK.W A{y}, #{d16}"),
        Swap => format!("SWAP D{y}"),
        Unlk => format!("UNLK A{y}"),
        Moveusp => if f.dir { format!("MOVE USP, A{y}") } else { format!("MOVE A{y}, USP") },
        Movem => if f.dir { format!("MOVEM.{s} {a}, {}", i.imm) } else { format!("MOVEM.{s} {}, {a}", i.imm) },
        Addq | Subq => format!("{name}.{s} #{}, {a}", f.q),
        Scc => format!("S{} {a}", CC[x as usize]),
        Dbcc => format!("DB{} D{y}, {d16} <{}>", CC[x as usize], i.pc.wrapping_add(2).wrapping_add(d16 as u32)),
        Bra | Bsr => format!("{name} {} <{target}>", branch_disp(i)),
        Bcc => format!("B{} {} <{target}>", CC[x as usize], branch_disp(i)),
        Moveq => format!("MOVEQ.L #{}, D{x}", f.q as i8),
        Add | And | Or | Sub => if f.dir { format!("{name}.{s} D{x}, {a}") } else { format!("{name}.{s} {a}, D{x}") },
        Cmp => format!("CMP.{s} {a}, D{x}"),
        Eor => format!("EOR.{s} D{x}, {a}"),
        Adda | Cmpa | Suba => format!("{name}.{s} {a}, A{x}"),
        Abcd | Sbcd => if f.dir { format!("{name} -(A{y}), -(A{x})") } else { format!("{name} D{y}, D{x}") },
        Addx | Subx => if f.dir { format!("{name}.{s} -(A{y}), -(A{x})") } else { format!("{name}.{s} D{y}, D{x}") },
        Cmpm => format!("CMPM.{s} (A{y})+, (A{x})+"),
        Asm | Lsm | Rom | Roxm => format!("{}{lr} {a}", &name[..name.len() - 1]),
        Asr | Lsr | Ror | Roxr => {
            let n = &name[..name.len() - 1];
            if f.ir { format!("{n}{lr}.{s} D{x}, D{y}") } else { format!("{n}{lr}.{s} #{}, D{y}", if x == 0 { 8 } else { x }) }
        }
    }
}

/// Canonical form of a text: numbers in decimal whatever their notation, no spaces.
pub fn canon(t: &str, out: &mut String) {
    out.clear();
    let b = t.as_bytes();
    let mut k = 0;
    if t.starts_with("Unknown") { out.push_str(t); return; }
    while k < b.len() {
        let c = b[k];
        let word = out.as_bytes().last().is_some_and(|p| p.is_ascii_alphanumeric());
        let (hex, skip) = if b[k..].starts_with(b"0x") || b[k..].starts_with(b"0X") { (true, 2) } else if c == b'$' { (true, 1) } else { (false, 0) };
        if hex && !word {
            let mut v: u64 = 0;
            k += skip;
            while k < b.len() && b[k].is_ascii_hexdigit() { v = v.wrapping_mul(16) + (b[k] as char).to_digit(16).unwrap() as u64; k += 1; }
            out.push_str(&v.to_string());
            continue;
        }
        k += 1;
        match c {
            // A space only separates the mnemonic from the operands.
            b' ' => if !out.contains(' ') { out.push(' ') },
            c => out.push(c as char),
        }
    }
}
