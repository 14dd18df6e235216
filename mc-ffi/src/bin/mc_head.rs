//! C25: the shipped C headers and the static library: every data structure read and written by name in C, and a C program
//! compiled by every compiler, linked with the library of the documented build, compared with the Rust side case by case.

use mc::engine::{self, guard, Ctx, H, W};
use m68000::addressing_modes::{AddressingMode, BriefExtensionWord};
use m68000::cpu_details::{CpuDetails, Mc68000, Scc68070};
use m68000::exception::{Exception, Vector};
use m68000::instruction::{Direction, Instruction, Operands, Size};
use m68000::memory_access::MemoryAccess;
use m68000::status_register::StatusRegister;
use m68000::{Registers, M68000};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

// ---------------------------------------------------------------------------------------------------------------
// The lists of the C side (head.c), in the same order.

const DIRECTIONS: &[Direction] = &[Direction::RegisterToMemory, Direction::MemoryToRegister, Direction::DstReg, Direction::DstEa, Direction::Left, Direction::Right, Direction::RegisterToUsp, Direction::UspToRegister, Direction::RegisterToRegister, Direction::MemoryToMemory, Direction::ExchangeData, Direction::ExchangeAddress, Direction::ExchangeDataAddress];
const SIZES: &[Size] = &[Size::Byte, Size::Word, Size::Long];
const VECTORS: &[(Vector, &str)] = &[(Vector::ResetSspPc, "ResetSspPc"), (Vector::AccessError, "AccessError"), (Vector::AddressError, "AddressError"), (Vector::IllegalInstruction, "IllegalInstruction"), (Vector::ZeroDivide, "ZeroDivide"), (Vector::ChkInstruction, "ChkInstruction"), (Vector::TrapVInstruction, "TrapVInstruction"), (Vector::PrivilegeViolation, "PrivilegeViolation"), (Vector::Trace, "Trace"), (Vector::LineAEmulator, "LineAEmulator"), (Vector::LineFEmulator, "LineFEmulator"), (Vector::FormatError, "FormatError"), (Vector::UninitializedInterrupt, "UninitializedInterrupt"), (Vector::SpuriousInterrupt, "SpuriousInterrupt"), (Vector::Level1Interrupt, "Level1Interrupt"), (Vector::Level2Interrupt, "Level2Interrupt"), (Vector::Level3Interrupt, "Level3Interrupt"), (Vector::Level4Interrupt, "Level4Interrupt"), (Vector::Level5Interrupt, "Level5Interrupt"), (Vector::Level6Interrupt, "Level6Interrupt"), (Vector::Level7Interrupt, "Level7Interrupt"), (Vector::Trap0Instruction, "Trap0Instruction"), (Vector::Trap1Instruction, "Trap1Instruction"), (Vector::Trap2Instruction, "Trap2Instruction"), (Vector::Trap3Instruction, "Trap3Instruction"), (Vector::Trap4Instruction, "Trap4Instruction"), (Vector::Trap5Instruction, "Trap5Instruction"), (Vector::Trap6Instruction, "Trap6Instruction"), (Vector::Trap7Instruction, "Trap7Instruction"), (Vector::Trap8Instruction, "Trap8Instruction"), (Vector::Trap9Instruction, "Trap9Instruction"), (Vector::Trap10Instruction, "Trap10Instruction"), (Vector::Trap11Instruction, "Trap11Instruction"), (Vector::Trap12Instruction, "Trap12Instruction"), (Vector::Trap13Instruction, "Trap13Instruction"), (Vector::Trap14Instruction, "Trap14Instruction"), (Vector::Trap15Instruction, "Trap15Instruction"), (Vector::Level1OnChipInterrupt, "Level1OnChipInterrupt"), (Vector::Level2OnChipInterrupt, "Level2OnChipInterrupt"), (Vector::Level3OnChipInterrupt, "Level3OnChipInterrupt"), (Vector::Level4OnChipInterrupt, "Level4OnChipInterrupt"), (Vector::Level5OnChipInterrupt, "Level5OnChipInterrupt"), (Vector::Level6OnChipInterrupt, "Level6OnChipInterrupt"), (Vector::Level7OnChipInterrupt, "Level7OnChipInterrupt"), (Vector::UserInterrupt, "UserInterrupt")];
/// Name, position in `HEAD_LAYOUT` order: sizes, alignments and field offsets on the Rust side.
fn layout() -> Vec<(&'static str, usize)> {
    let mut v = Vec::new();
    v.push(("size of m68000_direction_t", std::mem::size_of::<Direction>()));
    v.push(("alignment of m68000_direction_t", std::mem::align_of::<Direction>()));
    v.push(("size of m68000_size_t", std::mem::size_of::<Size>()));
    v.push(("alignment of m68000_size_t", std::mem::align_of::<Size>()));
    v.push(("size of m68000_brief_extension_word_t", std::mem::size_of::<BriefExtensionWord>()));
    v.push(("alignment of m68000_brief_extension_word_t", std::mem::align_of::<BriefExtensionWord>()));
    v.push(("place of m68000_brief_extension_word_t._0", std::mem::offset_of!(BriefExtensionWord, 0)));
    v.push(("size of m68000_addressing_mode_t", std::mem::size_of::<AddressingMode>()));
    v.push(("alignment of m68000_addressing_mode_t", std::mem::align_of::<AddressingMode>()));
    v.push(("size of m68000_operands_t", std::mem::size_of::<Operands>()));
    v.push(("alignment of m68000_operands_t", std::mem::align_of::<Operands>()));
    v.push(("size of m68000_instruction_t", std::mem::size_of::<Instruction>()));
    v.push(("alignment of m68000_instruction_t", std::mem::align_of::<Instruction>()));
    v.push(("place of m68000_instruction_t.opcode", std::mem::offset_of!(Instruction, opcode)));
    v.push(("place of m68000_instruction_t.pc", std::mem::offset_of!(Instruction, pc)));
    v.push(("place of m68000_instruction_t.operands", std::mem::offset_of!(Instruction, operands)));
    v.push(("size of m68000_status_register_t", std::mem::size_of::<StatusRegister>()));
    v.push(("alignment of m68000_status_register_t", std::mem::align_of::<StatusRegister>()));
    v.push(("place of m68000_status_register_t.t", std::mem::offset_of!(StatusRegister, t)));
    v.push(("place of m68000_status_register_t.s", std::mem::offset_of!(StatusRegister, s)));
    v.push(("place of m68000_status_register_t.interrupt_mask", std::mem::offset_of!(StatusRegister, interrupt_mask)));
    v.push(("place of m68000_status_register_t.x", std::mem::offset_of!(StatusRegister, x)));
    v.push(("place of m68000_status_register_t.n", std::mem::offset_of!(StatusRegister, n)));
    v.push(("place of m68000_status_register_t.z", std::mem::offset_of!(StatusRegister, z)));
    v.push(("place of m68000_status_register_t.v", std::mem::offset_of!(StatusRegister, v)));
    v.push(("place of m68000_status_register_t.c", std::mem::offset_of!(StatusRegister, c)));
    v.push(("size of m68000_registers_t", std::mem::size_of::<Registers>()));
    v.push(("alignment of m68000_registers_t", std::mem::align_of::<Registers>()));
    v.push(("place of m68000_registers_t.d", std::mem::offset_of!(Registers, d)));
    v.push(("place of m68000_registers_t.a", std::mem::offset_of!(Registers, a)));
    v.push(("place of m68000_registers_t.usp", std::mem::offset_of!(Registers, usp)));
    v.push(("place of m68000_registers_t.ssp", std::mem::offset_of!(Registers, ssp)));
    v.push(("place of m68000_registers_t.sr", std::mem::offset_of!(Registers, sr)));
    v.push(("place of m68000_registers_t.pc", std::mem::offset_of!(Registers, pc)));
    v.push(("size of m68000_memory_result_t", std::mem::size_of::<m68000_ffi::m68000_memory_result_t>()));
    v.push(("alignment of m68000_memory_result_t", std::mem::align_of::<m68000_ffi::m68000_memory_result_t>()));
    v.push(("place of m68000_memory_result_t.data", std::mem::offset_of!(m68000_ffi::m68000_memory_result_t, data)));
    v.push(("place of m68000_memory_result_t.exception", std::mem::offset_of!(m68000_ffi::m68000_memory_result_t, exception)));
    v.push(("size of m68000_exception_result_t", std::mem::size_of::<m68000_ffi::m68000_exception_result_t>()));
    v.push(("alignment of m68000_exception_result_t", std::mem::align_of::<m68000_ffi::m68000_exception_result_t>()));
    v.push(("place of m68000_exception_result_t.cycles", std::mem::offset_of!(m68000_ffi::m68000_exception_result_t, cycles)));
    v.push(("place of m68000_exception_result_t.exception", std::mem::offset_of!(m68000_ffi::m68000_exception_result_t, exception)));
    v.push(("size of m68000_disassembler_result_t", std::mem::size_of::<m68000_ffi::m68000_disassembler_result_t>()));
    v.push(("alignment of m68000_disassembler_result_t", std::mem::align_of::<m68000_ffi::m68000_disassembler_result_t>()));
    v.push(("place of m68000_disassembler_result_t.cycles", std::mem::offset_of!(m68000_ffi::m68000_disassembler_result_t, cycles)));
    v.push(("place of m68000_disassembler_result_t.pc", std::mem::offset_of!(m68000_ffi::m68000_disassembler_result_t, pc)));
    v.push(("size of m68000_disassembler_exception_result_t", std::mem::size_of::<m68000_ffi::m68000_disassembler_exception_result_t>()));
    v.push(("alignment of m68000_disassembler_exception_result_t", std::mem::align_of::<m68000_ffi::m68000_disassembler_exception_result_t>()));
    v.push(("place of m68000_disassembler_exception_result_t.cycles", std::mem::offset_of!(m68000_ffi::m68000_disassembler_exception_result_t, cycles)));
    v.push(("place of m68000_disassembler_exception_result_t.pc", std::mem::offset_of!(m68000_ffi::m68000_disassembler_exception_result_t, pc)));
    v.push(("place of m68000_disassembler_exception_result_t.exception", std::mem::offset_of!(m68000_ffi::m68000_disassembler_exception_result_t, exception)));
    v.push(("size of m68000_callbacks_t", std::mem::size_of::<m68000_ffi::m68000_callbacks_t>()));
    v.push(("alignment of m68000_callbacks_t", std::mem::align_of::<m68000_ffi::m68000_callbacks_t>()));
    v.push(("place of m68000_callbacks_t.get_byte", std::mem::offset_of!(m68000_ffi::m68000_callbacks_t, get_byte)));
    v.push(("place of m68000_callbacks_t.get_word", std::mem::offset_of!(m68000_ffi::m68000_callbacks_t, get_word)));
    v.push(("place of m68000_callbacks_t.get_long", std::mem::offset_of!(m68000_ffi::m68000_callbacks_t, get_long)));
    v.push(("place of m68000_callbacks_t.set_byte", std::mem::offset_of!(m68000_ffi::m68000_callbacks_t, set_byte)));
    v.push(("place of m68000_callbacks_t.set_word", std::mem::offset_of!(m68000_ffi::m68000_callbacks_t, set_word)));
    v.push(("place of m68000_callbacks_t.set_long", std::mem::offset_of!(m68000_ffi::m68000_callbacks_t, set_long)));
    v.push(("place of m68000_callbacks_t.reset_instruction", std::mem::offset_of!(m68000_ffi::m68000_callbacks_t, reset_instruction)));
    v.push(("place of m68000_callbacks_t.user_data", std::mem::offset_of!(m68000_ffi::m68000_callbacks_t, user_data)));
    v
}

fn mode_out(m: AddressingMode, f: &mut Vec<i64>) {
    match m {
        AddressingMode::Drd(a) => f.extend([0, a as i64]),
        AddressingMode::Ard(a) => f.extend([1, a as i64]),
        AddressingMode::Ari(a) => f.extend([2, a as i64]),
        AddressingMode::Ariwpo(a) => f.extend([3, a as i64]),
        AddressingMode::Ariwpr(a) => f.extend([4, a as i64]),
        AddressingMode::Ariwd(a, b) => f.extend([5, a as i64, b as i64]),
        AddressingMode::Ariwi8(a, b) => f.extend([6, a as i64, b.0 as i64]),
        AddressingMode::AbsShort(a) => f.extend([7, a as i64]),
        AddressingMode::AbsLong(a) => f.extend([8, a as i64]),
        AddressingMode::Pciwd(a, b) => f.extend([9, a as i64, b as i64]),
        AddressingMode::Pciwi8(a, b) => f.extend([10, a as i64, b.0 as i64]),
        AddressingMode::Immediate(a) => f.extend([11, a as i64]),
        #[allow(unreachable_patterns)]
        _ => f.push(-2),
    }
}

/// The fields of the operands, in order.
fn operands_out(o: Operands, f: &mut Vec<i64>) {
    match o {
        Operands::NoOperands => { f.push(0); }
        Operands::Immediate(a) => { f.push(1); f.push(a as i64); }
        Operands::SizeEffectiveAddressImmediate(a, b, c) => { f.push(2); f.push(size_no(a)); mode_out(b, f); f.push(c as i64); }
        Operands::EffectiveAddressCount(a, b) => { f.push(3); mode_out(a, f); f.push(b as i64); }
        Operands::EffectiveAddress(a) => { f.push(4); mode_out(a, f); }
        Operands::SizeEffectiveAddress(a, b) => { f.push(5); f.push(size_no(a)); mode_out(b, f); }
        Operands::RegisterEffectiveAddress(a, b) => { f.push(6); f.push(a as i64); mode_out(b, f); }
        Operands::RegisterDirectionSizeRegisterDisplacement(a, b, c, d, e) => { f.push(7); f.push(a as i64); f.push(direction_no(b)); f.push(size_no(c)); f.push(d as i64); f.push(e as i64); }
        Operands::SizeRegisterEffectiveAddress(a, b, c) => { f.push(8); f.push(size_no(a)); f.push(b as i64); mode_out(c, f); }
        Operands::SizeEffectiveAddressEffectiveAddress(a, b, c) => { f.push(9); f.push(size_no(a)); mode_out(b, f); mode_out(c, f); }
        Operands::RegisterOpmodeRegister(a, b, c) => { f.push(10); f.push(a as i64); f.push(direction_no(b)); f.push(c as i64); }
        Operands::OpmodeRegister(a, b) => { f.push(11); f.push(a as i64); f.push(b as i64); }
        Operands::Vector(a) => { f.push(12); f.push(a as i64); }
        Operands::RegisterDisplacement(a, b) => { f.push(13); f.push(a as i64); f.push(b as i64); }
        Operands::Register(a) => { f.push(14); f.push(a as i64); }
        Operands::DirectionRegister(a, b) => { f.push(15); f.push(direction_no(a)); f.push(b as i64); }
        Operands::DirectionSizeEffectiveAddressList(a, b, c, d) => { f.push(16); f.push(direction_no(a)); f.push(size_no(b)); mode_out(c, f); f.push(d as i64); }
        Operands::DataSizeEffectiveAddress(a, b, c) => { f.push(17); f.push(a as i64); f.push(size_no(b)); mode_out(c, f); }
        Operands::ConditionEffectiveAddress(a, b) => { f.push(18); f.push(a as i64); mode_out(b, f); }
        Operands::ConditionRegisterDisplacement(a, b, c) => { f.push(19); f.push(a as i64); f.push(b as i64); f.push(c as i64); }
        Operands::Displacement(a) => { f.push(20); f.push(a as i64); }
        Operands::ConditionDisplacement(a, b) => { f.push(21); f.push(a as i64); f.push(b as i64); }
        Operands::RegisterData(a, b) => { f.push(22); f.push(a as i64); f.push(b as i64); }
        Operands::RegisterDirectionSizeEffectiveAddress(a, b, c, d) => { f.push(23); f.push(a as i64); f.push(direction_no(b)); f.push(size_no(c)); mode_out(d, f); }
        Operands::RegisterSizeEffectiveAddress(a, b, c) => { f.push(24); f.push(a as i64); f.push(size_no(b)); mode_out(c, f); }
        Operands::RegisterSizeModeRegister(a, b, c, d) => { f.push(25); f.push(a as i64); f.push(size_no(b)); f.push(direction_no(c)); f.push(d as i64); }
        Operands::RegisterSizeRegister(a, b, c) => { f.push(26); f.push(a as i64); f.push(size_no(b)); f.push(c as i64); }
        Operands::DirectionEffectiveAddress(a, b) => { f.push(27); f.push(direction_no(a)); mode_out(b, f); }
        Operands::RotationDirectionSizeModeRegister(a, b, c, d, e) => { f.push(28); f.push(a as i64); f.push(direction_no(b)); f.push(size_no(c)); f.push(d as i64); f.push(e as i64); }
        #[allow(unreachable_patterns)]
        _ => f.push(-2),
    }
}

/// The addressing mode that the next digits choose.
fn mode_by(d: &mut Digits) -> AddressingMode {
    match d.of(12) {
        0 => AddressingMode::Drd(d.pick(&R8)),
        1 => AddressingMode::Ard(d.pick(&R8)),
        2 => AddressingMode::Ari(d.pick(&R8)),
        3 => AddressingMode::Ariwpo(d.pick(&R8)),
        4 => AddressingMode::Ariwpr(d.pick(&R8)),
        5 => AddressingMode::Ariwd(d.pick(&R8), d.pick(&I16)),
        6 => AddressingMode::Ariwi8(d.pick(&R8), BriefExtensionWord(d.pick(&R16))),
        7 => AddressingMode::AbsShort(d.pick(&R16)),
        8 => AddressingMode::AbsLong(d.pick(&R32)),
        9 => AddressingMode::Pciwd(d.pick(&R32), d.pick(&I16)),
        10 => AddressingMode::Pciwi8(d.pick(&R32), BriefExtensionWord(d.pick(&R16))),
        _ => AddressingMode::Immediate(d.pick(&R32)),
    }
}

const LAYOUT_LEN: usize = 61;
const KINDS: usize = 29;
/// The operands of a kind that the next digits choose.
fn operands_by(kind: usize, d: &mut Digits) -> Operands {
    match kind {
        0 => Operands::NoOperands,
        1 => Operands::Immediate(d.pick(&R16)),
        2 => Operands::SizeEffectiveAddressImmediate(SIZES[d.of(3)], mode_by(d), d.pick(&R32)),
        3 => Operands::EffectiveAddressCount(mode_by(d), d.pick(&R8)),
        4 => Operands::EffectiveAddress(mode_by(d)),
        5 => Operands::SizeEffectiveAddress(SIZES[d.of(3)], mode_by(d)),
        6 => Operands::RegisterEffectiveAddress(d.pick(&R8), mode_by(d)),
        7 => Operands::RegisterDirectionSizeRegisterDisplacement(d.pick(&R8), DIRECTIONS[d.of(13)], SIZES[d.of(3)], d.pick(&R8), d.pick(&I16)),
        8 => Operands::SizeRegisterEffectiveAddress(SIZES[d.of(3)], d.pick(&R8), mode_by(d)),
        9 => Operands::SizeEffectiveAddressEffectiveAddress(SIZES[d.of(3)], mode_by(d), mode_by(d)),
        10 => Operands::RegisterOpmodeRegister(d.pick(&R8), DIRECTIONS[d.of(13)], d.pick(&R8)),
        11 => Operands::OpmodeRegister(d.pick(&R8), d.pick(&R8)),
        12 => Operands::Vector(d.pick(&R8)),
        13 => Operands::RegisterDisplacement(d.pick(&R8), d.pick(&I16)),
        14 => Operands::Register(d.pick(&R8)),
        15 => Operands::DirectionRegister(DIRECTIONS[d.of(13)], d.pick(&R8)),
        16 => Operands::DirectionSizeEffectiveAddressList(DIRECTIONS[d.of(13)], SIZES[d.of(3)], mode_by(d), d.pick(&R16)),
        17 => Operands::DataSizeEffectiveAddress(d.pick(&R8), SIZES[d.of(3)], mode_by(d)),
        18 => Operands::ConditionEffectiveAddress(d.pick(&R8), mode_by(d)),
        19 => Operands::ConditionRegisterDisplacement(d.pick(&R8), d.pick(&R8), d.pick(&I16)),
        20 => Operands::Displacement(d.pick(&I16)),
        21 => Operands::ConditionDisplacement(d.pick(&R8), d.pick(&I16)),
        22 => Operands::RegisterData(d.pick(&R8), d.pick(&I8)),
        23 => Operands::RegisterDirectionSizeEffectiveAddress(d.pick(&R8), DIRECTIONS[d.of(13)], SIZES[d.of(3)], mode_by(d)),
        24 => Operands::RegisterSizeEffectiveAddress(d.pick(&R8), SIZES[d.of(3)], mode_by(d)),
        25 => Operands::RegisterSizeModeRegister(d.pick(&R8), SIZES[d.of(3)], DIRECTIONS[d.of(13)], d.pick(&R8)),
        26 => Operands::RegisterSizeRegister(d.pick(&R8), SIZES[d.of(3)], d.pick(&R8)),
        27 => Operands::DirectionEffectiveAddress(DIRECTIONS[d.of(13)], mode_by(d)),
        _ => Operands::RotationDirectionSizeModeRegister(d.pick(&R8), DIRECTIONS[d.of(13)], SIZES[d.of(3)], d.of(2) == 1, d.pick(&R8)),
    }
}

fn direction_no(d: Direction) -> i64 { DIRECTIONS.iter().position(|x| *x == d).map_or(-2, |i| i as i64) }
fn size_no(s: Size) -> i64 { SIZES.iter().position(|x| *x == s).map_or(-2, |i| i as i64) }

/// The fields of an instruction, in order.
fn fields(i: &Instruction) -> Vec<i64> {
    let mut f = vec![i.opcode as i64, i.pc as i64];
    operands_out(i.operands, &mut f);
    f
}

/// The digits of a number in a mixed base: enumerates all the choices of a generator.
struct Digits { n: u64, left: u64 }
impl Digits {
    fn new(n: u64) -> Digits { Digits { n, left: n } }
    fn of(&mut self, base: usize) -> usize { let d = self.left % base as u64; self.left /= base as u64; d as usize }
    fn pick<T: Copy>(&mut self, list: &[T]) -> T { list[self.of(list.len())] }
    /// Whether the number is larger than what the generator consumed.
    fn over(&self) -> bool { self.n != 0 && self.left != 0 }
}
const R8: [u8; 5] = [0, 1, 7, 0x80, 0xFF];
const R16: [u16; 6] = [0, 1, 0x1234, 0x7FFF, 0x8000, 0xFFFF];
const R32: [u32; 6] = [0, 1, 0x1234_5678, 0x7FFF_FFFF, 0x8000_0000, 0xFFFF_FFFF];
const I16: [i16; 6] = [0, 1, -1, 0x1234, i16::MAX, i16::MIN];
const I8: [i8; 5] = [0, 1, -1, i8::MAX, i8::MIN];

#[cfg(not(head_broken))]
mod c {
    use super::*;
    extern "C" {
        pub fn head_read(i: *const Instruction, f: *mut i64) -> *mut i64;
        pub fn head_write(i: *mut Instruction, f: *const i64);
        pub fn head_sr_out(s: *const StatusRegister, f: *mut u8);
        pub fn head_sr_in(s: *mut StatusRegister, f: *const u8);
        pub fn head_brief_out(b: *const BriefExtensionWord) -> u16;
        pub static HEAD_CONSTANTS: [i64; 1 + 13 + 3 + 45];
        pub static HEAD_LAYOUT: [i64; LAYOUT_LEN];
    }
}

/// An instruction through C and back.
#[cfg(not(head_broken))]
fn through(w: &mut W, i: &Instruction) {
    w.transitions(2);
    w.trace();
    let want = fields(i);
    let mut h = H::new();
    for x in &want { h.add(*x as u64); }
    w.state(h.get());
    let mut f = [0x5A5A_5A5A_i64; 32];
    let end = unsafe { c::head_read(i, f.as_mut_ptr()) };
    let n = (end as usize - f.as_ptr() as usize) / 8;
    let kind = format!("{:?}", i.operands);
    let kind = kind.split('(').next().unwrap().to_string();
    if f[..n] != want[..] {
        w.fail(format!("C25:instruction:{kind}"), || format!("{i:?}: a C program reads the fields {:?}, the Rust side has {want:?}", &f[..n]));
        return;
    }
    // Written by C, read by Rust: only once the reading agrees, so that the tags are valid.
    let mut back = std::mem::MaybeUninit::<Instruction>::uninit();
    let back = unsafe { c::head_write(back.as_mut_ptr(), want.as_ptr()); back.assume_init() };
    if back != *i { w.fail(format!("C25:instruction-written:{kind}"), || format!("{i:?} written by a C program is {back:?} on the Rust side")); }
    h.add(1);
    w.outcome(h.get());
}

#[cfg(not(head_broken))]
fn structures(ctx: &Ctx) -> bool {
    let good = std::sync::atomic::AtomicBool::new(true);
    let bad = |w: &mut W, key: String, msg: String| { good.store(false, std::sync::atomic::Ordering::Relaxed); w.fail(key, || msg); };
    let lay = layout();
    ctx.space("layout", lay.len() as u64, |i, w| {
        w.transition();
        w.trace();
        w.state(i);
        let (name, want) = lay[i as usize];
        let got = unsafe { c::HEAD_LAYOUT[i as usize] };
        w.outcome(got as u64);
        if got != want as i64 { bad(w, format!("C25:{name}"), format!("the {name} is {got} in the header and {want} in the library")); }
    });
    let mut constants: Vec<(String, i64)> = vec![("m68000_status_register_t_DEFAULT".into(), u16::from(StatusRegister::default()) as i64)];
    constants.extend(DIRECTIONS.iter().map(|d| (format!("{d:?}"), *d as i64)));
    constants.extend(SIZES.iter().map(|d| (format!("{d:?}"), *d as i64)));
    constants.extend(VECTORS.iter().map(|(v, n)| (n.to_string(), *v as i64)));
    ctx.space("constants", constants.len() as u64, |i, w| {
        w.transition();
        w.trace();
        w.state(i);
        let (name, want) = &constants[i as usize];
        let got = unsafe { c::HEAD_CONSTANTS[i as usize] };
        w.outcome(got as u64);
        if got != *want { bad(w, format!("C25:constant:{name}"), format!("{name} is {got} in the header and {want} in the library")); }
    });
    // Nothing below can be trusted when places differ.
    if !good.load(std::sync::atomic::Ordering::Relaxed) { return false; }
    ctx.space("status registers", 65536, |i, w| {
        w.transitions(2);
        w.trace();
        w.state(i);
        let v = i as u16;
        let s = StatusRegister::from(v);
        let want = [s.t as u8, s.s as u8, s.interrupt_mask, s.x as u8, s.n as u8, s.z as u8, s.v as u8, s.c as u8];
        let mut got = [0xA5; 8];
        unsafe { c::head_sr_out(&s, got.as_mut_ptr()) };
        if got != want { w.fail("C25:status-register", || format!("status register {v:04X}: a C program reads {got:?} (T S mask X N Z V C), the Rust side has {want:?}")); }
        let mut back = StatusRegister::default();
        unsafe { c::head_sr_in(&mut back, want.as_ptr()) };
        let r = u16::from(back);
        if r != v & 0xA71F { w.fail("C25:status-register-written", || format!("status register {v:04X} written field by field by a C program is {r:04X} on the Rust side")); }
        let b = BriefExtensionWord(v);
        let g = unsafe { c::head_brief_out(&b) };
        if g != v { w.fail("C25:brief-extension-word", || format!("brief extension word {v:04X} is {g:04X} in C")); }
        w.outcome(r as u64);
    });
    let exts = ctx.by(6u64, 60);
    ctx.space("decoded instructions", 65536, move |op, w| {
        for e in 0..exts {
            let x = |k: u64| if e < 6 { R16[e as usize] } else { let mut h = H::new(); h.add(op * 64 + e); h.add(k); (h.get() >> 16) as u16 };
            let words = [op as u16, x(1), x(2), x(3), x(4), x(5), x(6)];
            let pc = if e & 1 == 0 { 0 } else { 0x00FF_FFF0 };
            let mut at = words.as_slice();
            let r = guard(|| Instruction::from_memory(&mut at.iter_u16(0)));
            match r {
                Ok(Ok(mut i)) => { i.pc = pc; through(w, &i) }
                e => w.fail("C25:decode", || format!("opcode {op:04X} is not decoded: {e:?}")),
            }
        }
    });
    ctx.space("built instructions", KINDS as u64 * 64, |i, w| {
        let (kind, part) = (i as usize % KINDS, i / KINDS as u64);
        // The largest kind has two modes: 3 * (12 * 36) * (12 * 36) choices.
        for n in (part..560_000).step_by(64) {
            let mut d = Digits::new(n);
            let operands = operands_by(kind, &mut d);
            if d.over() { continue; }
            let opcode = R16[n as usize % 6];
            through(w, &Instruction { opcode, pc: R32[(n / 7) as usize % 6], operands });
        }
    });
    true
}

#[cfg(head_broken)]
fn structures(ctx: &Ctx) -> bool {
    ctx.space("header", 1, |_, w| w.fail("C25:header", || "a C program that reads and writes every field of the structures does not compile against include/m68000".into()));
    false
}

// ---------------------------------------------------------------------------------------------------------------
// Programs.

/// A scratch directory of its own, removed at the end.
struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Scratch {
        let p = std::env::temp_dir().join(format!("mc_head.{}", std::process::id()));
        let _ = std::fs::remove_dir_all(&p);
        std::fs::create_dir_all(&p).unwrap_or_else(|e| engine::die(&format!("no scratch directory: {e}")));
        Scratch(p)
    }
}
impl Drop for Scratch { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }

fn here() -> PathBuf { PathBuf::from(env!("CARGO_MANIFEST_DIR")) }
fn include() -> PathBuf { here().join("../../repo/include") }

const LANGUAGES: &[(&str, &str, &[&str])] = &[
    ("gcc", "c", &["c99", "gnu99", "c11", "gnu11", "c17", "gnu17"]),
    ("clang", "c", &["c99", "gnu99", "c11", "gnu11", "c17", "gnu17"]),
    ("g++", "c++", &["c++11", "gnu++11", "c++14", "c++17", "gnu++17", "c++20"]),
    ("clang++", "c++", &["c++11", "gnu++11", "c++14", "c++17", "gnu++17", "c++20"]),
];

fn first_error(log: &[u8]) -> String {
    let s = String::from_utf8_lossy(log);
    s.lines().find(|l| l.contains("error") || l.contains("undefined")).or(s.lines().next()).unwrap_or("").to_string()
}

/// Every header alone, together in both orders and twice, found both ways, with every compiler and language standard.
fn inclusion(ctx: &Ctx) {
    const SETS: [&[&str]; 6] = [&["m68000.h"], &["m68000-ffi.h"], &["m68000.h", "m68000-ffi.h"], &["m68000-ffi.h", "m68000.h"], &["m68000-ffi.h", "m68000-ffi.h"], &["m68000.h", "m68000.h"]];
    let inc = include();
    ctx.space("inclusion", (SETS.len() * 2 * 24) as u64, |i, w| {
        let mut d = Digits::new(i);
        let (set, style, (cc, lang, stds), std) = (SETS[d.of(6)], d.of(2), LANGUAGES[d.of(4)], d.of(6));
        let std = stds[std];
        w.transition();
        w.trace();
        w.state(i);
        let dir = if style == 0 { inc.clone() } else { inc.join("m68000") };
        let mut src: String = set.iter().map(|h| if style == 0 { format!("#include \"m68000/{h}\"\n") } else { format!("#include \"{h}\"\n") }).collect();
        src += "m68000_instruction_t i; m68000_registers_t r; m68000_vector_t v;\n";
        if set.contains(&"m68000-ffi.h") { src += "m68000_callbacks_t c; m68000_exception_result_t e; m68000_mc68000_t *m; m68000_scc68070_t *s;\n"; }
        let mut p = Command::new(cc).args(["-fsyntax-only", "-x", lang, &format!("-std={std}"), "-I"]).arg(&dir).arg("-")
            .stdin(Stdio::piped()).stdout(Stdio::null()).stderr(Stdio::piped()).spawn().unwrap_or_else(|e| engine::die(&format!("{cc} cannot be run: {e}")));
        std::io::Write::write_all(&mut p.stdin.take().unwrap(), src.as_bytes()).ok();
        let o = p.wait_with_output().unwrap_or_else(|e| engine::die(&format!("{cc}: {e}")));
        w.outcome(o.status.code().unwrap_or(-1) as u64);
        if !o.status.success() {
            w.fail(format!("C25:inclusion:{}", set.join("+")), || format!("a program that includes {} and nothing before does not compile ({cc} -std={std}): {}", set.join(" then "), first_error(&o.stderr)));
        }
    });
}

/// The computed memory of abi.c.
#[derive(Default)]
struct Mem { key: u32, calls: u32, resets: u32, refuse: bool, w: Vec<(u32, u8)>, log: u64 }

fn mix(h: u64, v: u64) -> u64 {
    let h = h ^ v.wrapping_add(0x9E3779B97F4A7C15).wrapping_add(h << 6).wrapping_add(h >> 2);
    let h = h.wrapping_mul(0xBF58476D1CE4E5B9);
    h ^ (h >> 29)
}

impl Mem {
    fn bad(&mut self, a: u32) -> bool {
        let bad = self.refuse && !(0x1000..0x1010).contains(&a);
        if bad { self.log = mix(self.log, a as u64); }
        bad
    }
    fn content(&self, a: u32) -> u8 {
        if let Some(x) = self.w.iter().rev().find(|x| x.0 == a) { return x.1; }
        let filler = if a & 1 == 1 { 0xFC } else { 0x4A };
        if self.calls > 120 { return filler; }
        if a & !1 == 0x1000 { return if a & 1 == 1 { self.key as u8 } else { (self.key >> 8) as u8 }; }
        if a > 0x1001 && a < 0x100A { return (mix(self.key as u64, a as u64) >> 20) as u8; }
        filler
    }
    fn get(&mut self, a: u32, n: u32) -> u32 {
        self.calls += 1;
        self.log = mix(mix(self.log, n as u64), a as u64);
        (0..n).fold(0, |v, i| v << 8 | self.content(a.wrapping_add(i)) as u32)
    }
    fn put(&mut self, a: u32, n: u32, v: u32) {
        self.calls += 1;
        self.log = mix(mix(mix(self.log, n as u64 + 16), a as u64), v as u64);
        for i in 0..n { if self.w.len() < 64 { self.w.push((a.wrapping_add(i), (v >> (8 * (n - 1 - i))) as u8)); } }
    }
}
impl MemoryAccess for Mem {
    fn get_byte(&mut self, a: u32) -> Option<u8> { if self.bad(a) { return None; } Some(self.get(a, 1) as u8) }
    fn get_word(&mut self, a: u32) -> Option<u16> { if self.bad(a) { return None; } Some(self.get(a, 2) as u16) }
    fn get_long(&mut self, a: u32) -> Option<u32> { if self.bad(a) { return None; } Some(self.get(a, 4)) }
    fn set_byte(&mut self, a: u32, v: u8) -> Option<()> { if self.bad(a) { return None; } self.put(a, 1, v as u32); Some(()) }
    fn set_word(&mut self, a: u32, v: u16) -> Option<()> { if self.bad(a) { return None; } self.put(a, 2, v as u32); Some(()) }
    fn set_long(&mut self, a: u32, v: u32) -> Option<()> { if self.bad(a) { return None; } self.put(a, 4, v); Some(()) }
    fn reset_instruction(&mut self) { self.resets += 1; }
}

fn regs(mut h: u64, r: &Registers) -> u64 {
    for x in r.d { h = mix(h, x.0 as u64); }
    for x in r.a { h = mix(h, x.0 as u64); }
    for x in [r.usp.0, r.ssp.0, r.pc.0] { h = mix(h, x as u64); }
    for x in [r.sr.t as u8, r.sr.s as u8, r.sr.interrupt_mask, r.sr.x as u8, r.sr.n as u8, r.sr.z as u8, r.sr.v as u8, r.sr.c as u8] { h = mix(h, x as u64); }
    h
}
fn start(r: &mut Registers, op: u32, k: u32) {
    for i in 0..8 { r.d[i].0 = (mix((op + k) as u64, i as u64) >> 11) as u32; }
    for i in 0..7 { r.a[i].0 = (mix((op + k) as u64, 100 + i as u64) >> 13) as u32 & 0xFFFF_FFFE; }
    r.usp.0 = 0xA000;
    r.ssp.0 = 0x9000;
    r.pc.0 = 0x1000;
    r.sr.t = false;
    r.sr.s = (op ^ k) % 5 != 0;
    r.sr.interrupt_mask = (op % 8) as u8;
    (r.sr.x, r.sr.n, r.sr.z, r.sr.v, r.sr.c) = (op & 1 != 0, op & 2 != 0, op & 4 != 0, op & 8 != 0, op & 16 != 0);
}

const CALLS: [&str; 13] = ["interpreter", "interpreter_exception", "disassembler_interpreter", "disassembler_interpreter_exception", "cycle", "cycle_until_exception", "loop_until_exception_stop",
    "get_next_word", "get_next_long", "peek_next_word", "exception then interpreter", "interpreter of a new core", "interpreter_exception with refused data"];

fn case<C: CpuDetails + Default>(op: u32, what: u32) -> u64 {
    let mut m = Mem { key: op, refuse: what == 12, ..Mem::default() };
    let mut h = what as u64;
    let mut c: M68000<C> = if what == 11 { M68000::new() } else { M68000::new_no_reset() };
    start(&mut c.regs, op, what);
    let e = |e: Option<u8>| e.unwrap_or(0) as u64;
    let text = |s: &str| s.bytes().take(63).collect::<Vec<u8>>();
    let mut string = Vec::new();
    match what {
        0 | 11 => h = mix(h, c.interpreter(&mut m) as u64),
        1 | 12 => { let r = c.interpreter_exception(&mut m); h = mix(mix(h, r.0 as u64), e(r.1)); }
        2 => { let r = c.disassembler_interpreter(&mut m); h = mix(mix(h, r.2 as u64), r.0 as u64); string = text(&r.1); }
        3 => { let r = c.disassembler_interpreter_exception(&mut m); h = mix(mix(mix(h, r.2 as u64), r.0 as u64), e(r.3)); string = text(&r.1); }
        4 => h = mix(h, c.cycle(&mut m, 1) as u64),
        5 => { let r = c.cycle_until_exception(&mut m, 1); h = mix(mix(h, r.0 as u64), e(r.1)); }
        6 => { let r = c.loop_until_exception_stop(&mut m); h = mix(mix(h, r.0 as u64), e(r.1)); }
        7 => { let r = c.get_next_word(&mut m); h = mix(mix(h, r.unwrap_or(0) as u64), e(r.err())); }
        8 => { let r = c.get_next_long(&mut m); h = mix(mix(h, r.unwrap_or(0) as u64), e(r.err())); }
        9 => { let r = c.peek_next_word(&mut m); h = mix(mix(h, r.unwrap_or(0) as u64), e(r.err())); }
        _ => { c.exception(Exception::from(VECTORS[(op as usize % VECTORS.len() + 1) % VECTORS.len()].0)); h = mix(h, c.interpreter(&mut m) as u64); }
    }
    for b in string { h = mix(h, b as u64); }
    h = mix(mix(mix(mix(h, m.calls as u64), m.w.len() as u64), m.resets as u64), m.log);
    regs(regs(h, &c.regs), &c.regs)
}

fn library() -> PathBuf { Path::new(&std::env::var("VERIF_FFI_LIB").unwrap_or_else(|_| engine::die("VERIF_FFI_LIB is not set"))).join("libm68000_ffi.a") }

/// The program in C, compiled and linked like an application, on all the opcodes.
fn programs(ctx: &Ctx) {
    let dir = Scratch::new();
    let levels = ctx.by(&["-O0", "-O2"][..], &["-O0", "-O1", "-O2", "-O3", "-Os"][..]);
    let stds = ctx.by(1, 6);
    let mut configs = Vec::new();
    for (cc, lang, all) in LANGUAGES { for std in &all[..stds] { for o in levels { configs.push((*cc, *lang, *std, *o)); } } }
    let bins: Vec<_> = configs.iter().map(|_| std::sync::atomic::AtomicBool::new(false)).collect();
    ctx.space("link", configs.len() as u64, |i, w| {
        let (cc, lang, std, o) = configs[i as usize];
        w.transition();
        w.trace();
        w.state(i);
        let r = Command::new(cc).args(["-w", o, &format!("-std={std}"), "-DHEADER=\"m68000-ffi.h\"", "-I"]).arg(include().join("m68000")).args(["-x", lang]).arg(here().join("abi.c"))
            .args(["-x", "none"]).arg(library()).args(["-lpthread", "-ldl", "-lm", "-o"]).arg(dir.0.join(format!("p{i}"))).output().unwrap_or_else(|e| engine::die(&format!("{cc} cannot be run: {e}")));
        w.outcome(r.status.code().unwrap_or(-1) as u64);
        if r.status.success() { bins[i as usize].store(true, std::sync::atomic::Ordering::Relaxed); }
        else { w.fail("C25:link", || format!("a program that uses every function does not compile and link ({cc} -std={std} {o}): {}", first_error(&r.stderr))); }
    });
    let made: Vec<usize> = (0..configs.len()).filter(|i| bins[*i].load(std::sync::atomic::Ordering::Relaxed)).collect();
    const PARTS: u32 = 64;
    ctx.space("programs", PARTS as u64, |part, w| {
        let n = 65536 / PARTS;
        let (from, to) = (part as u32 * n, (part as u32 + 1) * n);
        let mut want = Vec::with_capacity(n as usize * 26);
        for op in from..to {
            for what in 0..13 {
                for model in 0..2 {
                    let v = guard(|| if model == 0 { case::<Mc68000>(op, what) } else { case::<Scc68070>(op, what) }).unwrap_or(0);
                    w.state(mix(v, what as u64));
                    want.push(v);
                }
            }
        }
        for i in &made {
            let (cc, _, std, o) = configs[*i];
            let file = dir.0.join(format!("o{part}.{i}"));
            let r = Command::new("timeout").arg("120").arg(dir.0.join(format!("p{i}"))).arg(&file).args([from.to_string(), to.to_string()]).stdin(Stdio::null()).output().unwrap_or_else(|e| engine::die(&format!("the program cannot be run: {e}")));
            let data = std::fs::read(&file).unwrap_or_default();
            let _ = std::fs::remove_file(&file);
            if !r.status.success() { w.fail("C25:program:dies", || format!("the program compiled with {cc} -std={std} {o} ends with {} on the opcodes {from:04X} to {:04X}", r.status, to - 1)); continue; }
            let got: Vec<u64> = data.chunks_exact(8).map(|b| u64::from_ne_bytes(b.try_into().unwrap())).collect();
            w.transitions(got.len() as u64);
            w.trace();
            if got.len() != want.len() { w.fail("C25:program:length", || format!("the program compiled with {cc} -std={std} {o} writes {} results instead of {}", got.len(), want.len())); continue; }
            for (k, (g, t)) in got.iter().zip(&want).enumerate() {
                w.outcome(*g);
                if g != t {
                    let (op, what, model) = (from + k as u32 / 26, (k / 2) % 13, ["mc68000", "scc68070"][k % 2]);
                    w.fail(format!("C25:program:{}", CALLS[what]), || format!("{cc} -std={std} {o}: m68000_{model} {} on opcode {op:04X}: results, registers, text or memory accesses differ from the Rust side", CALLS[what]));
                }
            }
        }
    });
}

fn c25(ctx: &Ctx) {
    ctx.assume("the compilers of the sandbox (gcc and clang on x86-64 Linux, C99 and later, C++11 and later) stand for the users' compilers");
    inclusion(ctx);
    structures(ctx);
    programs(ctx);
}

fn main() { engine::main(&[("C25", c25)]); }
