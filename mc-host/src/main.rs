//! The program that C28 runs on other hosts, under Miri: what it prints must be the same on all of them.
//!
//! mc-host steps <opcode,opcode,...>: one digest per opcode of what one step of it did in every situation, through the Rust
//! interface and through the C interface, and of what the conversions of the public interface make of it as a word.
//! mc-host calls all|some|quiet <depth> <part> <parts>: histories of calls of the C interface.

use m68000::exception::{Exception, Vector};
use m68000::instruction::Instruction;
use m68000::{cpu_details, CpuDetails, M68000, MemoryAccess, Registers};
use m68000_ffi::*;
use std::ffi::c_void;
use std::num::Wrapping;
use paste::paste;
use std::os::raw::c_char;

mod calls;

#[derive(Clone, Copy)]
struct H(u64);
impl H {
    fn new() -> H { H(0x1234_5678_9ABC_DEF1) }
    fn add(&mut self, v: u64) {
        let x = (self.0 ^ v).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        self.0 = x ^ (x >> 29);
    }
    fn bytes(&mut self, s: &[u8]) { for b in s { self.add(*b as u64); } self.add(s.len() as u64 + 256); }
    fn regs(&mut self, r: &Registers) {
        for x in r.d { self.add(x.0 as u64); }
        for x in r.a { self.add(x.0 as u64); }
        self.add(r.usp.0 as u64);
        self.add(r.ssp.0 as u64);
        self.add(u16::from(r.sr) as u64);
        self.add(r.pc.0 as u64);
    }
}

/// A memory that holds a fixed function of the address below what was written; it refuses data above 0xFF_0000.
#[derive(Default)]
pub struct Mem { over: Vec<(u32, u8)>, code: usize, resets: u64 }

impl Mem {
    fn code(words: &[u16]) -> Mem {
        let mut m = Mem::default();
        for (i, w) in words.iter().enumerate() {
            m.over.push((CODE + 2 * i as u32, (w >> 8) as u8));
            m.over.push((CODE + 2 * i as u32 + 1, *w as u8));
        }
        m.code = m.over.len();
        m
    }
    fn get(&self, a: u32) -> u8 {
        let a = a & 0xFF_FFFF;
        if let Some((_, v)) = self.over.iter().rev().find(|(x, _)| *x == a) { return *v; }
        match a {
            // The vector table.
            0..=0x3FF => if a & 3 == 2 { 0x60 | (a >> 8) as u8 } else if a & 3 == 3 { a as u8 & 0xFE } else { 0 },
            // Code everywhere: NOP; NOP; STOP #$2700.
            0x4000..=0x7FFF => [0x4E, 0x71, 0x4E, 0x71, 0x4E, 0x72, 0x27, 0x00][a as usize & 7],
            _ => (a.wrapping_mul(0x9E37_79B1) >> 24) as u8,
        }
    }
    fn ok(a: u32) -> bool { a & 0xFF_FFFF < 0xFF_0000 }
    fn hash(&self, h: &mut H) {
        for (a, v) in &self.over[self.code..] { h.add((*a as u64) << 8 | *v as u64); }
        h.add(self.resets);
    }
}

impl MemoryAccess for Mem {
    fn get_byte(&mut self, a: u32) -> Option<u8> { Mem::ok(a).then(|| self.get(a)) }
    fn get_word(&mut self, a: u32) -> Option<u16> { Mem::ok(a).then(|| (self.get(a) as u16) << 8 | self.get(a.wrapping_add(1)) as u16) }
    fn set_byte(&mut self, a: u32, v: u8) -> Option<()> { Mem::ok(a).then(|| self.over.push((a & 0xFF_FFFF, v))) }
    fn set_word(&mut self, a: u32, v: u16) -> Option<()> {
        self.set_byte(a, (v >> 8) as u8)?;
        self.set_byte(a.wrapping_add(1), v as u8)
    }
    fn reset_instruction(&mut self) { self.resets += 1; }
}

/// The same memory for the C interface.
mod c {
    use super::*;
    fn res<T: Into<u32>>(v: Option<T>) -> m68000_memory_result_t {
        match v { Some(v) => m68000_memory_result_t { data: v.into(), exception: 0 }, None => m68000_memory_result_t { data: 0xAAAA_AAAA, exception: 2 } }
    }
    fn mem<'a>(p: *mut c_void) -> &'a mut Mem { unsafe { &mut *(p as *mut Mem) } }
    extern "C" fn gb(a: u32, p: *mut c_void) -> m68000_memory_result_t { res(mem(p).get_byte(a)) }
    extern "C" fn gw(a: u32, p: *mut c_void) -> m68000_memory_result_t { res(mem(p).get_word(a)) }
    extern "C" fn gl(a: u32, p: *mut c_void) -> m68000_memory_result_t { res(mem(p).get_long(a)) }
    extern "C" fn sb(a: u32, v: u8, p: *mut c_void) -> m68000_memory_result_t { res(mem(p).set_byte(a, v).map(|_| 0u32)) }
    extern "C" fn sw(a: u32, v: u16, p: *mut c_void) -> m68000_memory_result_t { res(mem(p).set_word(a, v).map(|_| 0u32)) }
    extern "C" fn sl(a: u32, v: u32, p: *mut c_void) -> m68000_memory_result_t { res(mem(p).set_long(a, v).map(|_| 0u32)) }
    extern "C" fn ri(p: *mut c_void) { mem(p).reset_instruction() }
    pub fn callbacks(m: *mut Mem) -> m68000_callbacks_t {
        m68000_callbacks_t { get_byte: gb, get_word: gw, get_long: gl, set_byte: sb, set_word: sw, set_long: sl, reset_instruction: ri, user_data: m as *mut c_void }
    }
}

pub const CODE: u32 = 0x4000;

/// The functions of the C interface for one CPU.
pub trait Cpu: CpuDetails + Default + 'static {
    const NEW: extern "C" fn() -> *mut M68000<Self>;
    const NEW_NO_RESET: extern "C" fn() -> *mut M68000<Self>;
    const DELETE: unsafe extern "C" fn(*mut M68000<Self>);
    const CYCLE: unsafe extern "C" fn(*mut M68000<Self>, *mut m68000_callbacks_t, usize) -> usize;
    const CYCLE_UNTIL: unsafe extern "C" fn(*mut M68000<Self>, *mut m68000_callbacks_t, usize) -> m68000_exception_result_t;
    const LOOP: unsafe extern "C" fn(*mut M68000<Self>, *mut m68000_callbacks_t) -> m68000_exception_result_t;
    const STEP: unsafe extern "C" fn(*mut M68000<Self>, *mut m68000_callbacks_t) -> usize;
    const STEP_EXC: unsafe extern "C" fn(*mut M68000<Self>, *mut m68000_callbacks_t) -> m68000_exception_result_t;
    const DIS: unsafe extern "C" fn(*mut M68000<Self>, *mut m68000_callbacks_t, *mut c_char, usize) -> m68000_disassembler_result_t;
    const DIS_EXC: unsafe extern "C" fn(*mut M68000<Self>, *mut m68000_callbacks_t, *mut c_char, usize) -> m68000_disassembler_exception_result_t;
    const EXCEPTION: unsafe extern "C" fn(*mut M68000<Self>, Vector);
    const WORD: unsafe extern "C" fn(*mut M68000<Self>, *mut m68000_callbacks_t) -> m68000_memory_result_t;
    const LONG: unsafe extern "C" fn(*mut M68000<Self>, *mut m68000_callbacks_t) -> m68000_memory_result_t;
    const PEEK: unsafe extern "C" fn(*const M68000<Self>, *mut m68000_callbacks_t) -> m68000_memory_result_t;
    const REGS: unsafe extern "C" fn(*const M68000<Self>) -> *const Registers;
    const REGS_MUT: unsafe extern "C" fn(*mut M68000<Self>) -> *mut Registers;
    const GET_REGS: unsafe extern "C" fn(*const M68000<Self>) -> Registers;
    const SET_REGS: unsafe extern "C" fn(*mut M68000<Self>, Registers);
}

macro_rules! cpu {
    ($t:ty, $m:ident) => { paste! { impl Cpu for $t {
        const NEW: extern "C" fn() -> *mut M68000<Self> = $m::[<m68000_ $m _new>];
        const NEW_NO_RESET: extern "C" fn() -> *mut M68000<Self> = $m::[<m68000_ $m _new_no_reset>];
        const DELETE: unsafe extern "C" fn(*mut M68000<Self>) = $m::[<m68000_ $m _delete>];
        const CYCLE: unsafe extern "C" fn(*mut M68000<Self>, *mut m68000_callbacks_t, usize) -> usize = $m::[<m68000_ $m _cycle>];
        const CYCLE_UNTIL: unsafe extern "C" fn(*mut M68000<Self>, *mut m68000_callbacks_t, usize) -> m68000_exception_result_t = $m::[<m68000_ $m _cycle_until_exception>];
        const LOOP: unsafe extern "C" fn(*mut M68000<Self>, *mut m68000_callbacks_t) -> m68000_exception_result_t = $m::[<m68000_ $m _loop_until_exception_stop>];
        const STEP: unsafe extern "C" fn(*mut M68000<Self>, *mut m68000_callbacks_t) -> usize = $m::[<m68000_ $m _interpreter>];
        const STEP_EXC: unsafe extern "C" fn(*mut M68000<Self>, *mut m68000_callbacks_t) -> m68000_exception_result_t = $m::[<m68000_ $m _interpreter_exception>];
        const DIS: unsafe extern "C" fn(*mut M68000<Self>, *mut m68000_callbacks_t, *mut c_char, usize) -> m68000_disassembler_result_t = $m::[<m68000_ $m _disassembler_interpreter>];
        const DIS_EXC: unsafe extern "C" fn(*mut M68000<Self>, *mut m68000_callbacks_t, *mut c_char, usize) -> m68000_disassembler_exception_result_t = $m::[<m68000_ $m _disassembler_interpreter_exception>];
        const EXCEPTION: unsafe extern "C" fn(*mut M68000<Self>, Vector) = $m::[<m68000_ $m _exception>];
        const WORD: unsafe extern "C" fn(*mut M68000<Self>, *mut m68000_callbacks_t) -> m68000_memory_result_t = $m::[<m68000_ $m _get_next_word>];
        const LONG: unsafe extern "C" fn(*mut M68000<Self>, *mut m68000_callbacks_t) -> m68000_memory_result_t = $m::[<m68000_ $m _get_next_long>];
        const PEEK: unsafe extern "C" fn(*const M68000<Self>, *mut m68000_callbacks_t) -> m68000_memory_result_t = $m::[<m68000_ $m _peek_next_word>];
        const REGS: unsafe extern "C" fn(*const M68000<Self>) -> *const Registers = $m::[<m68000_ $m _registers>];
        const REGS_MUT: unsafe extern "C" fn(*mut M68000<Self>) -> *mut Registers = $m::[<m68000_ $m _registers_mut>];
        const GET_REGS: unsafe extern "C" fn(*const M68000<Self>) -> Registers = $m::[<m68000_ $m _get_registers>];
        const SET_REGS: unsafe extern "C" fn(*mut M68000<Self>, Registers) = $m::[<m68000_ $m _set_registers>];
    } } };
}
cpu!(cpu_details::Mc68000, mc68000);
cpu!(cpu_details::Scc68070, scc68070);

/// The registers of situation k.
fn registers(k: usize) -> Registers {
    let mut r = Registers::default();
    for i in 0..8 {
        r.d[i] = Wrapping(match k & 3 {
            0 => [0x8000_0001, 5, 0x7FFF_FFFF, 0, 0xFFFF_FFFF, 0x0001_8000, 0x1234_5678, 0x99][i],
            1 => 3 + i as u32,
            2 => 0xFFFF_FF80u32.wrapping_add(i as u32),
            _ => 0x0F0F_7F81u32.wrapping_mul(2 * i as u32 + 1),
        });
    }
    for i in 0..7 {
        r.a[i] = Wrapping(match k & 3 {
            0 | 3 => 0x8000 + 0x100 * i as u32,
            1 => 0x8001 + 0x102 * i as u32,
            _ => 0x00FF_0000 - 4 + 2 * i as u32,
        });
    }
    r.usp = Wrapping(0xA000);
    r.ssp = Wrapping(0x9000);
    r.pc = Wrapping(CODE);
    r.sr = [0x2700u16, 0x001F, 0x2715, 0x000A][k & 3].into();
    r
}

fn words(op: u16, k: usize) -> [u16; 5] {
    match k & 3 {
        0 => [op, 0x8004, 0x0012, 0x1002, 0x0006],
        1 => [op, 0x0003, 0x7FFE, 0x0008, 0x8000],
        2 => [op, 0xFFFE, 0x9810, 0xFFFF, 0x0100],
        _ => [op, 0x2710, 0x00FE, 0x0002, 0x4321],
    }
}

fn step<C: Cpu>(op: u16, k: usize, h: &mut H) {
    let code = words(op, k);
    {
        let mut m = Mem::code(&code);
        let mut c = M68000::<C>::new_no_reset();
        c.regs = registers(k);
        let (pc, text, n, v) = c.disassembler_interpreter_exception(&mut m);
        h.add(pc as u64);
        h.bytes(text.as_bytes());
        h.add((n as u64) << 9 | v.map_or(0, |v| 256 | v as u64));
        h.regs(&c.regs);
        h.add(c.stop as u64);
        if let Some(v) = v {
            c.exception(Exception::from(v));
            // The processing of an access error may meet another one: documented to panic.
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| c.interpreter(&mut m)));
            h.add(r.map_or(u64::MAX, |n| n as u64));
            h.regs(&c.regs);
        }
        m.hash(h);
    }
    let mut m = Mem::code(&code);
    let mut cb = c::callbacks(&mut m);
    unsafe {
        let c = C::NEW_NO_RESET();
        C::SET_REGS(c, registers(k));
        let r = C::STEP_EXC(c, &mut cb);
        h.add((r.cycles as u64) << 9 | r.exception as u64);
        h.regs(&*C::REGS(c));
        C::DELETE(c);
    }
    m.hash(h);
}

fn steps(ops: &str) {
    for s in ops.split(',') {
        let op = u16::from_str_radix(s, 16).expect("opcode");
        println!("? {op:04X}");
        let mut h = H::new();
        for k in 0..4 {
            // Both CPUs in turn: the situations they meet alternate with the opcode.
            if (op.count_ones() as usize + k) & 1 == 0 { step::<cpu_details::Mc68000>(op, k, &mut h) } else { step::<cpu_details::Scc68070>(op, k, &mut h) }
        }
        h.add(value(op));
        println!("{op:04X} {:016X}", h.0);
    }
}

/// What the conversions of the public interface make of a word.
fn value(x: u16) -> u64 {
    use m68000::status_register::StatusRegister;
    let mut h = H::new();
    let sr = StatusRegister::from(x);
    h.add(u16::from(sr) as u64);
    h.bytes(format!("{sr:?}").as_bytes());
    let bytes = [(x >> 8) as u8, x as u8, (x ^ 0x5A) as u8, (x >> 3) as u8, 0x12, 0x34, 0x20, 0x08, 0x7F, 0xFE, 0x80, 0x01];
    // The memories that the crate brings, at their ends and at those of the address space.
    let words: Vec<u16> = bytes.chunks(2).map(|b| (b[0] as u16) << 8 | b[1] as u16).collect();
    let (mut slice, mut own, mut own_words): (&[u8], _, _) = (&bytes, bytes, words);
    let n = bytes.len() as u32;
    let addresses = [0, 1, n - 5, n - 4, n - 3, n - 2, n - 1, n, 0x7FFF_FFFE, 0x8000_0000, 0xFFFF_FFFC, 0xFFFF_FFFD, 0xFFFF_FFFE, 0xFFFF_FFFF];
    let k = x as u32 | (!x as u32) << 16;
    for a in addresses {
        let mut put = |v: Option<u32>| h.add(v.map_or(1 << 32, |v| v as u64));
        put(slice.get_byte(a).map(|v| v as u32));
        put(slice.get_word(a).map(|v| v as u32));
        put(slice.get_long(a));
        fn all<M: MemoryAccess + ?Sized>(m: &mut M, a: u32, k: u32, put: &mut dyn FnMut(Option<u32>)) {
            put(m.set_long(a, k).map(|_| 0));
            put(m.get_byte(a).map(|v| v as u32));
            put(m.get_word(a).map(|v| v as u32));
            put(m.get_long(a));
            put(m.set_word(a, k as u16).map(|_| 0));
            put(m.get_long(a & !3));
            put(m.set_byte(a, (k >> 16) as u8).map(|_| 0));
            put(m.get_long(a & !3));
        }
        all(&mut own[..], a, k, &mut put);
        if a & 1 == 0 { all(&mut own_words[..], a, k, &mut put); }
    }
    h.bytes(&own);
    for v in own_words { h.add(v as u64); }
    let mut r = registers(0);
    r.d_byte(x as u8 & 7, (x >> 8) as u8);
    r.d_word((x >> 3) as u8 & 7, x);
    h.regs(&r);
    if let Ok(i) = Instruction::from_memory(&mut slice.iter_u16(0)) { h.bytes(i.disassemble().as_bytes()); }
    h.0
}

fn main() {
    if std::env::var_os("MC_PANIC").is_none() { std::panic::set_hook(Box::new(|_| ())); }
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("steps") => steps(&a[2]),
        Some("none") => {}
        Some("calls") => calls::calls(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap(), a[5].parse().unwrap()),
        _ => { eprintln!("usage: mc-host steps|calls"); std::process::exit(2) }
    }
}
