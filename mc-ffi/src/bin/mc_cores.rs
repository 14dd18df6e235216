//! C26: cores are independent of each other, of the memory structures of other cores, of where they are and of the
//! thread that runs them.
//!
//! An actor is one core (of either processor model, driven through the Rust methods or through the functions of the C
//! interface) with its own memory and a short life: it is created, runs a few actions and is deleted. What every action
//! of an actor does is first recorded in a process of its own, in which no other core has ever existed; every
//! interleaving of actors must then reproduce those records.

use mc::bus::{Bus, handler};
use mc::decode::*;
use mc::drive::*;
use mc::engine::{self, guard, no_unwind, Ctx, H, W};
use mc::exec::St;
use m68000::exception::{Exception, Vector};
use m68000::{MemoryAccess, Registers, M68000};
use m68000_ffi::*;
use std::ffi::c_void;
use std::marker::PhantomData;
use std::os::raw::c_char;
use std::process::{Command, Stdio};
use std::sync::mpsc;

// ---------------------------------------------------------------------------------------------------------------
// The memory of an actor: at the chosen access, before it is answered, another actor runs an action.

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Where { Here, OtherThread }

struct Guest { at: u32, actor: *mut Actor, action: usize, place: Where, got: Option<u64> }

struct Mem { bus: Bus, n: u32, guest: Option<Guest>, resets: u32 }

struct Ship<T>(T);
unsafe impl<T> Send for Ship<T> {}
impl<T> Ship<T> { fn open(self) -> T { self.0 } }

impl Mem {
    fn tick(&mut self) {
        self.n += 1;
        if let Some(g) = &mut self.guest {
            if g.at == self.n && g.got.is_none() {
                let p = Ship((g.actor, g.action));
                let run = move || { let (a, i) = p.open(); unsafe { (*a).act(i) } };
                let got = match g.place {
                    Where::Here => run(),
                    Where::OtherThread => std::thread::scope(|s| s.spawn(run).join().unwrap_or(0)),
                };
                g.got = Some(got);
            }
        }
    }
}

impl MemoryAccess for Mem {
    fn get_byte(&mut self, a: u32) -> Option<u8> { self.tick(); self.bus.get_byte(a) }
    fn get_word(&mut self, a: u32) -> Option<u16> { self.tick(); self.bus.get_word(a) }
    fn set_byte(&mut self, a: u32, v: u8) -> Option<()> { self.tick(); self.bus.set_byte(a, v) }
    fn set_word(&mut self, a: u32, v: u16) -> Option<()> { self.tick(); self.bus.set_word(a, v) }
    fn reset_instruction(&mut self) { self.tick(); self.resets += 1; }
}

fn answer<T>(r: Option<T>, f: impl FnOnce(T) -> u32) -> m68000_memory_result_t {
    match r { Some(v) => m68000_memory_result_t { data: f(v), exception: 0 }, None => m68000_memory_result_t { data: 0, exception: 2 } }
}
fn mem<'a>(u: *mut c_void) -> &'a mut Mem { unsafe { &mut *(u as *mut Mem) } }
extern "C" fn gb(a: u32, u: *mut c_void) -> m68000_memory_result_t { answer(mem(u).get_byte(a), |v| v as u32) }
extern "C" fn gw(a: u32, u: *mut c_void) -> m68000_memory_result_t { answer(mem(u).get_word(a), |v| v as u32) }
extern "C" fn gl(a: u32, u: *mut c_void) -> m68000_memory_result_t { answer(mem(u).get_long(a), |v| v) }
extern "C" fn sb(a: u32, v: u8, u: *mut c_void) -> m68000_memory_result_t { answer(mem(u).set_byte(a, v), |_| 0) }
extern "C" fn sw(a: u32, v: u16, u: *mut c_void) -> m68000_memory_result_t { answer(mem(u).set_word(a, v), |_| 0) }
extern "C" fn sl(a: u32, v: u32, u: *mut c_void) -> m68000_memory_result_t { answer(mem(u).set_long(a, v), |_| 0) }
extern "C" fn ri(u: *mut c_void) { mem(u).reset_instruction() }
fn callbacks(m: &mut Mem) -> m68000_callbacks_t {
    m68000_callbacks_t { get_byte: gb, get_word: gw, get_long: gl, set_byte: sb, set_word: sw, set_long: sl, reset_instruction: ri, user_data: m as *mut Mem as *mut c_void }
}

// ---------------------------------------------------------------------------------------------------------------
// The cores.

#[derive(Default)]
struct Res { cycles: u64, vec: u8, pc: u32, text: String }

trait Core {
    fn view(&self) -> St;
    fn step(&mut self, m: &mut Mem, how: How) -> Res;
    fn until(&mut self, m: &mut Mem, n: usize) -> Res;
    fn exception(&mut self, v: u8);
    /// Same core, elsewhere in memory (a core of the C interface has its registers taken out and put back).
    fn relocate(&mut self);
    /// A new core in the storage of the old one.
    fn reload(&mut self, s: &St);
    /// Replaced by its copy.
    fn copy(&mut self);
    /// A copy is made, runs with a copy of the memory and is dropped.
    fn twin(&mut self, m: &Mem);
}

struct Rust<C: Model>(Box<M68000<C>>);
impl<C: Model> Core for Rust<C> {
    fn view(&self) -> St { view(&self.0) }
    fn step(&mut self, m: &mut Mem, how: How) -> Res {
        match how {
            How::Report => { let (n, v) = self.0.interpreter_exception(m); Res { cycles: n as u64, vec: v.unwrap_or(0), ..Res::default() } }
            How::Auto => Res { cycles: self.0.interpreter(m) as u64, ..Res::default() },
            How::DisReport => { let (pc, text, n, v) = self.0.disassembler_interpreter_exception(m); Res { cycles: n as u64, vec: v.unwrap_or(0), pc, text } }
            How::DisAuto => { let (pc, text, n) = self.0.disassembler_interpreter(m); Res { cycles: n as u64, vec: 0, pc, text } }
        }
    }
    fn until(&mut self, m: &mut Mem, n: usize) -> Res { let (n, v) = self.0.cycle_until_exception(m, n); Res { cycles: n as u64, vec: v.unwrap_or(0), ..Res::default() } }
    fn exception(&mut self, v: u8) { self.0.exception(Exception::from(v)) }
    fn relocate(&mut self) {
        let c = std::mem::replace(&mut *self.0, M68000::<C>::new());
        self.0 = Box::new(c);
    }
    fn reload(&mut self, s: &St) { *self.0 = load::<C>(s); }
    fn copy(&mut self) { self.0 = self.0.clone(); }
    fn twin(&mut self, m: &Mem) {
        let mut t = Rust(Box::new((*self.0).clone()));
        twin(&mut t, m);
    }
}

fn twin(t: &mut dyn Core, m: &Mem) {
    let mut m = Mem { bus: m.bus.clone(), n: 0, guest: None, resets: 0 };
    t.exception(33);
    t.step(&mut m, How::Auto);
    t.step(&mut m, How::DisReport);
    t.exception(28);
}

fn set(r: &mut Registers, s: &St) {
    for i in 0..8 { r.d[i].0 = s.d[i]; }
    for i in 0..7 { r.a[i].0 = s.a[i]; }
    r.usp.0 = s.usp;
    r.ssp.0 = s.ssp;
    r.pc.0 = s.pc;
    r.sr = m68000::status_register::StatusRegister::from(s.sr);
}

fn text(b: &[u8]) -> String { String::from_utf8_lossy(&b[..b.iter().position(|c| *c == 0).unwrap_or(b.len())]).into_owned() }

fn vector(v: u8) -> Vector {
    match v { 25 => Vector::Level1Interrupt, 26 => Vector::Level2Interrupt, 28 => Vector::Level4Interrupt, _ => Vector::Trap1Instruction }
}

macro_rules! c_core {
    ($name:ident, $cpu:ty, $new:path, $delete:path, $registers:path, $get:path, $set:path, $exc:path, $int:path, $intx:path, $dis:path, $disx:path, $until:path) => {
        struct $name(*mut M68000<$cpu>);
        impl Drop for $name { fn drop(&mut self) { if !self.0.is_null() { unsafe { $delete(self.0) } } } }
        impl $name {
            fn create(s: &St) -> $name {
                let c = $name($new());
                unsafe {
                    let mut r = $get(c.0);
                    set(&mut r, s);
                    $set(c.0, r);
                }
                c
            }
        }
        impl Core for $name {
            fn view(&self) -> St {
                let r = unsafe { *$registers(self.0) };
                let mut c = M68000::<$cpu>::new_no_reset();
                c.regs = r;
                view(&c)
            }
            fn step(&mut self, m: &mut Mem, how: How) -> Res {
                let mut cb = callbacks(m);
                let cb = &mut cb as *mut m68000_callbacks_t;
                let mut buf = [0u8; 128];
                let p = buf.as_mut_ptr() as *mut c_char;
                no_unwind(|| unsafe {
                    match how {
                        How::Report => { let r = $intx(self.0, cb); Res { cycles: r.cycles as u64, vec: r.exception, ..Res::default() } }
                        How::Auto => Res { cycles: $int(self.0, cb) as u64, ..Res::default() },
                        How::DisReport => { let r = $disx(self.0, cb, p, 128); Res { cycles: r.cycles as u64, vec: r.exception, pc: r.pc, text: text(&buf) } }
                        How::DisAuto => { let r = $dis(self.0, cb, p, 128); Res { cycles: r.cycles as u64, vec: 0, pc: r.pc, text: text(&buf) } }
                    }
                })
            }
            fn until(&mut self, m: &mut Mem, n: usize) -> Res {
                let mut cb = callbacks(m);
                let r = no_unwind(|| unsafe { $until(self.0, &mut cb, n) });
                Res { cycles: r.cycles as u64, vec: r.exception, ..Res::default() }
            }
            fn exception(&mut self, v: u8) { unsafe { $exc(self.0, vector(v)) } }
            fn relocate(&mut self) { unsafe { let r = $get(self.0); $set(self.0, r); } }
            fn reload(&mut self, s: &St) {
                unsafe { $delete(std::mem::replace(&mut self.0, std::ptr::null_mut())) }
                let mut c = $name::create(s);
                self.0 = std::mem::replace(&mut c.0, std::ptr::null_mut());
            }
            fn copy(&mut self) { self.relocate() }
            fn twin(&mut self, m: &Mem) {
                let mut t = $name::create(&self.view());
                twin(&mut t, m);
            }
        }
    };
}
c_core!(CMc, Mc, mc68000::m68000_mc68000_new_no_reset, mc68000::m68000_mc68000_delete, mc68000::m68000_mc68000_registers, mc68000::m68000_mc68000_get_registers,
    mc68000::m68000_mc68000_set_registers, mc68000::m68000_mc68000_exception, mc68000::m68000_mc68000_interpreter, mc68000::m68000_mc68000_interpreter_exception,
    mc68000::m68000_mc68000_disassembler_interpreter, mc68000::m68000_mc68000_disassembler_interpreter_exception, mc68000::m68000_mc68000_cycle_until_exception);
c_core!(CScc, Scc, scc68070::m68000_scc68070_new_no_reset, scc68070::m68000_scc68070_delete, scc68070::m68000_scc68070_registers, scc68070::m68000_scc68070_get_registers,
    scc68070::m68000_scc68070_set_registers, scc68070::m68000_scc68070_exception, scc68070::m68000_scc68070_interpreter, scc68070::m68000_scc68070_interpreter_exception,
    scc68070::m68000_scc68070_disassembler_interpreter, scc68070::m68000_scc68070_disassembler_interpreter_exception, scc68070::m68000_scc68070_cycle_until_exception);

const KINDS: [&str; 4] = ["Mc68000", "Scc68070", "C mc68000", "C scc68070"];

fn create(kind: usize, s: &St) -> Box<dyn Core> {
    match kind {
        0 => Box::new(Rust(Box::new(load::<Mc>(s)))),
        1 => Box::new(Rust(Box::new(load::<Scc>(s)))),
        2 => Box::new(CMc::create(s)),
        _ => Box::new(CScc::create(s)),
    }
}

// ---------------------------------------------------------------------------------------------------------------
// The programs: all of them at the same address, on the same stacks, with different contents.

#[derive(Clone, Copy, Debug)]
enum Op { Step(How), Until(usize), Exc(u8), Move, Copy, Twin }
use How::*;
use Op::*;

struct Prog { name: &'static str, sr: u16, regs: u32, code: &'static [u16], hole: (u32, u32), acts: [&'static [Op]; 3] }

const NOHOLE: (u32, u32) = (0, 0);
static PROGS: &[Prog] = &[
    Prog { name: "move-add-neg", sr: 0x2700, regs: 0, code: &[0x2018, 0xD1A1, 0x4440, 0x4E71], hole: NOHOLE, acts: [&[Step(Report)], &[Move, Step(DisReport)], &[Copy, Step(Auto)]] },
    Prog { name: "stop-interrupt", sr: 0x2000, regs: 0, code: &[0x4E72, 0x2200, 0x7005, 0x4E71], hole: NOHOLE, acts: [&[Step(Report)], &[Twin, Step(Auto)], &[Exc(28), Twin, Step(DisReport)]] },
    Prog { name: "trace", sr: 0xA000, regs: 0, code: &[0x4E71, 0x5240, 0x5341, 0x4E71], hole: NOHOLE, acts: [&[Step(DisAuto)], &[Step(Auto)], &[Step(Report)]] },
    Prog { name: "trap-chain", sr: 0x0000, regs: 0, code: &[0x4E43, 0x7007, 0x4E71, 0x4E71], hole: NOHOLE, acts: [&[Step(Auto)], &[Step(Report)], &[Exc(33), Step(DisReport)]] },
    Prog { name: "bus-error", sr: 0x2000, regs: 0, code: &[0x3010, 0x7007, 0x4E71, 0x4E71], hole: (0x0002_0000, 4), acts: [&[Step(Auto)], &[Twin, Step(DisAuto)], &[Step(Report)]] },
    Prog { name: "illegal-linea", sr: 0x0004, regs: 0, code: &[0x4AFC, 0xA123, 0xF456, 0x4E71], hole: NOHOLE, acts: [&[Step(Report)], &[Step(DisReport)], &[Step(Auto)]] },
    Prog { name: "reset-sr", sr: 0x2700, regs: 0, code: &[0x4E70, 0x40C0, 0x46FC, 0x0015], hole: NOHOLE, acts: [&[Step(DisReport)], &[Step(Auto)], &[Step(Report)]] },
    Prog { name: "movem", sr: 0x2000, regs: 0, code: &[0x48E7, 0xC0C0, 0x4CDF, 0x0303, 0x4E71], hole: NOHOLE, acts: [&[Step(Report)], &[Twin, Step(DisAuto)], &[Move, Step(Report)]] },
    Prog { name: "dbcc-loop", sr: 0x2000, regs: 0, code: &[0x5243, 0x51C8, 0xFFFC, 0x4E71], hole: NOHOLE, acts: [&[Until(30)], &[Step(DisAuto)], &[Until(40)]] },
    Prog { name: "division", sr: 0x2003, regs: 4, code: &[0x83C2, 0x84FC, 0x0000, 0xC7C4], hole: NOHOLE, acts: [&[Step(Report)], &[Step(Auto)], &[Step(DisReport)]] },
    Prog { name: "chk-trapv", sr: 0x0002, regs: 4, code: &[0x4E76, 0x4181, 0x4E76, 0x4E71], hole: NOHOLE, acts: [&[Step(Report)], &[Step(DisReport)], &[Step(Auto)]] },
    Prog { name: "masked", sr: 0x2300, regs: 0, code: &[0x7011, 0x46FC, 0x2000, 0x7012, 0x4E71], hole: NOHOLE, acts: [&[Exc(25), Exc(28), Step(Report)], &[Exc(26), Twin, Step(DisAuto)], &[Step(Report)]] },
    Prog { name: "privilege", sr: 0x0000, regs: 0, code: &[0x4E73, 0x4E70, 0x027C, 0x00FF], hole: NOHOLE, acts: [&[Step(Report)], &[Step(DisReport)], &[Copy, Step(Auto)]] },
    Prog { name: "bcd-bit-shift", sr: 0x2010, regs: 5, code: &[0xC101, 0xE3A8, 0x0142, 0xE2D8], hole: NOHOLE, acts: [&[Step(Report)], &[Step(DisReport)], &[Until(40)]] },
    Prog { name: "addresses", sr: 0x2000, regs: 0, code: &[0x4EB0, 0x2804, 0x2039, 0x0001, 0x0002], hole: NOHOLE, acts: [&[Step(DisReport)], &[Step(DisReport)], &[Move, Step(DisAuto)]] },
    Prog { name: "fetch-refused", sr: 0x2000, regs: 0, code: &[0x7001, 0x7002, 0x4E71, 0x4E71], hole: (PC + 4, 2), acts: [&[Step(Report)], &[Step(DisReport)], &[Step(Auto)]] },
];

/// Actions of an actor: create, three of its program, delete.
const LIFE: usize = 5;

struct Actor { kind: usize, prog: usize, traced: bool, core: Option<Box<dyn Core>>, mem: Box<Mem>, seen: String, still: bool }

/// Actors, and the same with the trace bit set.
fn actors() -> usize { 4 * PROGS.len() }

impl Actor {
    fn new(k: usize) -> Actor {
        let traced = k >= actors();
        let k = k % actors();
        let (kind, prog) = (k % 4, k / 4);
        let p = &PROGS[prog];
        let mut bus = Bus::new(7 + prog as u32);
        bus.set_code(PC, p.code);
        if p.hole.1 != 0 { bus.holes.push(p.hole); }
        for v in [4u8, 10, 11, 2, 3, 8, 9, 33, 35, 28, 25] { bus.put16(handler(v), 0x7000 | v as u16); bus.put16(handler(v) + 2, 0x4E73); }
        Actor { kind, prog, traced, core: None, mem: Box::new(Mem { bus, n: 0, guest: None, resets: 0 }), seen: String::new(), still: false }
    }
    fn initial(&self) -> St {
        let p = &PROGS[self.prog];
        let mut s = regfile(p.regs, 11);
        s.sr = p.sr | (self.traced as u16) << 15;
        if p.regs != 0 { s.ssp = 0x000B_0000; }
        s
    }
    /// Runs an action and returns the hash of everything it shows.
    fn act(&mut self, i: usize) -> u64 {
        let mut h = H::new();
        self.mem.n = 0;
        self.mem.resets = 0;
        self.mem.bus.rec = true;
        self.mem.bus.fuse = 5000;
        self.mem.bus.reset_log();
        self.seen.clear();
        if i == 0 {
            let s = self.initial();
            match &mut self.core {
                Some(c) => c.reload(&s),
                None => self.core = Some(create(self.kind, &s)),
            }
        } else if i == LIFE - 1 {
            self.core = None;
            return 1;
        } else {
            let core = self.core.as_mut().unwrap();
            let mem = &mut *self.mem;
            let r = guard(|| {
                let mut last = Res::default();
                for op in PROGS[self.prog].acts[i - 1] {
                    match *op {
                        Step(how) => last = core.step(mem, how),
                        Until(n) => last = core.until(mem, n),
                        Exc(v) => core.exception(v),
                        // The records are made without.
                        Move | Copy | Twin if self.still => {}
                        Move => core.relocate(),
                        Copy => core.copy(),
                        Twin => core.twin(mem),
                    }
                }
                last
            });
            match r {
                Ok(r) => {
                    h.add(r.cycles << 8 | r.vec as u64);
                    h.add(r.pc as u64);
                    for b in r.text.bytes() { h.add(b as u64); }
                    self.seen = format!("cycles={} vector={} '{}'@{:x} ", r.cycles, r.vec, r.text, r.pc);
                }
                Err(e) => { h.add(99); self.seen = format!("panic '{e}' "); }
            }
        }
        let st = self.core.as_ref().unwrap().view();
        hash_state(&st, &mut h);
        let b = &mut self.mem.bus;
        for a in &b.log { h.add((a.addr as u64) << 8 | (a.len as u64) << 1 | a.write as u64); }
        for w in &b.w { h.add((w.0 as u64) << 8 | w.1 as u64); }
        h.add(self.mem.resets as u64);
        self.seen.push_str(&show_state(&st));
        fold(&mut self.mem.bus);
        h.get()
    }
    fn name(&self) -> String { format!("{}/{}{}", KINDS[self.kind], PROGS[self.prog].name, if self.traced { " traced" } else { "" }) }
}

/// The records of an actor alone in this process, which is neither moved nor copied.
fn alone(k: usize) -> [u64; LIFE] {
    let mut a = Actor::new(k);
    a.still = true;
    std::array::from_fn(|i| a.act(i))
}

fn child(args: &[String]) -> Option<Vec<u8>> {
    let o = Command::new(std::env::current_exe().ok()?).args(args).stdin(Stdio::null()).stderr(Stdio::null()).output().ok()?;
    o.status.success().then_some(o.stdout)
}

fn records() -> Vec<Option<[u64; LIFE]>> {
    (0..2 * actors()).map(|k| {
        let o = child(&["alone".into(), k.to_string()])?;
        if o.len() != 8 * LIFE { return None; }
        Some(std::array::from_fn(|i| u64::from_le_bytes(o[8 * i..8 * i + 8].try_into().unwrap())))
    }).collect()
}

/// All orders of two lives of `n` actions: bit masks with `n` ones.
fn orders(n: u32) -> Vec<u32> { (0..1u32 << (2 * n)).filter(|m| m.count_ones() == n).collect() }

fn pair(i: u64) -> (usize, usize) {
    // Unordered pairs, a <= b.
    let mut b = 0u64;
    while (b + 1) * (b + 2) / 2 <= i { b += 1; }
    ((i - b * (b + 1) / 2) as usize, b as usize)
}

fn judge(w: &mut W, tag: &str, a: &Actor, i: usize, got: u64, rec: &[Option<[u64; LIFE]>], k: usize, also: &str) -> bool {
    w.transition();
    w.outcome(got);
    match rec[k] {
        Some(r) if r[i] == got => true,
        Some(_) => {
            w.fail(format!("{tag}:{}:{}", KINDS[k % 4], PROGS[k % actors() / 4].name), || format!("action {i} of {} differs from what it does alone, next to {also}: {}", a.name(), a.seen));
            false
        }
        None => { w.fail(format!("alone:{}:{}", KINDS[k % 4], PROGS[k % actors() / 4].name), || "the actor does not live through its actions alone in a process".into()); false }
    }
}

// ---------------------------------------------------------------------------------------------------------------
// One opcode run by several cores.

const VARIANTS: usize = 4;

/// Variant v of an opcode: bit 0 the processor model, bit 1 the registers and what follows the opcode.
fn opcode_case(op: u16, v: usize) -> (St, Bus) {
    let k = v >> 1;
    let mut s = regfile(if k == 0 { 0 } else { 6 }, 3);
    s.ssp = 0x000B_0000 + 0x100 * k as u32;
    s.usp = 0x000A_0000;
    s.sr = if k == 0 { 0x2000 } else { 0xA01F };
    let mut b = Bus::new(20 + k as u32);
    b.set_code(PC, &if k == 0 { [op, 0x0010, 0x1234, 0x0020, 0x0040] } else { [op, 0x2002, 0x0002, 0x4444, 0x0106] });
    (s, b)
}

fn opcode_run(op: u16, v: usize, kind: usize) -> u32 {
    let (s, bus) = opcode_case(op, v);
    let mut h = H::new();
    for how in [Report, DisReport] {
        let mut m = Mem { bus: bus.clone(), n: 0, guest: None, resets: 0 };
        m.bus.fuse = 3000;
        let mut c = create(kind, &s);
        match guard(|| c.step(&mut m, how)) {
            Ok(r) => {
                h.add(r.cycles << 8 | r.vec as u64);
                for b in r.text.bytes() { h.add(b as u64); }
            }
            Err(_) => h.add(77),
        }
        hash_state(&c.view(), &mut h);
        for w in &m.bus.w { h.add((w.0 as u64) << 8 | w.1 as u64); }
    }
    h.get() as u32
}

fn permutation(mut k: usize) -> [usize; VARIANTS] {
    let mut left: Vec<usize> = (0..VARIANTS).collect();
    let mut out = [0; VARIANTS];
    for (i, o) in out.iter_mut().enumerate() {
        let f: usize = (1..VARIANTS - i).product();
        *o = left.remove(k / f);
        k %= f;
    }
    out
}

/// Order `o`: a permutation of the variants (24), the direction of the opcodes (2), the interface (2).
fn opcode_orders() -> usize { 24 * 2 * 2 }
fn opcodes(o: usize) -> Vec<u32> {
    let p = permutation(o % 24);
    let mut out = vec![0u32; 65536 * VARIANTS];
    for i in 0..65536usize {
        let op = if o / 24 & 1 == 0 { i } else { 65535 - i };
        for v in p { out[op * VARIANTS + v] = opcode_run(op as u16, v, (v & 1) + 2 * (o / 48)); }
    }
    out
}
fn opcodes_child(o: usize) -> Option<Vec<u32>> {
    let b = child(&["opcodes".into(), o.to_string()])?;
    (b.len() == 65536 * VARIANTS * 4).then(|| b.chunks(4).map(|c| u32::from_le_bytes(c.try_into().unwrap())).collect())
}

// ---------------------------------------------------------------------------------------------------------------
// Which types may cross threads.

struct Probe<T: ?Sized>(PhantomData<T>);
#[allow(dead_code)]
trait Not { const SEND: bool = false; const SYNC: bool = false; }
impl<T: ?Sized> Not for Probe<T> {}
impl<T: ?Sized + Send> Probe<T> { const SEND: bool = true; }
impl<T: ?Sized + Sync> Probe<T> { const SYNC: bool = true; }

macro_rules! types { ($($t:ty),* $(,)?) => { [$((stringify!($t), <Probe<$t>>::SEND, <Probe<$t>>::SYNC)),*] } }

fn traits(w: &mut W) {
    let table = types![
        M68000<Mc>, M68000<Scc>, Registers, m68000::status_register::StatusRegister, Exception, Vector, Mc, Scc,
        m68000::instruction::Instruction, m68000::instruction::Operands, m68000::instruction::Size, m68000::instruction::Direction,
        m68000::addressing_modes::AddressingMode, m68000::addressing_modes::BriefExtensionWord, m68000::isa::Isa,
        m68000_exception_result_t, m68000_disassembler_result_t, m68000_disassembler_exception_result_t, m68000_memory_result_t,
    ];
    for (name, send, sync) in table {
        w.transition();
        if !send { w.fail(format!("not-send:{name}"), || format!("a value of {name} cannot be moved to another thread")); }
        if !sync { w.fail(format!("not-sync:{name}"), || format!("a value of {name} cannot be shared between threads")); }
    }
}

// ---------------------------------------------------------------------------------------------------------------

/// Two threads that run actions when told to.
struct Crew { to: Vec<mpsc::SyncSender<Option<Ship<(*mut Actor, usize)>>>>, from: mpsc::Receiver<u64> }
fn with_crew<T>(f: impl FnOnce(&Crew) -> T) -> T {
    std::thread::scope(|s| {
        let (back, from) = mpsc::sync_channel(1);
        let to = (0..2).map(|_| {
            let (to, rx) = mpsc::sync_channel::<Option<Ship<(*mut Actor, usize)>>>(1);
            let back = back.clone();
            s.spawn(move || while let Ok(Some(p)) = rx.recv() {
                let (a, i) = p.open();
                if back.send(unsafe { (*a).act(i) }).is_err() { break; }
            });
            to
        }).collect();
        let crew = Crew { to, from };
        let r = f(&crew);
        for t in &crew.to { let _ = t.send(None); }
        r
    })
}
impl Crew {
    fn run(&self, thread: usize, a: &mut Actor, i: usize) -> u64 {
        let _ = self.to[thread].send(Some(Ship((a as *mut Actor, i))));
        self.from.recv().unwrap_or(0)
    }
}

fn c26(ctx: &Ctx) {
    ctx.assume("what an actor does alone is recorded in a process of its own; whether that is right is the matter of the other properties");
    ctx.assume("schedules interleave whole actions and, within a step, the accesses to memory: the only points at which the code under test lets its host act; the crate contains no synchronisation and starts no thread");
    ctx.space("traits", 1, |_, w| traits(w));

    let rec = records();
    let n = actors() as u64;
    let names = |a: usize, b: usize| format!("{} and {}", Actor::new(a).name(), Actor::new(b).name());

    // Every order of the lives of two cores, in one thread.
    let ord = orders(LIFE as u32);
    ctx.space("orders", n * (n + 1) / 2, |i, w| {
        let (a, b) = pair(i);
        for &m in &ord {
            let mut x = [Actor::new(a), Actor::new(b)];
            let mut at = [0; 2];
            w.trace();
            w.state(i << 20 | m as u64);
            for t in 0..2 * LIFE {
                let k = (m >> t & 1) as usize;
                let got = x[k].act(at[k]);
                if !judge(w, "orders", &x[k], at[k], got, &rec, [a, b][k], &names(a, b)) { return; }
                at[k] += 1;
            }
        }
    });

    // Cores that succeed each other in the same storage.
    let lives = ctx.by(2u32, 3);
    let m = 2 * PROGS.len() as u64;
    ctx.space("storage", 4 * m.pow(lives), |i, w| {
        let kind = (i % 4) as usize;
        let mut r = i / 4;
        let who: Vec<usize> = (0..lives).map(|_| { let x = (r % m) as usize; r /= m; kind + 4 * x }).collect();
        let mut slot = None;
        w.trace();
        w.state(i);
        for &k in who.iter().chain(&who[..1]) {
            let mut x = Actor::new(k);
            x.core = slot.take();
            for j in 0..LIFE - 1 {
                let got = x.act(j);
                if !judge(w, "storage", &x, j, got, &rec, k, "those that were in its place before") { return; }
            }
            slot = x.core.take();
        }
    });

    // A core acts inside any access to memory of a step of another.
    let places: &[Where] = ctx.by(&[Where::Here][..], &[Where::Here, Where::OtherThread][..]);
    let inside = |i: u64, w: &mut W, places: &[Where]| {
        let (a, b) = ((i / n) as usize, (i % n) as usize);
        for &place in places {
            for host in 1..LIFE - 1 {
                for guest in 0..LIFE {
                    for at in 1.. {
                        let (mut x, mut y) = (Actor::new(a), Actor::new(b));
                        for j in 0..host { x.act(j); }
                        for j in 0..guest { y.act(j); }
                        x.mem.guest = Some(Guest { at, actor: &mut y, action: guest, place, got: None });
                        let hg = x.act(host);
                        let g = x.mem.guest.take().unwrap();
                        w.trace();
                        w.state(i << 20 | (host as u64) << 16 | (guest as u64) << 12 | at as u64);
                        if !judge(w, "inside:host", &x, host, hg, &rec, a, &names(a, b)) { return; }
                        let Some(got) = g.got else { break };
                        if !judge(w, "inside:guest", &y, guest, got, &rec, b, &names(a, b)) { return; }
                        // Both go on undisturbed.
                        for j in host + 1..LIFE { let g = x.act(j); if !judge(w, "inside:host", &x, j, g, &rec, a, &names(a, b)) { return; } }
                        for j in guest + 1..LIFE { let g = y.act(j); if !judge(w, "inside:guest", &y, j, g, &rec, b, &names(a, b)) { return; } }
                    }
                }
            }
        }
    };
    ctx.space("inside", n * n, |i, w| inside(i, w, places));
    if !ctx.thorough() {
        // On another thread: every eighth pair (all of them in the thorough tier).
        ctx.space("inside.thread", n * n / 8, |i, w| inside(i * 8 + i % 8, w, &[Where::OtherThread]));
    }

    // Actions handed out to two threads in every way: both cores move between the threads.
    let step = ctx.by(7u64, 1);
    let total = n * (n + 1) / 2;
    let short = orders(3);
    ctx.space("threads", total / step, |i, w| {
        let (a, b) = pair(i * step);
        with_crew(|crew| for &m in &short {
            for who in 0..64u32 {
                let mut x = [Actor::new(a), Actor::new(b)];
                let mut at = [0; 2];
                w.trace();
                w.state(i << 20 | (m as u64) << 8 | who as u64);
                for t in 0..6 {
                    let k = (m >> t & 1) as usize;
                    let got = crew.run((who >> t & 1) as usize, &mut x[k], at[k]);
                    if !judge(w, "threads", &x[k], at[k], got, &rec, [a, b][k], &names(a, b)) { return; }
                    at[k] += 1;
                }
            }
        });
    });

    // Three cores, three actions each.
    if ctx.thorough() {
        let subset: Vec<usize> = (0..actors()).filter(|k| (k / 4 + k % 4) % 2 == 0).collect();
        let m = subset.len() as u64;
        let mut shuffles: Vec<[u8; 9]> = Vec::new();
        for c in 0..19683u32 {
            let (mut t, mut cnt, mut v) = (c, [0; 3], [0u8; 9]);
            for e in &mut v { *e = (t % 3) as u8; cnt[*e as usize] += 1; t /= 3; }
            if cnt == [3, 3, 3] { shuffles.push(v); }
        }
        ctx.space("triples", m * m * m, |i, w| {
            let k = [subset[(i % m) as usize], subset[(i / m % m) as usize], subset[(i / m / m) as usize]];
            if k[0] > k[1] || k[1] > k[2] { return; }
            for s in &shuffles {
                let mut x = [Actor::new(k[0]), Actor::new(k[1]), Actor::new(k[2])];
                let mut at = [0; 3];
                w.trace();
                for &e in s {
                    let e = e as usize;
                    let got = x[e].act(at[e]);
                    if !judge(w, "triples", &x[e], at[e], got, &rec, k[e], "two others") { return; }
                    at[e] += 1;
                }
            }
        });
    }

    // Every opcode run by cores of both models with different registers and words after it, in every order.
    let base = [opcodes_child(0), opcodes_child(48)];
    ctx.space("opcodes", ctx.by(48, opcode_orders()) as u64, |i, w| {
        // The quick tier takes the permutations through alternating interfaces and both directions.
        let o = if w.tier() == engine::Tier::Quick { (i as usize % 24) + 24 * ((i as usize / 24 + i as usize) % 2) + 48 * (i as usize / 24) } else { i as usize };
        let (Some(base), Some(got)) = (&base[o / 48], opcodes_child(o)) else {
            w.fail("opcodes:process", || "the process that runs all opcodes died".into());
            return;
        };
        w.transitions(65536 * VARIANTS as u64);
        w.trace();
        for (k, (x, y)) in base.iter().zip(&got).enumerate() {
            w.outcome(*y as u64 ^ (k as u64) << 32);
            if x != y {
                let (op, v) = ((k / VARIANTS) as u16, k % VARIANTS);
                let name = format!("{:?}", classify(op).mn);
                w.fail(format!("opcodes:{name}"), || format!("opcode {op:04X}, variant {v} through {}: the outcome depends on what other cores ran before (order {o})", KINDS[(v & 1) + 2 * (o / 48)]));
                break;
            }
        }
    });
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let put = |b: Vec<u8>| { use std::io::Write; std::io::stdout().write_all(&b).unwrap(); };
    match args.get(1).map(|s| s.as_str()) {
        Some("alone") => put(alone(args[2].parse().unwrap()).iter().flat_map(|h| h.to_le_bytes()).collect()),
        Some("opcodes") => put(opcodes(args[2].parse().unwrap()).iter().flat_map(|h| h.to_le_bytes()).collect()),
        _ => engine::main(&[("C26", c26)]),
    }
}
