//! C14: every function of the C interface, called from C through the repository's headers, against its Rust counterpart.

use mc::bus::Bus;
use mc::decode::*;
use mc::drive::*;
use mc::engine::{self, die, guard, no_unwind, Ctx, H, W};
use mc::exec::St;
use m68000::exception::{Exception, Vector};
use m68000::{MemoryAccess, Registers, M68000};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::ffi::c_void;

// ---------------------------------------------------------------------------------------------------------------
// Live heap bytes per thread.

struct Counting;
thread_local! { static LIVE: Cell<i64> = const { Cell::new(0) }; }
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { let _ = LIVE.try_with(|c| c.set(c.get() + l.size() as i64)); unsafe { System.alloc(l) } }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { let _ = LIVE.try_with(|c| c.set(c.get() - l.size() as i64)); unsafe { System.dealloc(p, l) } }
}
#[global_allocator]
static ALLOC: Counting = Counting;
fn live() -> i64 { LIVE.with(|c| c.get()) }

// ---------------------------------------------------------------------------------------------------------------
// The recording memory, seen by Rust as a MemoryAccess and by C as callbacks.

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
struct Ev { kind: u8, write: bool, addr: u32, data: u32, ok: bool }

struct Tape {
    bus: Bus,
    log: Vec<Ev>,
    /// The access that is refused (1-based), and the error code the C callback returns.
    fail_at: u32,
    code: u8,
    n: u32,
    token: usize,
    bad_user: u32,
    fuse: u32,
    c_side: bool,
}

impl Tape {
    fn new(token: usize) -> Tape {
        Tape { bus: Bus::new(1), log: Vec::with_capacity(1024), fail_at: 0, code: 2, n: 0, token, bad_user: 0, fuse: 900, c_side: false }
    }
    fn rewind(&mut self) {
        self.bus.reset_log();
        self.log.clear();
        self.n = 0;
        self.bad_user = 0;
    }
    fn access(&mut self, kind: u8, write: bool, addr: u32, data: u32) -> Option<u32> {
        self.n += 1;
        if self.n > self.fuse {
            if self.c_side { die("the C function does not return where the Rust function does"); }
            panic!("fuse blown");
        }
        let ok = self.n != self.fail_at;
        let mut data = data;
        if ok {
            match (kind, write) {
                (1, false) => data = self.bus.peek(addr) as u32,
                (2, false) => data = self.bus.peek16(addr) as u32,
                (4, false) => data = self.bus.peek32(addr),
                (k, _) => for i in 0..k as u32 { self.bus.w.push((addr.wrapping_add(i), (data >> (8 * (k as u32 - 1 - i))) as u8)); },
            }
        }
        self.log.push(Ev { kind, write, addr, data, ok });
        ok.then_some(data)
    }
}

impl MemoryAccess for Tape {
    fn get_byte(&mut self, a: u32) -> Option<u8> { self.access(1, false, a, 0).map(|v| v as u8) }
    fn get_word(&mut self, a: u32) -> Option<u16> { self.access(2, false, a, 0).map(|v| v as u16) }
    fn get_long(&mut self, a: u32) -> Option<u32> { self.access(4, false, a, 0) }
    fn set_byte(&mut self, a: u32, v: u8) -> Option<()> { self.access(1, true, a, v as u32).map(|_| ()) }
    fn set_word(&mut self, a: u32, v: u16) -> Option<()> { self.access(2, true, a, v as u32).map(|_| ()) }
    fn set_long(&mut self, a: u32, v: u32) -> Option<()> { self.access(4, true, a, v).map(|_| ()) }
    fn reset_instruction(&mut self) { self.log.push(Ev { kind: 0, write: true, addr: 0, data: 0, ok: true }); }
}

thread_local! { static TAPE: RefCell<*mut Tape> = const { RefCell::new(std::ptr::null_mut()) }; }

fn with_tape<T>(user: *mut c_void, f: impl FnOnce(&mut Tape) -> T) -> T {
    TAPE.with(|t| {
        let t = unsafe { &mut **t.borrow() };
        if user as usize != t.token { t.bad_user += 1; }
        f(t)
    })
}

#[no_mangle]
extern "C" fn tape_get(kind: u32, addr: u32, user: *mut c_void) -> u64 {
    with_tape(user, |t| match t.access(kind as u8, false, addr, 0) {
        // The bits above the size of the access are not read: fill them.
        Some(v) => match kind { 1 => v as u64 | 0xA5C3_E100, 2 => v as u64 | 0x5A3C_0000, _ => v as u64 },
        None => (t.code as u64) << 32 | 0x1234_5678,
    })
}
#[no_mangle]
extern "C" fn tape_set(kind: u32, addr: u32, data: u32, user: *mut c_void) -> u64 {
    with_tape(user, |t| match t.access(kind as u8, true, addr, data) { Some(_) => 0x8765_4321, None => (t.code as u64) << 32 | 0x1234_5678 })
}
#[no_mangle]
extern "C" fn tape_reset(user: *mut c_void) { with_tape(user, |t| t.reset_instruction()) }

// ---------------------------------------------------------------------------------------------------------------
// The C side.

#[repr(C)]
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
struct Plain { d: [u32; 8], a: [u32; 7], usp: u32, ssp: u32, pc: u32, t: u8, s: u8, mask: u8, x: u8, n: u8, z: u8, v: u8, c: u8 }

#[repr(C)]
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
struct Res { cycles: usize, pc: u32, data: u32, exc: u32 }

fn plain(r: &Registers) -> Plain {
    let (mut d, mut a) = ([0; 8], [0; 7]);
    for i in 0..8 { d[i] = r.d[i].0; }
    for i in 0..7 { a[i] = r.a[i].0; }
    let s = r.sr;
    Plain { d, a, usp: r.usp.0, ssp: r.ssp.0, pc: r.pc.0, t: s.t as u8, s: s.s as u8, mask: s.interrupt_mask, x: s.x as u8, n: s.n as u8, z: s.z as u8, v: s.v as u8, c: s.c as u8 }
}

/// The C functions of one processor model.
#[derive(Clone, Copy)]
struct Api {
    name: &'static str,
    new: unsafe extern "C" fn(i32) -> *mut c_void,
    delete: unsafe extern "C" fn(*mut c_void),
    registers: unsafe extern "C" fn(*const c_void, *mut Plain) -> *const c_void,
    registers_mut: unsafe extern "C" fn(*mut c_void, *const Plain) -> *mut c_void,
    get_registers: unsafe extern "C" fn(*const c_void, *mut Plain),
    set_registers: unsafe extern "C" fn(*mut c_void, *const Plain),
    exception: unsafe extern "C" fn(*mut c_void, u32),
    call: unsafe extern "C" fn(*mut c_void, *mut c_void, u32, usize, *mut u8) -> Res,
}

#[cfg(not(header_broken))]
mod c {
    use super::*;
    extern "C" {
        pub fn mc68000_new(r: i32) -> *mut c_void;
        pub fn mc68000_delete(c: *mut c_void);
        pub fn mc68000_registers(c: *const c_void, p: *mut Plain) -> *const c_void;
        pub fn mc68000_registers_mut(c: *mut c_void, p: *const Plain) -> *mut c_void;
        pub fn mc68000_get_registers(c: *const c_void, p: *mut Plain);
        pub fn mc68000_set_registers(c: *mut c_void, p: *const Plain);
        pub fn mc68000_exception(c: *mut c_void, i: u32);
        pub fn mc68000_call(c: *mut c_void, user: *mut c_void, what: u32, n: usize, s: *mut u8) -> Res;
        pub fn scc68070_new(r: i32) -> *mut c_void;
        pub fn scc68070_delete(c: *mut c_void);
        pub fn scc68070_registers(c: *const c_void, p: *mut Plain) -> *const c_void;
        pub fn scc68070_registers_mut(c: *mut c_void, p: *const Plain) -> *mut c_void;
        pub fn scc68070_get_registers(c: *const c_void, p: *mut Plain);
        pub fn scc68070_set_registers(c: *mut c_void, p: *const Plain);
        pub fn scc68070_exception(c: *mut c_void, i: u32);
        pub fn scc68070_call(c: *mut c_void, user: *mut c_void, what: u32, n: usize, s: *mut u8) -> Res;
    }
    pub static MC: Api = Api {
        name: "mc68000", new: mc68000_new, delete: mc68000_delete, registers: mc68000_registers, registers_mut: mc68000_registers_mut, get_registers: mc68000_get_registers,
        set_registers: mc68000_set_registers, exception: mc68000_exception, call: mc68000_call,
    };
    pub static SCC: Api = Api {
        name: "scc68070", new: scc68070_new, delete: scc68070_delete, registers: scc68070_registers, registers_mut: scc68070_registers_mut, get_registers: scc68070_get_registers,
        set_registers: scc68070_set_registers, exception: scc68070_exception, call: scc68070_call,
    };
}

/// The vectors, in the order of shim.c's table of C names.
const VECTORS: [Vector; 45] = {
    use Vector::*;
    [
        ResetSspPc, AccessError, AddressError, IllegalInstruction, ZeroDivide, ChkInstruction, TrapVInstruction, PrivilegeViolation, Trace, LineAEmulator, LineFEmulator, FormatError,
        UninitializedInterrupt, SpuriousInterrupt, Level1Interrupt, Level2Interrupt, Level3Interrupt, Level4Interrupt, Level5Interrupt, Level6Interrupt, Level7Interrupt, Trap0Instruction,
        Trap1Instruction, Trap2Instruction, Trap3Instruction, Trap4Instruction, Trap5Instruction, Trap6Instruction, Trap7Instruction, Trap8Instruction, Trap9Instruction, Trap10Instruction,
        Trap11Instruction, Trap12Instruction, Trap13Instruction, Trap14Instruction, Trap15Instruction, Level1OnChipInterrupt, Level2OnChipInterrupt, Level3OnChipInterrupt,
        Level4OnChipInterrupt, Level5OnChipInterrupt, Level6OnChipInterrupt, Level7OnChipInterrupt, UserInterrupt,
    ]
};

const NAMES: [&str; 10] = [
    "interpreter", "interpreter_exception", "disassembler_interpreter", "disassembler_interpreter_exception", "cycle", "cycle_until_exception", "loop_until_exception_stop", "get_next_word",
    "get_next_long", "peek_next_word",
];

/// Calls the Rust counterpart of C function `what`.
fn rust_call<C: Model>(c: &mut M68000<C>, t: &mut Tape, what: u32, n: usize) -> (Res, Option<String>) {
    let mut r = Res { cycles: 0, pc: 0, data: 0, exc: 0x100 };
    let mut text = None;
    let v = |v: Option<u8>| v.unwrap_or(0) as u32;
    match what {
        0 => r.cycles = c.interpreter(t),
        1 => { let (n, e) = c.interpreter_exception(t); r.cycles = n; r.exc = v(e); }
        2 => { let (pc, s, n) = c.disassembler_interpreter(t); r.pc = pc; r.cycles = n; text = Some(s); }
        3 => { let (pc, s, n, e) = c.disassembler_interpreter_exception(t); r.pc = pc; r.cycles = n; r.exc = v(e); text = Some(s); }
        4 => r.cycles = c.cycle(t, n),
        5 => { let (n, e) = c.cycle_until_exception(t, n); r.cycles = n; r.exc = v(e); }
        6 => { let (n, e) = c.loop_until_exception_stop(t); r.cycles = n; r.exc = v(e); }
        7 => match c.get_next_word(t) { Ok(d) => { r.data = d as u32; r.exc = 0 } Err(e) => r.exc = e as u32 },
        8 => match c.get_next_long(t) { Ok(d) => { r.data = d; r.exc = 0 } Err(e) => r.exc = e as u32 },
        _ => match c.peek_next_word(t) { Ok(d) => { r.data = d as u32; r.exc = 0 } Err(e) => r.exc = e as u32 },
    }
    (r, text)
}

/// A C core and a Rust core in the same state.
struct Pair<C: Model> { c: *mut c_void, r: M68000<C>, tc: Box<Tape>, tr: Tape, buf: Vec<u8>, api: &'static Api }

const CANARY: u8 = 0xC7;
const FRONT: usize = 16;

impl<C: Model> Pair<C> {
    fn new(api: &'static Api) -> Pair<C> {
        Pair { c: unsafe { (api.new)(0) }, r: M68000::new_no_reset(), tc: Box::new(Tape::new(0)), tr: Tape::new(0), buf: vec![0; 512], api }
    }
    fn core(&mut self) -> &mut M68000<C> { unsafe { &mut *(self.c as *mut M68000<C>) } }
    /// Puts both in the given state.
    fn set(&mut self, s: &St) {
        self.r = load::<C>(s);
        *self.core() = load::<C>(s);
    }
    /// Calls function `what` on both sides on memory `bus` and compares everything observable. Returns the number of
    /// accesses made, or None when the Rust function panics (the C function would end the process).
    fn both(&mut self, w: &mut W, tag: &str, bus: &Bus, what: u32, n: usize, fail_at: u32, code: u8) -> Option<(u32, usize)> {
        let token = 0x7000_0000_0000usize ^ (w.item as usize).wrapping_mul(0x9E37_79B9) ^ what as usize;
        for t in [&mut self.tr, &mut *self.tc] {
            t.bus.clone_from(bus);
            t.rewind();
            t.fail_at = fail_at;
            t.code = code;
            t.token = token;
        }
        w.transition();
        let (r, tr) = (&mut self.r, &mut self.tr);
        let Ok((want, text)) = guard(|| rust_call(r, tr, what, n)) else { w.stat(match tag { "refused" => "rust_side_panics_skipped_refused_extension_word", "after-refused" | "codes" => "rust_side_panics_skipped_other_refused", _ => "rust_side_panics_skipped_other" }, 1); return None };
        w.trace();
        self.tc.c_side = true;
        TAPE.with(|t| *t.borrow_mut() = &mut *self.tc);
        self.buf.fill(CANARY);
        let (c, call, buf) = (self.c, self.api.call, unsafe { self.buf.as_mut_ptr().add(FRONT) });
        let got = no_unwind(|| unsafe { call(c, token as *mut c_void, what, n, buf) });
        let key = |k: &str| format!("{tag}:{}:{}:{k}", self.api.name, NAMES[what as usize]);
        let mut h = H::new();
        h.add(want.cycles as u64 ^ (want.exc as u64) << 32);
        h.add((want.pc as u64) << 32 | want.data as u64);
        h.add(what as u64);
        w.outcome(h.get());
        w.digest(|| {
            let mut h = H::new();
            h.add(got.cycles as u64 ^ (got.exc as u64) << 32);
            h.add((got.pc as u64) << 32 | got.data as u64);
            for e in &self.tc.log { h.add((e.addr as u64) << 32 | e.data as u64); h.add((e.kind as u64) << 2 | (e.write as u64) << 1 | e.ok as u64); }
            h.get()
        });
        if want != got { w.fail(key("result"), || format!("Rust {want:x?}, C {got:x?}; n={n} refused access {fail_at} code {code}; {}", show_bus(bus))); }
        if self.tr.log != self.tc.log {
            let (a, b) = (&self.tr.log, &self.tc.log);
            w.fail(key("accesses"), || format!("Rust {a:x?}, C {b:x?}; refused access {fail_at} code {code}; {}", show_bus(bus)));
        }
        if self.tc.bad_user != 0 { w.fail(key("user-data"), || "a callback got another user data pointer".into()); }
        let mut p = Plain::default();
        unsafe { (self.api.get_registers)(self.c, &mut p) };
        let q = plain(&self.r.regs);
        if p != q { w.fail(key("registers"), || format!("Rust {q:x?}, C {p:x?}; refused access {fail_at} code {code}; {}", show_bus(bus))); }
        let cc = unsafe { &*(self.c as *const M68000<C>) };
        let (a, b) = (hidden(&self.r), hidden(cc));
        if a != b { w.fail(key("state"), || format!("Rust {a}, C {b}")); }
        let mut tl = 0;
        if let Some(t) = text {
            tl = t.len() + 1;
            let len = n;
            let out = &self.buf[FRONT..];
            if self.buf[..FRONT].iter().any(|b| *b != CANARY) || out[len..].iter().any(|b| *b != CANARY) {
                w.fail(key("overrun"), || format!("bytes outside a buffer of {len} bytes were written for '{t}'"));
            }
            if len > 0 {
                let k = t.len().min(len - 1);
                match out[..len].iter().position(|b| *b == 0) {
                    None => w.fail(key("unterminated"), || format!("'{t}' in a buffer of {len} bytes is not terminated")),
                    Some(z) if z != k || out[..k] != t.as_bytes()[..k] => w.fail(key("text"), || format!("'{t}' in a buffer of {len} bytes reads '{}'", String::from_utf8_lossy(&out[..z]))),
                    _ => {}
                }
            }
        }
        Some((self.tr.n, tl))
    }
}
impl<C: Model> Drop for Pair<C> { fn drop(&mut self) { unsafe { (self.api.delete)(self.c) } } }

/// What the registers do not show: the stopped state, the pending exceptions and the opcode being executed.
fn hidden<C: Model>(c: &M68000<C>) -> String {
    let s = format!("{c:?}");
    match s.find("current_opcode") { Some(i) => s[i..].to_string(), None => s }
}

/// Every opcode with every stepping function, every buffer length class, without failures.
fn steps<C: Model>(ctx: &Ctx, api: &'static Api) {
    let exts = ctx.by(6, 24);
    ctx.space(&format!("step-{}", api.name), ALL_OPS, |op, w| {
        let mut p = Pair::<C>::new(api);
        let (mut st, mut bus, mut words) = (St::new(), Bus::new(1), Vec::new());
        for e in 0..exts {
            for (k, sr) in [(0, 0x2700), (3 + e as u32, 0x001F), (0, 0xA71F)] {
                case(&mut st, &mut bus, &mut words, op as u16, e, k, e, w.seed() as u32, sr);
                bus.nops = true;
                w.state(hash_case(&st, &bus));
                for what in 0..4 {
                    p.set(&st);
                    if p.both(w, "step", &bus, what, 64 + FRONT, 0, 2).is_none() { continue; }
                    // What it left pending is processed alike.
                    let next = bus_after(&p.tr.bus);
                    p.both(w, "next", &next, (what + 1) & 3, 64, 0, 2);
                }
            }
        }
    });
}

fn bus_after(b: &Bus) -> Bus { let mut n = b.clone(); fold(&mut n); n }

/// Every access of every opcode refused, with every kind of error code.
fn faults<C: Model>(ctx: &Ctx, api: &'static Api) {
    let codes: &[u8] = ctx.by(&[2, 0xFF], &[1, 2, 3, 4, 0x7F, 0x80, 0xFF]);
    ctx.space(&format!("refused-{}", api.name), ALL_OPS, |op, w| {
        let mut p = Pair::<C>::new(api);
        let (mut st, mut bus, mut words) = (St::new(), Bus::new(1), Vec::new());
        for (k, sr) in [(0, 0x2700), (0, 0x001F)] {
            case(&mut st, &mut bus, &mut words, op as u16, 0, k, 0, 1, sr);
            bus.nops = true;
            for what in [1u32, 3, 4] {
                let n = if what == 4 { 1 } else { 64 };
                p.set(&st);
                let Some((accesses, _)) = p.both(w, "full", &bus, what, n, 0, 2) else { continue };
                for at in 1..=accesses.min(40) {
                    for code in codes {
                        p.set(&st);
                        if p.both(w, "refused", &bus, what, n, at, *code).is_some() && what != 4 {
                            let next = bus_after(&p.tr.bus);
                            p.core().exception(Exception::from(2));
                            p.r.exception(Exception::from(2));
                            p.both(w, "after-refused", &next, 0, 0, 0, 2);
                        }
                    }
                }
            }
        }
    });
    // All 255 error codes on every access of some instructions.
    const OPS: &[&[u16]] = &[&[0x4E71], &[0x22D8], &[0x48E0, 0x8181], &[0x4CD8, 0x8181], &[0x0188, 4], &[0x0148, 4], &[0x1018], &[0x1100], &[0x4E75], &[0x4E73], &[0x23F9, 0, 0x1000, 0, 0x2000], &[0xB149], &[0x8308], &[0x4A58]];
    ctx.space(&format!("codes-{}", api.name), OPS.len() as u64 * 255, |i, w| {
        let words = OPS[i as usize / 255];
        let code = (i % 255 + 1) as u8;
        let mut p = Pair::<C>::new(api);
        let mut st = regfile(0, 1);
        st.sr = 0x2700;
        let mut bus = Bus::new(1);
        bus.set_code(st.pc, words);
        for what in 0..6 {
            let n = match what { 2 | 3 => 64, 4 | 5 => 10, _ => 0 };
            p.set(&st);
            let Some((accesses, _)) = p.both(w, "full", &bus, what, n, 0, 2) else { continue };
            for at in 1..=accesses.min(60) {
                p.set(&st);
                p.both(w, "codes", &bus, what, n, at, code);
            }
        }
    });
}

/// Text of every length into buffers of every length.
fn buffers<C: Model>(ctx: &Ctx, api: &'static Api) {
    let stride = ctx.by(4, 1);
    ctx.space(&format!("buffers-{}", api.name), ALL_OPS / stride, |i, w| {
        let op = (i * stride + i / 7 % stride) as u16;
        let mut p = Pair::<C>::new(api);
        let (mut st, mut bus, mut words) = (St::new(), Bus::new(1), Vec::new());
        for e in 0..2 {
            case(&mut st, &mut bus, &mut words, op, e * 3 + 1, 0, 0, 1, 0x2700);
            for what in [2, 3] {
                p.set(&st);
                let Some((_, len)) = p.both(w, "buffer", &bus, what, 200, 0, 2) else { continue };
                w.state(len as u64 ^ (op as u64) << 20 ^ (e as u64) << 40);
                for n in 0..len + 3 {
                    p.set(&st);
                    p.both(w, "buffer", &bus, what, n, 0, 2);
                    w.stat("buffer_lengths", 1);
                }
            }
        }
    });
    // Steps that disassemble nothing: stopped, fetch errors.
    ctx.space(&format!("buffers-empty-{}", api.name), 4 * 200, |i, w| {
        let n = (i / 4) as usize;
        let mut p = Pair::<C>::new(api);
        let mut st = regfile(0, 1);
        st.stop = i % 4 == 0;
        if i % 4 == 1 { st.pc |= 1; }
        let bus = Bus::new(1);
        for what in [2, 3] {
            p.set(&st);
            p.both(w, "buffer", &bus, what, n, if i % 4 == 2 { 1 } else { 0 }, 2);
        }
    });
}

/// Short programs with every running function and every budget.
fn runs<C: Model>(ctx: &Ctx, api: &'static Api) {
    const ALPHA: &[&[u16]] = &[
        &[0x4E71], &[0x7001], &[0x4E42], &[0x4AFC], &[0xA000], &[0x2018], &[0x2208], &[0x80FC, 0], &[0x46FC, 0x0000], &[0x46FC, 0xA000], &[0x4E70], &[0x4E72, 0x2000], &[0x3028, 1], &[0x4E40], &[0x60FE], &[0x5340], &[0x66FC],
    ];
    let depth = ctx.by(3u32, 4);
    let k = ALPHA.len() as u64;
    ctx.space(&format!("run-{}", api.name), k.pow(depth) * 2, |i, w| {
        let mut words = Vec::new();
        let mut j = i / 2;
        for _ in 0..depth { words.extend_from_slice(ALPHA[(j % k) as usize]); j /= k; }
        words.extend_from_slice(&[0x4E72, 0x2000]);
        let mut p = Pair::<C>::new(api);
        let mut st = regfile(0, 1);
        st.sr = if i % 2 == 0 { 0x2000 } else { 0x0000 };
        let mut bus = Bus::new(1);
        bus.nops = true;
        bus.set_code(st.pc, &words);
        w.state(hash_case(&st, &bus));
        for n in 0..=pick(w, 40, 100) {
            for what in [4, 5] {
                p.set(&st);
                if p.both(w, "run", &bus, what, n, 0, 2).is_none() { continue; }
                // Continue on the memory it left: the time run over is remembered nowhere.
                let next = bus_after(&p.tr.bus);
                p.both(w, "run-on", &next, 9 - what, n / 2 + 1, 0, 2);
            }
        }
        p.set(&st);
        p.both(w, "run", &bus, 6, 0, 0, 2);
        // Budgets at the ends of the integer types: until the next event.
        for n in [usize::MAX, isize::MAX as usize + 1, 1 << 32, 1 << 31] {
            p.set(&st);
            p.both(w, "run", &bus, 5, n, 0, 2);
        }
        if i < 3 { w.sample(|| format!("program {words:04x?} for budgets up to 70 cycles on both interfaces")); }
    });
}

/// All requests of one or two exceptions, by their C names, followed by steps.
fn exceptions<C: Model>(ctx: &Ctx, api: &'static Api) {
    let n = VECTORS.len() as u64;
    ctx.space(&format!("request-{}", api.name), n * n * 4, |i, w| {
        let (v1, v2, mode) = ((i % n) as usize, (i / n % n) as usize, i / n / n);
        let mut p = Pair::<C>::new(api);
        let mut st = regfile(0, 1);
        st.sr = if mode & 1 != 0 { 0x0300 } else { 0x2000 };
        st.stop = mode & 2 != 0;
        let mut bus = Bus::new(1);
        bus.nops = true;
        for what in 0..4 {
            p.set(&st);
            for v in [v1, v2] {
                unsafe { no_unwind(|| (api.exception)(p.c, v as u32)) };
                p.r.exception(Exception::from(VECTORS[v]));
            }
            let mut b = bus.clone();
            for _ in 0..3 {
                if p.both(w, "request", &b, what, 64, 0, 2).is_none() { break; }
                b = bus_after(&p.tr.bus);
            }
        }
        w.state(i | 1 << 50);
    });
}

/// The fetching functions at every kind of program counter with every failure.
fn fetches<C: Model>(ctx: &Ctx, api: &'static Api) {
    const PCS: &[u32] = &[0, 1, 2, 0x4000, 0x4001, 0x7FFF_FFFE, 0x7FFF_FFFF, 0x8000_0000, 0xFFFF_FFFC, 0xFFFF_FFFD, 0xFFFF_FFFE, 0xFFFF_FFFF];
    ctx.space(&format!("fetch-{}", api.name), PCS.len() as u64 * 256, |i, w| {
        let pc = PCS[i as usize / 256];
        let mut p = Pair::<C>::new(api);
        let mut st = regfile(0, 1);
        st.pc = pc;
        let mut bus = Bus::new(i as u32);
        bus.vectors = false;
        for what in 7..10 {
            for at in 0..4 {
                for code in [(i % 255 + 1) as u8] {
                    p.set(&st);
                    // Three in a row.
                    for _ in 0..3 { p.both(w, "fetch", &bus, what, 0, at, code); }
                }
            }
        }
    });
}

/// Every value through the fetching functions and through instructions that read and write it.
fn values<C: Model>(ctx: &Ctx, api: &'static Api) {
    const OPS: [u16; 6] = [0x1010, 0x3010, 0x2010, 0x1280, 0x3280, 0x2280];
    ctx.space(&format!("values-{}", api.name), 65536, |i, w| {
        let v = i as u32;
        let mut p = Pair::<C>::new(api);
        for x in [v, v << 16, v << 16 | v, v << 16 | 0xFFFF, v | 0xFFFF_0000, v << 16 | v ^ 0xFFFF] {
            let mut st = regfile(0, 1);
            st.a[0] = 0x0002_0000;
            st.a[1] = 0x0002_0100;
            st.d[0] = x;
            let mut bus = Bus::new(1);
            bus.put16(st.pc, (x >> 16) as u16);
            bus.put16(st.pc + 2, x as u16);
            for what in 7..10 {
                p.set(&st);
                p.both(w, "value", &bus, what, 0, 0, 2);
            }
            for (k, op) in OPS.iter().enumerate() {
                let mut bus = Bus::new(1);
                bus.put16(st.pc, *op);
                bus.put16(st.a[0], (x >> 16) as u16);
                bus.put16(st.a[0] + 2, x as u16);
                p.set(&st);
                p.both(w, "value", &bus, k as u32 & 3, 40, 0, 2);
            }
        }
        w.state(i | 1 << 51);
    });
}

/// Reading and writing the registers, each bit by itself, and the life of a core.
fn registers<C: Model>(ctx: &Ctx, api: &'static Api) {
    // Bit i of the 18 long registers, then the status register values.
    ctx.space(&format!("registers-{}", api.name), 18 * 32 + 65536, |i, w| {
        let mut want = Plain::default();
        if i < 18 * 32 {
            let (r, b) = ((i / 32) as usize, 1u32 << (i % 32));
            match r { 0..=7 => want.d[r] = b, 8..=14 => want.a[r - 8] = b, 15 => want.usp = b, 16 => want.ssp = b, _ => want.pc = b }
        } else {
            let s = (i - 18 * 32) as u16;
            for k in 0..8 { want.d[k] = 0xD000_0000 + k as u32; }
            for k in 0..7 { want.a[k] = 0xA000_0000 + k as u32; }
            (want.usp, want.ssp, want.pc) = (0xB0, 0xC0, 0xE0);
            let b = |n: u32| (s >> n & 1) as u8;
            (want.t, want.s, want.mask, want.x, want.n, want.z, want.v, want.c) = (b(15), b(13), (s >> 8 & 7) as u8, b(4), b(3), b(2), b(1), b(0));
        }
        w.transition();
        w.state(i | 1 << 51);
        for how in 0..2 {
            let c = unsafe { (api.new)(0) };
            let at = c as *const M68000<C>;
            let fail = |w: &mut W, k: &str, got: &Plain| w.fail(format!("registers:{}:{k}", api.name), || format!("expected {want:x?} got {got:x?}"));
            let mut got = Plain::default();
            if how == 0 { unsafe { (api.set_registers)(c, &want) }; } else { unsafe { (api.registers_mut)(c, &want) }; }
            let r = plain(unsafe { &(*at).regs });
            if r != want { fail(w, if how == 0 { "set_registers" } else { "registers_mut" }, &r); }
            unsafe { (api.get_registers)(c, &mut got) };
            if got != want { fail(w, "get_registers", &got); }
            let mut got2 = Plain::default();
            let p1 = unsafe { (api.registers)(c, &mut got2) };
            if got2 != want { fail(w, "registers", &got2); }
            let p2 = unsafe { (api.registers_mut)(c, std::ptr::null()) };
            if p1 != p2 as *const c_void || p1 != unsafe { &(*at).regs as *const Registers as *const c_void } { w.fail(format!("registers:{}:pointer", api.name), || "registers and registers_mut do not point to the registers of the core".into()); }
            unsafe { (api.delete)(c) };
        }
    });
    // Creation, use and deletion.
    ctx.space(&format!("life-{}", api.name), 2 * 64, |i, w| {
        let reset = i % 2;
        let steps = i / 2;
        let mut bus = Bus::new(1);
        bus.nops = true;
        bus.put16(mc::bus::handler(1), 0x4E4F);
        let mut p = Pair::<C>::new(api);
        p.tc.log.reserve(4096);
        // Warm up everything that allocates once.
        p.set(&regfile(0, 1));
        p.both(w, "life", &bus, 1, 0, 0, 2);
        let old = p.c;
        (p.tc.bus, p.tr.bus) = (bus.clone(), bus.clone());
        let before = live();
        p.c = unsafe { (api.new)(reset as i32) };
        let fresh: M68000<C> = if reset == 1 { M68000::new() } else { M68000::new_no_reset() };
        let (a, b) = (format!("{fresh:?}"), format!("{:?}", p.core()));
        if a != b { w.fail(format!("life:{}:new", api.name), || format!("Rust {a}, C {b}")); }
        drop((a, b));
        let size = live() - before;
        drop(fresh);
        p.r = if reset == 1 { M68000::new() } else { M68000::new_no_reset() };
        let mut at = std::ptr::null_mut();
        for s in 0..steps {
            if p.both(w, "life", &bus, (s % 4) as u32, 64, 0, 2).is_none() { break; }
            let q = unsafe { (api.registers_mut)(p.c, std::ptr::null()) };
            if s > 0 && q != at { w.fail(format!("life:{}:moved", api.name), || "the registers moved".into()); }
            at = q;
        }
        p.r = M68000::new_no_reset();
        unsafe { (api.delete)(p.c) };
        (p.tc.bus, p.tr.bus) = (bus.clone(), bus.clone());
        let after = live();
        p.c = old;
        if after != before { w.fail(format!("life:{}:leak", api.name), || format!("{} bytes live after deleting a core of {size} bytes", after - before)); }
        w.state(i | 1 << 52);
    });
}

#[cfg(not(header_broken))]
fn c14(ctx: &Ctx) {
    ctx.assume("the C side is compiled by gcc against include/m68000 for this host; other C ABIs are not explored");
    ctx.assume("C calls whose Rust counterpart panics are skipped (the process would end); the panics themselves belong to C07");
    steps::<Mc>(ctx, &c::MC);
    steps::<Scc>(ctx, &c::SCC);
    faults::<Mc>(ctx, &c::MC);
    faults::<Scc>(ctx, &c::SCC);
    buffers::<Mc>(ctx, &c::MC);
    buffers::<Scc>(ctx, &c::SCC);
    runs::<Mc>(ctx, &c::MC);
    runs::<Scc>(ctx, &c::SCC);
    exceptions::<Mc>(ctx, &c::MC);
    exceptions::<Scc>(ctx, &c::SCC);
    fetches::<Mc>(ctx, &c::MC);
    values::<Mc>(ctx, &c::MC);
    fetches::<Scc>(ctx, &c::SCC);
    values::<Scc>(ctx, &c::SCC);
    registers::<Mc>(ctx, &c::MC);
    registers::<Scc>(ctx, &c::SCC);
}

#[cfg(header_broken)]
fn c14(ctx: &Ctx) {
    ctx.space("header", 1, |_, w| w.fail("header", || "a C program that uses every function of the interface does not compile against include/m68000".into()));
}

fn main() {
    // Keep the exported symbols.
    std::hint::black_box(m68000_ffi::mc68000::m68000_mc68000_new as *const ());
    std::hint::black_box(m68000_ffi::scc68070::m68000_scc68070_new as *const ());
    engine::main(&[("C14", c14)]);
}
