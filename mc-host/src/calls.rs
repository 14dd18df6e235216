//! C28: every history of calls of the C interface up to a depth, as a C program could make them: every buffer is as long
//! as the call says, the pointers that stay valid are kept and used, and everything is given back at the end.

use super::*;

/// Counts what is allocated and not given back, and checks the layouts.
#[cfg(not(miri))]
mod count {
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::Relaxed};
    pub static LIVE: AtomicI64 = AtomicI64::new(0);
    pub static BAD: AtomicU64 = AtomicU64::new(0);
    struct Counting;
    #[global_allocator]
    static A: Counting = Counting;
    const PAD: usize = 16;
    /// In front of each allocation: its size and a mark; behind it: a mark.
    unsafe fn head(p: *mut u8) -> *mut u64 { p.sub(PAD) as *mut u64 }
    const ALIVE: u64 = 0x5AFE_A11C_0000_0000;
    unsafe impl GlobalAlloc for Counting {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            if l.align() > PAD { return System.alloc(l); }
            let p = System.alloc(Layout::from_size_align_unchecked(l.size() + 2 * PAD, PAD));
            if p.is_null() { return p; }
            let p = p.add(PAD);
            *head(p) = l.size() as u64;
            *head(p).add(1) = ALIVE | l.align() as u64;
            for i in 0..PAD { *p.add(l.size() + i) = 0xC5; }
            LIVE.fetch_add(l.size() as i64 + 1, Relaxed);
            p
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            if l.align() > PAD { return System.dealloc(p, l); }
            let good = *head(p) == l.size() as u64 && *head(p).add(1) == ALIVE | l.align() as u64 && (0..PAD).all(|i| *p.add(l.size() + i) == 0xC5);
            if !good {
                // Freed twice, freed as something else, or written beyond: leave it alone.
                BAD.fetch_add(1, Relaxed);
                return;
            }
            *head(p).add(1) = 0xDEAD;
            LIVE.fetch_sub(l.size() as i64 + 1, Relaxed);
            for i in 0..l.size() { *p.add(i) = 0xDD; }
            System.dealloc(p.sub(PAD), Layout::from_size_align_unchecked(l.size() + 2 * PAD, PAD));
        }
    }
    pub fn live() -> i64 { LIVE.load(Relaxed) }
    pub fn bad() -> u64 { BAD.load(Relaxed) }
}
/// Miri checks this by itself.
#[cfg(miri)]
mod count {
    pub fn live() -> i64 { 0 }
    pub fn bad() -> u64 { 0 }
}

/// A buffer of the C program.
struct Buffer(*mut u8, usize);
impl Buffer {
    fn new(n: usize) -> Buffer {
        let p = if n == 0 { std::ptr::null_mut() } else { Box::into_raw(vec![0xEEu8; n].into_boxed_slice()) as *mut u8 };
        Buffer(p, n)
    }
    /// What it holds as a C string, then gives it back.
    fn take(self, h: &mut H) {
        if self.1 == 0 { return; }
        let b = unsafe { Box::from_raw(std::ptr::slice_from_raw_parts_mut(self.0, self.1)) };
        h.bytes(&b);
    }
}

/// LINK A3,#-8; MOVE.W (A0)+,D0; TRAP #3; RESET; CLR.L (A1) (refused or not); ILLEGAL; MOVEM.L D0-A6,-(A7); STOP #$2700.
const PROGRAM: &[u16] = &[0x4E53, 0xFFF8, 0x3018, 0x4E43, 0x4E70, 0x4291, 0x4AFC, 0x48E7, 0xFFFE, 0x4E72, 0x2700, 0x4E72, 0x2000];

const VECTORS: [Vector; 8] = [Vector::ResetSspPc, Vector::AccessError, Vector::AddressError, Vector::Trace, Vector::Level7Interrupt, Vector::Trap3Instruction,
    Vector::IllegalInstruction, Vector::PrivilegeViolation];
const LENS: [usize; 6] = [0, 1, 2, 7, 12, 80];

/// The number of actions.
pub const ACTIONS: usize = 40;

struct History<C: Cpu> { core: *mut M68000<C>, mem: *mut Mem, cb: *mut m68000_callbacks_t, regs: *const Registers, regs_mut: *mut Registers, other: *mut M68000<C>, h: H }

impl<C: Cpu> History<C> {
    fn new(reset: bool) -> Self {
        let mem = Box::into_raw(Box::new(Mem::code(PROGRAM)));
        let cb = Box::into_raw(Box::new(c::callbacks(mem)));
        let mut s = History { core: if reset { C::NEW() } else { C::NEW_NO_RESET() }, mem, cb, regs: std::ptr::null(), regs_mut: std::ptr::null_mut(), other: std::ptr::null_mut(), h: H::new() };
        s.point();
        s
    }
    fn point(&mut self) {
        unsafe {
            self.regs = C::REGS(self.core);
            self.regs_mut = C::REGS_MUT(self.core);
            (*self.regs_mut).pc = Wrapping(CODE);
            (*self.regs_mut).ssp = Wrapping(0x9000);
            (*self.regs_mut).usp = Wrapping(0xA000);
            (*self.regs_mut).a[0] = Wrapping(0x8000);
            (*self.regs_mut).a[1] = Wrapping(0xFF_0000);
        }
    }
    fn act(&mut self, a: usize) {
        let (c, cb) = (self.core, self.cb);
        unsafe {
            match a {
                0..=2 => self.h.add(C::CYCLE(c, cb, [0, 1, 40][a]) as u64),
                3..=5 => { let r = C::CYCLE_UNTIL(c, cb, [0, 1, 40][a - 3]); self.h.add((r.cycles as u64) << 8 | r.exception as u64) }
                6 => { let r = C::LOOP(c, cb); self.h.add((r.cycles as u64) << 8 | r.exception as u64) }
                7 => self.h.add(C::STEP(c, cb) as u64),
                8 => { let r = C::STEP_EXC(c, cb); self.h.add((r.cycles as u64) << 8 | r.exception as u64); for v in VECTORS { if r.exception != 0 && v as u8 == r.exception { C::EXCEPTION(c, v) } } }
                9..=14 => {
                    let b = Buffer::new(LENS[a - 9]);
                    let r = C::DIS(c, cb, b.0 as *mut c_char, b.1);
                    self.h.add((r.cycles as u64) << 32 | r.pc as u64);
                    b.take(&mut self.h);
                }
                15..=20 => {
                    let b = Buffer::new(LENS[a - 15]);
                    let r = C::DIS_EXC(c, cb, b.0 as *mut c_char, b.1);
                    self.h.add((r.cycles as u64) << 40 | (r.exception as u64) << 32 | r.pc as u64);
                    b.take(&mut self.h);
                }
                21..=25 => C::EXCEPTION(c, VECTORS[a - 21]),
                26 => self.h.add(C::CYCLE(c, cb, 200) as u64),
                27 => { let r = C::WORD(c, cb); self.h.add((r.exception as u64) << 32 | r.data as u64) }
                28 => { let r = C::LONG(c, cb); self.h.add((r.exception as u64) << 32 | r.data as u64) }
                29 => { let r = C::PEEK(c, cb); self.h.add((r.exception as u64) << 32 | r.data as u64) }
                // The pointers obtained at the start.
                30 => self.h.regs(&*self.regs),
                31 => (*self.regs_mut).pc = Wrapping(CODE + 1),
                32 => (*self.regs_mut).pc = Wrapping(0xFF_0000),
                33 => { (*self.regs_mut).sr = 0x001F.into(); (*self.regs_mut).d[7] = Wrapping(0xFFFF_FFFF); }
                34 => { let r = C::GET_REGS(c); C::SET_REGS(c, r); self.h.regs(&r) }
                35 => (*self.mem).over.truncate((*self.mem).code),
                // Another core comes and goes.
                36 => if self.other.is_null() { self.other = C::NEW() } else { C::DELETE(self.other); self.other = std::ptr::null_mut() },
                37 => if !self.other.is_null() { std::mem::swap(&mut self.core, &mut self.other); self.point() },
                38 => { C::DELETE(c); self.core = C::NEW(); self.point() }
                _ => { C::DELETE(c); self.core = C::NEW_NO_RESET(); self.point() }
            }
        }
    }
    fn end(mut self) -> u64 {
        unsafe {
            self.h.regs(&*self.regs);
            C::DELETE(self.core);
            if !self.other.is_null() { C::DELETE(self.other) }
            drop(Box::from_raw(self.cb));
            let m = Box::from_raw(self.mem);
            m.hash(&mut self.h);
        }
        self.h.0
    }
}

fn history<C: Cpu>(reset: bool, acts: &[usize]) -> u64 {
    let mut s = History::<C>::new(reset);
    for a in acts { s.act(*a); }
    s.end()
}

/// The actions of the smaller alphabet.
const SOME: [usize; 14] = [2, 5, 6, 7, 8, 11, 18, 21, 25, 28, 30, 33, 36, 38];

pub fn calls(which: &str, depth: u32, part: usize, parts: usize) {
    let all: Vec<usize> = (0..ACTIONS).collect();
    let alphabet: &[usize] = if which == "some" { &SOME } else { &all };
    let quiet = which == "quiet";
    let n = alphabet.len().pow(depth);
    let mut acts = Vec::new();
    let mut sum = H::new();
    for i in (part..n * 4).step_by(parts) {
        acts.clear();
        let mut k = i / 4;
        for _ in 0..depth { acts.push(alphabet[k % alphabet.len()]); k /= alphabet.len(); }
        let name = || format!("{}.{}:{}", ["mc68000", "scc68070"][i & 1], ["new", "new_no_reset"][i >> 1 & 1], acts.iter().map(|a| a.to_string()).collect::<Vec<_>>().join(","));
        if !quiet { println!("? {}", name()); }
        let once = || {
            let (live, bad) = (count::live(), count::bad());
            let h = match i & 1 { 0 => history::<cpu_details::Mc68000>(i & 2 == 0, &acts), _ => history::<cpu_details::Scc68070>(i & 2 == 0, &acts) };
            (h, count::live() - live, count::bad() - bad)
        };
        let (h, lost, bad) = once();
        if bad != 0 { println!("BAD {}: memory is given back twice or as something else, or written beyond its end", name()); }
        // Something made once and kept is no leak: again.
        if lost != 0 {
            let lost = once().1;
            if lost > 0 { println!("BAD {}: {lost} bytes are not given back", name()); }
        }
        sum.add(h);
        if !quiet { println!("{} {h:016X}", name()); }
    }
    println!("sum {:016X}", sum.0);
}
