//! C29: processor models of the application's own. Every opcode, every exception, histories and the run loops on models
//! whose times are unlike those of the provided ones (all different, far above 32 bits, or all zero), with both stack
//! formats, a model that carries data, and one that refuses to be asked for the time of what does not happen.

use mc::bus::{handler, Bus};
use mc::decode::*;
use mc::drive::*;
use mc::engine::{self, guard, Ctx, W};
use mc::exec::{self, St};

const NOP: u16 = 0x4E71;
const RTE: u16 = 0x4E73;
const SSP: u32 = 0x000B_0000;
use mc::times::{Cpu, K};
use m68000::cpu_details::{CpuDetails, StackFormat};
use m68000::exception::Exception;
use m68000::M68000;
use std::cell::Cell;

const N: usize = 236;
/// All different, a third of them above 32 bits, all above 16.
const fn wide(k: usize) -> usize { 70_001 + (k * 7919) % 65_537 + if k % 3 == 0 { 1 << 33 } else { 0 } + ((k * 31) % 236 << 20) }
fn wide_vector(v: u8) -> u64 { (1 << 41) + 1_000_003 * v as u64 }
/// All different and small, in another order.
const fn small(k: usize) -> usize { 3 + (k * 89) % 239 }
fn small_vector(v: u8) -> u64 { 300 + (v as u64 * 7) % 257 }
const fn zero(_: usize) -> usize { 0 }
fn zero_vector(_: u8) -> u64 { 0 }

thread_local! {
    /// The vectors whose times were asked for.
    static ASKED: Cell<(u32, u8)> = const { Cell::new((0, 0)) };
}

macro_rules! consts {
    (wide: $($n:ident),*) => { $(const $n: usize = wide(K::$n as usize);)* };
    (small: $($n:ident),*) => { $(const $n: usize = small(K::$n as usize);)* };
    (zero: $($n:ident),*) => { $(const $n: usize = zero(K::$n as usize);)* };
}
macro_rules! wides { ($($n:ident),*) => { consts! { wide: $($n),* } } }
macro_rules! smalls { ($($n:ident),*) => { consts! { small: $($n),* } } }
macro_rules! zeros { ($($n:ident),*) => { consts! { zero: $($n),* } } }
macro_rules! table {
    ($f:ident) => {{ let mut t = [0; N]; let mut i = 0; while i < N { t[i] = $f(i) as u64; i += 1; } t }};
}
macro_rules! model {
    ($name:ident, $cpu:ident, $tab:ident, $text:literal, $format:ident, $scc:literal, $reset:expr, $f:ident, $v:ident, $mac:ident) => {
        impl CpuDetails for $name {
            const STACK_FORMAT: StackFormat = StackFormat::$format;
            const VECTOR_RESET: usize = $reset;
            fn vector_execution_time(vector: u8) -> usize {
                ASKED.with(|a| a.set((a.get().0 + 1, vector)));
                $v(vector) as usize
            }
            mc::for_all_times! { $mac }
        }
        static $tab: [u64; N] = table!($f);
        static $cpu: Cpu = Cpu { name: $text, scc: $scc, t: &$tab, reset: $reset, vector: $v };
        impl Model for $name { const CPU: &'static Cpu = &$cpu; }
    };
}

/// MC68000 frames, times above 32 bits.
#[derive(Clone, Debug, Default)]
struct Wide;
model! { Wide, WIDE, WIDE_T, "wide", MC68000, false, (1 << 40) + 7, wide, wide_vector, wides }

/// SCC68070 frames, other times, and data of its own.
#[derive(Clone, Debug)]
struct Carry { data: Vec<u64>, more: [u8; 77] }
impl Default for Carry { fn default() -> Carry { Carry { data: vec![0x0123_4567_89AB_CDEF; 9], more: [0x5A; 77] } } }
impl Drop for Carry { fn drop(&mut self) { if self.data != [0x0123_4567_89AB_CDEF; 9] || self.more != [0x5A; 77] { engine::die("the data of the processor model changed"); } } }
model! { Carry, CARRY, CARRY_T, "carry", SCC68070, true, 999_983, small, small_vector, smalls }

/// No time at all.
#[derive(Clone, Debug, Default)]
struct Zero;
model! { Zero, ZERO, ZERO_T, "zero", MC68000, false, 0, zero, zero_vector, zeros }

/// SCC68070 frames with wide times.
#[derive(Clone, Debug, Default)]
struct WideScc;
model! { WideScc, WIDE_SCC, WIDE_SCC_T, "wide-scc", SCC68070, true, (1 << 42) + 9, wide, wide_vector, wides }

fn request<C: Model>(c: &mut M68000<C>, v: u8) { c.exception(Exception::from(v)); }

const HOWS: [How; 4] = [How::Report, How::Auto, How::DisReport, How::DisAuto];

fn one<C: Model>(w: &mut W, tag: &str, st: &St, bus: &mut Bus, sc: &mut Scratch, how: How) {
    let keep = bus.clone();
    let mut core = load::<C>(st);
    let mut s = *st;
    let _ = advance::<C>(w, &format!("C29:{}:{tag}", C::CPU.name), &mut core, &mut s, bus, sc, FULL, how);
    *bus = keep;
}

fn all(w: &mut W, tag: &str, st: &St, bus: &mut Bus, sc: &mut Scratch, n: u64) {
    one::<Wide>(w, tag, st, bus, sc, HOWS[(n % 4) as usize]);
    one::<Carry>(w, tag, st, bus, sc, HOWS[(n / 2 % 4) as usize]);
    one::<Zero>(w, tag, st, bus, sc, HOWS[(n / 3 % 4) as usize]);
    one::<WideScc>(w, tag, st, bus, sc, HOWS[(n / 5 % 4) as usize]);
}

#[derive(Clone, Copy, Debug)]
enum Act { I(&'static [u16]), R(u8) }

fn acts() -> Vec<Act> {
    use Act::*;
    vec![
        I(&[NOP]), I(&[0x5279, 0x0003, 0x0000]), I(&[0xD098]), I(&[0x4E41]), I(&[RTE]), I(&[0x46FC, 0x2300]), I(&[0x46FC, 0x8000]), I(&[0x4E72, 0x2000]), I(&[0x4AFC]), I(&[0x3039, 0x0000, 0x4001]),
        I(&[0xE3B0]), I(&[0x48E7, 0xC0C0]), I(&[0x4CDF, 0x0303]), I(&[0x51C8, 0x0004]), I(&[0x4E70]), R(25), R(31), R(58), R(64), R(9), R(0), R(2), R(3),
    ]
}

fn explore<C: Model>(w: &mut W, core: &M68000<C>, st: &St, bus: &Bus, sc: &mut Scratch, acts: &[Act], depth: u32, path: u64) {
    for (n, a) in acts.iter().enumerate() {
        let (mut c, mut s, mut b) = (core.clone(), *st, bus.clone());
        match a {
            Act::I(ws) => for (j, x) in ws.iter().enumerate() { poke(&mut b, s.pc.wrapping_add(2 * j as u32), *x); },
            Act::R(v) => { request(&mut c, *v); exec::request(&mut s, *v); }
        }
        let path = path * 64 + n as u64;
        let how = HOWS[(path % 7 % 4) as usize];
        let Some(o) = advance::<C>(w, &format!("C29:{}:history", C::CPU.name), &mut c, &mut s, &mut b, sc, FULL, how) else { continue };
        if matches!(how, How::Report | How::DisReport) { if let Some(v) = o.vec { request(&mut c, v); exec::request(&mut s, v); } }
        if s.ssp & 1 != 0 || s.pc & 1 != 0 { continue; }
        if depth > 1 { explore(w, &c, &s, &b, sc, acts, depth - 1, path); }
    }
}

fn poke(bus: &mut Bus, a: u32, v: u16) {
    for (a, v) in [(a, (v >> 8) as u8), (a.wrapping_add(1), v as u8)] {
        match bus.preset.iter_mut().rev().find(|e| e.0 == a) {
            Some(e) => e.1 = v,
            None => bus.preset.push((a, v)),
        }
    }
}

fn start(seed: u32, sr: u16) -> (St, Bus) {
    let mut bus = Bus::new(seed);
    bus.nops = true;
    let mut st = regfile(0, 0);
    st.sr = sr;
    st.d[0] = 0x0000_0103;
    st.ssp = SSP;
    st.usp = 0x000A_0000;
    for v in [9u8, 25, 31, 33] { poke(&mut bus, handler(v), RTE); }
    (st, bus)
}

fn history<C: Model>(w: &mut W, i: u64, acts: &[Act], depth: u32, seed: u32) {
    let n = acts.len() as u64;
    let (st, mut bus) = start(seed, [0x2000u16, 0x0000, 0xA715][(i / n % 3) as usize]);
    let mut sc = Scratch::default();
    let (mut core, mut s) = (load::<C>(&st), st);
    match acts[(i % n) as usize] {
        Act::I(ws) => for (j, x) in ws.iter().enumerate() { poke(&mut bus, s.pc.wrapping_add(2 * j as u32), *x); },
        Act::R(v) => { request(&mut core, v); exec::request(&mut s, v); }
    }
    if advance::<C>(w, &format!("C29:{}:history", C::CPU.name), &mut core, &mut s, &mut bus, &mut sc, FULL, How::Auto).is_none() { return; }
    if s.ssp & 1 != 0 || s.pc & 1 != 0 { return; }
    explore(w, &core, &s, &bus, &mut sc, acts, depth, i);
}

/// The totals and end states of the run loops, from the model's steps alone.
fn loops<C: Model>(w: &mut W, st: &St, bus: &Bus, hist: &dyn Fn() -> String) {
    // The steps one after the other, exceptions requested.
    let steps = |auto: bool| {
        let (mut s, mut b, mut r) = (*st, bus.clone(), Vec::new());
        for _ in 0..40 {
            let before = s.stop;
            let o = exec::step(&mut s, &mut b, C::CPU);
            if o.undefined || o.ext_fault || o.trap_ea != 0 { return None; }
            fold(&mut b);
            if auto { if let Some(v) = o.vec { exec::request(&mut s, v); } }
            r.push((o.cyc as usize, o.vec, s));
            if s.stop || before || !auto && o.vec.is_some() { return Some(r); }
        }
        None
    };
    let name = C::CPU.name;
    let end = |c: &M68000<C>, s: &St| { let v = view(c); (v.d, v.a, v.usp, v.ssp, v.sr & exec::SR_BITS, v.pc, v.stop) == (s.d, s.a, s.usp, s.ssp, s.sr & exec::SR_BITS, s.pc, s.stop) };
    if let Some(r) = steps(true) {
        let mut sums = vec![0usize];
        for x in &r { sums.push(sums.last().unwrap() + x.0); }
        let mut budgets: Vec<usize> = sums.iter().flat_map(|x| [x.saturating_sub(1), *x, x + 1]).collect();
        budgets.extend([1, 255, 65_536, 1 << 32, (1 << 32) + 1, 1 << 45, usize::MAX]);
        budgets.sort_unstable();
        budgets.dedup();
        for n in budgets {
            w.transition();
            w.trace();
            let k = sums.iter().position(|x| *x >= n).unwrap_or(r.len());
            let want = if k == r.len() && r[k - 1].2.stop { sums[k].max(n) } else { sums[k] };
            let (mut c, mut b) = (load::<C>(st), bus.clone());
            b.fuse = 20_000;
            let got = guard(|| c.cycle(&mut b, n));
            w.digest(|| got.clone().unwrap_or(usize::MAX) as u64);
            w.outcome(want as u64);
            let s = if k == 0 { st } else { &r[k - 1].2 };
            if got != Ok(want) || !end(&c, s) { w.fail(format!("C29:{name}:cycle"), || format!("cycle({n}) gives {got:?}, by the times of the model {want}; {} instead of {}; {}", show_state(&view(&c)), show_state(s), hist())); return; }
        }
    }
    if let Some(r) = steps(false) {
        let total: usize = r.iter().map(|x| x.0).sum();
        let last = r.last().unwrap();
        for n in [Some(total + 1), Some(1 << 46), Some(usize::MAX), None] {
            w.transition();
            w.trace();
            let (mut c, mut b) = (load::<C>(st), bus.clone());
            b.fuse = 20_000;
            let got = guard(|| match n { Some(n) => c.cycle_until_exception(&mut b, n), None => c.loop_until_exception_stop(&mut b) });
            w.digest(|| got.clone().map_or(1, |x| x.0 as u64 * 512 + x.1.map_or(0, |v| 256 + v as u64)));
            if got != Ok((total, last.1)) || !end(&c, &last.2) { w.fail(format!("C29:{name}:until-exception"), || format!("{n:?} gives {got:?}, by the times of the model {total} and {:?}; {} instead of {}; {}", last.1, show_state(&view(&c)), show_state(&last.2), hist())); return; }
        }
    }
}

fn c29(c: &Ctx) {
    let seed = c.seed as u32;
    c.assume("four models of an application stand for all of them: times all different and above 32 bits, all different and small, all zero; both stack formats; with and without data of their own");
    c.space("C29.opcodes", ALL_OPS, |i, w| {
        let op = i as u16;
        let f = classify(op);
        let (mut st, mut bus, mut words, mut sc) = (St::new(), Bus::new(seed), Vec::new(), Scratch::default());
        let ne = if ext_words(&f) == 0 { 1 } else { pick(w, 6, 20) };
        let mut n = i;
        for k in 0..pick(w, 4, 11) {
            for e in 0..ne {
                for (p, sr) in [(0, 0x2700u16), (1, 0x001F), (2, 0xA715), (3, 0x8008)] {
                    case(&mut st, &mut bus, &mut words, op, e, k, p, seed, sr);
                    n += 1;
                    all(w, "opcode", &st, &mut bus, &mut sc, n);
                    // An operand that is not there, and one at an odd address.
                    if p == 1 && e == 0 {
                        bus.holes.push((0x0002_0000, 0x0001_0000));
                        all(w, "refused", &st, &mut bus, &mut sc, n);
                        bus.holes.clear();
                        for a in st.a.iter_mut() { *a |= 1; }
                        all(w, "odd", &st, &mut bus, &mut sc, n);
                    }
                }
            }
        }
        if op % 9973 == 1 { w.sample(|| format!("opcode {op:04X} {:?} on four models, times and effects", f.mn)); }
    });
    c.space("C29.exceptions", 65536, |i, w| {
        let (a, b) = ((i >> 8) as u8, i as u8);
        if a > b || a == 1 || b == 1 { return; }
        let mut sc = Scratch::default();
        for (n, sr) in [0x2000u16, 0x8015, 0x2700, 0xA300].into_iter().enumerate() {
            let (mut st, mut bus) = start(seed, sr);
            bus.put32(0, 0x7000);
            bus.put32(4, 0x9000);
            for v in [a, b] { exec::request(&mut st, v); }
            all(w, "exceptions", &st, &mut bus, &mut sc, i + n as u64);
            // The time of a vector is asked for when it is processed.
            if a == b && a != 0 {
                w.transition();
                let mut core = load::<Wide>(&st);
                ASKED.with(|x| x.set((0, 0)));
                bus.fuse = 4000;
                let _ = guard(|| core.interpreter_exception(&mut bus));
                let (k, v) = ASKED.with(|x| x.get());
                let masked = !st.pend.is_empty() && { let mut m = st; exec::step(&mut m, &mut bus, Wide::CPU).processed == 0 };
                if k > 0 && (masked || v != a) { w.fail("C29:wide:time-asked", || format!("vector {a} with SR {sr:04x}: the time of vector {v} is asked for")); }
            }
        }
    });
    let acts = acts();
    let n = acts.len() as u64;
    let depth = c.by(3u32, 4);
    c.space("C29.histories.wide", n * 3, |i, w| history::<Wide>(w, i, &acts, depth, seed));
    c.space("C29.histories.carry", n * 3, |i, w| history::<Carry>(w, i, &acts, depth, seed));
    c.space("C29.histories.zero", n * 3, |i, w| history::<Zero>(w, i, &acts, depth, seed));
    c.space("C29.histories.wide-scc", n * 3, |i, w| history::<WideScc>(w, i, &acts, depth, seed));
    let ins: [&[u16]; 12] = [&[NOP], &[0x5240], &[0x2010], &[0x2080], &[0x4E41], &[0x4E72, 0x2000], &[0x4AFC], &[0x46FC, 0xA000], &[0x46FC, 0x0000], &[0x51C9, 0xFFFE], &[0xE3A8], &[0x48E7, 0xC0C0]];
    let ni = ins.len() as u64;
    let len = c.by(4u32, 5);
    c.space("C29.run-loops", ni.pow(len) * 2, |i, w| {
        let (mut st, mut bus) = start(seed, if i & 1 == 0 { 0x2000 } else { 0x2300 });
        st.d[1] = 3;
        let (mut x, mut at) = (i / 2, PC);
        for _ in 0..len {
            for q in ins[(x % ni) as usize] { poke(&mut bus, at, *q); at += 2; }
            x /= ni;
        }
        for q in [0x4E72u16, 0x2700] { poke(&mut bus, at, q); at += 2; }
        for v in [4u8, 8, 9, 33] { poke(&mut bus, handler(v), 0x5287); poke(&mut bus, handler(v) + 2, if v == 9 || v == 33 { RTE } else { 0x4E72 }); poke(&mut bus, handler(v) + 4, 0x2000); }
        w.state(i);
        for pend in [None, Some(28u8), Some(0)] {
            let mut s = st;
            if let Some(v) = pend { exec::request(&mut s, v); }
            if pend == Some(0) { for (k, q) in [0x0001u16, 0x0000, (PC >> 16) as u16, PC as u16].into_iter().enumerate() { poke(&mut bus, 2 * k as u32, q); } }
            let hist = || format!("program {i} pending {pend:?}");
            loops::<Wide>(w, &s, &bus, &hist);
            loops::<Carry>(w, &s, &bus, &hist);
            loops::<Zero>(w, &s, &bus, &hist);
            loops::<WideScc>(w, &s, &bus, &hist);
        }
        if i % 997 == 5 { w.sample(|| format!("program {i}: budgets around every partial sum of the times, four models")); }
    });
}

fn main() { engine::main(&[("C29", c29)]) }
