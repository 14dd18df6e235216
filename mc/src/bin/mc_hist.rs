//! Histories of steps and exception requests: C09 (pending exceptions), C10 (frames and returns), C11 (STOP and run
//! loops), C17 (trace), C19 (whole-machine histories).

use mc::bus::{handler, Bus, RESET_SSP};
use mc::decode::*;
use mc::drive::*;
use mc::engine::{self, guard, Ctx, H, W};
use mc::exec::{self, St};
use mc::times;
use m68000::exception::Exception;
use m68000::M68000;

const NOP: u16 = 0x4E71;
const RTE: u16 = 0x4E73;
const SSP: u32 = 0x000B_0000;

fn request<C: Model>(c: &mut M68000<C>, v: u8) { c.exception(Exception::from(v)); }

/// Overwrites initial memory without growing the overlay.
fn poke(bus: &mut Bus, a: u32, v: u16) {
    for (a, v) in [(a, (v >> 8) as u8), (a.wrapping_add(1), v as u8)] {
        match bus.preset.iter_mut().find(|e| e.0 == a) {
            Some(e) => e.1 = v,
            None => bus.preset.push((a, v)),
        }
    }
}

// ---------------------------------------------------------------------------------------------------------------
// C09

/// Rank of an exception in the architecture's priority order, where it defines one.
fn before(a: u8, b: u8) -> Option<bool> {
    // Whether a must be processed before b (its handler runs after b's).
    let group = |v: u8| match v { 3 => Some(5), 2 => Some(4), 9 => Some(3), 24..=31 | 57..=255 => Some(2), 4 | 8 => Some(1), 5 | 6 | 7 | 32..=47 => Some(0), _ => None };
    let (ga, gb) = (group(a)?, group(b)?);
    if ga != gb { return Some(ga < gb); }
    let (la, lb) = (exec::level(a)?, exec::level(b)?);
    if la != lb { Some(la < lb) } else { None }
}

/// The exceptions processed since the stack pointer was `ssp`, the program counter `pc` and the status register `sr`,
/// read back from the frames: oldest first. The processor has since executed one NOP of the last handler.
fn chain(g: &St, bus: &Bus, scc: bool, pc: u32, sr: u16, ssp: u32) -> Result<Vec<u8>, String> {
    let mut l = Vec::new();
    let mut at = g.pc.wrapping_sub(2);
    let mut sp = g.ssp;
    let mut srs = Vec::new();
    while at != pc {
        let o = at.wrapping_sub(handler(0));
        if o & 0x3F != 0 || o >> 6 > 255 { return Err(format!("{at:x} is neither the interrupted program nor a handler")); }
        if l.len() > 256 { return Err("too many frames".into()); }
        let v = (o >> 6) as u8;
        let long = v == 2 || v == 3;
        let base = if !scc && long { sp.wrapping_add(8) } else { sp };
        srs.push(bus.peek16(base));
        at = bus.peek32(base.wrapping_add(2));
        if scc {
            let f = bus.peek16(base.wrapping_add(6));
            let want = if long { 0xF000 } else { 0 } | v as u16 * 4;
            if f != want { return Err(format!("format word {f:04x} of vector {v}")); }
        }
        sp = sp.wrapping_add(match (scc, long) { (false, false) => 6, (false, true) => 14, (true, false) => 8, (true, true) => 34 });
        l.push(v);
    }
    if sp != ssp { return Err(format!("stack {sp:x} instead of {ssp:x} below the frames")); }
    l.reverse();
    srs.reverse();
    let mut cur = sr;
    for (v, s) in l.iter().zip(srs) {
        if s != cur { return Err(format!("frame of vector {v} holds status register {s:04x} instead of {cur:04x}")); }
        cur = cur & !0x8000 | 0x2000;
        if let Some(n) = exec::level(*v) { cur = cur & !0x0700 | (n as u16) << 8; }
    }
    if g.sr != cur { return Err(format!("status register {:04x} instead of {cur:04x}", g.sr)); }
    Ok(l)
}

/// One step of a machine whose memory is all NOPs, with `pend` requested and not yet processed.
fn step09<C: Model>(w: &mut W, core: &mut M68000<C>, bus: &mut Bus, pend: &mut Vec<u8>, hist: &dyn Fn() -> String) -> bool {
    let scc = C::CPU.scc;
    let b = view(core);
    w.transition();
    w.trace();
    let r = guard(|| core.interpreter_exception(bus));
    let g = view(core);
    if let Err(e) = r { w.fail("C09:panic", || format!("{e}; {}", hist())); return false; }
    // With tracing on and nothing to process, the NOP itself is traced.
    let quiet = b.sr & exec::T != 0 && g.ssp == b.ssp;
    if r.as_ref().is_ok_and(|r| r.1 != if quiet { Some(9) } else { None }) { w.fail("C09:vector", || format!("NOP reported {r:?}; {}", hist())); return false; }
    w.outcome((g.pc as u64) << 32 | g.ssp as u64 ^ (g.sr as u64) << 16);
    if pend.contains(&0) {
        pend.clear();
        if g.ssp != RESET_SSP || g.pc != handler(1) + 2 || g.sr & 0xA700 != 0x2700 || !bus.w.is_empty() || g.stop {
            w.fail("C09:reset", || format!("after a reset: {}; {}", show_state(&g), hist()));
            return false;
        }
        return true;
    }
    let mask = b.mask();
    let (mut ready, rest): (Vec<u8>, Vec<u8>) = pend.iter().partition(|v| match exec::level(**v) { Some(l) => l == 7 || l > mask, None => true });
    let got = match chain(&g, bus, scc, b.pc, b.sr, b.ssp) {
        Ok(l) => l,
        Err(e) => { w.fail("C09:frames", || format!("{e}; {}; {}", show_state(&g), hist())); return false; }
    };
    fold(bus);
    let mut s = got.clone();
    s.sort_unstable();
    ready.sort_unstable();
    if s != ready { w.fail("C09:processed-set", || format!("ready {ready:?}, processed {got:?}; {}", hist())); return false; }
    for i in 0..got.len() {
        for j in i + 1..got.len() {
            if before(got[j], got[i]) == Some(true) { w.fail("C09:order", || format!("vector {} processed before {}: {got:?}; {}", got[i], got[j], hist())); return false; }
        }
    }
    *pend = rest;
    true
}

fn fresh<C: Model>(mask: u16, bus: &mut Bus, sr: u16) -> M68000<C> {
    bus.clear();
    bus.nops = true;
    let mut st = St::new();
    st.ssp = SSP;
    st.usp = 0x000A_0000;
    st.pc = PC;
    st.sr = sr | mask << 8;
    load::<C>(&st)
}

fn pending<C: Model>(w: &mut W, reqs: &[u8], mask: u16, bus: &mut Bus, sr: u16) {
    let mut core = fresh::<C>(mask, bus, sr);
    let hist = || format!("{} mask {mask} sr {sr:04x} requests {reqs:?}", C::CPU.name);
    let mut h = H::new();
    for v in reqs { h.add(*v as u64); }
    h.add(mask as u64 | (sr as u64) << 8 | (C::CPU.scc as u64) << 32);
    w.state(h.get());
    let b = view(&core);
    for v in reqs { request(&mut core, *v); }
    if view(&core) != b { w.fail("C09:request", || format!("requesting changed the state: {}", hist())); }
    let mut pend = reqs.to_vec();
    if !step09(w, &mut core, bus, &mut pend, &hist) { return; }
    if !step09(w, &mut core, bus, &mut pend, &hist) { return; }
    // The mask is lowered a level at a time: each interrupt is taken as soon as it may be.
    for m in (0..8).rev() {
        if pend.is_empty() { break; }
        core.regs.sr = (u16::from(core.regs.sr) & !0x0700 | m << 8).into();
        if !step09(w, &mut core, bus, &mut pend, &hist) { return; }
    }
    core.regs.sr = (u16::from(core.regs.sr) & !0x0700).into();
    step09(w, &mut core, bus, &mut pend, &hist);
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Fault { Vector, Frame, Odd }

/// `reqs` are pending together and one of them cannot be processed: `bad`, whose vector cannot be read (or whose handler
/// is at an odd address), or the first one, whose frame has no memory.
fn faulting<C: Model>(w: &mut W, reqs: &[u8], bad: u8, place: Fault, mask: u16, bus: &mut Bus) {
    let mut core = fresh::<C>(mask, bus, 0x2000);
    let hist = || format!("{} mask {mask} requests {reqs:?}, {place:?} fault ({bad})", C::CPU.name);
    bus.fuse = 4000;
    match place {
        Fault::Vector => bus.holes.push((bad as u32 * 4, 4)),
        Fault::Frame => bus.holes.push((SSP - 2, 2)),
        Fault::Odd => bus.put32(bad as u32 * 4, handler(bad) + 1),
    }
    bus.rec = true;
    for v in reqs { request(&mut core, *v); }
    let mut h = H::new();
    for v in reqs { h.add(*v as u64); }
    h.add(mask as u64 | (place as u64) << 8 | (bad as u64) << 16 | (C::CPU.scc as u64) << 32);
    w.state(h.get());
    for _ in 0..8 {
        w.transition();
        if let Err(e) = guard(|| core.interpreter(bus)) {
            w.fail("C09:faulting-panic", || format!("{e}; {}", hist()));
            bus.rec = false;
            return;
        }
        core.regs.sr = (u16::from(core.regs.sr) & !0x0700).into();
    }
    w.trace();
    bus.rec = false;
    bus.fuse = u32::MAX;
    let reads = |v: u8| bus.log.iter().filter(|a| !a.write && a.addr == v as u32 * 4).count();
    let own = |v: u8| v == 2 || v == 3 || v == 24;
    let taken: usize = reqs.iter().filter(|v| !own(**v)).map(|v| reads(*v)).sum();
    let want = reqs.iter().filter(|v| !own(**v)).count();
    w.outcome(taken as u64 | (reads(2) as u64) << 8 | (reads(24) as u64) << 16);
    for v in reqs {
        let n = reads(*v);
        let ok = match place {
            Fault::Frame => n <= 1 || own(*v),
            _ => n == 1 || own(*v) && n > 0,
        };
        if !ok { w.fail("C09:faulting", || format!("vector {v} processed {n} times; {}", hist())); return; }
    }
    // Without memory for its frame the first of them does not get as far as its vector.
    if place == Fault::Frame && taken + 1 < want { w.fail("C09:faulting-lost", || format!("{taken} of {want} processed; {}", hist())); }
    // (An odd handler is only fetched from when it is entered last.)
    if place != Fault::Odd && reads(2) + reads(24) == 0 { w.fail("C09:faulting-silent", || format!("the fault itself is not processed; {}", hist())); }
}

fn c09(c: &Ctx) {
    let seed = c.seed as u32;
    c.assume("an exception requested again before it is processed counts once; exceptions whose relative priority the architecture leaves open may be taken in either order");
    c.space("C09.pairs", 65536, |i, w| {
        let (a, b) = ((i >> 8) as u8, i as u8);
        if a == b && a != 0 { return; }
        let mut bus = Bus::new(seed);
        for mask in 0..8 {
            pending::<Mc>(w, &[a, b], mask, &mut bus, if i & 1 == 0 { 0x2000 } else { 0x0015 });
            if b < 64 || b % 16 == 0 { pending::<Scc>(w, &[a, b], mask, &mut bus, 0x2000); }
        }
        if i % 9000 == 25 { w.sample(|| format!("vectors {a} and {b} pending together under every mask")); }
    });
    let reps: &[u8] = &[0, 2, 3, 4, 5, 8, 9, 11, 12, 15, 24, 25, 26, 27, 28, 30, 31, 32, 47, 57, 58, 59, 61, 63, 64, 65, 128, 255];
    let n = reps.len() as u64;
    let k = c.by(3u32, 4);
    c.space("C09.tuples", n.pow(k), |i, w| {
        let mut r = Vec::new();
        let mut x = i;
        for _ in 0..k { let v = reps[(x % n) as usize]; if !r.contains(&v) { r.push(v); } x /= n; }
        if r.len() < k as usize { return; }
        let mut bus = Bus::new(seed);
        for mask in [0, 2, 3, 5, 7] {
            pending::<Mc>(w, &r, mask, &mut bus, 0x2000);
            if mask == 3 { pending::<Scc>(w, &r, mask, &mut bus, 0x8000); }
        }
    });
    // All interrupts of the controller at once, in every rotation.
    c.space("C09.all-interrupts", 8 * 14 * 2, |i, w| {
        let mut bus = Bus::new(seed);
        let mut r: Vec<u8> = (25..=31).chain(57..=63).collect();
        r.rotate_left((i / 16) as usize);
        if i & 8 != 0 { r.reverse(); }
        pending::<Mc>(w, &r, (i & 7) as u16, &mut bus, 0x2000);
        pending::<Scc>(w, &r, (i & 7) as u16, &mut bus, 0x2000);
    });
    // Many at once: every range of vectors, requested upwards, downwards and from the middle.
    let ends = c.by(7u64, 1);
    c.space("C09.ranges", 255 * 255, |i, w| {
        let (a, b) = (i / 255 + 1, i % 255 + 1);
        if a > b || a % ends != 1 % ends && b != 255 && (a != 2 || b % 3 != 0) { return; }
        let mut bus = Bus::new(seed);
        for order in 0..3 {
            let mut r: Vec<u8> = (a..=b).map(|v| v as u8).collect();
            if order == 1 { r.reverse(); }
            if order == 2 { let k = r.len() / 2; r.rotate_left(k); }
            let mask = [7, 0, 4][order as usize];
            pending::<Mc>(w, &r, mask, &mut bus, 0x2000);
            if order == 0 || w.tier() == engine::Tier::Thorough { pending::<Scc>(w, &r, mask, &mut bus, 0x0000); }
        }
    });
    // One of several pending exceptions cannot be processed (its vector or its frame is out of memory): the others still are.
    let some: Vec<u8> = reps.iter().copied().filter(|v| !matches!(v, 0 | 2)).collect();
    let ns = some.len() as u64;
    c.space("C09.faulting", ns * ns * 8, |i, w| {
        let (a, b, mask) = (some[(i % ns) as usize], some[(i / ns % ns) as usize], (i / ns / ns) as u16);
        if a == b { return; }
        let mut bus = Bus::new(seed);
        for third in [None, Some(33u8), Some(30)] {
            if third.is_some_and(|t| t == a || t == b) { continue; }
            let mut r = vec![a, b];
            r.extend(third);
            for order in 0..2 {
                if order == 1 { r.reverse(); }
                for place in [Fault::Vector, Fault::Frame, Fault::Odd] {
                    faulting::<Mc>(w, &r, a, place, mask, &mut bus);
                    faulting::<Scc>(w, &r, a, place, mask, &mut bus);
                }
            }
        }
    });
    // Histories of requests, steps, mask changes and returns.
    #[derive(Clone, Copy, Debug)]
    enum A { Req(u8), Step, Mask(u16) }
    let acts = [A::Req(25), A::Req(27), A::Req(29), A::Req(31), A::Req(59), A::Req(64), A::Req(0), A::Req(9), A::Req(3), A::Req(40), A::Step, A::Mask(0), A::Mask(3), A::Mask(7)];
    let na = acts.len() as u64;
    let depth = c.by(6u32, 7);
    c.space("C09.histories", na.pow(depth), |i, w| {
        let mut bus = Bus::new(seed);
        let mut core = fresh::<Mc>(if i & 1 == 0 { 0 } else { 4 }, &mut bus, 0x2000);
        let hist = || {
            let mut x = i;
            let mut s = Vec::new();
            for _ in 0..depth { s.push(acts[(x % na) as usize]); x /= na; }
            format!("history {s:?}")
        };
        let mut pend: Vec<u8> = Vec::new();
        let mut x = i;
        w.state(i);
        for _ in 0..depth {
            match acts[(x % na) as usize] {
                A::Req(v) => { request(&mut core, v); if !pend.contains(&v) { pend.push(v); } }
                A::Step => if !step09(w, &mut core, &mut bus, &mut pend, &hist) { return; },
                A::Mask(m) => core.regs.sr = (u16::from(core.regs.sr) & !0x0700 | m << 8).into(),
            }
            x /= na;
        }
        // In the end everything requested is taken.
        if !step09(w, &mut core, &mut bus, &mut pend, &hist) { return; }
        core.regs.sr = (u16::from(core.regs.sr) & !0x0700).into();
        if !step09(w, &mut core, &mut bus, &mut pend, &hist) { return; }
        step09(w, &mut core, &mut bus, &mut pend, &hist);
    });
}

// ---------------------------------------------------------------------------------------------------------------
// C10

/// Takes the exception and returns from it at once: everything but the memory below the stack must be restored.
fn round_trip<C: Model>(w: &mut W, v: u8, st: &St, bus: &mut Bus, sc: &mut Scratch) {
    if exec::level(v).is_some_and(|l| l != 7 && l <= st.mask()) { return; }
    let mut core = load::<C>(st);
    let mut s = *st;
    request(&mut core, v);
    exec::request(&mut s, v);
    let long = v == 2 || v == 3;
    if long && !C::CPU.scc {
        // ADDQ.L #8,A7 drops the access information.
        bus.put16(handler(v), 0x508F);
        bus.put16(handler(v) + 2, RTE);
    } else {
        bus.put16(handler(v), RTE);
    }
    let n = if long && !C::CPU.scc { 2 } else { 1 };
    for _ in 0..n {
        if advance::<C>(w, "C10", &mut core, &mut s, bus, sc, NOCYC, How::Report).is_none() { return; }
    }
    let mut e = *st;
    e.ir = 0;
    let g = view(&core);
    if g != e { w.fail(format!("C10:round-trip:{}", if long { "group-0" } else { "short" }), || format!("{} vector {v}: left {} came back as {}", C::CPU.name, show_state(&e), show_state(&g))); }
}

fn nested<C: Model>(w: &mut W, a: u8, b: u8, sr: u16, bus: &mut Bus) {
    let mut core = fresh::<C>(0, bus, sr);
    let hist = || format!("{} vectors {a} and {b}, status register {sr:04x}", C::CPU.name);
    let st = view(&core);
    if [a, b].iter().any(|v| exec::level(*v).is_some_and(|l| l != 7 && l <= st.mask())) { return; }
    request(&mut core, a);
    request(&mut core, b);
    bus.fuse = 4000;
    w.state((a as u64) << 8 | b as u64 | (sr as u64) << 16 | (C::CPU.scc as u64) << 32);
    w.transition();
    w.trace();
    let r = guard(|| core.interpreter_exception(bus));
    let g = view(&core);
    let l = match (r, chain(&g, bus, C::CPU.scc, st.pc, st.sr, st.ssp)) {
        (Ok((_, None)), Ok(l)) => l,
        (Ok((_, None)), Err(e)) => { w.fail("C10:nested", || format!("{e}; {}; {}", show_state(&g), hist())); return; }
        (r, _) => { w.fail("C10:nested", || format!("{r:?}; {}; {}", show_state(&g), hist())); return; }
    };
    // The NOP that was executed in the last handler is over: from there every handler drops its access information and returns.
    let mut n = 0;
    for v in &l {
        let h = handler(*v) + if *v == *l.last().unwrap() { 2 } else { 0 };
        let two = !C::CPU.scc && matches!(v, 2 | 3);
        n += 1 + two as usize;
        if two { bus.put16(h, 0x508F); bus.put16(h + 2, RTE); } else { bus.put16(h, RTE); }
    }
    for _ in 0..n {
        w.transition();
        let r = guard(|| core.interpreter_exception(bus));
        if !matches!(r, Ok((_, None))) { w.fail("C10:nested-return", || format!("{r:?}; {}; {}", show_state(&view(&core)), hist())); return; }
    }
    let g = view(&core);
    if g != st { w.fail("C10:nested-return", || format!("left {} came back as {}; {}", show_state(&st), show_state(&g), hist())); }
}

fn c10(c: &Ctx) {
    let seed = c.seed as u32;
    c.assume("the access address and status words of bus and address error frames are zero, as the library documents; an error handler drops them before returning on the MC68000");
    // Every vector from every status register, frame compared byte by byte with the model and then returned from.
    c.space("C10.frames", 256 * 1024, |i, w| {
        let v = (i >> 10) as u8;
        let p = i as u16 & 0x3FF;
        let sr = (p & 0x1F) | (p >> 5 & 7) << 8 | (p >> 8 & 1) << 13 | (p >> 9) << 15;
        if v == 0 { return; }
        let (mut bus, mut sc) = (Bus::new(seed), Scratch::default());
        for (k, (ssp, pc)) in [(0x000B_0000u32, 0x4000u32), (0x0000_000A, 0x0012_3456), (0xFFFF_FFFE, 0xFEDC_BA98)].into_iter().enumerate() {
            if k > 0 && (i + v as u64) % 4 != 0 && !c.thorough() { continue; }
            let mut st = regfile(k as u32 % 2 * 4, seed as u64);
            st.sr = sr;
            st.ssp = ssp;
            st.pc = pc;
            st.ir = 0xFFFF;
            // A frame that wraps around would overwrite the vector table.
            if ssp < 64 { st.ssp = 0x1_0002; }
            bus.clear();
            round_trip::<Mc>(w, v, &st, &mut bus, &mut sc);
            bus.clear();
            round_trip::<Scc>(w, v, &st, &mut bus, &mut sc);
        }
        if i % 40_000 == 13 { w.sample(|| format!("vector {v} taken with SR {sr:04x} on both stack formats, then RTE")); }
    });
    // Two exceptions processed by the same step: both frames, then both returns.
    c.space("C10.nested", 65536, |i, w| {
        let (a, b) = ((i >> 8) as u8, i as u8);
        if a == 0 || b == 0 || a >= b { return; }
        let mut bus = Bus::new(seed);
        for sr in [0x0000u16, 0x2015, 0x841F, 0xA200] {
            nested::<Mc>(w, a, b, sr, &mut bus);
            nested::<Scc>(w, a, b, sr, &mut bus);
        }
    });
    // Where processing continues: any vector table content.
    c.space("C10.vector-table", 256, |i, w| {
        let v = i as u8;
        let (mut bus, mut sc) = (Bus::new(seed), Scratch::default());
        for t in [0u32, 2, 0x0000_FFFE, 0x0001_0000, 0x7FFF_FFFE, 0x8000_0000, 0xFFFF_FFFE, 0x1234_5678, 0xFFFF_0000, 0x00FF_FF00, 1, 0x8000_0001] {
            for sr in [0x2000u16, 0x8000] {
                for scc in [false, true] {
                    bus.clear();
                    bus.nops = true;
                    if v == 1 { continue; }
                    bus.put32(v as u32 * 4, if v == 0 { 0x9000 } else { t });
                    if v == 0 { bus.put32(4, t); }
                    let mut st = regfile(0, 0);
                    st.sr = sr;
                    st.pend.add(v);
                    if scc { lockstep::<Scc>(w, "C10:vector-table", &st, &mut bus, &mut sc, NOCYC); } else { lockstep::<Mc>(w, "C10:vector-table", &st, &mut bus, &mut sc, NOCYC); }
                }
            }
        }
    });
    // Every opcode in its automatic form: what it raises is processed by the next step and returned from.
    c.space("C10.raised", ALL_OPS, |i, w| {
        let op = i as u16;
        let f = classify(op);
        let (mut st, mut bus, mut words, mut sc) = (St::new(), Bus::new(seed), Vec::new(), Scratch::default());
        let ne = if ext_words(&f) == 0 { 1 } else { pick(w, 6, 60) };
        for k in 0..pick(w, 6, 36) {
            for e in 0..ne {
                for (n, sr) in [(0, 0x2000u16), (1, 0x001F), (2, 0x8000), (3, 0xA70A)] {
                    case(&mut st, &mut bus, &mut words, op, e, [0, 1, 3, 4, 5, 6, 7, 8, 9, 10, 2, 11].get(k).copied().unwrap_or(k as u32), n, seed, sr);
                    if n == 1 && k == 0 { for a in st.a.iter_mut() { *a |= 1; } }
                    if n == 2 && k == 0 { bus.holes.push((0x0002_0000, 0x0001_0000)); }
                    // Only the exceptions and returns are judged here; a stack that cannot hold frames ends the path.
                    if st.ssp & 1 == 1 || st.ssp < 0x400 { st.ssp = SSP; }
                    for scc in [false, true] {
                        if scc && n > 1 { continue; }
                        let keep = bus.clone();
                        if scc { raised::<Scc>(w, &st, &mut bus, &mut sc) } else { raised::<Mc>(w, &st, &mut bus, &mut sc) }
                        bus = keep;
                    }
                }
            }
        }
    });
    // Return: every status register word and every format word.
    c.space("C10.rte", 65536, |i, w| {
        let x = i as u16;
        let (mut bus, mut sc) = (Bus::new(seed), Scratch::default());
        for (sr, pc) in [(0x2700u16, 0x0001_2344u32), (0xA01F, 0xFFFF_FFFE)] {
            for scc in [false, true] {
                for fmt in [0u16, x] {
                    bus.clear();
                    let mut st = regfile(0, 0);
                    st.sr = sr;
                    bus.set_code(st.pc, &[RTE]);
                    bus.put16(st.ssp, if fmt == x { 0x0015 } else { x });
                    bus.put32(st.ssp + 2, pc);
                    bus.put16(st.ssp + 6, fmt);
                    if scc { lockstep::<Scc>(w, "C10:return", &st, &mut bus, &mut sc, NOCYC); } else { lockstep::<Mc>(w, "C10:return", &st, &mut bus, &mut sc, NOCYC); }
                }
            }
        }
    });
}

fn raised<C: Model>(w: &mut W, st: &St, bus: &mut Bus, sc: &mut Scratch) {
    let mut core = load::<C>(st);
    let mut s = *st;
    let Some(o) = advance::<C>(w, "C10", &mut core, &mut s, bus, sc, NOCYC, How::Auto) else { return };
    let Some(v) = o.vec else { return };
    // The instruction itself may have damaged the stack pointer or the vector table.
    if s.ssp & 1 != 0 || s.ssp.wrapping_sub(64) < 0x400 || bus.peek32(v as u32 * 4) != handler(v) { return; }
    bus.holes.clear();
    let long = v == 2 || v == 3;
    let two = long && !C::CPU.scc;
    let h = handler(v);
    if two { poke(bus, h, 0x508F); poke(bus, h + 2, RTE); } else { poke(bus, h, RTE); }
    let want = s;
    for _ in 0..1 + two as u32 {
        if advance::<C>(w, "C10", &mut core, &mut s, bus, sc, NOCYC, How::Report).is_none() { return; }
    }
    let g = view(&core);
    let mut e = want;
    e.pend = Default::default();
    e.ir = 0;
    if g != e { w.fail(format!("C10:round-trip-raised:{v}"), || format!("{} after vector {v}: {} came back as {}", C::CPU.name, show_state(&want), show_state(&g))); }
}

// ---------------------------------------------------------------------------------------------------------------
// C11

fn deltas(b: &Bus) -> Vec<(u32, u8)> { let mut d = Vec::new(); b.delta(&mut d); d }

/// What is left of a machine: everything visible, its memory, and what it does next.
fn rest<C: Model>(c: &M68000<C>, b: &Bus) -> (St, Vec<(u32, u8)>, Vec<(usize, Option<u8>, St)>, Vec<(u32, u8)>) {
    let (mut c, mut b) = (c.clone(), b.clone());
    let now = view(&c);
    let d = deltas(&b);
    let mut next = Vec::new();
    let _ = guard(|| {
        c.stop = false;
        for _ in 0..2 { let (n, v) = c.interpreter_exception(&mut b); next.push((n, v, view(&c))); }
    });
    let d2 = deltas(&b);
    (now, d, next, d2)
}

/// Runs the loops of the library against iterated single steps.
fn run_loops<C: Model>(w: &mut W, core: &M68000<C>, bus: &Bus, budgets: &[usize], endless: bool, hist: &dyn Fn() -> String) {
    run_loops_within(w, core, bus, budgets, endless, 20_000, hist)
}
fn run_loops_within<C: Model>(w: &mut W, core: &M68000<C>, bus: &Bus, budgets: &[usize], endless: bool, fuse: u32, hist: &dyn Fn() -> String) {
    let cap = |b: &mut Bus| { b.fuse = fuse; b.n = 0; };
    for &n in budgets {
        w.transitions(2);
        w.trace();
        let (mut a, mut ba, mut b, mut bb) = (core.clone(), bus.clone(), core.clone(), bus.clone());
        cap(&mut ba);
        cap(&mut bb);
        let ra = guard(|| a.cycle(&mut ba, n));
        let rb = guard(|| {
            let mut t = 0;
            while t < n {
                let (cyc, v) = b.interpreter_exception(&mut bb);
                if let Some(v) = v { request(&mut b, v); }
                t += cyc;
                // A stopped processor idles through the rest of the budget.
                if b.stop { return t.max(n); }
            }
            t
        });
        if ra.is_err() && rb.is_err() { w.stat("runs both forms refuse", 1); continue; }
        if ra != rb || rest(&a, &ba) != rest(&b, &bb) { w.fail("C11:cycle", || format!("cycle({n}): {ra:?} {} against steps {rb:?} {}; {}", show_state(&view(&a)), show_state(&view(&b)), hist())); }
        let (mut a, mut ba, mut b, mut bb) = (core.clone(), bus.clone(), core.clone(), bus.clone());
        cap(&mut ba);
        cap(&mut bb);
        let ra = guard(|| a.cycle_until_exception(&mut ba, n));
        let rb = guard(|| {
            let mut t = 0;
            while t < n {
                let (cyc, v) = b.interpreter_exception(&mut bb);
                t += cyc;
                if v.is_some() || b.stop { return (t, v); }
            }
            (t, None)
        });
        if ra.is_err() && rb.is_err() { continue; }
        if ra != rb || rest(&a, &ba) != rest(&b, &bb) { w.fail("C11:cycle-until-exception", || format!("cycle_until_exception({n}): {ra:?} {} against steps {rb:?} {}; {}", show_state(&view(&a)), show_state(&view(&b)), hist())); }
    }
    if endless { return; }
    w.transition();
    let (mut a, mut ba, mut b, mut bb) = (core.clone(), bus.clone(), core.clone(), bus.clone());
    cap(&mut ba);
    cap(&mut bb);
    let ra = guard(|| a.loop_until_exception_stop(&mut ba));
    let rb = guard(|| {
        let mut t = 0;
        loop {
            let (cyc, v) = b.interpreter_exception(&mut bb);
            t += cyc;
            if v.is_some() || b.stop { return (t, v); }
        }
    });
    if ra.is_err() && rb.is_err() { return; }
    if ra != rb || rest(&a, &ba) != rest(&b, &bb) { w.fail("C11:loop-until-exception-stop", || format!("{ra:?} {} against steps {rb:?} {}; {}", show_state(&view(&a)), show_state(&view(&b)), hist())); }
}

/// Budgets at the ends of the integer types.
const HUGE: [usize; 6] = [usize::MAX, isize::MAX as usize + 1, isize::MAX as usize, 1 << 32, u32::MAX as usize, 1 << 31];

fn c11(c: &Ctx) {
    let seed = c.seed as u32;
    c.assume("which exceptions other than interrupts, trace and reset end a STOP is not judged: a stopped processor cannot raise them");
    // STOP with every operand; nothing happens until an accepted request, and then the program continues after it.
    c.space("C11.stop", 65536, |i, w| {
        let x = i as u16;
        let (mut bus, mut sc) = (Bus::new(seed), Scratch::default());
        let all = x & !0xA71F == 0 && x & 0x1F == 0 && x & 0xA000 != 0x8000;
        let vs: Vec<u8> = if all || c.thorough() && x & 7 == 0 { std::iter::once(0).chain(24..=31).chain(57..=255).collect() } else { vec![0, 25, 28, 31, 60, 63, 64] };
        for sr in [0x2700u16, 0xA01F] {
            bus.clear();
            bus.nops = true;
            let mut st = regfile(0, 0);
            st.sr = sr;
            bus.set_code(st.pc, &[0x4E72, x, NOP]);
            let mut core = load::<Mc>(&st);
            if advance::<Mc>(w, "C11:stop", &mut core, &mut st, &mut bus, &mut sc, FULL, How::Report).is_none() { continue; }
            let stopped = view(&core);
            for how in [How::Report, How::Auto, How::DisReport, How::DisAuto] {
                if advance::<Mc>(w, "C11:stopped", &mut core, &mut st, &mut bus, &mut sc, FULL, how).is_none() { return; }
            }
            if view(&core) != stopped { w.fail("C11:stopped:state", || format!("STOP #{x:04x}: {} became {}", show_state(&stopped), show_state(&view(&core)))); }
            run_loops(w, &core, &bus, &[0, 1, 7, 100], false, &|| format!("stopped by STOP #{x:04x}"));
            for &v in &vs {
                let (mut c2, mut s2, mut b2) = (core.clone(), st, bus.clone());
                request(&mut c2, v);
                exec::request(&mut s2, v);
                if c2.stop != s2.stop { w.fail("C11:wake", || format!("STOP #{x:04x} then vector {v}: stop is {}", c2.stop)); continue; }
                if advance::<Mc>(w, "C11:wake", &mut c2, &mut s2, &mut b2, &mut sc, FULL, How::Report).is_none() { continue; }
                if s2.stop { continue; }
                // The handler's return leads after the STOP.
                if v != 0 && s2.sr & exec::S != 0 && s2.pc == handler(v) + 2 {
                    let g = view(&c2);
                    if b2.peek32(g.ssp + 2) != stopped.pc || b2.peek16(g.ssp) != stopped.sr { w.fail("C11:wake:frame", || format!("STOP #{x:04x} then vector {v}: returns to {:x} with {:04x}", b2.peek32(g.ssp + 2), b2.peek16(g.ssp))); }
                }
            }
            // An inhibited interrupt, then the one that ends the stop: both are taken, the first when allowed.
            for (a, b) in [(25u8, 31u8), (57, 63), (26, 0), (58, 64), (27, 30)] {
                let (mut c2, mut s2, mut b2) = (core.clone(), st, bus.clone());
                for v in [a, b] {
                    request(&mut c2, v);
                    exec::request(&mut s2, v);
                    if advance::<Mc>(w, "C11:wake-two", &mut c2, &mut s2, &mut b2, &mut sc, FULL, How::Report).is_none() { break; }
                }
            }
        }
    });
    // Programs of three instructions between a start state and a final STOP, under every stopping rule.
    let ins: [&[u16]; 14] = [
        &[NOP], &[0x5240], &[0x2010], &[0x2080], &[0x4E41], &[0x4E72, 0x2000], &[0x4E72, 0x2700], &[0x4AFC], &[0x80FC, 0x0000], &[0x60FE], &[0x46FC, 0xA000], &[0x46FC, 0x0000], &[0x51C9, 0xFFFE], &[0x3010],
    ];
    let ni = ins.len() as u64;
    let len = c.by(3u32, 4);
    let budgets: Vec<usize> = c.by(vec![0, 1, 4, 5, 12, 13, 30, 61, 150], (0..200).step_by(3).collect());
    c.space("C11.run-loops", ni.pow(len) * 4, |i, w| {
        let mut bus = Bus::new(seed);
        bus.nops = true;
        let mut st = regfile(0, 0);
        st.sr = if i & 1 == 0 { 0x2000 } else { 0x2700 };
        st.d[1] = 3;
        if i & 2 != 0 { st.a[0] |= 1; }
        let mut x = i / 4;
        let (mut at, mut endless) = (PC, false);
        for _ in 0..len {
            let p = ins[(x % ni) as usize];
            if p[0] == 0x60FE { endless = true; }
            for q in p { poke(&mut bus, at, *q); at += 2; }
            x /= ni;
        }
        for q in [0x4E72u16, 0x2700, 0x60FA] { poke(&mut bus, at, q); at += 2; }
        for v in [2u8, 3, 4, 5, 8, 9, 27, 33] {
            poke(&mut bus, handler(v), 0x5287);
            poke(&mut bus, handler(v) + 2, if v == 9 || v == 27 || v == 33 { RTE } else { 0x4E72 });
            poke(&mut bus, handler(v) + 4, 0x2300);
        }
        w.state(i);
        for pend in [None, Some(27u8), Some(9)] {
            let mut core = load::<Mc>(&st);
            if let Some(v) = pend { request(&mut core, v); }
            let hist = || format!("program {i} pending {pend:?}; {}; {}", show_state(&st), show_bus(&bus));
            run_loops(w, &core, &bus, &budgets, endless, &hist);
            if i & 3 == 0 && pend.is_none() {
                run_loops(w, &load::<Scc>(&st), &bus, &budgets, endless, &hist);
            }
            // Budgets no program uses up, as applications give them that want to run to the next event.
            if !endless && pend.is_none() { run_loops_within(w, &core, &bus, if i & 3 == 0 { &HUGE } else { &HUGE[..1] }, true, 3000, &hist); }
        }
    });
    // Long runs: counted loops, single and nested, ended by a STOP, a trap or an illegal instruction, under every rule.
    let counts = [1u16, 10, 255, 256, 999, 3276, 6552, 6553, 6554, 16383, 32768, 65535];
    c.space("C11.long-runs", counts.len() as u64 * 12, |i, w| {
        let count = counts[(i / 12) as usize];
        let (nested, end) = (i / 3 % 4, [&[0x4E72u16, 0x2000][..], &[0x4E45][..], &[0x4AFC][..]][(i % 3) as usize]);
        let mut bus = Bus::new(seed);
        bus.nops = true;
        let mut st = regfile(0, 0);
        st.sr = 0x2000;
        st.d[1] = count as u32;
        st.d[2] = nested as u32;
        let mut at = PC;
        let body: &[u16] = if nested == 0 { &[0x51C9, 0xFFFE] } else { &[0x323C, count, 0x4E71, 0x51C9, 0xFFFC, 0x51CA, 0xFFF4] };
        for q in body.iter().chain(end) { poke(&mut bus, at, *q); at += 2; }
        for q in [0x4E72u16, 0x2700] { poke(&mut bus, at, q); at += 2; }
        for v in [4u8, 37] { poke(&mut bus, handler(v), 0x4E72); poke(&mut bus, handler(v) + 2, 0x2300); }
        let total = (count as usize + 1) * if nested == 0 { 10 } else { 14 * (nested as usize + 1) };
        let mut budgets = vec![255, 256, 32_767, 32_768, 65_534, 65_535, 65_536, 65_537, 100_000, total.saturating_sub(1), total, total + 1, total + 40, 1 << 20];
        if c.thorough() { budgets.extend([1 << 21, 3_000_001, 1 << 22]); }
        budgets.extend(HUGE);
        let hist = || format!("counted loop of {count}, nested {nested}, ended by {end:04x?}");
        w.state(i);
        run_loops_within(w, &load::<Mc>(&st), &bus, &budgets, false, 8_000_000, &hist);
        run_loops_within(w, &load::<Scc>(&st), &bus, &budgets, false, 8_000_000, &hist);
    });
    // The automatic step is the reporting step followed by the request.
    c.space("C11.automatic", ALL_OPS, |i, w| {
        let op = i as u16;
        let f = classify(op);
        let (mut st, mut bus, mut words) = (St::new(), Bus::new(seed), Vec::new());
        let ne = if ext_words(&f) == 0 { 1 } else { pick(w, 5, 20) };
        for k in 0..pick(w, 7, 11) {
            for e in 0..ne {
                for (n, sr) in [(0, 0x2000u16), (1, 0x001F), (2, 0x8000), (3, 0xA70A)] {
                    case(&mut st, &mut bus, &mut words, op, e, [0, 1, 3, 4, 5, 2, 6, 7, 8, 9, 10][k], n, seed, sr);
                    if n == 1 && k == 0 { for a in st.a.iter_mut() { *a |= 1; } }
                    if n == 2 && k == 0 { bus.holes.push((0x0002_0000, 0x0001_0000)); }
                    w.transitions(2);
                    w.trace();
                    w.state(hash_case(&st, &bus));
                    let go = |auto: bool| {
                        let mut b = bus.clone();
                        b.fuse = 4000;
                        let mut core = load::<Mc>(&st);
                        let r = guard(|| if auto { core.interpreter(&mut b) } else { let (n, v) = core.interpreter_exception(&mut b); if let Some(v) = v { request(&mut core, v); } n });
                        (r, rest(&core, &b))
                    };
                    let (a, b) = (go(true), go(false));
                    if a.0.is_err() && b.0.is_err() { continue; }
                    if a != b { w.fail(format!("C11:automatic:{}", mnem(op)), || format!("automatic {a:?}\n reporting {b:?}; {}; {}", show_state(&st), show_bus(&bus))); }
                }
            }
        }
    });
}

// ---------------------------------------------------------------------------------------------------------------
// C17

fn c17(c: &Ctx) {
    let seed = c.seed as u32;
    c.assume("privileged instructions are not traced, as the library does by design");
    c.space("C17.opcodes", ALL_OPS, |i, w| {
        let op = i as u16;
        let f = classify(op);
        let (mut st, mut bus, mut words, mut sc) = (St::new(), Bus::new(seed), Vec::new(), Scratch::default());
        let ne = if ext_words(&f) == 0 { 1 } else { pick(w, 8, 24) };
        for k in 0..pick(w, 7, 11) {
            for e in 0..ne {
                for n in 0..pick(w, 6, 12) {
                    for sr in [0x8000u16, 0xA000, 0x871F, 0x2700, 0x0000] {
                        case(&mut st, &mut bus, &mut words, op, e, [0, 1, 3, 4, 5, 2, 6, 7, 8, 9, 10][k], n, seed, sr);
                        // With an interrupt pending that the mask holds back, too.
                        if n == 1 && sr & 0x0700 == 0x0700 { st.pend.add([25, 27, 30, 57, 60][k % 5]); }
                        for scc in [false, true] {
                            if scc && n > 1 { continue; }
                            if scc { traced::<Scc>(w, &st, &mut bus, &mut sc) } else { traced::<Mc>(w, &st, &mut bus, &mut sc) }
                        }
                    }
                }
            }
        }
        if op % 7000 == 99 { w.sample(|| format!("opcode {op:04X} {} with and without tracing", mnem(op))); }
    });
    // Programs that change the trace bit, with a trace handler that returns.
    let ins: [&[u16]; 18] = [
        &[NOP], &[0x5240], &[0x46FC, 0xA000], &[0x46FC, 0x2000], &[0x46FC, 0x8000], &[0x46FC, 0x0000], &[0x027C, 0x7FFF], &[0x007C, 0x8000], &[0x0A7C, 0x8000], &[0x4E41], &[0x4E73], &[0x4E72, 0xA000], &[0x4AFC], &[0x40C0],
        &[0x44FC, 0x00FF], &[0x3010], &[0x4E77], &[0x4E76],
    ];
    let ni = ins.len() as u64;
    let len = c.by(4u32, 5);
    c.space("C17.programs", ni.pow(len) * 4, |i, w| {
        let (mut bus, mut sc) = (Bus::new(seed), Scratch::default());
        bus.nops = true;
        let mut st = regfile(0, 0);
        st.sr = [0xA000, 0x8000, 0x2000, 0x0000][(i & 3) as usize];
        if i & 4 != 0 { st.a[0] |= 1; }
        let mut x = i / 4;
        let mut at = PC;
        for _ in 0..len {
            for q in ins[(x % ni) as usize] { poke(&mut bus, at, *q); at += 2; }
            x /= ni;
        }
        for v in [2u8, 3, 4, 8, 9, 33, 7] { poke(&mut bus, handler(v), if v == 2 || v == 3 { 0x508F } else { RTE }); poke(&mut bus, handler(v) + 2, RTE); }
        // Supervisor stack contents that RTE can return through.
        poke(&mut bus, st.ssp, 0x8000);
        poke(&mut bus, st.ssp + 2, 0);
        poke(&mut bus, st.ssp + 4, PC as u16);
        let mut core = load::<Mc>(&st);
        let how = if i & 8 == 0 { How::Auto } else { How::DisAuto };
        for _ in 0..2 * len + 2 {
            if advance::<Mc>(w, "C17:program", &mut core, &mut st, &mut bus, &mut sc, NOCYC, how).is_none() { return; }
            if st.ssp & 1 != 0 || st.pc & 1 != 0 { return; }
        }
    });
    // The same with an interrupt requested before any one of the steps, masked or not.
    let len = c.by(3u32, 4);
    c.space("C17.interrupted", ni.pow(len) * 4, |i, w| {
        let sr = [0xA000u16, 0x8000, 0xA700, 0x8400][(i & 3) as usize];
        for at in 0..len + 2 {
            for v in [27u8, 31, 60, 64, 24] {
                let how = if (i / 4 + at as u64) & 1 == 0 { How::Auto } else { How::DisAuto };
                interrupted::<Mc>(w, &ins, i / 4, len, at, v, sr, how, seed);
                if v == 27 { interrupted::<Scc>(w, &ins, i / 4, len, at, v, sr, how, seed); }
            }
        }
    });
}

#[allow(clippy::too_many_arguments)]
fn interrupted<C: Model>(w: &mut W, ins: &[&[u16]], mut x: u64, len: u32, at: u32, v: u8, sr: u16, how: How, seed: u32) {
    let (mut bus, mut sc) = (Bus::new(seed), Scratch::default());
    let ni = ins.len() as u64;
    bus.nops = true;
    let mut st = regfile(0, 0);
    st.sr = sr;
    let mut a = PC;
    for _ in 0..len {
        for q in ins[(x % ni) as usize] { poke(&mut bus, a, *q); a += 2; }
        x /= ni;
    }
    for u in [2u8, 3, 4, 8, 9, 33, 7, v] {
        let two = matches!(u, 2 | 3) && !C::CPU.scc;
        poke(&mut bus, handler(u), if two { 0x508F } else if u == v { 0x5287 } else { RTE });
        poke(&mut bus, handler(u) + 2, RTE);
    }
    poke(&mut bus, st.ssp, 0x8000);
    poke(&mut bus, st.ssp + 2, 0);
    poke(&mut bus, st.ssp + 4, PC as u16);
    poke(&mut bus, st.ssp + 6, 0);
    let mut core = load::<C>(&st);
    for k in 0..2 * len + 4 {
        if k == at { request(&mut core, v); exec::request(&mut st, v); }
        if advance::<C>(w, "C17:interrupted", &mut core, &mut st, &mut bus, &mut sc, NOCYC, how).is_none() { return; }
        if st.ssp & 1 != 0 || st.pc & 1 != 0 { return; }
    }
}

/// One step: what it reports about tracing, and what follows once it is processed.
fn traced<C: Model>(w: &mut W, st: &St, bus: &mut Bus, sc: &mut Scratch) {
    let mut st = *st;
    if st.ssp & 1 == 1 || st.ssp < 0x400 { st.ssp = SSP; }
    let b = bus.clone();
    let op = bus.peek16(st.pc);
    let f = classify(op);
    let mut core = load::<C>(&st);
    let mut s = st;
    let o = advance::<C>(w, "C17", &mut core, &mut s, bus, sc, NOCYC, How::Report);
    if let Some(o) = o {
        let t = st.sr & exec::T != 0;
        let completed = o.vec.is_none() || o.vec == Some(9);
        if completed && !f.mn.privileged() && (o.vec == Some(9)) != t { w.fail(format!("C17:{}:trace", mnem(op)), || format!("T={t} reported {:?}; {}; {}", o.vec, show_state(&st), show_bus(&b))); }
        // An instruction that completes by trapping: the trace follows the trap's own processing.
        let trapped = t && o.vec.is_some_and(|v| matches!(v, 5 | 6 | 7 | 32..=47)) && !o.fault;
        if let Some(v) = o.vec {
            if !o.fault || v == 9 {
                request(&mut core, v);
                let before = view(&core);
                bus.fuse = 4000;
                poke(bus, handler(v), NOP);
                poke(bus, handler(9), NOP);
                bus.reset_log();
                let table = bus.peek32(v as u32 * 4) == handler(v) && bus.peek32(36) == handler(9);
                let r = guard(|| core.interpreter_exception(bus));
                bus.fuse = u32::MAX;
                let g = view(&core);
                if before.ssp & 1 == 0 && before.ssp.wrapping_sub(64) > 0x400 && table {
                    let at = g.pc.wrapping_sub(2);
                    if !matches!(r, Ok((_, None))) || g.sr & exec::T != 0 {
                        w.fail(format!("C17:{}:handler-traced", mnem(op)), || format!("first handler instruction: {r:?} {}", show_state(&g)));
                    } else if v == 9 && at != handler(9) || v != 9 && at != handler(v) && at != handler(9) {
                        w.fail(format!("C17:{}:handler", mnem(op)), || format!("vector {v} continued at {at:x}"));
                    } else if trapped && at != handler(9) {
                        w.fail(format!("C17:{:?}:no-trace-after-trap", f.mn), || format!("vector {v} with T set: the handler runs without a trace exception; {}; {}", show_state(&st), show_bus(&b)));
                    }
                    // The stacked status register still has T.
                    if v == 9 {
                        let saved = bus.peek16(g.ssp);
                        if saved != before.sr { w.fail(format!("C17:{}:saved-sr", mnem(op)), || format!("trace frame holds {saved:04x} instead of {:04x}", before.sr)); }
                    }
                }
            }
        }
    }
    *bus = b;
}

// ---------------------------------------------------------------------------------------------------------------
// C19

#[derive(Clone, Copy)]
enum Act { I(&'static [u16]), R(u8) }

fn acts() -> Vec<Act> {
    use Act::*;
    vec![
        I(&[NOP]), I(&[0x5279, 0x0003, 0x0000]), I(&[0xD098]), I(&[0x2F00]), I(&[0x201F]), I(&[0x4E41]), I(&[RTE]), I(&[0x46FC, 0x2300]), I(&[0x46FC, 0x8000]), I(&[0x4E72, 0x2000]), I(&[0x4AFC]), I(&[0x3039, 0x0000, 0x4001]),
        I(&[0x80FC, 0x0000]), I(&[0xD181]), I(&[0xE3B0]), I(&[0x48E7, 0xC0C0]), I(&[0x4CDF, 0x0303]), I(&[0x4EB8, 0x5000]), I(&[0x4E75]), I(&[0x4E57, 0xFFF8]), I(&[0x4E5F]), I(&[0x4E60]), I(&[0x6604]), I(&[0x51C8, 0x0004]), I(&[0x4198]), I(&[0xC101]),
        I(&[0x007C, 0x8000]), I(&[0x4E70]), I(&[0x21FC, 0xDEAD, 0xBEEF, 0x6000]), I(&[0x2078, 0x6000]),
        R(25), R(29), R(31), R(58), R(64), R(9), R(0), R(3), R(2),
    ]
}

fn explore<C: Model>(w: &mut W, core: &M68000<C>, st: &St, bus: &Bus, sc: &mut Scratch, acts: &[Act], depth: u32, path: u64) {
    for (n, a) in acts.iter().enumerate() {
        let mut c = core.clone();
        let mut s = *st;
        let mut b = bus.clone();
        match a {
            Act::I(ws) => for (j, x) in ws.iter().enumerate() { poke(&mut b, s.pc.wrapping_add(2 * j as u32), *x); },
            Act::R(v) => { request(&mut c, *v); exec::request(&mut s, *v); }
        }
        let path = path * 64 + n as u64;
        let how = [How::Auto, How::Report, How::DisAuto, How::DisReport][(path % 7 % 4) as usize];
        let Some(o) = advance::<C>(w, "C19", &mut c, &mut s, &mut b, sc, FULL_NT, how) else { continue };
        if matches!(how, How::Report | How::DisReport) { if let Some(v) = o.vec { request(&mut c, v); exec::request(&mut s, v); } }
        // A stack or program counter no handler can work with: only the error itself is of interest.
        if s.ssp & 1 != 0 || s.pc & 1 != 0 { continue; }
        if depth > 1 { explore(w, &c, &s, &b, sc, acts, depth - 1, path); } else { twin(w, &c, &b, path); }
    }
}

/// A copy, and a machine built from the visible state alone, continue like the original.
fn twin<C: Model>(w: &mut W, c: &M68000<C>, b: &Bus, path: u64) {
    let run = |c: &mut M68000<C>, b: &mut Bus| guard(|| { let mut r = Vec::new(); for _ in 0..2 { let (n, v) = c.interpreter_exception(b); r.push((n, v, view(c))); } (r, deltas(b)) });
    w.trace();
    let (mut c1, mut b1) = (c.clone(), b.clone());
    let (mut c2, mut b2) = (c.clone(), b.clone());
    b1.fuse = 2000;
    b2.fuse = 2000;
    // Stepping the copy first must not disturb the original.
    let v = view(&c1);
    let r2 = run(&mut c2, &mut b2);
    if view(&c1) != v { w.fail("C19:copy-shares-state", || format!("path {path:x}")); }
    let r1 = run(&mut c1, &mut b1);
    if r1 != r2 { w.fail("C19:copy-diverges", || format!("path {path:x}: {r1:?} / {r2:?}")); }
}

/// Everything is compared, the cycle counts too.
const FULL_NT: Opt = FULL;

fn c19(c: &Ctx) {
    let seed = c.seed as u32;
    let acts = acts();
    let n = acts.len() as u64;
    let depth = c.by(2u32, 3);
    fn root<C: Model>(w: &mut W, i: u64, acts: &[Act], depth: u32, seed: u32) {
        let n = acts.len() as u64;
        let mut bus = Bus::new(seed);
        bus.nops = true;
        let mut st = regfile(0, 0);
        st.sr = [0x2000u16, 0x0000, 0xA715][(i / n / n % 3) as usize];
        st.d[0] = 0x0000_0103;
        st.ssp = SSP;
        st.usp = 0x000A_0000;
        for v in [9u8, 25, 29, 31, 33] { poke(&mut bus, handler(v), RTE); }
        let mut sc = Scratch::default();
        // The first two actions come from the item number.
        let (mut core, mut s) = (load::<C>(&st), st);
        for k in [i % n, i / n % n] {
            match acts[k as usize] {
                Act::I(ws) => for (j, x) in ws.iter().enumerate() { poke(&mut bus, s.pc.wrapping_add(2 * j as u32), *x); },
                Act::R(v) => { request(&mut core, v); exec::request(&mut s, v); }
            }
            if advance::<C>(w, "C19", &mut core, &mut s, &mut bus, &mut sc, FULL_NT, How::Auto).is_none() { return; }
            if s.ssp & 1 != 0 || s.pc & 1 != 0 { return; }
        }
        explore(w, &core, &s, &bus, &mut sc, acts, depth, i);
    }
    c.space("C19.histories.MC68000", n * n * 3, |i, w| root::<Mc>(w, i, &acts, depth, seed));
    c.space("C19.histories.SCC68070", n * n * 3, |i, w| root::<Scc>(w, i, &acts, depth, seed));
    // Applications that write registers, memory and the stopped state between steps, fetch words themselves, handle
    // reported exceptions on their own and go back to saved copies.
    let hosts = host_acts();
    let n = hosts.len() as u64;
    let depth = c.by(2u32, 3);
    fn host_root<C: Model>(w: &mut W, i: u64, acts: &[HAct], depth: u32, seed: u32) {
        let n = acts.len() as u64;
        let mut bus = Bus::new(seed);
        bus.nops = true;
        let mut st = regfile(0, 0);
        st.sr = [0x2000u16, 0x0000, 0xA715][(i / n / n % 3) as usize];
        st.ssp = SSP;
        for v in [9u8, 25, 31, 33] { poke(&mut bus, handler(v), RTE); }
        let mut sc = Scratch::default();
        let saved = (load::<C>(&st), st);
        let (mut core, mut s) = (saved.0.clone(), st);
        for k in [i % n, i / n % n] {
            if !host_act::<C>(w, &acts[k as usize], &mut core, &mut s, &mut bus, &mut sc, &saved, i) { return; }
        }
        run_loops(w, &core, &bus, &[0, 1, 9, 40], true, &|| format!("host history {i}"));
        host_explore::<C>(w, &core, &s, &bus, &mut sc, acts, depth, i, &saved);
    }
    c.space("C19.host-histories.MC68000", n * n * 3, |i, w| host_root::<Mc>(w, i, &hosts, depth, seed));
    c.space("C19.host-histories.SCC68070", n * n * 3, |i, w| host_root::<Scc>(w, i, &hosts, depth, seed));
    // Very long lives: one action again and again on one core, more often than a 16-bit counter can count, from ever the
    // same visible state; every step is the step of the model.
    let times = c.by(66_000u32, 263_000);
    fn life<C: Model>(w: &mut W, act: Act, how: How, mixed: Option<&[Act]>, times: u32, seed: u32) {
        let mut bus = Bus::new(seed);
        bus.nops = true;
        let mut st = regfile(0, 0);
        st.sr = 0xA000;
        st.d[0] = 0x0000_0103;
        st.ssp = SSP;
        for v in [9u8, 25, 29, 31, 33] { poke(&mut bus, handler(v), RTE); }
        let mut sc = Scratch::default();
        let mut core = load::<C>(&st);
        let mut s = st;
        for k in 0..times {
            let act = match mixed { Some(all) => all[k as usize % all.len()], None => act };
            bus.preset.clear();
            for v in [9u8, 25, 29, 31, 33] { poke(&mut bus, handler(v), RTE); }
            let pend = s.pend;
            s = St { pend, ir: s.ir, sr: if k & 1 == 0 { 0x2000 } else { 0x8000 | (k & 0x1F) as u16 }, ..st };
            core.regs = load::<C>(&St { pend: Default::default(), ..s }).regs;
            core.stop = false;
            match act {
                Act::I(ws) => for (j, x) in ws.iter().enumerate() { poke(&mut bus, s.pc.wrapping_add(2 * j as u32), *x); },
                Act::R(v) => { request(&mut core, v); exec::request(&mut s, v); }
            }
            // Nothing defined to continue from.
            let Some(o) = advance::<C>(w, "C19:life", &mut core, &mut s, &mut bus, &mut sc, FULL_NT, how) else { w.stat("lives given up", 1); return };
            if matches!(how, How::Report | How::DisReport) { if let Some(v) = o.vec { request(&mut core, v); exec::request(&mut s, v); } }
        }
    }
    let hows = [How::Auto, How::Report, How::DisAuto, How::DisReport];
    c.space("C19.long-lives", (acts.len() as u64 + 1) * 8, |i, w| {
        let (how, scc, k) = (hows[(i % 4) as usize], i / 4 % 2 == 1, (i / 8) as usize);
        let (act, mixed) = if k < acts.len() { (acts[k], None) } else { (acts[0], Some(&acts[..])) };
        if scc { life::<Scc>(w, act, how, mixed, times, seed); } else { life::<Mc>(w, act, how, mixed, times, seed); }
    });
}

/// What the application around the core does between steps.
#[derive(Clone, Copy, Debug)]
enum HAct { Step(&'static [u16]), Drop(&'static [u16]), Req(u8), Sr(u16), Pc(u32), Ssp(u32), D0(u32), Stop(bool), Vector(u8, u32), Word(u32, u16), NextWord, NextLong, Peek, Restore }

fn host_acts() -> Vec<HAct> {
    use HAct::*;
    vec![
        Step(&[NOP]), Step(&[0x5279, 0x0003, 0x0000]), Step(&[0x4E41]), Step(&[RTE]), Step(&[0x46FC, 0x2300]), Step(&[0x46FC, 0x0000]), Step(&[0x4E72, 0x2000]), Step(&[0x4AFC]), Step(&[0x3039, 0x0000, 0x4001]), Step(&[0x48E7, 0xC0C0]),
        Step(&[0x4EB8, 0x5000]), Step(&[0x4E75]), Step(&[0xD080]), Step(&[0xE1A8]), Drop(&[0x4E41]), Drop(&[0x4AFC]), Drop(&[0x3039, 0x0000, 0x4001]), Drop(&[NOP]), Req(25), Req(31), Req(64), Req(9), Req(0), Req(2),
        Sr(0x2000), Sr(0x2700), Sr(0x8000), Pc(0x4000), Ssp(0x7000), D0(0x8000_0001), Stop(true), Stop(false), Vector(33, 0x0060_0240), Word(0x5000, 0x5241), NextWord, NextLong, Peek, Restore,
    ]
}

/// One action on the implementation and the model; false ends the history.
fn host_act<C: Model>(w: &mut W, a: &HAct, c: &mut M68000<C>, s: &mut St, bus: &mut Bus, sc: &mut Scratch, saved: &(M68000<C>, St), path: u64) -> bool {
    match *a {
        HAct::Step(ws) | HAct::Drop(ws) => {
            for (j, x) in ws.iter().enumerate() { poke(bus, s.pc.wrapping_add(2 * j as u32), *x); }
            let drop = matches!(a, HAct::Drop(_));
            let how = if drop { [How::Report, How::DisReport][(path % 3 % 2) as usize] } else { [How::Auto, How::Report, How::DisAuto, How::DisReport][(path % 7 % 4) as usize] };
            let Some(o) = advance::<C>(w, "C19:host", c, s, bus, sc, FULL_NT, how) else { return false };
            if !drop && matches!(how, How::Report | How::DisReport) { if let Some(v) = o.vec { request(c, v); exec::request(s, v); } }
            return s.ssp & 1 == 0 && s.pc & 1 == 0;
        }
        HAct::Req(v) => { request(c, v); exec::request(s, v); }
        HAct::Sr(x) => { c.regs.sr = x.into(); s.sr = x; }
        HAct::Pc(x) => { c.regs.pc.0 = x; s.pc = x; }
        HAct::Ssp(x) => { c.regs.ssp.0 = x; s.ssp = x; }
        HAct::D0(x) => { c.regs.d[0].0 = x; s.d[0] = x; }
        HAct::Stop(x) => { c.stop = x; s.stop = x; }
        HAct::Vector(v, x) => { poke(bus, v as u32 * 4, (x >> 16) as u16); poke(bus, v as u32 * 4 + 2, x as u16); }
        HAct::Word(at, x) => poke(bus, at, x),
        HAct::NextWord | HAct::NextLong | HAct::Peek => {
            w.transition();
            let (h, l) = (bus.peek16(s.pc) as u32, bus.peek16(s.pc.wrapping_add(2)) as u32);
            let (got, want, n) = match a {
                HAct::NextWord => (guard(|| c.get_next_word(bus).map(|x| x as u32)), h, 2),
                HAct::NextLong => (guard(|| c.get_next_long(bus)), h << 16 | l, 4),
                _ => (guard(|| c.peek_next_word(bus).map(|x| x as u32)), h, 0),
            };
            bus.reset_log();
            s.pc = s.pc.wrapping_add(n);
            if got != Ok(Ok(want)) || view(c).pc != s.pc { w.fail(format!("C19:host:{a:?}"), || format!("{got:?} instead of {want:x}, program counter {:x} instead of {:x}, path {path:x}", view(c).pc, s.pc)); return false; }
        }
        // Back to the saved copy, in the memory as it is now; the copy is what it was when saved.
        HAct::Restore => { *c = saved.0.clone(); *s = saved.1; }
    }
    w.transition();
    true
}

#[allow(clippy::too_many_arguments)]
fn host_explore<C: Model>(w: &mut W, core: &M68000<C>, st: &St, bus: &Bus, sc: &mut Scratch, acts: &[HAct], depth: u32, path: u64, saved: &(M68000<C>, St)) {
    for (n, a) in acts.iter().enumerate() {
        let (mut c, mut s, mut b) = (core.clone(), *st, bus.clone());
        let path = path * 64 + n as u64;
        if !host_act::<C>(w, a, &mut c, &mut s, &mut b, sc, saved, path) { continue; }
        if depth > 1 { host_explore(w, &c, &s, &b, sc, acts, depth - 1, path, saved); continue; }
        // What is left shows in the next two steps.
        for _ in 0..2 { if s.ssp & 1 != 0 || s.pc & 1 != 0 || advance::<C>(w, "C19:host", &mut c, &mut s, &mut b, sc, FULL_NT, How::Auto).is_none() { break; } }
    }
}

// ---------------------------------------------------------------------------------------------------------------
// C22

/// What a step that begins with a reset must do, said directly: stack pointer and program counter from addresses 0 and 4,
/// supervisor mode, tracing off, mask 7, nothing written, everything else kept; then the first instruction, a NOP.
fn reset_step<C: Model>(w: &mut W, tag: &str, core: &mut M68000<C>, bus: &mut Bus, ssp: u32, pc: u32, hist: &dyn Fn() -> String) -> bool {
    let b = view(core);
    bus.reset_log();
    bus.fuse = 2000;
    w.transition();
    w.trace();
    let r = guard(|| core.interpreter_exception(bus));
    bus.fuse = u32::MAX;
    let g = view(core);
    let mut e = b;
    e.ssp = ssp;
    e.sr = b.sr & 0x1F | 0x2700;
    e.stop = false;
    let odd = pc & 1 != 0;
    e.pc = if odd { pc } else { pc.wrapping_add(2) };
    let cyc = (C::CPU.vector)(0) + if odd { 0 } else { C::CPU.t[times::K::NOP as usize] };
    let ok = match r { Ok((n, v)) => n as u64 == cyc && v == if odd { Some(3) } else { None }, Err(_) => false };
    w.outcome((g.pc as u64) << 32 | g.ssp as u64);
    if !ok || g != e || !bus.w.is_empty() {
        w.fail(format!("C22:{tag}"), || format!("{} reset to SSP {ssp:x} PC {pc:x} from {}: got {} returning {r:?} writing {:x?}, expected {} in {cyc} cycles; {}", C::CPU.name, show_state(&b), show_state(&g), bus.w, show_state(&e), hist()));
        return false;
    }
    true
}

/// After the reset nothing of the past is left: the machine continues like a new one with the same registers.
fn like_new<C: Model>(w: &mut W, core: &M68000<C>, bus: &Bus, hist: &dyn Fn() -> String) {
    let go = |mut c: M68000<C>| {
        let mut b = bus.clone();
        b.fuse = 4000;
        guard(|| {
            let mut r = Vec::new();
            for k in 0..5 {
                // Everything maskable that survived the reset would be taken now.
                if k == 1 { c.regs.sr = 0x2000.into(); }
                if k == 2 { c.exception(Exception::from(2)); }
                let (n, v) = c.interpreter_exception(&mut b);
                r.push((n, v, view(&c)));
            }
            (r, deltas(&b))
        })
    };
    w.transitions(5);
    w.trace();
    // A core that has just executed the same first instruction: only the registers and the last opcode are known.
    let mut st = view(core);
    st.pc = st.pc.wrapping_sub(2);
    let mut twin = load::<C>(&st);
    let mut b2 = bus.clone();
    let _ = guard(|| twin.interpreter_exception(&mut b2));
    let (a, b) = (go(core.clone()), go(twin));
    if a != b { w.fail("C22:past-survives-reset", || format!("{} {a:?} instead of {b:?}; {}", C::CPU.name, hist())); }
}

const RESET_LONGS: [u32; 12] = [0x9000, 0, 2, 0x0001_0000, 0x7FFF_FFFE, 0x8000_0000, 0xFFFF_FFFE, 0x1234_5678, 0xFFFF_0000, 0x0000_FFFE, 1, 0x8000_0001];

fn c22(c: &Ctx) {
    let seed = c.seed as u32;
    fn memory(bus: &mut Bus, ssp: u32, pc: u32) {
        bus.clear();
        bus.nops = true;
        bus.put32(0, ssp);
        bus.put32(4, pc);
    }
    // Construction and the first step.
    c.space("C22.new", 144, |i, w| {
        let mut bus = Bus::new(seed);
        let (ssp, pc) = (RESET_LONGS[(i / 12) as usize], RESET_LONGS[(i % 12) as usize]);
        fn go<C: Model>(w: &mut W, bus: &mut Bus, ssp: u32, pc: u32) {
            memory(bus, ssp, pc);
            // A reset that starts inside its own vectors executes them.
            if pc < 8 { return; }
            let mut zero = St::default();
            zero.sr = 0x2700;
            let mut core = M68000::<C>::new();
            if view(&core) != zero { w.fail("C22:new-state", || show_state(&view(&core))); }
            if reset_step(w, "new", &mut core, bus, ssp, pc, &|| "new()".into()) && pc & 1 == 0 { like_new(w, &core, bus, &|| "new()".into()); }
            // Without the reset, execution begins at once.
            let core = M68000::<C>::new_no_reset();
            if view(&core) != zero { w.fail("C22:new-no-reset-state", || show_state(&view(&core))); }
            let mut core = core;
            core.regs.pc.0 = 0x4000;
            core.regs.ssp.0 = ssp;
            let mut e = view(&core);
            e.pc += 2;
            bus.reset_log();
            let r = guard(|| core.interpreter_exception(bus));
            w.transition();
            if r.as_ref().ok().map(|r| r.1) != Some(None) || view(&core) != e { w.fail("C22:new-no-reset", || format!("{r:?} {}", show_state(&view(&core)))); }
        }
        go::<Mc>(w, &mut bus, ssp, pc);
        go::<Scc>(w, &mut bus, ssp, pc);
        if i == 7 { w.sample(|| format!("new core, SSP vector {ssp:x}, PC vector {pc:x}")); }
    });
    // From every status register, running or stopped, requested before or after any other exception.
    c.space("C22.requested", 256 * 1024, |i, w| {
        let other = (i >> 10) as u8;
        let p = i as u16 & 0x3FF;
        let sr = (p & 0x1F) | (p >> 5 & 7) << 8 | (p >> 8 & 1) << 13 | (p >> 9) << 15;
        let mut bus = Bus::new(seed);
        fn go<C: Model>(w: &mut W, bus: &mut Bus, sr: u16, other: u8, form: u64, k: u64) {
            let (ssp, pc) = (RESET_LONGS[(k % 10) as usize], [0x4000u32, 0x0080_0000, 0x7FFF_FFFE, 0x1_0001, 0xFFFF_FFFC][(k / 10 % 5) as usize]);
            memory(bus, ssp, pc);
            let mut st = regfile([0, 1, 2, 3][(k % 4) as usize], 0);
            st.sr = sr;
            st.stop = form & 1 != 0;
            let mut core = load::<C>(&st);
            core.stop = st.stop;
            if form & 2 != 0 { request(&mut core, 0); request(&mut core, other); } else { request(&mut core, other); request(&mut core, 0); }
            let mut h = H::new();
            h.add(sr as u64 | (other as u64) << 16 | form << 32 | k << 40 | (C::CPU.scc as u64) << 63);
            w.state(h.get());
            let hist = || format!("sr {sr:04x} other vector {other} form {form}");
            if reset_step(w, "requested", &mut core, bus, ssp, pc, &hist) && pc & 1 == 0 { like_new(w, &core, bus, &hist); }
        }
        for form in 0..4 {
            go::<Mc>(w, &mut bus, sr, other, form, i + form);
            if (i + form) % 3 == 0 { go::<Scc>(w, &mut bus, sr, other, form, i + form); }
        }
    });
    // At every point of every program of the alphabet, with interrupts held back by the mask.
    let acts = acts();
    let n = acts.len() as u64;
    let depth = c.by(4u32, 5);
    c.space("C22.histories", n.pow(depth), |i, w| {
        let mut bus = Bus::new(seed);
        let (ssp, pc) = (0x0009_0000u32, 0x0000_C000u32);
        fn go<C: Model>(w: &mut W, bus: &mut Bus, acts: &[Act], i: u64, depth: u32, ssp: u32, pc: u32) {
            memory(bus, ssp, pc);
            for v in [9u8, 25, 29, 31, 33] { poke(bus, handler(v), RTE); }
            let mut st = regfile(0, 0);
            st.sr = if i & 1 == 0 { 0x2600 } else { 0x0000 };
            let mut core = load::<C>(&st);
            let mut x = i;
            let n = acts.len() as u64;
            for _ in 0..depth {
                match acts[(x % n) as usize] {
                    Act::I(ws) => {
                        let at = core.regs.pc.0;
                        if at & 1 != 0 || at < 0x400 { return; }
                        for (j, y) in ws.iter().enumerate() { poke(bus, at.wrapping_add(2 * j as u32), *y); }
                        if guard(|| core.interpreter(bus)).is_err() { return; }
                        fold(bus);
                    }
                    Act::R(v) => request(&mut core, v),
                }
                x /= n;
                w.transition();
            }
            // The program may have written over the vectors or the code: restore them.
            for (a, v) in [(0, ssp), (4, pc)] { poke(bus, a, (v >> 16) as u16); poke(bus, a + 2, v as u16); }
            for k in 0..8 { poke(bus, pc + 2 * k, NOP); }
            request(&mut core, 0);
            w.state(i << 1 | C::CPU.scc as u64);
            let hist = || format!("history {i}");
            if reset_step(w, "history", &mut core, bus, ssp, pc, &hist) { like_new(w, &core, bus, &hist); }
        }
        go::<Mc>(w, &mut bus, &acts, i, depth, ssp, pc);
        if i % 2 == 0 { go::<Scc>(w, &mut bus, &acts, i, depth, ssp, pc); }
    });
    // Stepped through the other entry points.
    c.space("C22.entry-points", 1024 * 8, |i, w| {
        let p = i as u16 & 0x3FF;
        let sr = (p & 0x1F) | (p >> 5 & 7) << 8 | (p >> 8 & 1) << 13 | (p >> 9) << 15;
        let (mut bus, mut sc) = (Bus::new(seed), Scratch::default());
        memory(&mut bus, 0x9000, 0x4000);
        let mut st = regfile(0, 0);
        st.sr = sr;
        st.stop = i >> 10 & 1 != 0;
        let mut core = load::<Mc>(&st);
        core.stop = st.stop;
        request(&mut core, 0);
        exec::request(&mut st, 0);
        let how = [How::Auto, How::Report, How::DisAuto, How::DisReport][(i >> 11) as usize];
        for _ in 0..3 { if advance::<Mc>(w, "C22:entry", &mut core, &mut st, &mut bus, &mut sc, FULL_NT, how).is_none() { return; } }
    });
}

fn main() {
    engine::main(&[("C09", c09), ("C10", c10), ("C11", c11), ("C17", c17), ("C19", c19), ("C22", c22)]);
}
