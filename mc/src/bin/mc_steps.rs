//! Single-step and short-program checks: C06 (privilege), C07 (memory failures), C08 (disassembling interpreter), C20
//! (no panic).

use mc::bus::{handler, Acc, Bus, Refuses};
use mc::decode::*;
use mc::drive::*;
use mc::engine::{self, guard, Ctx, W};
use mc::exec::{self, St};
use m68000::exception::Exception;
use m68000::instruction::Instruction;
use m68000::{MemoryAccess, M68000};

// ---------------------------------------------------------------------------------------------------------------
// C06

const SYS: u16 = 0xA700;

/// What user mode may never change. `priv_`: the opcode is privileged.
fn user_step<C: Model>(w: &mut W, st: &St, bus: &mut Bus) {
    w.transition();
    w.trace();
    w.state(hash_case(st, bus));
    bus.reset_log();
    bus.fuse = 2000;
    let before = *st;
    let r = guard(|| { let mut c = load::<C>(st); let r = c.interpreter_exception(bus); (view(&c), r) });
    bus.fuse = u32::MAX;
    // The operand of a PC-relative instruction may be the instruction itself.
    let op = bus.peek16(st.pc);
    let f = classify(op);
    let m = mnem(op);
    let show = |b: &Bus| format!("before {}; {}", show_state(&before), show_bus(b));
    let (g, (_, vec)) = match r { Ok(r) => r, Err(e) => { w.fail(format!("C06:{m}:panic"), || format!("panic '{e}'; {}", show(bus))); return; } };
    w.outcome(g.pc as u64 ^ (g.sr as u64) << 32 ^ (op as u64) << 48);
    if (g.sr ^ before.sr) & SYS != 0 { w.fail(format!("C06:{m}:system-byte"), || format!("SR {:04x} -> {:04x} in user mode; {}", before.sr, g.sr, show(bus))); }
    if g.ssp != before.ssp { w.fail(format!("C06:{m}:ssp"), || format!("SSP {:08x} -> {:08x} in user mode; {}", before.ssp, g.ssp, show(bus))); }
    if g.stop { w.fail(format!("C06:{m}:stop"), || format!("stopped by user mode; {}", show(bus))); }
    if bus.resets != 0 { w.fail(format!("C06:{m}:reset"), || format!("peripherals reset by user mode; {}", show(bus))); }
    if f.mn.privileged() {
        if vec != Some(8) { w.fail(format!("C06:{m}:no-violation"), || format!("privileged instruction returned {vec:?}; {}", show(bus))); }
        let mut e = before;
        e.pend = Default::default();
        e.ir = g.ir;
        if g != e { w.fail(format!("C06:{m}:effect"), || format!("privileged instruction changed the state to {}; {}", show_state(&g), show(bus))); }
        if !bus.w.is_empty() { w.fail(format!("C06:{m}:write"), || format!("privileged instruction wrote {:x?}; {}", bus.w, show(bus))); }
    } else if vec == Some(8) {
        w.fail(format!("C06:{m}:spurious-violation"), || format!("unprivileged instruction reported a privilege violation; {}", show(bus)));
    }
}

/// The stack pointer that is not selected neither influences an instruction nor is influenced by it.
fn other_sp<C: Model>(w: &mut W, st: &St, bus: &mut Bus) {
    let op = bus.peek16(st.pc);
    let f = classify(op);
    if f.mn == Mn::Moveusp { return; }
    let sup = st.sr & exec::S != 0;
    let run = |other: u32, bus: &mut Bus| {
        let mut t = *st;
        if sup { t.usp = other } else { t.ssp = other }
        bus.reset_log();
        bus.fuse = 2000;
        let r = guard(|| { let mut c = load::<C>(&t); let r = c.interpreter_exception(bus); (view(&c), r) });
        bus.fuse = u32::MAX;
        let mut d = Vec::new();
        bus.delta(&mut d);
        (r, d)
    };
    w.transitions(2);
    let (a, da) = run(0x0055_0000, bus);
    let (b, db) = run(0xFFAA_1236, bus);
    let (Ok((mut ga, ra)), Ok((mut gb, rb))) = (a, b) else { return };
    let (oa, ob) = if sup { (ga.usp, gb.usp) } else { (ga.ssp, gb.ssp) };
    if oa != 0x0055_0000 || ob != 0xFFAA_1236 { w.fail(format!("C06:{}:other-stack-pointer-changed", mnem(op)), || format!("{:x} {:x}; {}; {}", oa, ob, show_state(st), show_bus(bus))); }
    if sup { ga.usp = 0; gb.usp = 0 } else { ga.ssp = 0; gb.ssp = 0 }
    if ga != gb || ra != rb || da != db { w.fail(format!("C06:{}:other-stack-pointer-used", mnem(op)), || format!("{} / {}; {:?} {:?}; {}; {}", show_state(&ga), show_state(&gb), ra, rb, show_state(st), show_bus(bus))); }
}

fn c06(c: &Ctx) {
    let seed = c.seed as u32;
    c.space("C06.opcodes", ALL_OPS, |i, w| {
        let op = i as u16;
        let f = classify(op);
        let (mut st, mut bus, mut words) = (St::new(), Bus::new(seed), Vec::new());
        let ne = if ext_words(&f) == 0 { 1 } else { pick(w, 12, 24) };
        for k in 0..pick(w, 10, 16) {
            for e in 0..ne {
                for n in 0..pick(w, 8, 12) {
                    for sr in [0x0000u16, 0x001F, 0x0700, 0x8305] {
                        case(&mut st, &mut bus, &mut words, op, e, k, n, seed, sr);
                        user_step::<Mc>(w, &st, &mut bus);
                        if sr == 0x8305 { user_step::<Scc>(w, &st, &mut bus); }
                    }
                }
                for sr in [0x0000u16, 0x2000] {
                    case(&mut st, &mut bus, &mut words, op, e, k, 0, seed, sr);
                    if k > 0 || e < 2 { other_sp::<Mc>(w, &st, &mut bus); }
                }
            }
        }
        // Privileged instructions whose operand cannot be accessed: the violation comes first.
        if f.mn.privileged() {
            for k in 0..4 {
                case(&mut st, &mut bus, &mut words, op, 0, 0, 0, seed, 0x0011);
                for a in st.a.iter_mut() { *a |= (k & 1) as u32; }
                st.usp |= (k & 1) as u32;
                if k & 2 != 0 { bus.holes.push((0x8000, 0xFFFF_0000)); }
                user_step::<Mc>(w, &st, &mut bus);
            }
        }
        if op % 4096 == 0x6C0 { w.sample(|| format!("user mode opcode {op:04X} {}", mnem(op))); }
    });
    // Every word that user code can load into the condition codes.
    c.space("C06.ccr-words", 65536, |i, w| {
        let x = i as u16;
        let mut bus = Bus::new(seed);
        for op in [0x003Cu16, 0x023C, 0x0A3C, 0x44FC, 0x44C1, 0x44D1, 0x44D9, 0x4E77, 0x46C1, 0x46D1, 0x46FC, 0x007C, 0x027C, 0x0A7C, 0x4E72, 0x4E73] {
            for sr in [0x0000u16, 0x001F, 0x8700, 0x040A] {
                bus.clear();
                let mut st = regfile(0, 0);
                st.sr = sr;
                st.d[1] = x as u32;
                bus.put16(st.a[1], x);
                bus.put16(st.usp, x);
                bus.put16(st.ssp, x);
                bus.set_code(st.pc, &[op, x]);
                user_step::<Mc>(w, &st, &mut bus);
            }
        }
    });
    // User programs: all sequences of instructions that write condition codes, stacks and A7.
    let prog: [&[u16]; 22] = [
        &[0x003C, 0xFFFF], &[0x0A3C, 0x2715], &[0x023C, 0x0000], &[0x44FC, 0xFFFF], &[0x4E77], &[0x2E41], &[0x2F01], &[0x4E57, 0xFFF0], &[0x4E5F], &[0x48E7, 0xFFFF], &[0x4CDF, 0xFFFF], &[0x4E68], &[0x4E60],
        &[0x46FC, 0x2700], &[0x007C, 0x2000], &[0x4E73], &[0x4E72, 0x2000], &[0x4E70], &[0x40C0], &[0xDFC1], &[0x548F], &[0x4E41],
    ];
    let np = prog.len() as u64;
    let depth = c.by(5u32, 6);
    c.space("C06.user-programs", np.pow(depth), |i, w| {
        let mut st = regfile(0, 0);
        st.sr = 0x0000;
        st.d[1] = 0x000C_2000;
        let mut bus = Bus::new(seed);
        let mut core = load::<Mc>(&st);
        let mut k = i;
        w.state(i);
        for _ in 0..depth {
            let ins = prog[(k % np) as usize];
            k /= np;
            let pc = core.regs.pc.0;
            for (j, x) in ins.iter().enumerate() { bus.put16(pc.wrapping_add(2 * j as u32), *x); }
            w.transition();
            w.trace();
            let r = guard(|| core.interpreter_exception(&mut bus));
            let g = view(&core);
            if g.sr & SYS != 0 || g.ssp != st.ssp || g.stop || bus.resets != 0 {
                w.fail(format!("C06:program:{}", mnem(ins[0])), || format!("user program reached supervisor state: {} after sequence {i} at {:x}", show_state(&g), pc));
                return;
            }
            match r {
                Ok((_, None)) => {}
                // Skip the offending instruction as an exception handler would.
                Ok((_, Some(_))) => core.regs.pc.0 = pc.wrapping_add(2 * ins.len() as u32),
                Err(e) => { w.fail(format!("C06:program:{}:panic", mnem(ins[0])), || e); return; }
            }
        }
    });
    // The only way in is an exception, and the way back restores user mode: every vector, from every system byte.
    c.space("C06.exception-round-trip", 256 * 16, |i, w| {
        let v = (i / 16) as u8;
        if v == 0 { return; }
        let mut bus = Bus::new(seed);
        let sr = (i as u16 & 7) << 8 | (i as u16 & 8) << 12;
        for ccr in [0u16, 0x1F, 0x15] {
            w.transition();
            w.trace();
            let mut st = regfile(0, 0);
            st.sr = sr | ccr;
            bus.clear();
            bus.put16(handler(v), 0x4E71);
            let mut core = load::<Mc>(&st);
            if exec::level(v).is_some_and(|l| l != 7 && l <= st.mask()) { continue; }
            core.exception(Exception::from(v));
            let _ = guard(|| core.interpreter_exception(&mut bus));
            let g = view(&core);
            let frame = if v == 2 || v == 3 { 14 } else { 6 };
            if g.sr & 0xA000 != 0x2000 || g.usp != st.usp || g.ssp != st.ssp.wrapping_sub(frame) || core.regs.a(7) != g.ssp || core.regs.sp() != g.ssp {
                w.fail("C06:exception-entry", || format!("vector {v}: {} from {}", show_state(&g), show_state(&st)));
            }
        }
    });
}

// ---------------------------------------------------------------------------------------------------------------
// C07

/// The accesses the model makes in this step, in order, without failures.
fn accesses(st: &St, bus: &mut Bus, scc: bool) -> Vec<Acc> {
    bus.reset_log();
    bus.rec = true;
    bus.lenient = true;
    let mut t = *st;
    exec::step(&mut t, bus, if scc { Scc::CPU } else { Mc::CPU });
    bus.rec = false;
    bus.lenient = false;
    let l = std::mem::take(&mut bus.log);
    bus.reset_log();
    l
}

fn holes_of(w: &mut W, st: &St, bus: &mut Bus, sc: &mut Scratch, fetch: bool) {
    let l = accesses(st, bus, false);
    let mut seen: Vec<(u32, u32)> = Vec::new();
    for a in &l {
        let in_code = a.addr.wrapping_sub(st.pc) < bus.code_len;
        if in_code && !fetch { continue; }
        let mut hs = vec![(a.addr, a.len as u32)];
        if a.len == 2 { hs.push((a.addr.wrapping_add(1), 1)); }
        for h in hs {
            if seen.contains(&h) { continue; }
            seen.push(h);
            bus.holes.clear();
            bus.holes.push(h);
            let both = l.iter().any(|o| o.write != a.write && o.addr.wrapping_sub(a.addr).wrapping_add(1) < 3);
            // Operands that are read and written: each direction by itself. Operands only read need not be writable.
            let modes: &[Refuses] = if both { &[Refuses::Everything, Refuses::Reads, Refuses::Writes] } else if a.write { &[Refuses::Everything] } else { &[Refuses::Everything, Refuses::Writes] };
            for m in modes {
                bus.refuses = *m;
                lockstep::<Mc>(w, "C07", st, bus, sc, NOCYC);
            }
            bus.refuses = Refuses::Everything;
        }
    }
    bus.holes.clear();
    // Nothing but the accessed bytes is readable or writable: the step must not fail.
    let mut used: Vec<u32> = l.iter().flat_map(|a| (0..a.len as u32).map(move |k| a.addr.wrapping_add(k))).collect();
    used.sort_unstable();
    used.dedup();
    let mut prev = 0u64;
    for u in used {
        if u as u64 > prev { bus.holes.push((prev as u32, (u as u64 - prev) as u32)); }
        prev = u as u64 + 1;
    }
    if prev < 1 << 32 { bus.holes.push((prev as u32, (0x1_0000_0000u64 - prev) as u32)); }
    let keep = std::mem::take(&mut bus.holes);
    if keep.iter().all(|h| h.1 != 0) { bus.holes = keep; lockstep::<Mc>(w, "C07", st, bus, sc, NOCYC); }
    bus.holes.clear();
}

/// The range stays refused for `n` steps; the error it causes must be processed as soon as it can be.
fn faulty_processing<C: Model>(w: &mut W, st: &St, bus: &mut Bus, sc: &mut Scratch) {
    let (holes, preset) = (bus.holes.clone(), bus.preset.len());
    for n in 1..=2 {
        let mut core = load::<C>(st);
        let mut s = *st;
        bus.holes = holes.clone();
        for k in 0..4 {
            if k == n {
                bus.holes.clear();
                if s.ssp & 1 != 0 { s.ssp = 0x000B_0000; core.regs.ssp.0 = s.ssp; }
            }
            if advance::<C>(w, "C07:processing", &mut core, &mut s, bus, sc, NOCYC, How::Auto).is_none() { break; }
        }
        bus.preset.truncate(preset);
    }
    bus.holes = holes;
}

fn c07(c: &Ctx) {
    let seed = c.seed as u32;
    c.assume("an instruction that faults may have changed its own destination, the address registers it steps and the condition codes; everything else is compared");
    // One refused range per access of the instruction.
    c.space("C07.refused-accesses", ALL_OPS, |i, w| {
        let op = i as u16;
        let f = classify(op);
        let (mut st, mut bus, mut words, mut sc) = (St::new(), Bus::new(seed), Vec::new(), Scratch::default());
        let ne = if ext_words(&f) == 0 { 1 } else { pick(w, 6, 24) };
        for k in [0u32, 1, 3, 5, 2, 6, 7, 8, 9, 10].into_iter().take(pick(w, 7, 10)) {
            for e in 0..ne {
                for n in 0..pick(w, 3, 12) {
                    for sr in [0x2700u16, 0x0015] {
                        case(&mut st, &mut bus, &mut words, op, e, k, n, seed, sr);
                        holes_of(w, &st, &mut bus, &mut sc, k == 0);
                    }
                }
            }
        }
        if op % 5000 == 0x1010 { w.sample(|| format!("opcode {op:04X} {}: every accessed range refused in turn", mnem(op))); }
    });
    // Odd addresses: every subset pattern of odd registers.
    c.space("C07.odd-addresses", ALL_OPS, |i, w| {
        let op = i as u16;
        let f = classify(op);
        let (mut st, mut bus, mut words, mut sc) = (St::new(), Bus::new(seed), Vec::new(), Scratch::default());
        let ne = if ext_words(&f) == 0 { 1 } else { pick(w, 8, 24) };
        for k in [0u32, 1, 3, 4, 5, 6].into_iter().take(pick(w, 4, 6)) {
            for e in 0..ne {
                for pat in 0..8u32 {
                    for sr in [0x2700u16, 0x001F] {
                        case(&mut st, &mut bus, &mut words, op, e, k, 0, seed, sr);
                        // Odd: 0 all, 1 source register, 2 the other ones, 3 extension word; 4.. with refused memory.
                        for r in 0..7u8 { if matches!(pat & 3, 0) || (pat & 3 == 1) == (r == f.y) && pat & 3 != 3 { st.a[r as usize] |= 1; } }
                        if pat & 3 == 0 || (pat & 3 == 1) == (f.y == 7) && pat & 3 != 3 { st.usp |= 1; st.ssp |= 1; }
                        if pat & 3 == 3 {
                            let n = words.len();
                            if n > 1 { words[n - 1] |= 1; let (pc, ws) = (st.pc, words.clone()); bus.set_code(pc, &ws); }
                            for r in 0..8 { st.d[r] |= 1; }
                        }
                        if pat & 4 != 0 { bus.holes.push((0x1_0000, 0x8_0000)); }
                        lockstep::<Mc>(w, "C07", &st, &mut bus, &mut sc, NOCYC);
                    }
                }
            }
        }
    });
    // Register files over refused regions: base registers at the last bytes before a hole and at its end.
    c.space("C07.region-edges", ALL_OPS, |i, w| {
        let op = i as u16;
        let f = classify(op);
        let (mut st, mut bus, mut words, mut sc) = (St::new(), Bus::new(seed), Vec::new(), Scratch::default());
        for off in [-6i32, -4, -3, -2, -1, 0, 1, 2, 4, 16] {
            for high in [false, true] {
                case(&mut st, &mut bus, &mut words, op, (off & 3) as usize, 0, 0, seed, if off & 2 == 0 { 0x2700 } else { 0 });
                // Readable and writable: [0, edge) or [edge, 2^32).
                let edge = 0x0010_0000u32;
                for r in 0..7 { st.a[r] = edge.wrapping_add(off as u32); }
                st.usp = edge.wrapping_add((off & !1) as u32);
                st.ssp = st.usp;
                if f.ea >> 3 == 5 || f.mn == Mn::Movep { words[1] = 0; }
                bus.set_code(st.pc, &words);
                if high { bus.holes.push((0x8000, edge - 0x8000)); } else { bus.holes.push((edge, 0xFFFF_FFFF - edge)); bus.holes.push((0xFFFF_FFFF, 1)); }
                lockstep::<Mc>(w, "C07", &st, &mut bus, &mut sc, NOCYC);
            }
        }
    });
    // Opcode fetch: odd and refused program counters.
    c.space("C07.fetch", 65536, |i, w| {
        let mut bus = Bus::new(seed);
        let mut sc = Scratch::default();
        for hi in [0u32, 0x0001_0000, 0x7FFF_0000, 0x8000_0000, 0xFFFF_0000] {
            for sr in [0x2700u16, 0x8000] {
                bus.clear();
                let mut st = regfile(0, 0);
                st.pc = hi | i as u32;
                st.sr = sr;
                bus.set_code(st.pc, &[0x4E71, 0x4E71]);
                if st.pc & 1 == 0 {
                    for h in [(st.pc, 2), (st.pc, 1), (st.pc.wrapping_add(1), 1)] {
                        bus.holes.clear();
                        bus.holes.push(h);
                        lockstep::<Mc>(w, "C07", &st, &mut bus, &mut sc, NOCYC);
                    }
                    // The word after the instruction is not needed.
                    bus.holes.clear();
                    bus.holes.push((st.pc.wrapping_add(2), 2));
                }
                lockstep::<Mc>(w, "C07", &st, &mut bus, &mut sc, NOCYC);
            }
        }
    });
    // Failures while exceptions are processed: each frame word and the vector refused or odd, for every vector.
    c.space("C07.exception-processing", 256, |i, w| {
        let v = i as u8;
        let (mut bus, mut sc) = (Bus::new(seed), Scratch::default());
        for odd in [0u32, 1] {
            for sr in [0x2000u16, 0x0000] {
                for scc in [false, true] {
                    bus.clear();
                    let mut st = regfile(0, 0);
                    st.sr = sr;
                    st.ssp |= odd;
                    st.pend.add(v);
                    bus.set_code(st.pc, &[0x4E71]);
                    let l = accesses(&st, &mut bus, scc);
                    let mut hs: Vec<(u32, u32)> = l.iter().map(|a| (a.addr, a.len as u32)).collect();
                    hs.sort_unstable();
                    hs.dedup();
                    hs.push((0xFFFF_FFFF, 1));
                    for h in hs {
                        bus.holes.clear();
                        bus.holes.push(h);
                        if scc { faulty_processing::<Scc>(w, &st, &mut bus, &mut sc) } else { faulty_processing::<Mc>(w, &st, &mut bus, &mut sc) }
                    }
                }
            }
        }
    });
    // A fault in the middle of a program: the next instruction runs from a clean state.
    let ops: [&[u16]; 14] = [&[0x3010], &[0x3080], &[0x2018], &[0x2100], &[0x4E71], &[0x5240], &[0x48E0, 0xFFFF], &[0x4CD8, 0x00FF], &[0x4E90], &[0x4E75], &[0xD150], &[0x0108, 0], &[0x4850], &[0x4E41]];
    let no = ops.len() as u64;
    c.space("C07.programs", no * no * no * 4, |i, w| {
        let mut bus = Bus::new(seed);
        let mut sc = Scratch::default();
        let mut st = regfile(0, 0);
        st.sr = 0x2000;
        st.a[0] = match i & 3 { 0 => 0x0002_0001, 1 => 0x0007_FFFE, 2 => 0x0008_0000, _ => 0x0002_0000 };
        bus.holes.push((0x0008_0000, 0x1000));
        let mut core = load::<Mc>(&st);
        let mut k = i / 4;
        for _ in 0..3 {
            let ins = ops[(k % no) as usize];
            k /= no;
            if st.pc & 1 == 1 || st.pc.wrapping_sub(0x0008_0000) < 0x1000 { return; }
            for (j, x) in ins.iter().enumerate() { bus.put16(st.pc.wrapping_add(2 * j as u32), *x); }
            if advance::<Mc>(w, "C07:program", &mut core, &mut st, &mut bus, &mut sc, NOCYC, How::Report).is_none() { return; }
        }
    });
}

// ---------------------------------------------------------------------------------------------------------------
// C08

#[derive(PartialEq, Debug)]
struct Trace8 {
    st: St,
    cyc: usize,
    vec: Option<u8>,
    writes: Vec<(u32, u8)>,
    reads: Vec<(u32, u8)>,
    resets: u32,
    after: Vec<(St, usize, Option<u8>)>,
    frame: Vec<(u32, u8)>,
}

/// Both interpreters from the same state; then both cores continue with the same normal steps.
fn both<C: Model>(w: &mut W, st: &St, bus: &mut Bus, auto: bool) {
    w.transition();
    w.trace();
    w.state(hash_case(st, bus));
    bus.reset_log();
    bus.fuse = 4000;
    bus.rec = true;
    let go = |dis: bool| {
        let mut b = bus.clone();
        let mut c = load::<C>(st);
        // The disassembling interpreter says where and what it executed.
        let mut said: Option<(u32, String)> = None;
        let r = guard(|| match (dis, auto) {
            (false, false) => c.interpreter_exception(&mut b),
            (false, true) => (c.interpreter(&mut b), None),
            (true, false) => { let (pc, s, n, v) = c.disassembler_interpreter_exception(&mut b); said = Some((pc, s)); (n, v) }
            (true, true) => { let (pc, s, n) = c.disassembler_interpreter(&mut b); said = Some((pc, s)); (n, None) }
        });
        (r, c, b, said)
    };
    let (fr, mut fc, mut fb, _) = go(false);
    let (dr, mut dc, mut db, said) = go(true);
    bus.rec = false;
    bus.fuse = u32::MAX;
    let op = bus.peek16(st.pc);
    let key = |s: &str| format!("C08:{}:{s}", mnem(op));
    let ctx = || format!("{} auto={auto} before {}; {}", C::CPU.name, show_state(st), show_bus(bus));
    let (fr, dr) = match (fr, dr) {
        (Ok(a), Ok(b)) => (a, b),
        // Equally unable to run (the unreadable extension word of C07).
        (Err(_), Err(_)) => { w.stat("steps both interpreters refuse", 1); return; }
        (a, b) => { w.fail(key("panic"), || format!("normal {a:?}, disassembling {b:?}; {}", ctx())); return; }
    };
    // Where the step began once pending exceptions are processed, from a third core.
    let collect = |c: &mut M68000<C>, b: &mut Bus, r: (usize, Option<u8>)| {
        let mut writes = Vec::new();
        b.delta(&mut writes);
        let mut reads: Vec<(u32, u8)> = b.log.iter().filter(|a| !a.write).map(|a| (a.addr, a.len)).collect();
        reads.sort_unstable();
        reads.dedup();
        b.rec = false;
        let stv = view(c);
        // Hidden state: two more steps and the frame of a bus error.
        let mut after = Vec::new();
        let _ = guard(|| {
            for k in 0..3 {
                if k == 1 { c.exception(Exception::from(2)); }
                let (n, v) = c.interpreter_exception(b);
                after.push((view(c), n, v));
            }
        });
        let mut frame = Vec::new();
        b.delta(&mut frame);
        Trace8 { st: stv, cyc: r.0, vec: r.1, writes, reads, resets: b.resets, after, frame }
    };
    let executed_at = {
        // The address of the instruction: the program counter after pending exceptions.
        let mut t = *st;
        let mut b = bus.clone();
        b.reset_log();
        let mut cpu = *C::CPU;
        cpu.name = "trace";
        let o = exec::step(&mut t, &mut b, &cpu);
        if o.undefined { None } else { o.ins.map(|i| i.pc) }
    };
    let ft = collect(&mut fc, &mut fb, fr);
    let dt = collect(&mut dc, &mut db, dr);
    w.outcome(ft.st.pc as u64 ^ (ft.st.sr as u64) << 32 ^ (op as u64) << 48);
    if ft != dt {
        let what = if ft.st != dt.st { "state" } else if ft.cyc != dt.cyc { "cycles" } else if ft.vec != dt.vec { "vector" } else if ft.writes != dt.writes { "writes" } else if ft.reads != dt.reads { "reads" } else { "continuation" };
        w.fail(key(what), || format!("normal {ft:?}\n disassembling {dt:?}; {}", ctx()));
        return;
    }
    let (pc, text) = said.unwrap();
    match executed_at {
        Some(at) => {
            let mut b = bus.clone();
            b.holes.clear();
            // Frames pushed by pending exceptions may cover the code: read it as the step saw it.
            let mut t = *st;
            t.stop = false;
            if !st.pend.is_empty() { let mut p = *st; p.pend = st.pend; let _ = exec::step(&mut p, &mut b, C::CPU); }
            let want = guard(|| Instruction::from_memory(&mut b.iter_u16(at)).map(|i| i.disassemble()));
            if pc != at { w.fail(key("address"), || format!("executed at {at:x}, reported {pc:x}; {}", ctx())); }
            if let Ok(Ok(want)) = want {
                if want != text && st.pend.is_empty() { w.fail(key("text"), || format!("expected '{want}' reported '{text}'; {}", ctx())); }
            }
        }
        None => if !text.is_empty() { w.fail(key("text-without-instruction"), || format!("'{text}'; {}", ctx())); }
    }
}

fn c08(c: &Ctx) {
    let seed = c.seed as u32;
    c.space("C08.opcodes", ALL_OPS, |i, w| {
        let op = i as u16;
        let f = classify(op);
        let (mut st, mut bus, mut words) = (St::new(), Bus::new(seed), Vec::new());
        let ne = if ext_words(&f) == 0 { 1 } else { pick(w, 10, 24) };
        for k in 0..pick(w, 8, 14) {
            for e in 0..ne {
                for (n, sr) in [(0, 0x2700u16), (1, 0x001F), (2, 0xA000), (3, 0x8305), (5, 0x270A), (6, 0x0004)].into_iter() {
                    case(&mut st, &mut bus, &mut words, op, e, k, n, seed, sr);
                    both::<Mc>(w, &st, &mut bus, n & 1 == 1);
                    if n < 2 { both::<Scc>(w, &st, &mut bus, n & 1 == 0); }
                }
            }
        }
        if op % 6000 == 77 { w.sample(|| format!("opcode {op:04X} {} through both interpreters", mnem(op))); }
    });
    c.space("C08.faults", ALL_OPS, |i, w| {
        let op = i as u16;
        let f = classify(op);
        let (mut st, mut bus, mut words) = (St::new(), Bus::new(seed), Vec::new());
        let ne = if ext_words(&f) == 0 { 1 } else { pick(w, 4, 16) };
        for e in 0..ne {
            for sr in [0x2700u16, 0x8000] {
                case(&mut st, &mut bus, &mut words, op, e, 0, 0, seed, sr);
                let mut hs: Vec<(u32, u32)> = accesses(&st, &mut bus, false).iter().map(|a| (a.addr, 1)).collect();
                hs.sort_unstable();
                hs.dedup();
                for h in hs {
                    bus.holes.clear();
                    bus.holes.push(h);
                    both::<Mc>(w, &st, &mut bus, h.0 & 2 == 0);
                }
                bus.holes.clear();
                for a in st.a.iter_mut() { *a |= 1; }
                st.usp |= 1;
                st.ssp |= 1;
                both::<Mc>(w, &st, &mut bus, false);
            }
        }
    });
    // Pending exceptions in front of an instruction; stopped; odd and refused program counters.
    c.space("C08.pending", 65536, |i, w| {
        let (v1, v2) = ((i >> 8) as u8, i as u8);
        let mut bus = Bus::new(seed);
        for (n, sr) in [0x2700u16, 0x0000, 0x8300].into_iter().enumerate() {
            bus.clear();
            let mut st = regfile(0, 0);
            st.sr = sr;
            st.pend.add(v1);
            st.pend.add(v2);
            bus.set_code(st.pc, &[0x5240]);
            for v in [v1, v2] { bus.put16(handler(v), [0x4E71u16, 0x4E73, 0x5240, 0x4AFC][(v & 3) as usize]); }
            both::<Mc>(w, &st, &mut bus, n == 0);
            if v1 >= v2 { both::<Scc>(w, &st, &mut bus, n == 1); }
            st.stop = n == 2;
            if st.stop { both::<Mc>(w, &st, &mut bus, v1 & 1 == 1); }
        }
    });
    c.space("C08.fetch", 4096, |i, w| {
        let mut bus = Bus::new(seed);
        for sr in [0x2700u16, 0x8000] {
            for auto in [false, true] {
                bus.clear();
                let mut st = regfile(0, 0);
                st.sr = sr;
                st.pc = (i as u32 & 0xFF) | (i as u32 >> 8) << 28;
                bus.set_code(st.pc, &[0x4E71]);
                both::<Mc>(w, &st, &mut bus, auto);
                bus.holes.push((st.pc, 1));
                both::<Mc>(w, &st, &mut bus, auto);
                st.stop = true;
                both::<Mc>(w, &st, &mut bus, auto);
            }
        }
    });
}

// ---------------------------------------------------------------------------------------------------------------
// C20

fn c20(c: &Ctx) {
    let seed = c.seed as u32;
    c.assume("memory answers every access, vectors lead to code; odd stack pointers and program counters end in an address error, which is not followed further");
    fn survive<C: Model>(w: &mut W, st: &St, bus: &mut Bus, steps: usize, dis: bool) {
        w.transition();
        w.trace();
        w.state(hash_case(st, bus));
        bus.reset_log();
        bus.fuse = 20_000;
        let r = guard(|| {
            let mut c = load::<C>(st);
            for _ in 0..steps {
                if dis { c.disassembler_interpreter(bus); } else { c.interpreter(bus); }
                // A stack or handler that cannot be used is outside the claim.
                if c.regs.ssp.0 & 1 != 0 || c.regs.pc.0 & 1 != 0 { break; }
            }
            view(&c)
        });
        bus.fuse = u32::MAX;
        match r {
            Ok(g) => w.outcome(g.pc as u64 ^ (g.sr as u64) << 32),
            Err(e) => { let op = bus.initial(st.pc) as u16 * 256 + bus.initial(st.pc.wrapping_add(1)) as u16; w.fail(format!("C20:{}:panic", mnem(op)), || format!("panic '{e}'; {}; {}", show_state(st), show_bus(bus))) }
        }
    }
    c.space("C20.opcodes", ALL_OPS, |i, w| {
        let op = i as u16;
        let f = classify(op);
        let (mut st, mut bus) = (St::new(), Bus::new(seed));
        let exts: &[[u16; 4]] = &[
            [0, 0, 0, 0], [0xFFFF; 4], [0x8000; 4], [0x7FFF; 4], [0x7FFF, 0xFFFF, 0x7FFF, 0xFFFF], [0x8000, 0, 0x8000, 0], [0xF8FF, 0x0800, 0x78FF, 0x80], [1, 0xFFFF, 0xFFFF, 1], [0x00FF, 0x7FFF, 0xFFFE, 0x8001], [0x2700, 0xA71F, 0x1F, 0xFFFF],
        ];
        let ne = if ext_words(&f) == 0 { 1 } else { exts.len() };
        for ext in &exts[..ne] {
            for k in 0..pick(w, 12u32, 24) {
                for sr in [0x2700u16, 0xFFFF, 0x0000, 0x801F] {
                    bus.clear();
                    st = match k {
                        0..=4 => {
                            let x = [0u32, 0xFFFF_FFFF, 0x8000_0000, 0x7FFF_FFFF, 0xFFFF_8000][k as usize];
                            let mut s = St::new();
                            s.d = [x; 8];
                            s.a = [x; 7];
                            s.usp = x;
                            s.ssp = x & !1;
                            s
                        }
                        // Division extremes: most negative by -1.
                        5 => { let mut s = St::new(); s.d = [0x8000_0000, 0xFFFF_FFFF, 0x8000_0000, 0x0000_FFFF, 0x8000_0000, 0xFFFF, 0x8000_0000, 0xFFFF]; s.a = [2; 7]; s.usp = 1; s.ssp = 2; s }
                        k => regfile(k, seed as u64),
                    };
                    st.sr = sr & exec::SR_BITS;
                    st.pc = if k == 1 { 0xFFFF_FFF8 } else { PC };
                    bus.set_code(st.pc, &[op, ext[0], ext[1], ext[2], ext[3]]);
                    survive::<Mc>(w, &st, &mut bus, 2, k & 1 == 1);
                    survive::<Scc>(w, &st, &mut bus, 2, k & 1 == 0);
                }
            }
        }
        // Disassembly of the opcode with every pattern, at extreme addresses.
        for ext in exts {
            for pc in [PC, 0, 0xFFFF_FFFE, 0xFFFF_FFFC, 0x7FFF_FFFE] {
                bus.clear();
                bus.set_code(pc, &[op, ext[0], ext[1], ext[2], ext[3]]);
                w.transition();
                w.trace();
                let r = guard(|| { let mut it = bus.iter_u16(pc); let i = Instruction::from_memory(&mut it).unwrap(); (i.disassemble().len(), format!("{i}").len()) });
                match r {
                    Ok((n, m)) => if n == 0 || m == 0 { w.fail(format!("C20:{}:empty-text", mnem(op)), || format!("{op:04X} {ext:04X?}")) },
                    Err(e) => w.fail(format!("C20:{}:disassembly-panic", mnem(op)), || format!("{op:04X} {ext:04X?} at {pc:x}: {e}")),
                }
            }
        }
    });
    // Every first extension word for one opcode per mnemonic, size and addressing mode.
    let mut reps: Vec<u16> = Vec::new();
    let mut seen = std::collections::BTreeSet::new();
    for op in 0..=0xFFFFu16 {
        let f = classify(op);
        if ext_words(&f) == 0 { continue; }
        let cls = |ea: u8| if ea == 0xFF { 0xFF } else if ea >> 3 == 7 { ea } else { ea >> 3 };
        if seen.insert((f.mn as u32, f.sz, cls(f.ea), cls(f.ea2), f.dir)) { reps.push(op); }
    }
    let reps = &reps;
    c.space("C20.extension-words", 65536, |i, w| {
        let mut bus = Bus::new(seed);
        for (n, &op) in reps.iter().enumerate() {
            bus.clear();
            let k = (i as u32 + n as u32) % 4;
            let mut st = regfile(k, seed as u64);
            st.sr = if i & 1 == 0 { 0x2700 } else { 0x001F };
            let x = i as u16;
            bus.set_code(st.pc, &[op, x, x, x ^ 0xFFFF, x]);
            survive::<Mc>(w, &st, &mut bus, 1, false);
            if n as u64 % 8 == i % 8 { survive::<Mc>(w, &st, &mut bus, 1, true); }
        }
    });
    // Pairs of extreme operands for every opcode.
    const X: [u32; 16] = [0, 1, 2, 0x1F, 0x20, 0x3F, 0x80, 0x7FFF, 0x8000, 0xFFFF, 0x1_0000, 0x7FFF_FFFF, 0x8000_0000, 0x8000_0001, 0xFFFF_8000, 0xFFFF_FFFF];
    c.space("C20.operands", ALL_OPS, |i, w| {
        let op = i as u16;
        let f = classify(op);
        if matches!(f.mn, Mn::Unknown) { return; }
        let mut bus = Bus::new(seed);
        for e in 0..if ext_words(&f) == 0 { 1 } else { pick(w, 3, 8) } {
            for (j, s) in X.into_iter().enumerate() {
                for (k, d) in X.into_iter().enumerate() {
                    bus.clear();
                    let mut st = regfile((e * 3) as u32, 0);
                    st.sr = if j + k + e & 1 == 0 { 0x2710 } else { 0x270F };
                    let mut words = vec![op];
                    ext_fill(&f, e, &mut words);
                    set_operands(&mut st, &mut bus, &mut words, s, d);
                    bus.set_code(st.pc, &words);
                    if j + k & 2 == 0 { survive::<Mc>(w, &st, &mut bus, 1, false); } else { survive::<Scc>(w, &st, &mut bus, 1, false); }
                }
            }
        }
    });
    // Pending exceptions of every kind, in pairs.
    c.space("C20.pending", 65536, |i, w| {
        let mut bus = Bus::new(seed);
        for sr in [0x2700u16, 0x0000, 0xA31F] {
            bus.clear();
            let mut st = regfile(0, 0);
            st.sr = sr;
            st.pend.add((i >> 8) as u8);
            st.pend.add(i as u8);
            bus.set_code(st.pc, &[0x4E71, 0x4E71]);
            survive::<Mc>(w, &st, &mut bus, 4, i & 1 == 1);
            survive::<Scc>(w, &st, &mut bus, 4, i & 1 == 0);
        }
    });
    // Long lives: what a core does once it can do more often than counters of 16 bits count (thorough: for the endless
    // loop, of 32 bits), through every interface: one opcode of every operation and size, an exception of every vector.
    let mut seen = std::collections::BTreeSet::new();
    let firsts: Vec<u16> = (0..=0xFFFFu16).filter(|op| { let f = classify(*op); seen.insert((format!("{:?}", f.mn), f.sz)) }).collect();
    let times = c.by(66_000u32, 263_000);
    fn live<C: Model>(w: &mut W, op: u16, ex: Option<u8>, how: u64, times: u32, seed: u32) {
        let mut bus = Bus::new(seed);
        bus.nops = true;
        let mut st = regfile(0, 0);
        st.sr = 0x2000;
        bus.set_code(st.pc, &[op, 0x0000, 0x0004, 0x0000, 0x0004]);
        let mut n = 0;
        let r = guard(|| {
            let mut c = load::<C>(&st);
            let regs = c.regs;
            while n < times {
                c.regs = regs;
                if n & 1 == 1 { c.regs.sr = 0x8000u16.into(); }
                c.stop = false;
                if let Some(v) = ex { c.exception(Exception::from(v)); }
                bus.reset_log();
                match how {
                    0 => { c.interpreter(&mut bus); }
                    1 => if let (_, Some(v)) = c.interpreter_exception(&mut bus) { c.exception(Exception::from(v)) },
                    2 => { c.disassembler_interpreter(&mut bus); }
                    3 => { c.cycle(&mut bus, 12); }
                    _ => { c.cycle_until_exception(&mut bus, 12); }
                }
                n += 1;
            }
        });
        w.transitions(n as u64);
        w.state((op as u64) << 16 | how << 8 | ex.unwrap_or(0) as u64);
        if let Err(e) = r { w.fail(format!("C20:{}:life", mnem(op)), || format!("panic '{e}' the {n}th time, interface {how}, exception {ex:?}")); }
    }
    let nf = firsts.len() as u64;
    c.space("C20.long-lives", (nf + 256) * 10, |i, w| {
        let (how, scc, k) = (i % 5, i / 5 % 2 == 1, i / 10);
        let (op, ex) = if k < nf { (firsts[k as usize], None) } else { (0x4E71, Some((k - nf) as u8)) };
        if ex.is_some() && how & 1 == 1 { return; }
        if scc { live::<Scc>(w, op, ex, how, times, seed); } else { live::<Mc>(w, op, ex, how, times, seed); }
    });
    // The endless loop, uninterrupted.
    let (calls, cycles) = c.by((1, 1usize << 27), (45, 1usize << 30));
    c.space("C20.endless-loop", 4, |i, w| {
        let mut m = [0x60FEu16; 4];
        fn go<C: Model>(w: &mut W, m: &mut [u16], i: u64, calls: usize, cycles: usize) {
            let mut c = M68000::<C>::new_no_reset();
            for k in 0..calls {
                match guard(|| if i & 2 == 0 { c.cycle(m, cycles) } else { c.cycle_until_exception(m, cycles).0 }) {
                    Ok(n) => { w.transitions(n as u64 / 10); w.state(i); w.alive(); if n < cycles || n > cycles + 20 { w.fail("C20:endless-loop:total", || format!("{n} cycles for a budget of {cycles}")); } }
                    Err(e) => { w.fail("C20:endless-loop:panic", || format!("panic '{e}' in call {k} for {cycles} cycles")); return; }
                }
            }
        }
        if i & 1 == 0 { go::<Mc>(w, &mut m[..], i, calls, cycles); } else { go::<Scc>(w, &mut m[..], i, calls, cycles); }
    });
    // Two-instruction programs of everything that takes no extension word.
    let step = c.by(2u64, 1);
    c.space("C20.pairs", 65536, |i, w| {
        let (mut bus, a) = (Bus::new(seed), i as u16);
        if ext_words(&classify(a)) != 0 { return; }
        let mut b = i % step;
        while b < 65536 {
            bus.clear();
            let mut st = regfile((b % 3) as u32 * 2, 0);
            st.sr = if b & 1 == 0 { 0x2700 } else { 0x8000 };
            bus.set_code(st.pc, &[a, b as u16, 0x0000, 0x0000, 0x0000]);
            survive::<Mc>(w, &st, &mut bus, 2, false);
            b += step * if c.thorough() { 1 } else { 16 };
        }
    });
}

// ---------------------------------------------------------------------------------------------------------------
// C21

/// One step of the model and of the implementation: both must ask the memory for the same bytes, each as often.
fn traffic<C: Model>(w: &mut W, st: &St, bus: &mut Bus) {
    w.transition();
    w.trace();
    w.state(hash_case(st, bus));
    bus.reset_log();
    bus.rec = true;
    let mut m = *st;
    let out = exec::step(&mut m, bus, C::CPU);
    let mlog = std::mem::take(&mut bus.log);
    bus.reset_log();
    if out.undefined || out.fault || out.ext_fault || out.frame_fault || out.vec == Some(14) || out.ins.is_some_and(|i| unspecified(&i, st)) { bus.rec = false; return; }
    bus.fuse = 2000;
    let r = guard(|| { let mut c = load::<C>(st); c.interpreter_exception(bus) });
    bus.fuse = u32::MAX;
    bus.rec = false;
    let ilog = std::mem::take(&mut bus.log);
    bus.reset_log();
    let m = match out.ins { Some(i) => mnem(i.op), None => "exception".into() };
    if let Err(e) = r { w.fail(format!("C21:{m}:panic"), || format!("panic '{e}'; {}; {}", show_state(st), show_bus(bus))); return; }
    let bytes = |l: &[Acc]| {
        let mut v: Vec<(u32, bool)> = l.iter().flat_map(|a| (0..a.len as u32).map(move |k| (a.addr.wrapping_add(k), a.write))).collect();
        v.sort_unstable();
        v
    };
    let (mb, ib) = (bytes(&mlog), bytes(&ilog));
    let mut h = mc::engine::H::new();
    for (a, wr) in &ib { h.add((*a as u64) << 1 | *wr as u64); }
    w.outcome(h.get());
    if mb != ib {
        let diff = |a: &[(u32, bool)], b: &[(u32, bool)]| {
            let mut b = b.to_vec();
            a.iter().filter(|x| match b.iter().position(|y| y == *x) { Some(i) => { b.swap_remove(i); false } None => true }).map(|(a, wr)| format!("{}{a:x}", if *wr { "w" } else { "r" })).collect::<Vec<_>>()
        };
        let (extra, missing) = (diff(&ib, &mb), diff(&mb, &ib));
        let what = match (extra.iter().any(|e| e.starts_with('w')), extra.is_empty(), missing.is_empty()) { (true, ..) => "extra-write", (_, false, true) => "extra-read", (_, _, false) => "missing", _ => "other" };
        w.fail(format!("C21:{m}:{what}"), || format!("{} extra {extra:?} missing {missing:?}; {}; {}", C::CPU.name, show_state(st), show_bus(bus)));
        return;
    }
    // A byte both read and written is read first.
    let first = |l: &[Acc], a: u32| l.iter().find(|x| a.wrapping_sub(x.addr) < x.len as u32).map(|x| x.write);
    for (a, wr) in &ib {
        if *wr && first(&ilog, *a) != first(&mlog, *a) {
            w.fail(format!("C21:{m}:order"), || format!("{} byte {a:x}: model {mlog:x?} implementation {ilog:x?}; {}; {}", C::CPU.name, show_state(st), show_bus(bus)));
            return;
        }
    }
}

fn c21(c: &Ctx) {
    let seed = c.seed as u32;
    c.space("C21.opcodes", ALL_OPS, |i, w| {
        let op = i as u16;
        let f = classify(op);
        let (mut st, mut bus, mut words) = (St::new(), Bus::new(seed), Vec::new());
        let ne = if ext_words(&f) == 0 { 1 } else { pick(w, 12, 24) };
        for k in 0..pick(w, 12, 18) {
            for e in 0..ne {
                for n in 0..pick(w, 6, 12) {
                    for sr in [0x2700u16, 0x0015, 0x271F] {
                        case(&mut st, &mut bus, &mut words, op, e, k, n, seed, sr);
                        traffic::<Mc>(w, &st, &mut bus);
                        if sr == 0x0015 { traffic::<Scc>(w, &st, &mut bus); }
                    }
                }
            }
        }
        // Conditions: taken and not taken.
        if matches!(f.mn, Mn::Bcc | Mn::Dbcc | Mn::Scc) {
            for ccr in 0..32u16 { case(&mut st, &mut bus, &mut words, op, 0, 0, 0, seed, 0x2700 | ccr); traffic::<Mc>(w, &st, &mut bus); }
        }
    });
    // All register lists in all directions.
    let mm: Vec<u16> = (0..=0xFFFFu16).filter(|&op| { let f = classify(op); f.mn == Mn::Movem && (f.ea >> 3 == 7 || matches!(f.ea & 7, 1 | 7)) }).collect();
    let mm = &mm;
    c.space("C21.register-lists", 65536, |i, w| {
        let (mut st, mut bus, mut words) = (St::new(), Bus::new(seed), Vec::new());
        for &op in mm {
            case(&mut st, &mut bus, &mut words, op, 0, 0, 0, seed, 0x2700);
            words[1] = i as u16;
            bus.set_code(st.pc, &words);
            traffic::<Mc>(w, &st, &mut bus);
        }
    });
    // Exception processing: every vector, every pair, on both frame formats.
    c.space("C21.exceptions", 65536, |i, w| {
        let (v1, v2) = ((i >> 8) as u8, i as u8);
        if v2 > v1 { return; }
        let mut bus = Bus::new(seed);
        for sr in [0x2000u16, 0x0000, 0x8400] {
            for stop in [false, true] {
                bus.clear();
                let mut st = regfile(0, 0);
                st.sr = sr;
                st.stop = stop;
                st.pend.add(v1);
                st.pend.add(v2);
                bus.set_code(st.pc, &[0x4E71, 0x4E71]);
                for v in [v1, v2] { bus.put16(handler(v), 0x4E71); }
                traffic::<Mc>(w, &st, &mut bus);
                traffic::<Scc>(w, &st, &mut bus);
            }
        }
    });
}

fn main() {
    engine::main(&[("C06", c06), ("C07", c07), ("C08", c08), ("C20", c20), ("C21", c21)]);
}
