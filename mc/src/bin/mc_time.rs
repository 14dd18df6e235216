//! C16: execution times. Every timing class of every opcode on both processors and on a probe processor whose table
//! entries are all different, so that the use of a wrong entry of equal value shows as well.

use mc::bus::Bus;
use mc::decode::*;
use mc::drive::*;
use mc::engine::{self, guard, Ctx, W};
use mc::exec::{self, St};
use mc::times::{Cpu, K};
use m68000::cpu_details::{CpuDetails, StackFormat};

/// Table entry `k` of the probe.
const fn probe(k: usize) -> usize { 100 + (k * 7919) % 65_537 }
fn probe_vector(v: u8) -> u64 { 1_000_000 + 1_009 * v as u64 }

#[derive(Clone, Copy, Debug, Default)]
struct Probe;
macro_rules! probe_consts {
    ($($n:ident),*) => { $(const $n: usize = probe(K::$n as usize);)* };
}
impl CpuDetails for Probe {
    const STACK_FORMAT: StackFormat = StackFormat::MC68000;
    const VECTOR_RESET: usize = 999_983;
    fn vector_execution_time(vector: u8) -> usize { probe_vector(vector) as usize }
    mc::for_all_times! { probe_consts }
}
static PROBE_T: [u64; 236] = {
    let mut t = [0; 236];
    let mut i = 0;
    while i < 236 { t[i] = probe(i) as u64; i += 1; }
    t
};
static PROBE: Cpu = Cpu { name: "probe", scc: false, t: &PROBE_T, reset: 999_983, vector: probe_vector };
impl Model for Probe {
    const CPU: &'static Cpu = &PROBE;
}

/// One step, comparing the vector and the cycles.
fn timed<C: Model>(w: &mut W, tag: &str, st: &St, bus: &mut Bus) {
    w.transition();
    w.trace();
    w.state(hash_case(st, bus));
    bus.reset_log();
    let mut m = *st;
    let out = exec::step(&mut m, bus, C::CPU);
    if out.undefined || out.ext_fault { return; }
    if let Some(i) = &out.ins { if unspecified(i, st) { return; } }
    bus.reset_log();
    bus.fuse = 2000;
    let got = guard(|| { let mut c = load::<C>(st); c.interpreter_exception(bus) });
    bus.fuse = u32::MAX;
    let name = match out.ins { Some(i) => format!("{:?}{}", i.f.mn, ["", ".B", ".W", "", ".L"][i.f.sz as usize]), None => "fetch".into() };
    let (s, b) = (*st, bus.clone());
    match got {
        Err(e) => w.fail(format!("C16:{}:{tag}:{name}:panic", C::CPU.name), || format!("panic '{e}'; {}; {}", show_state(&s), show_bus(&b))),
        Ok((cyc, vec)) => {
            w.outcome(cyc as u64 ^ (C::CPU.scc as u64) << 40 ^ (out.ins.map_or(0, |i| i.op) as u64) << 44);
            if vec != out.vec { return; } // Another property's business.
            if out.trap_ea != 0 {
                // The manual adds the operand time to the exception processing time.
                if cyc as u64 == out.cyc {
                    w.fail(format!("C16:{:?}:operand-time-of-trapping-instruction", out.ins.unwrap().f.mn), || format!("{}: {} cycles of operand time not counted; {}; {}", C::CPU.name, out.trap_ea, show_state(&s), show_bus(&b)));
                    return;
                }
                if cyc as u64 == out.cyc + out.trap_ea { return; }
            }
            if cyc as u64 != out.cyc {
                w.fail(format!("C16:{}:{tag}:{name}:cycles", C::CPU.name), || format!("expected {} got {cyc} (vector {vec:?}, of which exception processing {}); {}; {}", out.cyc, out.proc_cyc, show_state(&s), show_bus(&b)));
            }
        }
    }
}

fn all(w: &mut W, tag: &str, st: &St, bus: &mut Bus) {
    timed::<Mc>(w, tag, st, bus);
    timed::<Scc>(w, tag, st, bus);
    timed::<Probe>(w, tag, st, bus);
}

fn c16(c: &Ctx) {
    let seed = c.seed as u32;
    c.assume("times of instructions that raise an exception are those of the exception processing only, plus the operand time of CHK and of divisions");
    c.space("C16.opcodes", ALL_OPS, |i, w| {
        let op = i as u16;
        let f = classify(op);
        let mut bus = Bus::new(seed);
        let mut words = Vec::new();
        let ne = if ext_words(&f) == 0 { 1 } else { w.tier().pick(5, 20) };
        for k in 0..w.tier().pick(3, 10) {
            for e in 0..ne {
                for (n, &(s, d)) in SHORT.iter().enumerate() {
                    if w.tier() == engine::Tier::Quick && (n + e) % 2 == 1 { continue; }
                    for sr in [0x2700u16, 0x001F, 0xA715] {
                        bus.clear();
                        let mut st = regfile(k, seed as u64);
                        st.sr = sr;
                        words.clear();
                        words.push(op);
                        ext_fill(&f, e, &mut words);
                        if n > 0 { set_operands(&mut st, &mut bus, &mut words, s, d); }
                        bus.set_code(st.pc, &words);
                        all(w, "opcode", &st, &mut bus);
                    }
                }
            }
        }
        if op % 9973 == 1 { w.sample(|| format!("opcode {op:04X} {:?}: every operand pair on MC68000, SCC68070 and the probe", f.mn)); }
    });
    // Uniform extension words on every opcode: immediates, displacements, lists and addresses of zero, one, all ones, sign.
    c.space("C16.extension-fills", ALL_OPS, |i, w| {
        let f = classify(i as u16);
        let n = ext_words(&f);
        if n == 0 { return; }
        let mut bus = Bus::new(seed);
        for k in 0..w.tier().pick(2, 8) {
            for v in [0u16, 1, 2, 0x7FFF, 0x8000, 0xFFFE, 0xFFFF] {
                bus.clear();
                let mut st = regfile(k, seed as u64);
                st.sr = 0x2700;
                let mut words = vec![i as u16];
                words.resize(1 + n, v);
                bus.set_code(st.pc, &words);
                all(w, "extension", &st, &mut bus);
            }
        }
    });
    // One opcode of every mnemonic, size, direction and pair of modes, every value of each extension word.
    let mode = |ea: u8| if ea == 0xFF { 99 } else if ea >> 3 == 7 { 8 + (ea & 7) } else { ea >> 3 };
    let mut seen = std::collections::BTreeSet::new();
    let reps: Vec<(u16, usize)> = (0..=0xFFFFu16).filter(|&op| {
        let f = classify(op);
        ext_words(&f) > 0 && seen.insert((f.mn as u8, f.sz, f.dir, f.ir, mode(f.ea), if f.mn == Mn::Move { mode((op >> 3 & 0x38 | op >> 9 & 7) as u8) } else { 0 }))
    }).flat_map(|op| (1..=ext_words(&classify(op))).map(move |j| (op, j))).collect();
    let step = 256;
    let chunks = 65536 / step;
    c.space("C16.extension-words", reps.len() as u64 * chunks, |i, w| {
        let (op, j) = reps[(i / chunks) as usize];
        let f = classify(op);
        let mut bus = Bus::new(seed);
        for x in i % chunks * step..i % chunks * step + step {
            let v = x as u16;
            bus.clear();
            let mut st = regfile(0, 0);
            let mut words = vec![op];
            ext_fill(&f, 0, &mut words);
            words[j] = v;
            bus.set_code(st.pc, &words);
            // Conditional instructions with their condition met and not.
            for (ccr, d) in [(0, 0), (0x1F, 0), (0, 1), (0x1F, 1)] {
                if ccr > 0 && !matches!(f.mn, Mn::Bcc | Mn::Dbcc) || d > 0 && f.mn != Mn::Dbcc { continue; }
                st.sr = 0x2700 | ccr;
                if f.mn == Mn::Dbcc { st.d[f.y as usize] = d; }
                bus.clear();
                bus.set_code(st.pc, &words);
                all(w, "extension", &st, &mut bus);
            }
        }
    });
    // Conditional instructions under all condition codes.
    c.space("C16.conditions", ALL_OPS, |i, w| {
        let f = classify(i as u16);
        if !matches!(f.mn, Mn::Bcc | Mn::Dbcc | Mn::Scc | Mn::Trapv | Mn::Bra | Mn::Bsr) { return; }
        if matches!(f.mn, Mn::Bcc | Mn::Bra | Mn::Bsr) && w.tier() == engine::Tier::Quick && i as u8 % 16 > 2 { return; }
        let mut bus = Bus::new(seed);
        for ccr in 0..32u16 {
            for d in [0u32, 1, 0x1_0000] {
                bus.clear();
                let mut st = regfile(0, 0);
                st.sr = 0x2700 | ccr;
                let mut words = vec![i as u16];
                ext_fill(&f, 0, &mut words);
                if f.mn == Mn::Dbcc { st.d[f.y as usize] = d; } else if d > 0 { continue; }
                bus.set_code(st.pc, &words);
                all(w, "condition", &st, &mut bus);
            }
        }
    });
    // Register shift counts: 0..=255 in the register; all register lists of MOVEM.
    let shifts: Vec<u16> = (0xE000..=0xEFFFu16).filter(|&op| { let f = classify(op); f.ir && matches!(f.mn, Mn::Asr | Mn::Lsr | Mn::Ror | Mn::Roxr) && f.x == 2 && f.y == 1 }).collect();
    c.space("C16.shift-counts", shifts.len() as u64 * 256, |i, w| {
        let op = shifts[(i / 256) as usize];
        let mut bus = Bus::new(seed);
        for hi in [0u32, 0xFFFF_FF00] {
            bus.clear();
            let mut st = regfile(0, 0);
            st.d[2] = hi | (i % 256) as u32;
            bus.set_code(st.pc, &[op]);
            all(w, "shift", &st, &mut bus);
        }
    });
    let mm: Vec<u16> = (0..=0xFFFFu16).filter(|&op| { let f = classify(op); f.mn == Mn::Movem && (f.ea >> 3 == 7 || f.ea & 7 == 1) }).collect();
    c.space("C16.register-lists", 65536, |i, w| {
        let mut bus = Bus::new(seed);
        for &op in &mm {
            bus.clear();
            let st = regfile(0, 0);
            let mut words = vec![op];
            ext_fill(&classify(op), 0, &mut words);
            words[1] = i as u16;
            bus.set_code(st.pc, &words);
            all(w, "list", &st, &mut bus);
        }
    });
    // DIV and MUL operands: constants in every model, whatever the operands.
    c.space("C16.multiplier-words", 65536, |i, w| {
        let mut bus = Bus::new(seed);
        for op in [0xC4C1u16, 0xC5C1, 0x84C1, 0x85C1] {
            for d in [0u32, 0x1234_5678, 0xFFFF_FFFF] {
                bus.clear();
                let mut st = regfile(0, 0);
                st.d[1] = i as u32;
                st.d[2] = d;
                bus.set_code(st.pc, &[op]);
                all(w, "muldiv", &st, &mut bus);
            }
        }
    });
    // Exception processing: every vector, every pair, under all masks; in front of instructions of distinct cost.
    c.space("C16.exceptions", 65536, |i, w| {
        let (v1, v2) = ((i >> 8) as u8, i as u8);
        let mut bus = Bus::new(seed);
        for sr in if v1 == v2 { &[0x2700u16, 0x2000, 0x2300, 0x0100, 0x8200, 0x0600][..] } else { &[0x2300u16, 0x8000][..] } {
            bus.clear();
            let mut st = regfile(0, 0);
            st.sr = *sr;
            st.pend.add(v1);
            st.pend.add(v2);
            // The instruction of the handler that runs first costs 4 (NOP) or 20 (ORI to CCR).
            bus.set_code(st.pc, &[0x4E71]);
            for v in [v1, v2] { bus.put16(mc::bus::handler(v), 0x003C); bus.put16(mc::bus::handler(v) + 2, 0); }
            all(w, "exception", &st, &mut bus);
        }
    });
    // RTE frame formats of the SCC68070.
    c.space("C16.rte-formats", 65536, |i, w| {
        let mut bus = Bus::new(seed);
        let mut st = regfile(0, 0);
        st.sr = 0x2700;
        bus.set_code(st.pc, &[0x4E73]);
        bus.put16(st.ssp, 0x2000);
        bus.put32(st.ssp + 2, 0x5000);
        bus.put16(st.ssp + 6, i as u16);
        all(w, "rte", &st, &mut bus);
    });
    // A stopped processor takes no time.
    c.space("C16.stopped", 256, |i, w| {
        let mut bus = Bus::new(seed);
        let mut st = regfile(0, 0);
        st.stop = true;
        st.sr = 0x2000 | (i as u16) << 8 & 0x8700;
        all(w, "stopped", &st, &mut bus);
        if exec::wakes(i as u8, st.mask()) { return; }
        st.pend.add(i as u8);
        all(w, "stopped", &st, &mut bus);
    });
}

trait Pick { fn pick<T>(self, q: T, t: T) -> T; }
impl Pick for engine::Tier {
    fn pick<T>(self, q: T, t: T) -> T { if self == engine::Tier::Thorough { t } else { q } }
}

fn main() { engine::main(&[("C16", c16)]); }
