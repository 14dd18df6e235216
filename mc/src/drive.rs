//! Lock-step comparison of the implementation with the reference model.

use crate::bus::Bus;
use crate::decode::*;
use crate::engine::{guard, H, W};
use crate::exec::{self, Dc, Out, St, S};
use crate::times::{self, Cpu};
use m68000::exception::Exception;
use m68000::status_register::StatusRegister;
use m68000::{CpuDetails, M68000};

/// A processor of the crate paired with what the model knows about it.
pub trait Model: CpuDetails + Clone + std::fmt::Debug {
    const CPU: &'static Cpu;
}
impl Model for m68000::cpu_details::Mc68000 {
    const CPU: &'static Cpu = &times::MC68000;
}
impl Model for m68000::cpu_details::Scc68070 {
    const CPU: &'static Cpu = &times::SCC68070;
}
pub type Mc = m68000::cpu_details::Mc68000;
pub type Scc = m68000::cpu_details::Scc68070;

/// An implementation core in the given state.
pub fn load<C: Model>(s: &St) -> M68000<C> {
    let mut c = M68000::<C>::new_no_reset();
    for i in 0..8 { c.regs.d[i].0 = s.d[i]; }
    for i in 0..7 { c.regs.a[i].0 = s.a[i]; }
    c.regs.usp.0 = s.usp;
    c.regs.ssp.0 = s.ssp;
    c.regs.pc.0 = s.pc;
    c.regs.sr = StatusRegister::from(s.sr);
    if !s.pend.is_empty() {
        for v in s.pend.list() { c.exception(Exception::from(v)); }
    }
    c.stop = s.stop;
    c
}

/// The visible state of an implementation core.
pub fn view<C: CpuDetails>(c: &M68000<C>) -> St {
    let mut s = St::default();
    for i in 0..8 { s.d[i] = c.regs.d[i].0; }
    for i in 0..7 { s.a[i] = c.regs.a[i].0; }
    s.usp = c.regs.usp.0;
    s.ssp = c.regs.ssp.0;
    s.pc = c.regs.pc.0;
    s.sr = u16::from(c.regs.sr);
    s.stop = c.stop;
    s
}

pub fn hash_state(s: &St, h: &mut H) {
    for i in 0..4 { h.add((s.d[2 * i] as u64) << 32 | s.d[2 * i + 1] as u64); }
    for i in 0..3 { h.add((s.a[2 * i] as u64) << 32 | s.a[2 * i + 1] as u64); }
    h.add((s.a[6] as u64) << 32 | s.usp as u64);
    h.add((s.ssp as u64) << 32 | s.pc as u64);
    h.add((s.sr as u64) << 1 | s.stop as u64);
    for p in s.pend.0 { h.add(p); }
}

pub fn hash_case(s: &St, b: &Bus) -> u64 {
    let mut h = H::new();
    hash_state(s, &mut h);
    h.add((b.seed as u64) << 32 | b.code_base as u64);
    for c in b.code[..b.code_len as usize].chunks(8) {
        let mut v = 0u64;
        for x in c { v = v << 8 | *x as u64; }
        h.add(v);
    }
    for (a, v) in &b.preset { h.add((*a as u64) << 8 | *v as u64); }
    for (a, v) in &b.holes { h.add((*a as u64) << 32 | *v as u64 | 1 << 63); }
    h.add(b.refuses as u64);
    h.get()
}

/// The instruction's result is left open by the architecture.
pub fn unspecified(i: &Ins, s: &St) -> bool {
    match i.f.mn {
        // No register is transferred: whether the address is checked is open.
        Mn::Movem => i.imm & 0xFFFF == 0 && { let mut t = *s; exec::addr_of(&mut t, i.am, i.f.sz) & 1 != 0 },
        _ => false,
    }
}

/// Address registers a faulting instruction may have changed.
fn loose_a(i: &Ins) -> u8 {
    let mut m = 0u8;
    for am in [i.am, i.am2] {
        if let Am::Post(r) | Am::Pre(r) = am { m |= 1 << r; }
    }
    match i.f.mn {
        Mn::Abcd | Mn::Sbcd | Mn::Addx | Mn::Subx | Mn::Cmpm => m |= 1 << i.f.x | 1 << i.f.y,
        Mn::Jsr | Mn::Pea | Mn::Bsr | Mn::Rts | Mn::Rtr | Mn::Rte => m |= 0x80,
        Mn::Link | Mn::Unlk => m |= 0x80 | 1 << i.f.y,
        Mn::Movem if i.f.dir => m |= (i.imm >> 8) as u8,
        _ => {}
    }
    m
}

fn loose_d(i: &Ins) -> u8 {
    match i.f.mn {
        Mn::Movem if i.f.dir => i.imm as u8,
        Mn::Movep if !i.f.dir => 1 << i.f.x,
        _ => 0,
    }
}

/// Reusable buffers.
pub struct Scratch {
    mw: Vec<(u32, u8)>,
    mdelta: Vec<(u32, u8)>,
    idelta: Vec<(u32, u8)>,
}
impl Default for Scratch {
    fn default() -> Self { Scratch { mw: Vec::with_capacity(128), mdelta: Vec::new(), idelta: Vec::new() } }
}

pub fn show_state(s: &St) -> String {
    format!("d={:08x?} a={:08x?} usp={:08x} ssp={:08x} sr={:04x} pc={:08x} stop={} pend={:?}", s.d, s.a, s.usp, s.ssp, s.sr, s.pc, s.stop, s.pend.list())
}

pub fn show_bus(b: &Bus) -> String {
    let code: Vec<String> = b.code[..b.code_len as usize].chunks(2).map(|c| format!("{:02X}{:02X}", c[0], *c.get(1).unwrap_or(&0))).collect();
    format!("code@{:x}=[{}] seed={} preset={:x?} holes={:x?} ({:?})", b.code_base, code.join(" "), b.seed, b.preset, b.holes, b.refuses)
}

/// What the implementation did in a step.
pub struct Got {
    pub st: St,
    pub cyc: u64,
    pub vec: Option<u8>,
}

/// Everything a step of the implementation showed.
fn did(got: &Result<Got, String>, bus: &Bus) -> u64 {
    let mut h = H::new();
    match got {
        Ok(g) => { hash_state(&g.st, &mut h); h.add(g.cyc << 9 | g.vec.map_or(0, |v| v as u64 | 256)); }
        Err(_) => h.add(1),
    }
    for (a, v) in &bus.w { h.add((*a as u64) << 8 | *v as u64); }
    h.add(bus.resets as u64);
    h.get()
}

#[derive(Clone, Copy)]
pub struct Opt {
    /// Compare the cycle counts.
    pub cycles: bool,
    /// Compare the vector and contents of steps that end in a memory fault.
    pub faults: bool,
    /// Compare results (registers and memory); otherwise only vectors.
    pub results: bool,
}

pub const FULL: Opt = Opt { cycles: true, faults: true, results: true };
pub const NOCYC: Opt = Opt { cycles: false, faults: true, results: true };

/// Runs one step of the model and of the implementation from the same state and memory and compares them.
/// `tag` prefixes the violation key. Returns the model's outcome and state.
pub fn lockstep<C: Model>(w: &mut W, tag: &str, st: &St, bus: &mut Bus, sc: &mut Scratch, opt: Opt) -> Option<(Out, St)> {
    w.transition();
    w.trace();
    w.state(hash_case(st, bus));
    bus.reset_log();
    bus.fuse = u32::MAX;
    let mut m = *st;
    let out = exec::step(&mut m, bus, C::CPU);
    if out.undefined { return None; }
    std::mem::swap(&mut sc.mw, &mut bus.w);
    let mresets = bus.resets;
    bus.reset_log();
    bus.fuse = 2000;
    let got = guard(|| {
        let mut c = load::<C>(st);
        let (cyc, vec) = c.interpreter_exception(bus);
        Got { st: view(&c), cyc: cyc as u64, vec }
    });
    bus.fuse = u32::MAX;
    w.digest(|| did(&got, bus));
    let name = |o: &Out| match o.ins { Some(i) => format!("{:?}{}", i.f.mn, ["", ".B", ".W", "", ".L"][i.f.sz as usize]), None => "fetch".into() };
    let got = match got {
        Ok(g) => g,
        Err(e) => {
            let key = if out.ext_fault { ext_key(st, bus) } else { format!("{tag}:{}:panic", name(&out)) };
            let (s, b) = (*st, bus.clone());
            w.fail(key, || format!("panic '{e}'; before {}; {}", show_state(&s), show_bus(&b)));
            return Some((out, m));
        }
    };
    let mut h = H::new();
    hash_state(&m, &mut h);
    h.add(out.cyc ^ (out.vec.unwrap_or(0) as u64) << 48);
    w.outcome(h.get());
    if let Some(what) = differ::<C>(st, &m, &out, bus, mresets, &got, sc, opt) {
        let (s, b) = (*st, bus.clone());
        w.fail(format!("{tag}:{}:{}", name(&out), what.0), || {
            format!("{}: {}; before {}; {}; expected {} cycles={} vector={:?} (writes {:x?}); got {} cycles={} vector={:?} (writes {:x?})", what.0, what.1, show_state(&s), show_bus(&b), show_state(&m), out.cyc, out.vec, sc.mw, show_state(&got.st), got.cyc, got.vec, b.w)
        });
    }
    Some((out, m))
}

/// How a persistent core is stepped.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum How { Report, Auto, DisReport, DisAuto }

/// Steps a persistent core and the model together from the common state `st` and memory `bus`, compares them, and
/// makes the outcome the new common state: where the architecture leaves something open the implementation's choice is
/// adopted. With `Auto` the exceptions raised are requested, in the model too. None: the path cannot be continued.
pub fn advance<C: Model>(w: &mut W, tag: &str, c: &mut M68000<C>, st: &mut St, bus: &mut Bus, sc: &mut Scratch, opt: Opt, how: How) -> Option<Out> {
    w.transition();
    w.trace();
    w.state(hash_case(st, bus));
    bus.reset_log();
    let before = *st;
    let mut m = before;
    let out = exec::step(&mut m, bus, C::CPU);
    if out.undefined || out.ext_fault { return None; }
    std::mem::swap(&mut sc.mw, &mut bus.w);
    let mresets = bus.resets;
    bus.reset_log();
    bus.fuse = 4000;
    let got = guard(|| {
        let (cyc, vec) = match how {
            How::Report => c.interpreter_exception(bus),
            How::Auto => (c.interpreter(bus), out.vec),
            How::DisReport => { let (_, _, n, v) = c.disassembler_interpreter_exception(bus); (n, v) }
            How::DisAuto => { let (_, _, n) = c.disassembler_interpreter(bus); (n, out.vec) }
        };
        Got { st: view(c), cyc: cyc as u64, vec }
    });
    bus.fuse = u32::MAX;
    w.digest(|| did(&got, bus));
    let name = || match out.ins { Some(i) => format!("{:?}{}", i.f.mn, ["", ".B", ".W", "", ".L"][i.f.sz as usize]), None => "fetch".into() };
    let got = match got {
        Ok(g) => g,
        Err(e) => {
            w.fail(format!("{tag}:{}:panic", name()), || format!("panic '{e}'; before {}; {}", show_state(&before), show_bus(bus)));
            return None;
        }
    };
    if matches!(how, How::Auto | How::DisAuto) {
        if let Some(v) = out.vec { exec::request(&mut m, v); }
    }
    if let Some(what) = differ::<C>(&before, &m, &out, bus, mresets, &got, sc, opt) {
        w.fail(format!("{tag}:{}:{}", name(), what.0), || {
            format!("{}: {}; {how:?}; before {}; {}; expected {} cycles={} vector={:?} (writes {:x?}); got {} cycles={} vector={:?} (writes {:x?})", what.0, what.1, show_state(&before), show_bus(bus), show_state(&m), out.cyc, out.vec, sc.mw, show_state(&got.st), got.cyc, got.vec, bus.w)
        });
        return None;
    }
    if let Some(i) = &out.ins { if unspecified(i, &before) { return None; } }
    let mut h = H::new();
    hash_state(&m, &mut h);
    h.add(out.cyc ^ (out.vec.unwrap_or(0) as u64) << 48);
    w.outcome(h.get());
    let pend = m.pend;
    let ir = m.ir;
    *st = got.st;
    st.pend = pend;
    st.ir = ir;
    fold(bus);
    Some(out)
}

/// Makes the bytes written part of the initial contents.
pub fn fold(bus: &mut Bus) {
    for i in 0..bus.w.len() {
        let (a, v) = bus.w[i];
        match bus.preset.iter_mut().rev().find(|e| e.0 == a) {
            Some(e) => e.1 = v,
            None => bus.preset.push((a, v)),
        }
    }
    bus.reset_log();
}

/// Key of a refused extension word fetch.
pub fn ext_key(st: &St, bus: &Bus) -> String {
    let op = bus.peek16(st.pc);
    let f = classify(op);
    let roles = ext_roles(&f);
    let at = (0..roles.len()).find(|i| {
        let a = st.pc.wrapping_add(2 + 2 * *i as u32);
        bus.holes.iter().any(|h| a.wrapping_sub(h.0) < h.1 || a.wrapping_add(1).wrapping_sub(h.0) < h.1)
    });
    match at {
        Some(i) => format!("ext-word-fetch-panic:{:?}", roles[i]),
        None => format!("ext-word-fetch-panic:{:?}:none", f.mn),
    }
}

fn differ<C: Model>(st: &St, m: &St, out: &Out, bus: &mut Bus, mresets: u32, got: &Got, sc: &mut Scratch, opt: Opt) -> Option<(&'static str, String)> {
    let g = &got.st;
    if let Some(i) = &out.ins {
        if unspecified(i, st) { return None; }
    }
    if got.vec != out.vec { return Some(("vector", format!("expected {:?} got {:?}", out.vec, got.vec))); }
    if bus.odd != 0 { return Some(("odd-access", "the memory was asked for a word at an odd address".into())); }
    if opt.cycles && got.cyc != out.cyc { return Some(("cycles", format!("expected {} got {}", out.cyc, got.cyc))); }
    if !opt.results { return None; }
    if g.stop != m.stop { return Some(("stop", format!("expected {} got {}", m.stop, g.stop))); }
    if bus.resets != mresets { return Some(("reset-signal", format!("expected {} got {}", mresets, bus.resets))); }
    if out.fault && !out.fetch_fault {
        if !opt.faults { return None; }
        if out.ext_fault { return None; }
        if out.processed != 0 { return None; }
        let i = out.ins.as_ref().unwrap();
        // Footprint of the instruction if nothing failed.
        let iw = std::mem::take(&mut bus.w);
        let mut t = *st;
        bus.lenient = true;
        exec::step(&mut t, bus, C::CPU);
        bus.lenient = false;
        let allowed = std::mem::replace(&mut bus.w, iw);
        for &(a, v) in &bus.w {
            if !allowed.iter().any(|e| e.0 == a) && bus.initial(a) != v {
                return Some(("fault-memory", format!("faulting instruction changed memory at {a:x}")));
            }
        }
        let (ld, la) = (loose_d(i), loose_a(i));
        for r in 0..8 {
            if ld >> r & 1 == 0 && g.d[r] != st.d[r] { return Some(("fault-dreg", format!("faulting instruction changed D{r}"))); }
        }
        for r in 0..7 {
            if la >> r & 1 == 0 && g.a[r] != st.a[r] { return Some(("fault-areg", format!("faulting instruction changed A{r}"))); }
        }
        let sup = st.sr & S != 0;
        if (!sup || la & 0x80 == 0) && g.ssp != st.ssp { return Some(("fault-ssp", "faulting instruction changed SSP".into())); }
        if (sup || la & 0x80 == 0) && g.usp != st.usp { return Some(("fault-usp", "faulting instruction changed USP".into())); }
        if (g.sr ^ st.sr) & 0xFF00 != 0 { return Some(("fault-sr", "faulting instruction changed the system byte".into())); }
        return None;
    }
    // SCC68070 return with an unknown frame format: only the vector is defined.
    if out.vec == Some(14) { return None; }
    for r in 0..8 {
        let mask = if out.dc == Dc::DByte(r as u8) { !0xFF } else { !0 };
        if (g.d[r] ^ m.d[r]) & mask != 0 { return Some(("data-register", format!("D{r} expected {:08x} got {:08x}", m.d[r], g.d[r]))); }
    }
    if g.a != m.a { return Some(("address-register", format!("expected {:08x?} got {:08x?}", m.a, g.a))); }
    if g.usp != m.usp { return Some(("usp", format!("expected {:08x} got {:08x}", m.usp, g.usp))); }
    // Partly pushed frames: every exception processed takes at most 34 bytes.
    let room = 34 * out.processed;
    if out.frame_fault && st.ssp.wrapping_sub(g.ssp) > room && st.ssp & 1 == 0 { return Some(("ssp", format!("partly pushed frames end at {:08x}", g.ssp))); }
    if !out.frame_fault && g.ssp != m.ssp { return Some(("ssp", format!("expected {:08x} got {:08x}", m.ssp, g.ssp))); }
    let x = g.sr ^ m.sr;
    if x & 0xFF00 != 0 { return Some(("system-byte", format!("SR expected {:04x} got {:04x}", m.sr, g.sr))); }
    if x & 0xFF & (out.sr_mask | 0xE0) != 0 { return Some(("ccr", format!("expected {:02x} got {:02x} (defined bits {:02x})", m.sr & 0xFF, g.sr & 0xFF, out.sr_mask & 0x1F))); }
    if g.pc != m.pc && !out.fetch_fault { return Some(("pc", format!("expected {:08x} got {:08x}", m.pc, g.pc))); }
    if out.frame_fault {
        let low = st.ssp.wrapping_sub(room);
        if let Some(e) = bus.w.iter().find(|e| e.0.wrapping_sub(low) >= room && !sc.mw.contains(e)) { return Some(("frame-fault-memory", format!("memory changed at {:x}", e.0))); }
        return None;
    }
    if sc.mw != bus.w {
        bus.delta(&mut sc.idelta);
        std::mem::swap(&mut sc.mw, &mut bus.w);
        bus.delta(&mut sc.mdelta);
        std::mem::swap(&mut sc.mw, &mut bus.w);
        if let Dc::Mem(a) = out.dc {
            sc.idelta.retain(|e| e.0 != a);
            sc.mdelta.retain(|e| e.0 != a);
        }
        if sc.idelta != sc.mdelta { return Some(("memory", format!("expected changes {:x?} got {:x?}", sc.mdelta, sc.idelta))); }
    }
    None
}

// ---------------------------------------------------------------------------------------------------------------
// Case construction.

pub const PC: u32 = 0x4000;

/// Register files. 0: tame, even, spaced; 1: extreme; 2: wrap-around addresses; 3: aliased; 4+: pseudo-random even.
pub fn regfile(k: u32, seed: u64) -> St {
    let mut s = St::new();
    s.pc = PC;
    match k {
        0 => {
            for i in 0..8 { s.d[i] = 0x100 * i as u32 + 0x12; }
            for i in 0..7 { s.a[i] = 0x0002_0000 + 0x1_0000 * i as u32; }
            s.usp = 0x000A_0000;
            s.ssp = 0x000B_0000;
        }
        1 => {
            s.d = [0x8000_0000, 0x7FFF_FFFE, 0xFFFF_FFFE, 0, 0x0000_8000, 0xFFFF_8000, 0x0001_007E, 0x8000_7F80];
            s.a = [0xFFFF_FFFE, 0, 0x7FFF_FFFE, 0x8000_0000, 0x0000_8000, 0xFFFF_8000, 2];
            s.usp = 0;
            s.ssp = 0xFFFF_FFF0;
        }
        2 => {
            s.d = [0x0102_0304, 0xF0F0_F0F0, 0x0000_FFFE, 0xFFFF_0002, 0x5555_5554, 0xAAAA_AAAA, 0x00FF_00FE, 0xFF00_FF00];
            s.a = [4, 0xFFFF_FFFC, 0xFFFF_FFF8, 8, 0xFFFF_FFFE, 6, 0x10];
            s.usp = 8;
            s.ssp = 4;
        }
        3 => {
            s.d = [0x0003_0000; 8];
            s.a = [0x0003_0000; 7];
            s.usp = 0x0003_0000;
            s.ssp = 0x0003_0000;
        }
        _ => {
            let mut h = H::new();
            h.add(seed);
            h.add(k as u64);
            let mut n = || { h.add(1); h.get() as u32 };
            for i in 0..8 { s.d[i] = n() & !1; }
            for i in 0..7 { s.a[i] = n() & !1; }
            s.usp = n() & !1;
            s.ssp = n() & !1;
        }
    }
    s
}

/// Values for an extension word of the given role.
pub fn ext_value(role: ExtRole, k: usize, byte: bool) -> u16 {
    use ExtRole::*;
    let t: &[u16] = match role {
        Imm | ImmEa | ImmLo | ImmEaLo => &[0x0012, 0x7FFF, 0x8000, 0xFFFF, 0, 1, 0x007F, 0x0080, 0x00FF, 0xA5C3, 0x2704, 0x5A18],
        ImmHi | ImmEaHi => &[0x0001, 0x7FFF, 0x8000, 0xFFFF, 0, 0, 0xFFFF, 0x0080, 0x00FF, 0xA5C3],
        List => &[0x8103, 0xFFFF, 0x00FF, 0xFF00, 0x5555, 0xAAAA, 0x0001, 0x8000, 0, 0x4182],
        Disp => &[0x0010, 0xFFFE, 0x7FFE, 0x8000, 2, 0, 0x0100, 0xFF00],
        D16 | PcD16 => if byte { &[0x0011, 0xFFFF, 0x7FFF, 0x8000, 3, 0, 0x0100] } else { &[0x0010, 0xFFFE, 0x7FFE, 0x8000, 2, 0, 0x0100] },
        Brief | PcBrief => &[0x0008, 0x187E, 0x2080, 0x98FE, 0xA002, 0x7806, 0xF004, 0x3F02, 0xC87E, 0x4000, 0x5880, 0xE880],
        AbsW => &[0x1000, 0x7FFE, 0x8000, 0xFFFE, 0x0C00],
        AbsHi => &[0x0007, 0xFFFF, 0x0000, 0x8000, 0x7FFF],
        AbsLo => &[0x2000, 0xFFFC, 0x0800, 0x0000, 0xFFFE],
        Count => &[3, 0, 7, 8, 15, 16, 31, 32, 0xFF, 0x0107],
    };
    t[k % t.len()]
}

/// Fills the extension words of `op` with the `k`-th combination.
pub fn ext_fill(f: &Form, k: usize, out: &mut Vec<u16>) {
    for (j, r) in ext_roles(f).into_iter().enumerate() {
        out.push(ext_value(r, k + j * 3, f.sz == 1));
    }
}

/// Sets the operands of an instruction: `s` for the source or only operand, `d` for the destination or second one.
/// Registers are changed in `st`, memory operands become presets of `bus`, immediate operands change the code words.
/// Returns the code words.
pub fn set_operands(st: &mut St, bus: &mut Bus, words: &mut [u16], s: u32, d: u32) {
    let op = words[0];
    let f = classify(op);
    let (x, y) = (f.x as usize, f.y as usize);
    let pc = st.pc;
    match f.mn {
        Mn::Add | Mn::Sub | Mn::And | Mn::Or | Mn::Cmp | Mn::Eor | Mn::Chk | Mn::Divs | Mn::Divu | Mn::Muls | Mn::Mulu => st.d[x] = d,
        Mn::Btst | Mn::Bchg | Mn::Bclr | Mn::Bset => if f.dir { st.d[x] = d } else { words[1] = d as u16 },
        Mn::Adda | Mn::Suba | Mn::Cmpa => {
            let used = matches!(f.ea >> 3, 2..=6) && f.ea & 7 == f.x || f.ea >> 3 == 6 || f.ea == 0x3B;
            if !used { st.set_a(f.x, d) }
        }
        Mn::Abcd | Mn::Sbcd | Mn::Addx | Mn::Subx if !f.dir => { st.d[y] = s; st.d[x] = d; }
        Mn::Abcd | Mn::Sbcd | Mn::Addx | Mn::Subx => {
            let mut t = *st;
            let a = exec::addr_of(&mut t, Am::Pre(f.y), f.sz);
            let b = exec::addr_of(&mut t, Am::Pre(f.x), f.sz);
            bus.put(a, f.sz, s);
            bus.put(b, f.sz, d);
        }
        Mn::Cmpm => {
            let mut t = *st;
            let a = exec::addr_of(&mut t, Am::Post(f.y), f.sz);
            let b = exec::addr_of(&mut t, Am::Post(f.x), f.sz);
            bus.put(a, f.sz, s);
            bus.put(b, f.sz, d);
        }
        Mn::Ext | Mn::Swap => st.d[y] = s,
        Mn::Asr | Mn::Lsr | Mn::Ror | Mn::Roxr => { if f.ir { st.d[x] = d } st.d[y] = s; }
        Mn::Exg => { if f.q == 1 { st.set_a(f.x, s) } else { st.d[x] = s } if f.q == 0 { st.d[y] = d } else { st.set_a(f.y, d) } }
        Mn::Dbcc => st.d[y] = d,
        Mn::Movep => {
            if f.dir { st.d[x] = s } else {
                let mut a = st.a(f.y).wrapping_add(words[1] as i16 as i32 as u32);
                for k in (0..f.sz).rev() { bus.put8(a, (s >> (8 * k)) as u8); a = a.wrapping_add(2); }
            }
        }
        Mn::Moveusp => { if f.dir { st.usp = s } else { st.set_a(f.y, s) } }
        Mn::Link | Mn::Unlk => {}
        _ => {}
    }
    if f.pre == Pre::Sized {
        if f.sz == 4 { words[1] = (d >> 16) as u16; words[2] = d as u16; } else { words[1] = d as u16; }
    }
    if f.ea == 0xFF || matches!(f.mn, Mn::Jmp | Mn::Jsr | Mn::Lea | Mn::Pea | Mn::Movem) { return; }
    let ins = finish::<()>(op, f, pc, &mut |a| Ok(words[(a.wrapping_sub(pc) / 2) as usize])).unwrap();
    match ins.am {
        Am::D(r) => st.d[r as usize] = s,
        Am::A(r) => st.set_a(r, s),
        Am::Imm(_) => {
            let at = 1 + ext_words(&f) - ext_words(&Form { pre: Pre::None, ..f });
            if f.sz == 4 { words[at] = (s >> 16) as u16; words[at + 1] = s as u16 } else { words[at] = s as u16 }
        }
        am => {
            let mut t = *st;
            let a = exec::addr_of(&mut t, am, f.sz);
            bus.put(a, f.sz, s);
        }
    }
}

pub const ALL_OPS: u64 = 65536;

/// 8/16/32-bit boundary values.
pub const L8: &[u32] = &[0, 1, 2, 0x0F, 0x10, 0x7E, 0x7F, 0x80, 0x81, 0x99, 0xFE, 0xFF];
pub const L16: &[u32] = &[
    0, 1, 2, 7, 8, 0x7F, 0x80, 0x81, 0xFE, 0xFF, 0x100, 0x101, 0x0FFF, 0x1234, 0x3FFF, 0x4000, 0x5555, 0x7F80, 0x7FFE, 0x7FFF, 0x8000, 0x8001, 0x80FF, 0xAAAA, 0xBFFF, 0xC000, 0xEDCC, 0xFF00, 0xFF7F,
    0xFF80, 0xFFFE, 0xFFFF,
];
pub const L32: &[u32] = &[
    0, 1, 2, 0x7F, 0x80, 0xFF, 0x100, 0x7FFF, 0x8000, 0x8001, 0xFFFE, 0xFFFF, 0x1_0000, 0x1_0001, 0x1_8000, 0x7FFF_0000, 0x7FFF_7FFF, 0x7FFF_8000, 0x7FFF_FFFE, 0x7FFF_FFFF, 0x8000_0000, 0x8000_0001, 0x8000_7FFF,
    0x8000_8000, 0x8000_FFFF, 0xFFFE_FFFF, 0xFFFF_0000, 0xFFFF_0001, 0xFFFF_7FFF, 0xFFFF_8000, 0xFFFF_8001, 0xFFFF_FFFE, 0xFFFF_FFFF, 0x1234_5678, 0xEDCB_A988, 0x5555_5555, 0xAAAA_AAAA, 0x3FFF_FFFF, 0x4000_0000, 0xC000_0000,
];
/// Short list crossed with every opcode.
pub const SHORT: &[(u32, u32)] = &[
    (0, 0), (1, 0xFFFF_FFFF), (0x8000_0000, 0x8000_0000), (0x7FFF_FFFF, 1), (0x0000_8000, 0x0000_7FFF), (0xFFFF_7FFF, 0x0000_8080), (0x1234_5679, 0x9876_5432), (0x0000_0080, 0xFFFF_FF7F), (0xFFFF_FFFF, 0x0000_0001),
    (0x0000_0099, 0x0000_0001), (0x4545_4545, 0x5656_5656), (0xFFFF_0000, 0x0000_FFFF),
];

/// Runs of bits (2^j - 2^k) and their complements, with the neighbours `-near..=near` of each, in `bits` bits.
pub fn runs(bits: u32, near: i64) -> Vec<u32> {
    let mask = if bits == 32 { u32::MAX } else { (1 << bits) - 1 };
    let mut v = Vec::new();
    for j in 0..=bits { for k in 0..=j { for n in -near..=near {
        let r = ((1u64 << j) - (1u64 << k)) as i64;
        v.push((r + n) as u32 & mask);
        v.push(!(r + n) as u32 & mask);
    } } }
    v.sort();
    v.dedup();
    v
}

/// Powers of two and their neighbours, and their negatives, in `bits` bits.
pub fn powers(bits: u32, near: i64) -> Vec<u32> {
    let mask = if bits == 32 { u32::MAX } else { (1 << bits) - 1 };
    let mut v = Vec::new();
    for j in 0..bits { for n in -near..=near { v.push(((1i64 << j) + n) as u32 & mask); v.push((n - (1i64 << j)) as u32 & mask); } }
    v.sort();
    v.dedup();
    v
}

pub fn lattice(sz: u8) -> &'static [u32] {
    match sz { 1 => L8, 2 => L16, _ => L32 }
}

pub fn pick<T>(w: &W, q: T, t: T) -> T { if w.tier() == crate::engine::Tier::Thorough { t } else { q } }

pub fn mnem(op: u16) -> String { let f = classify(op); format!("{:?}{}", f.mn, ["", ".B", ".W", "", ".L"][f.sz as usize]) }

/// Builds a case: opcode, `e`-th extension set, register file `k`, operand pair `n` (0: as the files are).
pub fn case(st: &mut St, bus: &mut Bus, words: &mut Vec<u16>, op: u16, e: usize, k: u32, n: usize, seed: u32, sr: u16) {
    let f = classify(op);
    bus.clear();
    *st = regfile(k, seed as u64);
    st.sr = sr;
    words.clear();
    words.push(op);
    ext_fill(&f, e, words);
    if n > 0 { let (s, d) = SHORT[n % SHORT.len()]; set_operands(st, bus, words, s, d); }
    bus.set_code(st.pc, words);
}

