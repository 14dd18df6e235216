//! C15, C18 and C24: memory implementations and accessors, status register, register file and arithmetic helpers, and
//! the public building blocks of instructions.

use m68000::addressing_modes::{AddressingMode as M, BriefExtensionWord};
use m68000::exception::{Exception, Vector};
use m68000::instruction::{Direction, Instruction, Operands, Size};
use m68000::isa::{Isa, IsaEntry};
use m68000::status_register::StatusRegister as Sr;
use m68000::utils::{bit, bits, CarryingOps, Integer, IsEven, SliceAs};
use m68000::{MemoryAccess, Registers, M68000};
use mc::decode::*;
use mc::drive::*;
use mc::engine::{self, guard, Ctx, H, W};
use mc::exec::St;

// ---------------------------------------------------------------------------------------------------- C15: memories

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Op { Get(u8, u32), Set(u8, u32, u32), Walk(u32) }

/// What an operation answers.
#[derive(Clone, Debug, PartialEq, Eq)]
enum Ans { Val(Option<u32>), Done(Option<()>), Words(Vec<Result<u16, u8>>, u32) }

/// The reference: bytes.
fn ghost(m: &mut [u8], op: Op) -> Ans {
    let n = m.len() as u64;
    let get = |m: &[u8], a: u32, sz: u8| -> Option<u32> {
        // A long is two word accesses: the address of the second wraps around.
        let at = |k: u32| if sz == 4 && k >= 2 { a.wrapping_add(k) as u64 } else { a as u64 + k as u64 };
        (0..sz as u32).map(at).try_fold(0u32, |v, b| (b < n).then(|| v << 8 | m[b as usize] as u32))
    };
    match op {
        Op::Get(sz, a) => Ans::Val(get(m, a, sz)),
        Op::Set(sz, a, v) => {
            let parts: &[(u32, u8)] = match sz { 1 => &[(0, 1)], 2 => &[(0, 2)], _ => &[(0, 2), (2, 2)] };
            let mut left = sz as u32 * 8;
            for (o, w) in parts {
                let b = a.wrapping_add(*o) as u64;
                if b + *w as u64 > n { return Ans::Done(None); }
                for k in 0..*w as u64 { left -= 8; m[(b + k) as usize] = (v >> left) as u8; }
            }
            Ans::Done(Some(()))
        }
        Op::Walk(a) => {
            let mut out = Vec::new();
            let mut at = a;
            for _ in 0..4 {
                if at & 1 != 0 { out.push(Err(3)); continue; }
                out.push(get(m, at, 2).map(|v| v as u16).ok_or(2));
                at = at.wrapping_add(2);
            }
            Ans::Words(out, at)
        }
    }
}

fn apply<T: MemoryAccess + ?Sized>(m: &mut T, op: Op) -> Ans {
    match op {
        Op::Get(1, a) => Ans::Val(m.get_byte(a).map(|v| v as u32)),
        Op::Get(2, a) => Ans::Val(m.get_word(a).map(|v| v as u32)),
        Op::Get(_, a) => Ans::Val(m.get_long(a)),
        Op::Set(1, a, v) => Ans::Done(m.set_byte(a, v as u8)),
        Op::Set(2, a, v) => Ans::Done(m.set_word(a, v as u16)),
        Op::Set(_, a, v) => Ans::Done(m.set_long(a, v)),
        Op::Walk(a) => { let mut it = m.iter_u16(a); let v = (0..4).map(|_| it.next().unwrap()).collect(); Ans::Words(v, it.next_addr) }
    }
}

/// One kind of memory under test and the way back to its bytes.
enum Mem { Bytes(Vec<u8>), Words(Vec<u16>) }
impl Mem {
    fn new(words: bool, init: &[u8]) -> Mem {
        if words { Mem::Words(init.chunks(2).map(|c| (c[0] as u16) << 8 | c[1] as u16).collect()) } else { Mem::Bytes(init.to_vec()) }
    }
    fn run(&mut self, op: Op) -> Result<Ans, String> {
        guard(|| match self { Mem::Bytes(v) => apply(&mut v[..], op), Mem::Words(v) => apply(&mut v[..], op) })
    }
    /// The same read through the read-only implementation.
    fn run_ro(&self, op: Op) -> Result<Ans, String> {
        guard(|| match self { Mem::Bytes(v) => apply(&mut &v[..], op), Mem::Words(v) => apply(&mut &v[..], op) })
    }
    fn bytes(&self) -> Vec<u8> { match self { Mem::Bytes(v) => v.clone(), Mem::Words(v) => v.iter().flat_map(|w| w.to_be_bytes()).collect() } }
}

fn kind(op: Op) -> &'static str {
    match op { Op::Get(1, _) => "get_byte", Op::Get(2, _) => "get_word", Op::Get(..) => "get_long", Op::Set(1, ..) => "set_byte", Op::Set(2, ..) => "set_word", Op::Set(..) => "set_long", Op::Walk(_) => "iter_u16" }
}

/// The operations on a memory of `n` bytes. Word memories are only asked for even words: the core never does else.
fn ops(n: u32, words: bool, reads: bool) -> Vec<Op> {
    let mut v = Vec::new();
    let mut addrs: Vec<u32> = (0..n + 4).collect();
    addrs.extend([0x7FFF_FFFE, 0x8000_0000, u32::MAX - 4, u32::MAX - 3, u32::MAX - 2, u32::MAX - 1, u32::MAX]);
    for a in addrs {
        for sz in [1u8, 2, 4] {
            if words && sz > 1 && a & 1 != 0 { continue; }
            if reads { v.push(Op::Get(sz, a)); }
            v.push(Op::Set(sz, a, 0xC1D2_E3F4));
        }
        if reads { v.push(Op::Walk(a)); }
    }
    v
}

fn compare(w: &mut W, words: bool, mem: &mut Mem, g: &mut Vec<u8>, op: Op, hist: &[Op]) -> bool {
    w.transition();
    let before = g.clone();
    let want = ghost(g, op);
    let name = if words { "[u16]" } else { "[u8]" };
    let got = mem.run(op);
    let after = mem.bytes();
    let mut h = H::new();
    h.add(words as u64 | (g.len() as u64) << 1);
    for b in &after { h.add(*b as u64); }
    w.state(h.get());
    for b in format!("{op:?}").bytes() { h.add(b as u64); }
    w.outcome(h.get());
    if got.as_ref() != Ok(&want) {
        w.fail(format!("C15:{name}:{}:answer", kind(op)), || format!("memory {before:02X?} after {hist:X?}: {op:X?} answers {got:X?}, expected {want:X?}"));
        return false;
    }
    if after != *g {
        w.fail(format!("C15:{name}:{}:contents", kind(op)), || format!("memory {before:02X?} after {hist:X?}: {op:X?} leaves {after:02X?}, expected {g:02X?}"));
        return false;
    }
    if !matches!(op, Op::Set(..)) {
        let ro = mem.run_ro(op);
        if ro.as_ref() != Ok(&want) {
            w.fail(format!("C15:&{name}:{}:answer", kind(op)), || format!("memory {before:02X?}: {op:X?} answers {ro:X?}, expected {want:X?}"));
            return false;
        }
    }
    true
}

/// Answers the accesses with numbered words until a fuse blows; records them.
struct Rec { log: Vec<(char, u32, u32)>, fuse: usize }
impl Rec {
    fn tick(&mut self) -> Option<()> { if self.fuse == 0 { None } else { self.fuse -= 1; Some(()) } }
}
impl MemoryAccess for Rec {
    fn get_byte(&mut self, a: u32) -> Option<u8> { self.log.push(('b', a, 0)); self.tick().map(|_| a as u8 ^ 0x5A) }
    fn get_word(&mut self, a: u32) -> Option<u16> { self.log.push(('w', a, 0)); self.tick().map(|_| (a as u16).wrapping_mul(0x9E37) ^ (a >> 16) as u16) }
    fn set_byte(&mut self, a: u32, v: u8) -> Option<()> { self.log.push(('B', a, v as u32)); self.tick() }
    fn set_word(&mut self, a: u32, v: u16) -> Option<()> { self.log.push(('W', a, v as u32)); self.tick() }
    fn reset_instruction(&mut self) { self.log.push(('r', 0, 0)); }
}

/// A memory with its own long accesses: the core has to use them.
struct Own { log: Vec<(char, u32, u32)> }
impl MemoryAccess for Own {
    fn get_byte(&mut self, a: u32) -> Option<u8> { self.log.push(('b', a, 0)); Some(0x11) }
    fn get_word(&mut self, a: u32) -> Option<u16> { self.log.push(('w', a, 0)); Some(0x2222) }
    fn get_long(&mut self, a: u32) -> Option<u32> { self.log.push(('l', a, 0)); Some(0x4444_4444) }
    fn set_byte(&mut self, a: u32, v: u8) -> Option<()> { self.log.push(('B', a, v as u32)); Some(()) }
    fn set_word(&mut self, a: u32, v: u16) -> Option<()> { self.log.push(('W', a, v as u32)); Some(()) }
    fn set_long(&mut self, a: u32, v: u32) -> Option<()> { self.log.push(('L', a, v)); Some(()) }
    fn reset_instruction(&mut self) {}
}

fn addresses() -> Vec<u32> {
    let mut v: Vec<u32> = (0..64).collect();
    v.extend((0..32).flat_map(|k| { let b = 1u32 << k; [b.wrapping_sub(4), b.wrapping_sub(3), b.wrapping_sub(2), b.wrapping_sub(1), b, b + 1, b.wrapping_add(2)] }));
    v.extend((0..16).map(|k| u32::MAX - k));
    v.extend([0x0012_3456, 0x00FF_FFFE, 0x8765_4321]);
    v.sort();
    v.dedup();
    v
}

fn c15(ctx: &Ctx) {
    ctx.assume("Word and long accesses to [u16] are made at even addresses only, as the trait guarantees; stores to the read-only implementations panic, as documented, and are not exercised.");
    // Every history of accesses up to a depth, on every size up to a bound. The last access may also be a read; the
    // prefix consists of stores, since reads change nothing (checked on every read).
    let depth = 2;
    let mut items = Vec::new();
    for words in [false, true] {
        for n in 0..=ctx.by(10u32, 12) {
            if words && n & 1 != 0 { continue; }
            let first = ops(n, words, true);
            for k in 0..first.len() { items.push((words, n, first[k])); }
        }
    }
    ctx.space("C15:histories", items.len() as u64, |i, w| {
        let (words, n, first) = items[i as usize];
        let init: Vec<u8> = (0..n).map(|k| (k as u8 + 1) * 0x11).collect();
        let stores = ops(n, words, false);
        let all = ops(n, words, true);
        let levels = depth + pick(w, 0, 1);
        let mut walk = |hist: &[Op]| -> bool {
            let mut g = init.clone();
            let mut m = Mem::new(words, &init);
            w.trace();
            hist.iter().enumerate().all(|(k, op)| {
                // Values differ from store to store.
                let op = match *op { Op::Set(sz, a, v) => Op::Set(sz, a, v.wrapping_add(0x0101_0101 * k as u32 * 3)), o => o };
                compare(w, words, &mut m, &mut g, op, &hist[..k])
            })
        };
        if !walk(&[first]) { return; }
        if matches!(first, Op::Set(..)) {
            for b in &all { if !walk(&[first, *b]) { return; } }
            if levels >= 2 {
                for b in &stores { for c in &all {
                    if !walk(&[first, *b, *c]) { return; }
                    if levels >= 3 && n <= 4 && matches!(c, Op::Set(..)) { for d in &all { if !walk(&[first, *b, *c, *d]) { return; } } }
                } }
            }
        }
        w.sample(|| format!("{} bytes of {}: {first:X?}", n, if words { "[u16]" } else { "[u8]" }));
    });

    // Every address that is the same as one of the memory in some of its bits only: small and large memories, all
    // accesses around every power of two and the end (an index or bound of 8, 16, 24, 31 bits shows there).
    let sizes = [0u32, 1, 2, 3, 4, 6, 8, 254, 255, 256, 258, 65534, 65535, 65536, 65538, 0x20004, 0x7FFFFF, 0x1000006];
    ctx.space("C15:aliases", sizes.len() as u64 * 2 * 33, |i, w| {
        let (n, words, k) = (sizes[(i / 66) as usize], i & 1 == 1, (i / 2 % 33) as u32);
        if words && n & 1 != 0 { return; }
        let init: Vec<u8> = (0..n).map(|a| (a.wrapping_mul(0x9D) >> 5) as u8 ^ a as u8 ^ (a >> 8) as u8 ^ (a >> 16) as u8).collect();
        let (mut g, mut mem) = (init.clone(), Mem::new(words, &init));
        let base = if k == 32 { n } else { 1u32 << k };
        let mut addrs: Vec<u32> = (0..12u32).map(|d| base.wrapping_add(d).wrapping_sub(6)).collect();
        addrs.extend((0..4u32).map(|d| base.wrapping_add(n).wrapping_add(d).wrapping_sub(2)));
        for a in addrs { for sz in [1u8, 2, 4] { for op in [Op::Get(sz, a), Op::Set(sz, a, 0xC1D2_E3F4), Op::Walk(a)] {
            if words && a & 1 != 0 && (sz > 1 || matches!(op, Op::Walk(_))) || matches!(op, Op::Walk(_)) && sz != 1 { continue; }
            w.transition();
            w.state(i << 32 | a as u64);
            let want = ghost(&mut g, op);
            let got = mem.run(op);
            let (name, shown) = (if words { "[u16]" } else { "[u8]" }, n);
            if got.as_ref() != Ok(&want) { w.fail(format!("C15:{name}:{}:answer", kind(op)), || format!("memory of {shown} bytes: {op:X?} answers {got:X?}, expected {want:X?}")); return; }
            if !matches!(op, Op::Set(..)) {
                let ro = mem.run_ro(op);
                if ro.as_ref() != Ok(&want) { w.fail(format!("C15:&{name}:{}:answer", kind(op)), || format!("memory of {shown} bytes: {op:X?} answers {ro:X?}, expected {want:X?}")); return; }
            } else {
                let same = match &mem { Mem::Bytes(v) => *v == g, Mem::Words(v) => v.iter().zip(g.chunks(2)).all(|(x, c)| x.to_be_bytes() == c) };
                if !same { w.fail(format!("C15:{name}:{}:contents", kind(op)), || format!("memory of {shown} bytes: {op:X?} changes something else")); return; }
            }
        } } }
    });

    // The default long accessors, the iterator and the accessors of the core.
    let addrs = addresses();
    ctx.space("C15:accessors", addrs.len() as u64, |i, w| {
        let a = addrs[i as usize];
        let rec = |fuse| Rec { log: Vec::new(), fuse };
        let word = |a: u32| rec(1).get_word(a).unwrap();
        let long = |a: u32| (word(a) as u32) << 16 | word(a.wrapping_add(2)) as u32;
        let (b, odd) = (a.wrapping_add(2), a & 1 != 0);
        let mut check = |what: &'static str, fuse: usize, got: Result<String, String>, want: String, log: &[(char, u32, u32)], expect: &[(char, u32, u32)]| {
            w.transition();
            w.trace();
            let mut h = H::new();
            h.add(a as u64 | (fuse as u64) << 32);
            for c in what.bytes() { h.add(c as u64); }
            w.state(h.get());
            w.outcome(h.get());
            if got.as_ref() != Ok(&want) { w.fail(format!("C15:{what}:answer"), || format!("{what} at {a:#X} with {fuse} accesses granted: {got:?}, expected {want}")); }
            let n = log.len();
            if log != expect { let log = log.to_vec(); w.fail(format!("C15:{what}:accesses"), || format!("{what} at {a:#X} with {fuse} accesses granted: {n} accesses {log:X?}, expected {expect:X?}")); }
        };
        for fuse in 0..3 {
            let reads = [('w', a, 0), ('w', b, 0)];
            let done = |n: usize| (fuse + 1).min(n);
            let mut m = rec(fuse);
            let got = guard(|| format!("{:X?}", m.get_long(a)));
            check("get_long", fuse, got, format!("{:X?}", (fuse >= 2).then(|| long(a))), &m.log, &reads[..done(2)]);
            for v in [0x1234_ABCDu32, 0, u32::MAX, 0x8000_7FFF] {
                let writes = [('W', a, v >> 16), ('W', b, v & 0xFFFF)];
                let mut m = rec(fuse);
                let got = guard(|| format!("{:X?}", m.set_long(a, v)));
                check("set_long", fuse, got, format!("{:X?}", (fuse >= 2).then_some(())), &m.log, &writes[..done(2)]);
            }
            // Iterator: four words, then whatever the memory answers.
            let mut m = rec(fuse);
            let got = guard(|| { let mut it = m.iter_u16(a); let v: Vec<_> = (0..3).map(|_| it.next()).collect(); format!("{v:X?} {:X}", it.next_addr) });
            let mut want = Vec::new();
            let mut expect = Vec::new();
            for k in 0..3u32 {
                let at = a.wrapping_add(2 * k);
                if odd { want.push(Some(Err(3))) } else { want.push(Some(if (k as usize) < fuse { Ok(word(at)) } else { Err(2) })); expect.push(('w', at, 0)); }
            }
            let end = if odd { a } else { a.wrapping_add(6) };
            check("iter_u16", fuse, got, format!("{want:X?} {end:X}"), &m.log, &expect);
            // Core accessors. The stack mode and registers must not matter.
            for sr in [0x2700u16, 0x0000, 0xA71F] {
                let mut st = regfile(3, 7);
                st.pc = a;
                st.sr = sr;
                st.ir = 0;
                let view_of = |c: &M68000<Mc>| view(c);
                let mut c = load::<Mc>(&st);
                let mut m = rec(fuse);
                let got = guard(|| { let r = c.get_next_word(&mut m); format!("{r:X?} {:?}", view_of(&c) == St { pc: if odd { a } else { b }, ..st }) });
                let want = if odd { Err(3) } else if fuse > 0 { Ok(word(a)) } else { Err(2) };
                check("get_next_word", fuse, got, format!("{want:X?} true"), &m.log, if odd { &[] } else { &reads[..1] });
                let mut c = load::<Mc>(&st);
                let mut m = rec(fuse);
                let got = guard(|| { let r = c.get_next_long(&mut m); format!("{r:X?} {:?}", view_of(&c) == St { pc: if odd { a } else { a.wrapping_add(4) }, ..st }) });
                let want = if odd { Err(3) } else if fuse > 1 { Ok(long(a)) } else { Err(2) };
                check("get_next_long", fuse, got, format!("{want:X?} true"), &m.log, if odd { &[] } else { &reads[..done(2)] });
                let c = load::<Mc>(&st);
                let mut m = rec(fuse);
                let got = guard(|| { let r = c.peek_next_word(&mut m); format!("{r:X?} {:?}", view_of(&c) == st) });
                let want = if odd { Err(3) } else if fuse > 0 { Ok(word(a)) } else { Err(2) };
                check("peek_next_word", fuse, got, format!("{want:X?} true"), &m.log, if odd { &[] } else { &reads[..1] });
            }
        }
    });

    // Long accesses of an implementation that has its own are used as such.
    ctx.space("C15:own-long-accesses", 1, |_, w| {
        for (name, words, expect) in [
            ("MOVE.L (A0),D0", vec![0x2010u16], vec![('l', 0x2000u32, 0u32)]), ("MOVE.L D0,(A0)", vec![0x2080], vec![('L', 0x2000, 0x1234_5678)]), ("ADD.L D0,(A0)", vec![0xD190], vec![('l', 0x2000, 0), ('L', 0x2000, 0x5678_9ABC)]),
            ("TST.L (A0)+", vec![0x4A98], vec![('l', 0x2000, 0)]), ("PEA (A0)", vec![0x4850], vec![('L', 0x7FFC, 0x2000)]), ("MOVE.W (A0),D0", vec![0x3010], vec![('w', 0x2000, 0)]), ("MOVE.B (A0),D0", vec![0x1010], vec![('b', 0x2000, 0)]),
        ] {
            struct Prog<'a>(&'a [u16], Own);
            impl MemoryAccess for Prog<'_> {
                fn get_byte(&mut self, a: u32) -> Option<u8> { self.1.get_byte(a) }
                fn get_word(&mut self, a: u32) -> Option<u16> { match self.0.get((a.wrapping_sub(0x1000) >> 1) as usize) { Some(v) => Some(*v), None => self.1.get_word(a) } }
                fn get_long(&mut self, a: u32) -> Option<u32> { self.1.get_long(a) }
                fn set_byte(&mut self, a: u32, v: u8) -> Option<()> { self.1.set_byte(a, v) }
                fn set_word(&mut self, a: u32, v: u16) -> Option<()> { self.1.set_word(a, v) }
                fn set_long(&mut self, a: u32, v: u32) -> Option<()> { self.1.set_long(a, v) }
                fn reset_instruction(&mut self) {}
            }
            w.transition();
            w.trace();
            let mut c = M68000::<Mc>::new_no_reset();
            c.regs.pc.0 = 0x1000;
            c.regs.ssp.0 = 0x8000;
            c.regs.a[0].0 = 0x2000;
            c.regs.d[0].0 = 0x1234_5678;
            let mut m = Prog(&words, Own { log: Vec::new() });
            let r = guard(|| c.interpreter_exception(&mut m));
            // The value read is returned as it is, not composed of words.
            let d0 = c.regs.d[0].0;
            let want = match name { "MOVE.L (A0),D0" => 0x4444_4444, "MOVE.W (A0),D0" => 0x1234_2222, "MOVE.B (A0),D0" => 0x1234_5611, _ => 0x1234_5678 };
            if r.as_ref().map(|r| r.1) != Ok(None) || m.1.log != expect || d0 != want { w.fail("C15:own-long-accesses", || format!("{name}: {r:?}, D0 {d0:X}, accesses {:X?}, expected {expect:X?}", m.1.log)); }
        }
    });

    // The same instruction on every kind of memory: 64 KiB of [u8] and of [u16].
    ctx.space("C15:same-on-all-memories", 4096, |i, w| {
        let mut init: Vec<u8> = (0..0x10000u32).map(|a| (a.wrapping_mul(0x9D) >> 3) as u8 ^ a as u8).collect();
        for v in 0..256usize { init[4 * v..4 * v + 4].copy_from_slice(&(0x8000 + 16 * v as u32).to_be_bytes()); }
        let mut bytes = init.clone();
        let mut words: Vec<u16> = vec![0; 0x8000];
        for op in (i * 16..i * 16 + 16).map(|o| o as u16) {
            for k in 0..pick(w, 6, 16) {
                let mut st = St { sr: [0x2700u16, 0x0015, 0x271F][k % 3], pc: 0x1000, usp: 0x6000, ssp: 0x7000, ..St::default() };
                for r in 0..8 { st.d[r] = [0x11u32, 0xFFFF_FFF0, 0x8000_0004, 3, 0x7FFF, 0x1234_5678, 0, 0x42][(r + k) % 8]; }
                for r in 0..7 { st.a[r] = if k == 2 && r == 3 { 0xFFF0 } else { 0x2000 + 0x401 * r as u32 - (k as u32 & 1) }; }
                let mut code = vec![op];
                ext_fill(&classify(op), k, &mut code);
                code.resize(6, 0x4E71);
                for (j, x) in code.iter().enumerate() { init[0x1000 + 2 * j..0x1002 + 2 * j].copy_from_slice(&x.to_be_bytes()); }
                bytes.copy_from_slice(&init);
                for (d, c) in words.iter_mut().zip(init.chunks(2)) { *d = (c[0] as u16) << 8 | c[1] as u16; }
                let mut h = H::new();
                h.add(op as u64 | (k as u64) << 16 | 1 << 40);
                w.state(h.get());
                w.transitions(2);
                w.trace();
                let mut a = load::<Mc>(&st);
                let ra = guard(|| a.interpreter_exception(&mut bytes[..]));
                let mut b = load::<Mc>(&st);
                let rb = guard(|| b.interpreter_exception(&mut words[..]));
                let same = words.iter().zip(bytes.chunks(2)).all(|(x, y)| *x == (y[0] as u16) << 8 | y[1] as u16);
                if ra != rb || view(&a) != view(&b) || !same {
                    w.fail(format!("C15:same-on-all-memories:{}", mnem(op)), || format!("{code:04X?} from {}: on [u8] {ra:?} {}; on [u16] {rb:?} {}; memories {}", show_state(&st), show_state(&view(&a)), show_state(&view(&b)), if same { "equal" } else { "differ" }));
                }
            }
        }
    });
}

// --------------------------------------------------------------------------------------------- C18: registers, helpers

const IMPL: u16 = 0xA71F;

fn sr_of(raw: u16) -> Sr {
    // Built field by field, without the conversion under test.
    Sr { t: raw & 0x8000 != 0, s: raw & 0x2000 != 0, interrupt_mask: (raw >> 8 & 7) as u8, x: raw & 16 != 0, n: raw & 8 != 0, z: raw & 4 != 0, v: raw & 2 != 0, c: raw & 1 != 0 }
}

fn condition(cc: u8, raw: u16) -> bool {
    let (n, z, v, c) = (raw >> 3 & 1, raw >> 2 & 1, raw >> 1 & 1, raw & 1);
    match cc {
        0 => true, 1 => false, 2 => c | z == 0, 3 => c | z == 1, 4 => c == 0, 5 => c == 1, 6 => z == 0, 7 => z == 1, 8 => v == 0, 9 => v == 1, 10 => n == 0, 11 => n == 1,
        12 => n == v, 13 => n != v, 14 => n == v && z == 0, _ => n != v || z == 1,
    }
}

/// Spreads 10 bits over the implemented bits of the status register.
fn implemented(i: u16) -> u16 { (i & 0x1F) | (i >> 5 & 7) << 8 | (i >> 8 & 1) << 13 | (i >> 9 & 1) << 15 }

macro_rules! carrying {
    ($w:expr, $t:ty, $st:ty, $ut:ty, $bits:expr, $a:expr, $b:expr, $carry:expr) => {{
        let (a, b, k) = ($a as $t, $b as $t, $carry);
        // Mathematical results in 64 bits.
        let signed = <$t>::MIN != 0;
        let (sa, sb, ua, ub, c) = (a as $st as i64, b as $st as i64, a as $ut as i64, b as $ut as i64, k as i64);
        let s_out = |v: i64| v != v as $st as i64;
        let u_out = |v: i64| v != v as $ut as i64;
        let own = |s: i64, u: i64| if signed { (s as $t, s_out(s)) } else { (u as $t, u_out(u)) };
        let want = (own(sa + sb + c, ua + ub + c), own(sa - sb - c, ua - ub - c), ((sa + sb + c) as $st, s_out(sa + sb + c)), ((ua + ub + c) as $ut, u_out(ua + ub + c)), ((sa - sb - c) as $st, s_out(sa - sb - c)), ((ua - ub - c) as $ut, u_out(ua - ub - c)));
        let got = (
            CarryingOps::<$st, $ut>::carryingadd(a, b, k), CarryingOps::<$st, $ut>::borrowingsub(a, b, k), CarryingOps::<$st, $ut>::signed_carrying_add(a, b, k), CarryingOps::<$st, $ut>::unsigned_carrying_add(a, b, k),
            CarryingOps::<$st, $ut>::signed_borrowing_sub(a, b, k), CarryingOps::<$st, $ut>::unsigned_borrowing_sub(a, b, k),
        );
        $w.transitions(6);
        if got != want { $w.fail(concat!("C18:carrying:", stringify!($t)), || format!("{} operands {a:#X} {b:#X} carry {k}: {got:?}, expected {want:?} (add, sub, signed add, unsigned add, signed sub, unsigned sub)", stringify!($t))); }
    }};
}
macro_rules! both { ($w:expr, $st:ty, $ut:ty, $bits:expr, $a:expr, $b:expr) => { for k in [false, true] { carrying!($w, $st, $st, $ut, $bits, $a, $b, k); carrying!($w, $ut, $st, $ut, $bits, $a, $b, k); } }; }

fn c18(ctx: &Ctx) {
    ctx.assume("Interrupt masks above 7 and register numbers above 7 are outside the types' meaning and are not exercised.");
    ctx.space("C18:status-register", 65536, |i, w| {
        let raw = i as u16;
        w.state(i);
        w.trace();
        w.transitions(21);
        let sr = Sr::from(raw);
        let show = |s: Sr| format!("{s:?}");
        if sr != sr_of(raw) { w.fail("C18:sr:from-raw", || format!("{raw:04X} becomes {}", show(sr))); }
        let back = u16::from(sr_of(raw));
        if back != raw & IMPL { w.fail("C18:sr:into-raw", || format!("{} becomes {back:04X}, expected {:04X}", show(sr_of(raw)), raw & IMPL)); }
        for cc in 0..16 {
            let got = sr_of(raw).condition(cc);
            w.outcome(i << 5 | (cc as u64) << 1 | got as u64);
            if got != condition(cc, raw) { w.fail(format!("C18:condition:{cc}"), || format!("condition {cc} with SR {raw:04X} is {got}")); }
        }
        if raw == 0 {
            let d = Sr::default();
            if u16::from(d) != 0x2700 || Sr::DEFAULT != 0x2700 { w.fail("C18:sr:default", || format!("default {}", show(d))); }
        }
    });
    ctx.space("C18:status-register-operators", 1024, |i, w| {
        let base = implemented(i as u16);
        for m in 0..=0xFFFFu16 {
            let b = sr_of(base);
            w.transitions(4);
            let (mut and, mut or, mut xor, mut ccr) = (b, b, b, b);
            and &= m;
            or |= m;
            xor ^= m;
            ccr.set_ccr(m);
            let want = [sr_of(base & m), sr_of(base | m & IMPL), sr_of(base ^ m & IMPL), sr_of(base & 0xFF00 | m & 0x1F)];
            if [and, or, xor, ccr] != want { w.fail("C18:sr:operators", || format!("SR {base:04X}, operand {m:04X}: and, or, xor, set_ccr give {:?}, expected {want:?}", [and, or, xor, ccr])); }
        }
        w.state(1 << 20 | i);
        w.trace();
    });

    // Register file: every register, width and value, in both modes.
    ctx.space("C18:registers", 256, |i, w| {
        for sr in [0x2700u16, 0x0000, 0xA000, 0x801F, 0x2000, 0x8700] {
            for k in 0..4u32 {
                let base = || {
                    let mut r = Registers::with_sr(sr_of(sr));
                    for n in 0..8 { r.d[n].0 = 0x1111_1111u32.wrapping_mul(n as u32 + 1) ^ k.wrapping_mul(0x5555_5555); }
                    for n in 0..7 { r.a[n].0 = 0xA000_0000 | (n as u32) << 8 | k; }
                    r.usp.0 = 0xB000_0000 | k;
                    r.ssp.0 = 0xC000_0000 | k;
                    r.pc.0 = 0xD000_0000 | k;
                    r
                };
                let same = |a: &Registers, b: &Registers| a.d == b.d && a.a == b.a && a.usp == b.usp && a.ssp == b.ssp && a.pc == b.pc && a.sr == b.sr;
                let sup = sr & 0x2000 != 0;
                let r0 = base();
                for reg in 0..8u8 {
                    let n = reg as usize;
                    // Bytes: this item's value. Words: 256 values per item.
                    let mut r = base();
                    r.d_byte(reg, i as u8);
                    let mut want = base();
                    want.d[n].0 = want.d[n].0 & 0xFFFF_FF00 | i as u32;
                    w.transition();
                    if !same(&r, &want) { w.fail("C18:d_byte", || format!("d_byte({reg}, {i:#X}) of {:X?} gives {:X?}", r0.d[n].0, r.d)); }
                    for low in 0..256u32 {
                        let v = (i as u32) << 8 | low;
                        let mut r = base();
                        r.d_word(reg, v as u16);
                        let mut want = base();
                        want.d[n].0 = want.d[n].0 & 0xFFFF_0000 | v;
                        w.transition();
                        if !same(&r, &want) { w.fail("C18:d_word", || format!("d_word({reg}, {v:#X}) of {:X?} gives {:X?}", r0.d[n].0, r.d)); }
                    }
                    let mut r = base();
                    let v = 0x0101_0101u32.wrapping_mul(i as u32) ^ 0x8000_0001;
                    r.a_mut(reg).0 = v;
                    let mut want = base();
                    if n < 7 { want.a[n].0 = v } else if sup { want.ssp.0 = v } else { want.usp.0 = v }
                    w.transitions(2);
                    if !same(&r, &want) { w.fail("C18:a_mut", || format!("a_mut({reg}) = {v:X} with SR {sr:04X} gives A {:X?} USP {:X} SSP {:X}", r.a, r.usp, r.ssp)); }
                    let have = want.a(reg);
                    let exp = if n < 7 { want.a[n].0 } else if sup { want.ssp.0 } else { want.usp.0 };
                    if have != exp || want.sp() != if sup { want.ssp.0 } else { want.usp.0 } { w.fail("C18:a", || format!("a({reg}) is {have:X}, sp() {:X} with SR {sr:04X}, USP {:X}, SSP {:X}", want.sp(), want.usp, want.ssp)); }
                }
                let mut r = base();
                r.sp_mut().0 = i as u32;
                let mut want = base();
                if sup { want.ssp.0 = i as u32 } else { want.usp.0 = i as u32 }
                w.transition();
                if !same(&r, &want) { w.fail("C18:sp_mut", || format!("sp_mut() with SR {sr:04X} changes USP to {:X}, SSP to {:X}", r.usp, r.ssp)); }
                w.state(1 << 30 | i << 20 | (sr as u64) << 2 | k as u64);
                w.trace();
            }
            let z = Registers::with_sr(sr_of(sr));
            if z.sr != sr_of(sr) || z.d.iter().chain(z.a.iter()).any(|v| v.0 != 0) || z.usp.0 | z.ssp.0 | z.pc.0 != 0 { w.fail("C18:with_sr", || format!("with_sr({sr:04X}) gives {z:?}")); }
        }
        // A new core.
        let c = M68000::<Mc>::new_no_reset();
        if view(&c) != (St { sr: 0x2700, ..St::default() }) { w.fail("C18:new", || format!("a new core is {}", show_state(&view(&c)))); }
    });

    // Carry helpers: bytes complete; words complete in the thorough run, else complete against a lattice; longs on lattices.
    ctx.space("C18:carry-bytes", 256, |i, w| {
        for b in 0..256u32 { both!(w, i8, u8, 8, i as u32, b); w.state(2 << 30 | i << 8 | b as u64); }
        w.trace();
    });
    ctx.space("C18:carry-words", 65536, |i, w| {
        let a = i as u32;
        if w.tier() == engine::Tier::Thorough {
            for b in 0..=0xFFFFu32 { both!(w, i16, u16, 16, a, b); }
        } else {
            for b in L16 { both!(w, i16, u16, 16, a, *b); both!(w, i16, u16, 16, *b, a); }
            for k in 0..64 { both!(w, i16, u16, 16, a, a.wrapping_mul(k * 2 + 1) ^ k << 10); }
            for d in 0..3u32 { both!(w, i16, u16, 16, a, (0u32.wrapping_sub(a)).wrapping_add(d).wrapping_sub(1)); both!(w, i16, u16, 16, a, a.wrapping_add(d).wrapping_sub(1)); both!(w, i16, u16, 16, a, (a ^ 0x8000).wrapping_add(d).wrapping_sub(1)); }
        }
        w.state(3 << 30 | i);
        w.trace();
    });
    let longs: Vec<u32> = L32.iter().copied().chain((0..32).flat_map(|k| [1u32 << k, !(1u32 << k), (1u32 << k) - 1, 0u32.wrapping_sub(1 << k)])).collect();
    ctx.space("C18:carry-longs", longs.len() as u64, |i, w| {
        let a = longs[i as usize];
        for b in &longs {
            for d in [0u32, 1, u32::MAX] { for e in [0u32, 1, u32::MAX, 0x8000_0000] { both!(w, i32, u32, 32, a.wrapping_add(d), b.wrapping_add(e)); } }
            for d in 0..3u32 { both!(w, i32, u32, 32, a ^ b, (0u32.wrapping_sub(a ^ b)).wrapping_add(d).wrapping_sub(1)); }
        }
        w.state(4 << 30 | i);
        w.trace();
    });

    // Small conversions.
    ctx.space("C18:conversions", 65536, |i, w| {
        let v = i as u16;
        w.transitions(40);
        w.state(5 << 30 | i);
        w.trace();
        for b in 0..16 { if bit(v, b) != (v >> b & 1 == 1) { w.fail("C18:bit", || format!("bit({v:#X}, {b}) is {}", bit(v, b))); } }
        for beg in 0..16u16 { for end in beg..16 {
            if end - beg == 15 { continue; }
            let want = (v as u32 >> beg & ((1u32 << (end + 1 - beg)) - 1)) as u16;
            if bits(v, beg, end) != want { w.fail("C18:bits", || format!("bits({v:#X}, {beg}, {end}) is {:#X}, expected {want:#X}", bits(v, beg, end))); }
        } }
        let u = (v as u32) << 16 | (!v) as u32;
        for x in [v as u32, u, !u] {
            let odd = x & 1 != 0;
            let want = if odd { Err(3u8) } else { Ok(x) };
            if x.is_even() == odd || x.even() != want || (x as usize).is_even() == odd || (x as usize).even().map(|y| y as u32) != want || std::num::Wrapping(x).is_even() == odd || std::num::Wrapping(x).even().map(|y| y.0) != want {
                w.fail("C18:even", || format!("is_even/even of {x:#X}"));
            }
        }
        let sl: &[u16] = &[v, !v, 7];
        let mut rest = sl;
        let next = rest.get_next_word();
        if sl.u32_be() != u || next != v || rest != &sl[1..] || sl.i32_be_sized(Size::Byte) != v as i8 as i32 || sl.i32_be_sized(Size::Word) != v as i16 as i32 || sl.i32_be_sized(Size::Long) != u as i32 {
            w.fail("C18:slice", || format!("slice helpers on {sl:X?}"));
        }
        if i < 4 {
            for (k, s, c, m, t) in [(0u16, Size::Byte, 'B', 1u16, false), (1, Size::Word, 'W', 3, false), (2, Size::Long, 'L', 2, true)] {
                let ok = u16::from(s) == k && Size::from(k) == s && s.into_move() == m && Size::from_move(m) == s && s.to_string() == c.to_string() && (s.is_byte(), s.is_word(), s.is_long()) == (k == 0, k == 1, k == 2)
                    && s.as_word_long() == if k == 0 { Size::Word } else { s } && (k == 0 || s.into_bit() == t as u16 && Size::from_bit(t) == s);
                if !ok { w.fail("C18:size", || format!("conversions of {s:?}")); }
            }
            if Direction::Left.to_string() != "L" || Direction::Right.to_string() != "R" { w.fail("C18:direction", || "Direction display".into()); }
            if (i8::SIGN_BIT_MASK as u8, u8::SIGN_BIT_MASK, i16::SIGN_BIT_MASK as u16, u16::SIGN_BIT_MASK, i32::SIGN_BIT_MASK as u32, u32::SIGN_BIT_MASK) != (0x80, 0x80, 0x8000, 0x8000, 1 << 31, 1 << 31) { w.fail("C18:sign-bit", || "SIGN_BIT_MASK".into()); }
        }
        if i < 256 {
            let n = i as u8;
            let e = Exception::from(n);
            let int = matches!(n, 25..=31 | 57..=63);
            if e.vector != n || e.is_interrupt() != int { w.fail("C18:exception", || format!("Exception::from({n}): vector {}, interrupt {}", e.vector, e.is_interrupt())); }
            let m = M::Drd(n & 7);
            if !m.is_drd() { w.fail("C18:mode", || format!("{m:?}")); }
        }
        if i == 0 {
            use Vector::*;
            let all = [
                (ResetSspPc, 0u8), (AccessError, 2), (AddressError, 3), (IllegalInstruction, 4), (ZeroDivide, 5), (ChkInstruction, 6), (TrapVInstruction, 7), (PrivilegeViolation, 8), (Trace, 9), (LineAEmulator, 10), (LineFEmulator, 11), (FormatError, 14),
                (UninitializedInterrupt, 15), (SpuriousInterrupt, 24), (Level1Interrupt, 25), (Level2Interrupt, 26), (Level3Interrupt, 27), (Level4Interrupt, 28), (Level5Interrupt, 29), (Level6Interrupt, 30), (Level7Interrupt, 31),
                (Trap0Instruction, 32), (Trap1Instruction, 33), (Trap7Instruction, 39), (Trap14Instruction, 46), (Trap15Instruction, 47), (Level1OnChipInterrupt, 57), (Level4OnChipInterrupt, 60), (Level7OnChipInterrupt, 63), (UserInterrupt, 64),
            ];
            for (v, n) in all { if v as u8 != n || Exception::from(v) != Exception::from(n) { w.fail("C18:vector", || format!("{v:?} is vector {}, expected {n}", v as u8)); } }
        }
    });
}

// ------------------------------------------------------------------------------------------------- C24: building blocks

/// Every accessor of the operands, as text: `None` where it refuses.
fn accessors(o: Operands) -> [(&'static str, Option<String>); 29] {
    fn t<T: std::fmt::Debug>(f: impl FnOnce() -> T) -> Option<String> { guard(f).ok().map(|v| format!("{v:?}")) }
    [
        ("NoOperands", if o == Operands::NoOperands { Some("()".into()) } else { None }),
        ("Immediate", t(|| (o.immediate(),))),
        ("SizeEffectiveAddressImmediate", t(|| o.size_effective_address_immediate())),
        ("EffectiveAddressCount", t(|| o.effective_address_count())),
        ("EffectiveAddress", t(|| (o.effective_address(),))),
        ("SizeEffectiveAddress", t(|| o.size_effective_address())),
        ("RegisterEffectiveAddress", t(|| o.register_effective_address())),
        ("RegisterDirectionSizeRegisterDisplacement", t(|| o.register_direction_size_register_displacement())),
        ("SizeRegisterEffectiveAddress", t(|| o.size_register_effective_address())),
        ("SizeEffectiveAddressEffectiveAddress", t(|| o.size_effective_address_effective_address())),
        ("RegisterOpmodeRegister", t(|| o.register_opmode_register())),
        ("OpmodeRegister", t(|| o.opmode_register())),
        ("Vector", t(|| (o.vector(),))),
        ("RegisterDisplacement", t(|| o.register_displacement())),
        ("Register", t(|| (o.register(),))),
        ("DirectionRegister", t(|| o.direction_register())),
        ("DirectionSizeEffectiveAddressList", t(|| o.direction_size_effective_address_list())),
        ("DataSizeEffectiveAddress", t(|| o.data_size_effective_address())),
        ("ConditionEffectiveAddress", t(|| o.condition_effective_address())),
        ("ConditionRegisterDisplacement", t(|| o.condition_register_displacement())),
        ("Displacement", t(|| (o.displacement(),))),
        ("ConditionDisplacement", t(|| o.condition_displacement())),
        ("RegisterData", t(|| o.register_data())),
        ("RegisterDirectionSizeEffectiveAddress", t(|| o.register_direction_size_effective_address())),
        ("RegisterSizeEffectiveAddress", t(|| o.register_size_effective_address())),
        ("RegisterSizeModeRegister", t(|| o.register_size_mode_register())),
        ("RegisterSizeRegister", t(|| o.register_size_register())),
        ("DirectionEffectiveAddress", t(|| o.direction_effective_address())),
        ("RotationDirectionSizeModeRegister", t(|| o.rotation_direction_size_mode_register())),
    ]
}

/// Name and fields of operands, from their derived `Debug` form.
fn fields(o: &Operands) -> (String, String) {
    let s = format!("{o:?}");
    match s.find('(') {
        // One-tuples are written with a comma.
        Some(k) => { let mut f = s[k..].to_string(); if one_field(o) { f.insert(f.len() - 1, ','); } (s[..k].to_string(), f) }
        None => (s, "()".into()),
    }
}
fn one_field(o: &Operands) -> bool {
    matches!(o, Operands::Immediate(_) | Operands::EffectiveAddress(_) | Operands::Vector(_) | Operands::Register(_) | Operands::Displacement(_))
}

/// All addressing modes with the registers 0..=8 and 255 and words `e`.
fn modes(e: u32) -> Vec<(M, u8, u8)> {
    let w = e as u16;
    let mut v = Vec::new();
    for r in (0..=8).chain([15, 16, 128, 255]) {
        v.extend([(M::Drd(r), 0, r), (M::Ard(r), 1, r), (M::Ari(r), 2, r), (M::Ariwpo(r), 3, r), (M::Ariwpr(r), 4, r), (M::Ariwd(r, w as i16), 5, r), (M::Ariwi8(r, BriefExtensionWord(w)), 6, r)]);
    }
    v.extend([(M::AbsShort(w), 7, 0), (M::AbsLong(e), 7, 1), (M::Pciwd(e, w as i16), 7, 2), (M::Pciwi8(e, BriefExtensionWord(w)), 7, 3), (M::Immediate(e), 7, 4)]);
    v
}

fn c24(ctx: &Ctx) {
    ctx.assume("What assembling an addressing mode with a register above 7 yields is not judged (C12 judges that no instruction is built from one).");
    // The operands of every opcode through every accessor, and through the instruction table.
    ctx.space("C24:operand-accessors", 65536, |i, w| {
        let op = i as u16;
        for k in 0..pick(w, 6usize, 24) {
            let mut words = vec![op];
            ext_fill(&classify(op), k, &mut words);
            words.extend([0x1234, 0x5678]);
            let mut mem = words.clone();
            let Ok(Ok(ins)) = guard(|| Instruction::from_memory(&mut (&mut mem[..]).iter_u16(0))) else { w.fail("C24:decode", || format!("{words:04X?} cannot be decoded")); continue; };
            let (name, want) = fields(&ins.operands);
            let mut h = H::new();
            for b in name.bytes().chain(want.bytes()) { h.add(b as u64); }
            w.outcome(h.get());
            if op % 4999 == 0 { w.sample(|| format!("{words:04X?}: {:?}", ins.operands)); }
            w.transitions(30);
            w.trace();
            w.state(i << 4 | k as u64);
            let all = accessors(ins.operands);
            for (n, got) in &all {
                let exp = if *n == name { Some(want.clone()) } else { None };
                if *got != exp { w.fail(format!("C24:accessor:{n}"), || format!("operands {:?} of {op:04X}: accessor of {n} gives {got:?}, expected {exp:?}", ins.operands)); }
            }
            if !all.iter().any(|(n, _)| *n == name) { w.fail("C24:accessor:unknown", || format!("operands {:?}", ins.operands)); }
            let mut mem = words.clone();
            let got = guard(|| { let mut it = mem.iter_u16(2); let o = (IsaEntry::<[u16]>::ISA_ENTRY[Isa::from(op) as usize].decode)(op, &mut it); (o, it.next_addr) });
            let n = ext_words(&classify(op)) as u32;
            if got != Ok((ins.operands, 2 + 2 * n)) { w.fail("C24:isa-entry", || format!("the table entry of {op:04X} decodes {words:04X?} as {got:?}, from_memory as {:?}", ins.operands)); }
        }
    });
    // Addressing modes as source field, as MOVE destination, checked against lists of modes and printed.
    ctx.space("C24:addressing-modes", 65536, |i, w| {
        let hi = (i as u32) << 16;
        for e in [i as u32, hi | i as u32 ^ 0xFFFF, 0xFFFF_0000 | i as u32, hi, hi | 0xFFFF, hi | 0x8000, hi | i as u32] {
            for (am, mode, reg) in modes(e) {
                w.transitions(8);
                w.trace();
                let text = guard(|| (format!("{am}"), format!("{am:x}"), format!("{am:X}")));
                let Ok((d, lx, ux)) = text else { w.fail("C24:mode:print", || format!("{am:?} cannot be printed")); continue; };
                if let M::Immediate(v) = am {
                    if (d.as_str(), lx.as_str(), ux.as_str()) != (&format!("#{v}"), &format!("#0x{v:x}"), &format!("#0x{v:X}")) { w.fail("C24:mode:immediate", || format!("{am:?} prints as {d} {lx} {ux}")); }
                } else if lx != d || ux != d { w.fail("C24:mode:hex", || format!("{am:?} prints as {d}, in hexadecimal as {lx} and {ux}")); }
                if mode < 7 && reg > 7 { continue; }
                let ext: &[u16] = match am {
                    M::AbsLong(_) => &[(e >> 16) as u16, e as u16],
                    M::Ariwd(..) | M::Ariwi8(..) | M::AbsShort(_) | M::Pciwd(..) | M::Pciwi8(..) | M::Immediate(_) => &[e as u16],
                    _ => &[],
                };
                for long in [false, true] {
                    let want: &[u16] = if long && matches!(am, M::Immediate(_)) { &[(e >> 16) as u16, e as u16] } else { ext };
                    let got = guard(|| am.assemble(long));
                    if !got.as_ref().is_ok_and(|g| g.0 == (mode as u16) << 3 | reg as u16 && g.1[..] == *want) { w.fail("C24:mode:assemble", || format!("{am:?}.assemble({long}) gives {got:04X?}")); }
                    // Read back. The place is known to program counter relative modes.
                    if let Ok((f, x)) = got {
                        let mut mem: Vec<u16> = x.to_vec();
                        mem.push(0);
                        let back = guard(|| { let mut it = mem.iter_u16(0); (M::from_memory(f >> 3 & 7, (f & 7) as u8, Some(if long { Size::Long } else { Size::Word }), &mut it), it.next_addr) });
                        let same = match am { M::Pciwd(_, d) => M::Pciwd(0, d), M::Pciwi8(_, b) => M::Pciwi8(0, b), M::Immediate(v) if !long => M::Immediate(v & 0xFFFF), _ => am };
                        if back != Ok((same, 2 * x.len() as u32)) { w.fail("C24:mode:read-back", || format!("{am:?} (long {long}) is read back as {back:?}")); }
                    }
                }
                let dst = guard(|| am.assemble_move_dst());
                let legal = mode < 7 || reg < 2;
                let ok = match &dst { Ok(g) => legal && g.0 == (mode as u16) << 6 | (reg as u16) << 9 && g.1[..] == *ext, Err(_) => !legal };
                if !ok { w.fail("C24:mode:destination", || format!("{am:?}.assemble_move_dst() gives {dst:04X?}")); }
            }
        }
    });
    // `verify` with every set of modes and of mode 7 registers.
    ctx.space("C24:verify", 256 * 32, |i, w| {
        let (ms, rs) = ((i / 32) as u8, (i % 32) as u8);
        let list = |set: u8| (0..8u8).filter(|k| set >> k & 1 == 1).collect::<Vec<_>>();
        let (lm, lr) = (list(ms), list(rs));
        let (mut rm, mut rr) = (lm.clone(), lr.clone());
        rm.reverse();
        rr.reverse();
        w.state(7 << 40 | i);
        for (am, mode, reg) in [0, 1, 0x1234, 0x7FFE, 0x7FFF, 0x8000, 0xFFFE, 0xFFFF, 0x0001_0000, 0x0100_0000, 0x7FFF_FFFF, 0x8000_0000, 0x8001_7FFE, 0xFFFF_7FFF, 0xFFFF_8000, 0xFFFF_FFFF].into_iter().flat_map(modes) {
            let want = ms >> mode & 1 == 1 && if mode == 7 { rs >> reg & 1 == 1 } else { reg < 8 };
            w.transitions(2);
            if am.verify(&lm, &lr) != want || am.verify(&rm, &rr) != want { w.fail("C24:verify", || format!("{am:?}.verify({lm:?}, {lr:?}) is not {want}")); }
        }
        w.trace();
    });
    // Brief extension words: every field value, and every word printed.
    ctx.space("C24:brief-extension-words", 65536, |i, w| {
        w.state(8 << 40 | i);
        w.trace();
        w.transitions(3);
        let v = i as u16;
        let b = BriefExtensionWord(v);
        let (a, r, l, d) = (v >> 15 == 1, (v >> 12 & 7) as u8, v >> 11 & 1 == 1, v as u8 as i8);
        if b.disp() != d { w.fail("C24:brief:displacement", || format!("{v:04X}: {}", b.disp())); }
        let s = b.to_string().replace(' ', "").to_uppercase();
        let want = format!("{}{r}.{}", if a { 'A' } else { 'D' }, if l { 'L' } else { 'W' });
        if s != want { w.fail("C24:brief:print", || format!("{v:04X} prints as {s}, expected {want}")); }
        let new = guard(|| BriefExtensionWord::new(a, r, l, d));
        if new != Ok(BriefExtensionWord(v & 0xF8FF)) { w.fail("C24:brief:new", || format!("new({a}, {r}, {l}, {d}) gives {new:04X?}")); }
        let reg = (v >> 8) as u8;
        if reg > 7 {
            let bad = guard(|| BriefExtensionWord::new(v & 1 == 1, reg, v & 2 == 2, d));
            if bad.is_ok() { w.fail("C24:brief:register", || format!("register {reg} is accepted: {bad:04X?}")); }
        }
    });
    // Sizes: encodings that stand for no size are refused.
    ctx.space("C24:sizes", 65536, |i, w| {
        w.state(9 << 40 | i);
        w.trace();
        w.transitions(2);
        let v = i as u16;
        let (a, b) = (guard(|| Size::from(v)).ok(), guard(|| Size::from_move(v)).ok());
        let want = (match v { 0 => Some(Size::Byte), 1 => Some(Size::Word), 2 => Some(Size::Long), _ => None }, match v { 1 => Some(Size::Byte), 3 => Some(Size::Word), 2 => Some(Size::Long), _ => None });
        if (a, b) != want { w.fail("C24:size:decode", || format!("{v}: {a:?} and, for MOVE, {b:?}, expected {want:?}")); }
        if i == 0 {
            if guard(|| Size::Byte.into_bit()).is_ok() { w.fail("C24:size:bit", || "Byte has a one bit encoding".into()); }
            use Direction::*;
            for d in [RegisterToMemory, MemoryToRegister, DstReg, DstEa, RegisterToUsp, UspToRegister, RegisterToRegister, MemoryToMemory, ExchangeData, ExchangeAddress, ExchangeDataAddress] {
                if !d.to_string().is_empty() { w.fail("C24:direction", || format!("{d:?} prints as {d}")); }
            }
        }
    });
    // Exceptions are totally ordered, and equal exactly when they are the same.
    ctx.space("C24:exception-order", 65536, |i, w| {
        w.state(10 << 40 | i);
        w.trace();
        let (a, b) = (Exception::from((i >> 8) as u8), Exception::from(i as u8));
        let o = a.cmp(&b);
        if (o == std::cmp::Ordering::Equal) != (a.vector == b.vector) || (a == b) != (a.vector == b.vector) { w.fail("C24:order:equal", || format!("{a:?} and {b:?} compare {o:?}")); }
        if b.cmp(&a) != o.reverse() || a.partial_cmp(&b) != Some(o) { w.fail("C24:order:antisymmetric", || format!("{a:?} and {b:?} compare {o:?}")); }
        for c in 0..=255u8 {
            let c = Exception::from(c);
            w.transition();
            if o == b.cmp(&c) && a.cmp(&c) != o { w.fail("C24:order:transitive", || format!("{a:?} {o:?} {b:?} {o:?} {c:?}, but {:?}", a.cmp(&c))); }
        }
    });
}

fn main() {
    engine::main(&[("C15", c15), ("C18", c18), ("C24", c24)]);
}
