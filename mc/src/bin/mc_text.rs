//! C01 and C13: the decoder and the disassembler, compared with the reference decoder on the complete opcode space and
//! on complete sets of extension words.

use mc::decode::*;
use mc::drive::*;
use mc::engine::{self, guard, Ctx, H, W};
use mc::text;
use m68000::addressing_modes::AddressingMode;
use m68000::decoder::DECODER;
use m68000::instruction::{Instruction, Operands, Size};
use m68000::isa::Isa;
use m68000::MemoryAccess;
use std::collections::HashMap;
use std::sync::Mutex;

/// A window of code words; everything else is unmapped. Every access is recorded.
struct Code { base: u32, words: Vec<u16>, reads: Vec<u32>, odd: bool }
impl Code {
    fn new() -> Code { Code { base: 0, words: Vec::new(), reads: Vec::new(), odd: false } }
    fn at(&self, a: u32) -> Option<u16> { self.words.get((a.wrapping_sub(self.base) >> 1) as usize).copied() }
}
impl MemoryAccess for Code {
    fn get_byte(&mut self, _: u32) -> Option<u8> { self.odd = true; None }
    fn get_word(&mut self, a: u32) -> Option<u16> { self.odd |= a & 1 != 0; self.reads.push(a); self.at(a) }
    fn set_byte(&mut self, _: u32, _: u8) -> Option<()> { self.odd = true; None }
    fn set_word(&mut self, _: u32, _: u16) -> Option<()> { self.odd = true; None }
    fn reset_instruction(&mut self) { self.odd = true; }
}

const PCS: [u32; 6] = [0x1000, 0, 0x7FFE, 0xFFFF_FFFE, 0x8000_0000, 0x00FF_FFFC];

fn reference(c: &Code) -> Ins {
    let op = c.words[0];
    finish::<()>(op, classify(op), c.base, &mut |a| c.at(a).ok_or(())).unwrap()
}

/// Decodes the words of `c` and compares with the reference decoder.
fn decodes(w: &mut W, tag: &str, c: &mut Code) {
    w.transition();
    let ins = reference(c);
    let name = || format!("{:?}", ins.f.mn);
    c.reads.clear();
    c.odd = false;
    let got = guard(|| {
        let mut it = c.iter_u16(c.base);
        let r = Instruction::from_memory(&mut it);
        (r, it.next_addr)
    });
    let mut h = H::new();
    for v in &c.words { h.add(*v as u64); }
    h.add(c.base as u64);
    w.state(h.get());
    w.trace();
    let words = c.words.clone();
    let show = move |s: String| format!("{s}; words {words:04X?} at {:#X}", ins.pc);
    let (r, next) = match got {
        Err(e) => { w.fail(format!("C01:{tag}:{}:panic", name()), || show(format!("panic '{e}'"))); return; }
        Ok((Err(e), _)) => { w.fail(format!("C01:{tag}:{}:error", name()), || show(format!("error {e}"))); return; }
        Ok((Ok(r), next)) => (r, next),
    };
    if r.opcode != ins.op || r.pc != ins.pc {
        w.fail(format!("C01:{tag}:{}:opcode-or-address", name()), || show(format!("decoded as opcode {:04X} at {:#X}", r.opcode, r.pc)));
    }
    let isa = Isa::from(ins.op);
    if format!("{isa:?}") != name() {
        w.fail(format!("C01:{tag}:{}:operation", name()), || show(format!("opcode {:04X} decodes as {isa:?}, expected {}", ins.op, name())));
        return;
    }
    let bits = text::imm_bits(&ins);
    let (want, have) = (text::norm(text::operands(&ins), ins.f.mn, bits), text::norm(r.operands, ins.f.mn, bits));
    h.add(ins.f.mn as u64);
    w.outcome(h.get());
    if want != have {
        w.fail(format!("C01:{tag}:{}:operands", name()), || show(format!("{have:?}, expected {want:?}")));
    }
    if next != ins.next {
        w.fail(format!("C01:{tag}:{}:length", name()), || show(format!("decoding stops at {next:#X}, expected {:#X}", ins.next)));
    }
    let n = ins.words();
    if c.odd || c.reads.len() != n as usize || c.reads.iter().enumerate().any(|(k, a)| *a != ins.pc.wrapping_add(2 * k as u32)) {
        let reads = c.reads.clone();
        w.fail(format!("C01:{tag}:{}:fetches", name()), || show(format!("words read at {reads:X?}, expected {n} from {:#X}", ins.pc)));
    }
}

fn fill(c: &mut Code, op: u16, base: u32, k: usize) {
    c.base = base;
    c.words.clear();
    c.words.push(op);
    ext_fill(&classify(op), k, &mut c.words);
}

/// One opcode per distinct combination of operation, size, form and addressing modes (registers and data reduced).
fn representatives() -> Vec<u16> {
    let mut seen = std::collections::BTreeSet::new();
    let red = |ea: u8| if ea == 0xFF { 0xFF } else if ea < 0x38 { ea & 0x38 } else { ea };
    (0..=0xFFFFu16).filter(|op| {
        let f = classify(*op);
        let q = if matches!(f.mn, Mn::Bcc | Mn::Bra | Mn::Bsr) { (f.q == 0) as u8 } else if f.mn == Mn::Exg { f.q } else { 0 };
        seen.insert((f.mn, f.sz, f.dir, f.ir, q, red(f.ea), red(f.ea2)))
    }).collect()
}

/// Values of one extension word: all.
fn ext_space(ctx: &Ctx, name: &str, ops: &[u16], f: fn(&mut W, &str, &mut Code)) {
    let items: Vec<(u16, usize)> = ops.iter().flat_map(|op| (0..ext_words(&classify(*op))).map(move |k| (*op, k))).collect();
    let tag = "extension-words";
    ctx.space(name, items.len() as u64, |i, w| {
        let (op, pos) = items[i as usize];
        let mut c = Code::new();
        let base = PCS[(op as usize >> 3 ^ op as usize) % 5];
        fill(&mut c, op, if base == 0xFFFF_FFFE { 0x1000 } else { base }, 1);
        for v in 0..=0xFFFFu16 {
            c.words[1 + pos] = v;
            f(w, tag, &mut c);
        }
    });
}

fn c01(ctx: &Ctx) {
    ctx.assume("The reference decoder (mc/src/decode.rs) is written from the Programmer's Reference Manual; the MC68000, not later processors, is the yardstick.");
    ctx.assume("Unused halves of byte immediates and the direction field of CMP and EOR carry no meaning and are not compared. The panic on an unreadable extension word is C07's known finding.");
    ctx.space("C01:opcodes", ALL_OPS, |i, w| {
        let op = i as u16;
        let mn = classify(op).mn;
        let mut c = Code::new();
        for (p, base) in PCS.iter().enumerate() {
            for k in 0..pick(w, 14, 24) { fill(&mut c, op, *base, k + p); decodes(w, "opcodes", &mut c); }
        }
        let isa = Isa::from(op);
        if DECODER[op as usize] != isa { w.fail("C01:table", || format!("DECODER[{op:04X}] is {:?}, Isa::from gives {isa:?}", DECODER[op as usize])); }
        if isa.is_privileged() != mn.privileged() { w.fail(format!("C01:privileged:{mn:?}"), || format!("{isa:?}.is_privileged() is {}", isa.is_privileged())); }
        w.sample(|| { fill(&mut c, op, 0x1000, 0); format!("{:04X?} decodes as {:?}", c.words, text::operands(&reference(&c))) });
    });
    let reps = representatives();
    let all: Vec<u16> = (0..=0xFFFF).collect();
    ext_space(ctx, "C01:extension-words", if ctx.thorough() { &all } else { &reps }, decodes);

    // Complete displacement and data fields with the words that follow: longs in both halves.
    ctx.space("C01:long-immediates", 256, |i, w| {
        let mut c = Code::new();
        for op in [0x0680u16, 0x0080, 0x203C, 0x2A79, 0x23FC, 0x4EF9, 0x48F9, 0xD1FC] {
            for lo in 0..pick(w, 1024u32, 4096) {
                let (hi, lo) = ((i * 0x0101) as u16, (lo * 0x0111) as u16);
                c.base = 0x2000;
                c.words = vec![op, hi, lo, lo ^ 0x5A5A, hi ^ 0xA5A5];
                c.words.truncate(1 + ext_words(&classify(op)));
                decodes(w, "long-immediates", &mut c);
            }
        }
    });

    // Streams: two instructions one behind the other, from every provided kind of memory.
    ctx.space("C01:streams", reps.len() as u64, |i, w| {
        let a = reps[i as usize];
        for (j, b) in reps.iter().enumerate() {
            if (i as usize + j) % pick(w, 2, 1) != 0 { continue; }
            let mut c = Code::new();
            fill(&mut c, a, 0, j);
            let n = c.words.len();
            c.words.push(*b);
            ext_fill(&classify(*b), i as usize, &mut c.words);
            let expect = |at: u32| {
                let op = c.at(at).unwrap();
                let ins = finish::<()>(op, classify(op), at, &mut |a| c.at(a).ok_or(())).unwrap();
                (text::norm(text::operands(&ins), ins.f.mn, text::imm_bits(&ins)), ins.next, ins)
            };
            let one = expect(0);
            let two = expect(2 * n as u32);
            let end = 2 * c.words.len() as u32;
            let mut bytes: Vec<u8> = c.words.iter().flat_map(|v| v.to_be_bytes()).collect();
            let mut words = c.words.clone();
            let same = |got: &[(Result<Instruction, u8>, u32)]| -> bool {
                got.iter().zip([&one, &two]).all(|(g, e)| g.0.is_ok_and(|x| text::norm(x.operands, e.2.f.mn, text::imm_bits(&e.2)) == e.0 && x.opcode == e.2.op && x.pc == e.2.pc) && g.1 == e.1)
                    && got[2].0 == Err(2) && got[2].1 == end.wrapping_add(2)
            };
            fn walk<M: MemoryAccess + ?Sized>(m: &mut M) -> Result<Vec<(Result<Instruction, u8>, u32)>, String> {
                guard(|| {
                    let mut it = m.iter_u16(0);
                    (0..3).map(|_| { let r = Instruction::from_memory(&mut it); (r, it.next_addr) }).collect()
                })
            }
            w.transitions(12);
            for (kind, got) in [("[u8]", walk(&mut bytes[..])), ("&[u8]", walk(&mut &bytes[..])), ("[u16]", walk(&mut words[..])), ("&[u16]", walk(&mut &words[..]))] {
                w.trace();
                if !got.as_ref().is_ok_and(|g| same(g)) {
                    w.fail(format!("C01:streams:{kind}"), || format!("words {:04X?} decode as {got:?}, expected {:?} then {:?} then an access error", c.words, one.0, two.0));
                }
            }
        }
    });

    // Opcode fetches that fail, and the same opcode given by hand.
    ctx.space("C01:fetch", 1 << 12, |i, w| {
        for base in [i as u32, 0u32.wrapping_sub(i as u32), 0x8000_0000 + i as u32] {
            let mut c = Code::new();
            c.base = 0x4000_0000;
            w.transition();
            let got = guard(|| { let mut it = c.iter_u16(base); (Instruction::from_memory(&mut it), it.next_addr) });
            let want = if base & 1 != 0 { Err(3) } else { Err(2) };
            let seen = c.reads.len();
            w.trace();
            if !got.as_ref().is_ok_and(|g| g.0 == want) || seen != (base & 1 == 0) as usize || c.odd {
                w.fail("C01:fetch", || format!("decoding at {base:#X}, unmapped: {got:?} after {seen} accesses, expected {want:?}"));
            }
        }
        for op in (i * 16..i * 16 + 16).map(|o| o as u16) {
            let mut c = Code::new();
            fill(&mut c, op, 0x1000, i as usize);
            let a = guard(|| Instruction::from_memory(&mut c.iter_u16(0x1000)));
            let b = guard(|| Instruction::from_opcode(op, 0x1000, &mut c.iter_u16(0x1002)));
            w.transitions(2);
            if !matches!((&a, &b), (Ok(Ok(x)), Ok(y)) if x == y) { w.fail("C01:from-opcode", || format!("opcode {op:04X}: from_memory {a:?}, from_opcode {b:?}")); }
        }
    });

    // Addressing modes by themselves.
    ctx.space("C01:addressing-modes", 64, |i, w| {
        let ea = i as u8;
        if ea > 0x3C { return; }
        for (sz, size) in [(1, Some(Size::Byte)), (2, Some(Size::Word)), (4, Some(Size::Long)), (0, None)] {
            if ea == 0x3C && sz == 0 { continue; }
            for e in 0..=0xFFFFu32 {
                let mut c = Code::new();
                c.base = 0x3000;
                c.words = vec![e as u16, (e as u16).rotate_left(5) ^ 0x1234];
                // An opcode-free read: MOVE-like form whose only operand is this mode.
                let f = Form { mn: Mn::Tst, sz, x: 0, y: 0, dir: false, ir: false, q: 0, pre: Pre::None, ea, ea2: 0xFF };
                let ins = finish::<()>(0, f, 0x2FFE, &mut |a| c.at(a).ok_or(())).unwrap();
                let got = guard(|| { let mut it = c.iter_u16(0x3000); (AddressingMode::from_memory(ea as u16 >> 3, ea & 7, size, &mut it), it.next_addr) });
                w.transition();
                w.trace();
                let want = (text::mode(ins.am), ins.next);
                let same = matches!(&got, Ok(g) if *g == want) || sz == 1 && matches!((&got, &want), (Ok((AddressingMode::Immediate(a), n)), (AddressingMode::Immediate(b), m)) if n == m && (a ^ b) & 0xFF == 0);
                if !same { w.fail(format!("C01:addressing-mode:{:o}", ea), || format!("mode {} register {} size {size:?}, word {e:04X}: {got:?}, expected {want:?}", ea >> 3, ea & 7)); }
                if let Ok((am, _)) = got {
                    let reg = if ea < 0x38 { Some(ea & 7) } else { None };
                    let is = [am.is_drd(), am.is_ard(), am.is_dard(), am.is_ariwpo(), am.is_ariwpr(), am.is_immediate()];
                    let m = ea >> 3;
                    if am.register() != reg || is != [m == 0, m == 1, m < 2, m == 3, m == 4, ea == 0x3C] {
                        w.fail("C01:addressing-mode:queries", || format!("{am:?}: register {:?}, predicates {is:?}", am.register()));
                    }
                    let (field, ext) = am.assemble(sz == 4);
                    let n = (want.1 - 0x3000) as usize / 2;
                    if field != ea as u16 || ext[..] != c.words[..n] { w.fail("C01:addressing-mode:assemble", || format!("{am:?} assembles to {field:02X} {ext:04X?}, expected {ea:02X} {:04X?}", &c.words[..n])); }
                }
                if ext_words(&f) == 0 { break; }
            }
        }
    });
}

fn meaning(i: &Ins) -> u64 {
    let bits = text::imm_bits(i);
    let o = text::norm(text::operands(i), i.f.mn, bits);
    let mut h = H::new();
    h.add(if i.f.mn == Mn::Unknown { 0x10000 + i.op as u64 } else { i.f.mn as u64 });
    // Bits 8-10 of a brief extension word are not used.
    let t = format!("{:?}", unused(o));
    for b in t.bytes() { h.add(b as u64); }
    h.get()
}
fn unused(o: Operands) -> Operands {
    use m68000::addressing_modes::{AddressingMode as M, BriefExtensionWord as B};
    let m = |a: M| match a { M::Ariwi8(r, e) => M::Ariwi8(r, B(e.0 & 0xF8FF)), M::Pciwi8(b, e) => M::Pciwi8(b, B(e.0 & 0xF8FF)), a => a };
    use Operands::*;
    match o {
        SizeEffectiveAddressImmediate(s, a, i) => SizeEffectiveAddressImmediate(s, m(a), i),
        EffectiveAddressCount(a, n) => EffectiveAddressCount(m(a), n),
        EffectiveAddress(a) => EffectiveAddress(m(a)),
        SizeEffectiveAddress(s, a) => SizeEffectiveAddress(s, m(a)),
        RegisterEffectiveAddress(r, a) => RegisterEffectiveAddress(r, m(a)),
        SizeRegisterEffectiveAddress(s, r, a) => SizeRegisterEffectiveAddress(s, r, m(a)),
        SizeEffectiveAddressEffectiveAddress(s, d, a) => SizeEffectiveAddressEffectiveAddress(s, m(d), m(a)),
        DirectionSizeEffectiveAddressList(d, s, a, l) => DirectionSizeEffectiveAddressList(d, s, m(a), l),
        DataSizeEffectiveAddress(d, s, a) => DataSizeEffectiveAddress(d, s, m(a)),
        ConditionEffectiveAddress(c, a) => ConditionEffectiveAddress(c, m(a)),
        RegisterDirectionSizeEffectiveAddress(r, d, s, a) => RegisterDirectionSizeEffectiveAddress(r, d, s, m(a)),
        RegisterSizeEffectiveAddress(r, s, a) => RegisterSizeEffectiveAddress(r, s, m(a)),
        DirectionEffectiveAddress(d, a) => DirectionEffectiveAddress(d, m(a)),
        o => o,
    }
}

/// Disassembles the words of `c`, compares with the reference text and returns the text.
fn disassembles(w: &mut W, tag: &str, c: &mut Code) -> Option<(String, Ins)> {
    w.transition();
    let ins = reference(c);
    let name = || format!("{:?}", ins.f.mn);
    let words = c.words.clone();
    let show = move |s: String| format!("{s}; words {words:04X?} at {:#X}", ins.pc);
    w.trace();
    let got = guard(|| { let i = Instruction::from_memory(&mut c.iter_u16(c.base)); i.map(|i| (i.disassemble(), i)) });
    let (t, inst) = match got {
        Err(e) => { w.fail(format!("C13:{tag}:{}:panic", name()), || show(format!("panic '{e}'"))); return None; }
        Ok(Err(e)) => { w.fail(format!("C13:{tag}:{}:error", name()), || show(format!("error {e}"))); return None; }
        Ok(Ok(x)) => x,
    };
    let mut have = String::new();
    let mut want = String::new();
    text::canon(&t, &mut have);
    text::canon(&text::text(&ins), &mut want);
    let mut h = H::new();
    for b in have.bytes() { h.add(b as u64); }
    w.outcome(h.get());
    h.add(c.base as u64);
    for v in &c.words { h.add(*v as u64); }
    w.state(h.get());
    if have != want {
        // The upper half of a byte immediate may be shown or not.
        let bits = text::imm_bits(&ins);
        let mut m = ins;
        m.imm &= bits;
        if let Am::Imm(v) = m.am { m.am = Am::Imm(v & bits) }
        text::canon(&text::text(&m), &mut want);
        if bits != 0xFF || have != want { w.fail(format!("C13:{tag}:{}:text", name()), || show(format!("'{t}', expected '{}'", text::text(&ins)))); }
    }
    if tag == "opcodes" {
        let d = guard(|| inst.to_string());
        if d.as_ref() != Ok(&t) { w.fail("C13:display", || show(format!("Display gives {d:?}, disassemble '{t}'"))); }
    }
    Some((t, ins))
}

fn c13(ctx: &Ctx) {
    ctx.assume("Numbers may be written in any base and spaces may differ; the order, the operands, the operation and the size must match the reference text (mc/src/text.rs).");
    ctx.assume("The two encodings (8 and 16 bits) of one branch mean the same and may print the same.");
    let maps: Vec<Mutex<HashMap<u64, (u64, u16)>>> = (0..256).map(|_| Mutex::new(HashMap::new())).collect();
    let distinct = |w: &mut W, t: &str, ins: &Ins| {
        let mut h = H::new();
        h.add(ins.pc as u64);
        for b in t.bytes() { h.add(b as u64); }
        let (k, m) = (h.get(), meaning(ins));
        let mut map = maps[(k >> 56) as usize].lock().unwrap();
        let e = *map.entry(k).or_insert((m, ins.op));
        if e.0 != m { w.fail("C13:distinct", || format!("opcodes {:04X} and {:04X} with different operands print '{t}'", e.1, ins.op)); }
    };
    ctx.space("C13:opcodes", ALL_OPS, |i, w| {
        let op = i as u16;
        let mut c = Code::new();
        for (p, base) in PCS.iter().enumerate() {
            for k in 0..pick(w, 14, 24) {
                fill(&mut c, op, *base, k + p);
                if let Some((t, ins)) = disassembles(w, "opcodes", &mut c) {
                    distinct(w, &t, &ins);
                    if p == 0 && k == 0 { w.sample(|| format!("{:04X?} -> {t}", c.words)); }
                }
            }
        }
    });
    let reps = representatives();
    let all: Vec<u16> = (0..=0xFFFF).collect();
    ext_space(ctx, "C13:extension-words", if ctx.thorough() { &all } else { &reps }, |w, t, c| { disassembles(w, t, c); });
    // Every value of an extension word prints differently for the modes and operands that have one.
    let small: Vec<u16> = reps.iter().copied().filter(|op| { let f = classify(*op); ext_words(&f) == 1 && !matches!(f.mn, Mn::Move | Mn::Movea) }).collect();
    ctx.space("C13:distinct-extension-words", small.len() as u64, |i, w| {
        let op = small[i as usize];
        let mut c = Code::new();
        fill(&mut c, op, 0x1000, 0);
        let mut seen: HashMap<String, u64> = HashMap::new();
        for v in 0..=0xFFFFu16 {
            c.words[1] = v;
            let Some((t, ins)) = disassembles(w, "distinct-extension-words", &mut c) else { continue };
            let m = meaning(&ins);
            let e = *seen.entry(t.clone()).or_insert(m);
            if e != m { w.fail(format!("C13:distinct:{}", mnem(op)), || format!("two values of the extension word of opcode {op:04X} print '{t}', one is {v:04X}")); }
        }
    });
}

fn main() {
    engine::main(&[("C01", c01), ("C13", c13)]);
}
