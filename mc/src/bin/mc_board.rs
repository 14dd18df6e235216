//! C30: the example microcontroller (`src/bin/scc68070.rs`), run as a program on generated ROMs. What it prints is compared
//! with what the memory map of the board says: the oracle is the map and the memory alone, without a processor.

use mc::engine::{self, Ctx, H, W};
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

struct Scratch(PathBuf);
impl Scratch {
    fn new(tag: &str) -> Scratch {
        let p = std::env::temp_dir().join(format!("mc_board.{}.{tag}", std::process::id()));
        let _ = std::fs::remove_dir_all(&p);
        std::fs::create_dir_all(&p).unwrap_or_else(|e| engine::die(&format!("no scratch directory: {e}")));
        Scratch(p)
    }
}
impl Drop for Scratch { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }

const ROM: u32 = 0x40_0000;
const TOP: u32 = 0x50_0000;
const UART: u32 = 0x8000_2019;

/// Runs the program in `dir`: its status (None: it did not end in time) and its standard output.
fn board(w: &W, s: &Scratch) -> (Option<bool>, Vec<u8>) {
    let exe = std::env::var("VERIF_TOOLS").unwrap_or_else(|_| engine::die("VERIF_TOOLS is not set")) + "/scc68070";
    let out = std::fs::File::create(s.0.join("stdout")).unwrap_or_else(|e| engine::die(&format!("no output file: {e}")));
    let mut p = Command::new(exe).env("RUST_BACKTRACE", "0").current_dir(&s.0).stdin(Stdio::null()).stderr(Stdio::null()).stdout(out).spawn()
        .unwrap_or_else(|e| engine::die(&format!("scc68070 cannot be run: {e}")));
    let start = Instant::now();
    let status = loop {
        if let Some(x) = p.try_wait().unwrap_or_else(|e| engine::die(&format!("scc68070: {e}"))) { break Some(x.success()); }
        if start.elapsed() > Duration::from_secs(420) { let _ = p.kill(); let _ = p.wait(); break None; }
        w.alive();
        std::thread::sleep(Duration::from_millis(50));
    };
    (status, std::fs::read(s.0.join("stdout")).unwrap_or_default())
}

/// The output must be these bytes, each printed as the character of that code, and one line with the time it took.
fn judge(w: &mut W, rom: &[u8], want: &[u8], what: &str, key: &str, show: impl Fn(usize) -> String) {
    w.trace();
    w.transition();
    let s = Scratch::new(&key.replace(':', "_").replace('/', "_"));
    std::fs::write(s.0.join("cpudiag40.rom"), rom).unwrap_or_else(|e| engine::die(&format!("no ROM file: {e}")));
    let (status, out) = board(w, &s);
    let group = key.split('/').next().unwrap();
    let mut h = H::new();
    for b in &out { h.add(*b as u64); }
    if status.is_none() { return w.fail(format!("C30:{group}:end"), || format!("{what}: the program has not ended after 420 s")); }
    let text = String::from_utf8_lossy(&out).into_owned();
    let mut got = text.chars();
    for (i, b) in want.iter().enumerate() {
        let c = got.next();
        if c != Some(*b as char) { return w.fail(format!("C30:{group}:output"), || format!("{what}: character {i} of the output is {c:?}, expected {:?} ({})", *b as char, show(i))); }
    }
    let rest = got.as_str();
    if rest.lines().count() != 1 || !rest.ends_with('\n') || !rest.starts_with(|c: char| c.is_ascii_digit()) {
        return w.fail(format!("C30:{group}:rest"), || format!("{what}: after the expected output comes {:?} instead of one line with the time", rest.chars().take(40).collect::<String>()));
    }
    if status != Some(true) { return w.fail(format!("C30:{group}:status"), || format!("{what}: the program ends with an error")); }
    let mut h = H::new();
    for b in want { h.add(*b as u64); }
    w.outcome(h.get());
}

/// A ROM under construction.
struct Rom(Vec<u8>);
impl Rom {
    fn new(ssp: u32, pc: u32) -> Rom { let mut r = Rom(Vec::new()); r.long(ssp); r.long(pc); r.org(pc); r }
    fn here(&self) -> u32 { ROM + self.0.len() as u32 }
    fn org(&mut self, at: u32) { assert!(at >= self.here()); self.0.resize((at - ROM) as usize, 0); }
    fn word(&mut self, x: u16) { self.0.extend(x.to_be_bytes()); }
    fn words(&mut self, x: &[u16]) { for w in x { self.word(*w); } }
    fn long(&mut self, x: u32) { self.0.extend(x.to_be_bytes()); }
    fn set_long(&mut self, at: usize, x: u32) { self.0[at..at + 4].copy_from_slice(&x.to_be_bytes()); }
    fn out_d7(&mut self) { self.word(0x13C7); self.long(UART); }
    fn out_d2(&mut self) { for _ in 0..4 { self.words(&[0xE19A, 0x13C2]); self.long(UART); } }
}

/// The memory of the board.
struct Map { ram: Vec<u8>, out: Vec<u8> }
impl Map {
    fn new(rom: &[u8]) -> Map {
        let mut ram = vec![0; TOP as usize];
        let n = rom.len().min((TOP - ROM) as usize);
        ram[ROM as usize..ROM as usize + n].copy_from_slice(&rom[..n]);
        Map { ram, out: Vec::new() }
    }
    fn read(&self, a: u32) -> Option<u8> {
        match a {
            a if a < TOP => Some(self.ram[a as usize]),
            0x8000_2013 => Some(0x0E),
            0x8000_2011..=0x8000_201B => Some(0),
            _ => None,
        }
    }
    fn write(&mut self, a: u32, v: u8) -> Option<()> {
        match a {
            a if a < TOP => self.ram[a as usize] = v,
            0x8000_2019 => self.out.push(v),
            0x8000_2011..=0x8000_2019 => (),
            _ => return None,
        }
        Some(())
    }
}

#[derive(Clone, Copy, Debug)]
struct Probe { kind: usize, addr: u32, value: u32 }
const KINDS: [&str; 6] = ["read byte", "read word", "read long", "write byte", "write word", "write long"];

/// A ROM that makes each access and prints whether it failed (0, vector 2 or 3) and the data register.
fn prober(probes: &[Probe]) -> Rom {
    let mut r = Rom::new(0x0030_0000, 0x0040_0400);
    r.word(0x21FC); let h2 = r.0.len(); r.long(0); r.word(0x0008); // MOVE.L #h2, ($8).W
    r.word(0x21FC); let h3 = r.0.len(); r.long(0); r.word(0x000C);
    r.word(0x47F9); let table = r.0.len(); r.long(0); // LEA table, A3
    r.word(0x41F9); let stubs = r.0.len(); r.long(0); // LEA stubs, A0
    r.word(0x4DF9); let back = r.0.len(); r.long(0); // LEA back, A6
    let top = r.here();
    r.word(0x301B); // MOVE.W (A3)+, D0
    r.word(0x6B00); let end = r.0.len(); r.word(0); // BMI end
    r.words(&[0x225B, 0x241B, 0x7E00, 0x4EF0, 0x0000]); // MOVEA.L (A3)+, A1; MOVE.L (A3)+, D2; MOVEQ #0, D7; JMP 0(A0, D0.W)
    let x = r.here(); r.set_long(stubs, x);
    for op in [0x1411, 0x3411, 0x2411, 0x1282, 0x3282, 0x2282] { r.words(&[op, 0x4ED6]); } // the access; JMP (A6)
    let x = r.here(); r.set_long(h2, x);
    r.words(&[0x4FF9, 0x0030, 0x0000, 0x7E02, 0x4ED6]); // LEA $300000, A7; MOVEQ #2, D7; JMP (A6)
    let x = r.here(); r.set_long(h3, x);
    r.words(&[0x4FF9, 0x0030, 0x0000, 0x7E03, 0x4ED6]);
    let x = r.here(); r.set_long(back, x);
    r.out_d7();
    r.out_d2();
    let x = top.wrapping_sub(r.here() + 2) as u16; r.words(&[0x6000, x]); // BRA top
    let x = (r.here() - ROM) as usize - end; r.0[end..end + 2].copy_from_slice(&(x as u16).to_be_bytes());
    r.words(&[0x4E72, 0x2700]); // STOP
    let x = r.here(); r.set_long(table, x);
    for p in probes { r.word(p.kind as u16 * 4); r.long(p.addr); r.long(p.value); }
    r.word(0xFFFF);
    r
}

/// What the prober prints, and which probe each character belongs to.
fn probed(rom: &[u8], probes: &[Probe]) -> (Vec<u8>, Vec<usize>) {
    let mut m = Map::new(rom);
    let long = |x: usize| u32::from_be_bytes(rom[x..x + 4].try_into().unwrap());
    for (i, a) in [(0x402, 8u32), (0x40A, 12)] { for k in 0..4 { m.write(a + k, (long(i) >> (24 - 8 * k)) as u8); } }
    let mut whose = Vec::new();
    for (i, p) in probes.iter().enumerate() {
        let n = [1, 2, 4][p.kind % 3];
        let mut d2 = p.value;
        let flag = if n > 1 && p.addr % 2 == 1 { 3 } else if p.kind < 3 {
            match (0..n).map(|k| m.read(p.addr.wrapping_add(k))).collect::<Option<Vec<u8>>>() {
                Some(v) => { for b in v { d2 = match n { 1 => d2 & !0xFF | b as u32, 2 => d2 & 0xFFFF_0000 | (d2 << 8 | b as u32) & 0xFFFF, _ => d2 << 8 | b as u32 }; } 0 }
                None => 2,
            }
        } else if (0..n).all(|k| m.write(p.addr.wrapping_add(k), (p.value >> (8 * (n - 1 - k))) as u8).is_some()) { 0 } else { 2 };
        m.out.push(flag);
        m.out.extend(d2.to_be_bytes());
        while whose.len() < m.out.len() { whose.push(i); }
    }
    (m.out, whose)
}

/// The accesses of the map space: every kind at every address of interest, writes before and after reads.
fn probes(set: u64, thorough: bool) -> Vec<Probe> {
    let mut a: Vec<u32> = Vec::new();
    match set {
        // The peripheral and what surrounds it.
        0 => a.extend(0x8000_2000..0x8000_2040),
        // The ends of the memory and of the address space.
        1 => for (x, n) in [(0u32, 8u32), (0x10, 24), (0x3F_FFF8, 8), (TOP - 16, 32), (0x7FFF_FFF8, 16), (0x8000_1FF8, 8), (0x8000_2040, 8), (0xFFFF_FFF0, 12)] { a.extend((0..n).map(|k| x + k)); },
        // Powers of two, and what becomes of the memory and of the peripheral when some bits of the address are left out.
        _ => for k in 5..32u32 { let b = 1u32 << k; for d in [-2i64, -1, 0, 1] { a.push((b as i64 + d) as u32); } for x in [0x8000_2012u32, 0x8000_2018, 0x40_0000, 0x10_0000] { a.push(x ^ b); a.push((x ^ b) | 1); } },
    }
    if thorough && set == 2 { for j in 5..32u32 { for k in 5..j { let b = 1u32 << k | 1 << j; a.push(b); a.push(b | 1); a.push(0x8000_2018 ^ b); } } }
    let busy = |x: u32, n: u32| (x..x + n).any(|y| (8..16).contains(&y) || (0x2F_FF00..0x30_0000).contains(&y) || (0x40_0400..0x4F_0000).contains(&y));
    let mut p = Vec::new();
    let mut v = 0x1357_9BDFu32;
    for x in a {
        for kind in [0, 1, 2, 3, 0, 4, 1, 5, 2] {
            let n = [1, 2, 4][kind % 3];
            if x.checked_add(n).is_none() || busy(x, n) { continue; }
            v = v.wrapping_mul(1_664_525).wrapping_add(1_013_904_223);
            p.push(Probe { kind, addr: x, value: v });
        }
    }
    p
}

fn c30(c: &Ctx) {
    c.assume("the program is built from /repo by cargo and run on ROMs in a scratch directory; the processor inside it is the subject of the other properties");
    c.assume("accesses that wrap around the end of the address space are not made");
    // What surrounds the map.
    let thorough = c.thorough();
    c.space("C30.map", 3, |i, w| {
        let p = probes(i, thorough);
        for x in &p { let mut h = H::new(); h.add(x.kind as u64); h.add(x.addr as u64); w.state(h.get()); }
        let r = prober(&p);
        let (want, whose) = probed(&r.0, &p);
        w.transitions(p.len() as u64);
        w.stat("accesses", p.len() as u64);
        w.sample(|| format!("{} accesses, {} characters expected", p.len(), want.len()));
        judge(w, &r.0, &want, "the memory map", &format!("map/{i}"), |k| format!("{} at {:#010X}, {:#010X}", KINDS[p[whose[k]].kind], p[whose[k]].addr, p[whose[k]].value));
    });
    // Where the ROM goes: the whole memory is printed, for files of different lengths.
    let lengths: &[usize] = if thorough { &[0, 1, 3, 0x1000, 0x7FFF, 0x1_0001, 0x8_0000, 0xF_FFFE, 0xF_FFFF, 0x10_0000, 0x10_0001, 0x10_0002, 0x20_0000] } else { &[1, 0xF_FFFF, 0x10_0000, 0x10_0003] };
    c.space("C30.image", lengths.len() as u64, |i, w| {
        let mut r = Rom::new(0x0030_0000, 0x0040_0420);
        // LEA 0, A0; LEA the output, A1; MOVE.L #the size, D1; loop: MOVE.B (A0)+, (A1); SUBQ.L #1, D1; BNE loop; STOP
        r.words(&[0x41F8, 0x0000, 0x43F9]); r.long(UART); r.word(0x223C); r.long(TOP); r.words(&[0x1298, 0x5381, 0x66FA, 0x4E72, 0x2700]);
        let mut x = 0x1234_5678u32;
        let len = lengths[i as usize].max(r.0.len() + lengths[i as usize].min(16));
        while r.0.len() < len { x ^= x << 13; x ^= x >> 17; x ^= x << 5; r.0.push(x as u8); }
        let want = Map::new(&r.0).ram;
        w.state(len as u64);
        w.transitions(want.len() as u64);
        judge(w, &r.0, &want, &format!("a ROM of {len} bytes"), &format!("image/{i}"), |k| format!("the byte at {k:#X}"));
    });
    // Every part of the memory, the ROM included, is written with bytes, words or long words, then the whole is printed.
    c.space("C30.fill", 3, |i, w| {
        let mut r = Rom::new(0x0030_0000, 0x0040_0420);
        let n = [1u32, 2, 4][i as usize];
        let parts = [(0x10u32, 0x2F_0000u32), (0x30_0100, ROM), (0x41_0000, TOP)];
        let (mut d3, step) = (0x89AB_CDEFu32, 0x9E37_79B1u32);
        r.word(0x263C); r.long(d3); r.word(0x283C); r.long(step); // MOVE.L #, D3; MOVE.L #, D4
        for (a, b) in parts {
            r.word(0x41F9); r.long(a); r.word(0x223C); r.long((b - a) / n); // LEA a, A0; MOVE.L #, D1
            r.words(&[0x2A03, 0xE19D, [0x10C5, 0x30C5, 0x20C5][i as usize], 0xD684, 0x5381, 0x66F4]); // loop: MOVE.L D3, D5; ROL.L #8, D5; MOVE D5, (A0)+; ADD.L D4, D3; SUBQ.L #1, D1; BNE loop
        }
        r.words(&[0x41F8, 0x0000, 0x43F9]); r.long(UART); r.word(0x223C); r.long(TOP); r.words(&[0x1298, 0x5381, 0x66FA, 0x4E72, 0x2700]);
        let mut m = Map::new(&r.0);
        for (a, b) in parts {
            for x in (a..b).step_by(n as usize) {
                let v = d3.rotate_left(8).to_be_bytes();
                for k in 0..n { m.write(x + k, v[(4 - n + k) as usize]); }
                d3 = d3.wrapping_add(step);
            }
            w.transitions(((b - a) / n) as u64);
        }
        w.state(i);
        judge(w, &r.0, &m.ram, &format!("the memory written {n} bytes at a time"), &format!("fill/{i}"), |k| format!("the byte at {k:#X}"));
    });
    // The reset vectors come from the ROM, each of their bits from its place, and the memory at 0 is not changed by it.
    let resets: Vec<(u32, u32)> = [(0x0012_3456u32, 0x0040_0008u32), (0xFEDC_BA98, 0x004A_5A5A)].into_iter().chain(if thorough { (1..32).map(|k| (1u32 << k, 0x0040_0008 | (1 << (k % 16 + 4)))).collect() } else { vec![] }).collect();
    c.space("C30.reset", resets.len() as u64, |i, w| {
        let (ssp, pc) = resets[i as usize];
        let mut r = Rom::new(ssp, pc);
        r.words(&[0x240F]); r.out_d2(); // MOVE.L A7, D2
        for a in [0u16, 4] { r.words(&[0x2438, a]); r.out_d2(); } // MOVE.L (a).W, D2
        r.words(&[0x40C2]); r.out_d2(); // MOVE SR, D2
        r.words(&[0x4E72, 0x2700]);
        let mut want = ssp.to_be_bytes().to_vec();
        want.extend([0; 8]);
        want.extend([0, 0, 0x27, 4]); // supervisor, all interrupts masked; Z from the long word at 4
        let mut h = H::new(); h.add(ssp as u64); h.add(pc as u64); w.state(h.get());
        w.transitions(4);
        judge(w, &r.0, &want, &format!("reset vectors {ssp:#X}, {pc:#X}"), &format!("reset/{i}"), |k| ["the stack pointer", "the long word at 0", "the long word at 4", "the status register"][k / 4].to_string());
    });
    // Exactly 1 000 000 000 instructions are executed: the billionth prints '!', the next would print '?'.
    c.space("C30.count", 1, |_, w| {
        let mut r = Rom::new(0x0030_0000, 0x0040_0400);
        r.word(0x41F9); r.long(UART); // LEA the output, A0
        r.words(&[0x343C, 15257]); // MOVE.W #, D2
        r.words(&[0x323C, 0xFFFF, 0x51C9, 0xFFFE, 0x10BC, b'.' as u16, 0x51CA, 0xFFF2]); // outer: MOVE.W #-1, D1; DBF D1, self; MOVE.B #'.', (A0); DBF D2, outer
        r.words(&[0x323C, 5933, 0x51C9, 0xFFFE]);
        r.words(&[0x10BC, b'!' as u16, 0x10BC, b'?' as u16, 0x4E72, 0x2700]);
        let mut want = vec![b'.'; 15258];
        want.push(b'!');
        w.state(1);
        w.transitions(1_000_000_000);
        judge(w, &r.0, &want, "the number of instructions", "count", |k| format!("{} of 15258 rounds", k.min(15258)));
    });
    // Without a ROM the program ends with an error and prints nothing.
    c.space("C30.no-rom", 2, |i, w| {
        w.trace();
        w.transition();
        w.state(i);
        let s = Scratch::new(&format!("none{i}"));
        if i == 1 { std::fs::create_dir(s.0.join("cpudiag40.rom")).unwrap_or_else(|e| engine::die(&format!("no directory: {e}"))); }
        let (status, out) = board(w, &s);
        if status != Some(false) || !out.is_empty() { w.fail("C30:no-rom", || format!("{}: status {status:?}, {} bytes of output", ["no ROM file", "a directory in place of the ROM"][i as usize], out.len())); }
    });
}

fn main() { engine::main(&[("C30", c30)]); }
