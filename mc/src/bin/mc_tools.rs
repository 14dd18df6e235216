//! C23: the command-line programs of the crate. `disassemble` on every small file over an alphabet of words with every
//! range, and on one file that holds all the opcodes; the table generator on all the opcodes.

use mc::decode::*;
use mc::engine::{self, guard, Ctx, H, W};
use m68000::decoder::DECODER;
use m68000::instruction::Instruction;
use m68000::memory_access::MemoryAccess;
use std::path::{Path, PathBuf};
use std::process::{Command, Output, Stdio};

/// A scratch directory of its own, removed at the end.
struct Scratch(PathBuf);
impl Scratch {
    fn new(tag: &str) -> Scratch {
        let p = std::env::temp_dir().join(format!("mc_tools.{}.{tag}", std::process::id()));
        let _ = std::fs::remove_dir_all(&p);
        std::fs::create_dir_all(&p).unwrap_or_else(|e| engine::die(&format!("no scratch directory: {e}")));
        Scratch(p)
    }
}
impl Drop for Scratch { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }

fn tool(name: &str) -> PathBuf {
    let d = std::env::var("VERIF_TOOLS").unwrap_or_else(|_| engine::die("VERIF_TOOLS is not set"));
    Path::new(&d).join(name)
}

fn run(name: &str, dir: &Path, args: &[String]) -> Output {
    Command::new(tool(name)).args(args).env("RUST_BACKTRACE", "0").current_dir(dir).stdin(Stdio::null()).stderr(Stdio::null()).output()
        .unwrap_or_else(|e| engine::die(&format!("{name} cannot be run: {e}")))
}

/// The lines the listing must have, and whether the file ends inside an instruction of the range.
fn listing(data: &[u8], beg: u32, end: u32) -> (Vec<String>, bool) {
    let end = end.min(data.len() as u32);
    let mut lines = Vec::new();
    let mut at = beg;
    while at < end {
        let word = |a: u32| if (a as usize) + 1 < data.len() { Ok((data[a as usize] as u16) << 8 | data[a as usize + 1] as u16) } else { Err(()) };
        let Ok(op) = word(at) else { return (lines, true) };
        let Ok(ins) = finish::<()>(op, classify(op), at, &mut |a| word(a)) else { return (lines, true) };
        let mut d = data;
        let text = guard(|| Instruction::from_memory(&mut d.iter_u16(at)).map(|i| i.disassemble()));
        lines.push(format!("{at:#X} {}", match text { Ok(Ok(t)) => t, e => format!("<the library says {e:?}>") }));
        at = ins.next;
    }
    (lines, false)
}

#[allow(clippy::too_many_arguments)]
fn judge(w: &mut W, dir: &Path, data: &[u8], beg: Option<u32>, end: Option<u32>, out: u8) {
    w.transition();
    w.trace();
    let mut args = vec!["in.bin".to_string()];
    let b = beg.map(|b| ["-b".to_string(), b.to_string()]);
    let e = end.map(|e| ["-e".to_string(), e.to_string()]);
    // 1: into a new file; 3: into one that exists already and is longer than the listing.
    let over = out == 3;
    let out = if over { 1 } else { out };
    let o = match out { 1 => Some(["-o".to_string(), "out.txt".to_string()]), 2 => Some(["-o".to_string(), "none/out.txt".to_string()]), _ => None };
    // The order of the options does not matter.
    if out == 1 { args.extend(o.clone().into_iter().flatten()); }
    if data.len() & 2 != 0 { args.extend(e.into_iter().flatten()); args.extend(b.into_iter().flatten()); } else { args.extend(b.into_iter().flatten()); args.extend(e.into_iter().flatten()); }
    if out == 2 { args.extend(o.into_iter().flatten()); }
    let mut h = H::new();
    for x in data { h.add(*x as u64); }
    for x in args.join(" ").bytes() { h.add(x as u64); }
    w.state(h.get());
    let file = dir.join("out.txt");
    if out == 1 { let _ = std::fs::remove_file(&file); }
    if over { std::fs::write(&file, "0x0 NOP\n".repeat(100 + data.len() * 8)).unwrap(); }
    let r = run("disassemble", dir, &args);
    let got = if out == 1 {
        if !r.stdout.is_empty() { w.fail("C23:disassemble:stdout", || format!("disassemble {} also prints to the standard output", args.join(" "))); }
        String::from_utf8_lossy(&std::fs::read(&file).unwrap_or_default()).into_owned()
    } else { String::from_utf8_lossy(&r.stdout).into_owned() };
    let (want, cut) = listing(data, beg.unwrap_or(0), end.unwrap_or(u32::MAX));
    let lines: Vec<&str> = got.lines().collect();
    for l in &want { let mut h = H::new(); for b in l.bytes() { h.add(b as u64); } w.outcome(h.get()); }
    let show = |d: &[u8]| if d.len() > 16 { format!("{} bytes", d.len()) } else { format!("{d:02X?}") };
    if let Some(k) = (0..lines.len().max(want.len())).find(|k| lines.get(*k).copied() != want.get(*k).map(|s| s.as_str())) {
        w.fail("C23:disassemble:lines", || format!("file {}: disassemble {} line {k} is {:?}, expected {:?}", show(data), args.join(" "), lines.get(k), want.get(k)));
    } else if r.status.success() == cut {
        w.fail("C23:disassemble:status", || format!("file {}: disassemble {} ends with {} although the file {} inside an instruction", show(data), args.join(" "), r.status, if cut { "ends" } else { "does not end" }));
    }
    w.stat(if cut { "listings of files cut short" } else { "complete listings" }, 1);
}

fn c23(c: &Ctx) {
    c.assume("the programs are built from /repo by cargo and run in a scratch directory; the text of each instruction is the library's (C13), where it starts comes from the model's decoder");
    c.assume("an instruction cut short by the end of the file ends the program with an error status after the lines before it; odd beginning positions are not explored");
    const WORDS: [u16; 12] = [0x4E71, 0x0000, 0x23F9, 0x6000, 0x6002, 0x4EF9, 0xFFFF, 0x48F9, 0x7001, 0x203C, 0x33FC, 0xA000];
    let n = WORDS.len() as u64;
    let files: Vec<Vec<u16>> = (0..=c.by(3u32, 4)).flat_map(|len| (0..n.pow(len)).map(move |mut i| (0..len).map(|_| { let x = WORDS[(i % n) as usize]; i /= n; x }).collect())).collect();
    let fr = &files;
    c.space("C23.small-files", files.len() as u64, |i, w| {
        let s = Scratch::new(&format!("f{i}"));
        for odd in [false, true] {
            let mut data: Vec<u8> = fr[i as usize].iter().flat_map(|x| x.to_be_bytes()).collect();
            if odd { data.push(0x4E); }
            std::fs::write(s.0.join("in.bin"), &data).unwrap();
            let len = data.len() as u32;
            let few = len > 5;
            for beg in [None, Some(0), Some(2), Some(4), Some(6)] {
                if few && matches!(beg, Some(0) | Some(6)) || beg.is_some_and(|b| b > len + 3) { continue; }
                for end in std::iter::once(None).chain((0..=len + 2).map(Some)) {
                    if few && end.is_some_and(|e| e % 2 == 1 && e != len || e == 0) { continue; }
                    judge(w, &s.0, &data, beg, end, 0);
                }
            }
            judge(w, &s.0, &data, None, None, 1);
            if i % 7 == 0 || len < 5 { judge(w, &s.0, &data, None, None, 3); }
            if i < 200 { judge(w, &s.0, &data, Some(2), Some(6), 1); judge(w, &s.0, &data, None, None, 2); }
        }
        if i % 500 == 1 { w.sample(|| format!("file of words {:04X?}: every range listed", fr[i as usize])); }
    });
    // Every opcode, each followed by words that make its extension words visible, in one file; and ranges of it.
    let mut data = Vec::new();
    for op in 0..=65535u16 {
        data.extend(op.to_be_bytes());
        for k in 0..ext_words(&classify(op)) as u16 { data.extend((op.wrapping_mul(0x9E37) ^ k.wrapping_mul(0x1235) ^ 0x0123).to_be_bytes()); }
    }
    let dr = &data;
    c.space("C23.all-opcodes", 64, |i, w| {
        let s = Scratch::new(&format!("a{i}"));
        std::fs::write(s.0.join("in.bin"), dr).unwrap();
        let part = dr.len() as u32 / 63 & !1;
        if i == 0 { judge(w, &s.0, dr, None, None, 1); } else { judge(w, &s.0, dr, Some((i as u32 - 1) * part), Some(i as u32 * part + 3), [0, 1, 0, 3][i as usize & 3]); }
    });
    // The generator.
    c.space("C23.generator", 1, |_, w| {
        let s = Scratch::new("g");
        let r = run("decoder", &s.0, &[]);
        let t = std::fs::read_to_string(s.0.join("decoder.rs")).unwrap_or_default();
        if !r.status.success() { w.fail("C23:generator:status", || format!("decoder ends with {}", r.status)); }
        let body = t.split_once("DECODER: [Isa; 65536] = [").map_or("", |x| x.1);
        let body = body.split_once(']').map_or("", |x| x.0);
        let names: Vec<&str> = body.split(',').map(|x| x.trim()).filter(|x| !x.is_empty()).collect();
        if names.len() != 65536 { w.fail("C23:generator:length", || format!("the generated table has {} entries", names.len())); }
        for (op, (n, d)) in names.iter().zip(DECODER.iter()).enumerate() {
            w.transition();
            w.trace();
            w.state(op as u64 | 1 << 40);
            let d = format!("{d:?}");
            if *n != d { w.fail(format!("C23:generator:{n}:{d}"), || format!("opcode {op:04X} is generated as {n}, the library's table has {d}")); }
        }
        // What the generator writes is a table: nothing after it but the end.
        w.stat("generated entries compared", names.len() as u64);
    });
}

fn main() { engine::main(&[("C23", c23)]); }
