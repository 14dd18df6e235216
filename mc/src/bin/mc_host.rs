//! C28: no undefined behaviour, no leak, the same results on every host. A program of its own (mc-host) performs steps and
//! histories of calls of the C interface; it runs natively, with an allocator that checks what is given back, and under
//! Miri, which interprets it for a host of another word size and byte order and stops at any undefined behaviour.

use mc::decode::classify;
use mc::engine::{self, Ctx, H, W};
use std::collections::BTreeMap;
use std::process::{Command, Stdio};

const BIG32: &str = "powerpc-unknown-linux-gnu";

fn env(n: &str) -> String { std::env::var(n).unwrap_or_else(|_| engine::die(&format!("{n} is not set"))) }

struct Run { lines: Vec<String>, last: String, bad: Vec<String>, end: Option<String>, error: String }

/// Runs the program natively (no target) or under Miri.
fn run(target: Option<&str>, validate: bool, args: &[String]) -> Run {
    let mut c = match target {
        None => Command::new(env("VERIF_HOST")),
        Some(t) => {
            let mut c = Command::new("cargo");
            c.args(["+nightly", "miri", "run", "--offline", "--quiet", "--manifest-path", &env("VERIF_HOST_MANIFEST"), "--target", t, "--"]);
            let mut flags = "-Zmiri-disable-stacked-borrows".to_string();
            if !validate { flags.push_str(" -Zmiri-disable-validation"); }
            c.env("MIRIFLAGS", flags).env("XDG_CACHE_HOME", env("VERIF_MIRI")).env("CARGO_TARGET_DIR", format!("{}/build", env("VERIF_MIRI"))).env_remove("RUSTUP_TOOLCHAIN");
            c
        }
    };
    let out = c.args(args).env("RUST_BACKTRACE", "0").stdin(Stdio::null()).output().unwrap_or_else(|e| engine::die(&format!("the program cannot be run: {e}")));
    let (text, err) = (String::from_utf8_lossy(&out.stdout), String::from_utf8_lossy(&out.stderr));
    let mut r = Run { lines: Vec::new(), last: String::new(), bad: Vec::new(), end: None, error: String::new() };
    for l in text.lines() {
        if let Some(q) = l.strip_prefix("? ") { r.last = q.to_string(); }
        else if let Some(q) = l.strip_prefix("BAD ") { r.bad.push(q.to_string()); }
        else { r.lines.push(l.to_string()); }
    }
    if !out.status.success() { r.end = Some(out.status.to_string()); }
    r.error = err.lines().find(|l| l.starts_with("error") && !l.contains("aborting")).unwrap_or("").to_string();
    r
}

fn judge(w: &mut W, tag: &str, target: Option<&str>, validate: bool, args: &[String]) {
    let host = target.unwrap_or("native");
    let a = run(None, validate, args);
    let cmd = args.join(" ");
    let at = |r: &Run| if r.last.is_empty() { cmd.clone() } else { r.last.clone() };
    for b in &a.bad {
        let what = b.split_once(": ").map_or(b.as_str(), |x| x.1);
        let what: String = what.chars().filter(|c| !c.is_ascii_digit()).collect();
        w.fail(format!("C28:{tag}:native:{}", what.trim()), || b.clone());
    }
    if let Some(e) = &a.end { w.fail(format!("C28:{tag}:native:dies"), || format!("the process ends with {e} during {}", at(&a))); return; }
    let Some(t) = target else {
        for l in &a.lines { let mut h = H::new(); for b in l.bytes() { h.add(b as u64); } w.outcome(h.get()); w.state(h.get()); }
        return;
    };
    let b = run(Some(t), validate, args);
    if let Some(e) = &b.end {
        if b.error.contains("unsupported operation") { w.stat("chunks with something Miri does not support", 1); return; }
        if b.last.is_empty() || b.error.contains("could not compile") { engine::die(&format!("Miri for {t} ends with {e}: {}", b.error)); }
        let kind = if b.error.contains("leaked") { "leak" } else if b.error.contains("Undefined Behavior") { "undefined-behaviour" } else { "stops" };
        w.fail(format!("C28:{tag}:{host}:{kind}"), || format!("{e} {} during or before {}", b.error, at(&b)));
        return;
    }
    let mut diff = BTreeMap::new();
    for (x, y) in a.lines.iter().zip(&b.lines) {
        w.transition();
        w.trace();
        let mut h = H::new();
        for c in x.bytes() { h.add(c as u64); }
        w.state(h.get());
        w.outcome(h.get());
        if x != y { diff.entry(x.clone()).or_insert(y.clone()); }
    }
    if a.lines.len() != b.lines.len() { w.fail(format!("C28:{tag}:{host}:lines"), || format!("{cmd} prints {} lines natively and {} there", a.lines.len(), b.lines.len())); }
    for (x, y) in &diff {
        let item = x.split(' ').next().unwrap_or("");
        if item != "sum" { w.fail(format!("C28:{tag}:{host}:{item}"), || format!("natively {x}, on {t} {y}")); }
    }
    w.sample(|| format!("{host}: {cmd}"));
}

/// Opcodes such that every instruction with every size, every addressing mode and both directions appears, and the most
/// of them that the tier affords.
fn opcodes(per_class: usize) -> Vec<u16> {
    let mut seen: BTreeMap<String, usize> = BTreeMap::new();
    let mut v = Vec::new();
    let mode = |e: u8| match e { 0xFF => 255, e if e >> 3 == 7 => e, e => e >> 3 };
    // Far apart first.
    for i in 0..65536u32 {
        let op = (i.wrapping_mul(40503) & 0xFFFF) as u16;
        let f = classify(op);
        let key = format!("{:?} {} {} {} {} {}", f.mn, f.sz, f.dir, f.ir, mode(f.ea), mode(f.ea2));
        let n = seen.entry(key).or_insert(0);
        if *n < per_class { *n += 1; v.push(op); }
    }
    v.sort();
    v
}

fn c28(c: &Ctx) {
    c.assume("Miri's semantics stand for the machine's; its experimental aliasing model (Stacked Borrows) is switched off.");
    c.assume("The C program is played by Rust code that calls the exported functions through C function pointers.");
    let s = |x: &[String]| x.to_vec();
    let calls = |k: &str, d: u32, part: u64, parts: u64| vec!["calls".to_string(), k.to_string(), d.to_string(), part.to_string(), parts.to_string()];
    // Natively, deep.
    let (d, parts) = (c.by(3, 4), 64);
    c.space("C28.calls.native", parts, |i, w| {
        let a = calls("quiet", d, i, parts);
        let n = (40u64.pow(d) * 4 - i).div_ceil(parts);
        w.transitions(n * d as u64);
        judge(w, "calls", None, true, &a);
    });
    // Under Miri.
    let hosts: &[&str] = if c.thorough() { &[BIG32, "x86_64-unknown-linux-gnu"] } else { &[BIG32] };
    for t in hosts {
        let parts = 16;
        c.space(&format!("C28.calls.{t}"), parts, |i, w| judge(w, "calls", Some(t), true, &calls("all", 1, i, parts)));
        let parts = c.by(64, 256);
        if c.thorough() { c.space(&format!("C28.pairs-of-calls.{t}"), parts, |i, w| judge(w, "calls", Some(t), true, &calls("all", 2, i, parts))); }
        else { c.space(&format!("C28.pairs-of-calls.{t}"), parts, |i, w| judge(w, "calls", Some(t), true, &calls("some", 2, i, parts))); }
    }
    let ops = opcodes(c.by(1, 3));
    println!("  {} opcodes", ops.len());
    let size = 24;
    let chunks: Vec<Vec<u16>> = ops.chunks(size).map(|x| x.to_vec()).collect();
    for t in &hosts[..1] {
        c.space(&format!("C28.steps.{t}"), chunks.len() as u64, |i, w| {
            let l: Vec<String> = chunks[i as usize].iter().map(|o| format!("{o:04X}")).collect();
            judge(w, "steps", Some(t), false, &s(&["steps".into(), l.join(",")]));
        });
    }
}

fn main() { engine::main(&[("C28", c28)]) }
