//! C27: the build configuration does not change behaviour. The explorations of the other checks are run again as built in
//! other configurations of the same sources: item by item, what the implementation did must be what it did as built for
//! those checks, and it must break the same properties in the same way (normally: none).

use mc::engine::{self, Ctx};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Scratch {
        let p = std::env::temp_dir().join(format!("mc_conf.{}", std::process::id()));
        let _ = std::fs::remove_dir_all(&p);
        std::fs::create_dir_all(&p).unwrap_or_else(|e| engine::die(&format!("no scratch directory: {e}")));
        Scratch(p)
    }
}
impl Drop for Scratch { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }

/// Checker, property, filter of the spaces.
type Run = (&'static str, &'static str, &'static str);

const QUICK: &[Run] = &[
    ("mc_text", "C01", "opcodes"), ("mc_text", "C01", "streams"), ("mc_text", "C01", "fetch"), ("mc_text", "C01", "addressing-modes"), ("mc_exec", "C02", "opcodes"),
    ("mc_exec", "C02", "word-grid"), ("mc_exec", "C03", "opcodes"), ("mc_exec", "C03", "conditions"), ("mc_exec", "C03", "shift-counts"), ("mc_exec", "C04", "opcodes"),
    ("mc_exec", "C04", "extension-words"), ("mc_exec", "C04", "aliasing"), ("mc_exec", "C05", ""), ("mc_steps", "C07", "exception-processing"), ("mc_hist", "C09", "pairs"),
    ("mc_hist", "C10", ""), ("mc_hist", "C11", "stop"), ("mc_asm", "C12", ""), ("mc_api", "C15", "histories"), ("mc_api", "C15", "accessors"), ("mc_api", "C18", ""),
    ("mc_api", "C24", "C24:verify"), ("mc_api", "C24", "brief"), ("mc_api", "C24", "sizes"), ("mc_api", "C24", "exception-order"), ("mc_text", "C13", "C13:opcodes"),
    ("mc_steps", "C20", "opcodes"), ("mc_hist", "C22", "requested"), ("mc_hist", "C22", "entry-points"), ("mc_steps", "C08", "faults"), ("mc_steps", "C08", "pending"), ("mc_hist", "C17", "programs"),
    ("mc_hist", "C19", "C19.host-histories.MC68000"), ("mc_cpu", "C29", "exceptions"), ("mc_cpu", "C29", "histories"),
];

/// The C interface, which has the feature in all configurations.
const FFI: &[Run] = &[
    ("mc_ffi", "C14", "refused"), ("mc_ffi", "C14", "run-"), ("mc_ffi", "C14", "request"), ("mc_ffi", "C14", "fetch"), ("mc_ffi", "C14", "codes"), ("mc_ffi", "C14", "buffers-"),
    ("mc_ffi", "C14", "life"),
];
const FFI_THOROUGH: &[Run] = &[("mc_ffi", "C14", "")];

const THOROUGH: &[Run] = &[
    ("mc_text", "C01", ""), ("mc_exec", "C02", ""), ("mc_exec", "C03", ""), ("mc_exec", "C04", ""), ("mc_exec", "C05", ""), ("mc_steps", "C06", ""), ("mc_steps", "C07", ""),
    ("mc_steps", "C08", ""), ("mc_hist", "C09", ""), ("mc_hist", "C10", ""), ("mc_hist", "C11", ""), ("mc_asm", "C12", ""), ("mc_api", "C15", ""), ("mc_api", "C18", ""),
    ("mc_hist", "C17", ""), ("mc_steps", "C20", ""), ("mc_steps", "C21", ""), ("mc_hist", "C22", ""), ("mc_api", "C24", ""), ("mc_cpu", "C29", ""),
];

/// Name, directory of the programs, what they run. The first is what the other checks use.
fn configurations(c: &Ctx) -> Vec<(&'static str, PathBuf, &'static [Run])> {
    let d = PathBuf::from(std::env::var("VERIF_CONF").unwrap_or_else(|_| engine::die("VERIF_CONF is not set")));
    let base = d.join("../release");
    if !c.thorough() { return vec![("checked", base, QUICK), ("release+ffi", d.join("plain-ffi/plain"), QUICK), ("release+c", d.join("plain-c/plain"), FFI)]; }
    vec![("checked", base, QUICK), ("release", d.join("plain/plain"), QUICK), ("release-size", d.join("size/size"), QUICK), ("opt-level-1+ffi", d.join("slow-ffi/slow"), QUICK),
        ("release+ffi", d.join("plain-ffi/plain"), THOROUGH), ("release-lto", d.join("whole/whole"), QUICK), ("release+c", d.join("plain-c/plain"), FFI_THOROUGH)]
}

#[derive(Default, PartialEq)]
struct Done {
    /// Why it did not end as it should.
    broken: Option<String>,
    /// The digest of every item of every space.
    items: BTreeMap<String, Vec<u64>>,
    keys: BTreeSet<String>,
    transitions: u64,
    secs: f64,
}

fn run(dir: &Path, r: Run, scratch: &Path) -> Done {
    let file = scratch.join("digests");
    let _ = std::fs::remove_file(&file);
    let t = std::time::Instant::now();
    let mut cmd = Command::new(dir.join(r.0));
    cmd.args(["run", r.1, "quick"]);
    if !r.2.is_empty() { cmd.arg(r.2); }
    let out = cmd.env("VERIF_ROOT", scratch).env("MC_DIGEST", &file).env("RUST_BACKTRACE", "0").current_dir(scratch).stdin(Stdio::null()).output()
        .unwrap_or_else(|e| engine::die(&format!("{} cannot be run: {e}", dir.join(r.0).display())));
    let text = String::from_utf8_lossy(&out.stdout);
    let mut d = Done { secs: t.elapsed().as_secs_f64(), ..Done::default() };
    for l in text.lines() {
        if let Some(k) = l.strip_prefix("KEY ") { d.keys.insert(k.to_string()); }
        if let Some(k) = l.strip_prefix("  space ") {
            let n: Option<u64> = k.split(" items, ").nth(1).and_then(|s| s.split(' ').next()).and_then(|s| s.parse().ok());
            d.transitions += n.unwrap_or(0);
        }
    }
    let Ok(b) = std::fs::read(&file) else {
        let last = text.lines().last().unwrap_or("").to_string();
        d.broken = Some(format!("ends with {}: {last}", out.status));
        return d;
    };
    let (words, mut at) = (|at: usize| u64::from_le_bytes(b[at..at + 8].try_into().unwrap()), 0);
    while at < b.len() {
        let n = words(at) as usize;
        let name = String::from_utf8_lossy(&b[at + 8..at + 8 + n]).into_owned();
        at += 8 + n;
        let k = words(at) as usize;
        at += 8;
        d.items.insert(name, (0..k).map(|i| words(at + 8 * i)).collect());
        at += 8 * k;
    }
    if d.items.is_empty() { engine::die(&format!("{} {} {} explores nothing", r.0, r.1, r.2)); }
    d
}

fn c27(c: &Ctx) {
    c.assume("Compiler, target and the exploration code are the same for all the configurations; the digests are 64-bit hashes.");
    let confs = configurations(c);
    let scratch = Scratch::new();
    // One after the other: each of them uses all the processors.
    let mut bases: BTreeMap<Run, Done> = BTreeMap::new();
    for (name, dir, runs) in &confs[1..] {
        for r in runs.iter() { bases.entry(*r).or_insert_with(|| run(&confs[0].1, *r, &scratch.0)); }
        let other: Vec<Done> = runs.iter().map(|r| run(dir, *r, &scratch.0)).collect();
        println!("  {name}: {:.1}s", other.iter().map(|d| d.secs).sum::<f64>());
        c.space(&format!("C27.{name}"), runs.len() as u64, |i, w| {
            let (r, a, b) = (runs[i as usize], &bases[&runs[i as usize]], &other[i as usize]);
            w.transitions(b.transitions);
            w.trace();
            let what = format!("{} {}", r.1, r.2);
            let what = what.trim();
            w.sample(|| format!("{what}: {} items of {} spaces, {} steps", b.items.values().map(|v| v.len()).sum::<usize>(), b.items.len(), b.transitions));
            for v in b.items.values() { for d in v { w.outcome(*d); w.state(*d); } w.stat("items compared", v.len() as u64); }
            if a.broken != b.broken {
                w.fail(format!("C27:{name}:{what}:does-not-end"), || format!("as built for {name} the exploration {}; as built for the other checks it {}",
                    b.broken.as_deref().unwrap_or("completes"), a.broken.as_deref().unwrap_or("completes")));
                return;
            }
            for k in b.keys.symmetric_difference(&a.keys) {
                w.fail(format!("C27:{name}:{k}"), || format!("{what}: {k} is reported only {}", if b.keys.contains(k) { format!("as built for {name}") } else { format!("as built for the other checks, not for {name}") }));
            }
            for (s, v) in &b.items {
                let Some(u) = a.items.get(s) else { engine::die(&format!("{name} explores {s}, the other checks do not")) };
                let differ = v.iter().zip(u).filter(|(x, y)| x != y).count();
                if differ > 0 {
                    let k = v.iter().zip(u).position(|(x, y)| x != y).unwrap();
                    w.fail(format!("C27:{name}:{s}"), || format!("{differ} of the {} items of {s} behave differently as built for {name}, the first is item {k}", v.len()));
                }
            }
        });
    }
}

fn main() { engine::main(&[("C27", c27)]) }
