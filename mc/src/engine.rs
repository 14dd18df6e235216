//! Exhaustive exploration driver: named finite spaces whose items are enumerated completely and in parallel, coverage
//! accounting, violation artefacts that replay one item of one space, and the known-findings list.

use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Tier { Quick, Thorough }

struct Bitmap(Vec<AtomicU64>);

const BITS: u32 = 27;

impl Bitmap {
    fn new() -> Bitmap { Bitmap((0..1 << (BITS - 6)).map(|_| AtomicU64::new(0)).collect()) }
    fn set(&self, h: u64) {
        let h = (h ^ h >> 29).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        let i = ((h ^ h >> 32).wrapping_mul(0x94D0_49BB_1331_11EB) >> (64 - BITS)) as usize;
        let w = &self.0[i >> 6];
        let bit = 1u64 << (i & 63);
        if w.load(Relaxed) & bit == 0 { w.fetch_or(bit, Relaxed); }
    }
    fn count(&self) -> u64 { self.0.iter().map(|w| w.load(Relaxed).count_ones() as u64).sum() }
}

/// 64-bit mix hash.
#[derive(Clone, Copy)]
pub struct H(pub u64);
impl H {
    pub fn new() -> H { H(0x1234_5678_9ABC_DEF1) }
    #[inline]
    pub fn add(&mut self, v: u64) {
        let x = (self.0 ^ v).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        self.0 = x ^ (x >> 29);
    }
    pub fn get(self) -> u64 { let x = self.0.wrapping_mul(0xBF58_476D_1CE4_E5B9); (x ^ (x >> 31)).wrapping_mul(0x94D0_49BB_1331_11EB) }
}

#[derive(Clone, Debug)]
struct Violation { space: String, item: u64, key: String, msg: String, count: u64 }

pub struct Ctx {
    pub id: String,
    pub tier: Tier,
    pub seed: u64,
    threads: usize,
    replay: Option<(String, u64)>,
    states: Bitmap,
    outcomes: Bitmap,
    transitions: AtomicU64,
    traces: AtomicU64,
    viol: Mutex<BTreeMap<String, Violation>>,
    samples: Mutex<Vec<String>>,
    spaces: Mutex<Vec<(String, u64, u64, f64)>>,
    stats: Mutex<BTreeMap<String, u64>>,
    assumptions: Mutex<Vec<String>>,
    start: Instant,
    root: String,
    only: Option<String>,
    /// Where the digests of what the implementation did go, one 64-bit word per item (MC_DIGEST).
    digest: Option<String>,
    digests: Mutex<Vec<(String, Vec<AtomicU64>)>>,
}

pub struct W<'a> {
    ctx: &'a Ctx,
    slot: usize,
    space: &'a str,
    pub item: u64,
    transitions: u64,
    traces: u64,
    stats: BTreeMap<&'static str, u64>,
    verbose: bool,
    digesting: bool,
    digest: u64,
}

impl W<'_> {
    #[inline]
    pub fn transition(&mut self) { self.transitions += 1; }
    #[inline]
    pub fn transitions(&mut self, n: u64) { self.transitions += n; }
    /// A complete model trace replayed against the implementation.
    #[inline]
    pub fn trace(&mut self) { self.traces += 1; }
    /// Adds to the digest of the current item what the implementation did.
    #[inline]
    pub fn digest(&mut self, f: impl FnOnce() -> u64) {
        if self.digesting {
            let mut h = H(self.digest);
            h.add(f());
            self.digest = h.0;
        }
    }
    #[inline]
    pub fn state(&mut self, h: u64) { self.ctx.states.set(h); }
    #[inline]
    pub fn outcome(&mut self, h: u64) { self.ctx.outcomes.set(h); }
    /// An item that takes long on purpose is not stuck.
    pub fn alive(&self) { SINCE[self.slot].store(NOW.load(Relaxed), Relaxed); }
    pub fn stat(&mut self, k: &'static str, n: u64) { *self.stats.entry(k).or_insert(0) += n; }
    pub fn tier(&self) -> Tier { self.ctx.tier }
    pub fn seed(&self) -> u64 { self.ctx.seed }
    pub fn sample(&self, f: impl FnOnce() -> String) {
        let mut s = self.ctx.samples.lock().unwrap();
        if s.len() < 12 { let t = f(); s.push(format!("{}[{}]: {}", self.space, self.item, t)); }
    }
    /// Reports a violation. `key` identifies what fails (not where it was met).
    pub fn fail(&mut self, key: impl Into<String>, msg: impl FnOnce() -> String) {
        let key = key.into();
        let mut v = self.ctx.viol.lock().unwrap();
        if let Some(e) = v.get_mut(&key) {
            e.count += 1;
            // Keep the smallest item so that the report does not depend on thread timing.
            if (e.space.as_str(), e.item) > (self.space, self.item) && e.space == self.space {
                e.item = self.item;
                e.msg = msg();
            }
            if self.verbose && e.count < 20 { println!("  again: {}", e.key); }
            return;
        }
        let m = msg();
        if self.verbose { println!("  {key}: {m}"); }
        v.insert(key.clone(), Violation { space: self.space.to_string(), item: self.item, key, msg: m, count: 1 });
    }
}

/// Text of a panic payload.
pub fn panic_text(p: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() { s.to_string() } else if let Some(s) = p.downcast_ref::<String>() { s.clone() } else { "?".into() }
}

/// Runs `f`, turning a panic into its message.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(panic_text)
}

/// Coarse clock in tenths of a second and, per worker, when it took its current item (0: idle) and which one.
static NOW: AtomicU64 = AtomicU64::new(1);
static SINCE: [AtomicU64; 64] = [const { AtomicU64::new(0) }; 64];
static ITEM: [AtomicU64; 64] = [const { AtomicU64::new(0) }; 64];
static SPACE: Mutex<String> = Mutex::new(String::new());
/// An item that takes this long does not terminate (they take milliseconds).
const HANG_TENTHS: u64 = 1500;

thread_local! {
    static SLOT: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
    static NO_UNWIND: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
/// The property, tier and artefact root, for reports made while the process dies.
static SELF: Mutex<(String, &'static str, String)> = Mutex::new((String::new(), "", String::new()));

/// Runs code under test that cannot be unwound (a panic in it ends the process): a panic or a fatal signal in it is
/// reported as a violation of the current item.
pub fn no_unwind<T>(f: impl FnOnce() -> T) -> T {
    NO_UNWIND.with(|n| n.set(true));
    let r = f();
    NO_UNWIND.with(|n| n.set(false));
    r
}

/// Reports the current item of this thread and ends the check.
pub fn die(what: &str) -> ! {
    let (id, tier, root) = SELF.lock().map(|s| s.clone()).unwrap_or_default();
    let space = SPACE.lock().map(|s| s.clone()).unwrap_or_default();
    let item = ITEM[SLOT.with(|s| s.get())].load(Relaxed);
    let dir = format!("{root}/evidence/replay");
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{id}-dies.json");
    let _ = std::fs::write(&path, format!("{{\n \"property\": \"{id}\",\n \"tier\": \"{tier}\",\n \"space\": \"{space}\",\n \"item\": {item},\n \"key\": \"{space}:dies\"\n}}\n"));
    println!("VIOLATION property={id} replay={path}");
    println!("    {space}:dies: item {item}: {what}");
    unsafe { _exit(1) }
}

extern "C" {
    fn _exit(code: i32) -> !;
    fn sigaction(sig: i32, act: *const SigAction, old: *mut SigAction) -> i32;
}
#[repr(C)]
struct SigAction { handler: usize, mask: [u64; 16], flags: i32, restorer: usize }

extern "C" fn on_signal(sig: i32) { die(&format!("the code under test died with signal {sig}")) }

/// Turns fatal signals into violations of the current item.
fn catch_signals() {
    for sig in [4, 6, 7, 8, 11] {
        let a = SigAction { handler: on_signal as *const () as usize, mask: [0; 16], flags: 0x0800_0000 | 0x8000_0000u32 as i32, restorer: 0 };
        unsafe { sigaction(sig, &a, std::ptr::null_mut()); }
    }
}

/// Ends the check with a violation when an item does not terminate: code under test that loops forever cannot be
/// unwound.
fn watchdog(id: String, tier: &'static str, root: String) {
    loop {
        std::thread::sleep(std::time::Duration::from_millis(100));
        let now = NOW.fetch_add(1, Relaxed) + 1;
        for k in 0..64 {
            let t = SINCE[k].load(Relaxed);
            if t != 0 && now - t > HANG_TENTHS {
                let (space, item) = (SPACE.lock().unwrap().clone(), ITEM[k].load(Relaxed));
                let dir = format!("{root}/evidence/replay");
                let _ = std::fs::create_dir_all(&dir);
                let path = format!("{dir}/{id}-hang.json");
                let _ = std::fs::write(&path, format!("{{\n \"property\": \"{id}\",\n \"tier\": \"{tier}\",\n \"space\": \"{space}\",\n \"item\": {item},\n \"key\": \"{space}:does-not-terminate\"\n}}\n"));
                println!("VIOLATION property={id} replay={path}");
                println!("    {space}:does-not-terminate: item {item} runs forever");
                std::process::exit(1);
            }
        }
    }
}

impl Ctx {
    /// Runs a named space of `n` items; `f` is called once for every item.
    pub fn space(&self, name: &str, n: u64, f: impl Fn(u64, &mut W) + Sync) {
        if let Some(o) = &self.only { if !name.contains(o.as_str()) { return; } }
        let t0 = Instant::now();
        *SPACE.lock().unwrap() = name.to_string();
        let items: Vec<AtomicU64> = if self.digest.is_some() { (0..n).map(|_| AtomicU64::new(0)).collect() } else { Vec::new() };
        let run = |i: u64, w: &mut W| {
            w.item = i;
            w.digest = 0;
            ITEM[w.slot].store(i, Relaxed);
            SINCE[w.slot].store(NOW.load(Relaxed), Relaxed);
            if let Err(e) = guard(|| f(i, w)) {
                w.fail(format!("{name}:harness-panic"), || format!("unexpected panic: {e}"));
            }
            SINCE[w.slot].store(0, Relaxed);
            if let Some(d) = items.get(i as usize) { d.store(w.digest, Relaxed); }
        };
        let worker = |slot, verbose| W { ctx: self, slot, space: name, item: 0, transitions: 0, traces: 0, stats: BTreeMap::new(), verbose, digesting: self.digest.is_some(), digest: 0 };
        let done = |w: W| {
            self.transitions.fetch_add(w.transitions, Relaxed);
            self.traces.fetch_add(w.traces, Relaxed);
            let mut s = self.stats.lock().unwrap();
            for (k, v) in w.stats { *s.entry(k.to_string()).or_insert(0) += v; }
        };
        if let Some((s, i)) = &self.replay {
            if s != name { return; }
            let mut w = worker(0, true);
            run(*i, &mut w);
            done(w);
            return;
        }
        let before = self.transitions.load(Relaxed);
        let next = AtomicUsize::new(0);
        let chunk = (n / (self.threads as u64 * 64)).clamp(1, 256) as usize;
        std::thread::scope(|sc| {
            let (next, run, worker, done) = (&next, &run, &worker, &done);
            for slot in 0..self.threads.min(64) {
                std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(sc, move || {
                    SLOT.with(|s| s.set(slot));
                    let mut w = worker(slot, false);
                    loop {
                        let i = next.fetch_add(chunk, Relaxed) as u64;
                        if i >= n { break; }
                        for j in i..(i + chunk as u64).min(n) { run(j, &mut w); }
                    }
                    done(w);
                }).unwrap();
            }
        });
        let tr = self.transitions.load(Relaxed) - before;
        let secs = t0.elapsed().as_secs_f64();
        println!("  space {name}: {n} items, {tr} transitions, {secs:.1}s");
        self.spaces.lock().unwrap().push((name.to_string(), n, tr, secs));
        if self.digest.is_some() { self.digests.lock().unwrap().push((name.to_string(), items)); }
    }

    pub fn assume(&self, s: &str) { self.assumptions.lock().unwrap().push(s.to_string()); }
    pub fn thorough(&self) -> bool { self.tier == Tier::Thorough }
    /// Picks a bound by tier.
    pub fn by<T>(&self, quick: T, thorough: T) -> T { if self.thorough() { thorough } else { quick } }
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o
}

/// Extracts the value of a string field of a one-line JSON object (enough for our own files).
pub fn json_field(line: &str, name: &str) -> Option<String> {
    let pat = format!("\"{name}\"");
    let i = line.find(&pat)? + pat.len();
    let rest = line[i..].trim_start().strip_prefix(':')?.trim_start();
    if let Some(r) = rest.strip_prefix('"') {
        let mut o = String::new();
        let mut it = r.chars();
        while let Some(c) = it.next() {
            match c {
                '"' => return Some(o),
                '\\' => match it.next()? { 'n' => o.push('\n'), c => o.push(c) },
                c => o.push(c),
            }
        }
        None
    } else {
        Some(rest.chars().take_while(|c| !matches!(c, ',' | '}' | ' ')).collect())
    }
}

/// Entry point of a check binary. `props` lists the properties this binary decides.
pub fn main(props: &[(&str, fn(&Ctx))]) {
    let args: Vec<String> = std::env::args().collect();
    let usage = || -> ! { eprintln!("usage: {} run <property> <quick|thorough> [space filter] | replay <file>", args[0]); std::process::exit(2) };
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let (id, tier, replay, only) = match args.get(1).map(|s| s.as_str()) {
        Some("run") if args.len() >= 4 => {
            let tier = match args[3].as_str() { "quick" => Tier::Quick, "thorough" => Tier::Thorough, _ => usage() };
            (args[2].clone(), tier, None, args.get(4).cloned())
        }
        Some("replay") if args.len() == 3 => {
            let t = std::fs::read_to_string(&args[2]).expect("replay file").replace('\n', " ");
            let g = |k: &str| json_field(&t, k).unwrap_or_else(|| panic!("no field {k} in the replay file"));
            (g("property"), if g("tier") == "thorough" { Tier::Thorough } else { Tier::Quick }, Some((g("space"), g("item").parse().unwrap())), None)
        }
        _ => usage(),
    };
    let Some((_, f)) = props.iter().find(|p| p.0 == id) else { eprintln!("unknown property {id}"); std::process::exit(2) };
    // Panics of the code under test are caught and judged: keep them quiet.
    let loud = std::env::var("MC_PANIC").is_ok();
    std::panic::set_hook(Box::new(move |p| {
        if loud { eprintln!("{p}"); }
        if NO_UNWIND.with(|n| n.get()) { die(&format!("panic in code that cannot be unwound: {p}")); }
    }));
    let ctx = Ctx {
        id: id.clone(), tier, seed, threads: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4), replay, states: Bitmap::new(), outcomes: Bitmap::new(),
        transitions: AtomicU64::new(0), traces: AtomicU64::new(0), viol: Mutex::new(BTreeMap::new()), samples: Mutex::new(Vec::new()), spaces: Mutex::new(Vec::new()),
        stats: Mutex::new(BTreeMap::new()), assumptions: Mutex::new(Vec::new()), start: Instant::now(), root, only,
        digest: std::env::var("MC_DIGEST").ok(), digests: Mutex::new(Vec::new()),
    };
    let (i, t, r) = (ctx.id.clone(), if tier == Tier::Quick { "quick" } else { "thorough" }, ctx.root.clone());
    *SELF.lock().unwrap() = (i.clone(), t, r.clone());
    catch_signals();
    std::thread::spawn(move || watchdog(i, t, r));
    f(&ctx);
    std::process::exit(finish(&ctx));
}

/// One record per space: length of the name, the name, the number of items, the digests.
fn write_digests(ctx: &Ctx) {
    let Some(path) = &ctx.digest else { return };
    let mut out: Vec<u8> = Vec::new();
    for (name, items) in ctx.digests.lock().unwrap().iter() {
        out.extend((name.len() as u64).to_le_bytes());
        out.extend(name.bytes());
        out.extend((items.len() as u64).to_le_bytes());
        for d in items { out.extend(d.load(Relaxed).to_le_bytes()); }
    }
    std::fs::write(path, out).expect("digest file");
    // All violations, whether listed or not.
    for v in ctx.viol.lock().unwrap().values() { println!("KEY {}", v.key); }
}

fn finish(ctx: &Ctx) -> i32 {
    write_digests(ctx);
    let id = &ctx.id;
    let tier = if ctx.tier == Tier::Quick { "quick" } else { "thorough" };
    let known_path = format!("{}/known_findings.jsonl", ctx.root);
    let known: BTreeSet<(String, String, String)> = std::fs::read_to_string(&known_path).unwrap_or_default().lines()
        .filter(|l| json_field(l, "status").as_deref() == Some("known"))
        .filter_map(|l| Some((json_field(l, "property")?, json_field(l, "key")?, json_field(l, "what")?))).collect();
    let viol = ctx.viol.lock().unwrap();
    let mut new = Vec::new();
    let mut seen_known = 0u64;
    for v in viol.values() {
        if let Some(k) = known.iter().find(|k| k.0 == *id && k.1 == v.key) {
            println!("KNOWN-FINDING: property={id} {} [{}; {} cases]", k.2, v.key, v.count);
            seen_known += 1;
        } else {
            new.push(v);
        }
    }
    if ctx.replay.is_some() {
        println!("replayed: {} violation(s)", viol.len());
        for v in viol.values() { println!("  {}: {}", v.key, v.msg); }
        return if new.is_empty() { 0 } else { 1 };
    }
    let wall = ctx.start.elapsed().as_secs_f64();
    let states = ctx.states.count();
    let outcomes = ctx.outcomes.count();
    let tr = ctx.transitions.load(Relaxed);
    let traces = ctx.traces.load(Relaxed);
    println!("{id} {tier}: {states} distinct states, {tr} transitions, {outcomes} distinct outcomes, {traces} model traces replayed on the implementation, {wall:.1}s");
    for (k, v) in ctx.stats.lock().unwrap().iter() { println!("  {k}: {v}"); }
    if ctx.only.is_none() {
        let mut e = String::new();
        e.push_str(&format!("{{\n \"property\": \"{id}\",\n \"tier\": \"{tier}\",\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n", ctx.seed));
        e.push_str(&format!("  \"states\": {states},\n  \"transitions\": {tr},\n  \"traces_validated_against_impl\": {traces},\n  \"distinct_outcomes\": {outcomes},\n  \"exhaustive\": true,\n"));
        e.push_str("  \"spaces\": [");
        for (i, (n, k, t, s)) in ctx.spaces.lock().unwrap().iter().enumerate() {
            e.push_str(&format!("{}{{\"space\": \"{}\", \"items_enumerated\": {k}, \"transitions\": {t}, \"seconds\": {s:.2}}}", if i > 0 { ", " } else { "" }, esc(n)));
        }
        e.push_str("],\n  \"statistics\": {");
        for (i, (k, v)) in ctx.stats.lock().unwrap().iter().enumerate() {
            e.push_str(&format!("{}\"{}\": {v}", if i > 0 { ", " } else { "" }, esc(k)));
        }
        e.push_str("},\n  \"samples\": [");
        for (i, s) in ctx.samples.lock().unwrap().iter().enumerate() {
            e.push_str(&format!("{}\"{}\"", if i > 0 { ", " } else { "" }, esc(s)));
        }
        e.push_str(&format!("],\n  \"known_findings_seen\": {seen_known},\n  \"states_note\": \"distinct explored states, counted in a hash bitmap of 2^{BITS} bits: a lower bound\"\n }},\n \"assumptions\": ["));
        for (i, s) in ctx.assumptions.lock().unwrap().iter().enumerate() {
            e.push_str(&format!("{}\"{}\"", if i > 0 { ", " } else { "" }, esc(s)));
        }
        e.push_str(&format!("],\n \"wall_s\": {wall:.2},\n \"violations\": {}\n}}\n", new.len()));
        let dir = format!("{}/evidence", ctx.root);
        std::fs::create_dir_all(&dir).unwrap();
        std::fs::write(format!("{dir}/{id}.json"), e).unwrap();
    }
    if new.is_empty() { return 0; }
    let dir = format!("{}/evidence/replay", ctx.root);
    std::fs::create_dir_all(&dir).unwrap();
    for (n, v) in new.iter().enumerate() {
        let path = format!("{dir}/{id}-{n}.json");
        if n < 40 {
            std::fs::write(&path, format!("{{\n \"property\": \"{id}\",\n \"tier\": \"{tier}\",\n \"space\": \"{}\",\n \"item\": {},\n \"key\": \"{}\",\n \"message\": \"{}\",\n \"cases\": {}\n}}\n", esc(&v.space), v.item, esc(&v.key), esc(&v.msg), v.count)).unwrap();
        }
        if n < 25 {
            println!("VIOLATION property={id} replay={path}");
            println!("    {} ({} cases) {}", v.key, v.count, v.msg);
        }
    }
    if new.len() > 25 { println!("    ... {} distinct violations in all", new.len()); }
    1
}
