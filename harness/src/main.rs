//! Runtime monitors for seiren: drives the real library and program with
//! generated workloads and judges every observed execution with an oracle.
mod alloc;
mod checks;
mod gen;
mod pipe;
mod proc;
mod refl;
mod rng;
mod sys;
mod xml;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

use rng::Rng;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::os::unix::fs::FileExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
    /// quick count, scaled up for thorough
    pub fn n(self, quick: usize, thorough: usize) -> usize {
        match self {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        }
    }
}

/// What a check observed.
#[derive(Default)]
pub struct Stats {
    pub counts: BTreeMap<String, u64>,
    pub maxes: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
}
pub struct Ctx {
    pub seed: u64,
    pub tier: Tier,
    pub idx: usize,
    pub rng: Rng,
    pub stats: Stats,
    /// scratch directory of this worker
    pub dir: PathBuf,
}
impl Ctx {
    pub fn add(&mut self, k: &str, n: u64) {
        *self.stats.counts.entry(k.to_string()).or_default() += n;
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let e = self.stats.maxes.entry(k.to_string()).or_default();
        *e = (*e).max(n);
    }
    /// Record a distinct, non-trivial case.
    pub fn nontrivial(&mut self, key: &[u8]) {
        self.stats.distinct.insert(rng::hash_bytes(key));
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.stats.samples.len() < 2 {
            let s = f();
            let s: String = s.chars().take(600).collect();
            self.stats.samples.push(s);
        }
    }
}

pub type Res = Result<(), String>;

pub struct Check {
    pub id: &'static str,
    pub level: &'static str,
    /// cases per tier
    pub cases: fn(Tier) -> usize,
    pub run: fn(&mut Ctx) -> Res,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    /// counters that must reach these values for the run to count as an observation
    pub need: &'static [(&'static str, u64)],
    /// the case list is a complete enumeration of a finite space
    pub exhaustive: bool,
    /// fewer worker processes (checks that start processes of their own)
    pub workers: usize,
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}

fn find(id: &str) -> &'static Check {
    checks::ALL
        .iter()
        .find(|c| c.id == id)
        .unwrap_or_else(|| die(&format!("no check for property {}", id)))
}
fn die(m: &str) -> ! {
    eprintln!("mon: {}", m);
    std::process::exit(4)
}

/// CPU seconds one case may use before it counts as not terminating. Typical
/// cases take milliseconds.
const CPU_BUDGET: f64 = 60.0;
static CASE_CPU: AtomicU64 = AtomicU64::new(0);
static CASE_IDX: AtomicUsize = AtomicUsize::new(0);

fn run_case(c: &Check, seed: u64, tier: Tier, idx: usize, stats: Stats, dir: &Path) -> (Stats, Res) {
    let s = rng::mix(seed ^ rng::hash_bytes(c.id.as_bytes()).rotate_left(17) ^ (idx as u64).wrapping_mul(0x1234_5678_9abc_def1));
    let mut cx = Ctx { seed, tier, idx, rng: Rng::new(s), stats, dir: dir.to_path_buf() };
    CASE_IDX.store(idx, Ordering::SeqCst);
    CASE_CPU.store(sys::cpu().to_bits(), Ordering::SeqCst);
    let r = pipe::guard(|| (c.run)(&mut cx));
    let r = match r {
        Ok(r) => r,
        Err(p) => Err(format!("panic: {}", p)),
    };
    (cx.stats, r)
}

fn watchdog(cur: Option<std::fs::File>) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(200));
        let start = f64::from_bits(CASE_CPU.load(Ordering::SeqCst));
        if start > 0.0 && sys::cpu() - start > CPU_BUDGET {
            if let Some(f) = &cur {
                let _ = f.write_all_at(&(CASE_IDX.load(Ordering::SeqCst) as u64).to_le_bytes(), 0);
            }
            eprintln!("mon: case {} used more than {} CPU seconds", CASE_IDX.load(Ordering::SeqCst), CPU_BUDGET);
            unsafe { sys::_exit(99) }
        }
    });
}

fn worker(a: &[String]) -> ! {
    let c = find(&a[0]);
    let tier = tier_of(&a[1]);
    let seed: u64 = a[2].parse().unwrap();
    let shard: usize = a[3].parse().unwrap();
    let n: usize = a[4].parse().unwrap();
    let dir = PathBuf::from(&a[5]);
    let start: usize = a[6].parse().unwrap();
    let wall: f64 = a[7].parse().unwrap();
    let t0 = Instant::now();
    let cur = std::fs::File::create(dir.join(format!("{}.cur", shard))).unwrap();
    sys::limit_as(6 << 30);
    watchdog(Some(cur.try_clone().unwrap()));
    let scratch = dir.join(format!("scratch-{}", shard));
    std::fs::create_dir_all(&scratch).unwrap();
    let total = (c.cases)(tier);
    let mut stats = Stats::default();
    let mut done = 0u64;
    let mut viol: Vec<(usize, String)> = vec![];
    let mut i = start;
    while i < total {
        if i % n == shard {
            if t0.elapsed().as_secs_f64() > wall {
                break;
            }
            cur.write_all_at(&(i as u64).to_le_bytes(), 0).unwrap();
            let (s, r) = run_case(c, seed, tier, i, stats, &scratch);
            stats = s;
            done += 1;
            if let Err(m) = r {
                viol.push((i, m));
                if viol.len() >= 2 {
                    break;
                }
            }
        }
        i += 1;
    }
    let mut o = String::new();
    writeln!(o, "D {}", done).unwrap();
    for (k, v) in &stats.counts {
        writeln!(o, "C {} {}", v, k).unwrap();
    }
    for (k, v) in &stats.maxes {
        writeln!(o, "M {} {}", v, k).unwrap();
    }
    for s in &stats.samples {
        writeln!(o, "S {}", s.escape_default()).unwrap();
    }
    for (i, m) in &viol {
        writeln!(o, "V {} {}", i, m.escape_default()).unwrap();
    }
    let mut h = Vec::with_capacity(stats.distinct.len() * 8);
    for x in &stats.distinct {
        h.extend_from_slice(&x.to_le_bytes());
    }
    std::fs::write(dir.join(format!("{}-{}.hash", shard, start)), h).unwrap();
    std::fs::write(dir.join(format!("{}-{}.out", shard, start)), o).unwrap();
    std::process::exit(0)
}

fn tier_of(s: &str) -> Tier {
    match s {
        "thorough" => Tier::Thorough,
        _ => Tier::Quick,
    }
}

fn unescape(s: &str) -> String {
    // inverse of escape_default, good enough for messages
    let mut o = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c != '\\' {
            o.push(c);
            continue;
        }
        match it.next() {
            Some('n') => o.push('\n'),
            Some('r') => o.push('\r'),
            Some('t') => o.push('\t'),
            Some('u') => {
                it.next();
                let mut h = String::new();
                for c in it.by_ref() {
                    if c == '}' {
                        break;
                    }
                    h.push(c);
                }
                if let Some(c) = u32::from_str_radix(&h, 16).ok().and_then(char::from_u32) {
                    o.push(c)
                }
            }
            Some(c) => o.push(c),
            None => {}
        }
    }
    o
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn check(id: &str) -> ! {
    let c = find(id);
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let tier = tier_of(&std::env::var("VERIF_TIER").unwrap_or_default());
    let root = PathBuf::from(std::env::var("MON_ROOT").unwrap_or_else(|_| "/verif".into()));
    let wall: f64 = match tier {
        Tier::Quick => 300.0,
        Tier::Thorough => 3000.0,
    };
    let t0 = Instant::now();
    let dir = std::env::temp_dir().join(format!("seiren-mon-{}-{}", id, std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let n = c.workers.max(1);
    let me = std::env::current_exe().unwrap();
    let spawn = |shard: usize, start: usize, left: f64| {
        Command::new(&me)
            .args(["worker", id, tier.name(), &seed.to_string(), &shard.to_string(), &n.to_string()])
            .arg(&dir)
            .args([start.to_string(), format!("{}", left)])
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(std::fs::File::create(dir.join(format!("{}.err", shard))).unwrap())
            .spawn()
            .unwrap()
    };
    let mut kids: Vec<_> = (0..n).map(|s| (s, 0usize, 0usize, Some(spawn(s, 0, wall)))).collect();
    let mut violations: Vec<(usize, String)> = vec![];
    let mut incon: Vec<String> = vec![];
    // A worker that dies (crash, stack overflow, CPU budget) names the case
    // it was in. The case is judged by running it once more on its own.
    loop {
        let mut alive = false;
        for k in kids.iter_mut() {
            let Some(ch) = &mut k.3 else { continue };
            if violations.len() >= 2 {
                // enough is known; each further case may cost its whole budget
                let _ = ch.kill();
                let _ = ch.wait();
                k.3 = None;
                continue;
            }
            match ch.try_wait().unwrap() {
                None => {
                    alive = true;
                    if t0.elapsed().as_secs_f64() > wall * 2.0 + 300.0 {
                        let _ = ch.kill();
                        let _ = ch.wait();
                        incon.push(format!("worker {} ran past its wall-clock limit", k.0));
                        k.3 = None;
                    }
                }
                Some(st) if st.success() => k.3 = None,
                Some(st) => {
                    k.3 = None;
                    let mut b = [0u8; 8];
                    let f = std::fs::File::open(dir.join(format!("{}.cur", k.0)));
                    if f.and_then(|f| f.read_exact_at(&mut b, 0)).is_err() {
                        incon.push(format!("worker {} died before its first case: {}", k.0, st));
                        continue;
                    }
                    let idx = u64::from_le_bytes(b) as usize;
                    let again = Command::new(&me)
                        .args(["one", id, tier.name(), &seed.to_string(), &idx.to_string()])
                        .stdin(Stdio::null())
                        .stdout(Stdio::null())
                        .stderr(Stdio::piped())
                        .output()
                        .unwrap();
                    if again.status.code() == Some(0) {
                        incon.push(format!("case {} died once ({}) but not when run alone", idx, st));
                    } else if id == "C30" && again.status.code() == Some(99) {
                        println!("NOTE: case {} was given up after {} CPU seconds", idx, CPU_BUDGET);
                    } else {
                        let e = String::from_utf8_lossy(&again.stderr);
                        let e: String = e.chars().take(1500).collect();
                        violations.push((idx, format!("the process running this case ended with {} and again with {} when run alone\n{}", st, again.status, e)));
                    }
                    k.2 += 1;
                    let left = wall - t0.elapsed().as_secs_f64();
                    if k.2 < 3 && left > 1.0 {
                        k.1 = idx + 1;
                        k.3 = Some(spawn(k.0, idx + 1, left));
                        alive = true;
                    }
                }
            }
        }
        if !alive {
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    let mut maxes: BTreeMap<String, u64> = BTreeMap::new();
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut samples: BTreeSet<String> = BTreeSet::new();
    let mut done = 0u64;
    for e in std::fs::read_dir(&dir).unwrap() {
        let p = e.unwrap().path();
        match p.extension().and_then(|x| x.to_str()) {
            Some("hash") => {
                for h in std::fs::read(&p).unwrap().chunks_exact(8) {
                    distinct.insert(u64::from_le_bytes(h.try_into().unwrap()));
                }
            }
            Some("out") => {
                for l in std::fs::read_to_string(&p).unwrap().lines() {
                    let (t, rest) = l.split_at(2);
                    match t {
                        "D " => done += rest.parse::<u64>().unwrap(),
                        "S " => {
                            samples.insert(unescape(rest));
                        }
                        "V " => {
                            let (i, m) = rest.split_once(' ').unwrap();
                            violations.push((i.parse().unwrap(), unescape(m)));
                        }
                        _ => {
                            let (v, k) = rest.split_once(' ').unwrap();
                            let v: u64 = v.parse().unwrap();
                            if t == "C " {
                                *counts.entry(k.into()).or_default() += v;
                            } else {
                                let e = maxes.entry(k.into()).or_default();
                                *e = (*e).max(v);
                            }
                        }
                    }
                }
            }
            _ => {}
        }
    }
    let total = (c.cases)(tier);
    violations.sort();
    let _ = std::fs::remove_dir_all(&dir);

    // evidence
    let mut o = String::from("{\n");
    writeln!(o, " \"property\": {},", json_str(id)).unwrap();
    writeln!(o, " \"tier\": {},", json_str(tier.name())).unwrap();
    writeln!(o, " \"seed\": {},", seed).unwrap();
    writeln!(o, " \"level\": {},", json_str(c.level)).unwrap();
    writeln!(o, " \"coverage\": {{").unwrap();
    writeln!(o, "  \"evaluations\": {},", done).unwrap();
    writeln!(o, "  \"distinct_nontrivial\": {},", distinct.len()).unwrap();
    writeln!(o, "  \"rule\": {},", json_str(c.rule)).unwrap();
    let sm: Vec<String> = samples.iter().take(4).map(|s| json_str(s)).collect();
    writeln!(o, "  \"samples\": [{}],", sm.join(", ")).unwrap();
    if c.exhaustive {
        writeln!(o, "  \"exhaustive\": {},", done as usize == total).unwrap();
    }
    let mut kv: Vec<String> = counts.iter().map(|(k, v)| format!("   {}: {}", json_str(k), v)).collect();
    kv.extend(maxes.iter().map(|(k, v)| format!("   {}: {}", json_str(&format!("max {}", k)), v)));
    writeln!(o, "  \"planned_cases\": {},", total).unwrap();
    writeln!(o, "  \"observed\": {{\n{}\n  }}", kv.join(",\n")).unwrap();
    writeln!(o, " }},").unwrap();
    let asm: Vec<String> = c.assumptions.iter().map(|s| json_str(s)).collect();
    writeln!(o, " \"assumptions\": [{}],", asm.join(", ")).unwrap();
    writeln!(o, " \"wall_s\": {:.3},", t0.elapsed().as_secs_f64()).unwrap();
    writeln!(o, " \"violations\": {}", violations.len()).unwrap();
    o.push_str("}\n");
    let ev = root.join("evidence");
    let _ = std::fs::create_dir_all(&ev);
    std::fs::write(ev.join(format!("{}.json", id)), &o).unwrap();

    println!("{}: {} of {} cases, {} distinct non-trivial, {:.1} s", id, done, total, distinct.len(), t0.elapsed().as_secs_f64());
    for (k, v) in &counts {
        println!("  {} = {}", k, v);
    }
    for (k, v) in &maxes {
        println!("  max {} = {}", k, v);
    }
    if !violations.is_empty() {
        let rp = root.join("replays");
        let _ = std::fs::create_dir_all(&rp);
        for (i, m) in violations.iter().take(5) {
            let f = rp.join(format!("{}-{}-{}-{}.txt", id, tier.name(), seed, i));
            let text = format!(
                "property {}\nseed {}\ntier {}\ncase {}\n\nTo run this case again:\n  sh /verif/run.sh one {} {} {} {}\n\n{}\n",
                id, seed, tier.name(), i, id, tier.name(), seed, i, m
            );
            std::fs::write(&f, text).unwrap();
            let first: String = m.chars().take(1200).map(|c| if c.is_control() && c != '\n' { '\u{fffd}' } else { c }).collect();
            println!("{}", first);
            println!("VIOLATION property={} replay={}", id, f.display());
        }
        std::process::exit(1);
    }
    for m in &incon {
        println!("INCONCLUSIVE: {}", m);
    }
    if !incon.is_empty() {
        std::process::exit(3);
    }
    // A run that saw too little has decided nothing.
    if (done as usize) * 4 < total {
        println!("INCONCLUSIVE: only {} of {} cases ran in the time allowed", done, total);
        std::process::exit(3);
    }
    for (k, min) in c.need {
        let got = if *k == "distinct" { distinct.len() as u64 } else { counts.get(*k).copied().unwrap_or(0) };
        if got < *min {
            println!("INCONCLUSIVE: observed only {} of {:?}, {} needed", got, k, min);
            std::process::exit(3);
        }
    }
    println!("{}: held on everything observed", id);
    std::process::exit(0)
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    pipe::quiet_panics();
    match a.first().map(|s| s.as_str()) {
        Some("check") => check(&a[1]),
        Some("worker") => worker(&a[1..]),
        Some("one") => {
            let c = find(&a[1]);
            sys::limit_as(6 << 30);
            watchdog(None);
            let dir = std::env::temp_dir().join(format!("seiren-mon-one-{}", std::process::id()));
            std::fs::create_dir_all(&dir).unwrap();
            let (st, r) = run_case(c, a[3].parse().unwrap(), tier_of(&a[2]), a[4].parse().unwrap(), Stats::default(), &dir);
            let _ = std::fs::remove_dir_all(&dir);
            for s in &st.samples {
                println!("sample: {}", s);
            }
            match r {
                Ok(()) => println!("held"),
                Err(m) => {
                    println!("violated: {}", m);
                    let _ = std::io::stdout().flush();
                    std::process::exit(1)
                }
            }
        }
        Some("evcxr") => checks::run::evcxr(a[1].parse().unwrap()),
        Some("outcomes") => checks::run::outcomes(&a[1]),
        Some("memory") => checks::mem::memory(a[1].parse().unwrap(), a[2].parse().unwrap()),
        Some("threads") => checks::mem::threads(a[1].parse().unwrap(), a[2].parse().unwrap()),
        Some("small") => checks::mem::small(a[1].parse().unwrap(), a[2].parse().unwrap()),
        Some("scale") => checks::cost::scale(),
        Some("list") => {
            for c in checks::ALL {
                println!("{}", c.id);
            }
        }
        _ => die("usage: mon check ID | one ID TIER SEED CASE | list"),
    }
}
