//! Case engine: choice sequences, case runner, worker command line.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::os::unix::fs::FileExt;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::time::Instant;

pub type Res<T = ()> = Result<T, String>;

/// Deterministic random generator (splitmix64).
#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed)
    }

    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    Rng::new(a ^ b.wrapping_mul(0xD6E8FEB86659FD93)).next()
}

/// Source of choices. In random mode the draws are recorded, in replay mode they are read back
/// (reduced modulo the bound, zero when exhausted) so that every choice list is a valid case.
pub struct Src {
    rng: Option<Rng>,
    choices: Vec<u64>,
    pos: usize,
    trace: Option<std::fs::File>,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src { rng: Some(Rng::new(seed)), choices: Vec::new(), pos: 0, trace: None }
    }

    pub fn replay(choices: Vec<u64>) -> Self {
        Src { rng: None, choices, pos: 0, trace: None }
    }

    /// Uniform value below `n` (zero is the simplest choice).
    pub fn below(&mut self, n: usize) -> usize {
        let n = n.max(1) as u64;
        let v = match &mut self.rng {
            Some(rng) => {
                let v = rng.next() % n;
                self.choices.push(v);
                v
            }
            None => {
                let v = self.choices.get(self.pos).copied().unwrap_or(0) % n;
                if self.pos < self.choices.len() {
                    self.choices[self.pos] = v;
                } else if self.pos < 100_000 {
                    self.choices.push(v);
                }
                v
            }
        };
        self.pos += 1;
        if let Some(f) = &mut self.trace {
            let _ = writeln!(f, "c {v}");
        }
        v as usize
    }

    /// Value in `lo..=hi`.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }

    pub fn irange(&mut self, lo: isize, hi: isize) -> isize {
        lo + self.below((hi - lo + 1) as usize) as isize
    }

    /// True with probability `num / den`; false is the simplest choice.
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) >= den - num
    }

    pub fn flip(&mut self) -> bool {
        self.below(2) == 1
    }

    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        let i = self.below(items.len());
        &items[i]
    }

    /// Random permutation of 0..n (identity is the simplest choice).
    pub fn perm(&mut self, n: usize) -> Vec<usize> {
        let mut p: Vec<usize> = (0..n).collect();
        for i in 0..n.saturating_sub(1) {
            let j = i + self.below(n - i);
            p.swap(i, j);
        }
        p
    }
}

/// Context of one case.
pub struct Ctx {
    pub src: Src,
    pub verbose: bool,
    pub notes: String,
    pub nontrivial: bool,
    pub tags: BTreeMap<&'static str, u64>,
}

impl Ctx {
    pub fn new(src: Src, verbose: bool) -> Self {
        Ctx { src, verbose, notes: String::new(), nontrivial: false, tags: BTreeMap::new() }
    }

    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.verbose && self.notes.len() < 4000 {
            let s = f();
            if let Some(f) = &mut self.src.trace {
                let _ = writeln!(f, "n {}", s.replace('\n', " "));
            }
            if !self.notes.is_empty() {
                self.notes.push_str("; ");
            }
            self.notes.push_str(&s);
        }
    }

    pub fn tag(&mut self, tag: &'static str) {
        *self.tags.entry(tag).or_insert(0) += 1;
    }

    /// Marks the case as non-trivial if the condition holds.
    pub fn nontrivial_if(&mut self, cond: bool) {
        self.nontrivial |= cond;
    }
}

/// A failure that is accepted only if it is a recorded finding (see KNOWN_FINDINGS.txt; the
/// supervisor passes the identifiers of the recorded findings in MDARRAY_KNOWN).
pub fn known(cx: &mut Ctx, id: &'static str, msg: String) -> Res {
    let listed = std::env::var("MDARRAY_KNOWN").unwrap_or_default();
    if listed.split(',').any(|x| x == id) {
        cx.tag(id);
        Ok(())
    } else {
        Err(msg)
    }
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                *p = format!("{msg} at {loc}");
            }
        });
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

/// Runs the closure and returns its value, or `None` if it panicked.
pub fn caught<T>(f: impl FnOnce() -> T) -> Option<T> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

/// Returns `Err` unless the closure panics.
pub fn must_panic<T>(what: impl FnOnce() -> String, f: impl FnOnce() -> T) -> Res {
    match catch_unwind(AssertUnwindSafe(|| {
        let _ = f();
    })) {
        Ok(()) => Err(format!("{}: expected a panic, but the call returned", what())),
        Err(_) => Ok(()),
    }
}

pub type CaseFn = fn(&mut Ctx) -> Res;

/// A named family of generated cases.
#[derive(Clone, Copy)]
pub struct Sub {
    pub name: &'static str,
    pub weight: usize,
    pub run: CaseFn,
}

pub struct Property {
    pub id: &'static str,
    /// Rule for a non-trivial case.
    pub rule: &'static str,
    pub subs: Vec<Sub>,
}

#[derive(Default)]
pub struct Subs(pub Vec<Sub>);

impl Subs {
    pub fn add(&mut self, name: &'static str, weight: usize, run: CaseFn) {
        self.0.push(Sub { name, weight, run });
    }
}

fn run_case(f: CaseFn, cx: &mut Ctx) -> Res {
    crate::alloc::take_error();
    let r = match catch_unwind(AssertUnwindSafe(|| f(cx))) {
        Ok(r) => r,
        Err(_) => Err(format!("unexpected panic: {}", last_panic())),
    };
    crate::alloc::flush();
    if let Some(e) = crate::alloc::take_error() {
        return match r {
            Ok(()) => Err(format!("heap corruption: {e}")),
            Err(m) => Err(format!("{m} [heap corruption: {e}]")),
        };
    }
    crate::track::reset();
    r
}

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned()
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn schedule(subs: &[Sub]) -> Vec<usize> {
    let mut order = Vec::new();
    let max = subs.iter().map(|s| s.weight).max().unwrap_or(1);
    for round in 0..max {
        for (i, s) in subs.iter().enumerate() {
            if round < s.weight {
                order.push(i);
            }
        }
    }
    order
}

/// Entry point of a property binary.
///
/// `run --seed S --shard I --shards N --cases N --secs T --out FILE --cur FILE`
/// `case --seed S --index I` prints the choices of a case (without running it to completion if
/// it crashes), `one --sub NAME --choices a,b,c` runs a single case.
pub fn main(prop: Property) {
    install_hook();
    let args: Vec<String> = std::env::args().collect();
    let mode = args.get(1).map(|s| s.as_str()).unwrap_or("");
    match mode {
        "list" => {
            for s in &prop.subs {
                println!("{} {}", s.weight, s.name);
            }
            println!("RULE {}", prop.rule);
        }
        "run" => run(&prop, &args),
        "one" => one(&prop, &args),
        _ => {
            eprintln!("usage: run|one|list");
            std::process::exit(2);
        }
    }
}

fn case_seed(prop: &Property, seed: u64, index: u64) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in prop.id.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    mix(mix(seed, h), index)
}

fn run(prop: &Property, args: &[String]) {
    let seed: u64 = arg(args, "--seed").unwrap().parse().unwrap();
    let shard: u64 = arg(args, "--shard").unwrap().parse().unwrap();
    let shards: u64 = arg(args, "--shards").unwrap().parse().unwrap();
    let cases: u64 = arg(args, "--cases").unwrap().parse().unwrap();
    let secs: f64 = arg(args, "--secs").unwrap().parse().unwrap();
    let out = arg(args, "--out").unwrap();
    let cur = std::fs::File::create(arg(args, "--cur").unwrap()).unwrap();
    let only = arg(args, "--only");

    let subs: Vec<Sub> = match &only {
        Some(o) => prop.subs.iter().filter(|s| s.name.contains(o.as_str())).copied().collect(),
        None => prop.subs.clone(),
    };
    let order = schedule(&subs);
    let start = Instant::now();
    let mut evaluations = 0u64;
    let mut nontrivial = 0u64;
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut tags: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut sub_counts = vec![0u64; subs.len()];
    let mut samples: Vec<String> = Vec::new();
    let mut sampled = vec![false; subs.len()];
    let mut failure: Option<(usize, String, String, Vec<u64>)> = None;
    let mut timed_out = false;
    let mut slowest = (0.0, "", 0);

    let mut index = match arg(args, "--start") {
        Some(s) => s.parse().unwrap(),
        None => shard,
    };
    while index < cases {
        let si = order[(index % order.len() as u64) as usize];
        let sub = &subs[si];
        // The current case is recorded first, so that a crash can be attributed to it.
        let s = case_seed(prop, seed, index);
        let line = format!("{:<20} {:<20} {}\n", index, s, sub.name);
        let _ = cur.write_all_at(line.as_bytes(), 0);

        let want_sample = !sampled[si] && samples.len() < 24 && (si as u64) % shards == shard;
        let mut cx = Ctx::new(Src::random(s), want_sample);
        let begin = Instant::now();
        let r = run_case(sub.run, &mut cx);
        let took = begin.elapsed().as_secs_f64();
        if took > slowest.0 {
            slowest = (took, sub.name, s);
        }
        evaluations += 1;
        sub_counts[si] += 1;
        for (k, v) in std::mem::take(&mut cx.tags) {
            *tags.entry(k).or_insert(0) += v;
        }
        if cx.nontrivial {
            nontrivial += 1;
            let mut h = si as u64;
            for &c in &cx.src.choices {
                h = mix(h, c.wrapping_add(1));
            }
            if distinct.len() < 4_000_000 {
                distinct.insert(h);
            }
            if want_sample {
                sampled[si] = true;
                samples.push(format!("[{}] {}", sub.name, cx.notes));
            }
        }
        if let Err(msg) = r {
            failure = Some((si, msg, cx.notes.clone(), cx.src.choices.clone()));
            break;
        }
        index += shards;
        if evaluations % 64 == 0 && start.elapsed().as_secs_f64() > secs {
            timed_out = true;
            break;
        }
    }

    let mut o = String::new();
    let _ = write!(
        o,
        "{{\"evaluations\":{evaluations},\"nontrivial\":{nontrivial},\"timed_out\":{timed_out},\"wall\":{:.3},",
        start.elapsed().as_secs_f64()
    );
    let _ = write!(
        o,
        "\"slowest\":{:.3},\"slowest_case\":{},",
        slowest.0,
        json_str(&format!("{} (case seed {})", slowest.1, slowest.2))
    );
    o.push_str("\"tags\":{");
    o.push_str(
        &tags.iter().map(|(k, v)| format!("{}:{}", json_str(k), v)).collect::<Vec<_>>().join(","),
    );
    o.push_str("},\"subs\":{");
    o.push_str(
        &subs
            .iter()
            .zip(&sub_counts)
            .map(|(s, v)| format!("{}:{}", json_str(s.name), v))
            .collect::<Vec<_>>()
            .join(","),
    );
    o.push_str("},\"samples\":[");
    o.push_str(&samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(","));
    o.push(']');
    if let Some((si, msg, notes, choices)) = &failure {
        let _ = write!(
            o,
            ",\"failure\":{{\"sub\":{},\"message\":{},\"notes\":{},\"index\":{},\"choices\":[{}]}}",
            json_str(subs[*si].name),
            json_str(msg),
            json_str(notes),
            index,
            choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(",")
        );
    }
    let _ = write!(o, ",\"rule\":{}}}", json_str(prop.rule));
    std::fs::write(&out, o).unwrap();
    let mut f = std::fs::File::create(format!("{out}.hashes")).unwrap();
    let bytes: Vec<u8> = distinct.iter().flat_map(|h| h.to_le_bytes()).collect();
    f.write_all(&bytes).unwrap();
    // A damaged heap must not turn into a crash at exit.
    unsafe { libc_exit(if failure.is_some() { 3 } else { 0 }) }
}

unsafe extern "C" {
    fn _exit(code: i32) -> !;
}

unsafe fn libc_exit(code: i32) -> ! {
    let _ = std::io::stdout().flush();
    unsafe { _exit(code) }
}

fn one(prop: &Property, args: &[String]) {
    let name = arg(args, "--sub").unwrap();
    let src = match arg(args, "--choices") {
        Some(mut c) => {
            if c == "-" {
                c = std::io::read_to_string(std::io::stdin()).unwrap();
            }
            Src::replay(c.trim().split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect())
        }
        None => Src::random(arg(args, "--case-seed").unwrap().parse().unwrap()),
    };
    let sub = prop.subs.iter().find(|s| s.name == name).expect("unknown sub-check");
    let mut cx = Ctx::new(src, true);
    if let Some(f) = arg(args, "--trace") {
        // Record the draws as they are made, so that they survive a crash.
        cx.src.trace = Some(std::fs::File::create(f).unwrap());
    }
    let r = run_case(sub.run, &mut cx);
    println!("SUB {name}");
    println!("NOTES {}", cx.notes.replace('\n', " "));
    println!(
        "CHOICES {}",
        cx.src.choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(",")
    );
    match r {
        Ok(()) => println!("RESULT ok"),
        Err(m) => {
            println!("RESULT fail {}", m.replace('\n', " "));
            unsafe { libc_exit(3) }
        }
    }
    unsafe { libc_exit(0) }
}
