//! A small explicit-state exploration engine.
//!
//! A check is a list of jobs; a job is a finite, numbered set of items (usually one first operand,
//! one string prefix, ...), each of which enumerates all states and transitions below it. Jobs are
//! processed in order (simplest first) by all worker threads; nothing is sampled. A run stops at
//! the first violation (smallest job, then smallest item among those found) and writes a replay
//! file.

use std::cell::RefCell;
use std::io::Write;
use std::panic::{self, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub type ItemFn = Box<dyn Fn(u64, &mut Ctx) + Send + Sync>;

pub struct Job {
    pub name: String,
    pub items: u64,
    pub exhaustive: bool,
    /// What the job enumerates.
    pub what: String,
    pub f: ItemFn,
}

/// What is being executed, for attribution of panics and hangs.
pub struct Current {
    words: [AtomicU64; 8],
    text: Mutex<String>,
    op: AtomicUsize,
    /// start of the current item in ms since the run started; 0 = idle
    since: AtomicU64,
    job: AtomicUsize,
    item: AtomicU64,
    /// number of calls announced so far
    ticks: AtomicU64,
}

pub struct Ctx {
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    outcomes: Vec<u64>,
    pub violation: Option<String>,
    pub samples: Vec<String>,
    pub want_sample: bool,
    pub verbose: bool,
    pub tier: Tier,
    cur: Arc<Current>,
}

static NONE: &str = "";
const OUT_BITS: u32 = 20;

impl Ctx {
    fn new(tier: Tier, verbose: bool) -> Ctx {
        Ctx {
            states: 0,
            transitions: 0,
            traces: 0,
            outcomes: vec![0; 1 << (OUT_BITS - 6)],
            violation: None,
            samples: vec![],
            want_sample: false,
            verbose,
            tier,
            cur: Arc::new(Current {
                words: Default::default(),
                text: Mutex::default(),
                op: AtomicUsize::new(&NONE as *const _ as usize),
                since: AtomicU64::new(0),
                job: AtomicUsize::new(0),
                item: AtomicU64::new(0),
                ticks: AtomicU64::new(0),
            }),
        }
    }
    /// Record which call is about to be made on the implementation.
    #[inline(always)]
    pub fn at(&mut self, op: &'static &'static str, a: u128, b: u128, c: u128, x: u64) {
        let w = &self.cur.words;
        w[0].store(a as u64, Relaxed);
        w[1].store((a >> 64) as u64, Relaxed);
        w[2].store(b as u64, Relaxed);
        w[3].store((b >> 64) as u64, Relaxed);
        w[4].store(c as u64, Relaxed);
        w[5].store((c >> 64) as u64, Relaxed);
        w[6].store(x, Relaxed);
        self.cur.op.store(op as *const &'static str as usize, Relaxed);
        self.cur.ticks.store(self.cur.ticks.load(Relaxed) + 1, Relaxed);
    }
    /// As `at`, for a string operand.
    pub fn at_text(&mut self, op: &'static &'static str, s: &str, x: u64) {
        {
            let mut t = self.cur.text.lock().unwrap();
            t.clear();
            t.push_str(s);
        }
        self.at(op, 0, 0, 0, x);
    }
    pub fn outcome(&mut self, h: u128) {
        let x = (h as u64 ^ (h >> 64) as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> (64 - OUT_BITS);
        self.outcomes[(x >> 6) as usize] |= 1 << (x & 63);
    }
    pub fn failed(&self) -> bool {
        self.violation.is_some()
    }
    /// Report a violation (the first one of an item is kept).
    #[cold]
    pub fn fail(&mut self, msg: impl Into<String>) {
        let m = msg.into();
        if self.verbose {
            println!("  {}", m);
        }
        if self.violation.is_none() {
            self.violation = Some(m);
        }
    }
    #[cold]
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.want_sample && self.samples.len() < 2 {
            let s = s();
            self.samples.push(s);
        }
    }
}

fn describe(cur: &Current, jobs: &[Job]) -> String {
    let w: Vec<u64> = cur.words.iter().map(|x| x.load(Relaxed)).collect();
    // Only ever holds a pointer to a `&'static &'static str`.
    let op = unsafe { *(cur.op.load(Relaxed) as *const &'static str) };
    let text = match cur.text.try_lock() {
        Ok(t) if !t.is_empty() => {
            if t.len() > 400 {
                let (a, b): (String, Vec<char>) = (t.chars().take(150).collect(), t.chars().rev().take(150).collect());
                format!(" text={:?}...{:?} ({} bytes)", a, b.into_iter().rev().collect::<String>(), t.len())
            } else {
                format!(" text={:?}", *t)
            }
        }
        _ => String::new(),
    };
    format!(
        "{}{} a={:#x} b={:#x} c={:#x} x={} (job {:?} item {})",
        op,
        text,
        w[0] as u128 | (w[1] as u128) << 64,
        w[2] as u128 | (w[3] as u128) << 64,
        w[4] as u128 | (w[5] as u128) << 64,
        w[6],
        jobs[cur.job.load(Relaxed)].name,
        cur.item.load(Relaxed)
    )
}

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub struct Check {
    pub id: &'static str,
    pub jobs: Vec<Job>,
    pub tier: Tier,
    pub assumptions: Vec<String>,
    pub bounds: Vec<String>,
    /// Comparisons of the reference model with an independent implementation (host FPU, std).
    pub model_cross_checks: u64,
    only: Option<String>,
}

impl Check {
    pub fn new(id: &'static str) -> Check {
        let t = std::env::var("VERIF_TIER").unwrap_or_default();
        let mut tier = if t == "thorough" { Tier::Thorough } else { Tier::Quick };
        let args: Vec<String> = std::env::args().collect();
        if args.iter().any(|a| a == "--thorough") {
            tier = Tier::Thorough;
        }
        if args.iter().any(|a| a == "--quick") {
            tier = Tier::Quick;
        }
        // A replay knows the tier it was recorded in.
        if let Some(i) = args.iter().position(|a| a == "--replay") {
            if let Ok(s) = std::fs::read_to_string(&args[i + 1]) {
                tier = if s.lines().any(|l| l == "tier: thorough") { Tier::Thorough } else { Tier::Quick };
            }
        }
        let only = args.iter().position(|a| a == "--only").map(|i| args[i + 1].clone());
        Check { id, jobs: vec![], tier, assumptions: vec![], bounds: vec![], model_cross_checks: 0, only }
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    pub fn job(
        &mut self,
        name: impl Into<String>,
        exhaustive: bool,
        what: impl Into<String>,
        items: u64,
        f: impl Fn(u64, &mut Ctx) + Send + Sync + 'static,
    ) {
        self.jobs.push(Job { name: name.into(), items, exhaustive, what: what.into(), f: Box::new(f) });
    }

    pub fn run(&mut self) -> ! {
        let me = std::mem::replace(self, Check::new(self.id));
        me.go()
    }

    fn go(self) -> ! {
        let t0 = Instant::now();
        let id = self.id;
        // Panics of the code under test are verdicts; panics of the model or harness are errors.
        panic::set_hook(Box::new(|i| {
            let loc = i.location().map(|l| format!("{}:{}:{}", l.file(), l.line(), l.column())).unwrap_or_default();
            let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = i.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "?".into()
            };
            PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
        }));
        let args: Vec<String> = std::env::args().collect();
        if let Some(i) = args.iter().position(|a| a == "--replay") {
            self.replay(&args[i + 1]);
        }
        let hang: u64 = std::env::var("VERIF_HANG_S").ok().and_then(|s| s.parse().ok()).unwrap_or(match self.tier {
            Tier::Quick => 60,
            Tier::Thorough => 300,
        });
        let cap: u64 = std::env::var("VERIF_CAP_S").ok().and_then(|s| s.parse().ok()).unwrap_or(match self.tier {
            Tier::Quick => 420,
            Tier::Thorough => 4 * 3600,
        });
        let nthreads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8);
        let me = Arc::new(self);
        let next = Arc::new(Mutex::new((0usize, 0u64))); // job, item
        let stop = Arc::new(AtomicBool::new(false));
        let capped = Arc::new(AtomicBool::new(false));
        let found: Arc<Mutex<Vec<(usize, u64, String)>>> = Arc::default();
        let errors: Arc<Mutex<Vec<String>>> = Arc::default();
        let done: Arc<Vec<AtomicU64>> = Arc::new(me.jobs.iter().map(|_| AtomicU64::new(0)).collect());
        let busy: Arc<Vec<AtomicU64>> = Arc::new(me.jobs.iter().map(|_| AtomicU64::new(0)).collect());
        let mut handles = vec![];
        let mut currents = vec![];
        for _ in 0..nthreads {
            let mut ctx = Ctx::new(me.tier, false);
            currents.push(ctx.cur.clone());
            let (me, next, stop, capped, found, errors, done, busy) = (
                me.clone(),
                next.clone(),
                stop.clone(),
                capped.clone(),
                found.clone(),
                errors.clone(),
                done.clone(),
                busy.clone(),
            );
            handles.push(
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn(move || {
                        loop {
                            if stop.load(Relaxed) {
                                break;
                            }
                            if t0.elapsed().as_secs() >= cap {
                                capped.store(true, Relaxed);
                                break;
                            }
                            let (j, i) = {
                                let mut n = next.lock().unwrap();
                                while n.0 < me.jobs.len()
                                    && (n.1 >= me.jobs[n.0].items
                                        || me.only.as_ref().map_or(false, |o| !me.jobs[n.0].name.contains(o.as_str())))
                                {
                                    *n = (n.0 + 1, 0);
                                }
                                if n.0 >= me.jobs.len() {
                                    break;
                                }
                                let r = *n;
                                n.1 += 1;
                                r
                            };
                            let job = &me.jobs[j];
                            ctx.want_sample = i == job.items / 2 && ctx.samples.len() < 40;
                            let nsam = ctx.samples.len();
                            ctx.cur.job.store(j, Relaxed);
                            ctx.cur.item.store(i, Relaxed);
                            ctx.cur.since.store(t0.elapsed().as_millis() as u64 + 1, Relaxed);
                            let ti = Instant::now();
                            let saved = std::mem::take(&mut ctx.samples);
                            let r = panic::catch_unwind(AssertUnwindSafe(|| (job.f)(i, &mut ctx)));
                            busy[j].fetch_add(ti.elapsed().as_micros() as u64, Relaxed);
                            let mut sam = saved;
                            sam.extend(ctx.samples.drain(..).map(|s| format!("{}: {}", job.name, s)));
                            ctx.samples = sam;
                            let _ = nsam;
                            ctx.cur.since.store(0, Relaxed);
                            if r.is_err() {
                                let (msg, loc) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
                                let d = describe(&ctx.cur, &me.jobs);
                                if loc.starts_with("checks/") || loc.starts_with("model/") {
                                    errors.lock().unwrap().push(format!("{} at {} during {}", msg, loc, d));
                                    stop.store(true, Relaxed);
                                } else {
                                    ctx.violation = Some(format!("panic in the implementation: {} at {} during {}", msg, loc, d));
                                }
                            }
                            if let Some(v) = ctx.violation.take() {
                                found.lock().unwrap().push((j, i, v));
                                stop.store(true, Relaxed);
                            }
                            done[j].fetch_add(1, Relaxed);
                        }
                        ctx
                    })
                    .unwrap(),
            );
        }
        // Watchdog: a single call that does not return for a long time is a hang of the implementation
        // (calls take microseconds to milliseconds).
        {
            let me = me.clone();
            let stop = stop.clone();
            std::thread::spawn(move || {
                let mut last: Vec<(u64, Instant)> = currents.iter().map(|_| (!0, Instant::now())).collect();
                loop {
                    std::thread::sleep(Duration::from_millis(500));
                    for (c, l) in currents.iter().zip(&mut last) {
                        let busy = c.since.load(Relaxed) != 0;
                        let t = c.ticks.load(Relaxed);
                        if !busy || t != l.0 {
                            *l = (t, Instant::now());
                        } else if !stop.load(Relaxed) && l.1.elapsed().as_secs() >= hang {
                            let d = describe(c, &me.jobs);
                            let msg = format!("no termination within {} s during {}", hang, d);
                            let path = write_replay(me.id, me.tier, &me.jobs[c.job.load(Relaxed)].name, c.item.load(Relaxed), &msg);
                            println!("{}", msg);
                            println!("VIOLATION property={} replay={}", me.id, path);
                            let _ = std::io::stdout().flush();
                            std::process::exit(1);
                        }
                    }
                }
            });
        }
        let mut tot = Ctx::new(me.tier, false);
        for h in handles {
            let c = h.join().expect("worker");
            tot.states += c.states;
            tot.transitions += c.transitions;
            tot.traces += c.traces;
            for (a, b) in tot.outcomes.iter_mut().zip(&c.outcomes) {
                *a |= b;
            }
            tot.samples.extend(c.samples);
        }
        tot.samples.sort();
        tot.samples.truncate(24);
        let wall = t0.elapsed().as_secs_f64();
        let outcomes: u64 = tot.outcomes.iter().map(|x| x.count_ones() as u64).sum();
        let mut found = found.lock().unwrap().clone();
        found.sort();
        let complete = !capped.load(Relaxed) && found.is_empty() && me.only.is_none();
        let errs = errors.lock().unwrap().clone();

        // Evidence
        let mut js = String::new();
        let jobs: Vec<String> = me
            .jobs
            .iter()
            .enumerate()
            .map(|(j, b)| {
                format!(
                    "{{\"job\":{},\"explores\":{},\"items\":{},\"items_done\":{},\"space_exhausted\":{},\"cpu_s\":{:.2}}}",
                    q(&b.name),
                    q(&b.what),
                    b.items,
                    done[j].load(Relaxed),
                    b.exhaustive && done[j].load(Relaxed) == b.items,
                    busy[j].load(Relaxed) as f64 / 1e6
                )
            })
            .collect();
        js += &format!(
            "{{\n\"property\":{},\n\"tier\":{},\n\"seed\":{},\n\"level\":\"model_checking\",\n\"coverage\":{{\n",
            q(id),
            q(if me.tier == Tier::Quick { "quick" } else { "thorough" }),
            std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1)
        );
        js += &format!("\"states\":{},\n\"transitions\":{},\n\"traces_validated_against_impl\":{},\n", tot.states, tot.transitions, tot.traces);
        js += &format!("\"distinct_outcomes_lower_bound\":{},\n\"model_cross_checks\":{},\n", outcomes, me.model_cross_checks);
        js += &format!("\"exhaustive\":{},\n", complete);
        js += &format!("\"rule\":{},\n", q("states: distinct operand tuples / strings / values explored (initial states of the trace); transitions: calls of the real code whose result was compared with the model; traces: complete call sequences (all rounding modes of one tuple and operation, or one operation history) that agreed step by step. exhaustive: every job enumerated its stated finite space completely; bounds per job below."));
        js += &format!("\"wall_cap_hit\":{},\n", capped.load(Relaxed));
        js += &format!("\"bounds\":[{}],\n", me.bounds.iter().map(|s| q(s)).collect::<Vec<_>>().join(","));
        js += &format!("\"jobs\":[\n{}\n],\n", jobs.join(",\n"));
        js += &format!("\"samples\":[\n{}\n]\n}},\n", tot.samples.iter().map(|s| q(s)).collect::<Vec<_>>().join(",\n"));
        js += &format!(
            "\"assumptions\":[{}],\n\"wall_s\":{:.3},\n\"violations\":{}\n}}\n",
            me.assumptions.iter().map(|s| q(s)).collect::<Vec<_>>().join(","),
            wall,
            found.len()
        );
        if me.only.is_none() {
            let _ = std::fs::create_dir_all("/verif/evidence");
            std::fs::write(format!("/verif/evidence/{}.json", id), js).expect("write evidence");
        }
        println!(
            "{}: {} jobs, states={} transitions={} traces={} outcomes>={} wall={:.1}s{}",
            id,
            me.jobs.len(),
            tot.states,
            tot.transitions,
            tot.traces,
            outcomes,
            wall,
            if capped.load(Relaxed) { " (wall cap hit)" } else { "" }
        );
        if std::env::var("VERIF_JOBS").is_ok() {
            for (j, b) in me.jobs.iter().enumerate() {
                println!("  {:8.2}s cpu {:>9}/{:<9} {}", busy[j].load(Relaxed) as f64 / 1e6, done[j].load(Relaxed), b.items, b.name);
            }
        }
        if !errs.is_empty() {
            eprintln!("harness error: {}", errs[0]);
            std::process::exit(2);
        }
        if let Some((j, i, msg)) = found.first() {
            let path = write_replay(id, me.tier, &me.jobs[*j].name, *i, msg);
            println!("{}", msg);
            println!("VIOLATION property={} replay={}", id, path);
            let _ = std::io::stdout().flush();
            std::process::exit(1);
        }
        std::process::exit(0);
    }

    fn replay(&self, path: &str) -> ! {
        let s = std::fs::read_to_string(path).expect("replay file");
        let get = |k: &str| s.lines().find_map(|l| l.strip_prefix(k)).map(|v| v.trim().to_string());
        let name = get("job:").expect("job");
        let item: u64 = get("item:").expect("item").parse().unwrap();
        let job = self.jobs.iter().find(|j| j.name == name).expect("no such job");
        let mut ctx = Ctx::new(self.tier, true);
        let r = panic::catch_unwind(AssertUnwindSafe(|| (job.f)(item, &mut ctx)));
        if r.is_err() {
            let (msg, loc) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            println!("panic: {} at {} during {}", msg, loc, describe(&ctx.cur, &self.jobs));
            if !(loc.starts_with("checks/") || loc.starts_with("model/")) {
                ctx.violation = Some(msg);
            }
        }
        match ctx.violation {
            Some(_) => {
                println!("VIOLATION property={} replay={}", self.id, path);
                std::process::exit(1)
            }
            None => {
                println!("no violation on replay ({} states, {} transitions)", ctx.states, ctx.transitions);
                std::process::exit(0)
            }
        }
    }
}

fn write_replay(id: &str, tier: Tier, job: &str, item: u64, msg: &str) -> String {
    let _ = std::fs::create_dir_all("/verif/replay");
    let path = format!("/verif/replay/{}.txt", id);
    let _ = std::fs::write(
        &path,
        format!(
            "property: {}\ntier: {}\njob: {}\nitem: {}\ncase: {}\nrerun: /verif/check.sh {} --replay {}\n",
            id,
            if tier == Tier::Quick { "quick" } else { "thorough" },
            job,
            item,
            msg,
            id,
            path
        ),
    );
    path
}

/// JSON string.
pub fn q(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}
