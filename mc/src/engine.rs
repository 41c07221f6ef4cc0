//! Exhaustive enumeration of token sequences over real executions, in parallel, with evidence and replay.
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const HANG_SECS: u64 = 20;
const MAX_STATES_PER_WORKER: usize = 2_000_000;

thread_local! {
    pub static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("panic at {}: {}", loc, msg));
    }));
}

/// What one worker saw.
#[derive(Default)]
pub struct Stats {
    pub execs: u64,
    pub steps: u64,
    pub compared: u64,
    pub states: HashSet<u64>,
    pub outcomes: BTreeMap<String, u64>,
    pub known: BTreeMap<String, (u64, String)>,
    pub samples: Vec<String>,
    /// Set when replaying: executions describe every step.
    pub verbose: bool,
    pub trace: Vec<String>,
}

impl Stats {
    pub fn state<T: std::hash::Hash>(&mut self, t: &T) {
        if self.states.len() < MAX_STATES_PER_WORKER {
            use std::hash::Hasher;
            let mut h = std::collections::hash_map::DefaultHasher::new();
            t.hash(&mut h);
            self.states.insert(h.finish());
        }
    }
    pub fn outcome(&mut self, s: &str) {
        if let Some(v) = self.outcomes.get_mut(s) {
            *v += 1;
        } else {
            self.outcomes.insert(s.to_string(), 1);
        }
    }
    pub fn known(&mut self, id: &str, what: impl FnOnce() -> String) {
        if let Some(v) = self.known.get_mut(id) {
            v.0 += 1;
        } else {
            self.known.insert(id.to_string(), (1, what()));
        }
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            let s = f();
            self.trace.push(s);
        }
    }
    fn merge(&mut self, o: Stats) {
        self.execs += o.execs;
        self.steps += o.steps;
        self.compared += o.compared;
        if self.states.is_empty() {
            self.states = o.states;
        } else {
            self.states.extend(o.states);
        }
        for (k, v) in o.outcomes {
            *self.outcomes.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.known {
            let e = self.known.entry(k).or_insert((0, v.1));
            e.0 += v.0;
        }
        self.samples.extend(o.samples);
    }
}

/// One execution: how many tokens were consumed before it ended by itself.
pub type RunResult = Result<usize, String>;

pub trait Space: Sync {
    fn name(&self) -> String;
    fn configs(&self) -> usize;
    fn tokens(&self, cfg: usize) -> usize;
    fn max_depth(&self) -> usize;
    fn run(&self, cfg: usize, seq: &[u16], st: &mut Stats) -> RunResult;
    fn describe(&self, cfg: usize, seq: &[u16]) -> String;
    /// Depths below this are prefixes of deeper executions and checked there.
    fn min_depth(&self) -> usize {
        0
    }
}

/// Whether this is the second, single-threaded attempt at a failure that did not repeat (in the space named).
pub fn solo() -> bool {
    std::env::var_os("MC_SOLO").is_some()
}

pub struct Explorer {
    pub prop: &'static str,
    pub level: &'static str,
    pub tier: String,
    pub seed: u64,
    pub start: Instant,
    pub deadline: Instant,
    pub dir: PathBuf,
    pub total: Stats,
    pub spaces: Vec<String>,
    pub capped: Vec<String>,
    pub assumptions: Vec<String>,
    pub replay: Option<(String, usize, Vec<u16>)>,
    pub rule: String,
    pub replay_hit: bool,
    /// The known findings listed for this property.
    pub listed: Vec<String>,
    pub workers: usize,
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Slot {
    started: AtomicU64,
    what: Mutex<(usize, Vec<u16>)>,
}

impl Explorer {
    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
    /// `q` in the quick tier, `t` in the thorough one.
    /// (`mini` and `tiny` are for work on the checks themselves: one or two less where that is a depth.)
    pub fn pick(&self, q: usize, t: usize) -> usize {
        if self.thorough() {
            t
        } else if self.tier == "mini" && q > 2 {
            q - 1
        } else if self.tier == "tiny" && q > 2 {
            (q - 2).max(2)
        } else {
            q
        }
    }

    pub fn explore(&mut self, sp: &dyn Space) {
        if solo() && std::env::var("MC_SOLO").unwrap() != sp.name() {
            return;
        }
        if let Some((name, cfg, seq)) = self.replay.clone() {
            if name == sp.name() {
                self.replay_hit = true;
                let mut st = Stats { verbose: true, ..Default::default() };
                let r = guarded(sp, cfg, &seq, &mut st);
                println!("replay of {} [{}]: {}", self.prop, name, sp.describe(cfg, &seq));
                for t in &st.trace {
                    println!("  {}", t);
                }
                match r {
                    Ok(_) => println!("result: the property held on this execution"),
                    Err(e) => {
                        println!("result: {}", e);
                        crate::fsx::cleanup();
        std::process::exit(1);
                    }
                }
            }
            return;
        }
        let t0 = Instant::now();
        let (e0, s0) = (self.total.execs, self.total.steps);
        let mut done_depth: i64 = -1;
        let mut capped = false;
        for depth in sp.min_depth()..=sp.max_depth() {
            if Instant::now() >= self.deadline {
                capped = true;
                break;
            }
            if !self.depth(sp, depth) {
                capped = true;
                break;
            }
            done_depth = depth as i64;
        }
        let line = format!(
            "{}: {} start configurations, up to {} tokens, depth {} of {} complete, {} executions, {} steps, {:.1}s",
            sp.name(),
            sp.configs(),
            (0..sp.configs()).map(|c| sp.tokens(c)).max().unwrap_or(0),
            done_depth,
            sp.max_depth(),
            self.total.execs - e0,
            self.total.steps - s0,
            t0.elapsed().as_secs_f64()
        );
        println!("{}", line);
        if capped {
            self.capped.push(format!("{}: time cap reached, complete to depth {}", sp.name(), done_depth));
        }
        self.spaces.push(line);
    }

    fn depth(&mut self, sp: &dyn Space, depth: usize) -> bool {
        // tasks: (cfg, first c tokens)
        let mut c = 0;
        loop {
            let n: f64 = (0..sp.configs()).map(|k| (sp.tokens(k) as f64).powi(c as i32)).sum();
            if c >= depth || n >= 512.0 {
                break;
            }
            c += 1;
        }
        let mut tasks: Vec<(usize, Vec<u16>)> = Vec::new();
        for cfg in 0..sp.configs() {
            let n = sp.tokens(cfg);
            if n == 0 && depth > 0 {
                continue;
            }
            let mut p = vec![0u16; c];
            loop {
                tasks.push((cfg, p.clone()));
                let mut i = c;
                let mut carry = true;
                while carry && i > 0 {
                    i -= 1;
                    p[i] += 1;
                    if (p[i] as usize) < n {
                        carry = false;
                    } else {
                        p[i] = 0;
                    }
                }
                if carry {
                    break;
                }
            }
        }
        let next = AtomicUsize::new(0);
        let stop = AtomicBool::new(false);
        let timed_out = AtomicBool::new(false);
        let found: Mutex<Option<(usize, Vec<u16>, String)>> = Mutex::new(None);
        let slots: Vec<Slot> =
            (0..self.workers).map(|_| Slot { started: AtomicU64::new(0), what: Mutex::new((0, vec![])) }).collect();
        let finished = AtomicUsize::new(0);
        let deadline = self.deadline;
        let verbose_samples = self.total.samples.len() < 6;
        let merged = std::thread::scope(|s| {
            let mut hs = vec![];
            for w in 0..self.workers {
                let (next, stop, timed_out, found, slots, tasks, finished) =
                    (&next, &stop, &timed_out, &found, &slots, &tasks, &finished);
                hs.push(s.spawn(move || {
                    let mut st = Stats::default();
                    let mut runs = 0u64;
                    'tasks: loop {
                        if stop.load(Ordering::Relaxed) {
                            break;
                        }
                        let t = next.fetch_add(1, Ordering::Relaxed);
                        if t >= tasks.len() {
                            break;
                        }
                        let (cfg, prefix) = &tasks[t];
                        let n = sp.tokens(*cfg);
                        let mut seq = vec![0u16; depth];
                        seq[..prefix.len()].copy_from_slice(prefix);
                        let mut k = 0u64;
                        loop {
                            k += 1;
                            if k & 63 == 0 && Instant::now() >= deadline {
                                timed_out.store(true, Ordering::Relaxed);
                                stop.store(true, Ordering::Relaxed);
                                break 'tasks;
                            }
                            if stop.load(Ordering::Relaxed) {
                                break 'tasks;
                            }
                            {
                                let mut g = slots[w].what.lock().unwrap();
                                g.0 = *cfg;
                                g.1.clear();
                                g.1.extend_from_slice(&seq);
                            }
                            runs += 1;
                            slots[w].started.store(runs, Ordering::Relaxed);
                            let r = guarded(sp, *cfg, &seq, &mut st);
                            slots[w].started.store(0, Ordering::Relaxed);
                            st.execs += 1;
                            if verbose_samples && st.samples.is_empty() && depth == sp.max_depth() && t == tasks.len() / 2 {
                                st.samples.push(format!("[{}] {}", sp.name(), sp.describe(*cfg, &seq)));
                            }
                            let used = match r {
                                Ok(u) => u,
                                Err(e) => {
                                    let mut g = found.lock().unwrap();
                                    let better = match &*g {
                                        None => true,
                                        Some((c0, s0, _)) => (*cfg, &seq) < (*c0, s0),
                                    };
                                    if better {
                                        *g = Some((*cfg, seq.clone(), e));
                                    }
                                    stop.store(true, Ordering::Relaxed);
                                    break 'tasks;
                                }
                            };
                            // advance to the next sequence that differs within the consumed part
                            let mut i = used.min(depth);
                            for x in seq.iter_mut().skip(i) {
                                *x = 0;
                            }
                            let mut carry = true;
                            while carry && i > prefix.len() {
                                i -= 1;
                                seq[i] += 1;
                                if (seq[i] as usize) < n {
                                    carry = false;
                                } else {
                                    seq[i] = 0;
                                }
                            }
                            if carry {
                                break;
                            }
                        }
                    }
                    finished.fetch_add(1, Ordering::Relaxed);
                    st
                }));
            }
            // watchdog: counts its own beats, so that time in which the machine stood still does not count
            let mut seen = vec![(0u64, Duration::ZERO, false); slots.len()];
            let mut last = Instant::now();
            while finished.load(Ordering::Relaxed) < self.workers {
                std::thread::sleep(Duration::from_millis(2));
                let beat = last.elapsed().min(Duration::from_millis(100));
                last = Instant::now();
                for (sl, (run, time, excused)) in slots.iter().zip(&mut seen) {
                    let b = sl.started.load(Ordering::Relaxed);
                    if b == 0 || b != *run {
                        (*run, *time, *excused) = (b, Duration::ZERO, false);
                        continue;
                    }
                    *time += beat;
                    let secs = time.as_secs();
                    if secs < HANG_SECS || (*excused && secs < 8 * HANG_SECS) {
                        continue;
                    }
                    let g = sl.what.lock().unwrap();
                    let (cfg, seq) = (g.0, g.1.clone());
                    drop(g);
                    // a processor may have been taken away: does it hang in a process of its own, too?
                    if *excused || self.hangs_alone(sp, cfg, &seq) {
                        // The worker cannot be stopped: report and leave.
                        self.violation(sp, cfg, &seq, &format!("a key press or operation was still running after {} s", secs));
                    }
                    eprintln!("slow once: {}", sp.describe(cfg, &seq));
                    *excused = true;
                    last = Instant::now();
                }
            }
            let mut m = Stats::default();
            for h in hs {
                m.merge(h.join().expect("worker"));
            }
            m
        });
        self.total.merge(merged);
        if let Some((cfg, seq, msg)) = found.into_inner().unwrap() {
            // Same execution, same failure: the harness owns every choice.
            let mut st = Stats::default();
            let again = guarded(sp, cfg, &seq, &mut st);
            if again.as_ref().err() == Some(&msg) {
                let (seq, msg) = shrink(sp, cfg, seq, msg);
                self.violation(sp, cfg, &seq, &msg);
            }
            // The code keeps something from one execution to the next, and other workers took part in it: once more,
            // alone, in a new process, so that what came before is the same every time.
            eprintln!("the failure did not repeat: {:?} then {:?}", msg, again);
            if solo() {
                let msg = format!("{}\n(this depends on what was executed before it in the same process; by itself: {:?})", msg, again);
                self.violation(sp, cfg, &seq, &msg);
            }
            crate::fsx::cleanup();
            use std::os::unix::process::CommandExt;
            let e = std::process::Command::new("/proc/self/exe").args(std::env::args().skip(1)).env("MC_SOLO", sp.name()).exec();
            eprintln!("cannot start again: {}", e);
            std::process::exit(3);
        }
        !timed_out.load(Ordering::Relaxed)
    }

    /// A failure in what is done around the single executions.
    pub fn failed_outside(&self, what: &str) -> ! {
        println!("{}: violated in what the executions start from\n  {}", self.prop, what);
        let rdir = self.dir.join("evidence").join("replays");
        let _ = std::fs::create_dir_all(&rdir);
        let path = rdir.join(format!("{}.replay", self.prop));
        let _ = std::fs::write(&path, format!("prop={}\ntier={}\nspace=(none: the check fails as a whole)\n# {}\n", self.prop, self.tier, what));
        self.write_evidence(1);
        println!("VIOLATION property={} replay={}", self.prop, path.display());
        std::process::exit(1);
    }

    fn hangs_alone(&self, sp: &dyn Space, cfg: usize, seq: &[u16]) -> bool {
        if self.replay.is_some() {
            return true;
        }
        let path = std::env::temp_dir().join(format!("mc-hang-{}.replay", std::process::id()));
        let toks: Vec<String> = seq.iter().map(|t| t.to_string()).collect();
        let text = format!("prop={}\ntier={}\nspace={}\ncfg={}\nseq={}\n", self.prop, self.tier, sp.name(), cfg, toks.join(","));
        if std::fs::write(&path, text).is_err() {
            return false;
        }
        use std::process::{Command, Stdio};
        let child = Command::new("/proc/self/exe").arg("replay").arg(&path).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).spawn();
        let mut hangs = false;
        if let Ok(mut c) = child {
            // its preparations take some time, too
            let mut left = 2 * HANG_SECS * 1000;
            hangs = loop {
                match c.try_wait() {
                    Ok(Some(s)) => break s.code() == Some(1),
                    Ok(None) if left > 0 => {}
                    _ => {
                        let _ = c.kill();
                        let _ = c.wait();
                        break true;
                    }
                }
                let t = Instant::now();
                std::thread::sleep(Duration::from_millis(20));
                left = left.saturating_sub((t.elapsed().as_millis() as u64).min(100));
            };
        }
        let _ = std::fs::remove_file(&path);
        hangs
    }

    pub fn violation(&self, sp: &dyn Space, cfg: usize, seq: &[u16], msg: &str) -> ! {
        let what = sp.describe(cfg, seq);
        println!("{}: violated after {}", self.prop, what);
        println!("  {}", msg.replace('\n', "\n  "));
        let rdir = self.dir.join("evidence").join("replays");
        let _ = std::fs::create_dir_all(&rdir);
        let path = rdir.join(format!("{}.replay", self.prop));
        let toks: Vec<String> = seq.iter().map(|t| t.to_string()).collect();
        let _ = std::fs::write(
            &path,
            format!(
                "prop={}\ntier={}\nspace={}\ncfg={}\nseq={}\n# {}\n# {}\n",
                self.prop,
                self.tier,
                sp.name(),
                cfg,
                toks.join(","),
                what,
                msg.replace('\n', "\n# ")
            ),
        );
        self.write_evidence(1);
        println!("VIOLATION property={} replay={}", self.prop, path.display());
        use std::io::Write;
        let _ = std::io::stdout().flush();
        crate::fsx::cleanup();
        std::process::exit(1);
    }

    pub fn write_evidence(&self, violations: u64) {
        let t = &self.total;
        let mut o = String::new();
        let _ = write!(
            o,
            "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n \"coverage\": {{\n",
            jstr(self.prop),
            jstr(&self.tier),
            self.seed,
            jstr(self.level)
        );
        let mut samples = t.samples.clone();
        samples.truncate(8);
        if samples.is_empty() {
            samples.push("(none: a violation stopped the run before a sample was taken)".into());
        }
        let smp: Vec<String> = samples.iter().map(|s| jstr(s)).collect();
        let _ = writeln!(o, "  \"states\": {},", t.states.len());
        let _ = writeln!(o, "  \"transitions\": {},", t.steps);
        let _ = writeln!(o, "  \"traces_validated_against_impl\": {},", t.execs);
        let _ = writeln!(o, "  \"evaluations\": {},", t.execs);
        let _ = writeln!(o, "  \"distinct_nontrivial\": {},", t.states.len());
        let _ = writeln!(o, "  \"rule\": {},", jstr(&self.rule));
        let oc: Vec<String> = t.outcomes.iter().map(|(k, v)| format!("{}: {}", jstr(k), v)).collect();
        let _ = writeln!(o, "  \"outcomes\": {{{}}},", oc.join(", "));
        let kn: Vec<String> = t.known.iter().map(|(k, v)| format!("{}: {}", jstr(k), v.0)).collect();
        let _ = writeln!(o, "  \"known_findings_hit\": {{{}}},", kn.join(", "));
        let spc: Vec<String> = self.spaces.iter().map(|s| jstr(s)).collect();
        let _ = writeln!(o, "  \"spaces\": [{}],", spc.join(",\n   "));
        let cp: Vec<String> = self.capped.iter().map(|s| jstr(s)).collect();
        let _ = writeln!(o, "  \"capped\": [{}],", cp.join(", "));
        let _ = writeln!(o, "  \"exhaustive\": {},", self.capped.is_empty() && violations == 0);
        let _ = writeln!(o, "  \"samples\": [{}]\n }},", smp.join(",\n   "));
        let asm: Vec<String> = self.assumptions.iter().map(|s| jstr(s)).collect();
        let _ = writeln!(o, " \"assumptions\": [{}],", asm.join(",\n  "));
        let _ = writeln!(o, " \"wall_s\": {:.2},", self.start.elapsed().as_secs_f64());
        let _ = writeln!(o, " \"violations\": {}\n}}", violations);
        let dir = self.dir.join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        std::fs::write(dir.join(format!("{}.json", self.prop)), o).expect("evidence file");
    }
}

pub fn guarded(sp: &dyn Space, cfg: usize, seq: &[u16], st: &mut Stats) -> RunResult {
    match catch_unwind(AssertUnwindSafe(|| sp.run(cfg, seq, st))) {
        Ok(r) => r,
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow().clone())),
    }
}

/// Leaves out tokens as long as the execution still fails.
fn shrink(sp: &dyn Space, cfg: usize, mut seq: Vec<u16>, mut msg: String) -> (Vec<u16>, String) {
    let t0 = Instant::now();
    let mut changed = true;
    while changed && t0.elapsed() < Duration::from_secs(20) {
        changed = false;
        for i in 0..seq.len() {
            let mut s = seq.clone();
            s.remove(i);
            let mut st = Stats::default();
            if let Err(m) = guarded(sp, cfg, &s, &mut st) {
                seq = s;
                msg = m;
                changed = true;
                break;
            }
        }
    }
    (seq, msg)
}
