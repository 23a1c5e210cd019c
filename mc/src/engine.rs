//! The exploration engine: runs families of cases exhaustively on all cores, catches panics,
//! notices hangs and (through per-thread journal slots) lets the runner attribute crashes.
//!
//! Exit codes: 0 all cases held, 1 a case failed (described in the output file), 3 a work item did
//! not finish (named in the output file). Anything else is a crash, which the runner reproduces
//! with `--item` before it believes it.

use crate::sys::{self, _exit, Clock, File};
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

/// Runs `f`; a panic becomes `Err(message)`.
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let at = info
            .location()
            .map(|l| format!(" at {}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg}{at}"));
    }));
}

static CASE_LOG: Mutex<Option<File>> = Mutex::new(None);
static LOGGING: AtomicBool = AtomicBool::new(false);
/// The operations whose failure breaks the property under check (empty: all of them).
static BLAME: Mutex<Vec<String>> = Mutex::new(Vec::new());

fn log_line(line: &str) {
    if let Some(f) = CASE_LOG.lock().unwrap().as_mut() {
        f.set_len(0);
        f.write_at(line.as_bytes(), 0);
    }
}

/// Notes (when reproducing a crash) that operation `op` is about to run outside any case.
#[inline]
pub fn note(op: &str, desc: impl FnOnce() -> String) {
    if LOGGING.load(Relaxed) {
        let blame = BLAME.lock().unwrap();
        let ours = blame.is_empty() || blame.iter().any(|b| b == op);
        log_line(&format!("{}\t{}", if ours { "B" } else { "N" }, desc()));
    }
}

/// Notes that what runs next is the harness's own code.
#[inline]
pub fn note_none() {
    if LOGGING.load(Relaxed) {
        log_line("N\tharness code");
    }
}

#[derive(Default, Clone)]
pub struct Counters {
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
}

pub struct Ctx {
    pub c: Counters,
    sample: Option<String>,
    viol: Option<(String, String)>,
    pub thorough: bool,
}

impl Ctx {
    /// One case: `exec` drives the real code and compares it with the model. A panic that `exec`
    /// does not handle itself is a violation.
    #[inline]
    pub fn case(
        &mut self,
        desc: impl Fn() -> String,
        exec: impl FnOnce(&mut Counters) -> Result<(), String>,
    ) {
        if self.viol.is_some() {
            return;
        }
        if LOGGING.load(Relaxed) {
            log_line(&format!("B\t{}", desc()));
        }
        self.c.traces += 1;
        let c = &mut self.c;
        match catch(|| exec(c)) {
            Ok(Ok(())) => {
                if self.sample.is_none() {
                    self.sample = Some(desc());
                }
            }
            Ok(Err(e)) => self.viol = Some((desc(), e)),
            Err(p) => self.viol = Some((desc(), format!("panicked: {p}"))),
        }
        note_none();
    }
    pub fn failed(&self) -> bool {
        self.viol.is_some()
    }
}

struct Slot {
    /// Milliseconds since start when the current item began; 0 when idle.
    since: AtomicU64,
    item: AtomicU64,
}

static SLOTS: [Slot; 65] = {
    #[allow(clippy::declare_interior_mutable_const)]
    const S: Slot = Slot {
        since: AtomicU64::new(0),
        item: AtomicU64::new(0),
    };
    [S; 65]
};
static FAMILY: Mutex<String> = Mutex::new(String::new());

pub struct Run {
    start: Clock,
    out: String,
    journal: Option<File>,
    only: Option<(String, usize)>,
    threads: usize,
    shard: (usize, usize),
    pub thorough: bool,
    families: Vec<String>,
    total: Counters,
    samples: Vec<String>,
    violation: Option<(String, usize, String, String)>,
    capped: Vec<String>,
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

impl Run {
    /// `blame`: operations (as given to `note`) whose crash or hang outside a case breaks the
    /// property; empty for all.
    pub fn new(blame: &[&str]) -> Run {
        install_hook();
        let mut out = String::new();
        let mut journal = None;
        let mut only = None;
        let mut thorough = false;
        let mut threads = sys::threads();
        let mut shard = (0, 1);
        let mut hang_s = 100u64;
        let mut args = sys::args().into_iter();
        while let Some(a) = args.next() {
            let mut val = || args.next().expect("argument value");
            match a.as_str() {
                "--out" => out = val(),
                "--journal" => journal = Some(File::create(&val())),
                "--thorough" => thorough = true,
                "--threads" => threads = val().parse().unwrap(),
                "--shard" => {
                    let k = val().parse().unwrap();
                    shard = (k, val().parse().unwrap());
                }
                "--hang" => hang_s = val().parse().unwrap(),
                "--item" => {
                    let f = val();
                    only = Some((f, val().parse().unwrap()));
                }
                "--cases" => {
                    *CASE_LOG.lock().unwrap() = Some(File::create(&val()));
                }
                _ => panic!("unknown argument {a}"),
            }
        }
        *BLAME.lock().unwrap() = blame.iter().map(|s| s.to_string()).collect();
        let start = Clock::now();
        {
            let out = out.clone();
            sys::watch(move || {
                let now = start.ms() + 1;
                for s in SLOTS.iter() {
                    let since = s.since.load(SeqCst);
                    if since != 0 && now > since + hang_s * 1000 {
                        let fam = FAMILY.lock().unwrap().clone();
                        let item = s.item.load(SeqCst);
                        let text = format!(
                            "{{\"hang\":{{\"family\":{},\"item\":{}}}}}",
                            json_str(&fam),
                            item
                        );
                        sys::write_out(&out, &text);
                        unsafe { _exit(3) }
                    }
                }
            });
        }
        Run {
            start,
            out,
            journal,
            only,
            threads,
            shard,
            thorough,
            families: vec![],
            total: Counters::default(),
            samples: vec![],
            violation: None,
            capped: vec![],
        }
    }

    fn enter(&self, slot: usize, family: &str, item: usize) {
        if let Some(j) = &self.journal {
            let mut line = format!("{family}\t{item}\n").into_bytes();
            line.resize(128, b' ');
            j.write_at(&line, slot as u64 * 128);
        }
        SLOTS[slot].item.store(item as u64, SeqCst);
        SLOTS[slot]
            .since
            .store(self.start.ms() + 1, SeqCst);
    }
    fn leave(&self, slot: usize) {
        SLOTS[slot].since.store(0, SeqCst);
        if let Some(j) = &self.journal {
            j.write_at(&[b' '; 128], slot as u64 * 128);
        }
    }

    /// A sequential stage that builds operands with the code under test.
    pub fn stage<R>(&mut self, name: &str, f: impl FnOnce() -> R) -> R {
        let name = format!("build:{name}");
        *FAMILY.lock().unwrap() = name.clone();
        self.enter(64, &name, 0);
        let log = matches!(&self.only, Some((f, _)) if *f == name);
        LOGGING.store(log && CASE_LOG.lock().unwrap().is_some(), SeqCst);
        let r = catch(f).unwrap_or_else(|p| {
            sys::say(&format!("harness panicked in {name}: {p}"));
            unsafe { _exit(4) }
        });
        LOGGING.store(false, SeqCst);
        self.leave(64);
        r
    }

    pub fn add(&mut self, c: &Counters) {
        self.total.states += c.states;
        self.total.transitions += c.transitions;
        self.total.traces += c.traces;
    }

    /// Records that a bound other than the stated alphabet cut an exploration short.
    pub fn cap(&mut self, what: &str) {
        self.capped.push(what.into());
    }

    /// Explores items `0..n` of a family on all cores.
    pub fn family(&mut self, name: &str, n: usize, f: impl Fn(usize, &mut Ctx) + Sync) {
        self.explore(name, n, false, f)
    }
    /// A family whose results later families build on (so it also runs when one item of another
    /// family is being reproduced).
    pub fn level(&mut self, name: &str, n: usize, f: impl Fn(usize, &mut Ctx) + Sync) {
        self.explore(name, n, true, f)
    }
    pub fn violated(&self) -> bool {
        self.violation.is_some()
    }
    fn explore(&mut self, name: &str, n: usize, always: bool, f: impl Fn(usize, &mut Ctx) + Sync) {
        let range: Vec<usize> = match &self.only {
            Some((fam, i)) if fam == name => vec![*i],
            Some(_) if !always => return,
            // Levels are needed in full; the items of a family are divided among the shards.
            _ if always => (0..n).collect(),
            _ => (self.shard.0..n).step_by(self.shard.1).collect(),
        };
        if self.violation.is_some() {
            return;
        }
        let only = matches!(&self.only, Some((fam, _)) if fam == name);
        if only {
            LOGGING.store(CASE_LOG.lock().unwrap().is_some(), SeqCst);
        }
        *FAMILY.lock().unwrap() = name.into();
        let t0 = Clock::now();
        let next = AtomicUsize::new(0);
        let stop = AtomicBool::new(false);
        let results: Mutex<Vec<(Counters, Vec<(usize, String)>, Option<(usize, String, String)>)>> =
            Mutex::new(vec![]);
        let this = &*self;
        let worker = |t: usize| {
            let mut sum = Counters::default();
            let mut samples = vec![];
            let mut viol = None;
            while !stop.load(Relaxed) {
                let ix = next.fetch_add(1, Relaxed);
                let Some(&item) = range.get(ix) else { break };
                this.enter(t, name, item);
                let mut ctx = Ctx {
                    c: Counters::default(),
                    sample: None,
                    viol: None,
                    thorough: this.thorough,
                };
                if let Err(p) = catch(|| f(item, &mut ctx)) {
                    sys::say(&format!("harness panicked in {name} item {item}: {p}"));
                    unsafe { _exit(4) }
                }
                this.leave(t);
                sum.states += ctx.c.states;
                sum.transitions += ctx.c.transitions;
                sum.traces += ctx.c.traces;
                let m = range.len();
                if ix == 0 || ix == m / 2 || ix + 1 == m {
                    if let Some(s) = ctx.sample {
                        samples.push((ix, s));
                    }
                }
                if let Some((d, e)) = ctx.viol {
                    viol = Some((item, d, e));
                    stop.store(true, Relaxed);
                }
            }
            results.lock().unwrap().push((sum, samples, viol));
        };
        sys::on_threads(if only { 1 } else { this.threads }, &worker);
        let mut sum = Counters::default();
        let mut samples = vec![];
        let mut viol: Option<(usize, String, String)> = None;
        for (c, s, v) in results.into_inner().unwrap() {
            sum.states += c.states;
            sum.transitions += c.transitions;
            sum.traces += c.traces;
            samples.extend(s);
            if let Some(v) = v {
                if viol.as_ref().map_or(true, |w| v.0 < w.0) {
                    viol = Some(v);
                }
            }
        }
        samples.sort();
        self.samples
            .extend(samples.into_iter().map(|(_, s)| format!("[{name}] {s}")));
        self.add(&sum);
        self.families.push(format!(
            "{{\"name\":{},\"items\":{},\"states\":{},\"transitions\":{},\"cases\":{},\"seconds\":{:.3}}}",
            json_str(name),
            range.len(),
            sum.states,
            sum.transitions,
            sum.traces,
            t0.secs()
        ));
        if sys::progress() {
            sys::say(&format!("{:8.2}s {name}: {} states {} transitions", t0.secs(), sum.states, sum.transitions));
        }
        if let Some((i, d, e)) = viol {
            self.violation = Some((name.into(), i, d, e));
        }
    }

    pub fn finish(self) -> ! {
        let mut s = String::from("{");
        s.push_str(&format!(
            "\"states\":{},\"transitions\":{},\"traces\":{},\"families\":[{}],\"samples\":[{}],\"capped\":[{}],\"seconds\":{:.3},\"violation\":",
            self.total.states,
            self.total.transitions,
            self.total.traces,
            self.families.join(","),
            self.samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(","),
            self.capped.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(","),
            self.start.secs(),
        ));
        let code = match &self.violation {
            None => {
                s.push_str("null}");
                0
            }
            Some((f, i, d, e)) => {
                s.push_str(&format!(
                    "{{\"family\":{},\"item\":{},\"case\":{},\"detail\":{}}}}}",
                    json_str(f),
                    i,
                    json_str(d),
                    json_str(e)
                ));
                1
            }
        };
        sys::write_out(&self.out, &s);
        unsafe { _exit(code) }
    }
}
