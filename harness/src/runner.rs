//! Runs spaces of items exhaustively, in parallel, under supervision; replays; writes evidence.
use crate::graph::{Graph, Spec};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::Write as _;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::Instant;

pub struct Diverged;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    /// Pick by tier.
    pub fn pick<T>(self, q: T, t: T) -> T {
        if self == Tier::Quick { q } else { t }
    }
}

pub enum Item<'a> {
    G(&'a Graph),
    T(&'a [i64]),
}
impl<'a> Item<'a> {
    pub fn g(&self) -> &'a Graph {
        match self {
            Item::G(g) => g,
            _ => panic!("graph item expected"),
        }
    }
    pub fn t(&self) -> &'a [i64] {
        match self {
            Item::T(t) => t,
            _ => panic!("tuple item expected"),
        }
    }
    pub fn enc(&self) -> String {
        match self {
            Item::G(g) => format!("G {}", g.enc()),
            Item::T(t) => format!("T {}", t.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")),
        }
    }
}

#[derive(Default)]
pub struct Stats {
    pub items: u64,
    /// Distinct states of the reference model visited, summed over items.
    pub states: u64,
    /// Transitions of the reference model followed.
    pub transitions: u64,
    /// Executions of the real code compared with the model.
    pub execs: u64,
    /// Environment choices met in those executions.
    pub choices: u64,
    /// Non-trivial ones (by the check's rule).
    pub nontrivial: u64,
    pub capped: u64,
    pub outcomes: HashSet<u64>,
    pub extra: BTreeMap<&'static str, u64>,
    pub maxes: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
}
impl Stats {
    pub fn outcome(&mut self, h: impl std::hash::Hash) {
        if self.outcomes.len() < 100_000 {
            use std::hash::Hasher;
            let mut s = std::collections::hash_map::DefaultHasher::new();
            h.hash(&mut s);
            self.outcomes.insert(s.finish());
        }
    }
    pub fn add(&mut self, k: &'static str, v: u64) {
        *self.extra.entry(k).or_insert(0) += v;
    }
    pub fn max(&mut self, k: &'static str, v: u64) {
        let e = self.maxes.entry(k).or_insert(0);
        *e = (*e).max(v);
    }
    fn merge(&mut self, o: Stats) {
        self.items += o.items;
        self.states += o.states;
        self.transitions += o.transitions;
        self.execs += o.execs;
        self.choices += o.choices;
        self.nontrivial += o.nontrivial;
        self.capped += o.capped;
        self.outcomes.extend(o.outcomes);
        for (k, v) in o.extra {
            *self.extra.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.maxes {
            let e = self.maxes.entry(k).or_insert(0);
            *e = (*e).max(v);
        }
        for s in o.samples {
            if self.samples.len() < 3 {
                self.samples.push(s);
            }
        }
    }
}

pub type CheckFn = Box<dyn Fn(&Item, &mut Stats) -> Result<(), String> + Send + Sync>;
pub enum Gen {
    Graphs(Spec),
    Tuples(Vec<Vec<i64>>),
}
pub struct Space {
    pub name: String,
    pub desc: String,
    pub gen: Gen,
    pub check: CheckFn,
}
pub fn graphs(name: &str, desc: &str, spec: Spec, f: impl Fn(&Graph, &mut Stats) -> Result<(), String> + Send + Sync + 'static) -> Space {
    let desc = format!("{desc}; {}", spec.describe());
    Space { name: name.into(), desc, gen: Gen::Graphs(spec), check: Box::new(move |i, s| f(i.g(), s)) }
}
pub fn tuples(name: &str, desc: &str, list: Vec<Vec<i64>>, f: impl Fn(&[i64], &mut Stats) -> Result<(), String> + Send + Sync + 'static) -> Space {
    Space { name: name.into(), desc: desc.into(), gen: Gen::Tuples(list), check: Box::new(move |i, s| f(i.t(), s)) }
}

/// All tuples of a product of ranges (inclusive).
pub fn product(ranges: &[(i64, i64)]) -> Vec<Vec<i64>> {
    let mut v: Vec<Vec<i64>> = vec![vec![]];
    for &(lo, hi) in ranges {
        let mut w = vec![];
        for p in &v {
            for x in lo..=hi {
                let mut q = p.clone();
                q.push(x);
                w.push(q);
            }
        }
        v = w;
    }
    v
}

pub struct Check {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub spaces: fn(Tier) -> Vec<Space>,
}

thread_local! {
    static PANIC_MSG: RefCell<Option<String>> = RefCell::new(None);
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let p = info.payload();
        let m = if let Some(s) = p.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = p.downcast_ref::<String>() {
            s.clone()
        } else {
            "non-string panic".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = PANIC_MSG.try_with(|x| *x.borrow_mut() = Some(format!("{m} at {loc}")));
    }));
}
pub fn last_panic() -> String {
    PANIC_MSG.with(|x| x.borrow_mut().take()).unwrap_or_default()
}

/// Run one item; panics become messages.
fn guarded(sp: &Space, it: &Item, st: &mut Stats) -> Result<(), String> {
    crate::choice::off();
    match catch_unwind(AssertUnwindSafe(|| (sp.check)(it, st))) {
        Ok(r) => r,
        Err(p) => {
            crate::choice::off();
            if p.is::<crate::node::Budget>() {
                Err("the comparison does not end (callback budget exhausted)".into())
            } else if p.is::<Diverged>() {
                Err("the same answers of the environment lead to different queries: not deterministic".into())
            } else {
                Err(format!("panic: {}", last_panic()))
            }
        }
    }
}

#[derive(Clone)]
enum Cur {
    None,
    G(Graph),
    T(Vec<i64>),
}
struct Slot {
    cur: Mutex<Cur>,
    since: AtomicU64,
}

struct Viol {
    space: String,
    task: usize,
    size: usize,
    item: String,
    msg: String,
}

const WATCHDOG_S: u64 = 150;
static PULSES: [AtomicU64; 64] = [const { AtomicU64::new(0) }; 64];
thread_local!(static THREAD: std::cell::Cell<usize> = const { std::cell::Cell::new(63) });
/// Tells the watchdog that a long item makes progress.
pub fn pulse() {
    PULSES[THREAD.with(|t| t.get())].fetch_add(1, SeqCst);
}

fn env_tier() -> Tier {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    }
}

pub fn main(ck: Check) -> ! {
    let args: Vec<String> = std::env::args().collect();
    install_hook();
    let tier = env_tier();
    if args.len() >= 3 && args[1] == "--replay" {
        replay(&ck, &args[2]);
    }
    if args.len() >= 2 && args[1] == "--child" {
        child(&ck, tier, args.get(2).map(|s| s.as_str()));
    }
    // Supervise.
    let exe = std::env::current_exe().unwrap();
    let dir = out_dir();
    let run = |journal: Option<&str>| {
        let mut c = std::process::Command::new(&exe);
        c.arg("--child");
        if let Some(j) = journal {
            c.arg(j);
        }
        c.status().expect("spawn")
    };
    let s = run(None);
    match s.code() {
        Some(c) if c != 101 && c != 134 => std::process::exit(c),
        _ => (),
    }
    // Crashed: find the item.
    let j = format!("{dir}/journal-{}", ck.id);
    let _ = fs::create_dir_all(&j);
    for e in fs::read_dir(&j).unwrap().flatten() {
        let _ = fs::remove_file(e.path());
    }
    let s2 = run(Some(&j));
    if let Some(c) = s2.code() {
        if c != 101 && c != 134 {
            std::process::exit(c);
        }
    }
    let mut n = 0;
    for e in fs::read_dir(&j).unwrap().flatten() {
        let t = fs::read_to_string(e.path()).unwrap_or_default();
        let t = t.split('\0').next().unwrap_or("").trim_end().to_string();
        if t.is_empty() {
            continue;
        }
        n += 1;
        let rp = format!("{dir}/replay/{}-crash-{n}.txt", ck.id);
        let _ = fs::create_dir_all(format!("{dir}/replay"));
        fs::write(&rp, format!("{t}\n")).unwrap();
        let o = std::process::Command::new(&exe).arg("--replay").arg(&rp).output().unwrap();
        if !matches!(o.status.code(), Some(0) | Some(1) | Some(2)) {
            println!("the process dies ({}) on {t}", o.status);
            write_evidence(&ck, tier, &Stats::default(), &[], 1, 0.0, true);
            println!("VIOLATION property={} replay={rp}", ck.id);
            std::process::exit(1);
        }
    }
    eprintln!("engine error: child died ({s}) but no item reproduces it");
    std::process::exit(2);
}

fn out_dir() -> String {
    std::env::var("VERIF_OUT").unwrap_or_else(|_| "/verif/evidence".into())
}

fn replay(ck: &Check, file: &str) -> ! {
    let t = fs::read_to_string(file).expect("replay file");
    let line = t.lines().next().unwrap();
    let mut it = line.splitn(3, ' ');
    let (sp, kind, enc) = (it.next().unwrap(), it.next().unwrap(), it.next().unwrap_or(""));
    for tier in [Tier::Quick, Tier::Thorough] {
        for s in (ck.spaces)(tier) {
            if s.name != sp {
                continue;
            }
            let (enc, kind) = (enc.to_string(), kind.to_string());
            let r = std::thread::Builder::new()
                .stack_size(stack_size())
                .spawn(move || {
                    let mut st = Stats::default();
                    if kind == "G" {
                        let g = Graph::dec(&enc);
                        guarded(&s, &Item::G(&g), &mut st)
                    } else {
                        let t: Vec<i64> = enc.split(',').map(|x| x.parse().unwrap()).collect();
                        guarded(&s, &Item::T(&t), &mut st)
                    }
                })
                .unwrap()
                .join()
                .unwrap();
            match r {
                Ok(()) => {
                    println!("property={} held on {line}", ck.id);
                    std::process::exit(0)
                }
                Err(e) => {
                    println!("{e}");
                    println!("VIOLATION property={} replay={file}", ck.id);
                    std::process::exit(1)
                }
            }
        }
    }
    eprintln!("no such space: {sp}");
    std::process::exit(2)
}

fn known(id: &str) -> Vec<(String, String)> {
    let p = concat!(env!("CARGO_MANIFEST_DIR"), "/../known-findings.txt");
    let mut v = vec![];
    for l in fs::read_to_string(p).unwrap_or_default().lines() {
        if let Some(r) = l.strip_prefix("KNOWN-FINDING: ") {
            if let Some(r) = r.strip_prefix(&format!("property={id} ")) {
                if let Some((item, desc)) = r.split_once(" | ") {
                    v.push((item.trim().to_string(), desc.trim().to_string()));
                }
            }
        }
    }
    v
}

fn child(ck: &Check, tier: Tier, journal: Option<&str>) -> ! {
    let t0 = Instant::now();
    let spaces = second_pass((ck.spaces)(tier));
    let mut total = Stats::default();
    let mut report: Vec<(String, String, u64, u64, u64, f64)> = vec![];
    let known = known(ck.id);
    let known_hit: Mutex<HashSet<usize>> = Mutex::new(HashSet::new());
    let mut names = HashSet::new();
    for s in &spaces {
        assert!(names.insert(s.name.clone()), "duplicate space {}", s.name);
    }
    let mut viol: Option<Viol> = None;
    for sp in &spaces {
        let ts = Instant::now();
        let gtasks: Vec<(Graph, u32)>;
        let ntasks = match &sp.gen {
            Gen::Graphs(s) => {
                gtasks = s.tasks();
                gtasks.len()
            }
            Gen::Tuples(t) => {
                gtasks = vec![];
                t.len()
            }
        };
        let next = AtomicUsize::new(0);
        let best: Mutex<Option<Viol>> = Mutex::new(None);
        let best_task = AtomicUsize::new(usize::MAX);
        let merged: Mutex<Stats> = Mutex::new(Stats::default());
        let done = AtomicBool::new(false);
        let nthreads: usize = std::env::var("VERIF_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
        let slots: Vec<Slot> = (0..nthreads).map(|_| Slot { cur: Mutex::new(Cur::None), since: AtomicU64::new(0) }).collect();
        std::thread::scope(|sc| {
            let mut hs = vec![];
            for (ti, slot) in slots.iter().enumerate() {
                let (next, best, best_task, merged, gtasks, known, known_hit) = (&next, &best, &best_task, &merged, &gtasks, &known, &known_hit);
                let jf = journal.map(|j| fs::OpenOptions::new().create(true).write(true).open(format!("{j}/{ti}")).unwrap());
                let t0 = t0;
                hs.push(
                    std::thread::Builder::new()
                        .stack_size(stack_size())
                        .spawn_scoped(sc, move || {
                            let mut st = Stats::default();
                            THREAD.with(|t| t.set(ti.min(63)));
                            let one = |it: &Item, task: usize, st: &mut Stats| {
                                {
                                    let mut c = slot.cur.lock().unwrap();
                                    match it {
                                        Item::G(g) => match &mut *c {
                                            Cur::G(h) => h.copy_from(g),
                                            c => *c = Cur::G((*g).clone()),
                                        },
                                        Item::T(t) => *c = Cur::T(t.to_vec()),
                                    }
                                }
                                slot.since.store(t0.elapsed().as_secs() + 1, SeqCst);
                                if let Some(f) = &jf {
                                    let mut e = format!("{} {}\n", sp.name, it.enc()).into_bytes();
                                    e.push(0);
                                    let _ = f.write_at(&e, 0);
                                }
                                st.items += 1;
                                if st.samples.len() < 3 && (st.items == 1 || st.items == 37 || st.items == 1009) {
                                    st.samples.push(format!("{} {}", sp.name, it.enc()));
                                }
                                if let Err(msg) = guarded(sp, it, st) {
                                    let e = it.enc();
                                    let key = format!("{} {}", sp.name, e);
                                    if let Some(k) = known.iter().position(|k| k.0 == key) {
                                        known_hit.lock().unwrap().insert(k);
                                        return;
                                    }
                                    let mut b = best.lock().unwrap();
                                    let size = e.len();
                                    if b.as_ref().map_or(true, |v| (task, size) < (v.task, v.size)) {
                                        best_task.store(task, SeqCst);
                                        *b = Some(Viol { space: sp.name.clone(), task, size, item: e, msg });
                                    }
                                }
                            };
                            loop {
                                let k = next.fetch_add(1, SeqCst);
                                if k >= ntasks || k > best_task.load(SeqCst) {
                                    break;
                                }
                                match &sp.gen {
                                    Gen::Graphs(s) => s.run_task(&gtasks[k], &mut |g| {
                                        if k < best_task.load(SeqCst) {
                                            one(&Item::G(g), k, &mut st)
                                        }
                                    }),
                                    Gen::Tuples(t) => one(&Item::T(&t[k]), k, &mut st),
                                }
                                slot.since.store(0, SeqCst);
                            }
                            slot.since.store(0, SeqCst);
                            merged.lock().unwrap().merge(st);
                        })
                        .unwrap(),
                );
            }
            // Watchdog.
            let (slots, done) = (&slots, &done);
            let w = sc.spawn(move || {
                let mut last = [(0, 0); 64];
                while !done.load(SeqCst) {
                    std::thread::park_timeout(std::time::Duration::from_millis(500));
                    let now = t0.elapsed().as_secs() + 1;
                    for (i, s) in slots.iter().enumerate() {
                        let mut b = s.since.load(SeqCst);
                        if i < 63 {
                            let p = PULSES[i].load(SeqCst);
                            if last[i].0 != p {
                                last[i] = (p, now);
                            }
                            if b != 0 {
                                b = b.max(last[i].1);
                            }
                        }
                        if b != 0 && now > b + WATCHDOG_S {
                            let it = s.cur.lock().unwrap().clone();
                            let e = match &it {
                                Cur::G(g) => Item::G(g).enc(),
                                Cur::T(t) => Item::T(t).enc(),
                                Cur::None => continue,
                            };
                            let v = Viol { space: sp.name.clone(), task: 0, size: 0, item: e, msg: format!("the comparison runs for more than {WATCHDOG_S} s without end") };
                            finish_violation(ck, &v);
                            write_evidence(ck, tier, &Stats::default(), &[], 1, t0.elapsed().as_secs_f64(), false);
                            std::process::exit(1);
                        }
                    }
                }
            });
            for h in hs {
                h.join().unwrap();
            }
            done.store(true, SeqCst);
            w.thread().unpark();
        });
        let st = merged.into_inner().unwrap();
        let el = ts.elapsed().as_secs_f64();
        println!(
            "{} {}: items={} states={} transitions={} executions={} choices={} distinct_outcomes={} {:.2}s",
            ck.id, sp.name, st.items, st.states, st.transitions, st.execs, st.choices, st.outcomes.len(), el
        );
        report.push((sp.name.clone(), sp.desc.clone(), st.items, st.execs, st.outcomes.len() as u64, el));
        total.merge(st);
        if let Some(v) = best.into_inner().unwrap() {
            viol = Some(v);
            break;
        }
    }
    for k in &*known_hit.lock().unwrap() {
        println!("KNOWN-FINDING: property={} {}", ck.id, known[*k].1);
    }
    let wall = t0.elapsed().as_secs_f64();
    write_evidence(ck, tier, &total, &report, viol.is_some() as u64, wall, false);
    match viol {
        None => {
            println!("property={} held on everything explored", ck.id);
            std::process::exit(0)
        }
        Some(v) => {
            finish_violation(ck, &v);
            std::process::exit(1)
        }
    }
}

fn finish_violation(ck: &Check, v: &Viol) {
    let dir = out_dir();
    let _ = fs::create_dir_all(format!("{dir}/replay"));
    let rp = format!("{dir}/replay/{}-{}.txt", ck.id, v.space);
    fs::write(&rp, format!("{} {}\n{}\n", v.space, v.item, v.msg)).unwrap();
    println!("{} {}: {}", v.space, v.item.chars().take(2000).collect::<String>(), v.msg);
    println!("VIOLATION property={} replay={rp}", ck.id);
    let _ = std::io::stdout().flush();
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn write_evidence(ck: &Check, tier: Tier, t: &Stats, rep: &[(String, String, u64, u64, u64, f64)], viols: u64, wall: f64, crashed: bool) {
    let dir = out_dir();
    let _ = fs::create_dir_all(&dir);
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let samples: Vec<String> = t.samples.iter().map(|s| js(&s.chars().take(400).collect::<String>())).collect();
    let spaces: Vec<String> = rep
        .iter()
        .map(|(n, d, i, e, o, w)| format!("{{\"name\":{},\"what\":{},\"items\":{i},\"executions\":{e},\"distinct_outcomes\":{o},\"wall_s\":{w:.3}}}", js(n), js(d)))
        .collect();
    let mut cov = String::new();
    match ck.level {
        "fault_enumeration" => cov.push_str(&format!(
            "\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},",
            t.execs,
            t.nontrivial,
            js(ck.rule)
        )),
        _ => cov.push_str(&format!(
            "\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"rule\":{},",
            t.states,
            t.transitions,
            t.execs,
            js(ck.rule)
        )),
    }
    cov.push_str(&format!("\"items\":{},\"environment_choices\":{},\"distinct_outcomes\":{},", t.items, t.choices, t.outcomes.len()));
    for (k, v) in t.extra.iter() {
        cov.push_str(&format!("{}:{v},", js(k)));
    }
    for (k, v) in t.maxes.iter() {
        cov.push_str(&format!("{}:{v},", js(&format!("max_{k}"))));
    }
    cov.push_str(&format!(
        "\"capped\":{},\"exhaustive\":{},\"spaces\":[{}],\"samples\":[{}]",
        t.capped,
        viols == 0 && t.capped == 0 && !crashed,
        spaces.join(","),
        samples.join(",")
    ));
    let ass: Vec<String> = ck.assumptions.iter().map(|s| js(s)).collect();
    let tn = if tier == Tier::Quick { "quick" } else { "thorough" };
    let s = format!(
        "{{\"property\":{},\"tier\":\"{tn}\",\"seed\":{seed},\"level\":{},\"coverage\":{{{cov}}},\"assumptions\":[{}],\"wall_s\":{wall:.3},\"violations\":{viols}}}\n",
        js(ck.id),
        js(ck.level),
        ass.join(",")
    );
    fs::write(format!("{dir}/{}.json", ck.id), s).unwrap();
}

pub fn smaller() -> bool {
    std::env::var("GSC_PASS").as_deref() == Ok("smaller")
}
/// The second pass, of the build without debug assertions and overflow checks, repeats all with graphs of one node
/// fewer (`GSC_PASS=smaller`) or the same.
fn second_pass(mut v: Vec<Space>) -> Vec<Space> {
    if smaller() {
        for s in &mut v {
            if let Gen::Graphs(g) = &mut s.gen {
                if g.max_n > 2 {
                    let d = g.describe();
                    g.max_n -= 1;
                    s.desc = s.desc.replace(&d, &g.describe());
                }
            }
        }
    }
    v
}

/// For recursion on the call-stack over long graphs, with much room for larger frames (pages are only taken when
/// used).
fn stack_size() -> usize {
    std::env::var("GSC_STACK").ok().and_then(|v| v.parse().ok()).unwrap_or(2 << 30)
}
