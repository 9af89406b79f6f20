//! U02: comparisons are independent of other comparisons: earlier ones, nested ones, concurrent ones.
use graph_safe_compare::cycle_safe::modes::interleave::{self, random};
use graph_safe_compare::generic::equiv_classes::Table;
use gsc_mc::graph::*;
use gsc_mc::node::*;
use gsc_mc::refm::*;
use gsc_mc::runner::*;
use gsc_mc::tables::*;
use gsc_mc::util::*;
use gsc_mc::variants::*;
use std::cell::Cell;
use std::marker::PhantomData;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::{Condvar, Mutex};
use std::time::Duration;

/// The panic of user code.
struct Boom;

/// Interleaving with a premade generator.
struct RP<T, G>(PhantomData<(T, G)>);
impl<T: Table, G: random::NumberGenerator> interleave::Params for RP<T, G> {
    const PRECHECK_LIMIT: u16 = 10;
    const FAST_LIMIT_MAX: u16 = 3;
    const SLOW_LIMIT: u16 = 1;
    type Node = T::Node;
    type Table = T;
    type RNG = G;
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum W {
    V(V),
    /// an own table
    Own(R),
    /// premade generators: 0 wyrng, 1 oorandom, 2 fastrand
    Rng(R, u8),
}
fn wyoofa<'c, T: Table<Node = Nd<'c, KV>>, G: random::NumberGenerator>(r: R, a: Nd<'c, KV>, b: Nd<'c, KV>) -> Val {
    match r {
        R::Call => inter_call::<_, RP<T, G>>(a, b),
        R::Queue => inter_queue::<_, RP<T, G>>(a, b),
        R::Stack => inter_stack::<_, RP<T, G>>(a, b),
    }
}
fn go<'c>(w: W, a: Nd<'c, KV>, b: Nd<'c, KV>) -> Option<Val> {
    type H<'c> = <Hm as Tk>::T<'c, KV>;
    match w {
        W::V(v) => run::<KV>(v, a, b).ok(),
        W::Own(R::Call) => Some(inter_call::<_, IP<inst::HashT<'c, KV>, 1, 1, 1>>(a, b)),
        W::Own(R::Queue) => Some(inter_queue::<_, IP<inst::VecT<'c, KV>, 1, 1, 1>>(a, b)),
        W::Own(R::Stack) => Some(inter_stack::<_, IP<inst::TreeT<'c, KV>, 1, 1, 1>>(a, b)),
        W::Rng(r, 0) => Some(wyoofa::<H<'c>, random::wyrng::RandomNumberGenerator>(r, a, b)),
        W::Rng(r, 1) => Some(wyoofa::<H<'c>, random::oorandom::RandomNumberGenerator>(r, a, b)),
        W::Rng(r, _) => Some(wyoofa::<H<'c>, random::fastrand::RandomNumberGenerator>(r, a, b)),
    }
}
fn order(w: W) -> R {
    match w {
        W::V(v) => v.r(),
        W::Own(r) | W::Rng(r, _) => r,
    }
}
fn needs_acyclic(w: W) -> bool {
    matches!(w, W::V(V::Unl(_)))
}
fn all_w() -> Vec<W> {
    let mut v: Vec<W> = vec![];
    v.extend(CYCS.map(|c| W::V(V::Cyc(c))));
    v.extend(RS.map(|r| W::V(V::Unl(r))));
    v.extend(RS.map(|r| W::V(V::Lim(r, 2))));
    v.extend(RS.map(|r| W::V(V::Lim(r, 9))));
    v.extend(RS.map(|r| W::V(V::I11(r))));
    v.extend(RS.map(|r| W::V(V::I03(r))));
    v.extend((0..5).map(|p| W::V(V::P2(p))));
    v.extend((0..5).map(|p| W::V(V::P400(p))));
    v.extend(RS.map(W::Own));
    for r in RS {
        v.extend((0..3).map(|k| W::Rng(r, k)));
    }
    v
}
fn some_w() -> Vec<W> {
    vec![
        W::V(V::Cyc(Cyc::Robust)),
        W::V(V::Cyc(Cyc::RobustPre)),
        W::V(V::Cyc(Cyc::Cycle)),
        W::V(V::Cyc(Cyc::CyclePre)),
        W::V(V::Unl(R::Queue)),
        W::V(V::Unl(R::Stack)),
        W::V(V::Lim(R::Queue, 2)),
        W::V(V::I11(R::Stack)),
        W::V(V::P2(2)),
        W::V(V::P2(3)),
        W::Own(R::Call),
        W::Own(R::Queue),
        W::Rng(R::Queue, 2),
    ]
}

/// Graph pairs, all over the same identities; with the second root.
fn pairs() -> Vec<(Graph, u32)> {
    let g = |nodes: &[(u8, &[u32])], rb: u32| (Graph::from(nodes), rb);
    let mut v = vec![
        // leaves: equal, different
        g(&[(0, &[]), (0, &[])], 1),
        g(&[(0, &[]), (1, &[])], 1),
        // branches: equal, different below, different amounts
        g(&[(0, &[2]), (0, &[3]), (0, &[]), (0, &[])], 1),
        g(&[(0, &[2, 3]), (0, &[3, 4]), (0, &[]), (0, &[]), (1, &[])], 1),
        g(&[(0, &[2, 3]), (0, &[2, 3, 3]), (0, &[]), (0, &[])], 1),
        // cyclic: self loops, rings, a difference only behind a second way
        g(&[(0, &[0]), (0, &[1])], 1),
        g(&[(0, &[1]), (0, &[2]), (0, &[0])], 1),
        g(&[(0, &[0, 2]), (0, &[1, 3]), (0, &[]), (1, &[])], 1),
        g(&[(0, &[2, 2, 4]), (0, &[3, 3, 5]), (0, &[0]), (0, &[1]), (0, &[2]), (0, &[3, 3])], 1),
        g(&[(0, &[1, 1]), (0, &[0, 0]), (0, &[3, 3]), (0, &[2, 4]), (0, &[2, 3])], 2),
        // the same root
        g(&[(0, &[0, 1]), (1, &[])], 0),
    ];
    for (f, n, m, at) in [(fam("degenerate_cyclic"), 6, 0, 0), (fam("degenerate_dag"), 5, 1, 5), (fam("ring_leaf"), 9, 1, 7), (fam("chain1"), 12, 2, 11), (fam("tree"), 7, 0, 0)] {
        let a = family(f, n);
        let mut b = a.clone();
        mutate(&mut b, m, at);
        v.push(side_by_side(&a, &b));
    }
    v
}

struct Env {
    pairs: Vec<(Graph, u32)>,
    /// Isolated results, by pair and variant.
    want: Vec<Vec<(W, Option<Option<Val>>, usize)>>,
}
thread_local! {
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static LEFT: Cell<u64> = const { Cell::new(u64::MAX) };
}
fn event() {
    COUNT.with(|c| c.set(c.get() + 1));
    LEFT.with(|l| match l.get() {
        u64::MAX => (),
        0 => {
            if !std::thread::panicking() {
                l.set(u64::MAX);
                resume_unwind(Box::new(Boom))
            }
        }
        v => l.set(v - 1),
    })
}
fn hook(_: Ev) {
    event()
}
/// Run, alone or with a panic at an event.
fn comparison(g: &Graph, rb: u32, w: W, at: u64) -> (Result<Option<Val>, ()>, u64) {
    let h = hook;
    let cx = Ctx::new(g, budget(g) * 50, M_DROP).hooked(&h);
    COUNT.with(|c| c.set(0));
    LEFT.with(|l| l.set(at));
    USER.with(|u| u.set(Some(event)));
    let r = catch_unwind(AssertUnwindSafe(|| go(w, Nd::new(&cx, 0, 0), Nd::new(&cx, rb, 1))));
    USER.with(|u| u.set(None));
    LEFT.with(|l| l.set(u64::MAX));
    let r = match r {
        Ok(v) => Ok(v),
        Err(p) => {
            if !p.is::<Boom>() {
                resume_unwind(p)
            }
            Err(())
        }
    };
    (r, COUNT.with(|c| c.get()))
}
fn env() -> Env {
    let pairs = pairs();
    let mut want = vec![];
    for (g, rb) in &pairs {
        let mut v = vec![];
        for w in all_w() {
            if needs_acyclic(w) && !g.is_acyclic() {
                continue;
            }
            let (g, rb) = (g.clone(), *rb);
            // A fresh thread.
            let r = std::thread::Builder::new()
                .stack_size(1 << 26)
                .spawn(move || {
                    set_rng(RngMode::Max);
                    catch_unwind(AssertUnwindSafe(|| comparison(&g, rb, w, u64::MAX)))
                })
                .unwrap()
                .join()
                .unwrap();
            match r {
                Ok((Ok(x), n)) => v.push((w, Some(x), n as usize)),
                _ => v.push((w, None, 0)),
            }
        }
        want.push(v);
    }
    Env { pairs, want }
}
/// Is this the result the comparison has alone, and the one its graphs have?
fn same(e: &Env, p: usize, w: W, got: &Option<Val>) -> Result<(), String> {
    let (g, rb) = &e.pairs[p];
    let Some((_, alone, _)) = e.want[p].iter().find(|x| x.0 == w) else { return Ok(()) };
    let Some(alone) = alone else { return Err(format!("pair {p} by {w:?} does not even end when alone")) };
    let random = matches!(w, W::Rng(_, 2)) && order(w) != R::Queue;
    let eq = match (got, alone) {
        (Some(x), Some(y)) => x == y || (is_eq(x) && is_eq(y)) || (random && !is_eq(x) && !is_eq(y)),
        (None, None) => true,
        _ => false,
    };
    if !eq {
        return Err(format!("pair {p} ({}) by {w:?} gives {got:?}; alone it gives {alone:?}", g.enc()));
    }
    if let Some(v) = got {
        let want = first(g, 0, *rb, Order::Breadth).diff.is_none();
        if is_eq(v) != want {
            return Err(format!("pair {p} ({}) by {w:?} gives {got:?}", g.enc()));
        }
    }
    Ok(())
}
fn is_eq(v: &Val) -> bool {
    graph_safe_compare::Cmp::is_equiv(v)
}
fn can(e: &Env, p: usize, w: W) -> bool {
    e.want[p].iter().any(|x| x.0 == w)
}
fn events_of(e: &Env, p: usize, w: W) -> u64 {
    e.want[p].iter().find(|x| x.0 == w).map_or(0, |x| x.2 as u64)
}
/// Some of the events of a long comparison, all of a short one.
fn points(n: u64, all: u64) -> Vec<u64> {
    if n <= all {
        (0..n).collect()
    } else {
        let s = (n / all).max(1);
        let mut v: Vec<u64> = (0..n).step_by(s as usize).collect();
        v.extend(n.saturating_sub(all / 2)..n);
        v.extend(0..all / 2);
        v.sort_unstable();
        v.dedup();
        v
    }
}

fn history2(e: &Env, p: usize, q: usize, ws: &[W], st: &mut Stats) -> Result<(), String> {
    set_rng(RngMode::Max);
    for &w in ws {
        if !can(e, p, w) {
            continue;
        }
        let mut ends = vec![u64::MAX];
        ends.extend(points(events_of(e, p, w), 24));
        for at in ends {
            for &x in ws {
                if !can(e, q, x) {
                    continue;
                }
                let _ = comparison(&e.pairs[p].0, e.pairs[p].1, w, at);
                let (r, _) = comparison(&e.pairs[q].0, e.pairs[q].1, x, u64::MAX);
                st.execs += 1;
                st.transitions += 2;
                st.outcome((p, q, at));
                st.nontrivial += (at != u64::MAX) as u64;
                let after = || format!("after pair {p} by {w:?}{}: ", if at == u64::MAX { String::new() } else { format!(" with a panic at event {at}") });
                same(e, q, x, &r.map_err(|_| after() + "panic")?).map_err(|m| after() + &m)?;
            }
        }
    }
    Ok(())
}
/// Histories of one variant (and mixed ones): every sequence of pairs.
fn history(e: &Env, seq: &[usize], ws: &[W], st: &mut Stats) -> Result<(), String> {
    set_rng(RngMode::Max);
    for k in 0..ws.len() * 2 {
        for (i, &p) in seq.iter().enumerate() {
            // the same variant throughout, or changing
            let w = if k < ws.len() { ws[k] } else { ws[(k + i * 5) % ws.len()] };
            if !can(e, p, w) {
                continue;
            }
            let (r, _) = comparison(&e.pairs[p].0, e.pairs[p].1, w, u64::MAX);
            st.execs += 1;
            st.transitions += 1;
            same(e, p, w, &r.map_err(|_| "panic".to_string())?).map_err(|m| format!("after {:?}: {m}", &seq[..i]))?;
        }
    }
    Ok(())
}
/// Every small graph, after disturbances.
fn disturbed(e: &Env, g: &Graph, ws: &[W], st: &mut Stats) -> Result<(), String> {
    set_rng(RngMode::Max);
    let acyclic = g.is_acyclic();
    let want = reference(g, 0, g.rb, Order::Breadth, st).diff.is_none();
    for &w in ws {
        if (needs_acyclic(w) && !acyclic) || matches!(w, W::V(V::Lim(..))) {
            continue;
        }
        for (p, at) in [(8, u64::MAX), (8, 9), (8, 24), (9, u64::MAX), (12, 30), (4, u64::MAX), (13, 40)] {
            if !can(e, p, w) {
                continue;
            }
            let _ = comparison(&e.pairs[p].0, e.pairs[p].1, w, at);
            for rb in [g.rb] {
                let (r, _) = comparison(g, rb, w, u64::MAX);
                st.execs += 1;
                match r {
                    Ok(Some(v)) if is_eq(&v) == want => (),
                    _ => return Err(format!("{w:?} after pair {p} (panic at {at}) gives {r:?}")),
                }
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------- nesting
/// What to run at an event of a comparison.
struct Nest<'a> {
    e: &'a Env,
    p: usize,
    w: W,
    /// the inner one panics at this event
    boom: u64,
    /// within it, at this event, again
    again: Option<(u64, &'a Nest<'a>)>,
    bad: &'a Cell<Option<String>>,
}
thread_local! {
    /// At which event, what.
    static AT: Cell<(u64, *const ())> = const { Cell::new((u64::MAX, std::ptr::null())) };
}
fn nest_event() {
    event();
    let (k, n) = AT.with(|a| a.get());
    if k == 0 {
        AT.with(|a| a.set((u64::MAX, std::ptr::null())));
        if std::thread::panicking() {
            return;
        }
        // SAFETY: the nest outlives the comparison it is run in.
        let n: &Nest = unsafe { &*(n as *const Nest) };
        let (c, l) = (COUNT.with(|c| c.get()), LEFT.with(|l| l.replace(u64::MAX)));
        let u = USER.with(|u| u.replace(None));
        let r = nested(n.e, n.p, n.w, n.boom, n.again);
        COUNT.with(|x| x.set(c));
        LEFT.with(|x| x.set(l));
        USER.with(|x| x.set(u));
        let bad = match r {
            Ok(Ok(v)) => same(n.e, n.p, n.w, &v).err(),
            Ok(Err(())) => None,
            Err(m) => Some(m),
        };
        if let Some(m) = bad {
            n.bad.set(Some(format!("the nested comparison of {m}")));
        }
    } else if k != u64::MAX {
        AT.with(|a| a.set((k - 1, n)));
    }
}
fn nest_hook(_: Ev) {
    nest_event()
}
/// A comparison with another inside at an event.
fn nested(e: &Env, p: usize, w: W, boom: u64, inside: Option<(u64, &Nest)>) -> Result<Result<Option<Val>, ()>, String> {
    let (g, rb) = &e.pairs[p];
    let h = nest_hook;
    let cx = Ctx::new(g, budget(g) * 50, M_DROP).hooked(&h);
    let saved = AT.with(|a| a.get());
    COUNT.with(|c| c.set(0));
    LEFT.with(|l| l.set(boom));
    AT.with(|a| {
        a.set(match inside {
            Some((k, n)) => (k, n as *const Nest as *const ()),
            None => (u64::MAX, std::ptr::null()),
        })
    });
    USER.with(|u| u.set(Some(nest_event)));
    let r = catch_unwind(AssertUnwindSafe(|| go(w, Nd::new(&cx, 0, 0), Nd::new(&cx, *rb, 1))));
    USER.with(|u| u.set(None));
    LEFT.with(|l| l.set(u64::MAX));
    AT.with(|a| a.set(saved));
    match r {
        Ok(v) => Ok(Ok(v)),
        Err(p) if p.is::<Boom>() => Ok(Err(())),
        Err(p) if p.is::<Budget>() => Err("the comparison does not end".into()),
        Err(_) => Err(format!("panic: {}", last_panic())),
    }
}
fn nest2(e: &Env, p: usize, q: usize, ws: &[W], inner: &[W], st: &mut Stats) -> Result<(), String> {
    set_rng(RngMode::Max);
    for &w in ws {
        if !can(e, p, w) {
            continue;
        }
        for k in points(events_of(e, p, w), 40) {
            for &x in inner {
                if !can(e, q, x) {
                    continue;
                }
                for boom in [u64::MAX, 7] {
                    let bad = Cell::new(None);
                    let n = Nest { e, p: q, w: x, boom, again: None, bad: &bad };
                    let r = nested(e, p, w, u64::MAX, Some((k, &n)));
                    st.execs += 1;
                    st.transitions += 2;
                    st.outcome((p, q, k));
                    let inside = || format!("pair {q} by {x:?} (panic at {boom}) inside event {k} of pair {p} by {w:?}: ");
                    if let Some(m) = bad.take() {
                        return Err(inside() + &m);
                    }
                    let r = r.map_err(|m| inside() + &m)?;
                    same(e, p, w, &r.map_err(|_| "panic".to_string())?).map_err(|m| inside() + &m)?;
                }
            }
        }
    }
    Ok(())
}
fn nest3(e: &Env, p: usize, q: usize, s: usize, ws: &[W], st: &mut Stats) -> Result<(), String> {
    set_rng(RngMode::Max);
    for &w in ws {
        if !can(e, p, w) || !can(e, q, w) || !can(e, s, w) {
            continue;
        }
        for k in points(events_of(e, p, w), 16) {
            for j in points(events_of(e, q, w), 16) {
                let bad = Cell::new(None);
                let n2 = Nest { e, p: s, w, boom: u64::MAX, again: None, bad: &bad };
                let n1 = Nest { e, p: q, w, boom: u64::MAX, again: Some((j, &n2)), bad: &bad };
                let r = nested(e, p, w, u64::MAX, Some((k, &n1)));
                st.execs += 1;
                st.transitions += 3;
                let inside = || format!("pair {s} inside event {j} of pair {q} inside event {k} of pair {p} by {w:?}: ");
                if let Some(m) = bad.take() {
                    return Err(inside() + &m);
                }
                let r = r.map_err(|m| inside() + &m)?;
                same(e, p, w, &r.map_err(|_| "panic".to_string())?).map_err(|m| inside() + &m)?;
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------- threads
/// Two threads, of which one runs at a time; switches at chosen events.
struct Sched {
    m: Mutex<S>,
    c: Condvar,
}
struct S {
    turn: usize,
    done: [bool; 2],
    step: u64,
    switches: Vec<u64>,
    /// events seen while not holding the turn: the other one was blocked
    free: bool,
}
thread_local! {
    static ME: Cell<Option<(*const Sched, usize)>> = const { Cell::new(None) };
}
fn thread_event() {
    let Some((s, me)) = ME.with(|m| m.get()) else { return };
    // SAFETY: the scheduler outlives both threads.
    let s = unsafe { &*s };
    let mut g = s.m.lock().unwrap();
    if g.free {
        return;
    }
    let k = g.step;
    g.step += 1;
    if g.switches.contains(&k) && !g.done[1 - me] {
        g.turn = 1 - me;
        s.c.notify_all();
        wait(s, g, me);
    }
}
fn wait<'a>(s: &'a Sched, mut g: std::sync::MutexGuard<'a, S>, me: usize) {
    let mut last = g.step;
    while g.turn != me && !g.free {
        let (g2, t) = s.c.wait_timeout(g, Duration::from_millis(2000)).unwrap();
        g = g2;
        if t.timed_out() && g.turn != me {
            if g.step == last {
                // The other one is blocked by us: let both run.
                g.free = true;
                s.c.notify_all();
            }
            last = g.step;
        }
    }
}
fn thread_hook(_: Ev) {
    thread_event()
}
fn two(e: &'static Env, a: (usize, W), b: (usize, W), switches: &[u64]) -> ([Result<Option<Val>, String>; 2], u64) {
    let s = Sched { m: Mutex::new(S { turn: 0, done: [false; 2], step: 0, switches: switches.to_vec(), free: false }), c: Condvar::new() };
    let one = |me: usize, (p, w): (usize, W)| {
        let s = &s;
        move || {
            set_rng(RngMode::Max);
            let g = s.m.lock().unwrap();
            wait(s, g, me);
            ME.with(|m| m.set(Some((s as *const Sched, me))));
            USER.with(|u| u.set(Some(thread_event)));
            let r = {
                let (g, rb) = &e.pairs[p];
                let h = thread_hook;
                let cx = Ctx::new(g, budget(g) * 50, M_DROP).hooked(&h);
                catch_unwind(AssertUnwindSafe(|| go(w, Nd::new(&cx, 0, 0), Nd::new(&cx, *rb, 1))))
            };
            ME.with(|m| m.set(None));
            USER.with(|u| u.set(None));
            let mut g = s.m.lock().unwrap();
            g.done[me] = true;
            g.turn = 1 - me;
            s.c.notify_all();
            drop(g);
            r.map_err(|p| if p.is::<Budget>() { "does not end".to_string() } else { format!("panic: {}", last_panic()) })
        }
    };
    let r = std::thread::scope(|sc| {
        let x = std::thread::Builder::new().stack_size(1 << 24).spawn_scoped(sc, one(0, a)).unwrap();
        let y = std::thread::Builder::new().stack_size(1 << 24).spawn_scoped(sc, one(1, b)).unwrap();
        [x.join().unwrap(), y.join().unwrap()]
    });
    let n = s.m.lock().unwrap().step;
    (r, n)
}
/// Every schedule with at most `pre` switches (of those events considered).
fn schedules(e: &'static Env, a: (usize, W), b: (usize, W), pre: &[(u64, usize, u64)], st: &mut Stats) -> Result<(), String> {
    let mut stack = vec![vec![]];
    let (mut pre_n, mut most) = (usize::MAX, 0);
    while let Some(sw) = stack.pop() {
        let sw: Vec<u64> = sw;
        let (r, n) = two(e, a, b, &sw);
        st.execs += 1;
        st.transitions += n;
        st.nontrivial += (!sw.is_empty()) as u64;
        st.outcome((a.0, b.0, n));
        if pre_n == usize::MAX {
            let p = pre.iter().find(|x| n <= x.0).unwrap();
            (pre_n, most) = (p.1, p.2);
            st.add(["schedules with no switch", "thread pairs with 1 switch", "thread pairs with 2 switches", "thread pairs with 3 switches"][pre_n], 1);
            st.add("thread pairs thinned out", (n > most) as u64);
        }
        for (k, ((p, w), r)) in [a, b].into_iter().zip(r).enumerate() {
            let at = || format!("pair {} by {:?} and pair {} by {:?} in two threads with switches at events {sw:?}, thread {k}: ", a.0, a.1, b.0, b.1);
            same(e, p, w, &r.map_err(|m| at() + &m)?).map_err(|m| at() + &m)?;
        }
        if sw.len() < pre_n {
            let from = sw.last().map_or(0, |x| x + 1);
            let step = ((n - from.min(n)) / most).max(1);
            for k in (from..n).step_by(step as usize) {
                let mut x = sw.clone();
                x.push(k);
                stack.push(x);
            }
        }
    }
    Ok(())
}

fn spaces(t: Tier) -> Vec<Space> {
    let e: &'static Env = Box::leak(Box::new(env()));
    let n = e.pairs.len() as i64;
    let some = some_w();
    let (s1, s2, s3, s4) = (some.clone(), some.clone(), some.clone(), some.clone());
    let all = all_w();
    let (a1, a2) = (all.clone(), all.clone());
    let small: Vec<usize> = vec![1, 3, 4, 5, 7, 8, 9, 10];
    let tw: Vec<W> = vec![W::V(V::Cyc(Cyc::Robust)), W::V(V::Cyc(Cyc::CyclePre)), W::V(V::I11(R::Stack)), W::V(V::Unl(R::Stack)), W::V(V::Unl(R::Queue)), W::Own(R::Queue), W::Own(R::Call), W::Rng(R::Queue, 2)];
    let len = t.pick(3, 5);
    let mut seqs: Vec<Vec<i64>> = vec![];
    for l in 3..=len {
        for mut s in product(&vec![(0, small.len() as i64 - 1); l]) {
            s.iter_mut().for_each(|x| *x = small[*x as usize] as i64);
            seqs.push(s);
        }
    }
    let mut v = vec![
        tuples("after", "every ordered pair of comparisons (selected pairs of graphs with the same node identities, all variants; quick: some), the first ending normally or with a panic at its events (every one of the short ones); [first, second]", product(&[(0, n - 1), (0, n - 1)]), move |x, st| {
            history2(e, x[0] as usize, x[1] as usize, if t == Tier::Quick { &s1 } else { &a1 }, st)
        }),
        tuples("sequences", "every sequence of comparisons of 3 (thorough 5) out of eight pairs of graphs, all variants", seqs, move |x, st| {
            let s: Vec<usize> = x.iter().map(|x| *x as usize).collect();
            history(e, &s, &a2, st)
        }),
        graphs("small", "every small graph after other comparisons, finished or panicked", if t == Tier::Quick { Spec::new(3, &[0, 1, 2], &[0, 1], 2) } else { Spec::new(4, &[0, 1, 2], &[0], 2) }, move |g, st| disturbed(e, g, &s2, st)),
        tuples("nested", "a comparison within a callback of another: every ordered pair, every event of the short ones; the inner one ending normally or with a panic; [outer, inner]", product(&[(0, n - 1), (0, n - 1)]), move |x, st| {
            nest2(e, x[0] as usize, x[1] as usize, &s3, if t == Tier::Quick { &s3[..6] } else { &s3 }, st)
        }),
        tuples("nested_twice", "three comparisons within each other; [outer, middle, inner]", product(&[(3, 10), (5, 9), (5, 9)]), move |x, st| nest3(e, x[0] as usize, x[1] as usize, x[2] as usize, &s4, st)),
    ];
    // Threads.
    let mut th = vec![];
    for a in 0..tw.len() as i64 {
        for b in 0..tw.len() as i64 {
            for p in [3, 7, 8] {
                for q in [3, 5, 9] {
                    th.push(vec![a, p, b, q]);
                }
            }
        }
    }
    let pre: &'static [(u64, usize, u64)] = t.pick(&[(70, 2, 70), (300, 1, 300), (u64::MAX, 1, 60)], &[(60, 3, 60), (300, 2, 300), (4000, 1, 4000), (u64::MAX, 1, 300)]);
    v.push(tuples("threads", &format!("two threads, every schedule with a bounded number of switches at events; (events up to, switches, most positions considered): {pre:?}; [variant, pair, variant, pair]"), th, move |x, st| {
        let (a, b) = ((x[1] as usize, tw[x[0] as usize]), (x[3] as usize, tw[x[2] as usize]));
        if can(e, a.0, a.1) && can(e, b.0, b.1) {
            schedules(e, a, b, pre, st)?;
        }
        Ok(())
    }));
    if gsc_mc::runner::smaller() {
        v.retain(|s| s.name != "threads" && s.name != "nested_twice");
    }
    v
}

fn main() {
    gsc_mc::runner::main(Check {
        id: "U02",
        level: "model_checking",
        rule: "histories, nestings and thread schedules within the listed bounds on the real code; every comparison must give the result it gives alone (in a fresh thread) and the verdict of the reference search (states: reference states, transitions: comparisons or scheduled events)",
        assumptions: &["user code synchronises nothing itself; threads switch only at callbacks into user code (the crate forbids unsafe code, so shared state could only be atomics or locks)", "graph pairs as listed"],
        spaces,
    })
}
