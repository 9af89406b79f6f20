//! R03: every comparison releases everything it took, however it ends.
use gsc_mc::alloc;
use gsc_mc::graph::*;
use gsc_mc::modes::*;
use gsc_mc::node::*;
use gsc_mc::refm::*;
use gsc_mc::runner::*;
use gsc_mc::tables::*;
use gsc_mc::util::*;
use gsc_mc::variants::*;
use std::cell::Cell;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

/// The panic of user code.
struct Boom;
thread_local! {
    static LEFT: Cell<u64> = const { Cell::new(u64::MAX) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
}
/// An event in user code; the chosen one panics.
fn event() {
    COUNT.with(|c| c.set(c.get() + 1));
    LEFT.with(|l| {
        let v = l.get();
        if v == 0 {
            if std::thread::panicking() {
                return;
            }
            l.set(u64::MAX);
            resume_unwind(Box::new(Boom));
        }
        if v != u64::MAX {
            l.set(v - 1);
        }
    });
}
fn hook(_: Ev) {
    event()
}

/// Which comparison.
#[derive(Clone, Copy, Debug, PartialEq)]
enum W {
    V(V),
    /// an instrumented table and shared pointer; which store, recursion mode
    Inst(u8, R),
    /// user-supplied modes
    Own(Style),
    Post(Style),
    Pre(usize, Style),
}
fn go<'c>(w: W, a: Nd<'c, KB>, b: Nd<'c, KB>) -> Result<bool, String> {
    match w {
        W::V(v) => run::<KB>(v, a, b).map_err(|_| String::new()),
        W::Inst(0, r) => Ok(inter_r::<IP<inst::VecT<'c, KB>, 1, 1, 1>>(r, a, b)),
        W::Inst(1, r) => Ok(inter_r::<IP<inst::TreeT<'c, KB>, 1, 1, 1>>(r, a, b)),
        W::Inst(_, r) => Ok(inter_r::<IP<inst::HashT<'c, KB>, 0, 2, 1>>(r, a, b)),
        W::Own(_) => own_run::<KB>(a, b).map_err(|_| String::new()),
        W::Post(_) => post_run::<KB>(a, b).map_err(|_| String::new()),
        W::Pre(c, _) => gp_run::<KB, IP<inst::VecT<'c, KB>, 1, 1, 2>>(c, a, b).map_err(|_| String::new()),
    }
}
fn inter_r<'c, I: graph_safe_compare::cycle_safe::modes::interleave::Params<Node = Nd<'c, KB>>>(r: R, a: Nd<'c, KB>, b: Nd<'c, KB>) -> bool
where
    I::Table: graph_safe_compare::generic::equiv_classes::Table<Node = Nd<'c, KB>>,
{
    match r {
        R::Call => inter_call::<_, I>(a, b),
        R::Queue => inter_queue::<_, I>(a, b),
        R::Stack => inter_stack::<_, I>(a, b),
    }
}

/// One run; what is left afterwards.
fn once(cx: &Ctx, ra: u32, rb: u32, w: W, at: u64) -> Result<(u8, u64), String> {
    reset_stats();
    cx.reset(1 << 22);
    LEFT.with(|l| l.set(u64::MAX));
    COUNT.with(|c| c.set(0));
    if let W::Own(s) | W::Post(s) | W::Pre(_, s) = w {
        ask_reset(0, 24, false);
        alloc::uncounted(|| own_reset(s, 0, 0, false));
    }
    let (a, b) = (nd::<KB>(cx, ra, 0), nd(cx, rb, 1));
    let base = alloc::live();
    LEFT.with(|l| l.set(at));
    USER.with(|u| u.set(Some(event)));
    let r = catch_unwind(AssertUnwindSafe(|| go(w, a, b)));
    USER.with(|u| u.set(None));
    LEFT.with(|l| l.set(u64::MAX));
    let how = match r {
        Ok(Ok(true)) => 0,
        Ok(Ok(false)) => 1,
        Ok(Err(_)) => 2,
        Err(p) => {
            let b = p.is::<Boom>();
            if !b {
                resume_unwind(p);
            }
            drop(p);
            3
        }
    };
    let n = COUNT.with(|c| c.get());
    if let W::Own(_) | W::Post(_) | W::Pre(..) = w {
        // the explorer's own logs
        ask_reset(0, 0, false);
        own_reset(Style::Queue, 0, 0, false);
    }
    left(cx, base, matches!(w, W::Own(_) | W::Post(_) | W::Pre(..)))?;
    Ok((how, n))
}
fn left(cx: &Ctx, base: i64, logs: bool) -> Result<(), String> {
    if cx.live.get() != 0 {
        return Err(format!("{} node values not dropped", cx.live.get()));
    }
    let (r, t) = (RC.with(|r| r.get()), TB.with(|t| t.get()));
    if r.live != 0 || r.handles != 0 || t.live != 0 {
        return Err(format!("{} class objects, {} shared pointers and {} tables not dropped", r.live, r.handles, t.live));
    }
    let d = alloc::live() - base;
    if d != 0 && !logs {
        return Err(format!("{d} bytes of memory not released"));
    }
    Ok(())
}
const HOWS: [&str; 4] = ["equivalent", "inequivalent", "error", "panic"];

fn check(g: &Graph, ra: u32, rb: u32, ws: &[W], drops: bool, every: u64, st: &mut Stats) -> Result<(), String> {
    let acyclic = g.is_acyclic();
    let h = hook;
    let cx = Ctx::new(g, 0, if drops { M_DROP } else { 0 }).hooked(&h);
    reference(g, ra, rb, Order::Breadth, st);
    for &w in ws {
        if matches!(w, W::V(V::Unl(_))) && !acyclic {
            continue;
        }
        set_rng(RngMode::Seq(9));
        let (how, n) = once(&cx, ra, rb, w, u64::MAX).map_err(|m| format!("{w:?}: {m}"))?;
        st.execs += 1;
        st.outcome((how, n));
        let mut k = 0;
        while k < n {
            set_rng(RngMode::Seq(9));
            let (how, _) = once(&cx, ra, rb, w, k).map_err(|m| format!("{w:?}, panic in event {k} of {n}: {m}"))?;
            st.execs += 1;
            st.nontrivial += 1;
            st.add(HOWS[how as usize], 1);
            // the premade ones go through hundreds of repetitions in cycles
            let (edge, every) = if matches!(w, W::V(V::Cyc(_))) { (12, 29.max(every)) } else { (40, every) };
            k += if k < edge || k + edge > n { 1 } else { every };
        }
        st.add(HOWS[how as usize], 1);
    }
    Ok(())
}
fn limits(g: &Graph, cap: u32, st: &mut Stats) -> Result<(), String> {
    let h = hook;
    let cx = Ctx::new(g, 0, 0).hooked(&h);
    for r in RS {
        for l in 0..=cap {
            let w = W::V(V::Lim(r, l));
            let (how, n) = once(&cx, 0, g.rb, w, u64::MAX).map_err(|m| format!("{w:?}: {m}"))?;
            st.execs += 1;
            st.add(HOWS[how as usize], 1);
            if l <= 3 || how != 2 {
                for k in 0..n {
                    once(&cx, 0, g.rb, w, k).map_err(|m| format!("{w:?}, panic in event {k} of {n}: {m}"))?;
                    st.execs += 1;
                    st.nontrivial += 1;
                }
            }
            if how != 2 {
                break;
            }
        }
    }
    Ok(())
}
/// Errors of user-supplied modes at every point.
fn errors(g: &Graph, free: u32, st: &mut Stats) -> Result<(), String> {
    let cx = Ctx::new(g, 0, 0);
    let fin = |w: String, st: &mut Stats| {
        st.execs += 1;
        left(&cx, 0, true).map_err(|m| format!("{w}: {m}"))
    };
    for r in RS {
        all_rng(st, |st| {
            ask_reset(free, 20, true);
            reset_stats();
            cx.reset(1 << 20);
            let _ = ask_run::<KB>(r, nd(&cx, 0, 0), nd(&cx, g.rb, 1));
            fin(format!("{r:?} and a user-supplied descend mode"), st)
        })?;
    }
    for style in [Style::Any, Style::AnyEager, Style::Stack] {
        few_rng(st, 3, |st| {
            ask_reset(0, 20, false);
            own_reset(style, free, 1, true);
            reset_stats();
            cx.reset(1 << 20);
            let _ = own_run::<KB>(nd(&cx, 0, 0), nd(&cx, g.rb, 1));
            fin(format!("a user-supplied recursion mode ({style:?})"), st)
        })?;
    }
    for c in 0..COMBOS {
        for style in [Style::Queue, Style::Stack] {
            few_rng(st, 2, |st| {
                ask_reset(0, 20, false);
                own_reset(style, 30, 3, false);
                reset_stats();
                cx.reset(1 << 20);
                let _ = gp_run::<KB, IP<inst::VecT<'_, KB>, 1, 1, 2>>(c, nd(&cx, 0, 0), nd(&cx, g.rb, 1));
                fin(format!("user-supplied recursion modes of precheck and interleaving ({c}, {style:?})"), st)
            })?;
        }
    }
    Ok(())
}

fn ws() -> Vec<W> {
    let mut v: Vec<W> = unl_variants().into_iter().map(W::V).collect();
    for r in RS {
        v.extend([W::V(V::I01(r)), W::V(V::I11(r)), W::Inst(0, r), W::Inst(1, r), W::Inst(2, r)]);
    }
    for p in 0..5 {
        v.extend([W::V(V::P1(p)), W::V(V::P3(p))]);
    }
    v.extend(CYCS.map(|c| W::V(V::Cyc(c))));
    for s in [Style::Queue, Style::Stack, Style::Now] {
        v.push(W::Own(s));
        v.push(W::Pre(0, s));
    }
    v.extend([W::Post(Style::Queue), W::Pre(3, Style::Queue)]);
    v
}

fn spaces(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    let what = "every variant, ending by itself and by a panic in every callback of the nodes, tables, shared pointers and random source (premade cycle-safe ones, which go round cycles hundreds of times: the first and last 12 and every 29th between)";
    let few: Vec<W> = [V::Unl(R::Queue), V::Unl(R::Stack), V::I11(R::Queue), V::I01(R::Stack), V::P2(3), V::P1(4), V::Cyc(Cyc::RobustPre)].map(W::V).into_iter().chain([W::Inst(1, R::Queue)]).collect();
    let (w1, w2, w3, w4) = (ws(), few.clone(), few.clone(), few.clone());
    let mut v = vec![
        graphs("small", what, if q { Spec::new(3, &[0, 1, 2], &[0], 2) } else { Spec::new(3, &[0, 1, 2], &[0, 1], 2) }, move |g, st| {
            check(g, 0, g.rb, &w1, false, 1, st)?;
            limits(g, 12, st)
        }),
        graphs("drops", "as small, and in every release of a node", Spec::new(3, &[0, 1, 2], &[0], 2), move |g, st| check(g, 0, g.rb, &w2, true, 1, st)),
        graphs("errors", "errors and answers of user-supplied modes at every point", Spec::new(3, &[0, 1, 2], &[0], 2), move |g, st| errors(g, t.pick(5, 7), st)),
        graphs("labels", what, Spec::new(3, &[0, 1, 2], &[0, 1], 2), move |g, st| check(g, 0, g.rb, &w3, false, 1, st)),
        tuples("families", "families, panics in the first and last 40 callbacks and every 17th between; [family,size,size,mutation,position]", fam_items(&all_families(), &[3, 9, 45, 150], &[1, 3], 3), move |x, st| {
            let (g, rb) = fam_graph(x);
            let mut w = w4.clone();
            if !family_is_thin(x[0] as usize) {
                w.retain(|w| !matches!(w, W::V(V::Unl(_))));
            }
            check(&g, 0, rb, &w, false, 17, st)
        }),
    ];
    if !q {
        v.push(graphs("four", what, Spec::new(4, &[0, 1, 2], &[0], 2), move |g, st| check(g, 0, g.rb, &few, false, 1, st)));
    }
    v
}

fn main() {
    gsc_mc::runner::main(Check {
        id: "R03",
        level: "model_checking",
        rule: "every callback of every execution made to panic once; also all other endings; afterwards the node values, class objects, shared pointers, tables and heap bytes taken must all have been given back",
        assumptions: &["a node value can be dropped at most once in safe Rust; the counters show that it is dropped at least once"],
        spaces,
    })
}
