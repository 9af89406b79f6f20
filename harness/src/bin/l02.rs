//! L02: the precheck never changes the result.
use graph_safe_compare as gsc;
use graph_safe_compare::Cmp;
use gsc::cycle_safe::modes::interleave;
use gsc_mc::graph::*;
use gsc_mc::node::*;
use gsc_mc::refm::*;
use gsc_mc::runner::*;
use gsc_mc::tables::*;
use gsc_mc::util::*;
use gsc_mc::variants::*;

/// Parameters with an instrumented table.
type T<'c, K> = inst::VecT<'c, K>;

struct Exp {
    verdict: bool,
    /// value when both orders agree on it
    bfs: Val,
    dfs: Option<Val>,
}

fn expect(g: &Graph, ra: u32, rb: u32, st: &mut Stats) -> Exp {
    let b = reference(g, ra, rb, Order::Breadth, st);
    let verdict = b.diff.is_none();
    let bfs = Diff::val(&b.diff, g);
    let dfs = if g.is_acyclic() { Some(Diff::val(&first(g, ra, rb, Order::Depth).diff, g)) } else { None };
    Exp { verdict, bfs, dfs }
}

fn judge<'c, I: interleave::Params<Node = Nd<'c, KV>>>(
    what: &str,
    cx: &'c Ctx<'c>,
    ra: u32,
    rb: u32,
    p: (R, R),
    plimit: u64,
    e: &Exp,
    st: &mut Stats,
) -> Result<(), String>
where
    I::Table: gsc::generic::equiv_classes::Table<Node = Nd<'c, KV>>,
{
    st.execs += 1;
    reset_stats();
    cx.reset(budget(cx.g) + 100 * plimit);
    let got = pre_inter::<KV, I>(p, nd(cx, ra, 0), nd(cx, rb, 1));
    let w = format!("{what}, precheck limit {plimit}, modes {p:?}");
    cx.result().map_err(|m| format!("{w}: {m}"))?;
    if got.is_equiv() != e.verdict {
        return Err(format!("{w}: answers {got:?}, without precheck the answer is equivalent={}", e.verdict));
    }
    let (_, need) = search(cx.g, ra, rb, p.0.order(), false, plimit + 1);
    let completes = matches!(need, Some(n) if n <= plimit);
    st.outcome((completes, got));
    let main = match p.1 {
        R::Queue => Some(e.bfs),
        _ => e.dfs,
    };
    let value = if completes {
        // the precheck's own order decides
        match p.0 {
            R::Queue => Some(e.bfs),
            _ => e.dfs,
        }
    } else {
        main
    };
    // With the same order before and after, the result is that without a precheck.
    if (p.0 == R::Queue) == (p.1 == R::Queue) {
        if let Some(v) = value {
            if !v.is_equiv() && v != got {
                return Err(format!("{w}: answers {got:?}, without precheck {v:?}"));
            }
        }
    }
    let tb = TB.with(|t| t.get());
    if completes {
        if tb.gets + tb.inserts > 0 {
            return Err(format!("{w}: the equivalence table was consulted although the precheck completes"));
        }
        if cx.n_cmp.get() > need.unwrap() {
            return Err(format!("{w}: {} value comparisons, but the precheck completes after {} pairs", cx.n_cmp.get(), need.unwrap()));
        }
    }
    if tb.live != 0 {
        return Err(format!("{w}: table not released"));
    }
    Ok(())
}

macro_rules! concat_with { ($I:ident, $F:ident, $S:ident, $P:ident, $g:ident, $p:ident, $st:ident) => {{
    let (g, p, st) = ($g, $p, $st);
    let cx = Ctx::new(g, 0, 0).logged();
    set_rng(RngMode::Max);
    st.execs += 1;
    cx.reset(budget(g));
    let _ = pre_inter::<KV, $I<$F, $S, $P>>(p, nd(&cx, 0, 0), nd(&cx, g.rb, 1));
    let whole = cx.log_cmp.as_ref().unwrap().borrow().clone();
    cx.reset(budget(g));
    let lim = lim32(p.0, $P as u32, nd::<KV>(&cx, 0, 0), nd(&cx, g.rb, 1));
    let pre = cx.log_cmp.as_ref().unwrap().borrow().clone();
    let mut want = pre;
    if lim.is_err() {
        cx.reset(budget(g));
        let (a, b) = (nd(&cx, 0, 0), nd(&cx, g.rb, 1));
        match p.1 {
            R::Call => inter_call::<_, $I<$F, $S, $P>>(a, b),
            R::Queue => inter_queue::<_, $I<$F, $S, $P>>(a, b),
            R::Stack => inter_stack::<_, $I<$F, $S, $P>>(a, b),
        };
        want.extend(cx.log_cmp.as_ref().unwrap().borrow().iter().copied());
    }
    if whole != want {
        return Err(format!(
            "modes {p:?}, precheck limit {}, fast limit {}, slow limit {}: the value comparisons {} are not those of the precheck's limit followed by those of a comparison without precheck {}",
            $P, $F, $S, few_of(&whole), few_of(&want)
        ));
    }
    Ok(())
}} }
fn few_of<X: std::fmt::Debug>(v: &[X]) -> String {
    if v.len() <= 40 { format!("{v:?}") } else { format!("({}) {:?}..{:?}", v.len(), &v[..10], &v[v.len() - 10..]) }
}

/// The value comparisons made with a precheck that is aborted are those of the precheck's first
/// `P` pairs followed by exactly those of the comparison without precheck.
fn concat<const F: u16, const S: u16, const P: u16>(g: &Graph, p: (R, R), st: &mut Stats) -> Result<(), String> {
    type I<'c, const F: u16, const S: u16, const P: u16> = IP<T<'c, KV>, F, S, P>;
    concat_with!(I, F, S, P, g, p, st)
}
/// The same with a table for many nodes.
fn concat_big<const F: u16, const S: u16, const P: u16>(g: &Graph, p: (R, R), st: &mut Stats) -> Result<(), String> {
    type I<'c, const F: u16, const S: u16, const P: u16> = IP<inst::HashT<'c, KV>, F, S, P>;
    concat_with!(I, F, S, P, g, p, st)
}
fn few<const F: u16, const S: u16>(g: &Graph, st: &mut Stats) -> Result<(), String> {
    let e = expect(g, 0, g.rb, st);
    let cx = Ctx::new(g, 0, 0);
    for p in PRES {
        macro_rules! pl { ($($l:literal)*) => { $(
            all_rng(st, |st| judge::<IP<T<'_, KV>, F, S, $l>>("small limits", &cx, 0, g.rb, p, $l, &e, st))?;
            concat::<F, S, $l>(g, p, st)?;
        )* } }
        pl!(1 3 6);
    }
    Ok(())
}

fn small<const F: u16, const S: u16>(g: &Graph, st: &mut Stats) -> Result<(), String> {
    let e = expect(g, 0, g.rb, st);
    let cx = Ctx::new(g, 0, 0);
    for p in PRES {
        macro_rules! pl { ($($l:literal)*) => { $(
            all_rng(st, |st| judge::<IP<T<'_, KV>, F, S, $l>>("small limits", &cx, 0, g.rb, p, $l, &e, st))?;
            concat::<F, S, $l>(g, p, st)?;
        )* } }
        pl!(0 1 2 3 4 6 9);
    }
    Ok(())
}

fn premade(g: &Graph, ra: u32, rb: u32, plimits: bool, most: bool, st: &mut Stats) -> Result<(), String> {
    let e = expect(g, ra, rb, st);
    let cx = Ctx::new(g, 0, 0);
    for c in [Cyc::RobustPre, Cyc::CyclePre] {
        st.execs += 1;
        cx.reset(budget(g));
        let got = cyc(c, nd::<KV>(&cx, ra, 0), nd(&cx, rb, 1));
        if got.is_equiv() != e.verdict || (c == Cyc::RobustPre && !e.verdict && got != e.bfs) {
            return Err(format!("{c:?}: answers {got:?}, without precheck {:?}", e.bfs));
        }
    }
    if plimits && most {
        for p in PRES {
            set_rng(RngMode::Zero);
            judge::<IP<inst::HashT<'_, KV>, 3, 2, 65535>>("greatest precheck limit", &cx, ra, rb, p, 65535, &e, st)?;
        }
    }
    if plimits {
        for r in [RngMode::Zero, RngMode::Max, RngMode::Seq(3)] {
            set_rng(r);
            for p in PRES {
                macro_rules! pl { ($($l:literal)*) => { $( judge::<IPD<inst::HashT<'_, KV>, $l>>("derived limits", &cx, ra, rb, p, $l, &e, st)?; )* } }
                pl!(10 20 400);
            }
        }
    }
    Ok(())
}

/// A comparison state that was used - stopped at every limit - and converted, twice, compares as a fresh one.
fn convert<const F: u16, const S: u16>(g: &Graph, st: &mut Stats) -> Result<(), String> {
    use gsc::basic::modes::limited::Limited;
    use gsc::basic::recursion::callstack::CallStack;
    use gsc::deep_safe::recursion::queue::RecurQueue;
    use gsc::generic::equiv::Equiv;
    use gsc::wide_safe::recursion::stack::RecurStack;
    use gsc_mc::modes::LP;
    type N<'c> = Nd<'c, KV>;
    type I<'c, const F: u16, const S: u16> = IP<T<'c, KV>, F, S, 1>;
    reference(g, 0, g.rb, Order::Breadth, st);
    let cx = Ctx::new(g, 0, 0).logged();
    let len = |cx: &Ctx| cx.log_cmp.as_ref().unwrap().borrow().len();
    let tail = |cx: &Ctx, k: usize| cx.log_cmp.as_ref().unwrap().borrow()[k..].to_vec();
    for m in [RngMode::Max, RngMode::Zero] {
        macro_rules! combo { ($($from:ty, $mid:ident, $fresh:ident;)*) => { $(
            let fresh = |ra: u32, rb: u32| {
                set_rng(m);
                cx.reset(budget(g));
                let v = $fresh::<_, I<F, S>>(nd(&cx, ra, 0), nd(&cx, rb, 1));
                (v, tail(&cx, 0))
            };
            let (w1, w2) = (fresh(0, g.rb), fresh(g.rb, 0));
            for (xa, xb) in [(0, g.rb), (g.rb, 0)] {
                for l in 0..1000 {
                    st.execs += 1;
                    cx.reset(3 * budget(g));
                    let mut e = Equiv::<LP<N<'_>, $from>>::new(Limited(l));
                    let ended = e.equiv(nd(&cx, xa, 0), nd(&cx, xb, 1)).is_ok();
                    let mut e: Equiv<$mid<I<'_, F, S>>> = e.into();
                    let k = len(&cx);
                    set_rng(m);
                    let v = ok(e.equiv(nd(&cx, 0, 0), nd(&cx, g.rb, 1)));
                    st.outcome((ended, l, v));
                    let got = (v, tail(&cx, k));
                    let mut e: Equiv<$mid<I<'_, F, S>>> = Equiv::<$mid<I<'_, F, S>>>::from(e);
                    let k = len(&cx);
                    set_rng(m);
                    let v = ok(e.equiv(nd(&cx, g.rb, 0), nd(&cx, 0, 1)));
                    let got2 = (v, tail(&cx, k));
                    drop(e);
                    for (what, got, want) in [("converted once", &got, &w1), ("converted twice", &got2, &w2)] {
                        if got != want {
                            return Err(format!(
                                "{} to {}, {what} after a comparison limited to {l} pairs, fast limit {F}, slow limit {S}, random {m:?}: result and value comparisons {got:?}; with a new state {want:?}",
                                stringify!($from), stringify!($mid)
                            ));
                        }
                    }
                    if ended || l >= 12 {
                        break;
                    }
                }
            }
        )* } }
        combo! {
            CallStack, EpCall, inter_call;
            CallStack, EpQueue, inter_queue;
            CallStack, EpStack, inter_stack;
            RecurQueue<QP<N<'_>>>, EpQueue, inter_queue;
            RecurStack<SP<N<'_>>>, EpStack, inter_stack;
        }
    }
    Ok(())
}

/// Large precheck limits, at need: [limit, need - limit, shape, mode combination]
fn large(t: &[i64], st: &mut Stats) -> Result<(), String> {
    let n = (t[0] + t[1]) as u32;
    let mut g = Graph::new();
    for _ in 0..2 {
        let o = g.n() as u32;
        for i in 0..n {
            let more = i + 1 < n;
            let _ = match t[2] {
                // A list; a wide node; twigs.
                0 => g.push(0, &if more { vec![o + i + 1] } else { vec![] }),
                1 => g.push(0, &if i == 0 { (o + 1..o + n).collect() } else { vec![] }),
                _ => g.push(0, &[o + 2 * i + 1, o + 2 * i + 2].into_iter().filter(|x| *x < o + n).collect::<Vec<_>>()),
            };
        }
    }
    g.rb = n;
    let e = expect(&g, 0, g.rb, st);
    let p = PRES[t[3] as usize];
    macro_rules! pl { ($($l:literal)*) => { match t[0] { $($l => {
        let cx = Ctx::new(&g, 0, 0);
        set_rng(RngMode::Max);
        judge::<IP<inst::HashT<'_, KV>, 3, 5, $l>>("large limits", &cx, 0, g.rb, p, $l, &e, st)?;
        concat_big::<3, 5, $l>(&g, p, st)
    })* _ => unreachable!() } } }
    pl!(127 128 255 256 257 511 512 1000 4096 32767 32768 65534 65535)
}

fn spaces(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    let mut fi = fam_items(&all_families(), &[1, 2, 3, 4, 5, 6, 7, 9, 11], &[1, 2, 3, 4], 11);
    fi.extend(fam_items(&all_families(), &[132, 133, 134, 198, 199, 200, 201, 202, 398, 399, 400, 401], &[1, 2], 0));
    let d = "precheck limits 0,1,2,3,4,6,9, five mode combinations, every random sequence";
    let mut v = vec![
        graphs("small", d, Spec::new(3, &[0, 1, 2], &[0, 1], 2), |g, st| {
            small::<1, 1>(g, st)?;
            small::<0, 2>(g, st)
        }),
        graphs("four", "precheck limits 1,3,6, five mode combinations, every random sequence", Spec::new(4, &[0, 1, 2], &[0], 2), |g, st| {
            few::<1, 1>(g, st)?;
            few::<0, 2>(g, st)
        }),
        graphs("acyclic", d, Spec::new(4, &[0, 1, 2], &[0, 1], 2).acyclic(), small::<1, 1>),
        graphs("deg3", d, Spec::new(3, &[0, 2, 3], &[0], 2), small::<0, 1>),
        graphs("convert", "states used up to every limit and converted to another kind of comparison, twice, five mode combinations", if q { Spec::new(3, &[0, 1, 2], &[0, 1], 2) } else { Spec::new(3, &[0, 1, 2, 3], &[0, 1], 2) }, |g, st| {
            convert::<1, 1>(g, st)?;
            convert::<0, 2>(g, st)
        }),
        tuples("families", "families around the default precheck limit; [family,size,size,mutation,position]", fi, |t, st| {
            let (g, rb) = fam_graph(t);
            if t[1] > 100 && !(t[1] == t[2]) {
                return Ok(());
            }
            premade(&g, 0, rb, true, (t[3] == 0 || (t[4] == 0 && t[3] == 1)) && t[1] < 4, st)
        }),
    ];
    let mut big = vec![];
    for l in [127, 128, 255, 256, 257, 511, 512, 1000, 4096, 32767, 32768, 65534, 65535] {
        for d in -1..=2 {
            for k in 0..3 {
                for p in 0..PRES.len() as i64 {
                    big.push(vec![l, d, k, p]);
                }
            }
        }
    }
    v.push(tuples("large_limits", "precheck limits up to 65535 and graphs that need one pair less to two more; [limit, need - limit, shape, modes]", big, large));
    if !q {
        v.push(graphs("four_all", d, Spec::new(4, &[0, 1, 2], &[0], 2), |g, st| {
            small::<1, 1>(g, st)?;
            small::<0, 2>(g, st)
        }));
        v.push(graphs("four_labels", d, Spec::new(4, &[0, 1, 2], &[0, 1], 2), small::<1, 1>));
        v.push(graphs("convert_four", "states used up to every limit and converted, twice", Spec::new(4, &[0, 1, 2], &[0], 2), |g, st| convert::<1, 1>(g, st)));
        v.push(graphs("acyclic_five", d, Spec::new(5, &[0, 1, 2], &[0, 1], 2).acyclic(), small::<1, 1>));
    }
    v
}

fn main() {
    gsc_mc::runner::main(Check {
        id: "L02",
        level: "model_checking",
        rule: "reference: product search (verdict, first difference) and unpruned traversal (pairs needed by the precheck); every graph pair, precheck limit, mode combination and random sequence of each space; verdict and value must be those without precheck, the table must not be consulted when the precheck completes, and the value comparisons must be those of the precheck alone followed by those of the comparison alone",
        assumptions: &["graphs, degrees, labels and limits within the bounds of each listed space", "distinct positions have distinct 64-bit path hashes"],
        spaces,
    })
}
