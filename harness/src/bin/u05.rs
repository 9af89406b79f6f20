//! U05: no comparison panics or overflows, whatever the constants and sizes.
use core::num::NonZeroU16;
use graph_safe_compare as gsc;
use gsc::basic::recursion::callstack::CallStack;
use gsc::cycle_safe::modes::interleave::{self, Interleave};
use gsc::deep_safe::recursion::queue::{self, RecurQueue};
use gsc::generic::equiv::{self, Equiv};
use gsc::generic::equiv_classes::{premade::hash_map, Table};
use gsc::generic::precheck_interleave;
use gsc::wide_safe::recursion::stack::{self, RecurStack};
use gsc::Node;
use gsc_mc::graph::*;
use gsc_mc::node::*;
use gsc_mc::refm::*;
use gsc_mc::runner::*;
use gsc_mc::util::*;
use gsc_mc::variants::*;
use std::convert::Infallible;
use std::marker::PhantomData;

type N<'c> = Nd<'c, KB>;
/// Everything configurable: limits and the capacities of the queue, the stack and the table.
struct X<'c, const F: u16, const S: u16, const P: u16, const C: usize>(PhantomData<&'c ()>);
impl<'c, const F: u16, const S: u16, const P: u16, const C: usize> interleave::Params for X<'c, F, S, P, C> {
    const PRECHECK_LIMIT: u16 = P;
    const FAST_LIMIT_MAX: u16 = F;
    const SLOW_LIMIT: u16 = S;
    type Node = N<'c>;
    type Table = hash_map::Table<Self>;
    type RNG = EnvRng;
}
impl<'c, const F: u16, const S: u16, const P: u16, const C: usize> hash_map::Params for X<'c, F, S, P, C> {
    const INITIAL_CAPACITY: usize = C;
    type Node = N<'c>;
}
impl<'c, const F: u16, const S: u16, const P: u16, const C: usize> queue::Params for X<'c, F, S, P, C> {
    const INITIAL_CAPACITY: usize = C;
    type Node = N<'c>;
}
impl<'c, const F: u16, const S: u16, const P: u16, const C: usize> stack::Params for X<'c, F, S, P, C> {
    const INITIAL_CAPACITY: usize = C;
    type Node = N<'c>;
}
struct E<I, M>(PhantomData<(I, M)>);
macro_rules! e { ($($m:ty),*) => { $(
    impl<'c, const F: u16, const S: u16, const P: u16, const C: usize> equiv::Params for E<X<'c, F, S, P, C>, $m> {
        type Node = N<'c>;
        type DescendMode = Interleave<X<'c, F, S, P, C>>;
        type RecurMode = $m;
        type Error = Infallible;
    }
    impl<'c, const F: u16, const S: u16, const P: u16, const C: usize> precheck_interleave::Params<N<'c>> for E<X<'c, F, S, P, C>, $m> {
        type PrecheckRecurMode = $m;
        type InterleaveRecurMode = $m;
        type InterleaveParams = X<'c, F, S, P, C>;
        type Error = Infallible;
    }
)* } }
e!(CallStack, RecurQueue<X<'c, F, S, P, C>>, RecurStack<X<'c, F, S, P, C>>);

type Run = for<'c> fn(R, bool, N<'c>, N<'c>) -> bool;
fn x<'c, const F: u16, const S: u16, const P: u16, const C: usize>(r: R, pre: bool, a: N<'c>, b: N<'c>) -> bool {
    match (r, pre) {
        (R::Call, false) => ok(Equiv::<E<X<F, S, P, C>, CallStack>>::default().equiv(a, b)),
        (R::Queue, false) => ok(Equiv::<E<X<F, S, P, C>, RecurQueue<X<F, S, P, C>>>>::default().equiv(a, b)),
        (R::Stack, false) => ok(Equiv::<E<X<F, S, P, C>, RecurStack<X<F, S, P, C>>>>::default().equiv(a, b)),
        (R::Call, true) => ok(precheck_interleave::equiv::<_, E<X<F, S, P, C>, CallStack>>(a, b)),
        (R::Queue, true) => ok(precheck_interleave::equiv::<_, E<X<F, S, P, C>, RecurQueue<X<F, S, P, C>>>>(a, b)),
        (R::Stack, true) => ok(precheck_interleave::equiv::<_, E<X<F, S, P, C>, RecurStack<X<F, S, P, C>>>>(a, b)),
    }
}
/// (fast maximum, slow limit, precheck limit, capacity)
const CONSTS: &[((u16, u16, u16, usize), Run)] = &[
    ((0, 1, 0, 0), x::<0, 1, 0, 0>),
    ((0, 65535, 0, 0), x::<0, 65535, 0, 0>),
    ((65534, 1, 0, 1), x::<65534, 1, 0, 1>),
    ((65534, 65535, 65535, 0), x::<65534, 65535, 65535, 0>),
    ((65534, 32768, 1, 3), x::<65534, 32768, 1, 3>),
    ((32767, 32767, 32767, 0), x::<32767, 32767, 32767, 0>),
    ((32768, 65535, 32768, 100_000), x::<32768, 65535, 32768, 100_000>),
    ((1, 1, 65535, 0), x::<1, 1, 65535, 0>),
    ((0, 2, 65534, 0), x::<0, 2, 65534, 0>),
    ((65533, 2, 2, 0), x::<65533, 2, 2, 0>),
    ((255, 256, 255, 0), x::<255, 256, 255, 0>),
    ((256, 255, 256, 7), x::<256, 255, 256, 7>),
];
/// Only the precheck limit given.
type RunD = for<'c> fn(R, Option<usize>, N<'c>, N<'c>) -> bool;
fn d<'c, const P: u16>(r: R, pre: Option<usize>, a: N<'c>, b: N<'c>) -> bool {
    type I<'c, const P: u16> = IPD<<Hm as Tk>::T<'c, KB>, P>;
    match (pre, r) {
        (Some(p), _) => pre_inter::<KB, I<'c, P>>(PRES[p], a, b),
        (None, R::Call) => inter_call::<_, I<'c, P>>(a, b),
        (None, R::Queue) => inter_queue::<_, I<'c, P>>(a, b),
        (None, R::Stack) => inter_stack::<_, I<'c, P>>(a, b),
    }
}
const DERIVED: &[(u16, RunD)] = &[(0, d::<0>), (1, d::<1>), (9, d::<9>), (10, d::<10>), (19, d::<19>), (399, d::<399>), (32766, d::<32766>), (32767, d::<32767>)];

/// How deep the call-stack recursion goes at most here.
const CALL_DEEP: u64 = 200_000;

fn large(k: usize, g: &Graph, rb: u32, m: RngMode, st: &mut Stats) -> Result<(), String> {
    let want = reference(g, 0, rb, Order::Breadth, st).diff.is_none();
    let cx = Ctx::new(g, 0, 0);
    let ((f, s, p, c), run) = CONSTS[k];
    let b = g.branches();
    // How long (and, by recursion, how deep) it may become; see W01.
    let deep = if g.is_acyclic() && g.tgt.len() as u64 <= g.n() as u64 { b } else { b + (f as u64 + 1) * (b / s as u64) };
    if deep * g.max_deg() > 4_000_000 {
        st.add("skipped as too long", 1);
        return Ok(());
    }
    for r in RS {
        if r == R::Call && deep > CALL_DEEP {
            continue;
        }
        for pre in [false, true] {
            set_rng(m);
            cx.reset(u64::MAX);
            // generously
            cx.budget.set(10_000 + 64 * (g.max_deg() + 2) * (1 + p as u64 + g.max_deg() * (b + (f as u64 + 1) * (b / s as u64))));
            let v = run(r, pre, nd(&cx, 0, 0), nd(&cx, rb, 1));
            st.execs += 1;
            st.outcome((k, r, pre, v));
            if v != want {
                return Err(format!("{r:?}, precheck {pre}, fast {f}, slow {s}, precheck {p}, capacity {c}, random {m:?}: the result is {v}"));
            }
        }
    }
    Ok(())
}
fn derived(g: &Graph, rb: u32, m: RngMode, st: &mut Stats) -> Result<(), String> {
    let want = reference(g, 0, rb, Order::Breadth, st).diff.is_none();
    let cx = Ctx::new(g, 0, 0);
    for (p, run) in DERIVED {
        let (f, s) = (2 * *p as u64, (*p as u64 / 10).max(1));
        let b = g.branches();
        let deep = if g.is_acyclic() { b } else { b + (f + 1) * (b / s) };
        for (r, pre) in RS.map(|r| (r, None)).into_iter().chain((0..5).map(|p| (R::Call, Some(p)))) {
            let call = matches!((r, pre), (R::Call, None)) || pre.is_some_and(|p| matches!(PRES[p].1, R::Call));
            if call && deep > CALL_DEEP {
                continue;
            }
            set_rng(m);
            cx.reset(u64::MAX);
            let v = run(r, pre, nd(&cx, 0, 0), nd(&cx, rb, 1));
            st.execs += 1;
            st.outcome((p, r, pre, v));
            if v != want {
                return Err(format!("{r:?}, precheck mode {pre:?}, only the precheck limit {p} given, random {m:?}: the result is {v}"));
            }
        }
    }
    Ok(())
}
/// Premade comparators and the unlimited/limited modes, large.
fn others(g: &Graph, rb: u32, acyclic: bool, st: &mut Stats) -> Result<(), String> {
    let o = reference(g, 0, rb, Order::Breadth, st);
    let want = o.diff.is_none();
    let cx = Ctx::new(g, 0, 0);
    let mut vs = premade_variants();
    vs.extend(RS.map(V::Dflt));
    vs.extend((0..5).map(V::P400));
    if acyclic {
        vs.extend(unl_variants());
    }
    let b = g.branches();
    let too_deep = if g.is_acyclic() { b } else { b + 801 * (b / 40) } > CALL_DEEP;
    for v in vs {
        if too_deep && v.r() == R::Call {
            continue;
        }
        set_rng(RngMode::Max);
        cx.reset(u64::MAX);
        let r = run::<KB>(v, nd(&cx, 0, 0), nd(&cx, rb, 1)).ok();
        st.execs += 1;
        st.outcome((v, r));
        if r != Some(want) {
            return Err(format!("{v:?}: the result is {r:?}"));
        }
    }
    for r in RS {
        macro_rules! l { ($($f:ident $t:ty),*) => { $(
            for l in [0, 1, 2, <$t>::MAX / 2, <$t>::MAX - 1, <$t>::MAX] {
                if !acyclic && l as u128 > 1 << 20 || r == R::Call && (l as u128).min(if acyclic { b as u128 } else { u128::MAX }) > CALL_DEEP as u128 {
                    continue;
                }
                cx.reset(u64::MAX);
                let x = $f(r, l, nd::<KB>(&cx, 0, 0), nd(&cx, rb, 1));
                st.execs += 1;
                match x {
                    Ok(v) if v == want => (),
                    Err(_) if (l as u128) < 4 * o.states as u128 + 4 || !acyclic => (),
                    x => return Err(format!("{r:?} with limit {l} ({}): the result is {x:?}", stringify!($t))),
                }
            }
        )* } }
        l!(lim8 u8, lim16 u16, lim32 u32, lim64 u64, lim128 u128, limsize usize);
    }
    Ok(())
}
/// The associated constants computed from the limits.
fn consts<const F: u16, const S: u16>() -> (NonZeroU16, i32) {
    type I<'c, const F: u16, const S: u16> = Interleave<X<'c, F, S, 0, 0>>;
    (I::<F, S>::FAST_LIMIT_MAX_RANGE_END, I::<F, S>::SLOW_LIMIT_NEG)
}
fn constants(st: &mut Stats) -> Result<(), String> {
    macro_rules! c { ($($f:literal $s:literal),*) => { $(
        let (e, n) = consts::<$f, $s>();
        st.execs += 1;
        st.outcome((e, n));
        if (e.get(), n) != ($f + 1, -$s) {
            return Err(format!("fast maximum {}, slow limit {}: range end {e}, negated {n}", $f, $s));
        }
    )* } }
    c!(0 1, 0 65535, 65534 1, 65534 65535, 32767 32768, 32768 32767, 1 2, 255 256, 800 40, 65533 65534);
    Ok(())
}

fn spaces(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    let k = CONSTS.len() as i64;
    let mut sizes: Vec<i64> = vec![1, 2, 255, 256, 400, 65534, 65535, 65536, 131071];
    if !q {
        sizes.extend([3, 254, 257, 513, 65537, 32766, 32767, 32768, 32769, 65533, 131068, 131069, 131070, 131072, 131073, 196607, 262143]);
    }
    let fams: Vec<i64> = ["chain1", "ring", "degenerate_cyclic", "list_tail_first", "wide", "degenerate_dag"].iter().map(|f| fam(f) as i64).collect();
    let mut items = vec![];
    for c in 0..k {
        for &f in &fams {
            for &n in &sizes {
                for mu in [0, 1] {
                    for m in 0..if q { 2 - mu } else { 3 } {
                        // the exponential ones end only where the table is used
                        let dag = f == fam("degenerate_dag") as i64;
                        let n = if dag && mu == 1 { n.min(400) } else { n };
                        items.push(vec![f, n, n, mu, if f == fam("wide") as i64 { n } else { n - 1 }, c, m]);
                    }
                }
            }
        }
    }
    items.dedup();
    let rng = |m: i64| [RngMode::Max, RngMode::Zero, RngMode::Seq(77)][m as usize];
    let d_sizes: Vec<i64> = if q { vec![1, 2, 9, 401, 3277, 33_000] } else { vec![1, 2, 9, 401, 3276, 3277, 3278, 33_000, 70_000] };
    let mut ditems = vec![];
    for &f in &fams {
        for &n in &d_sizes {
            for mu in [0, 1] {
                for m in 0..2 {
                    ditems.push(vec![f, n, n, mu, if f == fam("wide") as i64 { n } else { n - 1 }, m]);
                }
            }
        }
    }
    let mut oitems = vec![];
    for f in 0..FAMILIES.len() as i64 {
        for n in if q { vec![1, 2, 255, 256, 400, 70_000] } else { vec![1, 2, 127, 128, 255, 256, 257, 400, 32768, 65535, 65536, 70_000, 300_000] } {
            for mu in [0, 1] {
                oitems.push(vec![f, n, n, mu, n - 1]);
            }
        }
    }
    vec![
        tuples("constants", "the constants derived from the extremes of the limits", vec![vec![0]], |_, st| constants(st)),
        graphs("small", "every extreme setting on every small graph, three random sources", if q { Spec::new(3, &[0, 1, 2], &[0, 1], 2) } else { Spec::new(4, &[0, 1, 2], &[0], 2) }, move |g, st| {
            for c in 0..CONSTS.len() {
                // visits grow with the fast limit on cycles; the largest only for some
                if CONSTS[c].0 .0.max(CONSTS[c].0 .2) > 1000 && !g.is_acyclic() && (g.n() > 2 || g.max_deg() > 1) {
                    continue;
                }
                for m in 0..3 {
                    large(c, g, g.rb, rng(m), st)?;
                }
            }
            Ok(())
        }),
        tuples("large", "families whose sizes lie around the limits and exhaust them, every extreme setting, three recursion modes, with and without precheck; [family,size,size,mutation,position,setting,random]", items, move |x, st| {
            let (g, rb) = fam_graph(x);
            large(x[5] as usize, &g, rb, rng(x[6]), st)
        }),
        tuples("derived", "only the precheck limit customized, extremes; [family,size,size,mutation,position,random]", ditems, move |x, st| {
            let (g, rb) = fam_graph(x);
            derived(&g, rb, rng(x[5]), st)
        }),
        tuples("premade", "premade comparators on families; limited ones of every type with extreme limits; [family,size,size,mutation,position]", oitems, move |x, st| {
            let (g, rb) = fam_graph(x);
            others(&g, rb, family_is_thin(x[0] as usize), st)
        }),
    ]
}

fn main() {
    let _ = <hash_map::Table<X<'static, 0, 1, 0, 0>> as Table>::get;
    let _ = <N<'static> as Node>::id;
    gsc_mc::runner::main(Check {
        id: "U05",
        level: "model_checking",
        rule: "every combination of the listed extreme constants with the listed graphs, on the real code built with overflow checks and debug assertions; no panic, and the verdict of the reference search",
        assumptions: &["constants as listed (a slow limit of zero and a fast maximum of 65535 are not accepted values)"],
        spaces,
    })
}
