//! R05: dynamic memory follows the capacity constants, and is reused.
use graph_safe_compare as gsc;
use gsc::basic::modes::limited::{LimitReached, Limited};
use gsc::basic::modes::unlimited::Unlimited;
use gsc::deep_safe::recursion::queue::{self, RecurQueue};
use gsc::generic::equiv::{self, Equiv};
use gsc::generic::equiv_classes::premade::hash_map;
use gsc::wide_safe::recursion::stack::{self, RecurStack};
use gsc_mc::alloc;
use gsc_mc::graph::*;
use gsc_mc::node::*;
use gsc_mc::refm::*;
use gsc_mc::runner::*;
use gsc_mc::util::*;
use gsc_mc::variants::*;
use std::convert::Infallible;
use std::marker::PhantomData;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

type N<'c> = Nd<'c, KB>;
const NODE: i64 = std::mem::size_of::<N<'static>>() as i64;
/// Most that a pending entry may take: two nodes, as many again already asked for, and some more.
const ENTRY: i64 = 4 * NODE + 128;

/// Capacity `C`.
struct Cap<'c, const C: usize>(PhantomData<&'c ()>);
impl<'c, const C: usize> queue::Params for Cap<'c, C> {
    const INITIAL_CAPACITY: usize = C;
    type Node = N<'c>;
}
impl<'c, const C: usize> stack::Params for Cap<'c, C> {
    const INITIAL_CAPACITY: usize = C;
    type Node = N<'c>;
}
impl<'c, const C: usize> hash_map::Params for Cap<'c, C> {
    const INITIAL_CAPACITY: usize = C;
    type Node = N<'c>;
}
struct EP<D, M>(PhantomData<(D, M)>);
macro_rules! ep { ($($d:ty, $e:ty;)*) => { $(
    impl<'c, const C: usize> equiv::Params for EP<$d, RecurQueue<Cap<'c, C>>> {
        type Node = N<'c>;
        type DescendMode = $d;
        type RecurMode = RecurQueue<Cap<'c, C>>;
        type Error = $e;
    }
    impl<'c, const C: usize> equiv::Params for EP<$d, RecurStack<Cap<'c, C>>> {
        type Node = N<'c>;
        type DescendMode = $d;
        type RecurMode = RecurStack<Cap<'c, C>>;
        type Error = $e;
    }
)* } }
ep! { Unlimited, Infallible; Limited<u32>, LimitReached; }
type Tab<'c, const C: usize> = IP<hash_map::Table<Cap<'c, C>>, 3, 2, 1>;

fn none(what: impl std::fmt::Debug, st: &mut Stats) -> Result<(), String> {
    let (calls, most) = (alloc::calls(), alloc::biggest());
    st.execs += 1;
    st.outcome(calls);
    if calls != 0 {
        return Err(format!("{what:?}: {calls} allocations or releases, at most {most} bytes, where none is needed"));
    }
    Ok(())
}
/// Comparisons by the call-stack take nothing.
fn call(g: &Graph, ra: u32, rb: u32, st: &mut Stats) -> Result<(), String> {
    let cap = 1000;
    let cx = Ctx::new(g, u64::MAX, 0);
    let mut peak = 0;
    let (o, need) = search_peak(g, ra, rb, Order::Depth, false, cap, &mut peak);
    st.states += o.states;
    st.transitions += o.transitions;
    if need.is_some() && g.is_acyclic() {
        let (a, b) = (nd::<KB>(&cx, ra, 0), nd(&cx, rb, 1));
        alloc::mark();
        gsc::basic::equiv(a, b);
        none("basic", st)?;
    }
    for l in [0, 1, 3, 1000] {
        let (a, b) = (nd::<KB>(&cx, ra, 0), nd(&cx, rb, 1));
        alloc::mark();
        let _ = gsc::basic::limited_equiv(l as u16, a, b);
        none(("basic, limit", l), st)?;
    }
    // A precheck that is enough.
    if need.is_some_and(|n| n <= 400) {
        let (a, b) = (nd::<KB>(&cx, ra, 0), nd(&cx, rb, 1));
        alloc::mark();
        gsc::cycle_safe::precheck_equiv(a, b);
        none("cycle_safe with a precheck that suffices", st)?;
        for p in [(R::Call, R::Call), (R::Call, R::Queue), (R::Call, R::Stack)] {
            let (a, b) = (nd::<KB>(&cx, ra, 0), nd(&cx, rb, 1));
            alloc::mark();
            pre_inter::<KB, IPD<<Hm as Tk>::T<'_, KB>, 400>>(p, a, b);
            none((p, "with a precheck that suffices"), st)?;
        }
    }
    // The queue of the precheck, of the default capacity, but no table.
    let mut peak = 0;
    let (_, need) = search_peak(g, ra, rb, Order::Breadth, false, cap, &mut peak);
    if need.is_some_and(|n| n <= 400) && peak <= 16 {
        let (a, b) = (nd::<KB>(&cx, ra, 0), nd(&cx, rb, 1));
        alloc::mark();
        gsc::robust::precheck_equiv(a, b);
        if alloc::calls() > 2 || alloc::biggest() > 16 * ENTRY {
            return Err(format!("robust with a precheck that suffices: {} allocations and releases, up to {} bytes", alloc::calls(), alloc::biggest()));
        }
    }
    Ok(())
}
/// Reallocations from capacity `c` to `peak` entries, when it grows by a constant factor.
fn growth(c: usize, peak: usize) -> u64 {
    if peak <= c { 0 } else { 2 * (((peak + 1) as f64 / (c.max(1)) as f64).log2() / 1.4f64.log2()) as u64 + 6 }
}
macro_rules! with_capacity { ($f:ident, $m:ident, $order:expr) => {
    fn $f<const C: usize>(g: &Graph, ra: u32, rb: u32, st: &mut Stats) -> Result<(), String> {
        let what = |s: String| format!("{} with capacity {C}, {s}", stringify!($m));
        let cx = Ctx::new(g, u64::MAX, 0);
        let judge = |s: &dyn Fn() -> String, cap: usize, peak: usize, st: &mut Stats| {
            let (calls, size) = (alloc::calls(), alloc::biggest());
            st.execs += 1;
            st.outcome((C, peak, calls));
            let most = growth(cap, peak);
            if calls > most {
                return Err(format!("{}: {calls} allocations and releases, up to {size} bytes, while at most {peak} pairs are pending (expected at most {most})", what(s())));
            }
            Ok(())
        };
        let acyclic = g.is_acyclic();
        for l in [0, 1, 2, 3, 5, 8, 200] {
            let (mut p1, mut p2) = (0, 0);
            search_peak(g, ra, rb, $order, false, l, &mut p1);
            let base = alloc::mark();
            let mut e = Equiv::<EP<Limited<u32>, $m<Cap<'_, C>>>>::new(Limited(l as u32));
            let n = alloc::peak() - base;
            if n > C.max(4) as i64 * ENTRY || (C == 0 && alloc::calls() > 0) {
                return Err(format!("{}: {n} bytes at creation", what("limited".into())));
            }
            let (a, b) = (nd::<KB>(&cx, ra, 0), nd(&cx, rb, 1));
            alloc::mark();
            let r = e.equiv(a, b);
            judge(&|| format!("limit {l}"), C, p1, st)?;
            if r.is_ok() && l != 200 {
                continue;
            }
            // Reused for another comparison.
            if !acyclic {
                continue;
            }
            let (o, n) = search_peak(g, ra, rb, $order, false, 3000, &mut p2);
            st.states += o.states;
            st.transitions += o.transitions;
            if n.is_none() {
                continue;
            }
            let (a, b) = (nd::<KB>(&cx, ra, 0), nd(&cx, rb, 1));
            alloc::mark();
            let mut e: Equiv<EP<Unlimited, $m<Cap<'_, C>>>> = e.into();
            judge(&|| format!("converted after limit {l}"), C, 0, st)?;
            alloc::mark();
            let _ = e.equiv(a, b);
            judge(&|| format!("converted after limit {l}, then unlimited"), C.max(p1), p2, st)?;
        }
        Ok(())
    }
} }
with_capacity! { queued, RecurQueue, Order::Breadth }
with_capacity! { stacked, RecurStack, Order::Depth }

fn table<const C: usize>(g: &Graph, ra: u32, rb: u32, st: &mut Stats) -> Result<(), String> {
    let cx = Ctx::new(g, u64::MAX, 0);
    let branches = g.branches();
    let mut one = |m: RngMode| {
        set_rng(m);
        let base = alloc::mark();
        let mut e = Equiv::<EpCall<Tab<'_, C>>>::default();
        let n = alloc::peak() - base;
        if n > 64 * C as i64 + if C == 0 { 0 } else { 256 } {
            return Err(format!("a table of capacity {C} takes {n} bytes at creation"));
        }
        let (a, b) = (nd::<KB>(&cx, ra, 0), nd(&cx, rb, 1));
        alloc::mark();
        let _ = e.equiv(a, b);
        let (calls, size) = (alloc::calls(), alloc::biggest());
        st.execs += 1;
        st.outcome((calls, size));
        if branches <= C as u64 && (calls > branches || size > 128) {
            return Err(format!(
                "a table of capacity {C} for {branches} nodes with edges: {calls} allocations and releases during the comparison, up to {size} bytes"
            ));
        }
        Ok(())
    };
    for m in [RngMode::Zero, RngMode::Max, RngMode::Seq(4)] {
        one(m)?;
    }
    Ok(())
}
fn caps(g: &Graph, ra: u32, rb: u32, st: &mut Stats) -> Result<(), String> {
    queued::<0>(g, ra, rb, st)?;
    queued::<1>(g, ra, rb, st)?;
    queued::<2>(g, ra, rb, st)?;
    queued::<3>(g, ra, rb, st)?;
    queued::<16>(g, ra, rb, st)?;
    stacked::<0>(g, ra, rb, st)?;
    stacked::<1>(g, ra, rb, st)?;
    stacked::<2>(g, ra, rb, st)?;
    stacked::<3>(g, ra, rb, st)?;
    stacked::<16>(g, ra, rb, st)
}
fn tables(g: &Graph, ra: u32, rb: u32, st: &mut Stats) -> Result<(), String> {
    reference(g, ra, rb, Order::Breadth, st);
    table::<0>(g, ra, rb, st)?;
    table::<28>(g, ra, rb, st)?;
    table::<100>(g, ra, rb, st)?;
    table::<1000>(g, ra, rb, st)
}
fn big(g: &Graph, ra: u32, rb: u32, st: &mut Stats) -> Result<(), String> {
    call(g, ra, rb, st)?;
    caps(g, ra, rb, st)?;
    queued::<40>(g, ra, rb, st)?;
    queued::<1000>(g, ra, rb, st)?;
    stacked::<40>(g, ra, rb, st)?;
    stacked::<1000>(g, ra, rb, st)?;
    tables(g, ra, rb, st)
}

fn spaces(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    let cd = "queue and stack with capacities 0-3 and 16, limits 0-8 and 200, converted after each";
    let mut v = vec![
        graphs("callstack", "comparisons by the call-stack, prechecks that suffice", Spec::new(4, &[0, 1, 2], &[0], 2), |g, st| call(g, 0, g.rb, st)),
        graphs("callstack_labels", "comparisons by the call-stack, prechecks that suffice", Spec::new(3, &[0, 1, 2, 3], &[0, 1], 2), |g, st| call(g, 0, g.rb, st)),
        graphs("capacity", cd, Spec::new(4, &[0, 1, 2], &[0], 2), |g, st| caps(g, 0, g.rb, st)),
        graphs("capacity_acyclic", cd, Spec::new(t.pick(5, 6), &[0, 1, 2], &[0], 2).acyclic(), |g, st| caps(g, 0, g.rb, st)),
        graphs("table", "premade table with capacities 0, 28, 100, 1000", Spec::new(3, &[0, 1, 2], &[0], 2), |g, st| tables(g, 0, g.rb, st)),
        tuples(
            "families",
            "all of these on families; [family,size,size,mutation,position]",
            fam_items(&all_families(), if q { &[2, 5, 9, 14, 27, 28, 40, 100, 500] } else { &[2, 3, 5, 7, 9, 13, 14, 15, 27, 28, 40, 49, 50, 51, 100, 200, 499, 500, 900] }, &[1, 2, 4], if q { 9 } else { 28 }),
            |x, st| {
                let (g, rb) = fam_graph(x);
                big(&g, 0, rb, st)
            },
        ),
    ];
    if !q {
        v.push(graphs("capacity_labels", cd, Spec::new(4, &[0, 1, 2], &[0, 1], 2), |g, st| caps(g, 0, g.rb, st)));
        v.push(graphs("callstack_five", "comparisons by the call-stack, prechecks that suffice", Spec::new(5, &[0, 1, 2], &[0], 2), |g, st| call(g, 0, g.rb, st)));
    }
    v
}

fn main() {
    gsc_mc::runner::main(Check {
        id: "R05",
        level: "model_checking",
        rule: "every graph pair of each space, under every listed mode, capacity and limit: every call of the allocator during the comparison by the real code is counted; none by the call-stack modes and none while the reference traversal (states, transitions) has no more pairs pending than the capacity; few beyond; none by converting",
        assumptions: &["graphs, degrees, labels, capacities and limits within the bounds of each listed space", "the node type itself does not allocate"],
        spaces,
    })
}
