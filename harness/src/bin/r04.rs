//! R04: the equivalence table takes space linear in the distinct nodes with edges.
use graph_safe_compare::generic::equiv_classes::Table;
use gsc_mc::alloc;
use gsc_mc::graph::*;
use gsc_mc::node::*;
use gsc_mc::refm::*;
use gsc_mc::runner::*;
use gsc_mc::tables::*;
use gsc_mc::util::*;
use gsc_mc::variants::*;
use std::collections::HashSet;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

/// Records that may be alive, within a query, for identities not associated yet.
const SLACK: i64 = 2;

/// After a comparison with an instrumented table.
fn table(what: impl std::fmt::Debug, cx: &Ctx, st: &mut Stats) -> Result<(), String> {
    st.execs += 1;
    let (t, r) = (TB.with(|t| t.get()), RC.with(|r| r.get()));
    let log = TLOG.with(|l| l.borrow_mut().take()).unwrap_or_default();
    let mut keys = HashSet::new();
    for (insert, k) in log {
        if insert {
            if cx.g.deg(k) == 0 {
                return Err(format!("{what:?}: node {k}, which has no edges, is recorded in the table"));
            }
            keys.insert(k);
        }
    }
    let b = cx.g.branches();
    st.outcome((keys.len(), r.made, t.inserts));
    st.max("associated", keys.len() as u64);
    if keys.len() as u64 > b {
        return Err(format!("{what:?}: {} identities are recorded; the graph has {b} nodes with edges", keys.len()));
    }
    if r.max_excess > SLACK {
        return Err(format!("{what:?}: {} class records were alive more than identities recorded", r.max_excess));
    }
    if t.inserts - t.reinserts != keys.len() as u64 {
        return Err(format!("{what:?}: the table holds {} associations for {} identities", t.inserts - t.reinserts, keys.len()));
    }
    Ok(())
}
fn begin(cx: &Ctx, budget: u64) {
    cx.reset(budget);
    reset_stats();
    TLOG.with(|l| *l.borrow_mut() = Some(vec![]));
}
type T<'c> = inst::HashT<'c, KB>;
fn fs<const F: u16, const S: u16>(g: &Graph, ra: u32, rb: u32, choose: bool, st: &mut Stats) -> Result<(), String> {
    type I<'c, const F: u16, const S: u16> = IP<T<'c>, F, S, 2>;
    let cx = Ctx::new(g, 0, 0);
    let b = budget(g) * 16;
    for r in RS {
        let f = |st: &mut Stats| {
            begin(&cx, b);
            let (x, y) = (nd(&cx, ra, 0), nd(&cx, rb, 1));
            match r {
                R::Call => inter_call::<_, I<F, S>>(x, y),
                R::Queue => inter_queue::<_, I<F, S>>(x, y),
                R::Stack => inter_stack::<_, I<F, S>>(x, y),
            };
            table((r, "fast limit", F, "slow limit", S), &cx, st)
        };
        if choose {
            all_rng(st, f)?;
        } else {
            for m in [RngMode::Zero, RngMode::Max, RngMode::Seq(9)] {
                set_rng(m);
                f(st)?;
            }
        }
    }
    for p in PRES {
        set_rng(RngMode::Max);
        begin(&cx, b);
        pre_inter::<KB, I<F, S>>(p, nd(&cx, ra, 0), nd(&cx, rb, 1));
        table((p, "with precheck, fast limit", F, "slow limit", S), &cx, st)?;
    }
    Ok(())
}
fn small(g: &Graph, st: &mut Stats) -> Result<(), String> {
    reference(g, 0, g.rb, Order::Breadth, st);
    fs::<0, 1>(g, 0, g.rb, true, st)?;
    fs::<1, 1>(g, 0, g.rb, true, st)?;
    fs::<0, 3>(g, 0, g.rb, true, st)
}
/// Heap bytes taken with the premade table: the call-stack mode holds nothing else on the heap.
fn bytes(g: &Graph, rb: u32, st: &mut Stats) -> Result<(), String> {
    for m in [RngMode::Zero, RngMode::Max, RngMode::Seq(5)] {
        set_rng(m);
        let cx = Ctx::new(g, 0, 0);
        cx.reset(u64::MAX);
        let (a, b) = (nd::<KB>(&cx, 0, 0), nd(&cx, rb, 1));
        let base = alloc::mark();
        inter_call::<_, IP<<Hm as Tk>::T<'_, KB>, 20, 7, 1>>(a, b);
        let n = alloc::peak() - base;
        st.execs += 1;
        st.outcome(n);
        let bound = 4096 + 256 * g.branches() as i64;
        st.max("percent_of_bound_used", (n * 100 / bound) as u64);
        if n > bound {
            return Err(format!("random {m:?}: {n} bytes taken by a comparison of {} nodes with edges, more than {bound}", g.branches()));
        }
    }
    Ok(())
}

fn spaces(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    let d = "every random sequence, (fast,slow) limits (0,1),(1,1),(0,3), three recursion modes, five precheck combinations";
    let mut v = vec![
        graphs("small", d, Spec::new(3, &[0, 1, 2, 3], &[0], 2), small),
        graphs("labels", d, Spec::new(3, &[0, 1, 2], &[0, 1], 2), small),
        graphs("four", d, Spec::new(4, &[0, 1, 2], &[0], 2), small),
        tuples("lasso", "lassos; [tail,cycle,tail,cycle,mark,arity]", lasso_items(t.pick(2, 4), t.pick(4, 6)), |x, st| {
            let (g, rb) = lasso_graph(x);
            reference(&g, 0, rb, Order::Breadth, st);
            fs::<20, 2>(&g, 0, rb, false, st)?;
            fs::<3, 7>(&g, 0, rb, false, st)
        }),
        tuples("families", "families and mutated copies; [family,size,size,mutation,position]", fam_items(&all_families(), &[2, 3, 5, 8, 13, 21, 34, 55], &[1, 2, 4], 8), |x, st| {
            let (g, rb) = fam_graph(x);
            reference(&g, 0, rb, Order::Breadth, st);
            fs::<20, 2>(&g, 0, rb, false, st)?;
            fs::<7, 5>(&g, 0, rb, false, st)?;
            fs::<800, 40>(&g, 0, rb, false, st)
        }),
        tuples(
            "bytes",
            "heap bytes with the premade table and pointer, families; [family,size,size,mutation,position]",
            fam_items(&all_families(), if q { &[2, 8, 30, 150, 700] } else { &[2, 3, 5, 8, 13, 30, 60, 100, 150, 300, 700, 1500, 4000] }, &[1], 0).into_iter().filter(|x| x[1] < 1000 || x[1] == x[2]).collect(),
            |x, st| {
                let (g, rb) = fam_graph(x);
                reference(&g, 0, rb, Order::Breadth, st);
                bytes(&g, rb, st)
            },
        ),
        graphs("bytes_small", "heap bytes with the premade table and pointer", Spec::new(4, &[0, 1, 2], &[0], 2), |g, st| bytes(g, g.rb, st)),
    ];
    if !q {
        v.push(graphs("four_labels", d, Spec::new(4, &[0, 2], &[0, 1], 2), small));
        v.push(graphs("five", d, Spec::new(5, &[0, 1, 2], &[0], 2), small));
    }
    v
}

fn main() {
    let _ = <T<'static> as Table>::get;
    gsc_mc::runner::main(Check {
        id: "R04",
        level: "model_checking",
        rule: "every graph pair of each space under every listed limit and random sequence: the real code's uses of a user-supplied table and shared pointer are recorded; only nodes with edges are associated, each at most once at a time, and class records alive never exceed the identities associated (by more than the one or two of the query under way); heap bytes with the premade table are linear in the nodes with edges",
        assumptions: &["graphs, degrees, labels and limits within the bounds of each listed space"],
        spaces,
    })
}
