//! S03: the multi-way result is the first difference in traversal order.
use graph_safe_compare::Cmp;
use gsc_mc::graph::*;
use gsc_mc::node::*;
use gsc_mc::refm::*;
use gsc_mc::runner::*;
use gsc_mc::util::*;
use gsc_mc::variants::*;

fn same(want: &Val, got: Val, what: impl std::fmt::Debug) -> Result<(), String> {
    let ok = if want.is_equiv() { got.is_equiv() } else { *want == got };
    if ok { Ok(()) } else { Err(format!("{what:?} answers {got:?}, but the first difference in its order is {want:?}")) }
}
fn some(all: &[Val], got: Val, what: impl std::fmt::Debug) -> Result<(), String> {
    let strip = match got {
        Val::Lab(a, b, _) => Val::Lab(a, b, 0),
        x => x,
    };
    let ok = if all.is_empty() { got.is_equiv() } else { all.contains(&strip) };
    if ok { Ok(()) } else { Err(format!("{what:?} answers {got:?}, which is not the value of any difference of the graphs ({all:?})")) }
}

struct Want {
    acyclic: bool,
    b: Val,
    d: Val,
    all: Vec<Val>,
    ob: core::cmp::Ordering,
    od: core::cmp::Ordering,
}
fn want(g: &Graph, ra: u32, rb: u32, st: &mut Stats) -> Want {
    let acyclic = g.is_acyclic();
    let ob = reference(g, ra, rb, Order::Breadth, st);
    let b = Diff::val(&ob.diff, g);
    let od = reference(g, ra, rb, Order::Depth, st);
    let d = Diff::val(&od.diff, g);
    let all = if acyclic { vec![] } else { all_diffs(g, ra, rb) };
    st.outcome((b, d));
    Want { acyclic, b, d, all, ob: Diff::ord(&ob.diff, g), od: Diff::ord(&od.diff, g) }
}
impl Want {
    fn judge(&self, r: R, got: Val, what: impl std::fmt::Debug) -> Result<(), String> {
        if r == R::Queue {
            same(&self.b, got, what)
        } else if self.acyclic {
            same(&self.d, got, what)
        } else {
            some(&self.all, got, what)
        }
    }
    fn judge_ord(&self, r: R, got: Ordering, what: impl std::fmt::Debug) -> Result<(), String> {
        let w = if r == R::Queue { self.ob } else { self.od };
        if r != R::Queue && !self.acyclic {
            return Ok(());
        }
        if w == got { Ok(()) } else { Err(format!("{what:?} answers {got:?}, but the first difference in its order is {w:?}")) }
    }
}

fn plain(g: &Graph, ra: u32, rb: u32, w: &Want, st: &mut Stats) -> Result<(), String> {
    if !w.acyclic {
        return Ok(());
    }
    let cx = Ctx::new(g, 0, 0);
    for r in RS {
        cx.reset(1 << 22);
        st.execs += 3;
        w.judge(r, unlimited(r, nd::<KV>(&cx, ra, 0), nd(&cx, rb, 1)), ("unlimited", r))?;
        cx.reset(1 << 22);
        w.judge_ord(r, unlimited(r, nd::<KO>(&cx, ra, 0), nd(&cx, rb, 1)), ("unlimited, Ordering", r))?;
        cx.reset(1 << 22);
        match lim32(r, u32::MAX, nd::<KV>(&cx, ra, 0), nd(&cx, rb, 1)) {
            Ok(v) => w.judge(r, v, ("limited", r))?,
            Err(_) => return Err(format!("{r:?}: limit reached")),
        }
    }
    Ok(())
}
fn fs<const F: u16, const S: u16>(g: &Graph, ra: u32, rb: u32, w: &Want, st: &mut Stats) -> Result<(), String> {
    let cx = Ctx::new(g, 0, 0);
    for r in RS {
        all_rng(st, |st| {
            cx.reset(budget(g));
            st.execs += 1;
            w.judge(r, inter::<KV, Hm, F, S>(r, nd(&cx, ra, 0), nd(&cx, rb, 1)), (r, "fast limit", F, "slow limit", S))
        })?;
    }
    Ok(())
}
fn premade(g: &Graph, ra: u32, rb: u32, w: &Want, st: &mut Stats) -> Result<(), String> {
    let cx = Ctx::new(g, 0, 0);
    for c in CYCS {
        cx.reset(budget(g));
        st.execs += 1;
        let r = if matches!(c, Cyc::Robust | Cyc::RobustPre) { R::Queue } else { R::Call };
        w.judge(r, cyc(c, nd::<KV>(&cx, ra, 0), nd(&cx, rb, 1)), c)?;
        cx.reset(budget(g));
        st.execs += 1;
        w.judge_ord(r, cyc(c, nd::<KO>(&cx, ra, 0), nd(&cx, rb, 1)), (c, "Ordering"))?;
    }
    Ok(())
}
fn pres<const F: u16, const S: u16, const P: u16>(g: &Graph, w: &Want, st: &mut Stats) -> Result<(), String> {
    let cx = Ctx::new(g, 0, 0);
    for p in [(R::Call, R::Call), (R::Queue, R::Queue), (R::Call, R::Stack), (R::Stack, R::Stack)] {
        all_rng(st, |st| {
            cx.reset(budget(g));
            st.execs += 1;
            w.judge(p.1, pre_inter::<KV, IP<<Hm as Tk>::T<'_, KV>, F, S, P>>(p, nd(&cx, 0, 0), nd(&cx, g.rb, 1)), (p, "precheck", P, F, S))
        })?;
    }
    Ok(())
}

fn small(g: &Graph, st: &mut Stats) -> Result<(), String> {
    let w = want(g, 0, g.rb, st);
    plain(g, 0, g.rb, &w, st)?;
    fs::<0, 1>(g, 0, g.rb, &w, st)?;
    fs::<2, 1>(g, 0, g.rb, &w, st)?;
    fs::<1, 2>(g, 0, g.rb, &w, st)
}
fn fam1(t: &[i64], st: &mut Stats) -> Result<(), String> {
    let (g, rb) = fam_graph(t);
    let w = want(&g, 0, rb, st);
    if w.acyclic && (t[1] < 20 || family_is_thin(t[0] as usize)) {
        plain(&g, 0, rb, &w, st)?;
    }
    premade(&g, 0, rb, &w, st)
}

fn spaces(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    let d = "rich comparison values; unlimited, limited, and (fast,slow) limits (0,1),(2,1),(1,2) with every random sequence; three recursion modes";
    let mut v = vec![
        graphs("small", d, Spec::new(4, &[0, 1, 2], &[0, 1], 2), small),
        graphs("deg3", d, Spec::new(3, &[0, 1, 2, 3], &[0, 1, 2], 2), small),
        graphs("acyclic", d, Spec::new(5, &[0, 1, 2], &[0, 1], 2).acyclic(), small),
        graphs("acyclic_deg3", d, Spec::new(4, &[0, 1, 2, 3], &[0, 1], 2).acyclic(), small),
        graphs("premade", "premade cycle-safe functions, rich values and Ordering", Spec::new(4, &[0, 1, 2], &[0], 2), |g, st| {
            let w = want(g, 0, g.rb, st);
            premade(g, 0, g.rb, &w, st)
        }),
        graphs("premade_labels", "premade cycle-safe functions, rich values and Ordering", Spec::new(3, &[0, 1, 2], &[0, 1, 2], 2), |g, st| {
            let w = want(g, 0, g.rb, st);
            premade(g, 0, g.rb, &w, st)
        }),
        graphs("precheck", "precheck limits 0..5 with the same order before and after", Spec::new(3, &[0, 1, 2], &[0, 1], 2), |g, st| {
            let w = want(g, 0, g.rb, st);
            pres::<1, 1, 0>(g, &w, st)?;
            pres::<1, 1, 1>(g, &w, st)?;
            pres::<1, 1, 2>(g, &w, st)?;
            pres::<1, 1, 3>(g, &w, st)?;
            pres::<0, 1, 5>(g, &w, st)
        }),
        tuples("lasso", "lassos; [tail,cycle,tail,cycle,mark,arity]", lasso_items(t.pick(2, 4), t.pick(3, 5)), |t, st| {
            let (g, rb) = lasso_graph(t);
            let w = want(&g, 0, rb, st);
            premade(&g, 0, rb, &w, st)?;
            fs::<1, 1>(&g, 0, rb, &w, st)?;
            fs::<0, 3>(&g, 0, rb, &w, st)
        }),
        tuples("families", "families against a mutated copy; [family,size,size,mutation,position]", fam_items(&all_families(), &[1, 2, 3, 4, 5, 8, 12, 41], &[1, 2, 3, 4], if q { 41 } else { 41 }), fam1),
        tuples("big_families", "families beyond the default limits", fam_items(&all_families(), if q { &[410] } else { &[410, 1300] }, &[1, 2, 3], 0), fam1),
    ];
    if !q {
        v.push(graphs("four_three_labels", d, Spec::new(4, &[0, 1, 2], &[0, 1, 2], 2), small));
        v.push(graphs("five", d, Spec::new(5, &[0, 1, 2], &[0], 2), small));
        v.push(graphs("four_deg3", d, Spec::new(4, &[0, 1, 2, 3], &[0], 2), small));
        v.push(graphs("acyclic_six", d, Spec::new(6, &[0, 1, 2], &[0, 1], 2).acyclic(), small));
    }
    v
}

fn main() {
    gsc_mc::runner::main(Check {
        id: "S03",
        level: "model_checking",
        rule: "reference: the first difference met by a breadth-first, respectively depth-first preorder, search of the product of the two graphs; comparison values carry both labels and a 64-bit hash of the position; for cyclic graphs under depth-first interleaving, membership in the set of values of all reachable differences",
        assumptions: &["graphs, degrees, labels and limits within the bounds of each listed space", "distinct positions have distinct 64-bit path hashes"],
        spaces,
    })
}
