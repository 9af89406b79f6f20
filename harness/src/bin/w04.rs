//! W04: each position is inspected once, in the documented order, and nothing after the first difference.
use gsc_mc::classes::*;
use gsc_mc::graph::*;
use gsc_mc::node::*;
use gsc_mc::refm::*;
use gsc_mc::runner::*;
use gsc_mc::util::*;
use gsc_mc::variants::*;
use std::collections::VecDeque;

type Log = Vec<(u32, u32, u64)>;
#[derive(PartialEq, Debug)]
enum End {
    Equiv,
    Differ,
    Limit,
}

/// The value comparisons of a traversal; `descend` decides for each pair that both have edges, `limit` how many
/// pairs are traversed.
fn walk(g: &Graph, ra: u32, rb: u32, order: Order, limit: u64, log: &mut Log, st: &mut Stats, descend: &mut dyn FnMut(u32, u32) -> bool) -> End {
    let mut q: VecDeque<(u32, u32, u32, u64)> = VecDeque::new();
    let mut left = limit;
    let mut cur = Some((ra, rb, ROOT));
    loop {
        if let Some((a, b, path)) = cur.take() {
            if left == 0 {
                return End::Limit;
            }
            left -= 1;
            st.states += 1;
            if a != b {
                log.push((a, b, path));
                if !lab_eq(g.label[a as usize], g.label[b as usize]) || (g.deg(a) == 0) != (g.deg(b) == 0) {
                    return End::Differ;
                }
                if g.deg(a) > 0 && descend(a, b) {
                    q.push_back((a, b, 0, path));
                }
            }
        }
        let p = if order == Order::Breadth { q.front_mut() } else { q.back_mut() };
        let Some(p) = p else { return End::Equiv };
        let k = p.2;
        p.2 += 1;
        st.transitions += 1;
        match (g.edge(p.0, k), g.edge(p.1, k)) {
            (Some(x), Some(y)) => cur = Some((x, y, child_path(p.3, k as u64))),
            (None, None) => {
                if order == Order::Breadth {
                    q.pop_front()
                } else {
                    q.pop_back()
                };
            }
            _ => return End::Differ,
        }
    }
}

fn judge(what: &dyn std::fmt::Debug, cx: &Ctx, want: &Log, end: End, got: Result<bool, ()>, st: &mut Stats) -> Result<(), String> {
    st.execs += 1;
    st.outcome((want.len(), end == End::Equiv, end == End::Limit));
    cx.result().map_err(|m| format!("{what:?}: {m}"))?;
    let l = cx.log_cmp.as_ref().unwrap().borrow();
    if *l != *want {
        let i = l.iter().zip(want).take_while(|(x, y)| x == y).count();
        let f = |v: &Log| v.get(i).map(|x| (x.0, x.1));
        return Err(format!("{what:?}: the {i}-th comparison of values (from 0) is of {:?}, expected {:?}; {} comparisons, expected {}", f(&l), f(want), l.len(), want.len()));
    }
    let got = match got {
        Ok(true) => End::Equiv,
        Ok(false) => End::Differ,
        Err(()) => End::Limit,
    };
    if got != end {
        return Err(format!("{what:?}: ends with {got:?}, expected {end:?}"));
    }
    Ok(())
}

/// The plain traversals, with every limit up to the end.
fn plain<K: Kind>(g: &Graph, ra: u32, rb: u32, cap: u64, st: &mut Stats) -> Result<(), String> {
    let cx = Ctx::new(g, 0, M_STOP).logged();
    let acyclic = g.is_acyclic();
    for r in RS {
        let mut want = vec![];
        if acyclic {
            let end = walk(g, ra, rb, r.order(), u64::MAX, &mut want, st, &mut |_, _| true);
            cx.reset(1 << 24);
            let c = unlimited(r, nd::<K>(&cx, ra, 0), nd(&cx, rb, 1));
            judge(&("unlimited", r), &cx, &want, end, Ok(graph_safe_compare::Cmp::is_equiv(&c)), st)?;
        }
        for l in 0..=cap {
            want.clear();
            let end = walk(g, ra, rb, r.order(), l, &mut want, st, &mut |_, _| true);
            let last = end != End::Limit;
            cx.reset(1 << 24);
            let c = lim16(r, l as u16, nd::<K>(&cx, ra, 0), nd(&cx, rb, 1)).map(|c| graph_safe_compare::Cmp::is_equiv(&c)).map_err(drop);
            judge(&("limited", l, r), &cx, &want, end, c, st)?;
            if last {
                break;
            }
        }
    }
    Ok(())
}

fn phases(g: &Graph, f: u16, s: u32) -> Phases {
    Phases { f, s, fast: 0, slow: 0, cl: Closure::new(g.n() as u32) }
}
/// The interleaving ones: what is descended is what the phases and the known equivalences let through.
fn inter_fs<K: Kind, const F: u16, const S: u16>(g: &Graph, ra: u32, rb: u32, st: &mut Stats) -> Result<(), String> {
    let cx = Ctx::new(g, 0, M_STOP).logged();
    for r in RS {
        all_rng(st, |st| {
            cx.reset(budget(g));
            RNG_LOG.with(|l| *l.borrow_mut() = Some(vec![]));
            let c = inter::<K, Hm, F, S>(r, nd(&cx, ra, 0), nd(&cx, rb, 1));
            let draws = RNG_LOG.with(|l| l.borrow_mut().take().unwrap());
            let mut m = phases(g, F, S as u32);
            let mut want = vec![];
            let mut d = draws.iter();
            let end = walk(g, ra, rb, r.order(), u64::MAX, &mut want, st, &mut |a, b| m.go(a, b, &mut || d.next().map_or(0, |x| x.1)));
            judge(&("fast limit", F, "slow limit", S, r, &draws), &cx, &want, end, Ok(graph_safe_compare::Cmp::is_equiv(&c)), st)
        })?;
    }
    Ok(())
}
/// A precheck before: its comparisons first, and only if it reached its limit the others.
fn pre_fs<K: Kind, const F: u16, const S: u16, const P: u16>(g: &Graph, ra: u32, rb: u32, st: &mut Stats) -> Result<(), String> {
    let cx = Ctx::new(g, 0, M_STOP).logged();
    for p in PRES {
        all_rng(st, |st| {
            cx.reset(budget(g));
            RNG_LOG.with(|l| *l.borrow_mut() = Some(vec![]));
            let c = pre_inter::<K, IP<<Hm as Tk>::T<'_, K>, F, S, P>>(p, nd(&cx, ra, 0), nd(&cx, rb, 1));
            let draws = RNG_LOG.with(|l| l.borrow_mut().take().unwrap());
            let mut want = vec![];
            let mut end = walk(g, ra, rb, p.0.order(), P as u64, &mut want, st, &mut |_, _| true);
            if end == End::Limit {
                let mut m = phases(g, F, S as u32);
                let mut d = draws.iter();
                end = walk(g, ra, rb, p.1.order(), u64::MAX, &mut want, st, &mut |a, b| m.go(a, b, &mut || d.next().map_or(0, |x| x.1)));
            }
            judge(&("precheck", P, "fast limit", F, "slow limit", S, p), &cx, &want, end, Ok(graph_safe_compare::Cmp::is_equiv(&c)), st)
        })?;
    }
    Ok(())
}
/// The premade ones, as long as the slow phase does not end (so few nodes cannot exhaust 40 fresh pairs in a row).
fn premade<K: Kind>(g: &Graph, ra: u32, rb: u32, st: &mut Stats) -> Result<(), String> {
    let cx = Ctx::new(g, 0, M_STOP).logged();
    for c in CYCS {
        cx.reset(budget(g));
        let got = cyc(c, nd::<K>(&cx, ra, 0), nd(&cx, rb, 1));
        let order = V::Cyc(c).r().order();
        let mut want = vec![];
        let mut end = End::Limit;
        if matches!(c, Cyc::CyclePre | Cyc::RobustPre) {
            end = walk(g, ra, rb, order, 400, &mut want, st, &mut |_, _| true);
        }
        if end == End::Limit {
            let mut m = phases(g, 0, u32::MAX);
            end = walk(g, ra, rb, order, u64::MAX, &mut want, st, &mut |a, b| m.go(a, b, &mut || 0));
        }
        judge(&c, &cx, &want, end, Ok(graph_safe_compare::Cmp::is_equiv(&got)), st)?;
    }
    Ok(())
}

fn small(g: &Graph, st: &mut Stats) -> Result<(), String> {
    plain::<KB>(g, 0, g.rb, 24, st)?;
    inter_fs::<KB, 0, 1>(g, 0, g.rb, st)?;
    inter_fs::<KB, 1, 1>(g, 0, g.rb, st)?;
    inter_fs::<KB, 1, 2>(g, 0, g.rb, st)?;
    inter_fs::<KB, 2, 1>(g, 0, g.rb, st)?;
    inter_fs::<KB, 0, 3>(g, 0, g.rb, st)?;
    premade::<KB>(g, 0, g.rb, st)
}
fn pres(g: &Graph, st: &mut Stats) -> Result<(), String> {
    pre_fs::<KB, 1, 1, 0>(g, 0, g.rb, st)?;
    pre_fs::<KB, 1, 1, 1>(g, 0, g.rb, st)?;
    pre_fs::<KB, 1, 2, 2>(g, 0, g.rb, st)?;
    pre_fs::<KB, 0, 1, 3>(g, 0, g.rb, st)?;
    pre_fs::<KB, 0, 1, 5>(g, 0, g.rb, st)
}
fn fam(t: &[i64], st: &mut Stats) -> Result<(), String> {
    let (g, rb) = fam_graph(t);
    if !g.is_acyclic() || family_is_thin(t[0] as usize) {
        plain::<KV>(&g, 0, rb, 80, st)?;
    }
    inter_fs::<KV, 0, 1>(&g, 0, rb, st)?;
    inter_fs::<KV, 0, 2>(&g, 0, rb, st)?;
    inter_fs::<KV, 0, 7>(&g, 0, rb, st)?;
    if g.n() <= 36 {
        premade::<KV>(&g, 0, rb, st)?;
    }
    Ok(())
}

/// The default limits (precheck 400, fast 800, slow 40), with and without a precheck.
fn defaults(t: &[i64], st: &mut Stats) -> Result<(), String> {
    let (g, rb) = fam_graph(t);
    let cx = Ctx::new(&g, 0, M_STOP).logged();
    let mut vs: Vec<V> = RS.iter().map(|r| V::Dflt(*r)).collect();
    vs.extend((0..5).map(V::P400));
    for rng in [RngMode::Zero, RngMode::Max, RngMode::Seq(t[1] as u32), RngMode::Seq(7)] {
        for &v in &vs {
            cx.reset(budget(&g));
            set_rng(rng);
            RNG_LOG.with(|l| *l.borrow_mut() = Some(vec![]));
            let got = run::<KV>(v, nd(&cx, 0, 0), nd(&cx, rb, 1)).map_err(|_| "a limit was reached")?;
            let draws = RNG_LOG.with(|l| l.borrow_mut().take().unwrap());
            let mut want = vec![];
            let mut end = End::Limit;
            if let V::P400(p) = v {
                end = walk(&g, 0, rb, PRES[p].0.order(), 400, &mut want, st, &mut |_, _| true);
            }
            if end == End::Limit {
                let mut m = phases(&g, 800, 40);
                let mut d = draws.iter();
                end = walk(&g, 0, rb, v.r().order(), u64::MAX, &mut want, st, &mut |a, b| m.go(a, b, &mut || d.next().map_or(0, |x| x.1)));
            }
            judge(&(v, rng), &cx, &want, end, Ok(graph_safe_compare::Cmp::is_equiv(&got)), st)?;
        }
    }
    Ok(())
}

fn spaces(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    let mut v = vec![
        graphs("three", "all variants, all limits, all random sequences", Spec::new(3, &[0, 1, 2], &[0, 1], 2), small),
        graphs("four", "all variants, all limits, all random sequences", Spec::new(4, &[0, 1, 2], &[0], 2), small),
        graphs("three_deg3", "all variants, all limits, all random sequences", Spec::new(3, &[0, 1, 3], &[0], 2), small),
        graphs("dags", "plain traversals, all limits", Spec::new(5, &[0, 1, 2], &[0, 1], 2).acyclic(), |g, st| plain::<KO>(g, 0, g.rb, 60, st)),
        graphs("cyclic", "the premade comparisons and the plain ones with all limits", Spec::new(4, &[0, 1, 2], &[0, 1], 2), |g, st| {
            plain::<KV>(g, 0, g.rb, 12, st)?;
            premade::<KV>(g, 0, g.rb, st)
        }),
        graphs("prechecks", "precheck limits 0, 1, 2, 3, 5", Spec::new(3, &[0, 1, 2], &[0, 1], 2), pres),
        tuples("families", "[family, size, size, mutation, position]", fam_items(&all_families(), if q { &[2, 3, 5, 9, 12] } else { &[2, 3, 5, 9, 12, 20] }, &[1, 2, 3], 12), fam),
        tuples("default_limits", "families around and beyond the default limits; [family, size, size, mutation, position]", fam_items(&all_families(), if q { &[41, 401, 1300] } else { &[30, 41, 80, 401, 801, 1300, 2500] }, if q { &[1, 2] } else { &[1, 2, 3, 4] }, 0), defaults),
    ];
    if !q {
        v.push(graphs("four_labels", "all variants, all limits, all random sequences", Spec::new(4, &[0, 1, 2], &[0, 1], 2), small));
        v.push(graphs("five", "interleaving, all random sequences", Spec::new(5, &[0, 1, 2], &[0], 2), |g, st| {
            inter_fs::<KB, 0, 1>(g, 0, g.rb, st)?;
            inter_fs::<KB, 1, 2>(g, 0, g.rb, st)?;
            premade::<KB>(g, 0, g.rb, st)
        }));
        v.push(graphs("prechecks_four", "precheck limits 0, 1, 2, 3, 5", Spec::new(4, &[0, 1, 2], &[0], 2), pres));
        v.push(graphs("dags_six", "plain traversals, all limits", Spec::new(6, &[0, 1, 2], &[0], 2).acyclic(), |g, st| plain::<KO>(g, 0, g.rb, 60, st)));
    }
    v
}

fn main() {
    gsc_mc::runner::main(Check {
        id: "W04",
        level: "model_checking",
        rule: "model: the traversal of the product (breadth-first or depth-first preorder), pruned by the phase automaton over the closure of the recorded equivalences, under the same random answers; the complete sequence of value comparisons (both nodes, and the position each was reached at) of each execution of the real code must be the model's, and so must its end",
        assumptions: &["graphs, limits and random sequences within the bounds of each listed space", "the premade comparisons are modelled in their slow phase only"],
        spaces,
    })
}
