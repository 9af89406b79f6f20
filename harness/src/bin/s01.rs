//! S01: the cycle-safe verdict is bisimilarity of the graphs.
use graph_safe_compare::Cmp;
use gsc_mc::graph::*;
use gsc_mc::node::*;
use gsc_mc::refm::*;
use gsc_mc::runner::*;
use gsc_mc::tables::*;
use gsc_mc::util::*;
use gsc_mc::variants::*;

fn expect(g: &Graph, ra: u32, rb: u32, st: &mut Stats) -> bool {
    let o = reference(g, ra, rb, Order::Breadth, st);
    st.outcome((o.diff.is_some(), o.states, o.transitions));
    o.diff.is_none()
}

fn one<C: Cmp>(want: bool, what: impl std::fmt::Debug, st: &mut Stats, f: impl FnOnce() -> C) -> Result<(), String> {
    st.execs += 1;
    let got = f().is_equiv();
    if got != want {
        return Err(format!("{what:?} answers equivalent={got}, but the graphs are {}equivalent", if want { "" } else { "not " }));
    }
    Ok(())
}

/// The four premade comparisons; the default limits with the stack; these for given random modes.
fn premade<K: Kind>(g: &Graph, ra: u32, rb: u32, st: &mut Stats, rngs: &[RngMode]) -> Result<(), String> {
    let want = expect(g, ra, rb, st);
    let cx = Ctx::new(g, 0, 0);
    for c in CYCS {
        cx.reset(budget(g));
        one(want, c, st, || cyc(c, nd::<K>(&cx, ra, 0), nd(&cx, rb, 1)))?;
    }
    for &r in rngs {
        set_rng(r);
        for m in RS {
            cx.reset(budget(g));
            one(want, ("default limits", m, r), st, || dflt::<K, Hm, 400>(m, nd(&cx, ra, 0), nd(&cx, rb, 1)))?;
        }
        for p in [(R::Call, R::Queue), (R::Call, R::Stack), (R::Stack, R::Stack)] {
            cx.reset(budget(g));
            one(want, ("default limits, precheck", p, r), st, || pre_inter::<K, IPD<<Hm as Tk>::T<'_, K>, 400>>(p, nd(&cx, ra, 0), nd(&cx, rb, 1)))?;
        }
    }
    Ok(())
}

fn dflt<'c, K: Kind, T: Tk, const P: u16>(r: R, a: Nd<'c, K>, b: Nd<'c, K>) -> K::Cmp {
    match r {
        R::Call => inter_call::<_, IPD<T::T<'c, K>, P>>(a, b),
        R::Queue => inter_queue::<_, IPD<T::T<'c, K>, P>>(a, b),
        R::Stack => inter_stack::<_, IPD<T::T<'c, K>, P>>(a, b),
    }
}

fn fs<K: Kind, const F: u16, const S: u16>(g: &Graph, ra: u32, rb: u32, want: bool, st: &mut Stats) -> Result<(), String> {
    let cx = Ctx::new(g, 0, 0);
    for r in RS {
        all_rng(st, |st| {
            cx.reset(budget(g));
            one(want, (r, "fast limit", F, "slow limit", S), st, || inter::<K, Hm, F, S>(r, nd(&cx, ra, 0), nd(&cx, rb, 1)))
        })?;
    }
    Ok(())
}

/// User-supplied table and shared pointer.
fn custom<const F: u16, const S: u16>(g: &Graph, want: bool, st: &mut Stats) -> Result<(), String> {
    let cx = Ctx::new(g, 0, 0);
    all_rng(st, |st| {
        cx.reset(budget(g));
        one(want, ("custom table, queue", F, S), st, || {
            inter_queue::<_, IP<inst::VecT<'_, KB>, F, S, 1>>(nd(&cx, 0, 0), nd(&cx, g.rb, 1))
        })?;
        reset_stats();
        Ok(())
    })
}

fn pres<const F: u16, const S: u16, const P: u16>(g: &Graph, want: bool, st: &mut Stats) -> Result<(), String> {
    let cx = Ctx::new(g, 0, 0);
    for p in PRES {
        all_rng(st, |st| {
            cx.reset(budget(g));
            one(want, (p, "precheck", P, "fast limit", F, "slow limit", S), st, || {
                pre_inter::<KB, IP<<Hm as Tk>::T<'_, KB>, F, S, P>>(p, nd(&cx, 0, 0), nd(&cx, g.rb, 1))
            })
        })?;
    }
    Ok(())
}

fn small(g: &Graph, st: &mut Stats) -> Result<(), String> {
    let want = expect(g, 0, g.rb, st);
    fs::<KB, 0, 1>(g, 0, g.rb, want, st)?;
    fs::<KB, 1, 1>(g, 0, g.rb, want, st)?;
    fs::<KB, 2, 1>(g, 0, g.rb, want, st)?;
    fs::<KB, 1, 2>(g, 0, g.rb, want, st)?;
    custom::<1, 1>(g, want, st)
}
fn large(g: &Graph, st: &mut Stats) -> Result<(), String> {
    let want = expect(g, 0, g.rb, st);
    fs::<KB, 0, 1>(g, 0, g.rb, want, st)?;
    fs::<KB, 1, 2>(g, 0, g.rb, want, st)?;
    fs::<KB, 0, 3>(g, 0, g.rb, want, st)?;
    fs::<KB, 0, 20>(g, 0, g.rb, want, st)
}
fn lasso(t: &[i64], st: &mut Stats) -> Result<(), String> {
    let (g, rb) = lasso_graph(t);
    premade::<KB>(&g, 0, rb, st, &[RngMode::Max])?;
    let want = expect(&g, 0, rb, st);
    fs::<KB, 1, 1>(&g, 0, rb, want, st)?;
    fs::<KB, 1, 2>(&g, 0, rb, want, st)?;
    fs::<KB, 0, 20>(&g, 0, rb, want, st)?;
    fs::<KB, 0, 3>(&g, 0, rb, want, st)
}

fn spaces(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    let fsd = "every random sequence, (fast,slow) limits (0,1),(1,1),(2,1),(1,2), three recursion modes, premade and user table";
    let lsd = "every random sequence, (fast,slow) limits (0,1),(1,2),(0,3),(0,20), three recursion modes";
    let mut v = vec![
        graphs("small", fsd, Spec::new(4, &[0, 1, 2], &[0, 1], 2), small),
        graphs("deg3", fsd, Spec::new(3, &[0, 1, 2, 3], &[0, 1], 2), small),
        graphs("five", lsd, Spec::new(5, &[0, 1, 2], &[0], 2), large),
        graphs("premade", "premade functions, default limits", Spec::new(4, &[0, 1, 2], &[0], 2), |g, st| premade::<KB>(g, 0, g.rb, st, &[])),
        graphs("premade_labels", "premade functions, default limits, every kind of random source", Spec::new(3, &[0, 1, 2], &[0, 1], 2), |g, st| {
            premade::<KB>(g, 0, g.rb, st, &[RngMode::Zero, RngMode::Max])
        }),
        graphs("collide", "identities with colliding hashes", Spec::new(3, &[0, 1, 2], &[0, 1], 2), |g, st| {
            let want = expect(g, 0, g.rb, st);
            premade::<KC>(g, 0, g.rb, st, &[])?;
            fs::<KC, 1, 1>(g, 0, g.rb, want, st)
        }),
        graphs("precheck", "precheck limits 0..5, all mode combinations, all random sequences", Spec::new(3, &[0, 1, 2], &[0, 1], 2), |g, st| {
            let want = expect(g, 0, g.rb, st);
            pres::<1, 1, 0>(g, want, st)?;
            pres::<1, 1, 1>(g, want, st)?;
            pres::<1, 1, 2>(g, want, st)?;
            pres::<1, 1, 3>(g, want, st)?;
            pres::<0, 1, 5>(g, want, st)
        }),
        tuples("lasso", "tails and cycles of two lists, one node marked; [tail,cycle,tail,cycle,mark,arity]", lasso_items(t.pick(3, 5), t.pick(4, 6)), lasso),
        tuples(
            "families",
            "families of growing graphs against a mutated copy; [family,size,size,mutation,position]",
            fam_items(&all_families(), &[1, 2, 3, 4, 5, 7, 10, 41, 81], &[1, 2, 3, 4], if q { 41 } else { 100 }),
            |t, st| {
                let (g, rb) = fam_graph(t);
                premade::<KB>(&g, 0, rb, st, &[RngMode::Zero, RngMode::Max, RngMode::Seq(1)])
            },
        ),
        tuples(
            "big_families",
            "families around and beyond the default limits and capacities",
            fam_items(&all_families(), if q { &[401, 1300] } else { &[401, 801, 1300, 2100] }, if q { &[1, 2] } else { &[1, 2, 3, 4] }, 0),
            |t, st| {
                let (g, rb) = fam_graph(t);
                premade::<KB>(&g, 0, rb, st, &[RngMode::Max])
            },
        ),
    ];
    let huge: Vec<Vec<i64>> = fam_items(&all_families(), if q { &[4200] } else { &[4200, 9000] }, &[1], 0)
        .into_iter()
        .filter(|x| x[1] == x[2] && (x[3] == 0 || x[4] == 0 || x[4] > 2000))
        .collect();
    v.push(tuples("huge_families", "families beyond the initial capacity of the premade table", huge, |t, st| {
        let (g, rb) = fam_graph(t);
        premade::<KB>(&g, 0, rb, st, &[RngMode::Seq(7)])
    }));
    if !q {
        v.push(graphs("six", lsd, Spec::new(6, &[0, 2], &[0], 2), large));
        v.push(graphs("four_deg3", lsd, Spec::new(4, &[0, 1, 2, 3], &[0], 2), large));
        v.push(graphs("four_three_labels", fsd, Spec::new(4, &[0, 1, 2], &[0, 1, 2], 2), small));
        v.push(graphs("unary", lsd, Spec::new(8, &[0, 1], &[0, 1], 2), small));
        v.push(graphs("premade_five", "premade functions", Spec::new(5, &[0, 1, 2], &[0], 2), |g, st| premade::<KB>(g, 0, g.rb, st, &[])));
    }
    v
}

fn main() {
    gsc_mc::runner::main(Check {
        id: "S01",
        level: "model_checking",
        rule: "reference: breadth-first search of the product of the two graphs over all counterpart pairs (states: pairs visited, transitions: edge pairs followed, summed over all graphs); every graph pair of each space is compared by the real code under every listed variant and every random sequence, and the verdicts must agree",
        assumptions: &["graphs, degrees, labels and limits within the bounds of each listed space", "node callbacks are deterministic and consistent during one comparison"],
        spaces,
    })
}
