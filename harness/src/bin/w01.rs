//! W01: termination within the work bound.
use graph_safe_compare as gsc;
use gsc_mc::graph::*;
use gsc_mc::node::*;
use gsc_mc::refm::*;
use gsc_mc::runner::*;
use gsc_mc::util::*;
use gsc_mc::variants::*;

fn bound(g: &Graph, f: u64, s: u64, p: u64) -> u64 {
    let m = g.branches().saturating_sub(1);
    1 + g.max_deg() * (m + (f + 1) * (m / s)) + p
}
fn within(what: impl std::fmt::Debug, cx: &Ctx, b: u64, st: &mut Stats) -> Result<(), String> {
    st.execs += 1;
    st.outcome(cx.n_cmp.get());
    if b > 0 {
        st.max("percent_of_bound_used", cx.n_cmp.get() * 100 / b);
    }
    if cx.n_cmp.get() > b {
        return Err(format!("{what:?}: {} value comparisons; the bound is {b}", cx.n_cmp.get()));
    }
    Ok(())
}
fn calls(b: u64, g: &Graph) -> u64 {
    // A few callbacks per comparison and per edge.
    1000 + 64 * b * (g.max_deg() + 2)
}

fn fs<const F: u16, const S: u16>(g: &Graph, st: &mut Stats) -> Result<(), String> {
    let b = bound(g, F as u64, S as u64, 0);
    let cx = Ctx::new(g, 0, 0);
    for r in RS {
        all_rng(st, |st| {
            cx.reset(calls(b, g));
            inter::<KB, Hm, F, S>(r, nd(&cx, 0, 0), nd(&cx, g.rb, 1));
            within((r, "fast limit", F, "slow limit", S), &cx, b, st)
        })?;
    }
    Ok(())
}
/// Only the precheck limit customized.
fn derived<const P: u16>(g: &Graph, ra: u32, rb: u32, pre: bool, st: &mut Stats) -> Result<(), String> {
    let b = bound(g, 2 * P as u64, (P as u64 / 10).max(1), 0);
    let cx = Ctx::new(g, 0, 0);
    for m in [RngMode::Max, RngMode::Zero, RngMode::Seq(5)] {
        set_rng(m);
        for r in RS {
            cx.reset(calls(b, g));
            type I<'c, const P: u16> = IPD<<Hm as Tk>::T<'c, KB>, P>;
            let (x, y) = (nd(&cx, ra, 0), nd(&cx, rb, 1));
            match r {
                R::Call => inter_call::<_, I<P>>(x, y),
                R::Queue => inter_queue::<_, I<P>>(x, y),
                R::Stack => inter_stack::<_, I<P>>(x, y),
            };
            within((r, "precheck limit (others derived)", P, m), &cx, b, st)?;
        }
        if pre {
            for p in PRES {
                let b = b + P as u64;
                cx.reset(calls(b, g));
                pre_inter::<KB, IPD<<Hm as Tk>::T<'_, KB>, P>>(p, nd(&cx, ra, 0), nd(&cx, rb, 1));
                within((p, "with precheck limit (others derived)", P, m), &cx, b, st)?;
            }
        }
    }
    Ok(())
}
fn premade(g: &Graph, ra: u32, rb: u32, st: &mut Stats) -> Result<(), String> {
    let cx = Ctx::new(g, 0, 0);
    for c in CYCS {
        let pre = matches!(c, Cyc::RobustPre | Cyc::CyclePre);
        let b = bound(g, 800, 40, if pre { 400 } else { 0 });
        cx.reset(calls(b, g));
        cyc(c, nd::<KB>(&cx, ra, 0), nd(&cx, rb, 1));
        within(c, &cx, b, st)?;
    }
    derived::<400>(g, ra, rb, true, st)
}
fn small(g: &Graph, st: &mut Stats) -> Result<(), String> {
    let o = reference(g, 0, g.rb, Order::Breadth, st);
    let _ = o;
    fs::<0, 1>(g, st)?;
    fs::<1, 1>(g, st)?;
    fs::<2, 1>(g, st)?;
    fs::<1, 2>(g, st)?;
    fs::<0, 3>(g, st)
}
fn der(g: &Graph, ra: u32, rb: u32, pre: bool, st: &mut Stats) -> Result<(), String> {
    reference(g, ra, rb, Order::Breadth, st);
    macro_rules! d { ($($p:literal)*) => { $( derived::<$p>(g, ra, rb, pre, st)?; )* } }
    d!(0 1 2 5 9 10 11 19 20 21 40);
    Ok(())
}

fn spaces(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    let _ = gsc::cycle_safe::equiv::<Nd<'static, KB>>;
    let d = "every random sequence, (fast,slow) limits (0,1),(1,1),(2,1),(1,2),(0,3), three recursion modes";
    let fd = "families and mutated copies; [family,size,size,mutation,position]";
    let mut v = vec![
        graphs("small", d, Spec::new(4, &[0, 1, 2], &[0], 2), small),
        graphs("deg3", d, Spec::new(3, &[0, 1, 2, 3], &[0, 1], 2), small),
        graphs("four_labels", d, Spec::new(4, &[0, 2], &[0, 1], 2), small),
        graphs("derived", "only the precheck limit customized (0..40), with and without precheck", Spec::new(3, &[0, 1, 2], &[0], 2), |g, st| der(g, 0, g.rb, true, st)),
        tuples("lasso", "lassos; [tail,cycle,tail,cycle,mark,arity]", lasso_items(t.pick(2, 4), t.pick(4, 6)), |x, st| {
            let (g, rb) = lasso_graph(x);
            premade(&g, 0, rb, st)?;
            der(&g, 0, rb, false, st)
        }),
        tuples("families", fd, fam_items(&all_families(), &[2, 3, 5, 8, 13, 21, 34, 42, 55], &[1, 2, 4], 8), |x, st| {
            let (g, rb) = fam_graph(x);
            reference(&g, 0, rb, Order::Breadth, st);
            premade(&g, 0, rb, st)?;
            derived::<10>(&g, 0, rb, false, st)?;
            derived::<3>(&g, 0, rb, true, st)
        }),
        tuples(
            "big_families",
            fd,
            fam_items(&all_families(), if q { &[410, 1300] } else { &[410, 1300, 2500, 5000] }, &[1], 0).into_iter().filter(|x| x[1] < 2000 || x[1] == x[2]).collect(),
            |x, st| {
                let (g, rb) = fam_graph(x);
                premade(&g, 0, rb, st)
            },
        ),
    ];
    if !q {
        v.push(graphs("five", d, Spec::new(5, &[0, 1, 2], &[0], 2), small));
        v.push(graphs("four_all", d, Spec::new(4, &[0, 1, 2], &[0, 1], 2), small));
        v.push(graphs("derived_four", "only the precheck limit customized", Spec::new(4, &[0, 1, 2], &[0], 2), |g, st| der(g, 0, g.rb, true, st)));
    }
    v
}

fn main() {
    gsc_mc::runner::main(Check {
        id: "W01",
        level: "model_checking",
        rule: "every graph pair of each space under every listed limit and random sequence: the number of value comparisons made by the real code must not exceed 1 + D*(M + (F+1)*floor(M/S)) (+ precheck limit), and the comparison must end within a multiple of that many callbacks; states/transitions: those of the product search",
        assumptions: &["graphs, degrees, labels and limits within the bounds of each listed space", "slow limit at least one"],
        spaces,
    })
}
