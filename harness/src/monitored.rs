//! The spaces shared by the checks that monitor the callbacks of every execution.
use crate::graph::*;
use crate::modes::*;
use crate::node::*;
use crate::refm::*;
use crate::runner::*;
use crate::util::*;
use crate::variants::*;

fn fin(what: impl std::fmt::Debug, cx: &Ctx, st: &mut Stats) -> Result<(), String> {
    st.execs += 1;
    st.outcome((cx.n_cmp.get(), cx.n_edge.get()));
    cx.result().map_err(|m| format!("{what:?}: {m}"))
}

/// Real comparators.
pub fn variants<K: Kind>(g: &Graph, ra: u32, rb: u32, vs: &[V], mask: u32, st: &mut Stats) -> Result<(), String> {
    let acyclic = g.is_acyclic();
    let cx = Ctx::new(g, 0, mask);
    reference(g, ra, rb, Order::Breadth, st);
    for &v in vs {
        if let V::Unl(_) = v {
            if !acyclic {
                continue;
            }
        }
        let f = |st: &mut Stats| {
            cx.reset(budget(g));
            let _ = run::<K>(v, nd(&cx, ra, 0), nd(&cx, rb, 1));
            fin(v, &cx, st)
        };
        if v.random() {
            all_rng(st, f)?
        } else {
            set_rng(RngMode::Max);
            let f = f;
            f(st)?
        }
    }
    Ok(())
}
/// Limited comparators, every limit up to `cap`.
pub fn limits<K: Kind>(g: &Graph, ra: u32, rb: u32, cap: u32, mask: u32, st: &mut Stats) -> Result<(), String> {
    let cx = Ctx::new(g, 0, mask);
    for r in RS {
        for l in 0..=cap {
            cx.reset(budget(g));
            let done = run::<K>(V::Lim(r, l), nd(&cx, ra, 0), nd(&cx, rb, 1)).is_ok();
            fin((r, "limit", l), &cx, st)?;
            if done {
                break;
            }
        }
    }
    Ok(())
}
/// User-supplied descend mode: every answer to the first `free` questions.
pub fn asked<K: Kind>(g: &Graph, free: u32, mask: u32, st: &mut Stats) -> Result<(), String> {
    let cx = Ctx::new(g, 0, mask);
    reference(g, 0, g.rb, Order::Breadth, st);
    for r in RS {
        all_rng(st, |st| {
            ask_reset(free, 30, true);
            cx.reset(budget(g));
            let _ = ask_run::<K>(r, nd(&cx, 0, 0), nd(&cx, g.rb, 1));
            fin((r, "descend mode", ASK.with(|a| a.borrow().log.clone())), &cx, st)
        })?;
    }
    Ok(())
}
/// The real interleaving behind a mode that notes what it refuses.
pub fn closing<K: Kind>(g: &Graph, ra: u32, rb: u32, mask: u32, st: &mut Stats) -> Result<(), String> {
    let cx = Ctx::new(g, 0, mask);
    macro_rules! fs { ($($f:literal $s:literal)*) => { $(
        for r in RS {
            all_rng(st, |st| {
                cx.reset(budget(g));
                closing_run::<K, IP<<Hm as Tk>::T<'_, K>, $f, $s, 1>>(r, nd(&cx, ra, 0), nd(&cx, rb, 1));
                fin((r, "interleaving, fast limit", $f, "slow limit", $s), &cx, st)
            })?;
        }
    )* } }
    fs!(0 1 1 1 0 2 1 2);
    let vs = RngMode::Seq(11);
    set_rng(vs);
    for r in RS {
        cx.reset(budget(g) * 64);
        closing_run::<K, IPD<<Hm as Tk>::T<'_, K>, 400>>(r, nd(&cx, ra, 0), nd(&cx, rb, 1));
        fin((r, "interleaving, default limits"), &cx, st)?;
    }
    Ok(())
}

pub fn monitored_spaces(t: Tier, mask: u32) -> Vec<Space> {
    let q = t == Tier::Quick;
    let mut all: Vec<V> = unl_variants();
    all.extend(small_variants());
    all.extend(pre_variants());
    let prem: Vec<V> = premade_variants().into_iter().chain(RS.map(V::Dflt)).chain((0..5).map(V::P400)).collect();
    let mut few: Vec<V> = unl_variants();
    for r in RS {
        few.extend([V::I01(r), V::I11(r), V::I12(r)]);
    }
    few.extend((0..5).map(V::P2));
    let (a1, a2, a3) = (all.clone(), few.clone(), few.clone());
    let few2 = few.clone();
    let (p1, p2) = (prem.clone(), prem.clone());
    let every = "basic/deep-safe/wide-safe (acyclic), limited with every limit, interleaving with all small limits and all random sequences, with and without precheck";
    let mut v = vec![
        graphs("small", every, Spec::new(3, &[0, 1, 2], &[0, 1], 2), move |g, st| {
            variants::<KB>(g, 0, g.rb, &a1, mask, st)?;
            limits::<KB>(g, 0, g.rb, 12, mask, st)?;
            closing::<KB>(g, 0, g.rb, mask, st)
        }),
        graphs("degrees", every, if q { Spec::new(3, &[0, 2, 3], &[0], 2) } else { Spec::new(3, &[0, 1, 2, 4], &[0], 2) }, move |g, st| {
            variants::<KB>(g, 0, g.rb, &a2, mask, st)?;
            limits::<KB>(g, 0, g.rb, 8, mask, st)
        }),
        graphs("asked", "user-supplied descend mode, every answer (permit, refuse, error) to the first 6 (thorough 9) questions", Spec::new(3, &[0, 1, 2], &[0, 1], 2), move |g, st| {
            asked::<KB>(g, if q { 6 } else { 9 }, mask, st)
        }),
        graphs("four", "as small", Spec::new(4, &[0, 1, 2], &[0], 2), move |g, st| {
            variants::<KB>(g, 0, g.rb, &a3, mask, st)?;
            limits::<KB>(g, 0, g.rb, 10, mask, st)?;
            closing::<KB>(g, 0, g.rb, mask, st)
        }),
        graphs("premade", "premade comparators and default limits", Spec::new(3, &[0, 1, 3], &[0, 1], 2), move |g, st| variants::<KB>(g, 0, g.rb, &p1, mask, st)),
        tuples("families", "families and mutated copies; [family,size,size,mutation,position]", fam_items(&all_families(), &[2, 3, 5, 9, 45, 500], &[1, 2, 3, 4], 9), move |x, st| {
            let (g, rb) = fam_graph(x);
            let prem: Vec<V> = p2.clone();
            variants::<KB>(&g, 0, rb, &prem, mask, st)?;
            if family_is_thin(x[0] as usize) {
                variants::<KB>(&g, 0, rb, &unl_variants(), mask, st)?;
            }
            Ok(())
        }),
    ];
    v.insert(2, graphs("degrees2", every, Spec::new(2, &[0, 1, 2, 3, 4, 5], &[0], 2), move |g, st| {
        variants::<KB>(g, 0, g.rb, &few2, mask, st)?;
        closing::<KB>(g, 0, g.rb, mask, st)?;
        limits::<KB>(g, 0, g.rb, 12, mask, st)
    }));
    if !q {
        let (f4, f5) = (few.clone(), few);
        v.push(graphs("four_labels", "as small", Spec::new(4, &[0, 1, 2], &[0, 1], 2), move |g, st| {
            variants::<KB>(g, 0, g.rb, &f4, mask, st)?;
            closing::<KB>(g, 0, g.rb, mask, st)
        }));
        v.push(graphs("asked_four", "user-supplied descend mode, every answer to the first 6 questions", Spec::new(4, &[0, 1, 2], &[0], 2), move |g, st| asked::<KB>(g, 6, mask, st)));
        v.push(graphs("five", "as small", Spec::new(5, &[0, 1, 2], &[0], 2), move |g, st| variants::<KB>(g, 0, g.rb, &f5, mask, st)));
    }
    v
}
