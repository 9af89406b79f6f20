//! R02: pending edges are generated lazily and exhausted nodes are released.
use gsc_mc::alloc;
use gsc_mc::graph::*;
use gsc_mc::modes::*;
use gsc_mc::node::*;
use gsc_mc::pump::*;
use gsc_mc::refm::*;
use gsc_mc::runner::*;
use gsc_mc::util::*;
use gsc_mc::variants::*;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

fn prechecked(v: V) -> bool {
    matches!(v, V::Cyc(Cyc::RobustPre | Cyc::CyclePre) | V::P0(_) | V::P1(_) | V::P2(_) | V::P3(_) | V::P400(_))
}
fn vs() -> Vec<V> {
    let mut v = vec![];
    for r in [R::Queue, R::Stack] {
        v.extend([V::Unl(r), V::I01(r), V::I11(r), V::I21(r), V::I12(r)]);
    }
    v.extend([3, 4].iter().flat_map(|&p| [V::P0(p), V::P1(p), V::P2(p), V::P3(p)]));
    v
}
fn premade() -> Vec<V> {
    vec![V::Cyc(Cyc::Robust), V::Cyc(Cyc::RobustPre), V::Dflt(R::Queue), V::Dflt(R::Stack), V::P400(3), V::P400(4)]
}

fn done(what: impl std::fmt::Debug, cx: &Ctx, st: &mut Stats) -> Result<(), String> {
    st.execs += 1;
    st.outcome((cx.max_held.get(), cx.n_cmp.get()));
    st.max("held", cx.max_held.get() as u64);
    cx.result().map_err(|m| format!("{what:?}: {m}"))?;
    if cx.live.get() != 0 {
        return Err(format!("{what:?}: {} nodes not released", cx.live.get()));
    }
    Ok(())
}
/// What is held at every value comparison, in every variant.
fn held<K: Kind>(g: &Graph, ra: u32, rb: u32, vs: &[V], st: &mut Stats) -> Result<(), String> {
    let acyclic = g.is_acyclic();
    let cx = Ctx::new(g, 0, M_HOLD);
    for &v in vs {
        if matches!(v, V::Unl(_)) && !acyclic {
            continue;
        }
        let mut peak = 0;
        let full = matches!(v, V::Unl(_));
        if full {
            let (o, _) = search_peak(g, ra, rb, v.r().order(), false, u64::MAX, &mut peak);
            st.states += o.states;
            st.transitions += o.transitions;
        }
        cx.spare.set(if prechecked(v) { 2 } else { 0 });
        let f = |st: &mut Stats| {
            cx.reset(budget(g) * 16);
            let _ = run::<K>(v, nd(&cx, ra, 0), nd(&cx, rb, 1));
            done(v, &cx, st)?;
            // besides the pending ones, the one just being looked at
            if full && cx.max_held.get() > 2 * peak as i64 + 2 {
                return Err(format!("{v:?}: {} nodes with begun edges are held, {} pairs are pending at most", cx.max_held.get(), peak));
            }
            Ok(())
        };
        if v.random() {
            all_rng(st, f)?
        } else {
            set_rng(RngMode::Seq(3));
            let f = f;
            f(st)?
        }
    }
    Ok(())
}
fn limits(g: &Graph, cap: u32, st: &mut Stats) -> Result<(), String> {
    let cx = Ctx::new(g, 0, M_HOLD);
    for r in [R::Queue, R::Stack] {
        for l in 0..=cap {
            let mut peak = 0;
            search_peak(g, 0, g.rb, r.order(), false, l as u64, &mut peak);
            cx.reset(budget(g));
            let fin = run::<KB>(V::Lim(r, l), nd(&cx, 0, 0), nd(&cx, g.rb, 1)).is_ok();
            done((r, "limit", l), &cx, st)?;
            if cx.max_held.get() > 2 * peak as i64 + 2 {
                return Err(format!("{r:?}, limit {l}: {} nodes with begun edges are held, {} pairs are pending at most", cx.max_held.get(), peak));
            }
            if fin {
                break;
            }
        }
    }
    Ok(())
}
fn refusing(g: &Graph, ra: u32, rb: u32, free: u32, st: &mut Stats) -> Result<(), String> {
    let cx = Ctx::new(g, 0, M_HOLD);
    for r in [R::Queue, R::Stack] {
        all_rng(st, |st| {
            ask_reset(free, 30, true);
            cx.reset(budget(g));
            let _ = ask_run::<KB>(r, nd(&cx, ra, 0), nd(&cx, rb, 1));
            done((r, ASK.with(|a| a.borrow().log.clone())), &cx, st)
        })?;
        macro_rules! fs { ($($f:literal $s:literal)*) => { $(
            all_rng(st, |st| {
                cx.reset(budget(g));
                closing_run::<KB, IP<<Hm as Tk>::T<'_, KB>, $f, $s, 1>>(r, nd(&cx, ra, 0), nd(&cx, rb, 1));
                done((r, "fast limit", $f, "slow limit", $s), &cx, st)
            })?;
        )* } }
        fs!(0 1 1 1 1 2);
    }
    Ok(())
}

/// Heap bytes: must depend on the pending pairs only.
fn bytes(g: &Graph, ra: u32, rb: u32, v: V) -> i64 {
    let cx = Ctx::new(g, 0, 0);
    cx.reset(1 << 24);
    let (a, b) = (nd::<KB>(&cx, ra, 0), nd(&cx, rb, 1));
    let base = alloc::mark();
    let _ = run::<KB>(v, a, b);
    alloc::peak() - base
}
const ENTRY: i64 = 2 * std::mem::size_of::<Nd<'static, KB>>() as i64 + 16;
fn space(gs: &[(Graph, u32)], lens: &[i64], st: &mut Stats) -> Result<(), String> {
    for r in [R::Queue, R::Stack] {
        let mut seen: Vec<(usize, i64, i64)> = vec![];
        for (k, (g, rb)) in gs.iter().enumerate() {
            let cap = 20_000;
            let mut peak = 0;
            let (o, n) = search_peak(g, 0, *rb, r.order(), false, cap, &mut peak);
            st.states += o.states;
            st.transitions += o.transitions;
            let v = if n.is_some() && g.is_acyclic() { V::Unl(r) } else { V::Lim(r, cap as u32) };
            let b = bytes(g, 0, *rb, v);
            st.execs += 1;
            st.outcome((peak, b));
            // amortised growth, whatever was there initially
            if b > 4 * ENTRY * (peak as i64 + 64) {
                return Err(format!("{v:?}: {b} bytes taken with at most {peak} pending pairs (size {})", lens[k]));
            }
            if let Some((_, b0, l0)) = seen.iter().find(|s| s.0 == peak) {
                if b > 2 * b0 + 8 * ENTRY {
                    return Err(format!("{v:?}: {b0} bytes taken at size {l0}, {b} at size {}, although the same number of pairs ({peak}) is pending at most", lens[k]));
                }
            } else {
                seen.push((peak, b, lens[k]));
            }
        }
    }
    Ok(())
}

fn spaces(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    let every = "queue and stack variants, all random sequences: what is held at every value comparison";
    let (v1, v2, v3, v4) = (vs(), vs(), premade(), premade());
    let mut v = vec![
        graphs("small", every, Spec::new(3, &[0, 1, 2], &[0, 1], 2), move |g, st| {
            held::<KB>(g, 0, g.rb, &v1, st)?;
            limits(g, 12, st)
        }),
        graphs("refused", "user-supplied descend mode refusing descents, and the real interleaving's refusals", Spec::new(3, &[0, 1, 2], &[0, 1], 2), move |g, st| refusing(g, 0, g.rb, t.pick(6, 8), st)),
        graphs("degrees", every, if q { Spec::new(3, &[0, 2, 3], &[0], 2) } else { Spec::new(3, &[0, 1, 2, 4], &[0], 2) }, move |g, st| {
            held::<KB>(g, 0, g.rb, &v2, st)?;
            limits(g, 12, st)?;
            refusing(g, 0, g.rb, 3, st)
        }),
        graphs("premade", "robust comparisons and default limits", Spec::new(3, &[0, 1, 2, 3], &[0], 2), move |g, st| held::<KB>(g, 0, g.rb, &v3, st)),
        tuples("families", "families and mutated copies; [family,size,size,mutation,position]", fam_items(&all_families(), &[2, 3, 5, 9, 45, 500], &[1, 2, 3, 4], 9), move |x, st| {
            let (g, rb) = fam_graph(x);
            held::<KB>(&g, 0, rb, &v4, st)?;
            if family_is_thin(x[0] as usize) {
                held::<KB>(&g, 0, rb, &[V::Unl(R::Queue), V::Unl(R::Stack)], st)?;
            }
            Ok(())
        }),
    ];
    let what = "heap bytes at most taken by deep- and wide-safe comparison (limited where the unfolding is large or infinite), all gadgets: [nodes, degree, edge lists...], pumped to several lengths";
    let pump_check = move |x: &[i64], st: &mut Stats| -> Result<(), String> {
        for (cyclic, wide) in [(false, 0), (true, 0), (false, 1), (false, 2)] {
            for how in [0, 1, 3] {
                let lens = [4, 11, 40, 41, 400];
                let gs: Vec<_> = lens.iter().map(|&l| sides(x, l as u32, cyclic, wide, how)).collect();
                space(&gs, &lens, st)?;
            }
        }
        Ok(())
    };
    v.push(tuples("pumped_one", what, gadgets(1, t.pick(3, 4)), pump_check));
    v.push(tuples("pumped_two", what, gadgets(2, 2), pump_check));
    if !q {
        v.push(tuples("pumped_two_three_edges", what, gadgets(2, 3), pump_check));
    }
    // lists of broad nodes
    let mut wl = vec![];
    for w in [1, 2, 3, 5, 17, 64, 200] {
        for p in [0, 1, w / 2, w - 1] {
            if p < w {
                wl.push(vec![w, p]);
            }
        }
    }
    v.push(tuples("broad", "as pumped, lists of broad nodes: [edges, which of them leads on]", wl, move |x, st| {
        for tails in [0, 1] {
            let lens = [4, 11, 40, 41, 400];
            let gs: Vec<_> = lens
                .iter()
                .map(|&n| {
                    let mut a: Vec<(u8, Vec<u32>)> = vec![];
                    for i in 0..n as u32 {
                        let mut e = vec![n as u32; x[0] as usize];
                        if tails == 1 {
                            // a ring
                            e[x[1] as usize] = (i + 1) % n as u32;
                        } else {
                            e[x[1] as usize] = i + 1;
                        }
                        a.push((0, e));
                    }
                    a.push((0, vec![]));
                    side_by_side(&a, &a)
                })
                .collect();
            space(&gs, &lens, st)?;
        }
        Ok(())
    }));
    v.push(tuples("long", "as pumped, long families: [family]", thin_families().into_iter().map(|f| vec![f as i64]).collect(), move |x, st| {
        let lens = [20, 300, t.pick(10_000, 300_000)];
        let gs: Vec<_> = lens.iter().map(|&n| (family(x[0] as usize, n as u32), n)).map(|(a, _)| side_by_side(&a, &a)).collect();
        space(&gs, &lens, st)
    }));
    v
}

fn main() {
    gsc_mc::runner::main(Check {
        id: "R02",
        level: "model_checking",
        rule: "at every value comparison of every execution: no node is held whose last edge was taken, whose descendants were refused or that has no edges; nodes not yet begun are at most the current pair, one per pending node and the roots while prechecking; begun nodes are at most the reference search's pending pairs; heap bytes depend on the pending pairs only",
        assumptions: &["graphs, degrees and labels within the bounds of each listed space"],
        spaces,
    })
}
