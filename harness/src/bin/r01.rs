//! R01: deep-, wide-safe and robust comparison use constant call-stack space.
use gsc_mc::alloc;
use gsc_mc::graph::*;
use gsc_mc::node::*;
use gsc_mc::pump::*;
use gsc_mc::runner::*;
use gsc_mc::util::*;
use gsc_mc::variants::*;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

/// Growth that cannot come from a fixed set of call paths being met or not.
const SLACK: usize = 4096;
/// No comparison needs more than this at all.
const MOST: usize = 32768;

fn vs() -> Vec<V> {
    let mut v = vec![];
    for r in [R::Queue, R::Stack] {
        v.extend([V::Unl(r), V::Lim(r, 5000), V::I01(r), V::I12(r), V::I03(r), V::Dflt(r)]);
    }
    v.extend([V::Cyc(Cyc::Robust), V::Cyc(Cyc::RobustPre)]);
    v.extend([V::P2(1), V::P3(2), V::P3(3), V::P3(4), V::P400(3), V::P400(4)]);
    v
}
/// Callbacks, allocations and releases: the deepest address, from here.
#[inline(never)]
fn depth(g: &Graph, ra: u32, rb: u32, v: V, st: &mut Stats) -> (usize, usize) {
    let cx = Ctx::new(g, 0, M_STACK | M_DROP);
    set_rng(RngMode::Seq(5));
    cx.reset(1 << 24);
    let (a, b) = (nd::<KC1>(&cx, ra, 0), nd(&cx, rb, 1));
    alloc::mark();
    let base = 0u8;
    let base = std::hint::black_box(&base) as *const u8 as usize;
    let r = run::<KC1>(v, a, b);
    let _ = r;
    st.execs += 1;
    st.choices += cx.n_cmp.get() + cx.n_edge.get();
    (base.saturating_sub(cx.lo.get()), base.saturating_sub(alloc::lowest()))
}
/// Plain.
type KC1 = KB;

fn cheap(g: &Graph, ra: u32, rb: u32, cap: u64, st: &mut Stats) -> bool {
    let mut all = true;
    for o in [gsc_mc::refm::Order::Depth, gsc_mc::refm::Order::Breadth] {
        let (o, n) = gsc_mc::refm::search(g, ra, rb, o, false, cap);
        st.states += o.states;
        st.transitions += o.transitions;
        all &= n.is_some();
    }
    all
}

fn check(x: &[i64], lens: &[u32], cyclic: bool, wide: i64, hows: &[i64], vs: &[V], st: &mut Stats) -> Result<(), String> {
    for &how in hows {
        let gs: Vec<_> = lens.iter().map(|&l| sides(x, l, cyclic, wide, how)).collect();
        let fin: Vec<bool> = gs.iter().map(|(g, rb)| g.is_acyclic() && cheap(g, 0, *rb, 20_000, st)).collect();
        for &v in vs {
            let mut first: Option<(usize, usize)> = None;
            for (k, (g, rb)) in gs.iter().enumerate() {
                if matches!(v, V::Unl(_)) && !fin[k] {
                    continue;
                }
                let d = depth(g, 0, *rb, v, st);
                st.max("stack_bytes", d.0.max(d.1) as u64);
                let f = *first.get_or_insert(d);
                st.max("stack_growth", d.0.saturating_sub(f.0).max(d.1.saturating_sub(f.1)) as u64);
                if d.0 > MOST || d.1 > MOST || d.0 > f.0 + SLACK || d.1 > f.1 + SLACK {
                    return Err(format!(
                        "{v:?}: with {} copies of the pattern (sides {how}) the call stack grows to {} bytes in callbacks, {} in allocations and releases; with {} copies it was {} and {}",
                        lens[k], d.0, d.1, lens[0], f.0, f.1
                    ));
                }
            }
        }
        st.outcome((how, fin));
    }
    Ok(())
}
fn kinds() -> [(bool, i64); 4] {
    [(false, 0), (true, 0), (false, 1), (false, 2)]
}

fn spaces(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    let what = "all gadgets whose nodes have up to the given number of edges, to nodes of the same copy, the next copy or a leaf; chained (acyclic or into a ring) or below one wide root; right side: another copy, one with a difference at the end, only another root, or one copy longer; item: [nodes, degree, edge lists...]";
    let mk = |name: &str, list: Vec<Vec<i64>>, lens: &'static [u32], hows: &'static [i64]| {
        let v = vs();
        tuples(name, what, list, move |x, st| {
            for (c, w) in kinds() {
                check(x, lens, c, w, hows, &v, st)?;
            }
            Ok(())
        })
    };
    let mut v = vec![
        mk("one_node", gadgets(1, 3), &[8, 60, 1000], &[0, 1, 2, 3]),
        mk("one_node_five_edges", gadgets(1, 5), &[8, 300], &[0, 2]),
        mk("two_nodes", gadgets(2, 2), &[8, 60, 500], &[0, 1, 2, 3]),
    ];
    if !q {
        v.push(mk("two_nodes_three_edges", gadgets(2, 3), &[8, 600], &[0, 1, 2]));
        v.push(mk("three_nodes", gadgets(3, 2), &[8, 300], &[0, 2]));
    }
    let wv = vs();
    let mut wl = vec![];
    for w in [6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 100, 257] {
        for p in [0, 1, w / 2, w - 2, w - 1] {
            wl.push(vec![w, p]);
        }
    }
    v.push(tuples("broad", "lists of broad nodes: [edges, which of them leads on]", wl, move |x, st| {
        for cyclic in [false, true] {
            for how in 0..2 {
                let gs: Vec<_> = [8, 600]
                    .iter()
                    .map(|&n| {
                        let mk = |d: bool| {
                            let mut a: Vec<(u8, Vec<u32>)> = vec![];
                            for i in 0..n {
                                let mut e = vec![n; x[0] as usize];
                                e[x[1] as usize] = if cyclic { (i + 1) % n } else { i + 1 };
                                a.push(((d && i == n - 1) as u8, e));
                            }
                            a.push((0, vec![]));
                            a
                        };
                        side_by_side(&mk(false), &mk(how == 1))
                    })
                    .collect();
                for &v in &wv {
                    if matches!(v, V::Unl(_)) && cyclic {
                        continue;
                    }
                    let d0 = depth(&gs[0].0, 0, gs[0].1, v, st);
                    let d1 = depth(&gs[1].0, 0, gs[1].1, v, st);
                    st.max("stack_bytes", d1.0.max(d1.1) as u64);
                    if d1.0 > d0.0 + SLACK || d1.1 > d0.1 + SLACK || d1.0.max(d1.1) > MOST {
                        return Err(format!("{v:?}: the call stack grows from {d0:?} to {d1:?} bytes (callbacks, allocations) from 8 to 600 nodes"));
                    }
                }
            }
        }
        Ok(())
    }));
    let sizes: Vec<i64> = t.pick(vec![20_000], vec![20_000, 300_000]);
    let vv = vs();
    v.push(tuples("long", "families, long against short; [family, size]", (0..FAMILIES.len()).flat_map(|f| sizes.iter().map(move |s| vec![f as i64, *s])).collect(), move |x, st| {
        let mut first = vec![];
        for n in [50, x[1]] {
            for d in 0..2 {
                let a = family(x[0] as usize, n as u32);
                let mut b = a.clone();
                let at = b.len() as u32 - 1;
                mutate(&mut b, d, at);
                let (g, rb) = side_by_side(&a, &b);
                for (i, &v) in vv.iter().enumerate() {
                    if matches!(v, V::Unl(_)) && !family_is_thin(x[0] as usize) {
                        continue;
                    }
                    let v = if let V::Lim(r, _) = v { V::Lim(r, 1_000_000) } else { v };
                    let m = depth(&g, 0, rb, v, st);
                    if n == 50 {
                        first.push((i, d, m));
                    } else {
                        let f = first.iter().find(|f| f.0 == i && f.1 == d).unwrap().2;
                        st.max("stack_bytes", m.0.max(m.1) as u64);
                        st.max("stack_growth", m.0.saturating_sub(f.0).max(m.1.saturating_sub(f.1)) as u64);
                        if m.0 > f.0 + SLACK || m.1 > f.1 + SLACK || m.0 > MOST || m.1 > MOST {
                            return Err(format!("{v:?}: the call stack grows from {f:?} to {m:?} bytes (callbacks, allocations) from size 50 to {n}"));
                        }
                    }
                }
            }
        }
        Ok(())
    }));
    v
}

fn main() {
    gsc_mc::runner::main(Check {
        id: "R01",
        level: "model_checking",
        rule: "every gadget within the bounds, pumped to several lengths; the deepest stack address seen by any node callback, node release, allocation or deallocation must not depend on the length (slack 4 KiB), nor exceed 32 KiB; environment_choices counts the callbacks",
        assumptions: &["machine code of this build (optimised, assertions on)", "patterns of up to 2 (thorough 3) nodes"],
        spaces,
    })
}
