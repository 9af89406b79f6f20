//! S06: the order in which nodes give their edges may depend on the position.
use graph_safe_compare::Cmp;
use gsc_mc::graph::*;
use gsc_mc::node::*;
use gsc_mc::refm::*;
use gsc_mc::runner::*;
use gsc_mc::util::*;
use gsc_mc::variants::*;
use std::collections::VecDeque;

/// The first difference of the unfolded graphs, in the orders of edges that were used.
fn unfolded(cx: &Ctx, ra: u32, rb: u32, order: Order) -> Option<Diff> {
    let g = cx.g;
    let ord = cx.orders.borrow();
    let mut q = VecDeque::from([(ra, rb, ROOT, 0)]);
    let mut first = true;
    loop {
        // A pair is looked at when its turn comes; the first one without being asked for.
        let i = if order == Order::Breadth { 0 } else { q.len() - 1 };
        let (a, b, path) = if first {
            let (a, b, p, _) = q.pop_front().unwrap();
            first = false;
            (a, b, p)
        } else {
            let Some((a, b, p, k)) = q.get_mut(i) else { return None };
            let (a, b, p, n) = (*a, *b, *p, *k);
            *k += 1;
            let e = |x: u32| {
                let d = g.deg(x);
                if n < d { g.edge(x, permuted(ord.get(&p).copied().unwrap_or(0), d, n)) } else { None }
            };
            match (e(a), e(b)) {
                (Some(x), Some(y)) => (x, y, child_path(p, n as u64)),
                (None, None) => {
                    q.remove(i);
                    if q.is_empty() {
                        return None;
                    }
                    continue;
                }
                (x, _) => return Some(Diff::Amount { a, b, ord: x.is_some().cmp(&x.is_none()), path: p }),
            }
        };
        if a != b {
            if !lab_eq(g.label[a as usize], g.label[b as usize]) {
                return Some(Diff::Label { a, b, path });
            }
            let (da, db) = (g.deg(a), g.deg(b));
            if (da == 0) != (db == 0) {
                return Some(Diff::Amount { a, b, ord: da.cmp(&db), path });
            }
            if da != 0 {
                q.push_back((a, b, path, 0));
            }
        }
        if q.is_empty() {
            return None;
        }
    }
}

fn check(g: &Graph, ra: u32, rb: u32, vs: &[V], free: u32, dev: u32, st: &mut Stats) -> Result<(), String> {
    let o = reference(g, ra, rb, Order::Breadth, st);
    let want = o.diff.is_none();
    let acyclic = g.is_acyclic();
    let cx = Ctx::new(g, 0, M_ORDER);
    cx.free_orders.set(free);
    for &v in vs {
        if !acyclic && !v.cycle_safe() {
            continue;
        }
        for r in if v.random() { &[RngMode::Zero, RngMode::Max][..] } else { &[RngMode::Zero] } {
            few_rng(st, dev, |st| {
                set_rng(*r);
                cx.reset(budget(g));
                st.execs += 1;
                let got = run::<KV>(v, nd(&cx, ra, 0), nd(&cx, rb, 1)).map_err(|_| format!("{v:?}: limit reached"))?;
                let how = || format!("{v:?}, {r:?}, orders of the edges by position {:?}", cx.orders.borrow().iter().collect::<std::collections::BTreeMap<_, _>>());
                st.outcome((want, cx.digest.get()));
                if got.is_equiv() != want {
                    return Err(format!("{} answers equivalent={}, but the graphs are {}equivalent", how(), got.is_equiv(), if want { "" } else { "not " }));
                }
                // Where the order is that of the unfolded graphs, so is the first difference.
                if !want && !v.mixed() && (acyclic || v.r() == R::Queue) {
                    let x = Diff::val(&unfolded(&cx, ra, rb, v.r().order()), g);
                    if x != got {
                        return Err(format!("{} answers {got:?}, but the first difference in its order is {x:?}", how()));
                    }
                }
                Ok(())
            })?;
        }
    }
    Ok(())
}

fn vs() -> Vec<V> {
    let mut v = unl_variants();
    v.extend(RS.iter().flat_map(|&r| [V::I01(r), V::I11(r), V::I12(r)]));
    v.extend([V::P1(3), V::P2(3), V::P3(4), V::P2(0)]);
    v
}
fn spaces(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    let inf = u32::MAX;
    let d = "every choice of the order of the edges at the first positions asked (forwards, backwards, rotated), the same at both sides of a position; the later ones by a fixed rule";
    let mut v = vec![
        graphs("small", d, Spec::new(3, &[0, 1, 2], &[0, 1], 2), move |g, st| check(g, 0, g.rb, &vs(), t.pick(4, 5), inf, st)),
        graphs("four", d, Spec::new(4, &[0, 1, 2], &[0], 2), move |g, st| check(g, 0, g.rb, &vs(), t.pick(1, 3), inf, st)),
        graphs("deg3", d, Spec::new(3, &[0, 1, 3], &[0, 1], 2), move |g, st| check(g, 0, g.rb, &vs(), t.pick(2, 4), inf, st)),
        graphs("acyclic", d, Spec::new(t.pick(4, 5), &[0, 1, 2, 3], &[0, 1], 2).acyclic(), move |g, st| check(g, 0, g.rb, &vs(), 3, inf, st)),
        tuples("families", "families against a mutated copy; one unusual order; [family,size,size,mutation,position]", fam_items(&all_families(), t.pick(&[2, 5], &[2, 5, 9]), &[1, 2, 3, 4], 9), move |x, st| {
            let (g, rb) = fam_graph(x);
            let mut v = premade_variants();
            v.extend([V::I11(R::Queue), V::I12(R::Stack), V::I01(R::Call)]);
            check(&g, 0, rb, &v, 8, 1, st)
        }),
    ];
    if !q {
        v.push(graphs("four_labels", d, Spec::new(4, &[0, 1, 2], &[0, 1], 2), move |g, st| check(g, 0, g.rb, &vs(), 1, inf, st)));
        v.push(graphs("five", d, Spec::new(5, &[0, 2], &[0], 2), move |g, st| check(g, 0, g.rb, &vs(), 1, inf, st)));
    }
    v
}

fn main() {
    gsc_mc::runner::main(Check {
        id: "S06",
        level: "model_checking",
        rule: "every graph pair and every choice of the orders of the edges at the first positions within the bounds, consistent between counterparts, is compared by the real code under every listed variant; the verdict must be that of the search of the product of the graphs (states, transitions), which does not depend on the orders, and the result that of the first difference of the unfolded graphs in these orders",
        assumptions: &["graphs, degrees, labels and numbers of free orders within the bounds of each listed space", "both counterparts at a position give their edges in the same order"],
        spaces,
    })
}
