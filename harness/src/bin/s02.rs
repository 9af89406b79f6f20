//! S02: the acyclic modes decide equality of the unfolded graphs.
use graph_safe_compare::Cmp;
use gsc_mc::graph::*;
use gsc_mc::node::*;
use gsc_mc::refm::*;
use gsc_mc::runner::*;
use gsc_mc::util::*;
use gsc_mc::variants::*;

fn one<C: Cmp>(want: bool, what: impl std::fmt::Debug, st: &mut Stats, f: impl FnOnce() -> Option<C>) -> Result<(), String> {
    st.execs += 1;
    match f() {
        None => Err(format!("{what:?} reports the limit reached, but the limit suffices")),
        Some(c) if c.is_equiv() != want => Err(format!("{what:?} answers equivalent={}, but the unfolded graphs are {}equal", c.is_equiv(), if want { "" } else { "not " })),
        _ => Ok(()),
    }
}

fn check<K: Kind>(g: &Graph, ra: u32, rb: u32, all_limits: bool, st: &mut Stats) -> Result<(), String> {
    let o = reference(g, ra, rb, Order::Breadth, st);
    let want = o.diff.is_none();
    st.outcome((want, o.states, o.transitions));
    let cx = Ctx::new(g, 0, 0);
    let b = 1 << 22;
    for r in RS {
        cx.reset(b);
        one(want, ("unlimited", r), st, || Some(unlimited(r, nd::<K>(&cx, ra, 0), nd(&cx, rb, 1))))?;
        let (_, need) = search(g, ra, rb, r.order(), false, 1 << 20);
        let Some(need) = need else { continue };
        let mut lim = |bits: u32, f: &dyn Fn() -> Option<K::Cmp>| {
            if bits == 128 || need < 1u64 << bits {
                cx.reset(b);
                one(want, ("limited", bits, r), st, || f())
            } else {
                Ok(())
            }
        };
        lim(32, &|| lim32(r, u32::MAX, nd::<K>(&cx, ra, 0), nd(&cx, rb, 1)).ok())?;
        lim(32, &|| lim32(r, need as u32, nd::<K>(&cx, ra, 0), nd(&cx, rb, 1)).ok())?;
        if all_limits {
            lim(8, &|| lim8(r, need as u8, nd::<K>(&cx, ra, 0), nd(&cx, rb, 1)).ok())?;
            lim(16, &|| lim16(r, need as u16, nd::<K>(&cx, ra, 0), nd(&cx, rb, 1)).ok())?;
            lim(63, &|| lim64(r, need, nd::<K>(&cx, ra, 0), nd(&cx, rb, 1)).ok())?;
            lim(128, &|| lim128(r, need as u128, nd::<K>(&cx, ra, 0), nd(&cx, rb, 1)).ok())?;
            lim(63, &|| limsize(r, need as usize, nd::<K>(&cx, ra, 0), nd(&cx, rb, 1)).ok())?;
        }
    }
    Ok(())
}

fn wide(t: &[i64]) -> (Graph, u32) {
    // [width a, width b, twig, mutated position]: a root with many children; each child a leaf or a
    // branch with two leaves (by bit mask of position modulo 3).
    let mk = |w: i64, m: i64| {
        let mut v: Vec<(u8, Vec<u32>)> = vec![(0, (1..=w as u32).collect())];
        for i in 0..w {
            v.push(((i == m) as u8, if i % 3 < t[2] { vec![w as u32 + 1, w as u32 + 1] } else { vec![] }));
        }
        v.push((0, vec![]));
        v
    };
    side_by_side(&mk(t[0], -1), &mk(t[1], t[3]))
}

fn spaces(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    let mut v = vec![
        graphs("small", "three recursion modes, unlimited and every limit type at the exact need", Spec::new(5, &[0, 1, 2], &[0, 1], 2).acyclic(), |g, st| {
            check::<KB>(g, 0, g.rb, true, st)
        }),
        graphs("deg3", "three recursion modes", Spec::new(4, &[0, 1, 2, 3], &[0, 1], 2).acyclic(), |g, st| check::<KO>(g, 0, g.rb, false, st)),
        graphs("deg5", "three recursion modes", Spec::new(3, &[0, 1, 2, 3, 4, 5], &[0, 1], 2).acyclic(), |g, st| check::<KV>(g, 0, g.rb, false, st)),
        graphs("five_deg3", "three recursion modes", Spec::new(5, &[0, 1, 2, 3], &[0], 2).acyclic(), |g, st| check::<KB>(g, 0, g.rb, false, st)),
        graphs("six", "three recursion modes", Spec::new(6, &[0, 1, 2], &[0], 2).acyclic(), |g, st| check::<KB>(g, 0, g.rb, false, st)),
        tuples("wide", "wide nodes; [width,width,twigs,mutated]", wides(q), |t, st| {
            let (g, rb) = wide(t);
            check::<KB>(&g, 0, rb, false, st)
        }),
        tuples(
            "families",
            "families against a mutated copy; [family,size,size,mutation,position]",
            fam_items(&acyclic_families(), &[1, 2, 3, 4, 5, 8, 12, 16], &[1, 2, 3], 16),
            fam1,
        ),
        tuples("big_families", "long families", fam_items(&thin_families(), if q { &[130, 500] } else { &[130, 500, 3000] }, &[1, 2, 3], if q { 130 } else { 500 }), fam1),
    ];
    if !q {
        v.push(graphs("six_labels", "three recursion modes", Spec::new(6, &[0, 1, 2], &[0, 1], 2).acyclic(), |g, st| check::<KB>(g, 0, g.rb, false, st)));
        v.push(graphs("seven", "three recursion modes", Spec::new(7, &[0, 2], &[0], 2).acyclic(), |g, st| check::<KB>(g, 0, g.rb, false, st)));
        v.push(graphs("five_three", "three recursion modes", Spec::new(5, &[0, 1, 2, 3], &[0, 1], 2).acyclic(), |g, st| check::<KB>(g, 0, g.rb, false, st)));
    }
    v
}
fn fam1(t: &[i64], st: &mut Stats) -> Result<(), String> {
    let (g, rb) = fam_graph(t);
    if !g.is_acyclic() {
        return Ok(());
    }
    check::<KB>(&g, 0, rb, false, st)
}
fn wides(q: bool) -> Vec<Vec<i64>> {
    let mut v = vec![];
    for w in 1..=(if q { 40 } else { 80 }) {
        for d in -2..=2 {
            for twig in 0..=2 {
                for m in -1..w {
                    if w + d >= 0 {
                        v.push(vec![w, w + d, twig, m]);
                    }
                }
            }
        }
    }
    v
}

fn main() {
    gsc_mc::runner::main(Check {
        id: "S02",
        level: "model_checking",
        rule: "reference: search of the product of the two graphs; every acyclic graph pair of each space is compared by the real basic, deep-safe and wide-safe comparisons, unlimited and with a sufficient limit, and all verdicts must agree with the reference",
        assumptions: &["graphs, degrees and labels within the bounds of each listed space"],
        spaces,
    })
}
