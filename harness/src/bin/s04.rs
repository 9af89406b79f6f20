//! S04: multi-way comparison is a total order consistent with equality.
use graph_safe_compare::Cmp;
use gsc_mc::graph::*;
use gsc_mc::node::*;
use gsc_mc::refm::*;
use gsc_mc::runner::*;
use gsc_mc::util::*;
use gsc_mc::variants::*;

fn laws(g: &Graph, roots: &[u32], vs: &[V], st: &mut Stats) -> Result<(), String> {
    let acyclic = g.is_acyclic();
    let cx = Ctx::new(g, 0, 0);
    let n = roots.len();
    // One reference pass per pair, for the state counts.
    for &a in roots {
        for &b in roots {
            if a < b {
                reference(g, a, b, Order::Breadth, st);
            }
        }
    }
    for &v in vs {
        if !acyclic && (v.r() != R::Queue || !v.cycle_safe() || v.mixed()) {
            continue;
        }
        let one = |a: u32, b: u32, st: &mut Stats| -> Result<Ordering, String> {
            cx.reset(budget(g));
            st.execs += 2;
            set_rng(RngMode::Max);
            let o = run::<KO>(v, nd(&cx, a, 0), nd(&cx, b, 1)).map_err(|_| format!("{v:?}: limit reached"))?;
            cx.reset(budget(g));
            let e = run::<KB>(v, nd(&cx, a, 0), nd(&cx, b, 1)).map_err(|_| format!("{v:?}: limit reached"))?.is_equiv();
            if (o == Ordering::Equal) != e {
                return Err(format!("{v:?}: nodes {a} and {b} compare {o:?}, but the boolean comparison says equivalent={e}"));
            }
            Ok(o)
        };
        let mut m = [[Ordering::Equal; 6]; 6];
        for x in 0..n {
            for y in 0..n {
                m[x][y] = one(roots[x], roots[y], st)?;
            }
        }
        st.outcome(m);
        for x in 0..n {
            if m[x][x] != Ordering::Equal {
                return Err(format!("{v:?}: node {} is not Equal to itself", roots[x]));
            }
            for y in 0..n {
                if m[x][y] != m[y][x].reverse() {
                    return Err(format!("{v:?}: {} vs {} is {:?} but reversed {:?}", roots[x], roots[y], m[x][y], m[y][x]));
                }
                for z in 0..n {
                    use Ordering::*;
                    let bad = match (m[x][y], m[y][z]) {
                        (Equal, o) | (o, Equal) => m[x][z] != o,
                        (Less, Less) => m[x][z] != Less,
                        (Greater, Greater) => m[x][z] != Greater,
                        _ => false,
                    };
                    if bad {
                        return Err(format!(
                            "{v:?}: not transitive: {} vs {} {:?}, {} vs {} {:?}, but {} vs {} {:?}",
                            roots[x], roots[y], m[x][y], roots[y], roots[z], m[y][z], roots[x], roots[z], m[x][z]
                        ));
                    }
                }
            }
        }
    }
    Ok(())
}
fn core_variants() -> Vec<V> {
    let mut v = unl_variants();
    v.extend([V::I11(R::Queue), V::I12(R::Queue), V::I03(R::Call), V::I11(R::Stack), V::P1(3), V::P2(3), V::P3(4), V::P2(0)]);
    v
}
fn prem() -> Vec<V> {
    let mut v = unl_variants();
    v.extend(premade_variants());
    v
}

/// A fixed menu of larger graphs, all compared with all: [family mutations]
fn menu(t: &[i64], st: &mut Stats) -> Result<(), String> {
    // [family, size, mutation1, pos1, mutation2, pos2]
    let a = family(t[0] as usize, t[1] as u32);
    let mut b = a.clone();
    mutate(&mut b, t[2] as u32, t[3] as u32);
    let mut c = a.clone();
    mutate(&mut c, t[4] as u32, t[5] as u32);
    let (g, rb) = side_by_side(&a, &b);
    let ab = g.to_vecs();
    let (g, rc) = side_by_side(&ab, &c);
    laws(&g, &[0, rb, rc], &if g.is_acyclic() && family_is_thin(t[0] as usize) { prem() } else { premade_variants() }, st)
}

fn spaces(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    let mut m = vec![];
    for f in all_families() {
        for n in [1i64, 2, 3, 5] {
            let l = family(f, n as u32).len() as i64;
            for m1 in 0..=4 {
                for p1 in 0..if m1 == 0 { 1 } else { l } {
                    for m2 in 1..=4 {
                        for p2 in 0..l {
                            if q && (p1 + p2 + m1 + m2) % 3 != 0 && n > 3 {
                                continue;
                            }
                            m.push(vec![f as i64, n, m1, p1, m2, p2]);
                        }
                    }
                }
            }
        }
    }
    let mut v = vec![
        graphs("three", "three roots, all nine comparisons, assembled variants", Spec::new(4, &[0, 1, 2], &[0], 3), |g, st| laws(g, &[0, 1, 2], &core_variants(), st)),
        graphs("three_labels", "three roots, all nine comparisons, assembled variants", Spec::new(3, &[0, 1, 2], &[0, 1, 2], 3), |g, st| laws(g, &[0, 1, 2], &core_variants(), st)),
        graphs("three_acyclic", "three roots, all nine comparisons, assembled variants", Spec::new(if q { 4 } else { 5 }, &[0, 1, 2], &[0, 1], 3).acyclic(), |g, st| {
            laws(g, &[0, 1, 2], &core_variants(), st)
        }),
        graphs("premade", "three roots, premade functions", Spec::new(3, &[0, 1, 2], &[0, 1], 3), |g, st| laws(g, &[0, 1, 2], &prem(), st)),
        graphs("deg3", "three roots", Spec::new(3, &[0, 1, 3], &[0, 1], 3), |g, st| laws(g, &[0, 1, 2], &core_variants(), st)),
        tuples("menu", "families, two mutated copies, all nine comparisons; [family,size,mutation,position,mutation,position]", m, menu),
    ];
    if !q {
        v.push(graphs("three_four_labels", "three roots, all nine comparisons", Spec::new(4, &[0, 1, 2], &[0, 1], 3), |g, st| laws(g, &[0, 1, 2], &core_variants(), st)));
        v.push(graphs("four_roots", "four roots, all sixteen comparisons", Spec::new(5, &[0, 2], &[0], 4), |g, st| laws(g, &[0, 1, 2, 3], &core_variants(), st)));
        v.push(graphs("four_roots_acyclic", "four roots, all sixteen comparisons", Spec::new(5, &[0, 1, 2], &[0, 1], 4).acyclic(), |g, st| {
            laws(g, &[0, 1, 2, 3], &core_variants(), st)
        }));
    }
    v
}

fn main() {
    gsc_mc::runner::main(Check {
        id: "S04",
        level: "model_checking",
        rule: "for every graph with three (four) roots, all comparisons between the roots are made with the real code and reflexivity, antisymmetry, transitivity and agreement with the boolean comparison are checked; states/transitions: those of the reference searches of the pairs",
        assumptions: &["graphs, degrees and labels within the bounds of each listed space"],
        spaces,
    })
}
