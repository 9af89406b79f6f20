//! Shared pieces of the checks.
use crate::choice;
use crate::graph::*;
use crate::node::*;
use crate::refm::*;
use crate::runner::*;
use crate::variants::*;

/// More callbacks than a correct cycle-safe comparison of small limits could make.
pub fn budget(g: &Graph) -> u64 {
    let n = g.n() as u64;
    200_000 + 400 * n * (g.max_deg() + 2)
}

/// Run `f` for every sequence of answers of the random source.
pub fn all_rng(st: &mut Stats, mut f: impl FnMut(&mut Stats) -> Result<(), String>) -> Result<(), String> {
    set_rng(RngMode::Choose);
    match choice::explore(u32::MAX, 1 << 16, || f(st)) {
        Ok((_, p, capped)) => {
            st.choices += p;
            st.capped += capped as u64;
            Ok(())
        }
        Err((m, ch)) => Err(format!("{m} (answers of the environment: {ch:?})")),
    }
}

/// As `all_rng`, but only sequences with at most `dev` answers other than 0.
pub fn few_rng(st: &mut Stats, dev: u32, mut f: impl FnMut(&mut Stats) -> Result<(), String>) -> Result<(), String> {
    set_rng(RngMode::Choose);
    match choice::explore(dev, 1 << 16, || f(st)) {
        Ok((_, p, capped)) => {
            st.choices += p;
            st.capped += capped as u64;
            Ok(())
        }
        Err((m, ch)) => Err(format!("{m} (answers of the environment: {ch:?})")),
    }
}

pub fn reference(g: &Graph, ra: u32, rb: u32, order: Order, st: &mut Stats) -> Out {
    let o = first(g, ra, rb, order);
    st.states += o.states;
    st.transitions += o.transitions;
    o
}

pub fn nd<'c, K: Kind>(cx: &'c Ctx<'c>, i: u32, side: u8) -> Nd<'c, K> {
    Nd::new(cx, i, side)
}

/// Items of the families: [family, size a, size b, mutation, position, share]
pub fn fam_items(fams: &[usize], sizes: &[i64], muts: &[i64], every_pos_upto: i64) -> Vec<Vec<i64>> {
    let mut v = vec![];
    for &f in fams {
        for &n in sizes {
            let nodes = family(f, n as u32).len() as i64;
            v.push(vec![f as i64, n, n, 0, 0]);
            for &m in muts {
                if n <= every_pos_upto {
                    for p in 0..nodes {
                        v.push(vec![f as i64, n, n, m, p]);
                    }
                } else {
                    let mut ps = vec![0, 1, 2, 3, nodes / 3, nodes / 2, nodes - 4, nodes - 3, nodes - 2, nodes - 1];
                    for l in [39, 40, 41, 79, 80, 81, 399, 400, 401, 799, 800, 801, 1199, 1200, 1201, 1240, 1241] {
                        ps.push(l);
                        ps.push(2 * l);
                    }
                    ps.retain(|p| *p >= 0 && *p < nodes);
                    ps.sort();
                    ps.dedup();
                    for p in ps {
                        v.push(vec![f as i64, n, n, m, p]);
                    }
                }
            }
            // unequal sizes
            for d in [1, 2, 3] {
                v.push(vec![f as i64, n, n + d, 0, 0]);
            }
            v.push(vec![f as i64, n, 2 * n, 0, 0]);
        }
    }
    v
}
pub fn fam_graph(t: &[i64]) -> (Graph, u32) {
    let a = family(t[0] as usize, t[1] as u32);
    let mut b = family(t[0] as usize, t[2] as u32);
    mutate(&mut b, t[3] as u32, t[4] as u32);
    side_by_side(&a, &b)
}

/// Lassos: unary (or binary, with a leaf) graphs with a tail and a cycle on both sides; label 1 on
/// one node of one side at most.  [tail a, cycle a, tail b, cycle b, marked (-1 none), arity]
pub fn lasso_items(max_t: i64, max_c: i64) -> Vec<Vec<i64>> {
    let mut v = vec![];
    for ta in 0..=max_t {
        for ca in 1..=max_c {
            for tb in 0..=max_t {
                for cb in 1..=max_c {
                    let n = ta + ca + tb + cb;
                    for m in -1..n {
                        for ar in 1..=3 {
                            v.push(vec![ta, ca, tb, cb, m, ar]);
                        }
                    }
                }
            }
        }
    }
    v
}
pub fn lasso_graph(t: &[i64]) -> (Graph, u32) {
    let mk = |tl: i64, c: i64, mark: i64| {
        let n = (tl + c) as u32;
        let mut v: Vec<(u8, Vec<u32>)> = vec![];
        for i in 0..n {
            let nx = if i + 1 < n { i + 1 } else { tl as u32 };
            let e = match t[5] {
                1 => vec![nx],
                2 => vec![n, nx],
                _ => vec![nx, nx],
            };
            v.push(((mark == i as i64) as u8, e));
        }
        if t[5] == 2 {
            v.push((0, vec![]));
        }
        v
    };
    let na = t[0] + t[1];
    side_by_side(&mk(t[0], t[1], t[4]), &mk(t[2], t[3], t[4] - na))
}

/// Depth of the unfolding is at most about this many nodes along any path (acyclic), else None.
pub fn all_families() -> Vec<usize> {
    (0..FAMILIES.len()).collect()
}
pub fn acyclic_families() -> Vec<usize> {
    (0..FAMILIES.len()).filter(|&f| family_is_acyclic(f)).collect()
}
pub fn thin_families() -> Vec<usize> {
    (0..FAMILIES.len()).filter(|&f| family_is_thin(f)).collect()
}
pub fn fam(name: &str) -> usize {
    FAMILIES.iter().position(|f| *f == name).unwrap()
}
