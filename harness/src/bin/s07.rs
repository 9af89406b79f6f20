//! S07: size alone never changes a verdict: more than 2^16 edges, pending pairs, levels, nodes, members of a class.
use graph_safe_compare::Cmp;
use gsc_mc::graph::*;
use gsc_mc::node::*;
use gsc_mc::refm::*;
use gsc_mc::runner::*;
use gsc_mc::util::*;
use gsc_mc::variants::*;
use std::marker::PhantomData;

/// A kind with a given index type.
struct KI<T>(PhantomData<T>);
impl<T: Idx> Kind for KI<T> {
    type Cmp = Val;
    type Id = u64;
    type Index = T;
    fn cmp(a: u8, b: u8, p: u64) -> Val {
        KV::cmp(a, b, p)
    }
    fn id(i: u32) -> u64 {
        // identities that differ in the upper half only
        (i as u64) << 32
    }
}

type Nodes = Vec<(u8, Vec<u32>)>;
const SHAPES: &[&str] = &[
    "wide: n leaves",
    "wide: n times the same leaf",
    "wide: n branches with a leaf each",
    "wide: n branches back to the first",
    "wide: n branches against n times one branch",
    "chain",
    "list, tail last",
    "list, tail first",
    "list, tail first, each head a branch",
    "ring with leaves",
    "rings of n and n - 3 nodes with leaves",
    "rings of n and 1 nodes with leaves",
    "degenerate DAG",
    "ladder",
    "tree",
    "wide, then deep",
    "deep, then wide",
];
/// Is the unfolding of the shape a tree of about as many nodes?
fn thin(k: i64) -> bool {
    matches!(k, 0 | 1 | 2 | 4 | 5 | 6 | 7 | 8 | 14 | 15 | 16)
}
fn wide(k: i64, n: u32) -> bool {
    matches!(k, 0 | 1 | 2 | 4) && n > 0
}

/// The two graphs, the node of the second one that is at position `p`, which holds a leaf's worth of difference.
fn mk(k: i64, n: u32, p: u32) -> (Nodes, Nodes, usize) {
    let leafy = |v: &mut Nodes, upto: u32| {
        for _ in 0..upto {
            v.push((0, vec![]));
        }
    };
    let ring = |n: u32| -> Nodes {
        let mut v: Nodes = (0..n).map(|i| (0, vec![n + i, (i + 1) % n])).collect();
        leafy(&mut v, n);
        v
    };
    let one = |k: i64| -> Nodes {
        let mut v: Nodes = vec![];
        match k {
            0 => {
                v.push((0, (1..=n).collect()));
                leafy(&mut v, n);
            }
            1 => {
                // the last node differs only where it is the child at `p`
                v.push((0, vec![1; n as usize]));
                leafy(&mut v, 2);
            }
            2 => {
                v.push((0, (1..=n).collect()));
                v.extend((0..n).map(|i| (0, vec![n + 1 + i])));
                leafy(&mut v, n);
            }
            3 => {
                v.push((0, (1..=n).collect()));
                v.extend((0..n).map(|i| (0, vec![1, n + 1 + i])));
                leafy(&mut v, n);
            }
            5 => {
                v.extend((0..n).map(|i| (0, vec![i + 1])));
                leafy(&mut v, 1);
            }
            6 => {
                v.extend((0..n).map(|i| (0, vec![n + 1 + i, i + 1])));
                leafy(&mut v, n + 1);
            }
            7 => {
                v.extend((0..n).map(|i| (0, vec![i + 1, n + 1 + i])));
                leafy(&mut v, n + 1);
            }
            8 => {
                v.extend((0..n).map(|i| (0, vec![i + 1, n + 1 + i])));
                v.push((0, vec![]));
                v.extend((0..n).map(|i| (0, vec![2 * n + 1 + i])));
                leafy(&mut v, n);
            }
            9 => v = ring(n),
            12 => {
                v.extend((0..n).map(|i| (0, vec![i + 1, i + 1])));
                leafy(&mut v, 1);
            }
            13 => v.extend((0..n).map(|i| (0, vec![(i + 2) % n, (i + 1) % n]))),
            14 => {
                let n = n | 1; // otherwise the last node has no place
                for i in 0..n {
                    v.push((0, if 2 * i + 2 < n { vec![2 * i + 1, 2 * i + 2] } else { vec![] }));
                }
            }
            15 => {
                // every child of the root but the last is a leaf; the last heads a chain
                v.push((0, (1..=n).collect()));
                leafy(&mut v, n - 1);
                v.extend((0..n).map(|i| (0, vec![n + 1 + i])));
                leafy(&mut v, 1);
            }
            16 => {
                v.extend((0..n).map(|i| (0, vec![i + 1])));
                v.push((0, (0..n).map(|i| n + 1 + i).collect()));
                leafy(&mut v, n);
            }
            _ => unreachable!(),
        }
        v
    };
    let pu = p as usize;
    match k {
        4 => {
            let a = one(2);
            // the branch at `p` is one of its own
            let mut b: Nodes = vec![(0, vec![1; n as usize]), (0, vec![2]), (0, vec![]), (0, vec![4]), (0, vec![])];
            if pu < n as usize {
                b[0].1[pu] = 3;
            }
            (a, b, 4)
        }
        10 => (one(9), ring(n - 3), (n - 3) as usize + (pu % (n - 3) as usize)),
        11 => (one(9), ring(1), 1),
        _ => {
            let a = one(k);
            let mut b = one(k);
            let at = match k {
                0 => 1 + pu,
                1 => {
                    if pu < n as usize {
                        b[0].1[pu] = 2;
                    }
                    2
                }
                2 | 3 => n as usize + 1 + pu,
                5 | 12 | 13 | 14 => pu.min(b.len() - 1),
                6 | 7 => n as usize + 1 + pu,
                8 => 2 * n as usize + 1 + pu,
                9 => n as usize + pu,
                15 => (n as usize + pu).min(b.len() - 1),
                16 => n as usize + 1 + pu,
                _ => unreachable!(),
            };
            (a, b, at)
        }
    }
}

/// [shape, size, position, what is different there, which side]; what: 0 nothing, 1 the value, 2 one more edge,
/// 3 one fewer edge
fn build(x: &[i64]) -> (Graph, u32, bool) {
    let (a, mut b, at) = mk(x[0], x[1] as u32, x[2] as u32);
    let same = x[3] == 0;
    match x[3] {
        0 => (),
        1 => b[at].0 = 1,
        2 => {
            let e = b[at].1.last().copied().unwrap_or(b.len() as u32 - 1);
            b[at].1.push(e);
        }
        _ => {
            let n = b[0].1.len();
            b[0].1.truncate(n - 1);
        }
    }
    let (g, rb) = if x[4] == 0 { side_by_side(&a, &b) } else { side_by_side(&b, &a) };
    (g, rb, same)
}

fn check<K: Kind<Cmp = Val>>(x: &[i64], st: &mut Stats) -> Result<(), String> {
    let (g, rb, same) = build(x);
    // unequal rings have too many counterpart pairs to search; their difference is where it was put
    let searched = x[0] != 10;
    let (b, d) = if searched { (Some(first(&g, 0, rb, Order::Breadth)), Some(first(&g, 0, rb, Order::Depth))) } else { (None, None) };
    for o in [&b, &d].into_iter().flatten() {
        st.states += o.states;
        st.transitions += o.transitions;
        if o.diff.is_none() != same {
            return Err("the reference search does not find what was put there".into());
        }
    }
    st.outcome((same, x[0], x[1]));
    let cx = Ctx::new(&g, 0, 0);
    let mut vs = vec![];
    if thin(x[0]) {
        vs.extend(unl_variants());
        vs.extend(RS.map(|r| V::Lim(r, 1 << 30)));
    }
    vs.extend(RS.map(V::Dflt));
    vs.extend(CYCS.map(V::Cyc));
    vs.extend([V::P400(2), V::P3(1)]);
    let n = x[1] as u64;
    if n > 100_000 && !thin(x[0]) {
        // around a cycle, it recurs up to some twenty times as deep as there are nodes
        vs.retain(|v| v.r() != R::Call);
    }
    if n > 400_000 && cfg!(debug_assertions) {
        // a million of its frames takes too much memory
        vs.retain(|v| v.r() != R::Call);
    }
    set_rng(RngMode::Max);
    for v in vs {
        cx.reset(40_000_000.max(1000 * n));
        st.execs += 1;
        pulse();
        let got = match run::<K>(v, nd::<K>(&cx, 0, 0), nd(&cx, rb, 1)) {
            Ok(c) => c,
            Err(_) => return Err(format!("{v:?}: the limit was reached")),
        };
        if got.is_equiv() != same {
            return Err(format!("{v:?}: the result is {got:?}, but the graphs ({}) are {}equivalent", SHAPES[x[0] as usize], if same { "" } else { "not " }));
        }
        if let V::Unl(_) | V::Lim(..) = v {
            let want = Diff::val(&if v.r() == R::Queue { &b } else { &d }.as_ref().unwrap().diff, &g);
            if !same && got != want {
                return Err(format!("{v:?}: the result is {got:?}, but the first difference is {want:?}"));
            }
        }
    }
    Ok(())
}

fn positions(n: i64) -> Vec<i64> {
    let mut v = vec![0, 1, 255, 256, n / 2, 32767, 32768, 65534, 65535, 65536, 65537, n - 2, n - 1];
    v.retain(|p| (0..n).contains(p));
    v.sort();
    v.dedup();
    v
}
fn items(kinds: impl Fn(i64) -> bool, sizes: &[i64], all: bool) -> Vec<Vec<i64>> {
    let mut v = vec![];
    for k in 0..SHAPES.len() as i64 {
        if !kinds(k) {
            continue;
        }
        for &n in sizes {
            v.push(vec![k, n, if k == 1 || k == 4 { n } else { 0 }, 0, 0]);
            for p in if all { positions(n) } else { vec![0, 65535, n - 1] } {
                if p >= n || (k == 11 && p > 0) || (k == 10 && p >= n - 3) {
                    continue;
                }
                for side in 0..2 {
                    for what in 1..=2 {
                        if k != 14 || what == 1 {
                            v.push(vec![k, n, p, what, side]);
                        }
                    }
                }
            }
            if wide(k, n as u32) {
                v.push(vec![k, n, n, 3, 0]);
                v.push(vec![k, n, n, 3, 1]);
            }
        }
    }
    v
}

fn spaces(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    let sizes: &[i64] = if gsc_mc::runner::smaller() { &[65537] } else if q { &[65535, 65537, 70001] } else { &[65534, 65535, 65536, 65537, 70001, 131071, 131073, 300007] };
    let mut v = vec![
        tuples("shapes", "[shape, size, position, difference, side]; 32-bit index", items(|_| true, &sizes[..if q { sizes.len().min(2) } else { sizes.len() }], !q), check::<KI<u32>>),
        tuples("wide_usize", "the wide shapes with another index type", items(|k| wide(k, 1), sizes, true), check::<KI<usize>>),
        tuples("wide_i64", "the wide shapes with another index type", items(|k| wide(k, 1), &sizes[sizes.len() - 1..], true), check::<KI<i64>>),
        tuples("wide_u128", "the wide shapes with another index type", items(|k| wide(k, 1), &sizes[sizes.len() - 1..], false), check::<KI<u128>>),
        tuples("all_positions", "every shape, smaller, with more positions", items(|_| true, if q { &[300] } else { &[300, 3000, 33000] }, true), check::<KI<i32>>),
    ];
    if gsc_mc::runner::smaller() {
        v.retain(|s| s.name != "wide_usize" && s.name != "wide_i64");
        // Only in the release build, for less memory.
        let mut last = items(thin, &[(1 << 20) + 3], false);
        last.retain(|x| x[3] == 0 || (x[4] == 0 && x[3] == 1 && x[2] >= 65535));
        v.push(tuples("million_last", "every acyclic shape beyond 2^20, equal or with one difference, late", last, check::<KI<u32>>));
    }
    if !q {
        v.push(tuples("million", "every acyclic shape beyond 2^20, without call-stack recursion", items(thin, &[(1 << 20) + 3], false), check::<KI<u32>>));
    }
    v
}

fn main() {
    gsc_mc::runner::main(Check {
        id: "S07",
        level: "model_checking",
        rule: "every listed shape, size, place and kind of difference is compared by the real code under every listed variant; the verdict (and, in the acyclic modes, the difference reported) must be that of the reference search of the product of the graphs, which must itself find what was put there",
        assumptions: &["the shapes and sizes listed; the orders of edges, values and sharing beyond these shapes are the matter of S01 and S02"],
        spaces,
    })
}
