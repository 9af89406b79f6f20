//! E01: known-equivalent is the equivalence closure of what was recorded.
use graph_safe_compare::cycle_safe::modes::interleave::{self, Interleave};
use graph_safe_compare::generic::equiv_classes::Table;
use gsc_mc::classes::*;
use gsc_mc::node::*;
use gsc_mc::runner::*;
use gsc_mc::tables::*;
use gsc_mc::util::*;
use gsc_mc::variants::*;
use std::collections::{HashMap, VecDeque};

type Slow<T> = IP<T, 0, 65535, 1>;

fn replay<'c, K: Kind, I: interleave::Params<Node = Nd<'c, K>>>(cx: &'c Ctx<'c>, hist: &[(u32, u32)], k: u32) -> Result<(Interleave<I>, Closure), String>
where
    I::Table: Table<Node = Nd<'c, K>>,
{
    let mut m = Interleave::<I>::default();
    let mut c = Closure::new(k);
    for (i, &(a, b)) in hist.iter().enumerate() {
        let known = !query(&mut m, cx, a, b);
        if known != c.same(a, b) {
            return Err(format!("history {hist:?}: at step {i} the pair ({a},{b}) is reported as known={known}, but the closure of what was recorded says {}", c.same(a, b)));
        }
        c.join(a, b);
    }
    Ok((m, c))
}

/// All pairs answered rightly after `hist`?  (Asking changes the state, so each pair on its own copy.)
fn all_pairs<'c, K: Kind, I: interleave::Params<Node = Nd<'c, K>>>(cx: &'c Ctx<'c>, hist: &[(u32, u32)], k: u32, st: &mut Stats) -> Result<(), String>
where
    I::Table: Table<Node = Nd<'c, K>>,
{
    let mut h = hist.to_vec();
    for a in 0..k {
        for b in 0..k {
            if a != b {
                h.push((a, b));
                st.execs += 1;
                replay::<K, I>(cx, &h, k)?;
                h.pop();
            }
        }
    }
    Ok(())
}

/// Breadth-first search of all reachable class structures (to the fixpoint).
fn fixpoint<S: Store<u32>>(k: u32, base: Vec<(u32, u32)>, premade: bool, st: &mut Stats) -> Result<(), String> {
    let g = leaves(k);
    let cx = Ctx::new(&g, u64::MAX, 0);
    set_rng(RngMode::Zero);
    let mut seen: HashMap<Shape, ()> = HashMap::new();
    let mut q: VecDeque<Vec<(u32, u32)>> = VecDeque::from([base.clone()]);
    snapshots(true);
    reset_stats();
    let r = replay::<KB, Slow<InstTable<Nd<'_, KB>, S>>>(&cx, &base, k);
    seen.insert(shape(k), ());
    drop(r?);
    let mut depth = 0;
    while let Some(h) = q.pop_front() {
        depth = depth.max(h.len());
        if premade {
            all_pairs::<KB, Slow<<Hm as Tk>::T<'_, KB>>>(&cx, &h, k, st)?;
            all_pairs::<KC, Slow<<Hm as Tk>::T<'_, KC>>>(&cx, &h, k, st)?;
        }
        for a in 0..k {
            for b in 0..k {
                if a == b {
                    continue;
                }
                let mut h2 = h.clone();
                h2.push((a, b));
                snapshots(true);
                reset_stats();
                st.execs += 1;
                st.transitions += 1;
                let r = replay::<KB, Slow<InstTable<Nd<'_, KB>, S>>>(&cx, &h2, k);
                if let Err(e) = r {
                    snapshots(false);
                    return Err(e);
                }
                let s = shape(k);
                drop(r);
                if !seen.contains_key(&s) {
                    seen.insert(s, ());
                    q.push_back(h2);
                }
                if seen.len() > 3_000_000 {
                    st.capped += 1;
                    return Ok(());
                }
            }
        }
    }
    snapshots(false);
    st.states += seen.len() as u64;
    st.max("depth", depth as u64);
    st.outcome(seen.len());
    Ok(())
}

/// Every history of exactly `depth` pairs (no state matching), for the premade table and pointer.
fn tree(k: u32, depth: u32, first: u32, st: &mut Stats) -> Result<(), String> {
    let g = leaves(k);
    let cx = Ctx::new(&g, u64::MAX, 0);
    let np = k * (k - 1);
    all_rng(st, |st| {
        let mut h = vec![];
        for i in 0..depth {
            let p = if i == 0 { first } else { gsc_mc::choice::choose(np) };
            let (a, mut b) = (p / (k - 1), p % (k - 1));
            if b >= a {
                b += 1
            }
            h.push((a, b));
        }
        st.execs += 1;
        st.transitions += depth as u64;
        replay::<KB, Slow<<Hm as Tk>::T<'_, KB>>>(&cx, &h, k).map(drop)
    })
}

/// Long histories over many identities; [pattern, n, table]
fn pattern(kind: i64, n: u32) -> Vec<(u32, u32)> {
    let mut v = vec![];
    match kind {
        // chains forward, backward, both ways
        0 => v.extend((1..n).map(|i| (i - 1, i))),
        1 => v.extend((1..n).map(|i| (i, i - 1))),
        2 => v.extend((1..n).rev().map(|i| (i - 1, i))),
        3 => v.extend((1..n).rev().map(|i| (i, i - 1))),
        // pairs first, then merged in a line, left or right
        4 | 5 => {
            v.extend((0..n / 2).map(|i| (2 * i, 2 * i + 1)));
            v.extend((1..n / 2).map(|i| if kind == 4 { (0, 2 * i) } else { (2 * i, 0) }));
        }
        6 | 7 => {
            v.extend((0..n / 2).map(|i| (2 * i, 2 * i + 1)));
            v.extend((1..n / 2).map(|i| if kind == 6 { (2 * i - 2, 2 * i) } else { (2 * i, 2 * i - 2) }));
        }
        8 | 9 => {
            v.extend((0..n / 2).map(|i| (2 * i, 2 * i + 1)));
            v.extend((1..n / 2).rev().map(|i| if kind == 8 { (2 * i - 2, 2 * i) } else { (2 * i, 2 * i - 2) }));
        }
        // binomial merging by last members / first members
        10 | 11 => {
            v.extend((0..n / 2).map(|i| (2 * i, 2 * i + 1)));
            let mut w = 2;
            while w < n {
                let mut i = 0;
                while i + w < n {
                    v.push(if kind == 10 { (i, i + w) } else { (i + w - 1, (i + 2 * w - 1).min(n - 1)) });
                    i += 2 * w;
                }
                w *= 2;
            }
        }
        // star
        12 => v.extend((1..n).map(|i| (0, i))),
        13 => v.extend((1..n).map(|i| (i, 0))),
        // multiplicative hops
        _ => v.extend((0..2 * n).map(|i| ((i * 7 + 3) % n, (i * i * 5 + i) % n)).filter(|p| p.0 != p.1)),
    }
    v
}
fn long<'c, K: Kind, I: interleave::Params<Node = Nd<'c, K>>>(cx: &'c Ctx<'c>, h: &[(u32, u32)], n: u32, st: &mut Stats) -> Result<(), String>
where
    I::Table: Table<Node = Nd<'c, K>>,
{
    st.execs += 1;
    st.transitions += h.len() as u64;
    let (mut m, mut c) = replay::<K, I>(cx, h, n)?;
    // then ask in different strides
    for s in [1u32, 2, 3, 7, n / 2] {
        for a in 0..n {
            let b = (a + s) % n;
            if a == b {
                continue;
            }
            let known = !query(&mut m, cx, a, b);
            st.transitions += 1;
            if known != c.same(a, b) {
                return Err(format!("after a long history the pair ({a},{b}) is reported as known={known}"));
            }
            c.join(a, b);
        }
    }
    Ok(())
}

fn spaces(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    let dep = t.pick(5, 6);
    let mut v = vec![
        tuples("fixpoint", "breadth-first search of all reachable class structures; [identities, table type]", product(&[(2, t.pick(7, 8)), (0, 2)]), move |x, st| {
            let k = x[0] as u32;
            match x[1] {
                0 => fixpoint::<VecStore<u32>>(k, vec![], k <= 4, st),
                1 => fixpoint::<TreeStore<u32>>(k.min(6), vec![], false, st),
                _ => fixpoint::<HashStore<u32>>(k.min(6), vec![], k == 5, st),
            }
        }),
        tuples("merges", "the same search from a number of disjoint pairs already recorded, so that classes of several levels are joined; [pairs]", product(&[(2, t.pick(6, 7))]), |x, st| {
            fixpoint::<VecStore<u32>>(2 * x[0] as u32, (0..x[0] as u32).map(|i| (2 * i, 2 * i + 1)).collect(), false, st)
        }),
        tuples("tree", "every history of the depth over 4 identities, premade table and pointer; [first pair]", product(&[(0, 11)]), move |x, st| tree(4, dep, x[0] as u32, st)),
        tuples("long", "long merge histories; [pattern, identities]", product(&[(0, 14), (2, 40)]).into_iter().chain(product(&[(0, 14), (127, 130)])).chain(product(&[(0, 14), (600, 600)])).collect(), |x, st| {
            let n = x[1] as u32;
            let g = leaves(n);
            let cx = Ctx::new(&g, u64::MAX, 0);
            let h = pattern(x[0], n);
            long::<KB, Slow<<Hm as Tk>::T<'_, KB>>>(&cx, &h, n, st)?;
            long::<KC, Slow<<Hm as Tk>::T<'_, KC>>>(&cx, &h, n, st)?;
            long::<KB, Slow<inst::TreeT<'_, KB>>>(&cx, &h, n, st)
        }),
    ];
    if !q {
        v.push(tuples("tree5", "every history of depth 5 over 5 identities; [first pair]", product(&[(0, 19)]), move |x, st| tree(5, 5, x[0] as u32, st)));
    }
    v
}

fn main() {
    gsc_mc::runner::main(Check {
        id: "E01",
        level: "model_checking",
        rule: "explicit-state search: a state is the canonical form of the class structure reached (which object each identity has, each object's weight or link), a transition is one real query of an ordered pair of different identities, replayed from the initial state; every answer must equal the closure of the recorded pairs; searched to the fixpoint",
        assumptions: &["at most 7 (thorough 8) identities in the fixpoint search, 12 (14) from disjoint pairs", "a mode is never asked about a node and itself (identical nodes are skipped before)"],
        spaces,
    })
}
