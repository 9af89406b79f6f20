//! W03: class lookups stay logarithmic.
use graph_safe_compare::cycle_safe::modes::interleave::Interleave;
use gsc_mc::classes::*;
use gsc_mc::node::*;
use gsc_mc::runner::*;
use gsc_mc::tables::*;
use gsc_mc::util::*;
use gsc_mc::variants::*;
use std::collections::{HashSet, VecDeque};

fn log2(n: u32) -> u32 {
    31 - n.max(1).leading_zeros()
}
type M<'c> = Interleave<IP<inst::VecT<'c, KB>, 0, 65535, 1>>;
type MH<'c> = Interleave<IP<inst::HashT<'c, KB>, 0, 65535, 1>>;

fn fixpoint(k: u32, st: &mut Stats) -> Result<(), String> {
    let g = leaves(k);
    let cx = Ctx::new(&g, u64::MAX, 0);
    let mut seen = HashSet::new();
    let mut q: VecDeque<Vec<(u32, u32)>> = VecDeque::from([vec![]]);
    while let Some(h) = q.pop_front() {
        for a in 0..k {
            for b in 0..k {
                if a == b {
                    continue;
                }
                let mut h2 = h.clone();
                h2.push((a, b));
                snapshots(true);
                reset_stats();
                st.execs += 1;
                st.transitions += 1;
                let mut m = M::default();
                for &(x, y) in &h2 {
                    query(&mut m, &cx, x, y);
                }
                let s = shape(k);
                let c = s.max_chain();
                st.max("links", c as u64);
                st.outcome(c);
                snapshots(false);
                drop(m);
                let d = RC.with(|r| r.get()).max_depth;
                if c > log2(s.known()) {
                    return Err(format!("after {h2:?}: finding a class follows {c} links, with {} identities known", s.known()));
                }
                if d > log2(s.known()) + 1 {
                    return Err(format!("after {h2:?}: releasing the table nests {d} deep, with {} identities known", s.known()));
                }
                if seen.insert(s) {
                    q.push_back(h2);
                }
            }
        }
    }
    st.states += seen.len() as u64;
    Ok(())
}

/// All orders of merging `c` separate classes (each of two identities) pairwise through given
/// members, without state matching. [classes, which member left/right, first merge]
fn merges(c: u32, members: u32, first: u32, st: &mut Stats) -> Result<(), String> {
    let k = 2 * c;
    let g = leaves(k);
    let cx = Ctx::new(&g, u64::MAX, 0);
    let np = c * (c - 1);
    all_rng(st, |st| {
        snapshots(true);
        reset_stats();
        let mut m = MH::default();
        let mut h = vec![];
        for i in 0..c {
            query(&mut m, &cx, 2 * i, 2 * i + 1);
        }
        for i in 0..c - 1 {
            let p = if i == 0 { first } else { gsc_mc::choice::choose(np) };
            let (a, mut b) = (p / (c - 1), p % (c - 1));
            if b >= a {
                b += 1
            }
            let (a, b) = (2 * a + (members & 1), 2 * b + (members >> 1));
            h.push((a, b));
            query(&mut m, &cx, a, b);
        }
        let s = shape(k);
        snapshots(false);
        drop(m);
        st.execs += 1;
        st.transitions += c as u64 - 1;
        let d = RC.with(|r| r.get()).max_depth;
        st.max("links", s.max_chain() as u64);
        st.outcome((s.max_chain(), d));
        if s.max_chain() > log2(k) {
            return Err(format!("after recording {c} disjoint pairs and merging {h:?}: finding a class follows {} links, with {k} identities", s.max_chain()));
        }
        if d > log2(k) + 1 {
            return Err(format!("after recording {c} disjoint pairs and merging {h:?}: releasing the table nests {d} deep, with {k} identities"));
        }
        Ok(())
    })
}

/// Long adversarial merge histories: [pattern, n]
fn pattern(kind: i64, n: u32) -> Vec<(u32, u32)> {
    let mut v: Vec<(u32, u32)> = (0..n / 2).map(|i| (2 * i, 2 * i + 1)).collect();
    let c = n / 2;
    let e = |i: u32, right: bool| 2 * i + right as u32;
    match kind {
        0 => v.extend((1..c).map(|i| (e(i - 1, false), e(i, false)))),
        1 => v.extend((1..c).map(|i| (e(i, false), e(i - 1, false)))),
        2 => v.extend((1..c).rev().map(|i| (e(i - 1, true), e(i, false)))),
        3 => v.extend((1..c).rev().map(|i| (e(i, false), e(i - 1, true)))),
        4 => v.extend((1..c).map(|i| (e(0, false), e(i, false)))),
        5 => v.extend((1..c).map(|i| (e(i, false), e(0, true)))),
        6 | 7 | 8 | 9 => {
            // binomial
            let mut w = 1;
            while w < c {
                let mut i = 0;
                while i + w < c {
                    v.push(match kind {
                        6 => (e(i, false), e(i + w, false)),
                        7 => (e(i + w, false), e(i, false)),
                        8 => (e(i + w - 1, true), e((i + 2 * w - 1).min(c - 1), true)),
                        _ => (e((i + 2 * w - 1).min(c - 1), true), e(i + w - 1, true)),
                    });
                    i += 2 * w;
                }
                w *= 2;
            }
        }
        // growing classes by single fresh identities from both ends
        10 => {
            v.clear();
            v.extend((1..n).map(|i| (i - 1, i)));
        }
        11 => {
            v.clear();
            v.extend((1..n).map(|i| (i, i - 1)));
        }
        // a big class swallowed by a fresh pair again and again
        _ => {
            v.clear();
            v.push((0, 1));
            for i in 1..c {
                v.push((e(i, false), e(i, true)));
                v.push(if kind == 12 { (e(i, false), e(i - 1, false)) } else { (e(i - 1, false), e(i, false)) });
            }
        }
    }
    v
}
/// Rounds that each join the class so far, by its top, with a new pair, and that with further new
/// pairs until the weight of the new class has grown by `block`.
fn blocks(block: u32, rounds: u32, swap: bool) -> Vec<(u32, u32)> {
    let mut v = vec![];
    let mut top = None;
    let mut id = 0;
    for _ in 0..rounds {
        let new = id;
        for i in 0..block {
            v.push((id, id + 1));
            if i > 0 {
                v.push(if swap { (id, new) } else { (new, id) });
            }
            if let (0, Some(t)) = (i, top) {
                v.push(if swap { (new, t) } else { (t, new) });
            }
            id += 2;
        }
        top = Some(new);
    }
    v
}
fn long(kind: i64, n: u32, st: &mut Stats) -> Result<(), String> {
    let h = pattern(kind, n);
    history(&format!("pattern {kind}"), &h, n, st)
}
fn history(kind: &str, h: &[(u32, u32)], n: u32, st: &mut Stats) -> Result<(), String> {
    let g = leaves(n);
    let cx = Ctx::new(&g, u64::MAX, 0);
    let chains = n <= 10_000;
    snapshots(chains);
    reset_stats();
    let mut m = MH::default();
    let lim = 40 * (log2(n) as u64 + 2);
    st.execs += 1;
    for (i, &(a, b)) in h.iter().enumerate() {
        let d0 = RC.with(|r| r.get()).derefs;
        query(&mut m, &cx, a, b);
        st.states += 1;
        st.transitions += 1;
        let d = RC.with(|r| r.get()).derefs - d0;
        st.max("dereferences_in_a_query", d);
        if d > lim {
            return Err(format!("{kind}, {n} identities, step {i} ({a},{b}): the query looks at class records {d} times"));
        }
    }
    if chains {
        let c = shape(n).max_chain();
        snapshots(false);
        st.max("links", c as u64);
        if c > log2(n) {
            return Err(format!("{kind}, {n} identities: finding a class follows {c} links"));
        }
    }
    drop(m);
    let d = RC.with(|r| r.get());
    st.max("drop_nesting", d.max_depth as u64);
    st.outcome((d.max_depth, log2(n)));
    if d.max_depth > log2(n) + 1 {
        return Err(format!("{kind}, {n} identities: releasing the table nests {} deep", d.max_depth));
    }
    if d.live != 0 {
        return Err(format!("{kind}, {n} identities: {} class records never released", d.live));
    }
    Ok(())
}

/// An adaptive adversary: repeatedly looks for the smallest flat class that, joined with the deepest class so far,
/// makes that deeper; however weights are kept, only doubling sizes may do.
fn adversary(kind: i64, cap: u32, st: &mut Stats) -> Result<(), String> {
    let g = leaves(2 * cap);
    let cx = Ctx::new(&g, u64::MAX, 0);
    let run = |h: &[(u32, u32)], n: u32, st: &mut Stats| {
        snapshots(true);
        reset_stats();
        let mut m = MH::default();
        for &(a, b) in h {
            query(&mut m, &cx, a, b);
        }
        st.execs += 1;
        st.transitions += h.len() as u64;
        let s = shape(n);
        snapshots(false);
        s
    };
    // Recording flat classes of s units from identity `b`, and how many identities.
    let flat = |b: u32, s: u32| -> (Vec<(u32, u32)>, u32) {
        let mut v = vec![(b, b + 1)];
        let mut id = b + 2;
        for i in 1..s {
            match kind {
                0 => v.extend([(id, id + 1), (b, id)]),
                1 => v.extend([(id, id + 1), (id, b)]),
                2 => v.push((b, id)),
                3 => v.extend([(id, id + 1), (id + 2, id + 3), (id, id + 2), (b, id)]),
                // Ever larger classes.
                4 => v.extend([(id, id + 1), if i % 2 == 0 { (b, id) } else { (id, b + 1) }]),
                // Asking again what is known.
                _ => v.extend([(id, id + 1), (b, id), (b + 1, b), (b, b + 1)]),
            }
            id += match kind {
                2 => 1,
                3 => 4,
                _ => 2,
            };
        }
        (v, id - b)
    };
    let (mut h, mut n) = flat(0, 1);
    let mut depth = 0;
    let mut s = 1;
    'deeper: loop {
        pulse();
        let (f, k) = flat(n, s);
        if n + k > cap {
            break;
        }
        let mut h2 = h.clone();
        h2.extend(f);
        let sh = run(&h2, n + k, st);
        let top = |r: std::ops::Range<u32>| r.min_by_key(|i| sh.chain(*i as usize)).unwrap();
        let (x, y) = (top(0..n), top(n..n + k));
        for p in [(x, y), (y, x)] {
            let mut h3 = h2.clone();
            h3.push(p);
            let sh = run(&h3, n + k, st);
            let d = sh.max_chain();
            if d > depth {
                st.states += 1;
                st.max("links", d as u64);
                st.outcome((d, log2(n + k)));
                if d > log2(n + k) {
                    return Err(format!("with {} identities known, finding a class follows {d} links, after {h3:?}", n + k));
                }
                (h, n, depth) = (h3, n + k, d);
                continue 'deeper;
            }
        }
        s += 1;
    }
    history(&format!("adversary {kind}"), &h, n, st)
}

fn spaces(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    let c = t.pick(5u32, 6);
    vec![
        tuples("fixpoint", "breadth-first search of all reachable class structures; [identities]", product(&[(2, t.pick(7, 8))]), |x, st| fixpoint(x[0] as u32, st)),
        tuples("merges", "all merge orders of disjoint pairs; [classes, members used, first merge]", {
            let mut v = vec![];
            for k in 2..=c as i64 {
                for m in 0..4 {
                    for f in 0..k * (k - 1) {
                        v.push(vec![k, m, f]);
                    }
                }
            }
            v
        }, |x, st| merges(x[0] as u32, x[1] as u32, x[2] as u32, st)),
        tuples(
            "long",
            "adversarial merge histories; [pattern, identities]",
            product(&[(0, 13), (2, 70)]).into_iter().chain((0..14).flat_map(|k| (if q { vec![256, 1024, 4096, 65536] } else { vec![256, 257, 1024, 4096, 65536, 262144] }).into_iter().map(move |n| vec![k, n]))).collect(),
            |x, st| long(x[0], x[1] as u32, st),
        ),
        tuples(
            "adversary",
            "an adaptive adversary joins the deepest class so far with the smallest flat class, of those built in one way, that makes it deeper; [way, most identities]",
            (0..6).flat_map(|k| (if q { vec![128, 640, 2500] } else { vec![128, 640, 2500, 10000] }).into_iter().map(move |n| vec![k, n])).collect(),
            |x, st| adversary(x[0], x[1] as u32, st),
        ),
        tuples(
            "blocks",
            "classes grown by a number of classes and then joined, by the top, with a new one that is grown in turn; [growth, rounds, sides]",
            (1..=33).chain([63, 64, 65, 127, 128, 129, 255, 256, 257]).map(|b| (b, 24)).chain(if q { vec![(511, 24), (512, 24), (65535, 24), (65536, 24)] } else { vec![(511, 100), (512, 100), (1024, 100), (4096, 50), (32768, 30), (65535, 30), (65536, 30), (65537, 30)] }).flat_map(|(b, r)| [vec![b, r, 0], vec![b, r, 1]]).collect(),
            |x, st| {
                let h = blocks(x[0] as u32, x[1] as u32, x[2] == 1);
                history(&format!("rounds of growth by {}, {}", x[0], x[2]), &h, (x[0] * x[1] * 2) as u32, st)
            },
        ),
    ]
}

fn main() {
    gsc_mc::runner::main(Check {
        id: "W03",
        level: "model_checking",
        rule: "explicit-state search over class structures as for E01, and all merge orders of up to 5 (thorough 6) disjoint pairs, with a user-supplied pointer type that exposes the links: in every state reached no identity is more than floor(log2(n)) links from its representative, and releasing the table nests no deeper than that; long adversarial histories additionally bound the number of records looked at per query",
        assumptions: &["at most 7 (thorough 8) identities in the fixpoint search, beyond that the listed merge histories and those an adaptive adversary finds"],
        spaces,
    })
}
