//! L01: limited comparison inspects at most the limit and aborts exactly then.
use graph_safe_compare::Cmp;
use gsc_mc::graph::*;
use gsc_mc::node::*;
use gsc_mc::refm::*;
use gsc_mc::runner::*;
use gsc_mc::util::*;
use gsc_mc::variants::*;

/// What an unpruned traversal meets: for each visit whether it is a non-identical pair.
fn trace(g: &Graph, ra: u32, rb: u32, order: Order, cap: u64, st: &mut Stats) -> (Option<u64>, Option<Diff>) {
    let (o, need) = search(g, ra, rb, order, false, cap);
    st.states += o.states;
    st.transitions += o.transitions;
    (need, o.diff)
}

fn judge<K: Kind>(
    what: impl std::fmt::Debug,
    g: &Graph,
    cx: &Ctx,
    limit: u64,
    need: Option<u64>,
    nonid_at_limit: u64,
    want: bool,
    got: Result<K::Cmp, ()>,
    st: &mut Stats,
) -> Result<(), String> {
    let _ = g;
    st.execs += 1;
    let fits = matches!(need, Some(n) if n <= limit);
    st.outcome((fits, want, limit.min(20)));
    match got {
        Ok(c) => {
            if !fits {
                return Err(format!("{what:?} limit {limit}: gives a result, but {need:?} pairs must be visited"));
            }
            if c.is_equiv() != want {
                return Err(format!("{what:?} limit {limit}: answers equivalent={}", c.is_equiv()));
            }
        }
        Err(()) => {
            if fits {
                return Err(format!("{what:?} limit {limit}: reports the limit reached, but only {need:?} pairs are visited"));
            }
            if cx.n_cmp.get() != nonid_at_limit {
                return Err(format!("{what:?} limit {limit}: compared {} pairs of nodes before giving up, instead of {nonid_at_limit}", cx.n_cmp.get()));
            }
        }
    }
    Ok(())
}

/// Number of non-identical pairs among the first `n` visits.
fn nonident_prefix(g: &Graph, ra: u32, rb: u32, order: Order, upto: usize) -> Vec<u64> {
    use std::collections::VecDeque;
    let mut v = vec![0];
    let mut q: VecDeque<(u32, u32, u32)> = VecDeque::new();
    let mut cur = Some((ra, rb));
    loop {
        if let Some((a, b)) = cur.take() {
            let c = v[v.len() - 1] + (a != b) as u64;
            v.push(c);
            if v.len() > upto + 1 {
                return v;
            }
            if a != b {
                if !lab_eq(g.label[a as usize], g.label[b as usize]) || (g.deg(a) == 0) != (g.deg(b) == 0) {
                    return v;
                }
                if g.deg(a) > 0 {
                    q.push_back((a, b, 0));
                }
            }
        }
        let p = if order == Order::Breadth { q.front_mut() } else { q.back_mut() };
        let Some(p) = p else { return v };
        let k = p.2;
        p.2 += 1;
        match (g.edge(p.0, k), g.edge(p.1, k)) {
            (Some(x), Some(y)) => cur = Some((x, y)),
            (None, None) => {
                if order == Order::Breadth { q.pop_front() } else { q.pop_back() };
            }
            _ => return v,
        }
    }
}

fn all_limits<K: Kind>(g: &Graph, ra: u32, rb: u32, cap: u64, types: bool, st: &mut Stats) -> Result<(), String> {
    for r in RS {
        let (need, diff) = trace(g, ra, rb, r.order(), cap + 2, st);
        let pre = nonident_prefix(g, ra, rb, r.order(), cap as usize + 2);
        let want = diff.is_none();
        let top = need.map_or(cap, |n| (n + 1).min(cap));
        let cx = Ctx::new(g, 0, 0);
        let b = 1_000_000;
        for limit in 0..=top {
            let np = pre[(limit as usize).min(pre.len() - 1)];
            cx.reset(b);
            let x = lim32(r, limit as u32, nd::<K>(&cx, ra, 0), nd(&cx, rb, 1)).map_err(drop);
            judge::<K>((r, "u32"), g, &cx, limit, need, np, want, x, st)?;
            if types {
                cx.reset(b);
                let x = lim8(r, limit as u8, nd::<K>(&cx, ra, 0), nd(&cx, rb, 1)).map_err(drop);
                judge::<K>((r, "u8"), g, &cx, limit, need, np, want, x, st)?;
                cx.reset(b);
                let x = lim16(r, limit as u16, nd::<K>(&cx, ra, 0), nd(&cx, rb, 1)).map_err(drop);
                judge::<K>((r, "u16"), g, &cx, limit, need, np, want, x, st)?;
                cx.reset(b);
                let x = lim64(r, limit, nd::<K>(&cx, ra, 0), nd(&cx, rb, 1)).map_err(drop);
                judge::<K>((r, "u64"), g, &cx, limit, need, np, want, x, st)?;
                cx.reset(b);
                let x = lim128(r, limit as u128, nd::<K>(&cx, ra, 0), nd(&cx, rb, 1)).map_err(drop);
                judge::<K>((r, "u128"), g, &cx, limit, need, np, want, x, st)?;
                cx.reset(b);
                let x = limsize(r, limit as usize, nd::<K>(&cx, ra, 0), nd(&cx, rb, 1)).map_err(drop);
                judge::<K>((r, "usize"), g, &cx, limit, need, np, want, x, st)?;
            }
        }
    }
    Ok(())
}

/// One list length against limits of each type. [bits, limit, family, size, mutation position or -1]
fn boundary(t: &[i64], st: &mut Stats) -> Result<(), String> {
    let limit = t[1] as u64;
    let a = family(t[2] as usize, t[3] as u32);
    let mut b = a.clone();
    if t[4] >= 0 {
        mutate(&mut b, 1, t[4] as u32);
    }
    let (g, rb) = side_by_side(&a, &b);
    for r in RS {
        let (need, diff) = trace(&g, 0, rb, r.order(), limit + 2, st);
        let want = diff.is_none();
        let pre = nonident_prefix(&g, 0, rb, r.order(), limit as usize + 2);
        let np = pre[(limit as usize).min(pre.len() - 1)];
        let cx = Ctx::new(&g, 0, 0);
        cx.reset(20 * limit + 10_000);
        let x = match t[0] {
            8 => lim8(r, limit as u8, nd::<KB>(&cx, 0, 0), nd(&cx, rb, 1)),
            16 => lim16(r, limit as u16, nd::<KB>(&cx, 0, 0), nd(&cx, rb, 1)),
            32 => lim32(r, limit as u32, nd::<KB>(&cx, 0, 0), nd(&cx, rb, 1)),
            64 => lim64(r, limit as u64, nd::<KB>(&cx, 0, 0), nd(&cx, rb, 1)),
            _ => lim128(r, limit as u128, nd::<KB>(&cx, 0, 0), nd(&cx, rb, 1)),
        }
        .map_err(drop);
        judge::<KB>((r, "bits", t[0]), &g, &cx, limit, need, np, want, x, st)?;
    }
    Ok(())
}

/// The greatest values of each type behave as "unlimited" on small graphs (nothing wraps).
fn maxima(g: &Graph, st: &mut Stats) -> Result<(), String> {
    for r in RS {
        let (need, diff) = trace(g, 0, g.rb, r.order(), 300, st);
        let Some(_) = need else { continue };
        let want = diff.is_none();
        let cx = Ctx::new(g, 0, 0);
        let mut ck = |w: &str, f: &dyn Fn() -> Result<bool, ()>| {
            cx.reset(1_000_000);
            st.execs += 1;
            match f() {
                Ok(c) if c == want => Ok(()),
                x => Err(format!("{r:?} {w}: {x:?}, want equivalent={want}")),
            }
        };
        ck("u32::MAX", &|| lim32(r, u32::MAX, nd::<KB>(&cx, 0, 0), nd(&cx, g.rb, 1)).map_err(drop))?;
        ck("u32 2^31", &|| lim32(r, 1 << 31, nd::<KB>(&cx, 0, 0), nd(&cx, g.rb, 1)).map_err(drop))?;
        ck("u64::MAX", &|| lim64(r, u64::MAX, nd::<KB>(&cx, 0, 0), nd(&cx, g.rb, 1)).map_err(drop))?;
        ck("u64 2^32", &|| lim64(r, 1 << 32, nd::<KB>(&cx, 0, 0), nd(&cx, g.rb, 1)).map_err(drop))?;
        ck("u64 2^63", &|| lim64(r, 1 << 63, nd::<KB>(&cx, 0, 0), nd(&cx, g.rb, 1)).map_err(drop))?;
        ck("u128::MAX", &|| lim128(r, u128::MAX, nd::<KB>(&cx, 0, 0), nd(&cx, g.rb, 1)).map_err(drop))?;
        ck("u128 2^64", &|| lim128(r, 1 << 64, nd::<KB>(&cx, 0, 0), nd(&cx, g.rb, 1)).map_err(drop))?;
        ck("usize::MAX", &|| limsize(r, usize::MAX, nd::<KB>(&cx, 0, 0), nd(&cx, g.rb, 1)).map_err(drop))?;
        ck("u16::MAX", &|| lim16(r, u16::MAX, nd::<KB>(&cx, 0, 0), nd(&cx, g.rb, 1)).map_err(drop))?;
        ck("u16 256", &|| lim16(r, 256, nd::<KB>(&cx, 0, 0), nd(&cx, g.rb, 1)).map_err(drop).or(Ok(want)))?;
    }
    Ok(())
}

fn spaces(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    let mut bd = vec![];
    let c1 = fam("chain1");
    for bits in [8i64, 16, 32, 64, 128] {
        let lims: &[i64] = if bits == 8 { &[0, 1, 127, 128, 254, 255] } else { &[254, 255, 256, 257, 511, 512, 32767, 32768, 65534, 65535] };
        for &l in lims.iter().chain(if bits > 16 { [65536i64, 65537, 70000, 131072].iter() } else { [].iter() }) {
            for d in -2..=2 {
                let n = l + d; // a chain of n pairs and an end: n + 1 visits
                if n >= 1 {
                    bd.push(vec![bits, l, c1 as i64, n, -1]);
                    bd.push(vec![bits, l, c1 as i64, n, n]);
                    bd.push(vec![bits, l, c1 as i64, n, n - 1]);
                }
            }
            bd.push(vec![bits, l, fam("ring") as i64, 3, -1]);
            bd.push(vec![bits, l, fam("degenerate_cyclic") as i64, 2, -1]);
            bd.push(vec![bits, l, fam("wide") as i64, l.max(1), -1]);
            bd.push(vec![bits, l, fam("tree") as i64, 2 * l + 3, -1]);
        }
    }
    let cap = t.pick(10, 16);
    let mut v = vec![
        graphs("small", "every limit from 0 to one more than needed (at most 10); every limit type; three recursion modes", Spec::new(3, &[0, 1, 2], &[0, 1], 2), move |g, st| {
            all_limits::<KB>(g, 0, g.rb, cap, true, st)
        }),
        graphs("four", "every limit up to 8", Spec::new(4, &[0, 1, 2], &[0], 2), |g, st| all_limits::<KV>(g, 0, g.rb, 8, false, st)),
        graphs("four_labels", "every limit up to 8", Spec::new(4, &[0, 1, 2], &[0, 1], 2), |g, st| all_limits::<KB>(g, 0, g.rb, 6, false, st)),
        graphs("acyclic", "every limit up to 40", Spec::new(5, &[0, 1, 2], &[0], 2).acyclic(), |g, st| all_limits::<KB>(g, 0, g.rb, 40, true, st)),
        graphs("deg3", "every limit up to 10", Spec::new(3, &[0, 1, 3], &[0, 1], 2), |g, st| all_limits::<KB>(g, 0, g.rb, 10, false, st)),
        graphs("maxima", "greatest and power-of-two limits of each type", Spec::new(4, &[0, 1, 2], &[0, 1], 2).acyclic(), maxima),
        tuples("boundaries", "lists, rings, wide nodes and trees around the limits; [bits,limit,family,size,mutated]", bd, boundary),
    ];
    if !q {
        v.push(graphs("five", "every limit up to 10", Spec::new(5, &[0, 1, 2], &[0], 2), |g, st| all_limits::<KB>(g, 0, g.rb, 10, false, st)));
        v.push(graphs("acyclic_labels", "every limit up to 40", Spec::new(5, &[0, 1, 2], &[0, 1], 2).acyclic(), |g, st| all_limits::<KB>(g, 0, g.rb, 40, false, st)));
        v.push(graphs("acyclic_six", "every limit up to 70", Spec::new(6, &[0, 1, 2], &[0], 2).acyclic(), |g, st| all_limits::<KB>(g, 0, g.rb, 70, false, st)));
    }
    v
}

fn main() {
    gsc_mc::runner::main(Check {
        id: "L01",
        level: "model_checking",
        rule: "reference: unpruned traversal of the product of the two graphs, counting visited pairs (states) and followed edge pairs (transitions); every limit from 0 up to one more than needed is given to the real limited comparisons; the verdict, whether the limit is reported, and the number of value comparisons at the abort must agree",
        assumptions: &["graphs, degrees, labels and limits within the bounds of each listed space"],
        spaces,
    })
}
