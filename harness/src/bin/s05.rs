//! S05: identical nodes are equivalent without being inspected; others are inspected.
use graph_safe_compare::Cmp;
use gsc_mc::graph::*;
use gsc_mc::node::*;
use gsc_mc::refm::*;
use gsc_mc::runner::*;
use gsc_mc::util::*;
use gsc_mc::variants::*;

fn judge<K: Kind>(g: &Graph, ra: u32, rb: u32, v: V, want: bool, st: &mut Stats) -> Result<(), String> {
    let cx = Ctx::new(g, 0, M_IDENT);
    let f = |st: &mut Stats| {
        cx.reset(budget(g));
        st.execs += 1;
        let got = match run::<K>(v, nd(&cx, ra, 0), nd(&cx, rb, 1)) {
            Ok(c) => c.is_equiv(),
            Err(_) => return Err(format!("{v:?}: limit reached")),
        };
        cx.result().map_err(|m| format!("{v:?}: {m}"))?;
        if got != want {
            return Err(format!("{v:?}: answers equivalent={got}, want {want}"));
        }
        if ra == rb && (cx.n_cmp.get() != 0 || cx.n_edge.get() != 0) {
            return Err(format!("{v:?}: the same node on both sides was inspected"));
        }
        Ok(())
    };
    if v.random() { all_rng(st, |st| f(st)) } else { f(st) }
}

fn check<K: Kind>(g: &Graph, vs: &[V], st: &mut Stats) -> Result<(), String> {
    let acyclic = g.is_acyclic();
    {
        let (ra, rb) = (0, g.rb);
        let o = reference(g, ra, rb, Order::Breadth, st);
        let want = o.diff.is_none();
        st.outcome((want, o.states));
        for &v in vs {
            match v {
                V::Unl(r) if ra != rb => {
                    if !acyclic {
                        continue;
                    }
                    judge::<K>(g, ra, rb, v, want, st)?;
                    // Every non-identical counterpart pair is inspected, exactly once per visit.
                    let cx = Ctx::new(g, 0, 0).logged();
                    cx.reset(1 << 22);
                    st.execs += 1;
                    let _ = run::<K>(v, nd(&cx, ra, 0), nd(&cx, rb, 1));
                    let want = nonident(g, ra, rb, r.order());
                    let got = cx.log_cmp.as_ref().unwrap().borrow();
                    let mut gp: Vec<_> = got.iter().map(|x| (x.0, x.1)).collect();
                    let mut wp = want.clone();
                    gp.sort();
                    wp.sort();
                    if gp != wp {
                        return Err(format!("{v:?}: pairs whose values were compared: {gp:?}, pairs of different identity met: {wp:?}"));
                    }
                }
                V::Lim(r, _) if ra != rb => {
                    let (_, need) = search(g, ra, rb, r.order(), false, 1 << 16);
                    if let Some(n) = need {
                        judge::<K>(g, ra, rb, V::Lim(r, n as u32), want, st)?
                    }
                }
                _ => judge::<K>(g, ra, rb, v, want, st)?,
            }
        }
    }
    Ok(())
}

/// The pairs of different identity met by an unpruned traversal up to the first difference.
fn nonident(g: &Graph, ra: u32, rb: u32, order: Order) -> Vec<(u32, u32)> {
    use std::collections::VecDeque;
    let mut out = vec![];
    let mut q: VecDeque<(u32, u32, u32)> = VecDeque::new();
    let mut cur = Some((ra, rb));
    loop {
        if let Some((a, b)) = cur.take() {
            if a != b {
                out.push((a, b));
                if !lab_eq(g.label[a as usize], g.label[b as usize]) || (g.deg(a) == 0) != (g.deg(b) == 0) {
                    return out;
                }
                if g.deg(a) > 0 {
                    q.push_back((a, b, 0));
                }
            }
        }
        let p = if order == Order::Breadth { q.front_mut() } else { q.back_mut() };
        let Some(p) = p else { return out };
        let k = p.2;
        p.2 += 1;
        match (g.edge(p.0, k), g.edge(p.1, k)) {
            (Some(x), Some(y)) => cur = Some((x, y)),
            (None, None) => {
                if order == Order::Breadth { q.pop_front() } else { q.pop_back() };
            }
            _ => return out,
        }
    }
}

fn asm() -> Vec<V> {
    let mut v = unl_variants();
    v.extend(RS.map(|r| V::Lim(r, 1)));
    v.extend(RS.map(|r| V::I11(r)));
    v.extend(RS.map(|r| V::I12(r)));
    v.extend([V::P1(0), V::P1(1), V::P1(2), V::P1(3), V::P1(4), V::P2(1), V::P3(3)]);
    v
}
fn prem() -> Vec<V> {
    let mut v = premade_variants();
    v.extend(RS.map(|r| V::Dflt(r)));
    v
}
const L: &[u8] = &[0, IRREFLEXIVE];

/// Two lists sharing a tail from some position, the tail containing irreflexive values.
/// [own length a, own length b, shared length, irreflexive?, arity]
fn shared(t: &[i64]) -> (Graph, u32) {
    let (a, b, s) = (t[0] as u32, t[1] as u32, t[2] as u32);
    let mut g = Graph::new();
    // nodes: 0..s shared (0 = end), then b's own, then a's own, heads last; renumber so root a = 0 is not needed.
    let lab = if t[3] != 0 { IRREFLEXIVE } else { 0 };
    for i in 0..s {
        let e: Vec<u32> = if i == 0 { vec![] } else if t[4] == 1 { vec![i - 1] } else { vec![i - 1, i - 1] };
        g.push(lab, &e);
    }
    let mut heads = [0, 0];
    for (h, n) in [(0, a), (1, b)] {
        let mut prev = s - 1;
        for _ in 0..n {
            let e: Vec<u32> = if t[4] == 1 { vec![prev] } else { vec![prev, prev] };
            prev = g.push(0, &e);
        }
        heads[h] = prev;
    }
    // Put the heads in front by remembering them through the tuple check.
    let _ = heads;
    (g, s)
}

fn spaces(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    let mut sh = vec![];
    for a in [0, 1, 2, 3, 10, 39, 40, 41, 45] {
        for b in [0, 1, 2, 3, 10, 39, 40, 41, 45] {
            for s in [1, 2, 3, 50, 500] {
                for ir in 0..2 {
                    for ar in 1..=2 {
                        sh.push(vec![a, b, s, ir, ar]);
                    }
                }
            }
        }
    }
    let mut v = vec![
        graphs("small", "labels with an irreflexive value; assembled variants, every random sequence; roots different and the same", Spec::new(3, &[0, 1, 2], L, 2), |g, st| check::<KB>(g, &asm(), st)),
        graphs("collide", "as small, identities with colliding hashes", Spec::new(3, &[0, 1, 2], L, 2), |g, st| {
            check::<KC>(g, &[V::I11(R::Queue), V::I12(R::Call), V::I11(R::Stack), V::Unl(R::Queue), V::P1(1)], st)
        }),
        graphs("acyclic", "irreflexive values in DAGs", Spec::new(4, &[0, 1, 2], L, 2).acyclic(), |g, st| check::<KV>(g, &asm(), st)),
        graphs("premade", "premade functions and default limits", Spec::new(3, &[0, 1, 2], L, 2), |g, st| {
            check::<KB>(g, &prem(), st)?;
            check::<KC>(g, &[V::Cyc(Cyc::Robust), V::Cyc(Cyc::CyclePre)], st)
        }),
        graphs("four", "all limits", Spec::new(4, &[0, 1, 2], L, 2), |g, st| check::<KB>(g, &[V::I11(R::Queue), V::I12(R::Call), V::I11(R::Stack)], st)),
        tuples("shared_tails", "two lists sharing a tail; [own,own,shared,irreflexive,arity]", sh, |t, st| {
            let (g, s) = shared(t);
            let ha = if t[0] == 0 { s - 1 } else { s + t[0] as u32 - 1 };
            let hb = if t[1] == 0 { s - 1 } else { s + (t[0] + t[1]) as u32 - 1 };
            let o = reference(&g, ha, hb, Order::Breadth, st);
            let want = o.diff.is_none();
            for v in prem() {
                judge::<KB>(&g, ha, hb, v, want, st)?;
            }
            if t[4] == 1 {
                for v in unl_variants() {
                    judge::<KB>(&g, ha, hb, v, want, st)?;
                }
            }
            Ok(())
        }),
    ];
    if !q {
        v.push(graphs("four_all", "as small", Spec::new(4, &[0, 1, 2], L, 2), |g, st| check::<KB>(g, &asm(), st)));
        v.push(graphs("acyclic_five", "DAGs", Spec::new(5, &[0, 1, 2], L, 2).acyclic(), |g, st| check::<KV>(g, &asm(), st)));
        v.push(graphs("deg3", "degree 3", Spec::new(3, &[0, 1, 2, 3], L, 2), |g, st| check::<KB>(g, &asm(), st)));
    }
    v
}

fn main() {
    gsc_mc::runner::main(Check {
        id: "S05",
        level: "model_checking",
        rule: "every graph pair with labels that include a value unequal to itself; monitors in the node type: no value comparison of a node with itself, no edge requested of a node not found equal to its counterpart; verdict against the identity-aware product search; for the unpruned variants the multiset of compared pairs must be exactly the pairs of different identity met",
        assumptions: &["graphs, degrees and limits within the bounds of each listed space"],
        spaces,
    })
}
