//! G03: user-supplied recursion modes get and give continuations as documented.
use gsc_mc::drive::driven;
use gsc_mc::graph::*;
use gsc_mc::modes::*;
use gsc_mc::node::*;
use gsc_mc::refm::*;
use gsc_mc::runner::*;
use gsc_mc::util::*;

fn one(g: &Graph, ra: u32, rb: u32, style: Style, cx: &Ctx, acyclic: bool, st: &mut Stats) -> Result<(), String> {
    let got = own_run::<KV>(nd(cx, ra, 0), nd(cx, rb, 1));
    st.execs += 1;
    let log = OWN.with(|o| o.borrow().log.clone());
    let asks = ASK.with(|a| a.borrow().log.clone());
    let w = |m: String| format!("{style:?}, decisions {log:?}: {m}");
    let mut m = OwnModel::new(g, style, &log, &asks);
    let end = m.run(ra, rb).map_err(w)?;
    st.states += m.cmps.len() as u64;
    st.transitions += log.len() as u64;
    st.outcome(&log);
    let cmps = cx.log_cmp.as_ref().unwrap().borrow();
    if *cmps != m.cmps {
        let f = |v: &[(u32, u32, u64)]| v.iter().map(|x| (x.0, x.1)).collect::<Vec<_>>();
        return Err(w(format!("values compared of the pairs {:?}, supplied were {:?}", f(&cmps), f(&m.cmps))));
    }
    let same = match (&got, &end) {
        (Ok(v), End::Diff(d)) => {
            let x = Diff::val(d, g);
            *v == x || is_equiv(v) && is_equiv(&x)
        }
        (Ok(v), End::Own) => *v == Val::own_val(),
        (Err(e), End::Err(t)) => e.tag == *t,
        _ => false,
    };
    if !same {
        return Err(w(format!("the result is {got:?}, expected {end:?}")));
    }
    // Whatever the order, the verdict is that of the graphs (nothing lost, nothing twice).
    if acyclic && !asks.iter().any(|q| !matches!(q, Q::Traverse(A::Yes) | Q::Edges(_, _, A::Yes))) && !matches!(end, End::Own | End::Err(_)) {
        let o = first(g, ra, rb, Order::Breadth);
        if is_equiv(got.as_ref().unwrap()) != o.diff.is_none() {
            return Err(w(format!("the result is {got:?} although the graphs have equivalent={}", o.diff.is_none())));
        }
    }
    Ok(())
}
fn all(g: &Graph, ra: u32, rb: u32, styles: &[Style], free: u32, differ: bool, dev: u32, st: &mut Stats) -> Result<(), String> {
    let cx = Ctx::new(g, 0, 0).logged();
    let acyclic = g.is_acyclic();
    for &s in styles {
        few_rng(st, dev, |st| {
            // On cyclic graphs the descend mode ends it.
            ask_reset(0, if acyclic { u32::MAX } else { 24 }, false);
            own_reset(s, free, 0, differ);
            cx.reset(1 << 20);
            one(g, ra, rb, s, &cx, acyclic, st)
        })?;
    }
    Ok(())
}

fn spaces(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    let inf = u32::MAX;
    let n = t.pick(11, 13);
    let d = "every sequence of first decisions of a recursion mode: recur at once, postpone, resume any postponed iterator next";
    let mut v = vec![
        graphs("small", d, Spec::new(3, &[0, 1, 2], &[0, 1], 2), move |g, st| {
            all(g, 0, g.rb, &[Style::Queue, Style::Stack, Style::Now], 0, false, 0, st)?;
            all(g, 0, g.rb, &[Style::Any], n, false, inf, st)?;
            all(g, 0, g.rb, &[Style::AnyEager], t.pick(8, 9), false, inf, st)
        }),
        graphs("differ", "as small, and the mode may answer inequivalent on its own at each step", Spec::new(3, &[0, 1, 2], &[0], 2), move |g, st| {
            all(g, 0, g.rb, &[Style::Queue, Style::Stack, Style::Now, Style::Any, Style::AnyEager], t.pick(5, 7), true, inf, st)
        }),
        graphs("acyclic", d, Spec::new(5, &[0, 1, 2], &[0], 2).acyclic(), move |g, st| {
            all(g, 0, g.rb, &[Style::Any], n, false, inf, st)?;
            all(g, 0, g.rb, &[Style::AnyEager], t.pick(8, 9), false, inf, st)
        }),
        graphs("acyclic_deg3", d, Spec::new(4, &[0, 1, 3], &[0, 1], 2).acyclic(), move |g, st| all(g, 0, g.rb, &[Style::AnyEager], t.pick(4, 6), false, inf, st)),
        tuples("families", "acyclic families; up to two unusual decisions at any point; [family,size,size,mutation,position]", fam_items(&thin_families(), t.pick(&[3, 6], &[3, 6, 10]), &[1, 2, 3], 12), move |x, st| {
            let (g, rb) = fam_graph(x);
            all(&g, 0, rb, &[Style::Any, Style::AnyEager], 1000, false, t.pick(1, 2), st)
        }),
    ];
    v.push(tuples("iterator", "every sequence of Iterator methods on the edges iterator; [edges,edges,methods before the last]", product(&[(1, t.pick(5, 7)), (1, t.pick(5, 7)), (0, t.pick(4, 5))]), |x, st| driven(x, 0, st)));
    if !q {
        v.push(graphs("four_labels", d, Spec::new(4, &[0, 1, 2], &[0, 1], 2), move |g, st| all(g, 0, g.rb, &[Style::Any], 7, false, inf, st)));
    }
    v
}

fn main() {
    gsc_mc::runner::main(Check {
        id: "G03",
        level: "model_checking",
        rule: "every graph pair and every sequence of decisions of a user-supplied recursion mode within the bounds; a reference traversal driven by the same decisions must meet the same requests, get the same edges, compare the same pairs (states) and give the same result; transitions: decisions; on acyclic graphs the verdict must also be that of the graphs",
        assumptions: &["graphs, degrees, labels and numbers of free decisions within the bounds of each listed space"],
        spaces,
    })
}
