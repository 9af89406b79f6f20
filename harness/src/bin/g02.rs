//! G02: user-supplied descend modes control the traversal as documented.
use gsc_mc::graph::*;
use gsc_mc::modes::*;
use gsc_mc::node::*;
use gsc_mc::refm::*;
use gsc_mc::runner::*;
use gsc_mc::util::*;
use gsc_mc::variants::*;

fn one(g: &Graph, ra: u32, rb: u32, r: R, cx: &Ctx, st: &mut Stats) -> Result<(), String> {
    let got = ask_run::<KV>(r, nd(cx, ra, 0), nd(cx, rb, 1));
    st.execs += 1;
    let log = ASK.with(|a| a.borrow().log.clone());
    let w = |m: String| format!("{r:?}, answers {log:?}: {m}");
    let m = ask_model(g, ra, rb, r.order(), &log).map_err(w)?;
    st.states += m.cmps.len() as u64;
    st.transitions += log.len() as u64;
    st.outcome((&log, m.cmps.len()));
    let cmps = cx.log_cmp.as_ref().unwrap().borrow();
    if *cmps != m.cmps {
        let f = |v: &[(u32, u32, u64)]| v.iter().map(|x| (x.0, x.1)).collect::<Vec<_>>();
        return Err(w(format!("values compared of the pairs {:?}, permitted were {:?}", f(&cmps), f(&m.cmps))));
    }
    match (got, m.result) {
        (Ok(v), Ok(d)) => {
            let want = Diff::val(&d, g);
            if v != want && !(is_equiv(&v) && is_equiv(&want)) {
                return Err(w(format!("the result is {v:?}, the first remaining difference is {want:?}")));
            }
        }
        (Err(e), Err(t)) if e.tag == t => (),
        (x, y) => return Err(w(format!("the result is {x:?}, expected {:?}", y.map(|d| Diff::val(&d, g))))),
    }
    Ok(())
}
fn all(g: &Graph, free: u32, errs: bool, stop: u32, st: &mut Stats) -> Result<(), String> {
    let cx = Ctx::new(g, 0, 0).logged();
    for r in RS {
        {
        let (ra, rb) = (0, g.rb);
            all_rng(st, |st| {
                ask_reset(free, stop, errs);
                cx.reset(1 << 20);
                one(g, ra, rb, r, &cx, st)
            })?;
        }
    }
    Ok(())
}
/// At most `dev` answers other than "permit", anywhere.
fn deviate(g: &Graph, ra: u32, rb: u32, dev: u32, st: &mut Stats) -> Result<(), String> {
    let cx = Ctx::new(g, 0, 0).logged();
    for r in RS {
        few_rng(st, dev, |st| {
            ask_reset(200, 40, true);
            cx.reset(1 << 20);
            one(g, ra, rb, r, &cx, st)
        })?;
    }
    Ok(())
}

fn spaces(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    let n = t.pick(10, 12);
    let d = "every sequence of permit/refuse/error to the first questions, then permit (descents refused after a while so that cyclic graphs end)";
    let mut v = vec![
        graphs("small", d, Spec::new(3, &[0, 1, 2], &[0, 1], 2), move |g, st| all(g, n, true, 24, st)),
        graphs("deg3", d, Spec::new(3, &[0, 1, 3], &[0], 2), move |g, st| all(g, 6, true, 24, st)),
        graphs("four", d, Spec::new(4, &[0, 1, 2], &[0], 2), move |g, st| all(g, t.pick(8, 10), true, 24, st)),
        graphs("two_ways", "every sequence of permit/refuse to 11 (thorough 14) questions", Spec::new(3, &[0, 1, 2], &[0], 2), move |g, st| all(g, t.pick(11, 14), false, 24, st)),
        tuples("deviations", "acyclic families; one refusal or error (thorough: two) at any question; [family,size,size,mutation,position]", fam_items(&thin_families(), t.pick(&[3, 6], &[3, 6, 12]), &[1, 2, 3], 12), move |x, st| {
            let (g, rb) = fam_graph(x);
            deviate(&g, 0, rb, t.pick(1, 2), st)
        }),
    ];
    if !q {
        v.push(graphs("four_labels", d, Spec::new(4, &[0, 1, 2], &[0, 1], 2), move |g, st| all(g, 5, true, 24, st)));
        v.push(graphs("five", d, Spec::new(5, &[0, 1, 2], &[0], 2), move |g, st| all(g, 4, true, 24, st)));
    }
    v
}

fn main() {
    gsc_mc::runner::main(Check {
        id: "G02",
        level: "model_checking",
        rule: "every graph pair and every sequence of answers of a user-supplied descend mode within the bounds; the reference traversal is run with the same answers and must meet the same questions in the same order, compare the same pairs (states) and give the same result or error; transitions: questions answered",
        assumptions: &["graphs, degrees, labels and numbers of free answers within the bounds of each listed space"],
        spaces,
    })
}
