//! G01: errors from user-supplied modes abort at once and arrive unchanged.
use gsc_mc::graph::*;
use gsc_mc::modes::*;
use gsc_mc::node::*;
use gsc_mc::refm::*;
use gsc_mc::runner::*;
use gsc_mc::tables::*;
use gsc_mc::util::*;
use gsc_mc::variants::*;
use graph_safe_compare::Cmp;

fn quiet() -> Result<(), String> {
    let (e, f) = (EVENTS.with(|e| e.get()), EVENTS_AT_FAIL.with(|e| e.get()));
    if f != u64::MAX && e != f {
        return Err(format!("{} more node callbacks after a mode had failed", e - f));
    }
    Ok(())
}
/// The result, given the errors the modes returned (in order).
fn judge<C: Cmp + std::fmt::Debug>(got: &Result<C, PErr>, fails: &[u32], want: Option<bool>, limit: bool) -> Result<(), String> {
    quiet()?;
    if fails.len() > 1 {
        return Err(format!("the modes were used on after their first error: errors {fails:?}"));
    }
    match (got, fails.first()) {
        (Err(e), Some(t)) => {
            if e.tag != *t {
                return Err(format!("the error is {e:?}, the mode returned error {t}"));
            }
            let n = CONVS.with(|c| c.get());
            if n != 1 || e.convs != 1 {
                return Err(format!("the error of the mode was converted {n} times"));
            }
            Ok(())
        }
        (Err(e), None) if limit && e.tag == 7777 => Ok(()),
        (Err(e), None) => Err(format!("the error is {e:?}, but no mode failed")),
        (Ok(c), Some(t)) => Err(format!("the mode returned error {t}, but the result is {c:?}")),
        (Ok(c), None) => match want {
            Some(w) if w != c.is_equiv() => Err(format!("no mode failed and the result is {c:?}, expected equivalent={w}")),
            _ => Ok(()),
        },
    }
}
fn fails() -> Vec<u32> {
    let mut v: Vec<u32> = vec![];
    ASK.with(|a| {
        let mut n = 0;
        for q in &a.borrow().log {
            n += 1;
            let _ = n;
            match q {
                Q::Traverse(A::Err) => v.push(0),
                Q::Edges(a, b, A::Err) => v.push(1000 + a * 16 + b),
                _ => (),
            }
        }
        // the number of a traversal error is the number of questions asked when it was given
        let asked = a.borrow().asked;
        for x in &mut v {
            if *x == 0 {
                *x = asked
            }
        }
    });
    OWN.with(|o| {
        for d in &o.borrow().log {
            if let D::Fail(t) = d {
                v.push(*t)
            }
        }
    });
    v
}
fn note(st: &mut Stats, e: &[u32]) {
    st.execs += 1;
    st.nontrivial += !e.is_empty() as u64;
    let ch = gsc_mc::choice::current();
    st.transitions += ch.len() as u64;
    st.outcome((e, ch));
}

/// Premade recursion modes under a failing descend mode, and failing recursion modes under it.
fn single(g: &Graph, ra: u32, rb: u32, free: u32, dev: u32, st: &mut Stats) -> Result<(), String> {
    let hook = counting_hook;
    let cx = Ctx::new(g, 0, 0).hooked(&hook);
    let acyclic = g.is_acyclic();
    let stop = if acyclic { u32::MAX } else { 20 };
    st.states += first(g, ra, rb, Order::Breadth).states;
    for r in RS {
        few_rng(st, dev, |st| {
            ask_reset(free, stop, true);
            own_reset(Style::Queue, 0, 0, false);
            events_reset();
            cx.reset(1 << 20);
            let got = ask_run::<KV>(r, nd(&cx, ra, 0), nd(&cx, rb, 1));
            let f = fails();
            note(st, &f);
            judge(&got, &f, None, false).map_err(|m| format!("{r:?} and a failing descend mode: {m}"))
        })?;
    }
    for style in [Style::Queue, Style::Stack, Style::Now, Style::Any] {
        few_rng(st, dev, |st| {
            ask_reset(0, stop, false);
            own_reset(style, free, 1, false);
            events_reset();
            cx.reset(1 << 20);
            let got = own_run::<KV>(nd(&cx, ra, 0), nd(&cx, rb, 1));
            let f = fails();
            note(st, &f);
            judge(&got, &f, None, false).map_err(|m| format!("a failing recursion mode ({style:?}): {m}"))
        })?;
    }
    for style in [Style::Queue, Style::Stack] {
        few_rng(st, dev, |st| {
            ask_reset(0, stop, false);
            own_reset(style, free, 1, false);
            events_reset();
            cx.reset(1 << 20);
            let got = post_run::<KV>(nd(&cx, ra, 0), nd(&cx, rb, 1));
            let f = fails();
            note(st, &f);
            judge(&got, &f, None, false).map_err(|m| format!("a failing postponing recursion mode ({style:?}): {m}"))
        })?;
    }
    Ok(())
}
/// A limit as descend mode, converted to the user's error.
fn limited(g: &Graph, ra: u32, rb: u32, cap: u32, st: &mut Stats) -> Result<(), String> {
    let hook = counting_hook;
    let cx = Ctx::new(g, 0, 0).hooked(&hook);
    for k in 0..5 {
        let style = if k == 4 { Style::Stack } else { Style::Queue };
        let (o, need) = search(g, ra, rb, if k == 4 || k == 2 { Order::Depth } else { Order::Breadth }, false, cap as u64 + 2);
        st.states += o.states;
        for l in 0..=cap {
            few_rng(st, u32::MAX, |st| {
                ask_reset(0, 0, false);
                own_reset(style, if k < 2 { 6 } else { 0 }, 1, false);
                events_reset();
                cx.reset(1 << 20);
                let got = lp_run::<KV>(k, l, nd(&cx, ra, 0), nd(&cx, rb, 1));
                let f = fails();
                note(st, &f);
                let w = |m: String| format!("limit {l}, recursion mode {k}: {m}");
                judge(&got, &f, Some(o.diff.is_none()), true).map_err(w)?;
                if f.is_empty() {
                    let fits = matches!(need, Some(n) if n <= l as u64);
                    if got.is_ok() != fits {
                        return Err(w(format!("the result is {got:?}, pairs to visit: {need:?}")));
                    }
                    if got.is_err() && CONVS.with(|c| c.get()) != 1 {
                        return Err(w("the error was not converted exactly once".into()));
                    }
                }
                Ok(())
            })?;
        }
    }
    Ok(())
}
fn precheck<const P: u16>(g: &Graph, ra: u32, rb: u32, free: u32, dev: u32, want: bool, st: &mut Stats) -> Result<(), String> {
    let hook = counting_hook;
    let cx = Ctx::new(g, 0, 0).hooked(&hook);
    for combo in 0..COMBOS {
        let styles: &[Style] = match combo {
            1 => &[Style::Queue, Style::Stack],
            _ => &[Style::Queue, Style::Stack, Style::Now],
        };
        for &style in styles {
            for fail in 1..=3 {
                few_rng(st, dev, |st| {
                    ask_reset(0, 0, false);
                    own_reset(style, free, fail, false);
                    events_reset();
                    reset_stats();
                    cx.reset(1 << 20);
                    let got = gp_run::<KV, IP<inst::VecT<'_, KV>, 1, 1, P>>(combo, nd(&cx, ra, 0), nd(&cx, rb, 1));
                    let f = fails();
                    note(st, &f);
                    let w = |m: String| format!("precheck limit {P}, recursion modes {combo} {style:?}: {m}");
                    judge(&got, &f, Some(want), false).map_err(w)?;
                    if let Some(t) = f.first() {
                        let t = TB.with(|t| t.get()).gets + *t as u64 * 0;
                        let main = OWN.with(|o| o.borrow().calls[1]);
                        if f[0] < 200 && (main != 0 || t != 0) {
                            return Err(w("the main comparison was begun although the precheck failed".into()));
                        }
                    }
                    Ok(())
                })?;
            }
        }
    }
    Ok(())
}
fn prechecks(g: &Graph, ra: u32, rb: u32, free: u32, dev: u32, st: &mut Stats) -> Result<(), String> {
    let o = first(g, ra, rb, Order::Breadth);
    st.states += o.states;
    let want = o.diff.is_none();
    precheck::<0>(g, ra, rb, free, dev, want, st)?;
    precheck::<1>(g, ra, rb, free, dev, want, st)?;
    precheck::<2>(g, ra, rb, free, dev, want, st)?;
    precheck::<3>(g, ra, rb, free, dev, want, st)?;
    precheck::<5>(g, ra, rb, free, dev, want, st)?;
    precheck::<30>(g, ra, rb, free, dev, want, st)
}

fn spaces(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    let n = t.pick(6, 9);
    let d1 = "errors at every question of the descend mode and every request of the recursion mode";
    let d2 = "errors of the recursion modes of precheck and interleaving, at every request, for precheck limits 0,1,2,3,5,30 and every random sequence";
    let mut v = vec![
        graphs("single", d1, Spec::new(3, &[0, 1, 2], &[0, 1], 2), move |g, st| single(g, 0, g.rb, n, u32::MAX, st)),
        graphs("single_four", "one deviation anywhere", Spec::new(4, &[0, 1, 2], &[0], 2), move |g, st| single(g, 0, g.rb, t.pick(14, 40), t.pick(1, 2), st)),
        graphs("limited", "as single, and reaching the limit itself", Spec::new(3, &[0, 1, 2], &[0, 1], 2), move |g, st| limited(g, 0, g.rb, t.pick(6, 9), st)),
        graphs("precheck", d2, Spec::new(3, &[0, 1, 2], &[0, 1], 2), move |g, st| prechecks(g, 0, g.rb, 30, t.pick(1, 3), st)),
        graphs("precheck_unlabelled", d2, Spec::new(3, &[0, 1, 2], &[0], 2), move |g, st| prechecks(g, 0, g.rb, 30, u32::MAX, st)),
        tuples("families", "one error (thorough: two) at any point; [family,size,size,mutation,position]", fam_items(&thin_families(), t.pick(&[3, 7], &[3, 7, 15]), &[1, 2], 6), move |x, st| {
            let (g, rb) = fam_graph(x);
            single(&g, 0, rb, t.pick(200, 1000), t.pick(1, 2), st)?;
            prechecks(&g, 0, rb, 1000, 1, st)
        }),
    ];
    if !q {
        v.push(graphs("precheck_four", d2, Spec::new(4, &[0, 1, 2], &[0], 2), move |g, st| prechecks(g, 0, g.rb, 30, 2, st)));
    }
    v
}

fn main() {
    gsc_mc::runner::main(Check {
        id: "G01",
        level: "model_checking",
        rule: "every graph pair and every sequence of answers (permit, refuse, error) of user-supplied modes within the bounds, errors thus at every point; after the first error no node callback may follow, and exactly that error, converted once, must be the result; transitions: answers given",
        assumptions: &["graphs, degrees, labels and numbers of free answers within the bounds of each listed space"],
        spaces,
    })
}
