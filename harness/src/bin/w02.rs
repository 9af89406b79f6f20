//! W02: the interleaving obeys its phase limits.
use graph_safe_compare::cycle_safe::modes::interleave::Interleave;
use gsc_mc::choice::choose;
use gsc_mc::graph::Graph;
use gsc_mc::classes::*;
use gsc_mc::node::*;
use gsc_mc::runner::*;
use gsc_mc::tables::*;
use gsc_mc::util::*;
use gsc_mc::variants::*;

struct Real<'c, const F: u16, const S: u16>(Interleave<IP<inst::HashT<'c, KB>, F, S, 1>>);
impl<'c, const F: u16, const S: u16> Real<'c, F, S> {
    fn new() -> Self {
        reset_stats();
        RNG_LOG.with(|l| *l.borrow_mut() = Some(vec![]));
        Real(Interleave::default())
    }
    fn step(&mut self, cx: &'c Ctx<'c>, a: u32, b: u32) -> (Step, Option<u16>, usize) {
        let g0 = TB.with(|t| t.get());
        RNG_LOG.with(|l| l.borrow_mut().as_mut().unwrap().clear());
        let descend = query(&mut self.0, cx, a, b);
        let g1 = TB.with(|t| t.get());
        let (n, d, k) = RNG_LOG.with(|l| {
            let l = l.borrow();
            let l = l.as_ref().unwrap();
            (l.first().map(|x| x.0), l.first().map(|x| x.1), l.len())
        });
        (Step { descend, consult: g1.gets + g1.inserts > g0.gets + g0.inserts, random: n }, d, k)
    }
}

fn compare<const F: u16, const S: u16>(m: &mut Phases, r: &mut Real<'_, F, S>, got: (Step, Option<u16>, usize), a: u32, b: u32, i: usize, st: &mut Stats) -> Result<(), String> {
    let _ = r;
    let (got, draw, k) = got;
    let want = m.step(a, b, draw);
    st.transitions += 1;
    if got != want || k > 1 {
        return Err(format!(
            "fast limit {F}, slow limit {S}, step {i}, pair ({a},{b}): the mode does {got:?} with {k} random numbers drawn, expected {want:?} (descend: edges are to be compared; consult: the table was used; random: bound asked of the random source)"
        ));
    }
    Ok(())
}

/// All histories of `depth` ordered pairs over `k` identities x all random answers.
fn histories<const F: u16, const S: u16>(k: u32, depth: usize, first: u32, st: &mut Stats) -> Result<(), String> {
    let g = leaves(k);
    let cx = Ctx::new(&g, u64::MAX, 0);
    let np = k * (k - 1);
    let mut seen = std::collections::HashSet::new();
    all_rng(st, |st| {
        st.execs += 1;
        let mut m = Phases { f: F, s: S as u32, fast: 0, slow: 0, cl: Closure::new(k) };
        let mut r = Real::<F, S>::new();
        for i in 0..depth {
            let p = if i == 0 { first } else { choose(np) };
            let (a, mut b) = (p / (k - 1), p % (k - 1));
            if b >= a {
                b += 1
            }
            let got = r.step(&cx, a, b);
            compare(&mut m, &mut r, got, a, b, i, st)?;
            seen.insert((m.fast, m.slow, m.cl.0.clone()));
        }
        st.outcome((m.fast, m.slow, &m.cl.0));
        Ok(())
    })?;
    st.states += seen.len() as u64;
    Ok(())
}

/// Long regular histories: fresh pairs, every `h`-th step a repeat of the pair last recorded.
fn long<const F: u16, const S: u16>(steps: usize, h: usize, rng: RngMode, st: &mut Stats) -> Result<(), String> {
    let g = leaves(2);
    let mut g = g;
    for _ in 0..2 * steps {
        g.push(0, &[]);
    }
    let cx = Ctx::new(&g, u64::MAX, 0);
    set_rng(rng);
    st.execs += 1;
    let mut r = Real::<F, S>::new();
    // A model with an explicit set instead of the closure: pairs are disjoint.
    let (mut fast, mut slow) = (0u32, 0u32);
    let mut known: Vec<bool> = vec![false; steps + 1];
    let mut last = 0usize;
    for i in 0..steps {
        let p = if h > 0 && i % h == h - 1 { last } else { i };
        let (a, b) = (2 * p as u32, 2 * p as u32 + 1);
        let (got, draw, k) = r.step(&cx, a, b);
        let want = if fast > 0 {
            fast -= 1;
            Step { descend: true, consult: false, random: None }
        } else if slow == S as u32 {
            slow = 0;
            fast = draw.unwrap_or(0) as u32;
            Step { descend: true, consult: false, random: Some(F + 1) }
        } else if known[p] {
            slow = 0;
            Step { descend: false, consult: true, random: None }
        } else {
            slow += 1;
            known[p] = true;
            last = p;
            Step { descend: true, consult: true, random: None }
        };
        st.states += 1;
        st.transitions += 1;
        if got != want || k > 1 {
            return Err(format!("fast limit {F}, slow limit {S}, {rng:?}, step {i}: the mode does {got:?} with {k} random numbers drawn, expected {want:?}"));
        }
    }
    st.outcome((fast, slow));
    Ok(())
}

/// Two chains of `k` nodes that end in a node with an edge to itself.
fn tail_loop(k: u32) -> Graph {
    let mut g = Graph::new();
    for side in 0..2 {
        let o = side * (k + 1);
        for i in 0..k {
            g.push(0, &[o + i + 1]);
        }
        g.push(0, &[o + k]);
    }
    g.rb = k + 1;
    g
}
/// How often a premade comparison goes around the loop beyond what finding it known takes.
fn spin(c: Cyc, k: u32, st: &mut Stats) -> Result<u64, String> {
    let g = tail_loop(k);
    let pre = if matches!(c, Cyc::RobustPre | Cyc::CyclePre) { 400 } else { 0 };
    let cx = Ctx::new(&g, 10 * (pre + k as u64 + 70_000), M_STOP);
    let r = cyc(c, nd::<KB>(&cx, 0, 0), nd(&cx, g.rb, 1));
    st.execs += 1;
    st.transitions += cx.n_cmp.get();
    st.outcome((c as u8, k, cx.n_cmp.get()));
    let least = pre + k as u64 + 2;
    if !r || cx.n_cmp.get() < least {
        return Err(format!("{c:?}, {k} nodes then a loop: {} comparisons, result {r}; it takes at least {least} to find the loop known", cx.n_cmp.get()));
    }
    Ok(cx.n_cmp.get() - least)
}
/// The limits which the premade comparisons have, seen from outside.
fn premade(c: Cyc, max: u32, st: &mut Stats) -> Result<(), String> {
    let mut top = 0;
    let mut ks: Vec<u32> = (0..=130).collect();
    ks.extend((131..=max).step_by(23));
    for k in ks {
        let s = spin(c, k, st)?;
        top = top.max(s);
        let want = match k {
            0..=38 => 0..=0,
            39 | 40 => 1..=801,
            _ => 0..=801,
        };
        if !want.contains(&s) {
            return Err(format!("{c:?}, {k} nodes then a loop: the loop is gone around {s} times beyond finding it known, expected {want:?} (slow limit 40, fast limit at most 800)"));
        }
    }
    if top <= 300 {
        return Err(format!("{c:?}: no fast phase longer than {top} for any length to {max} (at most 800 is the default, the length is random)"));
    }
    Ok(())
}

/// Limits that are not given.
fn derived(st: &mut Stats) -> Result<(), String> {
    use graph_safe_compare::cycle_safe::modes::interleave::Params;
    type T<'c> = inst::HashT<'c, KB>;
    struct None400<'c>(std::marker::PhantomData<&'c ()>);
    impl<'c> Params for None400<'c> {
        type Node = Nd<'c, KB>;
        type Table = T<'c>;
        type RNG = EnvRng;
    }
    fn one<P: Params>(p: u16, st: &mut Stats) -> Result<(), String> {
        let got = (P::PRECHECK_LIMIT, P::FAST_LIMIT_MAX, P::SLOW_LIMIT);
        let want = (p, 2 * p, (p / 10).max(1));
        st.execs += 1;
        st.outcome(got);
        if got != want {
            return Err(format!("limits (precheck, fast, slow) are {got:?}, documented are {want:?}"));
        }
        Ok(())
    }
    one::<None400<'_>>(400, st)?;
    macro_rules! d { ($($p:literal)*) => { $( one::<IPD<T<'_>, $p>>($p, st)?; )* } }
    d!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 29 30 31 99 100 101 255 256 257 399 400 401 1000 4095 4096 9999 10000 16383 16384 32766 32767);
    Ok(())
}

fn spaces(t: Tier) -> Vec<Space> {
    let d = t.pick(7, 9);
    let d4 = t.pick(5, 6);
    let mut lo = vec![];
    for c in 0..8 {
        for h in [0i64, 1, 2, 3, 5, 41, 42] {
            for r in 0..3 {
                lo.push(vec![c, h, r]);
            }
        }
    }
    let steps = t.pick(150_000, 400_000);
    vec![
        tuples("derived", "limits derived from the precheck limit", vec![vec![0]], |_, st| derived(st)),
        tuples("premade", "premade comparisons of chains that end in a loop, at every length to 130 and every 23rd after, [comparison, to length]", vec![vec![0, t.pick(9_000, 40_000)], vec![1, t.pick(9_000, 40_000)], vec![2, t.pick(9_000, 20_000)], vec![3, t.pick(9_000, 20_000)]], move |x, st| premade(CYCS[x[0] as usize], x[1] as u32, st)),
        tuples("histories", "all histories of ordered pairs of 3 identities x all random answers; [limits,first pair]", product(&[(0, 8), (0, 5)]), move |x, st| {
            let f = x[1] as u32;
            match x[0] {
                0 => histories::<0, 1>(3, d, f, st),
                1 => histories::<1, 1>(3, d, f, st),
                2 => histories::<2, 1>(3, d, f, st),
                3 => histories::<0, 2>(3, d, f, st),
                4 => histories::<1, 2>(3, d, f, st),
                5 => histories::<2, 2>(3, d, f, st),
                6 => histories::<0, 3>(3, d, f, st),
                7 => histories::<1, 3>(3, d, f, st),
                _ => histories::<2, 3>(3, d, f, st),
            }
        }),
        tuples("histories4", "all histories of ordered pairs of 4 identities x all random answers", product(&[(0, 2), (0, 11)]), move |x, st| {
            let f = x[1] as u32;
            match x[0] {
                0 => histories::<1, 1>(4, d4, f, st),
                1 => histories::<1, 2>(4, d4, f, st),
                _ => histories::<2, 3>(4, d4, f, st),
            }
        }),
        tuples("long", "long histories with default, derived and extreme limits; [limits,repeat every,random source]", lo, move |x, st| {
            let r = [RngMode::Zero, RngMode::Max, RngMode::Seq(11)][x[2] as usize];
            let h = x[1] as usize;
            match x[0] {
                0 => long::<800, 40>(20_000, h, r, st),
                1 => long::<0, 1>(1000, h, r, st),
                2 => long::<65534, 1>(steps, h, r, st),
                3 => long::<0, 65535>(steps, h, r, st),
                4 => long::<65534, 65535>(steps, h, r, st),
                5 => long::<32767, 32768>(steps, h, r, st),
                6 => long::<255, 256>(5_000, h, r, st),
                _ => long::<20, 1>(1000, h, r, st),
            }
        }),
    ]
}

fn main() {
    gsc_mc::runner::main(Check {
        id: "W02",
        level: "model_checking",
        rule: "model: phase counters plus equivalence closure (states, counted per run of a space item); every history of branch pairs up to the depth, crossed with every answer of the random source, is replayed on the real interleave mode, comparing after every step its decision, whether it consulted the table, and what it asked of the random source",
        assumptions: &["identities 3 or 4, depth as stated per space; longer only for regular histories"],
        spaces,
    })
}
