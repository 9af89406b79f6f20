//! U03: premade random-number generators stay within the requested range and keep varying.
use core::num::NonZeroU16;
use graph_safe_compare::cycle_safe::modes::interleave::random::{self, NumberGenerator};
use gsc_mc::runner::*;

type Wy = random::wyrng::RandomNumberGenerator;
type Oo = random::oorandom::RandomNumberGenerator;
type Fa = random::fastrand::RandomNumberGenerator;

/// How the bounds of consecutive draws are chosen.
fn bounds(kind: i64, b: u16, k: u64) -> u16 {
    const MIX: [u16; 9] = [1, 2, 3, 255, 256, 801, 32768, 65534, 65535];
    match kind {
        // always the same
        0 => b,
        // alternating with 1, 2 and the greatest
        1 => [b, 1, b, 2, b, u16::MAX][(k % 6) as usize],
        // a walk over all the bounds
        2 => (k % 65535) as u16 + 1,
        3 => 65535 - (k % 65535) as u16,
        // cycling over a few, starting with b
        _ => MIX[((k + b as u64) % 9) as usize],
    }
}

/// Draw `n` numbers; every one within the range; not stuck.
fn draw<G: NumberGenerator>(kind: i64, b: u16, n: u64, st: &mut Stats) -> Result<(), String> {
    let mut g = G::default();
    run(&mut g, kind, b, n, st)
}
/// Consecutive draws that must not all be the same (for a bound above 1), and the least number of
/// distinct ones among as many (for a bound of at least 256): far from anything a varying generator gives.
const WINDOW: usize = 256;
const FEW: usize = 8;
fn run<G: NumberGenerator>(g: &mut G, kind: i64, b: u16, n: u64, st: &mut Stats) -> Result<(), String> {
    let mut win: Vec<u16> = Vec::with_capacity(WINDOW);
    for k in 0..n {
        let e = bounds(kind, b, k);
        let v = g.rand_upto(NonZeroU16::new(e).unwrap());
        if v >= e {
            return Err(format!("draw {k}: {v} for the exclusive end {e}"));
        }
        if k % (1 << 24) == 0 {
            pulse();
        }
        // Windows of numbers drawn with the same bound.
        if e == b || kind == 2 || kind == 3 {
            win.push(v);
            if win.len() == WINDOW {
                win.sort_unstable();
                win.dedup();
                if (b >= 2 && win.len() < 2) || (b >= 256 && win.len() < FEW) {
                    return Err(format!("draws up to {k}: the last {WINDOW} of them below {b} are only {win:?}"));
                }
                win.clear();
            }
        }
    }
    st.states += n;
    st.transitions += n;
    st.execs += 1;
    st.outcome((kind, b));
    Ok(())
}
/// Many draws with one bound: no short cycle is entered.
fn long<G: NumberGenerator>(b: u16, n: u64, st: &mut Stats) -> Result<(), String> {
    let mut g = G::default();
    run(&mut g, 0, b, n, st)?;
    let tail: Vec<u16> = (0..16384).map(|_| g.rand_upto(NonZeroU16::new(b).unwrap())).collect();
    if let Some(p) = (1..=4096).find(|p| (0..tail.len() - p).all(|i| tail[i] == tail[i + p])) {
        return Err(format!("after {n} draws below {b} the numbers repeat every {p} draws: {:?}", &tail[..p.min(16)]));
    }
    Ok(())
}
/// Every sequence of bounds of length `len` over these, from the default state, followed by more draws.
fn sequences<G: NumberGenerator>(first: i64, len: u32, st: &mut Stats) -> Result<(), String> {
    const B: [u16; 6] = [1, 2, 7, 801, 32769, 65535];
    for c in 0..6u32.pow(len - 1) {
        let mut g = G::default();
        let mut seq = vec![first as usize];
        let mut c = c;
        for _ in 1..len {
            seq.push((c % 6) as usize);
            c /= 6;
        }
        for (k, &s) in seq.iter().enumerate() {
            let v = g.rand_upto(NonZeroU16::new(B[s]).unwrap());
            if v >= B[s] {
                return Err(format!("bounds {:?}: draw {k} is {v}", seq.iter().map(|&s| B[s]).collect::<Vec<_>>()));
            }
        }
        run(&mut g, 0, B[seq[seq.len() - 1]], WINDOW as u64, st)?;
        st.transitions += len as u64;
    }
    Ok(())
}
/// A tight loop, to get beyond the number of values an internal 32-bit number can have.
fn whole<G: NumberGenerator>(b: u16, n: u64, st: &mut Stats) -> Result<(), String> {
    let mut g = G::default();
    let e = NonZeroU16::new(b).unwrap();
    let mut sum = 0u64;
    for k in 0..n {
        let v = g.rand_upto(e);
        if v >= b {
            return Err(format!("draw {k}: {v} for the exclusive end {b}"));
        }
        sum += v as u64;
        if k % (1 << 24) == 0 {
            pulse();
        }
    }
    st.states += n;
    st.transitions += n;
    st.execs += 1;
    st.outcome((b, sum));
    Ok(())
}
macro_rules! by_gen {
    ($gen:expr, $f:ident ( $($a:expr),* )) => {
        match $gen {
            0 => $f::<Wy>($($a),*),
            1 => $f::<Oo>($($a),*),
            2 => { fastrand::seed(0); $f::<Fa>($($a),*) }
            _ => unreachable!(),
        }
    };
}
/// fastrand's state is global to the thread and can be set: each seed.
fn seeds(lo: i64, st: &mut Stats) -> Result<(), String> {
    for s in lo * 256..lo * 256 + 256 {
        for b in [2u16, 801, 65535] {
            fastrand::seed(s as u64);
            draw::<Fa>(0, b, WINDOW as u64, st).map_err(|e| format!("seed {s}: {e}"))?;
            fastrand::seed(u64::MAX - s as u64);
            draw::<Fa>(0, b, WINDOW as u64, st).map_err(|e| format!("seed -{}: {e}", s + 1))?;
        }
    }
    Ok(())
}
/// Several instances at once do not disturb each other's range.
fn many<G: NumberGenerator>(n: u64, b: u16, st: &mut Stats) -> Result<(), String> {
    let mut gs: Vec<G> = (0..n).map(|_| G::default()).collect();
    for k in 0..4096u64 {
        let i = (k * 7 % n) as usize;
        let e = if k % 3 == 0 { b } else { (k % 65535) as u16 + 1 };
        let v = gs[i].rand_upto(NonZeroU16::new(e).unwrap());
        if v >= e {
            return Err(format!("instance {i}, draw {k}: {v} for the exclusive end {e}"));
        }
    }
    for g in &mut gs {
        run(g, 0, b, 4 * WINDOW as u64, st)?;
    }
    Ok(())
}

fn product_of(a: &[i64], b: &[i64]) -> Vec<Vec<i64>> {
    b.iter().flat_map(|y| a.iter().map(move |x| vec![*x, *y])).collect()
}
fn spaces(t: Tier) -> Vec<Space> {
    let n: u64 = t.pick(3_000, 40_000);
    let long_n: u64 = t.pick(20_000_000, 1_000_000_000);
    // Several times 2^32.
    let whole_n: u64 = t.pick(1 << 33, 1 << 35);
    let some: Vec<i64> = vec![2, 3, 4, 10, 255, 256, 257, 401, 800, 801, 802, 1000, 32767, 32768, 32769, 65534, 65535];
    let mut longs = vec![];
    for g in 0..3 {
        for &b in &some {
            longs.push(vec![g, b]);
        }
    }
    let walks = product(&[(0, 2), (2, 3)]);
    vec![
        // 256 consecutive bounds per item
        tuples("every_bound", &format!("every bound 1..=65535, {n} draws from the default state; [generator, block of 256 bounds]"), product(&[(0, 2), (0, 255)]), move |x, st| {
            for b in x[1] * 256..x[1] * 256 + 256 {
                if b > 0 {
                    by_gen!(x[0], draw(0, b as u16, n, st)).map_err(|e| format!("bound {b}: {e}"))?;
                }
            }
            Ok(())
        }),
        tuples("changing_bounds", "every bound mixed with others; [generator, kind, block of 256 bounds]", product(&[(0, 2), (0, 1), (0, 255)]), move |x, st| {
            for b in x[2] * 256..x[2] * 256 + 256 {
                if b > 0 {
                    by_gen!(x[0], draw([1, 4][x[1] as usize], b as u16, n, st)).map_err(|e| format!("bound {b}: {e}"))?;
                }
            }
            Ok(())
        }),
        tuples("walks", "all the bounds in increasing or decreasing order, repeatedly; [generator, kind]", walks, move |x, st| by_gen!(x[0], draw(x[1], 1, long_n, st))),
        tuples("long", &format!("{long_n} draws of some bounds; [generator, bound]"), longs, move |x, st| by_gen!(x[0], long(x[1] as u16, long_n, st))),
        tuples("whole", &format!("{whole_n} draws of some bounds, range only; [generator, bound]"), product_of(&[0, 1, 2], &t.pick(vec![1, 65535], vec![1, 2, 3, 256, 801, 32769, 65534, 65535])), move |x, st| by_gen!(x[0], whole(x[1] as u16, whole_n, st))),
        tuples("sequences", "every sequence of bounds to a length over six bounds; [generator, first bound]", product(&[(0, 2), (0, 5)]), move |x, st| by_gen!(x[0], sequences(x[1], t.pick(5, 7), st))),
        tuples("seeds", "fastrand from every seed in the lowest and highest blocks; [block of 256 seeds]", product(&[(0, t.pick(15, 255))]), move |x, st| seeds(x[0], st)),
        tuples("instances", "several instances used alternately; [generator, number]", product(&[(0, 2), (1, 8)]), move |x, st| {
            by_gen!(x[0], many(x[1] as u64, 801, st))?;
            by_gen!(x[0], many(x[1] as u64, 65535, st))
        }),
    ]
}

fn main() {
    gsc_mc::runner::main(Check {
        id: "U03",
        level: "model_checking",
        rule: "every bound and draw number within the listed spaces, for each of the three premade generators on the real code; each number below its bound (states: generator states visited), windows of 256 draws not (nearly) constant, no cycle of up to 4096 draws entered",
        assumptions: &["draw numbers up to the listed ones; the generators' states beyond are not reached"],
        spaces,
    })
}
