//! C03: edges are compared over the whole range of the index type.
use graph_safe_compare::{Cmp, Step};
use gsc_mc::graph::*;
use gsc_mc::node::*;
use gsc_mc::refm::*;
use gsc_mc::runner::*;
use gsc_mc::util::*;
use gsc_mc::variants::*;
use std::cell::Cell;
use std::marker::PhantomData;

/// A kind with a given index type.
struct KI<T>(PhantomData<T>);
impl<T: Idx> Kind for KI<T> {
    type Cmp = Val;
    type Id = u32;
    type Index = T;
    fn cmp(a: u8, b: u8, p: u64) -> Val {
        KV::cmp(a, b, p)
    }
    fn id(i: u32) -> u32 {
        i
    }
}

/// An index whose behaviour is chosen at run time.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum Dyn {
    /// User-defined, with exactly that many values.
    Small(u8, u8),
    /// User-defined, counting down from 9 by threes.
    Down(u8),
    U8(u8),
    I8(i8),
    U16(u16),
    I16(i16),
    U32(u32),
    I32(i32),
    U64(u64),
    I64(i64),
    Us(usize),
    Is(isize),
    U128(u128),
    I128(i128),
}
thread_local! {
    static START: Cell<Dyn> = Cell::new(Dyn::U8(0));
}
fn start(d: Dyn) {
    START.with(|s| s.set(d))
}
impl Default for Dyn {
    fn default() -> Self {
        START.with(|s| s.get())
    }
}
macro_rules! each { ($($v:ident)*) => {
    impl Step for Dyn {
        fn increment(&self) -> Option<Self> {
            match *self {
                Dyn::Small(m, x) => if x + 1 < m { Some(Dyn::Small(m, x + 1)) } else { None },
                Dyn::Down(x) => x.checked_sub(3).map(Dyn::Down),
                $(Dyn::$v(x) => x.increment().map(Dyn::$v),)*
            }
        }
    }
    impl Idx for Dyn {
        fn num(&self) -> i64 {
            match (*self, Dyn::default()) {
                (Dyn::Small(_, x), _) => x as i64,
                (Dyn::Down(x), _) => (9 - x as i64) / 3,
                $((Dyn::$v(x), Dyn::$v(z)) => x.wrapping_sub(z) as i64,)*
                _ => panic!("an index of another type"),
            }
        }
    }
} }
each! { U8 I8 U16 I16 U32 I32 U64 I64 Us Is U128 I128 }
/// The last k + 1 values of a type; the values from the default on; from k before it on.
fn starts() -> [[Dyn; 5]; 12] {
    macro_rules! s { ($v:ident $t:ty) => { [Dyn::$v(<$t>::MAX), Dyn::$v(<$t>::MAX - 1), Dyn::$v(<$t>::MAX - 5), Dyn::$v(0), Dyn::$v((0 as $t).saturating_sub(3))] } }
    [s!(U8 u8), s!(I8 i8), s!(U16 u16), s!(I16 i16), s!(U32 u32), s!(I32 i32), s!(U64 u64), s!(I64 i64), s!(Us usize), s!(Is isize), s!(U128 u128), s!(I128 i128)]
}

fn one<K: Kind<Cmp = Val>>(g: &Graph, ra: u32, rb: u32, v: V, want: &Val, st: &mut Stats) -> Result<(), String> {
    let cx = Ctx::new(g, 0, M_PROTO | M_PAIRS);
    let f = |st: &mut Stats| {
        cx.reset(4_000_000 + budget(g));
        st.execs += 1;
        let got = match run::<K>(v, nd::<K>(&cx, ra, 0), nd(&cx, rb, 1)) {
            Ok(c) => c,
            Err(_) => return Err(format!("{v:?}: the limit was reached")),
        };
        cx.result().map_err(|m| format!("{v:?}: {m}"))?;
        if got.is_equiv() != want.is_equiv() {
            return Err(format!("{v:?}: the result is {got:?}, want {want:?}"));
        }
        if matches!(v, V::Unl(_) | V::Lim(..)) && !got.is_equiv() && got != *want {
            return Err(format!("{v:?}: the result is {got:?}, want {want:?}"));
        }
        Ok(())
    };
    if v.random() {
        all_rng(st, f)
    } else {
        let f = f;
        f(st)
    }
}
fn all<K: Kind<Cmp = Val>>(g: &Graph, ra: u32, rb: u32, vs: &[V], st: &mut Stats) -> Result<(), String> {
    let acyclic = g.is_acyclic();
    let (b, d) = (first(g, ra, rb, Order::Breadth), first(g, ra, rb, Order::Depth));
    st.states += b.states;
    st.transitions += b.transitions;
    st.outcome((b.diff, d.diff));
    let (wb, wd) = (Diff::val(&b.diff, g), Diff::val(&d.diff, g));
    for &v in vs {
        if let V::Unl(_) | V::Lim(..) = v {
            if !acyclic {
                continue;
            }
        }
        one::<K>(g, ra, rb, v, if v.r() == R::Queue { &wb } else { &wd }, st)?;
    }
    Ok(())
}
fn vs() -> Vec<V> {
    let mut v = unl_variants();
    for r in RS {
        v.extend([V::I11(r), V::I01(r), V::Lim(r, 1 << 30)]);
    }
    v.extend([V::P0(0), V::P2(1), V::P2(3), V::P3(4), V::Cyc(Cyc::Robust), V::Cyc(Cyc::CyclePre)]);
    v
}
fn few() -> Vec<V> {
    let mut v = unl_variants();
    v.extend([V::Cyc(Cyc::Robust), V::Cyc(Cyc::Cycle), V::Dflt(R::Stack), V::Cyc(Cyc::RobustPre)]);
    v
}

/// [edges a, edges b, position of a different child or -1, chain length (0: none)]
fn star(x: &[i64], tail_last: bool) -> (Graph, u32) {
    let mk = |n: i64, diff: i64, links: i64| {
        let n = n as u32;
        let mut v: Vec<(u8, Vec<u32>)> = vec![];
        // heads 0..links, then leaf, then different leaf
        let (leaf, other) = (links as u32 + 1, links as u32 + 2);
        for h in 0..=links {
            let last = h == links;
            let mut e: Vec<u32> = vec![leaf; n as usize];
            if last && diff >= 0 {
                e[diff as usize] = other;
            }
            if !last && n > 0 {
                let at = if tail_last { n as usize - 1 } else { 0 };
                e[at] = h as u32 + 1;
            }
            v.push((0, e));
        }
        v.push((0, vec![]));
        v.push((1, vec![]));
        v
    };
    side_by_side(&mk(x[0], -1, x[3]), &mk(x[1], x[2], x[3]))
}
fn stars<K: Kind<Cmp = Val>>(x: &[i64], v: &[V], st: &mut Stats) -> Result<(), String> {
    let (g, rb) = star(x, true);
    all::<K>(&g, 0, rb, v, st)?;
    if x[3] > 0 {
        let (g, rb) = star(x, false);
        all::<K>(&g, 0, rb, v, st)?;
    }
    Ok(())
}
/// Shapes for an index type with `r` values.
fn shapes(r: i64, lens: &[i64], every: bool, links: &[i64]) -> Vec<Vec<i64>> {
    let mut o = vec![];
    for &l in links {
        for &a in lens {
            for &b in lens {
                if a > r || b > r || (l > 0 && (a == 0 || b == 0)) {
                    continue;
                }
                o.push(vec![a, b, -1, l]);
                if a == b || !every {
                    let n = b;
                    let ps: Vec<i64> = if every { (0..n).collect() } else { vec![0, 1, n / 2, n - 2, n - 1] };
                    let mut ps: Vec<i64> = ps.into_iter().filter(|p| *p >= 0 && *p < n).collect();
                    ps.dedup();
                    for p in ps {
                        o.push(vec![a, b, p, l]);
                    }
                }
            }
        }
    }
    o
}
fn range(a: i64, b: i64) -> Vec<i64> {
    (a..=b).collect()
}

macro_rules! incs {
    ($st:ident $($t:ty)*) => { $(
        let mut vals: Vec<$t> = vec![];
        if <$t>::BITS <= 16 {
            let mut x = <$t>::MIN;
            loop {
                vals.push(x);
                if x == <$t>::MAX { break }
                x += 1;
            }
        } else {
            // around every power of two, both ends
            for k in 0..<$t>::BITS {
                let p = (1 as $t).wrapping_shl(k);
                for d in 0..3 {
                    vals.push(p.wrapping_add(d));
                    vals.push(p.wrapping_sub(d));
                    vals.push((0 as $t).wrapping_sub(p).wrapping_add(d));
                    vals.push((0 as $t).wrapping_sub(p).wrapping_sub(d));
                }
            }
        }
        for x in vals {
            let want = if x == <$t>::MAX { None } else { Some(x + 1) };
            let got = Step::increment(&x);
            $st.execs += 1;
            $st.states += 1;
            $st.transitions += 1;
            if got != want {
                return Err(format!("{}: increment of {x} is {got:?}", stringify!($t)));
            }
        }
    )* };
}

fn spaces(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    let mut v = vec![];
    v.push(tuples("increments", "Step::increment of every value of the 8- and 16-bit types, and around every power of two of the wider ones", vec![vec![0]], |_, st| {
        incs!(st u8 i8 u16 i16 u32 i32 u64 i64 usize isize u128 i128);
        Ok(())
    }));
    fn custom(d: Dyn) -> impl Fn(&Graph, &mut Stats) -> Result<(), String> + Send + Sync + 'static {
        let vv = vs();
        move |g, st| {
            start(d);
            all::<KI<Dyn>>(g, 0, g.rb, &vv, st)
        }
    }
    v.push(graphs("one_value", "user-defined index type", Spec::new(5, &[0, 1], &[0, 1], 2), custom(Dyn::Small(1, 0))));
    v.push(graphs("two_values", "user-defined index type", Spec::new(3, &[0, 1, 2], &[0, 1], 2), custom(Dyn::Small(2, 0))));
    v.push(graphs("two_values_four", "user-defined index type", Spec::new(4, &[0, 1, 2], &[0], 2), custom(Dyn::Small(2, 0))));
    v.push(graphs("three_values", "user-defined index type", Spec::new(3, &[0, 1, 2, 3], &[0], 2), custom(Dyn::Small(3, 0))));
    v.push(graphs("three_values_labels", "user-defined index type", Spec::new(3, &[0, 2, 3], &[0, 1], 2), custom(Dyn::Small(3, 0))));
    v.push(graphs("four_values", "user-defined index type", Spec::new(3, &[0, 4], &[0], 2), custom(Dyn::Small(4, 0))));
    v.push(graphs("four_values_two", "user-defined index type", Spec::new(2, &[0, 1, 3, 4], &[0, 1], 2), custom(Dyn::Small(4, 0))));
    v.push(graphs("counting_down", "user-defined index type", Spec::new(2, &[0, 3, 4], &[0, 1], 2), custom(Dyn::Down(9))));
    v.push(graphs("counting_down_three", "user-defined index type", Spec::new(3, &[0, 1, 4], &[0], 2), custom(Dyn::Down(9))));
    if !q {
        v.push(graphs("one_value_six", "user-defined index type", Spec::new(7, &[0, 1], &[0, 1], 2), custom(Dyn::Small(1, 0))));
        v.push(graphs("two_values_four_labels", "user-defined index type", Spec::new(4, &[0, 1, 2], &[0, 1], 2), custom(Dyn::Small(2, 0))));
        v.push(graphs("four_values_some", "user-defined index type", Spec::new(3, &[0, 3, 4], &[0], 2), custom(Dyn::Small(4, 0))));
        v.push(graphs("four_values_all", "user-defined index type", Spec::new(3, &[0, 1, 2, 3, 4], &[0], 2), custom(Dyn::Small(4, 0))));
        v.push(graphs("counting_down_labels", "user-defined index type", Spec::new(3, &[0, 1, 4], &[0, 1], 2), custom(Dyn::Down(9))));
    }
    // the ends of every primitive type
    let vv = vs();
    let list: Vec<Vec<i64>> = (0..12).flat_map(|k| shapes(6, &range(0, 6), false, &[0, 2]).into_iter().map(move |mut x| { x.push(k); x })).collect();
    v.push(tuples("ends", "the last 1, 2 and 6 values of each primitive type, those from its default, and from before: [edges, edges, different position, chain, type]", list, move |x, st| {
        for (j, s) in starts()[x[4] as usize].into_iter().enumerate() {
            let room = [1, 2, 6, 6, 6][j];
            if x[0] <= room && x[1] <= room {
                start(s);
                stars::<KI<Dyn>>(x, &vv, st)?;
            }
        }
        Ok(())
    }));
    // whole ranges
    let f = few();
    v.push(tuples("i8_all", "every pair of edge amounts and every different position: [edges, edges, different position, chain]", shapes(128, &range(0, 128), true, &[0]), {
        let f = f.clone();
        move |x, st| stars::<KI<i8>>(x, &f, st)
    }));
    let u8lens = if q { let mut l = range(0, 3); l.extend([127, 128, 129]); l.extend(range(250, 256)); l } else { range(0, 256) };
    v.push(tuples("u8_all", "as above", shapes(256, &u8lens, true, &[0]), {
        let f = f.clone();
        move |x, st| stars::<KI<u8>>(x, &f, st)
    }));
    v.push(tuples("u8_chain", "lists whose tail is the first or the last edge", shapes(256, &[1, 2, 255, 256], true, &[1, 3]), {
        let f = f.clone();
        move |x, st| stars::<KI<u8>>(x, &f, st)
    }));
    v.push(tuples("i16_ends", "amounts and positions around the ends", shapes(32768, &[0, 1, 32766, 32767, 32768], false, &[0, 1]), {
        let f = f.clone();
        move |x, st| { start(Dyn::I16(0)); stars::<KI<Dyn>>(x, &f, st) }
    }));
    v.push(tuples("u16_ends", "amounts and positions around the ends", shapes(65536, &[0, 1, 32768, 65534, 65535, 65536], false, &[0, 1]), {
        let f = f.clone();
        move |x, st| { start(Dyn::U16(0)); stars::<KI<Dyn>>(x, &f, st) }
    }));
    if !q {
        v.push(tuples("i16_positions", "every different position", (0..32768).step_by(1).map(|p| vec![32768, 32768, p, 0]).collect(), {
            move |x, st| { start(Dyn::I16(0)); stars::<KI<Dyn>>(x, &[V::Unl(R::Queue), V::Unl(R::Stack), V::Unl(R::Call)], st) }
        }));
        v.push(tuples("i16_amounts", "every amount against the whole range, both ways", (0..32768).flat_map(|p| [vec![32768, p, -1, 0], vec![p, 32768, -1, 0]]).collect(), {
            move |x, st| { start(Dyn::I16(0)); stars::<KI<Dyn>>(x, &[V::Unl(R::Queue), V::Unl(R::Call)], st) }
        }));
    }
    v
}

fn main() {
    gsc_mc::runner::main(Check {
        id: "C03",
        level: "model_checking",
        rule: "every pair of edge amounts, and every position of a difference, over the whole range of the index types (whole 8-bit, user-defined types of 1 to 4 values, both ends of all others); every callback is monitored for indexes out of order; results compared with the reference search",
        assumptions: &["for 32-bit and wider types only the ends of the range and the first indexes are explored"],
        spaces,
    })
}
