//! U04: the same exploration in each feature selection and profile.
#![allow(dead_code)]
#![cfg_attr(feature = "anticipate", feature(step_trait, never_type))]
#[path = "../../harness/src/choice.rs"]
mod choice;
#[path = "../../harness/src/graph.rs"]
mod graph;
#[path = "../../harness/src/node.rs"]
mod node;
#[path = "../../harness/src/refm.rs"]
mod refm;
#[path = "../../harness/src/runner.rs"]
mod runner;
#[path = "../../harness/src/tables.rs"]
mod tables;

use core::num::NonZeroU16;
use graph::*;
use graph_safe_compare as gsc;
use gsc::basic::modes::limited::LimitReached;
use gsc::basic::recursion::callstack::CallStack;
use gsc::cycle_safe::modes::interleave::{self, random, random::NumberGenerator, Interleave};
use gsc::generic::equiv::{self, CounterpartsResult, EdgesIter, Equiv, RecurMode};
use gsc::generic::equiv_classes::Table;
use gsc::generic::precheck_interleave;
use gsc::{Cmp, Node};
use node::*;
use refm::*;
use runner::*;
use std::collections::VecDeque;
use std::marker::PhantomData;
use tables::{InstTable, VecStore};

#[cfg(not(feature = "anticipate"))]
type Inf = core::convert::Infallible;
#[cfg(feature = "anticipate")]
type Inf = !;
fn ok<T>(r: Result<T, Inf>) -> T {
    match r {
        Ok(v) => v,
        #[allow(unreachable_code, unreachable_patterns)]
        Err(e) => match e {},
    }
}

/// Every answer is a choice of the explorer.
#[derive(Default)]
struct EnvRng;
impl NumberGenerator for EnvRng {
    fn rand_upto(&mut self, end: NonZeroU16) -> u16 {
        choice::choose(end.get() as u32) as u16
    }
}

type N<'c> = Nd<'c, KV>;
type VT<'c> = InstTable<N<'c>, VecStore<u32>>;

struct IP<T, G, const F: u16, const S: u16, const P: u16>(PhantomData<(T, G)>);
impl<T: Table, G: NumberGenerator, const F: u16, const S: u16, const P: u16> interleave::Params for IP<T, G, F, S, P> {
    const PRECHECK_LIMIT: u16 = P;
    const FAST_LIMIT_MAX: u16 = F;
    const SLOW_LIMIT: u16 = S;
    type Node = T::Node;
    type Table = T;
    type RNG = G;
}
/// Nothing but the types given.
struct IPD<T, G>(PhantomData<(T, G)>);
impl<T: Table, G: NumberGenerator> interleave::Params for IPD<T, G> {
    type Node = T::Node;
    type Table = T;
    type RNG = G;
}
struct EP<I, M>(PhantomData<(I, M)>);
macro_rules! ep { ($($m:ty;)*) => { $(
    impl<'c, I: interleave::Params<Node = N<'c>>> equiv::Params for EP<I, $m>
    where I::Table: Table<Node = N<'c>>
    {
        type Node = N<'c>;
        type DescendMode = Interleave<I>;
        type RecurMode = $m;
        type Error = Inf;
    }
)* } }
ep! { CallStack; Own<N<'c>>; }
struct PP<I, A, B>(PhantomData<(I, A, B)>);
macro_rules! pp { ($($a:ty, $b:ty;)*) => { $(
    impl<'c, I: interleave::Params<Node = N<'c>>> precheck_interleave::Params<N<'c>> for PP<I, $a, $b>
    where I::Table: Table<Node = N<'c>>
    {
        type PrecheckRecurMode = $a;
        type InterleaveRecurMode = $b;
        type InterleaveParams = I;
        type Error = Inf;
    }
)* } }
pp! { CallStack, CallStack; CallStack, Own<N<'c>>; Own<N<'c>>, Own<N<'c>>; }

/// A user-supplied recursion mode: a queue.
struct Own<X: Node>(VecDeque<EdgesIter<X>>);
impl<X: Node> Default for Own<X> {
    fn default() -> Self {
        Own(VecDeque::new())
    }
}
impl<X: Node> From<CallStack> for Own<X> {
    fn from(_: CallStack) -> Self {
        Self::default()
    }
}
impl<X: Node, P: equiv::Params<Node = X, RecurMode = Self>> RecurMode<P> for Own<X>
where
    Inf: Into<P::Error>,
{
    type Error = Inf;
    fn recur(it: &mut Equiv<P>, e: EdgesIter<X>) -> Result<X::Cmp, Inf> {
        it.recur_mode.0.push_back(e);
        Ok(X::Cmp::new_equiv())
    }
    fn next(&mut self) -> Option<CounterpartsResult<X>> {
        while let Some(f) = self.0.front_mut() {
            if let Some(x) = f.next() {
                return Some(x);
            }
            self.0.pop_front();
        }
        None
    }
    fn reset(mut self) -> Self {
        self.0.clear();
        self
    }
}

fn gen<'c, I, M>(a: N<'c>, b: N<'c>) -> Val
where
    EP<I, M>: equiv::Params<Node = N<'c>, Error = Inf>,
    <EP<I, M> as equiv::Params>::DescendMode: Default,
{
    ok(Equiv::<EP<I, M>>::default().equiv(a, b))
}

#[cfg(feature = "alloc")]
mod al {
    use super::*;
    use gsc::deep_safe::recursion::queue::{self, RecurQueue};
    use gsc::wide_safe::recursion::stack::{self, RecurStack};
    pub struct Qp<'c>(PhantomData<&'c ()>);
    impl<'c> queue::Params for Qp<'c> {
        const INITIAL_CAPACITY: usize = 0;
        type Node = N<'c>;
    }
    pub struct Qd<'c>(PhantomData<&'c ()>);
    impl<'c> queue::Params for Qd<'c> {
        type Node = N<'c>;
    }
    impl<'c> stack::Params for Qp<'c> {
        const INITIAL_CAPACITY: usize = 0;
        type Node = N<'c>;
    }
    impl<'c> stack::Params for Qd<'c> {
        type Node = N<'c>;
    }
    pp! {
        RecurQueue<Qp<'c>>, RecurQueue<Qp<'c>>;
        RecurStack<Qp<'c>>, RecurStack<Qp<'c>>;
        CallStack, RecurQueue<Qd<'c>>;
        CallStack, RecurStack<Qd<'c>>;
    }
    ep! { RecurQueue<Qp<'c>>; RecurStack<Qp<'c>>; RecurQueue<Qd<'c>>; RecurStack<Qd<'c>>; }
    pub type Q<'c> = RecurQueue<Qp<'c>>;
    pub type S<'c> = RecurStack<Qp<'c>>;
    pub type QD<'c> = RecurQueue<Qd<'c>>;
    pub type SD<'c> = RecurStack<Qd<'c>>;
}
#[cfg(feature = "std")]
mod sd {
    use super::*;
    use gsc::generic::equiv_classes::premade::hash_map;
    pub struct Hp<'c>(PhantomData<&'c ()>);
    impl<'c> hash_map::Params for Hp<'c> {
        type Node = N<'c>;
    }
    pub type HT<'c> = hash_map::Table<Hp<'c>>;
}

/// Name, order, takes cyclic graphs, the multi-way result is the reference's also for cyclic graphs,
/// asks the explorer for random numbers.
#[derive(Clone, Copy)]
struct Var {
    name: &'static str,
    order: Order,
    cyclic: bool,
    exact: bool,
    random: bool,
    f: for<'c> fn(N<'c>, N<'c>) -> Val,
}
const fn var(name: &'static str, o: u8, random: bool, f: for<'c> fn(N<'c>, N<'c>) -> Val) -> Var {
    // 0: breadth, 1: depth, 2: breadth with a precheck in depth; +10 not for cyclic
    Var { name, order: if o % 10 == 1 { Order::Depth } else { Order::Breadth }, cyclic: o < 10, exact: o % 10 == 0, random, f }
}
fn vars() -> Vec<Var> {
    #[allow(unused_mut)]
    let mut v = vec![
        var("basic", 11, false, |a, b| gsc::basic::equiv(a, b)),
        var("interleave(1,1) call", 1, true, |a, b| gen::<IP<VT, EnvRng, 1, 1, 0>, CallStack>(a, b)),
        var("interleave(0,2) call", 1, true, |a, b| gen::<IP<VT, EnvRng, 0, 2, 0>, CallStack>(a, b)),
        var("interleave(1,1) own", 0, true, |a, b| gen::<IP<VT, EnvRng, 1, 1, 0>, Own<_>>(a, b)),
        var("interleave(2,2) own", 0, true, |a, b| gen::<IP<VT, EnvRng, 2, 2, 0>, Own<_>>(a, b)),
        var("interleave(default) own", 0, false, |a, b| gen::<IPD<VT, EnvRng>, Own<_>>(a, b)),
        var("precheck 2 call, call", 1, true, |a, b| ok(precheck_interleave::equiv::<_, PP<IP<VT, EnvRng, 1, 1, 2>, CallStack, CallStack>>(a, b))),
        var("precheck 2 call, own", 2, true, |a, b| ok(precheck_interleave::equiv::<_, PP<IP<VT, EnvRng, 1, 1, 2>, CallStack, Own<_>>>(a, b))),
        var("precheck 3 own, own", 0, true, |a, b| ok(precheck_interleave::equiv::<_, PP<IP<VT, EnvRng, 1, 1, 3>, Own<_>, Own<_>>>(a, b))),
        var("precheck default own, own", 0, false, |a, b| ok(precheck_interleave::equiv::<_, PP<IPD<VT, EnvRng>, Own<_>, Own<_>>>(a, b))),
    ];
    #[cfg(feature = "alloc")]
    v.extend([
        var("deep_safe", 10, false, |a, b| gsc::deep_safe::equiv(a, b)),
        var("wide_safe", 11, false, |a, b| gsc::wide_safe::equiv(a, b)),
        var("interleave(1,1) queue", 0, true, |a, b| gen::<IP<VT, EnvRng, 1, 1, 0>, al::Q>(a, b)),
        var("interleave(1,2) stack", 1, true, |a, b| gen::<IP<VT, EnvRng, 1, 2, 0>, al::S>(a, b)),
        var("interleave(default) queue", 0, false, |a, b| gen::<IPD<VT, EnvRng>, al::QD>(a, b)),
        var("interleave(default) stack", 1, false, |a, b| gen::<IPD<VT, EnvRng>, al::SD>(a, b)),
        var("precheck 2 queue, queue", 0, true, |a, b| ok(precheck_interleave::equiv::<_, PP<IP<VT, EnvRng, 1, 1, 2>, al::Q, al::Q>>(a, b))),
        var("precheck 2 stack, stack", 1, true, |a, b| ok(precheck_interleave::equiv::<_, PP<IP<VT, EnvRng, 1, 1, 2>, al::S, al::S>>(a, b))),
        var("precheck 2 call, queue", 2, true, |a, b| ok(precheck_interleave::equiv::<_, PP<IP<VT, EnvRng, 1, 1, 2>, CallStack, al::QD>>(a, b))),
        var("precheck 2 call, stack", 1, true, |a, b| ok(precheck_interleave::equiv::<_, PP<IP<VT, EnvRng, 1, 1, 2>, CallStack, al::SD>>(a, b))),
    ]);
    macro_rules! rng { ($m:ident) => {
        v.extend([
            var(concat!(stringify!($m), " interleave(3,1) own"), 0, false, |a, b| gen::<IP<VT, random::$m::RandomNumberGenerator, 3, 1, 0>, Own<_>>(a, b)),
            var(concat!(stringify!($m), " interleave(800,40) own"), 0, false, |a, b| gen::<IPD<VT, random::$m::RandomNumberGenerator>, Own<_>>(a, b)),
            var(concat!(stringify!($m), " interleave(3,1) call"), 1, false, |a, b| gen::<IP<VT, random::$m::RandomNumberGenerator, 3, 1, 0>, CallStack>(a, b)),
        ]);
    } }
    #[cfg(feature = "wyrng")]
    rng!(wyrng);
    #[cfg(feature = "oorandom")]
    rng!(oorandom);
    #[cfg(all(feature = "fastrand", feature = "std"))]
    rng!(fastrand);
    #[cfg(feature = "std")]
    v.extend([
        var("interleave(1,1) queue, hash map", 0, true, |a, b| gen::<IP<sd::HT, EnvRng, 1, 1, 0>, al::Q>(a, b)),
        var("interleave(default generator) queue, hash map", 0, false, |a, b| gen::<IP<sd::HT, random::default::RandomNumberGenerator, 3, 1, 0>, al::Q>(a, b)),
        var("precheck 3 queue, queue, hash map", 0, true, |a, b| ok(precheck_interleave::equiv::<_, PP<IP<sd::HT, EnvRng, 1, 1, 3>, al::Q, al::Q>>(a, b))),
        var("robust", 0, false, |a, b| gsc::robust::equiv(a, b)),
        var("robust precheck", 0, false, |a, b| gsc::robust::precheck_equiv(a, b)),
        var("cycle_safe", 1, false, |a, b| gsc::cycle_safe::equiv(a, b)),
        var("cycle_safe precheck", 1, false, |a, b| gsc::cycle_safe::precheck_equiv(a, b)),
    ]);
    v
}
type LimF = for<'c> fn(u32, N<'c>, N<'c>) -> Result<Val, LimitReached>;
fn lims() -> Vec<(&'static str, Order, LimF)> {
    #[allow(unused_mut)]
    let mut v: Vec<(&'static str, Order, LimF)> = vec![
        ("basic u8", Order::Depth, |l, a, b| gsc::basic::limited_equiv(l as u8, a, b)),
        ("basic u16", Order::Depth, |l, a, b| gsc::basic::limited_equiv(l as u16, a, b)),
        ("basic u32", Order::Depth, |l, a, b| gsc::basic::limited_equiv(l, a, b)),
        ("basic u64", Order::Depth, |l, a, b| gsc::basic::limited_equiv(l as u64, a, b)),
        ("basic u128", Order::Depth, |l, a, b| gsc::basic::limited_equiv(l as u128, a, b)),
        ("basic usize", Order::Depth, |l, a, b| gsc::basic::limited_equiv(l as usize, a, b)),
    ];
    #[cfg(feature = "alloc")]
    v.extend([
        ("deep_safe u8", Order::Breadth, (|l, a, b| gsc::deep_safe::limited_equiv(l as u8, a, b)) as LimF),
        ("deep_safe u32", Order::Breadth, |l, a, b| gsc::deep_safe::limited_equiv(l, a, b)),
        ("wide_safe u8", Order::Depth, |l, a, b| gsc::wide_safe::limited_equiv(l as u8, a, b)),
        ("wide_safe usize", Order::Depth, |l, a, b| gsc::wide_safe::limited_equiv(l as usize, a, b)),
    ]);
    v
}

fn eq(v: &Val) -> bool {
    v.is_equiv()
}
fn one(g: &Graph, ra: u32, rb: u32, vs: &[Var], st: &mut Stats) -> Result<(), String> {
    let acyclic = g.is_acyclic();
    let cx = Ctx::new(g, 0, 0);
    for order in [Order::Breadth, Order::Depth] {
        let o = first(g, ra, rb, order);
        st.states += o.states;
        st.transitions += o.transitions;
        let want = Diff::val(&o.diff, g);
        for v in vs.iter().filter(|v| v.order == order && (acyclic || v.cyclic)) {
            let mut body = |st: &mut Stats| {
                cx.reset(400_000 + 6_000 * (g.max_deg() + 2) * g.n() as u64);
                let got = (v.f)(Nd::new(&cx, ra, 0), Nd::new(&cx, rb, 1));
                st.execs += 1;
                st.outcome(got);
                // With a precheck in another order the value may be another difference's.
                let same = if v.exact || (acyclic && v.order == Order::Depth) { got == want } else { eq(&got) == eq(&want) };
                if same || (eq(&got) && eq(&want)) { Ok(()) } else { Err(format!("{}: the result is {got:?}, expected {want:?}", v.name)) }
            };
            if v.random {
                match choice::explore(u32::MAX, 1 << 14, || body(st)) {
                    Ok((_, p, c)) => {
                        st.choices += p;
                        st.capped += c as u64;
                    }
                    Err((m, ch)) => return Err(format!("{m} (answers {ch:?})")),
                }
            } else {
                choice::off();
                body(st)?;
            }
        }
    }
    Ok(())
}
fn limited(g: &Graph, ls: &[(&'static str, Order, LimF)], st: &mut Stats) -> Result<(), String> {
    let cx = Ctx::new(g, 0, 0);
    for (name, order, f) in ls {
        let (o, visits) = search(g, 0, g.rb, *order, false, 40);
        let want = Diff::val(&o.diff, g);
        for l in 0..=11 {
            cx.reset(1 << 20);
            let got = f(l, Nd::new(&cx, 0, 0), Nd::new(&cx, g.rb, 1));
            st.execs += 1;
            let fits = visits.map_or(false, |v| v <= l as u64);
            match got {
                Ok(v) if fits && (v == want || eq(&v) && eq(&want)) => (),
                Err(_) if !fits => (),
                x => return Err(format!("{name} with limit {l}: the result is {:?}; the comparison visits {visits:?} pairs with the result {want:?}", x.ok())),
            }
        }
    }
    Ok(())
}

/// Whole index ranges.
macro_rules! kinds { ($($k:ident $t:ty),*) => { $(
    struct $k;
    impl Kind for $k {
        type Cmp = Val;
        type Id = u32;
        type Index = $t;
        fn cmp(a: u8, b: u8, p: u64) -> Val {
            KV::cmp(a, b, p)
        }
        fn id(i: u32) -> u32 {
            i
        }
    }
)* } }
/// An index type with three values.
#[derive(Clone, Default, PartialEq, Eq, PartialOrd, Ord)]
struct Three(u8);
impl Idx for Three {
    fn num(&self) -> i64 {
        self.0 as i64
    }
}
#[cfg(not(feature = "anticipate"))]
impl gsc::Step for Three {
    fn increment(&self) -> Option<Self> {
        (self.0 < 2).then(|| Three(self.0 + 1))
    }
}
#[cfg(feature = "anticipate")]
impl core::iter::Step for Three {
    fn steps_between(a: &Self, b: &Self) -> (usize, Option<usize>) {
        u8::steps_between(&a.0, &b.0)
    }
    fn forward_checked(a: Self, n: usize) -> Option<Self> {
        (n <= 2 && a.0 as usize + n <= 2).then(|| Three(a.0 + n as u8))
    }
    fn forward_overflowing(a: Self, n: usize) -> (Self, bool) {
        (Three(((a.0 as usize + n % 3) % 3) as u8), n > 2 || a.0 as usize + n > 2)
    }
    fn backward_overflowing(a: Self, n: usize) -> (Self, bool) {
        (Three(((a.0 as usize + 3 - n % 3) % 3) as u8), n > a.0 as usize)
    }
    fn backward_checked(a: Self, n: usize) -> Option<Self> {
        (n <= a.0 as usize).then(|| Three(a.0 - n as u8))
    }
}
kinds!(K8 u8, KI8 i8, K16 u16, KI16 i16, K3 Three);
fn wide<K: Kind<Cmp = Val, Id = u32>>(n: u32, m: u32, diff: i64, st: &mut Stats) -> Result<(), String> {
    // Node 0 with edges to leaves, node 1 with others; the leaf `diff` differs.
    let mut g = Graph::new();
    let kids: Vec<u32> = (2..n + 2).collect();
    let kids2: Vec<u32> = (n + 2..n + m + 2).collect();
    g.push(0, &kids);
    g.push(0, &kids2);
    for i in 0..n + m {
        g.push((diff >= 0 && i as i64 == n as i64 + diff) as u8, &[]);
    }
    let o = first(&g, 0, 1, Order::Breadth);
    st.states += o.states;
    st.transitions += o.transitions;
    let want = Diff::val(&o.diff, &g);
    let cx = Ctx::new(&g, 0, 0);
    let runs: &[fn(Nd<'_, K>, Nd<'_, K>) -> Val] = &[
        |a, b| gsc::basic::equiv(a, b),
        #[cfg(feature = "alloc")]
        |a, b| gsc::deep_safe::equiv(a, b),
        #[cfg(feature = "alloc")]
        |a, b| gsc::wide_safe::equiv(a, b),
        #[cfg(feature = "std")]
        |a, b| gsc::robust::equiv(a, b),
        #[cfg(feature = "std")]
        |a, b| gsc::cycle_safe::precheck_equiv(a, b),
    ];
    for (k, f) in runs.iter().enumerate() {
        cx.reset(1 << 22);
        let got = f(Nd::new(&cx, 0, 0), Nd::new(&cx, g.rb, 1));
        st.execs += 1;
        st.outcome(got);
        if got != want && !(eq(&got) && eq(&want)) {
            return Err(format!("comparison {k} of {n} and {m} edges: the result is {got:?}, expected {want:?}"));
        }
    }
    Ok(())
}

fn rngs(b: i64, st: &mut Stats) -> Result<(), String> {
    let _ = b;
    let _ = &st;
    #[allow(unused_macros)]
    macro_rules! r { ($m:ident) => {
        for e in b * 256..b * 256 + 256 {
            if e > 0 {
                let mut g = random::$m::RandomNumberGenerator::default();
                for k in 0..100 {
                    let v = g.rand_upto(NonZeroU16::new(e as u16).unwrap());
                    if v as i64 >= e {
                        return Err(format!("{}: draw {k} is {v} for the exclusive end {e}", stringify!($m)));
                    }
                }
                st.execs += 1;
            }
        }
    } }
    #[cfg(feature = "wyrng")]
    r!(wyrng);
    #[cfg(feature = "oorandom")]
    r!(oorandom);
    #[cfg(all(feature = "fastrand", feature = "std"))]
    r!(fastrand);
    Ok(())
}

fn spaces(t: Tier) -> Vec<Space> {
    let vs: &'static [Var] = vars().leak();
    let ls: &'static [(&'static str, Order, LimF)] = lims().leak();
    let det: &'static [Var] = vars().into_iter().filter(|v| !v.random).collect::<Vec<_>>().leak();
    let d = "every comparison available, every random sequence where the generator is the explorer's";
    let mut fams = vec![];
    for f in 0..FAMILIES.len() as i64 {
        for n in t.pick(vec![1i64, 2, 7, 41, 401, 900], vec![1, 2, 7, 41, 80, 401, 900, 3000]) {
            for m in [0, 1, 2, 3] {
                for at in [0, n / 2, n - 1] {
                    fams.push(vec![f, n, m, at]);
                }
            }
        }
    }
    let mut w = vec![];
    for n in 0..=3 {
        for m in 0..=3 {
            for x in -1..m {
                w.push(vec![4, n, m, x]);
            }
        }
    }
    for k in 0..4 {
        for (n, m, x) in [(255, 255, -1), (255, 255, 254), (256, 256, -1), (256, 256, 255), (255, 256, -1), (256, 255, -1), (256, 256, 0), (127, 128, -1), (128, 128, 127), (129, 128, -1), (1, 2, -1), (3, 3, 2)] {
            w.push(vec![k, n, m, x]);
        }
        if k >= 2 {
            for (n, m, x) in [(65536, 65536, -1), (65536, 65536, 65535), (65535, 65536, -1), (32768, 32768, 32767), (32768, 32769, -1)] {
                w.push(vec![k, n, m, x]);
            }
        }
    }
    vec![
        graphs("small", d, Spec::new(3, &[0, 1, 2], &[0, 1], 2), move |g, st| {
            one(g, 0, g.rb, vs, st)?;
            one(g, 0, 0, det, st)?;
            limited(g, ls, st)
        }),
        graphs("four", d, if t == Tier::Quick { Spec::new(4, &[0, 2], &[0], 2) } else { Spec::new(4, &[0, 1, 2], &[0], 2) }, move |g, st| one(g, 0, g.rb, if t == Tier::Quick { det } else { vs }, st)),
        graphs("degrees", d, Spec::new(3, &[0, 1, 3], &[0], 2), move |g, st| {
            one(g, 0, g.rb, vs, st)?;
            limited(g, ls, st)
        }),
        tuples("families", "families and mutated copies; [family,size,mutation,position]", fams, move |x, st| {
            let a = family(x[0] as usize, x[1] as u32);
            let mut b = a.clone();
            mutate(&mut b, x[2] as u32, x[3] as u32);
            let (g, rb) = side_by_side(&a, &b);
            let thin = family_is_thin(x[0] as usize) || !family_is_acyclic(x[0] as usize);
            let some: Vec<Var> = det.iter().filter(|v| v.cyclic || thin).copied().collect();
            one(&g, 0, rb, &some, st)
        }),
        tuples("index_ranges", "nodes with up to as many edges as the index type has values; [type,edges,edges,differing one]", w, move |x, st| {
            let f = [wide::<K8>, wide::<KI8>, wide::<K16>, wide::<KI16>, wide::<K3>][x[0] as usize];
            // signed types count from zero
            let top = [256, 128, 65536, 32768, 3][x[0] as usize];
            if x[1] > top || x[2] > top {
                return Ok(());
            }
            f(x[1] as u32, x[2] as u32, x[3], st)
        }),
        tuples("generators", "each premade generator available, every bound; [block of 256 bounds]", (0..256).map(|b| vec![b]).collect(), rngs_),
    ]
}
fn rngs_(x: &[i64], st: &mut Stats) -> Result<(), String> {
    rngs(x[0], st)
}

fn main() {
    runner::main(Check {
        id: "U04",
        level: "model_checking",
        rule: "each comparison available in each feature selection and profile, on every graph and random sequence within the listed spaces, against the reference search",
        assumptions: &["graphs within the bounds of each listed space"],
        spaces,
    })
}
