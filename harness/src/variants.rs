//! The real comparators, premade and assembled from the generic API.
use crate::choice::choose;
use crate::node::{Kind, Nd};
use crate::tables::{HashStore, InstTable, TreeStore, VecStore};
use core::num::NonZeroU16;
use graph_safe_compare as gsc;
use gsc::basic::modes::limited::{LimitReached, Limited};
use gsc::basic::modes::unlimited::Unlimited;
use gsc::basic::recursion::callstack::CallStack;
use gsc::cycle_safe::modes::interleave::{self, random::NumberGenerator, Interleave};
use gsc::deep_safe::recursion::queue::{self, RecurQueue};
use gsc::generic::equiv::{self, Equiv};
use gsc::generic::equiv_classes::{premade::hash_map, Table};
use gsc::generic::precheck_interleave;
use gsc::wide_safe::recursion::stack::{self, RecurStack};
pub use gsc::Node;
use std::cell::{Cell, RefCell};
use std::convert::Infallible;
use std::marker::PhantomData;

/// The environment's random numbers.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum RngMode {
    /// Every answer is a choice of the explorer.
    Choose,
    Zero,
    Max,
    /// A fixed multiplicative sequence.
    Seq(u32),
}
thread_local! {
    pub static RNG_MODE: Cell<RngMode> = Cell::new(RngMode::Zero);
    static SEQ: Cell<u32> = Cell::new(0);
    /// Bounds the generator was asked for, when switched on.
    pub static RNG_LOG: RefCell<Option<Vec<(u16, u16)>>> = RefCell::new(None);
}
pub fn set_rng(m: RngMode) {
    RNG_MODE.with(|r| r.set(m));
    if let RngMode::Seq(s) = m {
        SEQ.with(|x| x.set(s))
    }
}
#[derive(Default)]
pub struct EnvRng;
impl NumberGenerator for EnvRng {
    fn rand_upto(&mut self, exclusive_end: NonZeroU16) -> u16 {
        crate::tables::user();
        let n = exclusive_end.get();
        let r = match RNG_MODE.with(|r| r.get()) {
            RngMode::Choose => choose(n as u32) as u16,
            RngMode::Zero => 0,
            RngMode::Max => n - 1,
            RngMode::Seq(_) => SEQ.with(|s| {
                let v = s.get().wrapping_mul(747796405).wrapping_add(2891336453);
                s.set(v);
                ((v >> 16) % n as u32) as u16
            }),
        };
        RNG_LOG.with(|l| {
            if let Some(l) = &mut *l.borrow_mut() {
                l.push((n, r))
            }
        });
        r
    }
}

/// Which table.
pub trait Tk: 'static {
    type T<'c, K: Kind>: Table<Node = Nd<'c, K>>;
}
pub struct HmP<'c, K>(PhantomData<(&'c (), fn() -> K)>);
impl<'c, K: Kind> hash_map::Params for HmP<'c, K> {
    const INITIAL_CAPACITY: usize = 8;
    type Node = Nd<'c, K>;
}
/// The premade hash map, small.
pub struct Hm;
impl Tk for Hm {
    type T<'c, K: Kind> = hash_map::Table<HmP<'c, K>>;
}
/// The premade hash map, default capacity.
pub struct HmBig;
pub struct HmBigP<'c, K>(PhantomData<(&'c (), fn() -> K)>);
impl<'c, K: Kind> hash_map::Params for HmBigP<'c, K> {
    type Node = Nd<'c, K>;
}
impl Tk for HmBig {
    type T<'c, K: Kind> = hash_map::Table<HmBigP<'c, K>>;
}

/// Node types whose identity can be numbered.
pub mod inst {
    use super::*;
    /// A table family for kinds with `Id = u32`.
    pub type VecT<'c, K> = InstTable<Nd<'c, K>, VecStore<<K as Kind>::Id>>;
    pub type TreeT<'c, K> = InstTable<Nd<'c, K>, TreeStore<<K as Kind>::Id>>;
    pub type HashT<'c, K> = InstTable<Nd<'c, K>, HashStore<<K as Kind>::Id>>;
}

/// Interleave parameters: fast limit maximum, slow limit, precheck limit, all free.
pub struct IP<T, const F: u16, const S: u16, const P: u16>(PhantomData<T>);
impl<T: Table, const F: u16, const S: u16, const P: u16> interleave::Params for IP<T, F, S, P> {
    const PRECHECK_LIMIT: u16 = P;
    const FAST_LIMIT_MAX: u16 = F;
    const SLOW_LIMIT: u16 = S;
    type Node = T::Node;
    type Table = T;
    type RNG = EnvRng;
}
/// Only the precheck limit given; the others derived as the crate documents.
pub struct IPD<T, const P: u16>(PhantomData<T>);
impl<T: Table, const P: u16> interleave::Params for IPD<T, P> {
    const PRECHECK_LIMIT: u16 = P;
    type Node = T::Node;
    type Table = T;
    type RNG = EnvRng;
}

macro_rules! eps {
    ($($name:ident, $recur:ty, [$($extra:tt)*];)*) => { $(
        pub struct $name<I>(PhantomData<I>);
        impl<I: interleave::Params> equiv::Params for $name<I>
        where I::Table: Table<Node = I::Node>
        {
            type Node = I::Node;
            type DescendMode = Interleave<I>;
            type RecurMode = $recur;
            type Error = Infallible;
        }
        $($extra)*
    )* };
}
eps! {
    EpCall, CallStack, [];
    EpQueue, RecurQueue<QP<I::Node>>, [];
    EpStack, RecurStack<SP<I::Node>>, [];
}
pub struct QP<N>(PhantomData<N>);
impl<N: Node> queue::Params for QP<N> {
    const INITIAL_CAPACITY: usize = 2;
    type Node = N;
}
pub struct SP<N>(PhantomData<N>);
impl<N: Node> stack::Params for SP<N> {
    const INITIAL_CAPACITY: usize = 2;
    type Node = N;
}

/// Precheck + interleave, by recursion modes.
macro_rules! prechecks {
    ($($name:ident, $pre:ty, $main:ty;)*) => { $(
        pub struct $name<I>(PhantomData<I>);
        impl<N: Node, I: interleave::Params<Node = N>> precheck_interleave::Params<N> for $name<I>
        where I::Table: Table<Node = N>
        {
            type PrecheckRecurMode = $pre;
            type InterleaveRecurMode = $main;
            type InterleaveParams = I;
            type Error = Infallible;
        }
    )* };
}
prechecks! {
    PreCC, CallStack, CallStack;
    PreCQ, CallStack, RecurQueue<QP<N>>;
    PreCS, CallStack, RecurStack<SP<N>>;
    PreQQ, RecurQueue<QP<N>>, RecurQueue<QP<N>>;
    PreSS, RecurStack<SP<N>>, RecurStack<SP<N>>;
}

pub fn inter_call<N: Node, I: interleave::Params<Node = N>>(a: N, b: N) -> N::Cmp
where
    I::Table: Table<Node = N>,
{
    ok(Equiv::<EpCall<I>>::default().equiv(a, b))
}
pub fn inter_queue<N: Node, I: interleave::Params<Node = N>>(a: N, b: N) -> N::Cmp
where
    I::Table: Table<Node = N>,
{
    ok(Equiv::<EpQueue<I>>::default().equiv(a, b))
}
pub fn inter_stack<N: Node, I: interleave::Params<Node = N>>(a: N, b: N) -> N::Cmp
where
    I::Table: Table<Node = N>,
{
    ok(Equiv::<EpStack<I>>::default().equiv(a, b))
}
pub fn pre<N: Node + Clone, P: precheck_interleave::Params<N, Error = Infallible>>(a: N, b: N) -> N::Cmp {
    ok(precheck_interleave::equiv::<N, P>(a, b))
}

pub fn ok<T>(r: Result<T, Infallible>) -> T {
    match r {
        Ok(v) => v,
        Err(e) => match e {},
    }
}

/// Recursion mode.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum R {
    Call,
    Queue,
    Stack,
}
pub const RS: [R; 3] = [R::Call, R::Queue, R::Stack];
impl R {
    pub fn order(self) -> crate::refm::Order {
        if self == R::Queue { crate::refm::Order::Breadth } else { crate::refm::Order::Depth }
    }
}

pub fn inter<'c, K: Kind, T: Tk, const F: u16, const S: u16>(r: R, a: Nd<'c, K>, b: Nd<'c, K>) -> K::Cmp {
    match r {
        R::Call => inter_call::<_, IP<T::T<'c, K>, F, S, 1>>(a, b),
        R::Queue => inter_queue::<_, IP<T::T<'c, K>, F, S, 1>>(a, b),
        R::Stack => inter_stack::<_, IP<T::T<'c, K>, F, S, 1>>(a, b),
    }
}

/// (precheck mode, main mode)
pub const PRES: [(R, R); 5] = [(R::Call, R::Call), (R::Call, R::Queue), (R::Call, R::Stack), (R::Queue, R::Queue), (R::Stack, R::Stack)];
pub fn pre_inter<'c, K: Kind, I: interleave::Params<Node = Nd<'c, K>>>(r: (R, R), a: Nd<'c, K>, b: Nd<'c, K>) -> K::Cmp
where
    I::Table: Table<Node = Nd<'c, K>>,
{
    match r {
        (R::Call, R::Call) => pre::<_, PreCC<I>>(a, b),
        (R::Call, R::Queue) => pre::<_, PreCQ<I>>(a, b),
        (R::Call, R::Stack) => pre::<_, PreCS<I>>(a, b),
        (R::Queue, R::Queue) => pre::<_, PreQQ<I>>(a, b),
        (R::Stack, R::Stack) => pre::<_, PreSS<I>>(a, b),
        _ => unreachable!(),
    }
}

pub fn unlimited<N: Node>(r: R, a: N, b: N) -> N::Cmp {
    match r {
        R::Call => gsc::basic::equiv(a, b),
        R::Queue => gsc::deep_safe::equiv(a, b),
        R::Stack => gsc::wide_safe::equiv(a, b),
    }
}

macro_rules! limited_fn {
    ($($name:ident, $t:ty;)*) => { $(
        pub fn $name<N: Node>(r: R, limit: $t, a: N, b: N) -> Result<N::Cmp, LimitReached> {
            match r {
                R::Call => gsc::basic::limited_equiv(limit, a, b),
                R::Queue => gsc::deep_safe::limited_equiv(limit, a, b),
                R::Stack => gsc::wide_safe::limited_equiv(limit, a, b),
            }
        }
    )* };
}
limited_fn! { lim8, u8; lim16, u16; lim32, u32; lim64, u64; lim128, u128; limsize, usize; }

/// The four premade cycle-safe comparators.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Cyc {
    Robust,
    RobustPre,
    Cycle,
    CyclePre,
}
pub const CYCS: [Cyc; 4] = [Cyc::Robust, Cyc::RobustPre, Cyc::Cycle, Cyc::CyclePre];
pub fn cyc<N: Node + Clone>(c: Cyc, a: N, b: N) -> N::Cmp {
    match c {
        Cyc::Robust => gsc::robust::equiv(a, b),
        Cyc::RobustPre => gsc::robust::precheck_equiv(a, b),
        Cyc::Cycle => gsc::cycle_safe::equiv(a, b),
        Cyc::CyclePre => gsc::cycle_safe::precheck_equiv(a, b),
    }
}

pub type Lim<T> = Limited<T>;
pub type Unl = Unlimited;

/// A variant, chosen at run time.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum V {
    /// basic, deep-safe, wide-safe
    Unl(R),
    Lim(R, u32),
    /// Interleave, assembled: fast limit, slow limit
    I01(R),
    I11(R),
    I21(R),
    I12(R),
    I03(R),
    /// Interleave with default limits
    Dflt(R),
    /// Premade
    Cyc(Cyc),
    /// Precheck with limit 0..=3 then interleave (1,1); with 400 then defaults
    P0(usize),
    P1(usize),
    P2(usize),
    P3(usize),
    P400(usize),
}
pub fn run<'c, K: Kind>(v: V, a: Nd<'c, K>, b: Nd<'c, K>) -> Result<K::Cmp, LimitReached> {
    type H<'c, K> = <Hm as Tk>::T<'c, K>;
    Ok(match v {
        V::Unl(r) => unlimited(r, a, b),
        V::Lim(r, l) => return lim32(r, l, a, b),
        V::I01(r) => inter::<K, Hm, 0, 1>(r, a, b),
        V::I11(r) => inter::<K, Hm, 1, 1>(r, a, b),
        V::I21(r) => inter::<K, Hm, 2, 1>(r, a, b),
        V::I12(r) => inter::<K, Hm, 1, 2>(r, a, b),
        V::I03(r) => inter::<K, Hm, 0, 3>(r, a, b),
        V::Dflt(R::Call) => inter_call::<_, IPD<H<'c, K>, 400>>(a, b),
        V::Dflt(R::Queue) => inter_queue::<_, IPD<H<'c, K>, 400>>(a, b),
        V::Dflt(R::Stack) => inter_stack::<_, IPD<H<'c, K>, 400>>(a, b),
        V::Cyc(c) => cyc(c, a, b),
        V::P0(p) => pre_inter::<K, IP<H<'c, K>, 1, 1, 0>>(PRES[p], a, b),
        V::P1(p) => pre_inter::<K, IP<H<'c, K>, 1, 1, 1>>(PRES[p], a, b),
        V::P2(p) => pre_inter::<K, IP<H<'c, K>, 1, 1, 2>>(PRES[p], a, b),
        V::P3(p) => pre_inter::<K, IP<H<'c, K>, 1, 1, 3>>(PRES[p], a, b),
        V::P400(p) => pre_inter::<K, IPD<H<'c, K>, 400>>(PRES[p], a, b),
    })
}
impl V {
    /// Recursion mode of the (main) comparison.
    pub fn r(self) -> R {
        match self {
            V::Unl(r) | V::Lim(r, _) | V::I01(r) | V::I11(r) | V::I21(r) | V::I12(r) | V::I03(r) | V::Dflt(r) => r,
            V::Cyc(Cyc::Robust | Cyc::RobustPre) => R::Queue,
            V::Cyc(_) => R::Call,
            V::P0(p) | V::P1(p) | V::P2(p) | V::P3(p) | V::P400(p) => PRES[p].1,
        }
    }
    pub fn cycle_safe(self) -> bool {
        !matches!(self, V::Unl(_))
    }
    /// Can consult the random source.
    pub fn random(self) -> bool {
        matches!(self, V::I01(_) | V::I11(_) | V::I21(_) | V::I12(_) | V::I03(_) | V::P0(_) | V::P1(_) | V::P2(_) | V::P3(_))
    }
    /// Has a precheck of another order.
    pub fn mixed(self) -> bool {
        match self {
            V::P0(p) | V::P1(p) | V::P2(p) | V::P3(p) | V::P400(p) => (PRES[p].0 == R::Queue) != (PRES[p].1 == R::Queue),
            _ => false,
        }
    }
}
/// Assembled variants with small limits, all recursion modes.
pub fn small_variants() -> Vec<V> {
    let mut v = vec![];
    for r in RS {
        v.extend([V::I01(r), V::I11(r), V::I21(r), V::I12(r), V::I03(r)]);
    }
    v
}
pub fn pre_variants() -> Vec<V> {
    (0..5).flat_map(|p| [V::P0(p), V::P1(p), V::P2(p), V::P3(p)]).collect()
}
pub fn premade_variants() -> Vec<V> {
    CYCS.iter().map(|&c| V::Cyc(c)).collect()
}
pub fn unl_variants() -> Vec<V> {
    RS.iter().map(|&r| V::Unl(r)).collect()
}
