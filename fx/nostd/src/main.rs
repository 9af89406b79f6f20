//! U04, without std (and without alloc unless selected): the generic API with user-supplied
//! structures of fixed size, on every small graph and random sequence.  Links neither std nor, unless
//! selected, alloc; if the library did, this would not build.
#![no_std]
#![no_main]
use core::cell::Cell;
use core::convert::Infallible;
use core::marker::PhantomData;
use core::mem::MaybeUninit;
use core::num::NonZeroU16;
use core::ops::Deref;
use core::ptr::addr_of_mut;
use graph_safe_compare as gsc;
use gsc::basic::recursion::callstack::CallStack;
use gsc::cycle_safe::modes::interleave::{self, random, Interleave};
use gsc::generic::equiv::{self, CounterpartsResult, EdgesIter, Equiv, RecurMode};
use gsc::generic::equiv_classes::{Class, Rc as RcTrait, Table};
use gsc::generic::precheck_interleave;
use gsc::Node;

#[link(name = "c")]
extern "C" {
    fn write(fd: i32, p: *const u8, n: usize) -> isize;
    fn abort() -> !;
    #[cfg(feature = "alloc")]
    fn malloc(n: usize) -> *mut u8;
    #[cfg(feature = "alloc")]
    fn free(p: *mut u8);
}
// The unwinder referred to by the precompiled core.
#[link(name = "gcc_s")]
extern "C" {}
#[panic_handler]
fn panic(_: &core::panic::PanicInfo) -> ! {
    say("panic\n");
    unsafe { abort() }
}
#[no_mangle]
extern "C" fn rust_eh_personality() {}
#[no_mangle]
extern "C" fn _Unwind_Resume() {}
fn say(s: &str) {
    unsafe { write(1, s.as_ptr(), s.len()) };
}
fn num(mut n: u64) {
    let mut b = [0u8; 20];
    let mut i = 20;
    loop {
        i -= 1;
        b[i] = b'0' + (n % 10) as u8;
        n /= 10;
        if n == 0 {
            break;
        }
    }
    unsafe { write(1, b[i..].as_ptr(), 20 - i) };
}
#[cfg(feature = "alloc")]
struct Malloc;
#[cfg(feature = "alloc")]
unsafe impl core::alloc::GlobalAlloc for Malloc {
    unsafe fn alloc(&self, l: core::alloc::Layout) -> *mut u8 {
        malloc(l.size().max(1))
    }
    unsafe fn dealloc(&self, p: *mut u8, _: core::alloc::Layout) {
        free(p)
    }
}
#[cfg(feature = "alloc")]
#[global_allocator]
static A: Malloc = Malloc;

/// Up to four nodes: label, degree, targets.
pub type G = [(u8, u8, [u8; 2]); 4];
fn graph(n: u32, mut code: u32) -> G {
    let mut g = [(0, 0, [0; 2]); 4];
    for x in &mut g[..n as usize] {
        let radix = 2 * (1 + n + n * n);
        let c = code % radix;
        code /= radix;
        x.0 = (c % 2) as u8;
        let c = c / 2;
        if c > n {
            let c = c - n - 1;
            (x.1, x.2) = (2, [(c / n) as u8, (c % n) as u8]);
        } else if c > 0 {
            (x.1, x.2[0]) = (1, (c - 1) as u8);
        }
    }
    g
}
fn acyclic(g: &G) -> bool {
    // Is some node on a cycle?
    let mut r = [[false; 4]; 4];
    for i in 0..4 {
        for k in 0..g[i].1 {
            r[i][g[i].2[k as usize] as usize] = true;
        }
    }
    for k in 0..4 {
        for i in 0..4 {
            for j in 0..4 {
                r[i][j] |= r[i][k] && r[k][j];
            }
        }
    }
    // Only what the roots reach matters; that is everything compared.
    !(0..4).any(|i| r[i][i])
}
/// The greatest bisimulation.
fn want(g: &G) -> bool {
    let mut e = [[true; 4]; 4];
    loop {
        let mut changed = false;
        for i in 0..4 {
            for j in 0..4 {
                if i != j && e[i][j] {
                    let (x, y) = (&g[i], &g[j]);
                    let same = x.0 == y.0 && x.1 == y.1 && (0..x.1 as usize).all(|k| e[x.2[k] as usize][y.2[k] as usize]);
                    if !same {
                        e[i][j] = false;
                        changed = true;
                    }
                }
            }
        }
        if !changed {
            return e[0][1];
        }
    }
}

#[derive(Clone)]
pub struct Nd<'g>(&'g G, u8);
impl<'g> Node for Nd<'g> {
    type Cmp = bool;
    type Id = u8;
    type Index = u8;
    fn id(&self) -> u8 {
        self.1
    }
    fn get_edge(&self, i: &u8) -> Option<Self> {
        let n = &self.0[self.1 as usize];
        if *i < n.1 { Some(Nd(self.0, n.2[*i as usize])) } else { None }
    }
    fn equiv_modulo_edges(&self, o: &Self) -> bool {
        self.0[self.1 as usize].0 == self.0[o.1 as usize].0
    }
}

/// Classes in a fixed arena, reset before each comparison.
const ARENA: usize = 16;
static mut CELLS: [MaybeUninit<Cell<Class<R>>>; ARENA] = [const { MaybeUninit::uninit() }; ARENA];
static mut USED: usize = 0;
#[derive(Clone)]
struct R(usize);
impl Deref for R {
    type Target = Cell<Class<R>>;
    fn deref(&self) -> &Self::Target {
        unsafe { (*addr_of_mut!(CELLS))[self.0].assume_init_ref() }
    }
}
impl RcTrait for R {
    fn new(v: Cell<Class<Self>>) -> Self {
        unsafe {
            let i = USED;
            USED += 1;
            if i >= ARENA {
                panic!();
            }
            (*addr_of_mut!(CELLS))[i].write(v);
            R(i)
        }
    }
}
struct T<'g>([Option<R>; 4], PhantomData<&'g ()>);
impl<'g> Default for T<'g> {
    fn default() -> Self {
        T([None, None, None, None], PhantomData)
    }
}
impl<'g> Table for T<'g> {
    type Node = Nd<'g>;
    type Rc = R;
    fn get(&self, k: &u8) -> Option<&R> {
        self.0[*k as usize].as_ref()
    }
    fn insert(&mut self, k: u8, v: R) {
        self.0[k as usize] = Some(v)
    }
}

/// The random numbers: bits of this, then zeros.
static mut BITS: u32 = 0;
#[derive(Default)]
struct Bits;
impl random::NumberGenerator for Bits {
    fn rand_upto(&mut self, end: NonZeroU16) -> u16 {
        unsafe {
            let b = BITS & 1;
            BITS >>= 1;
            (b as u16).min(end.get() - 1)
        }
    }
}

struct P<'g, X, const F: u16, const S: u16, const L: u16>(PhantomData<(&'g (), X)>);
impl<'g, X: random::NumberGenerator, const F: u16, const S: u16, const L: u16> interleave::Params for P<'g, X, F, S, L> {
    const PRECHECK_LIMIT: u16 = L;
    const FAST_LIMIT_MAX: u16 = F;
    const SLOW_LIMIT: u16 = S;
    type Node = Nd<'g>;
    type Table = T<'g>;
    type RNG = X;
}
struct E<I, M>(PhantomData<(I, M)>);
struct PE<I, A, B>(PhantomData<(I, A, B)>);
macro_rules! modes { ($($m:ty;)*) => { $(
    impl<'g, I: interleave::Params<Node = Nd<'g>, Table = T<'g>>> equiv::Params for E<I, $m> {
        type Node = Nd<'g>;
        type DescendMode = Interleave<I>;
        type RecurMode = $m;
        type Error = Infallible;
    }
    impl<'g, I: interleave::Params<Node = Nd<'g>, Table = T<'g>>> precheck_interleave::Params<Nd<'g>> for PE<I, CallStack, $m> {
        type PrecheckRecurMode = CallStack;
        type InterleaveRecurMode = $m;
        type InterleaveParams = I;
        type Error = Infallible;
    }
)* } }
modes! { CallStack; Q<Nd<'g>>; }

/// A user-supplied queue of fixed size.
struct Q<N: Node>([Option<EdgesIter<N>>; 64], usize, usize);
impl<N: Node> Default for Q<N> {
    fn default() -> Self {
        Q([const { None }; 64], 0, 0)
    }
}
impl<N: Node> From<CallStack> for Q<N> {
    fn from(_: CallStack) -> Self {
        Self::default()
    }
}
impl<N: Node, X: equiv::Params<Node = N, RecurMode = Self>> RecurMode<X> for Q<N>
where
    Infallible: Into<X::Error>,
{
    type Error = Infallible;
    fn recur(it: &mut Equiv<X>, e: EdgesIter<N>) -> Result<N::Cmp, Infallible> {
        let q = &mut it.recur_mode;
        q.0[q.2 % 64] = Some(e);
        q.2 += 1;
        if q.2 - q.1 > 64 {
            panic!();
        }
        Ok(gsc::Cmp::new_equiv())
    }
    fn next(&mut self) -> Option<CounterpartsResult<N>> {
        while self.1 < self.2 {
            if let Some(e) = &mut self.0[self.1 % 64] {
                if let Some(x) = e.next() {
                    return Some(x);
                }
            }
            self.0[self.1 % 64] = None;
            self.1 += 1;
        }
        None
    }
    fn reset(self) -> Self {
        Self::default()
    }
}

#[cfg(feature = "alloc")]
mod al {
    use super::*;
    use gsc::deep_safe::recursion::queue::{self, RecurQueue};
    use gsc::wide_safe::recursion::stack::{self, RecurStack};
    pub struct X<'g>(PhantomData<&'g ()>);
    impl<'g> queue::Params for X<'g> {
        type Node = Nd<'g>;
    }
    impl<'g> stack::Params for X<'g> {
        type Node = Nd<'g>;
    }
    pub type RQ<'g> = RecurQueue<X<'g>>;
    pub type RS<'g> = RecurStack<X<'g>>;
    modes! { RecurQueue<X<'g>>; RecurStack<X<'g>>; }
}

fn ok(r: Result<bool, Infallible>) -> bool {
    match r {
        Ok(v) => v,
        Err(e) => match e {},
    }
}
type Cmpr = for<'g> fn(Nd<'g>, Nd<'g>) -> bool;
fn inter<'g, X, M, const F: u16, const S: u16>(a: Nd<'g>, b: Nd<'g>) -> bool
where
    E<P<'g, X, F, S, 1>, M>: equiv::Params<Node = Nd<'g>, Error = Infallible>,
    <E<P<'g, X, F, S, 1>, M> as equiv::Params>::DescendMode: Default,
{
    ok(Equiv::<E<P<'g, X, F, S, 1>, M>>::default().equiv(a, b))
}
fn pre<'g, M, const L: u16>(a: Nd<'g>, b: Nd<'g>) -> bool
where
    PE<P<'g, Bits, 1, 1, L>, CallStack, M>: precheck_interleave::Params<Nd<'g>, Error = Infallible>,
{
    ok(precheck_interleave::equiv::<_, PE<P<'g, Bits, 1, 1, L>, CallStack, M>>(a, b))
}
/// Comparisons for all graphs.
static ALL: &[Cmpr] = &[
    |a, b| inter::<Bits, CallStack, 1, 1>(a, b),
    |a, b| inter::<Bits, CallStack, 0, 2>(a, b),
    |a, b| inter::<Bits, Q<_>, 1, 1>(a, b),
    |a, b| inter::<Bits, Q<_>, 1, 2>(a, b),
    |a, b| pre::<CallStack, 0>(a, b),
    |a, b| pre::<CallStack, 3>(a, b),
    |a, b| pre::<Q<_>, 1>(a, b),
    |a, b| pre::<Q<_>, 2>(a, b),
    #[cfg(feature = "alloc")]
    |a, b| inter::<Bits, al::RQ, 1, 1>(a, b),
    #[cfg(feature = "alloc")]
    |a, b| inter::<Bits, al::RS, 1, 1>(a, b),
    #[cfg(feature = "alloc")]
    |a, b| pre::<al::RQ, 2>(a, b),
    #[cfg(feature = "alloc")]
    |a, b| pre::<al::RS, 2>(a, b),
    #[cfg(feature = "wyrng")]
    |a, b| inter::<random::wyrng::RandomNumberGenerator, Q<_>, 2, 1>(a, b),
    #[cfg(feature = "oorandom")]
    |a, b| inter::<random::oorandom::RandomNumberGenerator, Q<_>, 2, 1>(a, b),
];
/// For acyclic ones.
static DAG: &[Cmpr] = &[
    |a, b| gsc::basic::equiv(a, b),
    |a, b| gsc::basic::limited_equiv(200u8, a, b).unwrap_or(false),
    #[cfg(feature = "alloc")]
    |a, b| gsc::deep_safe::equiv(a, b),
    #[cfg(feature = "alloc")]
    |a, b| gsc::wide_safe::equiv(a, b),
    #[cfg(feature = "alloc")]
    |a, b| gsc::deep_safe::limited_equiv(200u16, a, b).unwrap_or(false),
    #[cfg(feature = "alloc")]
    |a, b| gsc::wide_safe::limited_equiv(200u64, a, b).unwrap_or(false),
];

#[no_mangle]
pub extern "C" fn main(argc: i32, _: *const *const u8) -> i32 {
    let (mut items, mut runs) = (0u64, 0u64);
    let n = if argc > 1 { 4 } else { 3u32 };
    let radix = 2 * (1 + n + n * n);
    for code in 0..radix.pow(n) {
        let g = graph(n, code);
        let w = want(&g);
        let dag = acyclic(&g);
        items += 1;
        for bits in 0..16u32 {
            for (which, fs) in [ALL, DAG].into_iter().enumerate() {
                if which == 1 && (!dag || bits > 0) {
                    continue;
                }
                for (k, f) in fs.iter().enumerate() {
                    unsafe {
                        BITS = bits;
                        USED = 0;
                    }
                    runs += 1;
                    if f(Nd(&g, 0), Nd(&g, 1)) != w {
                        say("differs: graph ");
                        num(code as u64);
                        say(" of nodes ");
                        num(n as u64);
                        say(" random bits ");
                        num(bits as u64);
                        say(if which == 0 { " comparison " } else { " acyclic comparison " });
                        num(k as u64);
                        say("\n");
                        return 1;
                    }
                }
            }
        }
    }
    say("held items=");
    num(items);
    say(" executions=");
    num(runs);
    say("\n");
    0
}
