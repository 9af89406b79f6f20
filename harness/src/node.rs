//! The instrumented node type: a node of an explicit finite graph, whose callbacks are counted,
//! monitored, budgeted and (optionally) hooked.
use crate::graph::Graph;
pub use core::cmp::Ordering;
#[cfg(not(feature = "anticipate"))]
use graph_safe_compare::Step;
#[cfg(feature = "anticipate")]
use std::iter::Step;
use graph_safe_compare::{Cmp, Node};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::marker::PhantomData;

/// Thrown when a comparison makes more callbacks than any correct one could.
pub struct Budget;

pub const IRREFLEXIVE: u8 = 255;
#[inline]
pub fn lab_eq(a: u8, b: u8) -> bool {
    a == b && a != IRREFLEXIVE
}

/// A rich comparison value: carries where it came from.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Val {
    Equiv,
    Lab(u8, u8, u64),
    Ord(Ordering),
}
impl Cmp for Val {
    fn new_equiv() -> Self {
        Val::Equiv
    }
    fn is_equiv(&self) -> bool {
        matches!(self, Val::Equiv | Val::Ord(Ordering::Equal))
    }
    fn from_ord(ord: Ordering) -> Self {
        Val::Ord(ord)
    }
}

pub trait Idx: Step + Default + Ord + 'static {
    fn num(&self) -> i64;
}
macro_rules! idx { ($($t:ty)*) => { $(impl Idx for $t { #[inline] fn num(&self) -> i64 { *self as i64 } })* } }
idx! { u8 i8 u16 i16 u32 i32 u64 i64 usize isize u128 i128 }

pub trait Kind: 'static {
    type Cmp: Cmp + Clone + PartialEq + Debug;
    type Id: Eq + Hash + Clone + Debug;
    type Index: Idx;
    fn cmp(la: u8, lb: u8, path: u64) -> Self::Cmp;
    fn id(i: u32) -> Self::Id;
}

/// Plain boolean equivalence.
pub struct KB;
impl Kind for KB {
    type Cmp = bool;
    type Id = u32;
    type Index = u32;
    #[inline]
    fn cmp(a: u8, b: u8, _: u64) -> bool {
        lab_eq(a, b)
    }
    #[inline]
    fn id(i: u32) -> u32 {
        i
    }
}
/// Ordering of labels.
pub struct KO;
impl Kind for KO {
    type Cmp = Ordering;
    type Id = u32;
    type Index = u32;
    #[inline]
    fn cmp(a: u8, b: u8, _: u64) -> Ordering {
        a.cmp(&b)
    }
    #[inline]
    fn id(i: u32) -> u32 {
        i
    }
}
/// Rich values.
pub struct KV;
impl Kind for KV {
    type Cmp = Val;
    type Id = u32;
    type Index = u32;
    #[inline]
    fn cmp(a: u8, b: u8, p: u64) -> Val {
        if lab_eq(a, b) { Val::Equiv } else { Val::Lab(a, b, p) }
    }
    #[inline]
    fn id(i: u32) -> u32 {
        i
    }
}
/// Identities that all hash alike.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Collide(pub u32);
impl Hash for Collide {
    fn hash<H: Hasher>(&self, h: &mut H) {
        h.write_u8(7)
    }
}
pub struct KC;
impl Kind for KC {
    type Cmp = bool;
    type Id = Collide;
    type Index = u32;
    #[inline]
    fn cmp(a: u8, b: u8, _: u64) -> bool {
        lab_eq(a, b)
    }
    #[inline]
    fn id(i: u32) -> Collide {
        Collide(i)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ev {
    /// identity of a node asked
    Id(u32),
    /// value comparison of two nodes, about to be made
    Cmp(u32, u32),
    /// edge asked
    Edge(u32, i64),
    /// Node cloned
    Clone(u32),
    /// Node dropped (with `M_DROP`)
    Drop(u32),
}

pub const M_PROTO: u32 = 1; // index protocol (C01)
pub const M_PAIRS: u32 = 2; // counterparts (C02)
pub const M_STACK: u32 = 4; // stack addresses (R01)
pub const M_IDENT: u32 = 8; // identical pairs not inspected (S05)
pub const M_DROP: u32 = 32; // drops are events too
pub const M_ORDER: u32 = 64; // nodes give their edges in an order that depends on the position
pub const M_STOP: u32 = 128; // nothing is asked after a difference of values
pub const M_HOLD: u32 = 16; // which nodes are held (R02); for modes that postpone edges

pub struct Ctx<'g> {
    pub g: &'g Graph,
    pub mask: u32,
    pub budget: Cell<u64>,
    pub live: Cell<i64>,
    pub peak: Cell<i64>,
    pub made: Cell<u64>,
    pub n_cmp: Cell<u64>,
    pub n_edge: Cell<u64>,
    pub n_id: Cell<u64>,
    pub lo: Cell<usize>,
    pub hi: Cell<usize>,
    pub mon: RefCell<Option<String>>,
    pub hook: Option<&'g dyn Fn(Ev)>,
    /// Log of value comparisons (a, b, path hash), when enabled.
    pub log_cmp: Option<RefCell<Vec<(u32, u32, u64)>>>,
    /// Log of all calls, folded.
    pub digest: Cell<u64>,
    /// Which nodes occur at a position, by side (only with `M_IDENT`).
    pub pos: RefCell<HashMap<u64, [u32; 2]>>,
    /// Orders of the edges, by position (only with `M_ORDER`), and how many are free.
    pub orders: RefCell<HashMap<u64, u32>>,
    pub free_orders: Cell<u32>,
    /// Held nodes whose edges were asked for, by position and side (only with `M_HOLD`).
    pub held: RefCell<HashMap<(u64, u8), i32>>,
    pub n_held: Cell<i64>,
    pub max_held: Cell<i64>,
    pub dead_ends: Cell<i64>,
    /// A difference of values was reported (only with `M_STOP`).
    pub over: Cell<bool>,
    /// Nodes that may be kept besides (with `M_HOLD`): the roots, while prechecking.
    pub spare: Cell<i64>,
}

#[inline]
pub fn mix(h: u64, v: u64) -> u64 {
    let x = (h ^ v.wrapping_mul(0x9E37_79B9_7F4A_7C15)).wrapping_mul(0xD6E8_FEB8_6659_FD93);
    x ^ (x >> 29)
}
/// Which edge comes `k`-th in an order of `d` edges.
pub fn permuted(order: u32, d: u32, k: u32) -> u32 {
    match order {
        1 => d - 1 - k,
        2 if d > 2 => (k + 1) % d,
        _ => k,
    }
}
pub const ROOT: u64 = 0x1234_5678;
#[inline]
pub fn child_path(p: u64, k: u64) -> u64 {
    mix(p, k + 1)
}

impl<'g> Ctx<'g> {
    pub fn new(g: &'g Graph, budget: u64, mask: u32) -> Self {
        Ctx {
            g,
            mask,
            budget: Cell::new(budget),
            live: Cell::new(0),
            peak: Cell::new(0),
            made: Cell::new(0),
            n_cmp: Cell::new(0),
            n_edge: Cell::new(0),
            n_id: Cell::new(0),
            lo: Cell::new(usize::MAX),
            hi: Cell::new(0),
            mon: RefCell::new(None),
            hook: None,
            log_cmp: None,
            digest: Cell::new(0),
            pos: RefCell::new(HashMap::new()),
            orders: RefCell::new(HashMap::new()),
            free_orders: Cell::new(0),
            held: RefCell::new(HashMap::new()),
            n_held: Cell::new(0),
            max_held: Cell::new(0),
            dead_ends: Cell::new(0),
            over: Cell::new(false),
            spare: Cell::new(0),
        }
    }
    pub fn hooked(mut self, h: &'g dyn Fn(Ev)) -> Self {
        self.hook = Some(h);
        self
    }
    pub fn logged(mut self) -> Self {
        self.log_cmp = Some(RefCell::new(vec![]));
        self
    }
    pub fn reset(&self, budget: u64) {
        self.budget.set(budget);
        self.live.set(0);
        self.peak.set(0);
        self.made.set(0);
        self.n_cmp.set(0);
        self.n_edge.set(0);
        self.n_id.set(0);
        self.lo.set(usize::MAX);
        self.hi.set(0);
        self.digest.set(0);
        self.over.set(false);
        if self.mask & M_IDENT != 0 {
            self.pos.borrow_mut().clear();
        }
        if self.mask & M_ORDER != 0 {
            self.orders.borrow_mut().clear();
        }
        if self.mask & M_HOLD != 0 {
            self.held.borrow_mut().clear();
            self.n_held.set(0);
            self.max_held.set(0);
            self.dead_ends.set(0);
        }
        *self.mon.borrow_mut() = None;
        if let Some(l) = &self.log_cmp {
            l.borrow_mut().clear();
        }
    }
    /// The order of the edges at a position: the first ones are chosen, the others follow from it.
    fn order(&self, path: u64) -> u32 {
        let mut o = self.orders.borrow_mut();
        let n = o.len() as u32;
        *o.entry(path).or_insert_with(|| if n < self.free_orders.get() { crate::choice::choose(3) } else { (mix(path, 99) >> 40) as u32 % 3 })
    }
    #[cold]
    pub fn violate(&self, s: String) {
        let mut m = self.mon.borrow_mut();
        if m.is_none() {
            *m = Some(s);
        }
    }
    #[inline]
    fn tick(&self, ev: impl FnOnce() -> Ev) {
        let b = self.budget.get();
        if b == 0 {
            if std::thread::panicking() {
                return;
            }
            std::panic::panic_any(Budget);
        }
        self.budget.set(b - 1);
        if self.mask & M_STACK != 0 {
            let x = 0u8;
            let p = std::hint::black_box(&x) as *const u8 as usize;
            if p < self.lo.get() {
                self.lo.set(p)
            }
            if p > self.hi.get() {
                self.hi.set(p)
            }
        }
        if let Some(h) = self.hook {
            h(ev())
        }
    }
    #[inline]
    fn born(&self) {
        let l = self.live.get() + 1;
        self.live.set(l);
        self.made.set(self.made.get() + 1);
        if l > self.peak.get() {
            self.peak.set(l)
        }
    }
    pub fn result(&self) -> Result<(), String> {
        match self.mon.borrow().as_ref() {
            Some(s) => Err(s.clone()),
            None => Ok(()),
        }
    }
    pub fn stack_span(&self) -> usize {
        self.hi.get().saturating_sub(self.lo.get())
    }
}

pub struct Nd<'c, K: Kind> {
    pub ctx: &'c Ctx<'c>,
    pub i: u32,
    pub side: u8,
    pub path: u64,
    last: Cell<i64>,
    cnt: Cell<u8>,
    ended: Cell<bool>,
    open: Cell<bool>,
    closed: Cell<bool>,
    /// parent: node, position, which edge
    par: (u32, u64, u32),
    asked: Cell<bool>,
    dead: Cell<bool>,
    k: PhantomData<fn() -> K>,
}

impl<'c, K: Kind> Nd<'c, K> {
    pub fn new(ctx: &'c Ctx<'c>, i: u32, side: u8) -> Self {
        Self::with_path(ctx, i, side, ROOT, (u32::MAX, 0, 0))
    }
    fn with_path(ctx: &'c Ctx<'c>, i: u32, side: u8, path: u64, par: (u32, u64, u32)) -> Self {
        ctx.born();
        if ctx.mask & M_IDENT != 0 {
            ctx.pos.borrow_mut().entry(path).or_insert([u32::MAX; 2])[side as usize] = i;
        }
        Nd {
            ctx,
            i,
            side,
            path,
            last: Cell::new(-1),
            cnt: Cell::new(0),
            ended: Cell::new(false),
            open: Cell::new(false),
            closed: Cell::new(false),
            par,
            asked: Cell::new(false),
            dead: Cell::new(false),
            k: PhantomData,
        }
    }
    /// The pair (self, o) was shown to a user-supplied mode.
    pub fn told(&self, o: &Self) {
        let c = self.ctx;
        if c.mask & M_PAIRS != 0 {
            if self.side != 0 || o.side != 1 {
                c.violate(format!("the descend mode is asked about nodes {} and {} without the first graph on the left and the second on the right", self.i, o.i));
            } else if self.path != o.path {
                c.violate(format!("the descend mode is asked about nodes {} and {}, which are not at the same position", self.i, o.i));
            } else if !self.open.get() || !o.open.get() {
                c.violate(format!("the descend mode is asked about nodes {} and {}, whose values were not found equal", self.i, o.i));
            }
        }
    }
    /// A mode refused the descent into this node: no further edge may be asked of it.
    pub fn close(&self) {
        self.closed.set(true);
        self.die();
    }
    /// Nothing more can come from this node: it must not be kept.
    fn die(&self) {
        let c = self.ctx;
        if c.mask & M_HOLD != 0 && !self.dead.replace(true) {
            c.dead_ends.set(c.dead_ends.get() + 1);
        }
    }
    fn dropped(&self) {
        let c = self.ctx;
        if self.dead.get() {
            c.dead_ends.set(c.dead_ends.get() - 1);
        }
        if self.asked.get() {
            c.n_held.set(c.n_held.get() - 1);
            if let Some(n) = c.held.borrow_mut().get_mut(&(self.path, self.side)) {
                *n -= 1;
            }
        }
        if c.mask & M_DROP != 0 && !std::thread::panicking() {
            c.tick(|| Ev::Drop(self.i));
        }
    }
    fn ask(&self) {
        let c = self.ctx;
        if !self.asked.replace(true) {
            *c.held.borrow_mut().entry((self.path, self.side)).or_insert(0) += 1;
            c.n_held.set(c.n_held.get() + 1);
            c.max_held.set(c.max_held.get().max(c.n_held.get()));
        }
    }
    /// This node is being visited: its parent must be gone if this was its last edge.
    fn visited(&self) {
        let c = self.ctx;
        let (p, pp, k) = self.par;
        if p != u32::MAX && c.g.deg(p) == k + 1 && c.held.borrow().get(&(pp, self.side)).map_or(false, |n| *n > 0) {
            c.violate(format!("node {p} is still held when its last edge is visited"));
        }
    }
    fn holds(&self, o: &Self) {
        let c = self.ctx;
        if o.par.0 != u32::MAX && self.par.0 != u32::MAX && c.g.deg(o.par.0) == c.g.deg(self.par.0) {
            self.visited();
            o.visited();
        }
        if c.dead_ends.get() > 0 {
            c.violate(format!("{} nodes from which nothing more can come are still held when nodes {} and {} are compared", c.dead_ends.get(), self.i, o.i));
        }
        let fresh = c.live.get() - c.n_held.get();
        if fresh > 2 + c.n_held.get() + c.spare.get() {
            c.violate(format!("{fresh} nodes whose edges were not begun are held when nodes {} and {} are compared, {} whose edges were", self.i, o.i, c.n_held.get()));
        }
    }
    fn proto(&self, k: i64) {
        let c = self.ctx;
        // The first index is the default value; all our indexes count from Default = "zero".
        let zero = K::Index::default().num();
        let k = k - zero;
        if !self.open.get() {
            c.violate(format!("edge {k} of node {} requested, but its value was not found equal to that of its counterpart", self.i));
        }
        if self.closed.get() {
            c.violate(format!("edge {k} of node {} requested after its descendants were to be skipped", self.i));
        }
        let last = self.last.get();
        if k == last {
            self.cnt.set(self.cnt.get().saturating_add(1));
            if self.cnt.get() > 2 {
                c.violate(format!("edge {k} of node {} requested more than twice", self.i));
            }
        } else if k == last + 1 {
            if self.ended.get() {
                c.violate(format!("edge {k} of node {} requested beyond its end", self.i));
            }
            self.last.set(k);
            self.cnt.set(1);
        } else {
            c.violate(format!("edge {k} of node {} requested after edge {last}", self.i));
        }
    }
}

impl<'c, K: Kind> Clone for Nd<'c, K> {
    fn clone(&self) -> Self {
        self.ctx.tick(|| Ev::Clone(self.i));
        Self::with_path(self.ctx, self.i, self.side, self.path, self.par)
    }
}

impl<'c, K: Kind> Drop for Nd<'c, K> {
    #[inline]
    fn drop(&mut self) {
        let c = self.ctx;
        c.live.set(c.live.get() - 1);
        if c.mask & (M_HOLD | M_DROP) != 0 {
            self.dropped();
        }
    }
}

impl<'c, K: Kind> Node for Nd<'c, K> {
    type Cmp = K::Cmp;
    type Id = K::Id;
    type Index = K::Index;

    #[inline]
    fn id(&self) -> K::Id {
        let c = self.ctx;
        c.n_id.set(c.n_id.get() + 1);
        c.tick(|| Ev::Id(self.i));
        K::id(self.i)
    }

    #[inline]
    fn get_edge(&self, idx: &K::Index) -> Option<Self> {
        let c = self.ctx;
        let k = idx.num();
        c.n_edge.set(c.n_edge.get() + 1);
        c.digest.set(mix(c.digest.get(), (self.i as u64) << 32 | k as u64 & 0xffff_ffff));
        if c.mask & M_PROTO != 0 {
            self.proto(k);
        }
        if c.mask & M_IDENT != 0 && c.pos.borrow().get(&self.path) == Some(&[self.i, self.i]) {
            c.violate(format!("an edge of node {} was requested although it is identical to its counterpart", self.i));
        }
        if c.mask & M_HOLD != 0 {
            self.ask();
        }
        if c.over.get() {
            c.violate(format!("an edge of node {} was requested after two values were found different", self.i));
        }
        c.tick(|| Ev::Edge(self.i, k));
        let k0 = k - K::Index::default().num();
        let mut e = k0;
        if c.mask & M_ORDER != 0 && k0 >= 0 {
            let d = c.g.deg(self.i);
            if d > 1 && k0 < d as i64 {
                e = permuted(c.order(self.path), d, k0 as u32) as i64;
            }
        }
        let r = if k0 < 0 || k0 > u32::MAX as i64 { None } else { c.g.edge(self.i, e as u32) };
        match r {
            Some(t) => Some(Self::with_path(c, t, self.side, child_path(self.path, k0 as u64), (self.i, self.path, k0 as u32))),
            None => {
                self.ended.set(true);
                if k0 == 0 {
                    self.die();
                }
                None
            }
        }
    }

    #[inline]
    fn equiv_modulo_edges(&self, o: &Self) -> K::Cmp {
        let c = self.ctx;
        c.n_cmp.set(c.n_cmp.get() + 1);
        c.digest.set(mix(c.digest.get(), (self.i as u64) << 32 | o.i as u64 | 1 << 63));
        if c.mask & M_PAIRS != 0 {
            if self.side != 0 || o.side != 1 {
                c.violate(format!("value comparison of node {} and node {} does not have the first graph on the left and the second on the right", self.i, o.i));
            } else if self.path != o.path {
                c.violate(format!("value comparison of nodes {} and {}, which are not at the same position", self.i, o.i));
            } else if self.i == o.i {
                c.violate(format!("value comparison of node {} with itself", self.i));
            }
        }
        if c.mask & M_IDENT != 0 && self.i == o.i {
            c.violate(format!("value comparison of node {} with itself", self.i));
        }
        if c.mask & M_HOLD != 0 {
            self.holds(o);
        }
        if let Some(l) = &c.log_cmp {
            l.borrow_mut().push((self.i, o.i, self.path));
        }
        c.tick(|| Ev::Cmp(self.i, o.i));
        let (a, b) = (c.g.label[self.i as usize], c.g.label[o.i as usize]);
        let r = K::cmp(a, b, self.path);
        if r.is_equiv() {
            self.open.set(true);
            o.open.set(true);
        } else if c.mask & M_STOP != 0 {
            c.over.set(true);
        }
        r
    }
}
