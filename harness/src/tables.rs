//! Conforming user-supplied `Table`s and `Rc`, instrumented.
use graph_safe_compare::generic::equiv_classes::{Class, Rc as RcTrait, Table};
use graph_safe_compare::Node;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap};
use std::ops::Deref;
use std::rc::Rc;

#[derive(Default, Clone, Copy, Debug)]
pub struct RcStats {
    pub made: u64,
    pub live: i64,
    pub derefs: u64,
    pub depth: u32,
    pub max_depth: u32,
    pub handles: i64,
    /// Most records alive at once beyond the keys then associated.
    pub max_excess: i64,
}
thread_local! {
    pub static RC: Cell<RcStats> = Cell::new(RcStats::default());
    pub static TB: Cell<TbStats> = Cell::new(TbStats::default());
    /// Log of `get`/`insert` (key numbers), when switched on.
    pub static TLOG: RefCell<Option<Vec<(bool, u32)>>> = RefCell::new(None);
    /// Snapshot of the newest table (key, handle), when switched on.
    pub static SNAP: RefCell<Option<Vec<(u32, InstRc)>>> = RefCell::new(None);
}
thread_local! {
    /// Called in every user-supplied table, shared-pointer and random-source method.
    pub static USER: Cell<Option<fn()>> = const { Cell::new(None) };
}
#[inline]
pub fn user() {
    if let Some(f) = USER.with(|u| u.get()) {
        f()
    }
}
#[derive(Default, Clone, Copy, Debug)]
pub struct TbStats {
    pub gets: u64,
    pub inserts: u64,
    pub live: i64,
    pub reinserts: u64,
}
fn rc(f: impl FnOnce(&mut RcStats)) {
    let _ = RC.try_with(|r| {
        let mut s = r.get();
        f(&mut s);
        r.set(s);
    });
}
fn tb(f: impl FnOnce(&mut TbStats)) {
    let _ = TB.try_with(|r| {
        let mut s = r.get();
        f(&mut s);
        r.set(s);
    });
}
pub fn reset_stats() {
    RC.with(|r| r.set(RcStats::default()));
    TB.with(|r| r.set(TbStats::default()));
}

pub struct Inner {
    cell: Cell<Class<InstRc>>,
    pub serial: u64,
}
impl Drop for Inner {
    fn drop(&mut self) {
        rc(|s| {
            s.live -= 1;
            s.depth += 1;
            s.max_depth = s.max_depth.max(s.depth);
        });
        // Drop the contained class here, to observe nesting.
        drop(self.cell.take());
        rc(|s| s.depth -= 1);
    }
}

/// A shared pointer that counts.
pub struct InstRc(Rc<Inner>);
impl InstRc {
    pub fn serial(&self) -> u64 {
        self.0.serial
    }
    /// Look at the class without counting.
    pub fn peek(&self) -> Class<InstRc> {
        let c = self.0.cell.take();
        let r = c.clone();
        self.0.cell.set(c);
        r
    }
}
impl Clone for InstRc {
    fn clone(&self) -> Self {
        rc(|s| s.handles += 1);
        InstRc(Rc::clone(&self.0))
    }
}
impl Drop for InstRc {
    fn drop(&mut self) {
        rc(|s| s.handles -= 1);
    }
}
impl Deref for InstRc {
    type Target = Cell<Class<InstRc>>;
    fn deref(&self) -> &Self::Target {
        user();
        rc(|s| s.derefs += 1);
        &self.0.cell
    }
}
impl RcTrait for InstRc {
    fn new(value: Cell<Class<Self>>) -> Self {
        user();
        let mut serial = 0;
        let t = TB.with(|t| t.get());
        rc(|s| {
            s.made += 1;
            s.live += 1;
            s.max_excess = s.max_excess.max(s.live - (t.inserts - t.reinserts) as i64);
            s.handles += 1;
            serial = s.made;
        });
        InstRc(Rc::new(Inner { cell: value, serial }))
    }
}

pub trait KeyNum {
    fn num(&self) -> u32;
}
impl KeyNum for u32 {
    fn num(&self) -> u32 {
        *self
    }
}
impl KeyNum for crate::node::Collide {
    fn num(&self) -> u32 {
        self.0
    }
}

fn log(insert: bool, k: u32) {
    TLOG.with(|l| {
        if let Some(l) = &mut *l.borrow_mut() {
            l.push((insert, k))
        }
    });
}

/// How a table stores its associations.
pub trait Store<I>: Default {
    fn get(&self, k: &I) -> Option<&InstRc>;
    fn put(&mut self, k: I, v: InstRc) -> Option<InstRc>;
}
pub struct VecStore<I>(Vec<(I, InstRc)>);
impl<I> Default for VecStore<I> {
    fn default() -> Self {
        VecStore(vec![])
    }
}
impl<I: Eq> Store<I> for VecStore<I> {
    fn get(&self, k: &I) -> Option<&InstRc> {
        self.0.iter().find(|x| x.0 == *k).map(|x| &x.1)
    }
    fn put(&mut self, k: I, v: InstRc) -> Option<InstRc> {
        for e in &mut self.0 {
            if e.0 == k {
                return Some(std::mem::replace(&mut e.1, v));
            }
        }
        self.0.push((k, v));
        None
    }
}
pub struct TreeStore<I>(BTreeMap<I, InstRc>);
impl<I> Default for TreeStore<I> {
    fn default() -> Self {
        TreeStore(BTreeMap::new())
    }
}
impl<I: Ord> Store<I> for TreeStore<I> {
    fn get(&self, k: &I) -> Option<&InstRc> {
        self.0.get(k)
    }
    fn put(&mut self, k: I, v: InstRc) -> Option<InstRc> {
        self.0.insert(k, v)
    }
}
pub struct HashStore<I>(HashMap<I, InstRc, std::hash::BuildHasherDefault<std::collections::hash_map::DefaultHasher>>);
impl<I> Default for HashStore<I> {
    fn default() -> Self {
        HashStore(HashMap::default())
    }
}
impl<I: Eq + std::hash::Hash> Store<I> for HashStore<I> {
    fn get(&self, k: &I) -> Option<&InstRc> {
        self.0.get(k)
    }
    fn put(&mut self, k: I, v: InstRc) -> Option<InstRc> {
        self.0.insert(k, v)
    }
}

/// An instrumented table over a store.
pub struct InstTable<N: Node, S>(S, std::marker::PhantomData<fn() -> N>);
impl<N: Node, S: Default> Default for InstTable<N, S> {
    fn default() -> Self {
        tb(|s| s.live += 1);
        InstTable(S::default(), std::marker::PhantomData)
    }
}
impl<N: Node, S> Drop for InstTable<N, S> {
    fn drop(&mut self) {
        tb(|s| s.live -= 1);
    }
}
impl<N: Node, S: Store<N::Id>> Table for InstTable<N, S>
where
    N::Id: KeyNum,
{
    type Node = N;
    type Rc = InstRc;
    fn get(&self, k: &N::Id) -> Option<&InstRc> {
        user();
        tb(|s| s.gets += 1);
        log(false, k.num());
        self.0.get(k)
    }
    fn insert(&mut self, k: N::Id, v: InstRc) {
        user();
        tb(|s| s.inserts += 1);
        log(true, k.num());
        SNAP.with(|s| {
            if let Some(s) = &mut *s.borrow_mut() {
                s.retain(|e| e.0 != k.num());
                s.push((k.num(), v.clone()));
            }
        });
        if self.0.put(k, v).is_some() {
            tb(|s| s.reinserts += 1);
        }
    }
}
