//! U01: identity references compare, order and hash coherently.
use graph_safe_compare::utils::RefId;
use gsc_mc::runner::*;
use std::borrow::Cow;
use std::cell::Cell;
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};
use std::ops::Deref;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::Arc;

/// Records what is written to it.
#[derive(Default, PartialEq, Eq, Debug, Clone)]
struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b);
        self.0.push(0xA5);
    }
}
/// Address and metadata.
type Key = (usize, usize);
trait Meta {
    fn key(&self) -> Key;
}
macro_rules! thin { ($($t:ty)*) => { $(impl Meta for $t { fn key(&self) -> Key { (self as *const Self as *const () as usize, 0) } })* } }
thin! { u8 u32 Cell<u8> () [u8; 4] Outer Inner Cell<f64> }
impl<T> Meta for [T] {
    fn key(&self) -> Key {
        (self.as_ptr() as usize, self.len())
    }
}
impl Meta for str {
    fn key(&self) -> Key {
        (self.as_ptr() as usize, self.len())
    }
}
trait Obj {
    fn what(&self) -> u32;
}
impl Meta for dyn Obj {
    fn key(&self) -> Key {
        let p: *const dyn Obj = self;
        // Address and vtable.
        unsafe { std::mem::transmute::<*const dyn Obj, (usize, usize)>(p) }
    }
}
#[repr(transparent)]
struct Inner(Cell<u8>);
#[repr(transparent)]
struct Outer(Inner);
impl Obj for Inner {
    fn what(&self) -> u32 {
        self.0.get() as u32
    }
}
impl Obj for Outer {
    fn what(&self) -> u32 {
        (self.0).0.get() as u32 * 31 + 7
    }
}
impl Drop for Outer {
    fn drop(&mut self) {
        std::hint::black_box(self.what());
    }
}
impl Obj for Cell<u8> {
    fn what(&self) -> u32 {
        self.get() as u32 ^ 0x55AA
    }
}
/// A user's own smart pointer: derefs to a part of what it points to.
#[derive(Clone)]
struct Part<'a>(&'a [Cell<u8>], usize);
impl<'a> Deref for Part<'a> {
    type Target = Cell<u8>;
    fn deref(&self) -> &Cell<u8> {
        &self.0[self.1]
    }
}

fn hash<T: Hash>(x: &T) -> Rec {
    let mut r = Rec::default();
    x.hash(&mut r);
    r
}
/// Everything observable about one pair.
fn pair<T: Deref>(x: &RefId<T>, y: &RefId<T>, i: usize, j: usize) -> Result<Ordering, String>
where
    T::Target: Meta,
{
    let (kx, ky) = ((*x.0).key(), (*y.0).key());
    let e = x == y;
    let w = |m: String| Err(format!("identities {i} (address {:x}, metadata {:x}) and {j} (address {:x}, metadata {:x}): {m}", kx.0, kx.1, ky.0, ky.1));
    if e != (kx == ky) {
        return w(format!("== says {e}"));
    }
    if (x != y) == e {
        return w("!= contradicts ==".into());
    }
    let c = x.cmp(y);
    if (c == Ordering::Equal) != e {
        return w(format!("cmp gives {c:?}, == says {e}"));
    }
    if y.cmp(x) != c.reverse() {
        return w(format!("cmp gives {c:?}, the other way round {:?}", y.cmp(x)));
    }
    if x.partial_cmp(y) != Some(c) {
        return w(format!("partial_cmp gives {:?}, cmp {c:?}", x.partial_cmp(y)));
    }
    let ops = [x < y, x <= y, x > y, x >= y];
    let want = [c.is_lt(), c.is_le(), c.is_gt(), c.is_ge()];
    if ops != want {
        return w(format!("the operators < <= > >= give {ops:?}, cmp {c:?}"));
    }
    // by reference, through the blanket implementations
    if (&x == &y) != e || (&x < &y) != c.is_lt() || Ord::cmp(&x, &y) != c {
        return w("comparing references to the identities differs".into());
    }
    let (hx, hy) = (hash(x), hash(y));
    if e && hx != hy {
        return w("equal, but hashed differently".into());
    }
    if hash(x) != hx {
        return w("hashed differently a second time".into());
    }
    Ok(c)
}
fn universe<T: Deref>(u: &[RefId<T>], st: &mut Stats) -> Result<(), String>
where
    T::Target: Meta,
{
    let n = u.len();
    let mut m = vec![Ordering::Equal; n * n];
    for i in 0..n {
        for j in 0..n {
            m[i * n + j] = pair(&u[i], &u[j], i, j)?;
            st.execs += 1;
            st.states += 1;
            st.outcome((n, i, j, m[i * n + j]));
        }
    }
    for i in 0..n {
        for j in 0..n {
            for k in 0..n {
                st.transitions += 1;
                if m[i * n + j].is_le() && m[j * n + k].is_le() {
                    let strict = m[i * n + j].is_lt() || m[j * n + k].is_lt();
                    if !(m[i * n + k].is_le() && (!strict || m[i * n + k].is_lt())) {
                        return Err(format!("not transitive: {i} {j} {k}"));
                    }
                }
                // provided methods
                let (x, y, z) = (&u[i], &u[j], &u[k]);
                if m[i * n + k].is_le() {
                    let c = Ord::clamp(y, x, z);
                    let want = if m[j * n + i].is_lt() { x } else if m[j * n + k].is_gt() { z } else { y };
                    if c != want {
                        return Err(format!("clamp of {j} to {i}..{k} is wrong"));
                    }
                }
            }
            let (x, y) = (&u[i], &u[j]);
            let (mx, mn) = (Ord::max(x, y), Ord::min(x, y));
            if mx < mn || (mx != x && mx != y) {
                return Err(format!("max or min of {i} and {j} is wrong"));
            }
        }
    }
    // as used in collections
    let mut by = (0..n).collect::<Vec<_>>();
    by.sort_by(|i, j| u[*i].cmp(&u[*j]));
    let mut keys: Vec<Key> = u.iter().map(|x| (*x.0).key()).collect();
    keys.sort();
    keys.dedup();
    let tree: std::collections::BTreeSet<&RefId<T>> = u.iter().collect();
    let table: std::collections::HashSet<&RefId<T>> = u.iter().collect();
    if tree.len() != keys.len() || table.len() != keys.len() {
        return Err(format!("{} identities: a BTreeSet holds {}, a HashSet {}", keys.len(), tree.len(), table.len()));
    }
    Ok(())
}
/// Every identity twice.
fn twice<T: Deref + Clone>(v: Vec<T>) -> Vec<RefId<T>> {
    let mut u: Vec<RefId<T>> = v.iter().cloned().map(RefId).collect();
    u.extend(v.into_iter().map(RefId));
    u
}
/// Contents do not matter: check under all of these contents, same order each time.
fn under<T: Deref>(u: &[RefId<T>], cells: &[Cell<u8>], st: &mut Stats) -> Result<(), String>
where
    T::Target: Meta,
{
    let order = |u: &[RefId<T>]| {
        let mut m = vec![];
        for x in u {
            for y in u {
                m.push((x.cmp(y), hash(x) == hash(y)));
            }
        }
        m
    };
    let mut was = None;
    for bits in 0..1u32 << cells.len().min(5) {
        for (i, c) in cells.iter().enumerate() {
            c.set((bits >> (i % 5) & 1) as u8);
        }
        if bits == 0 || bits == 1 || bits == 2 {
            universe(u, st)?;
        }
        let o = order(u);
        if *was.get_or_insert_with(|| o.clone()) != o {
            return Err("the order or the hashes depend on the contents".into());
        }
        st.execs += o.len() as u64;
    }
    Ok(())
}

fn run(which: i64, size: usize, st: &mut Stats) -> Result<(), String> {
    let cells: Vec<Cell<u8>> = (0..size).map(|_| Cell::new(0)).collect();
    let slices = |c: &'static [Cell<u8>]| -> Vec<&'static [Cell<u8>]> {
        let mut v = vec![];
        for i in 0..=c.len() {
            for j in i..=c.len() {
                v.push(&c[i..j])
            }
        }
        v
    };
    match which {
        0 => under(&twice(cells.iter().collect::<Vec<&Cell<u8>>>()), &cells, st),
        1 => {
            let c: &'static [Cell<u8>] = Box::leak(cells.into_boxed_slice());
            under(&twice(slices(c)), c, st)
        }
        2 => {
            // zero-sized elements: only the lengths differ
            let z: &[()] = &vec![(); size];
            universe(&twice((0..=size).map(|n| &z[..n]).collect::<Vec<_>>()), st)?;
            universe(&twice((0..size).map(|n| &z[n]).collect::<Vec<_>>()), st)
        }
        3 => {
            let s: String = "aabba".chars().cycle().take(size).collect();
            let mut v: Vec<&str> = vec![];
            for i in 0..=size {
                for j in i..=size {
                    v.push(&s[i..j]);
                }
            }
            universe(&twice(v), st)
        }
        4 => {
            let mut v: Vec<RefId<Box<Cell<u8>>>> = (0..size).map(|_| RefId(Box::new(Cell::new(0)))).collect();
            universe(&v, st)?;
            for (i, b) in v.iter().enumerate() {
                b.0.set(i as u8 % 2);
            }
            v.reverse();
            universe(&v, st)
        }
        5 => {
            let v: Vec<Rc<Cell<u8>>> = (0..size).map(|_| Rc::new(Cell::new(0))).collect();
            let u = twice(v);
            universe(&u, st)?;
            u[0].0.set(9);
            universe(&u, st)
        }
        6 => universe(&twice((0..size).map(|_| Arc::new(5u32)).collect::<Vec<_>>()), st),
        7 => universe(&twice((0..size).map(|n| Rc::<[u8]>::from(vec![1; n % 3])).collect::<Vec<_>>()), st),
        8 => universe(&twice((0..size).map(|n| Arc::<str>::from(["", "a", "ab"][n % 3])).collect::<Vec<_>>()), st),
        9 => {
            // same address, different types behind it
            let o: Vec<Outer> = (0..size).map(|_| Outer(Inner(Cell::new(0)))).collect();
            let mut v: Vec<&dyn Obj> = vec![];
            for x in &o {
                v.extend([x as &dyn Obj, &x.0 as &dyn Obj, &(x.0).0 as &dyn Obj]);
            }
            let u = twice(v);
            universe(&u, st)?;
            for (i, x) in o.iter().enumerate() {
                (x.0).0.set(i as u8 + 1);
            }
            universe(&u, st)
        }
        10 => universe(&twice((0..size).map(|n| if n % 2 == 0 { Rc::new(Inner(Cell::new(0))) as Rc<dyn Obj> } else { Rc::new(Cell::new(0u8)) as Rc<dyn Obj> }).collect::<Vec<_>>()), st),
        11 => {
            let s: Vec<String> = (0..size).map(|n| "x".repeat(n % 2)).collect();
            universe(&s.into_iter().map(RefId).collect::<Vec<_>>(), st)?;
            universe(&(0..size).map(|_| RefId(vec![1u8; 2])).collect::<Vec<_>>(), st)
        }
        12 => {
            let s = "abcd".to_string();
            let mut v: Vec<RefId<Cow<str>>> = vec![];
            for i in 0..4 {
                v.push(RefId(Cow::Borrowed(&s[i..])));
                v.push(RefId(Cow::Borrowed(&s[..i])));
                v.push(RefId(Cow::Borrowed(&s[..i])));
                v.push(RefId(Cow::Owned(s[i..].to_string())));
            }
            universe(&v, st)
        }
        13 => universe(&twice((0..size).map(|_| Rc::pin(Cell::new(1u8))).collect::<Vec<Pin<Rc<Cell<u8>>>>>()), st),
        14 => {
            let mut v = vec![];
            for i in 0..size {
                v.push(Part(&cells, i));
                v.push(Part(&cells[i..], 0));
            }
            under(&twice(v), &cells, st)
        }
        15 => {
            let mut a = vec![[7u8; 4]; size];
            universe(&a.iter_mut().map(RefId).collect::<Vec<RefId<&mut [u8; 4]>>>(), st)
        }
        16 => {
            // Equal, and unequal to themselves (NaN), contents.
            let f: Vec<Cell<f64>> = (0..size).map(|n| Cell::new(if n % 2 == 0 { f64::NAN } else { 0.0 })).collect();
            universe(&twice(f.iter().collect::<Vec<_>>()), st)
        }
        _ => {
            // a reference to a box and the like: the identity is that of what is pointed to at once
            let v: Vec<Box<u32>> = (0..size).map(|_| Box::new(3)).collect();
            let w: Vec<&u32> = v.iter().map(|b| &**b).collect();
            universe(&twice(w), st)
        }
    }
}

fn spaces(t: Tier) -> Vec<Space> {
    let sizes = t.pick(vec![1, 2, 3, 5, 8], vec![1, 2, 3, 4, 5, 6, 8, 12, 16]);
    let mut l = vec![];
    for w in 0..18 {
        for &s in &sizes {
            l.push(vec![w, s]);
        }
    }
    vec![tuples("universe", "all pairs and triples of the identities of: cells, all subslices, slices and elements of zero size, all substrings, boxes, Rc, Arc, Rc<[u8]>, Arc<str>, trait objects of different types at the same address, Rc<dyn>, String and Vec, Cow, Pin<Rc>, a user's own smart pointer, &mut, NaN contents, boxed; [which, size]", l, |x, st| run(x[0], x[1] as usize, st))]
}

fn main() {
    gsc_mc::runner::main(Check {
        id: "U01",
        level: "model_checking",
        rule: "states: pairs of identities, transitions: triples; every comparison method, operator and the bytes hashed, against the address and metadata, for all listed contents",
        assumptions: &["the universe of references listed"],
        spaces,
    })
}
