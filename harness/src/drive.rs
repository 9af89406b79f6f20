//! User-supplied recursion mode that drives the edges iterator it is handed (G03, C01).
use crate::choice::choose;
use crate::graph::*;
use crate::node::*;
use crate::modes::is_equiv;
use crate::runner::*;
use crate::util::*;
use graph_safe_compare::basic::modes::unlimited::Unlimited;
use graph_safe_compare::generic::equiv::{CounterpartsResult, EdgesIter, Equiv, Params, RecurMode};
use graph_safe_compare::Cmp as _;
use std::cell::RefCell;
use std::cmp::Ordering;
use std::convert::Infallible;
use std::marker::PhantomData;

// The edges iterator, driven by every short sequence of `Iterator` methods.
type Item = Result<(u32, u32, u64), Ordering>;
thread_local! {
    static SEEN: RefCell<(u32, Vec<String>, Option<String>)> = RefCell::new((0, vec![], None));
}
struct Drive;
impl Default for Drive {
    fn default() -> Self {
        Drive
    }
}
struct DP<'c>(PhantomData<&'c ()>);
impl<'c> Params for DP<'c> {
    type Node = Nd<'c, KV>;
    type DescendMode = Unlimited;
    type RecurMode = Drive;
    type Error = Infallible;
}
fn item(x: CounterpartsResult<Nd<'_, KV>>) -> Item {
    match x {
        Ok([a, b]) => Ok((a.i, b.i, a.path)),
        Err(Val::Ord(o)) => Err(o),
        Err(_) => Err(Ordering::Equal),
    }
}
/// What is left of it, always as the reference says.
struct Left(std::vec::IntoIter<Item>);
fn drive(mut it: EdgesIter<Nd<'_, KV>>, want: Vec<Item>, steps: u32) -> Result<(), String> {
    let mut left = Left(want.into_iter());
    fn same<T: PartialEq + std::fmt::Debug>(what: String, got: T, want: T) -> Result<(), String> {
        SEEN.with(|s| s.borrow_mut().1.push(what.clone()));
        if got == want { Ok(()) } else { Err(format!("{what} gives {got:?}, of the remaining edges it must be {want:?}")) }
    }
    for _ in 0..steps {
        let (lo, hi) = it.size_hint();
        let n = left.0.len();
        if lo > n || hi.is_some_and(|h| h < n) {
            return Err(format!("size_hint is ({lo},{hi:?}) with {n} items remaining"));
        }
        match choose(8) {
            0 => same("next()".into(), it.next().map(item), left.0.next())?,
            k @ 1..=3 => {
                let k = [0, 1, 3][k as usize - 1];
                same(format!("nth({k})"), it.nth(k).map(item), left.0.nth(k))?
            }
            4 => same("by_ref().take(2)".into(), it.by_ref().take(2).map(item).collect::<Vec<_>>(), left.0.by_ref().take(2).collect())?,
            5 => same("find of an even one".into(), it.find(|x| matches!(x, Ok([a, _]) if a.i % 2 == 0)).map(item), left.0.find(|x| matches!(x, Ok((a, _, _)) if a % 2 == 0)))?,
            6 => same("try_for_each up to an amount difference".into(), it.try_for_each(|x| x.map(|_| ()).map_err(|e| item(Err(e)))), left.0.try_for_each(|x| x.map(|_| ()).map_err(Err)))?,
            _ => break,
        }
    }
    match choose(8) {
        0 => same("collect()".into(), it.map(item).collect::<Vec<_>>(), left.0.collect()),
        1 => same("count()".into(), it.count(), left.0.count()),
        2 => same("last()".into(), it.last().map(item), left.0.last()),
        3 => same("fold".into(), it.fold(vec![], |mut v, x| {
            v.push(item(x));
            v
        }), left.0.collect()),
        4 => same("skip(1)".into(), it.skip(1).map(item).collect::<Vec<_>>(), left.0.skip(1).collect()),
        5 => same("step_by(2)".into(), it.step_by(2).map(item).collect::<Vec<_>>(), left.0.step_by(2).collect()),
        6 => same("max_by_key of the node".into(), it.max_by_key(|x| x.as_ref().ok().map(|p| p[0].i)).map(item), left.0.max_by_key(|x| x.as_ref().ok().map(|p| p.0))),
        _ => same("for loop and once more".into(), {
            let mut v = vec![];
            for x in &mut it {
                v.push(item(x));
            }
            (v, it.next().map(item))
        }, (left.0.collect(), None)),
    }
}
impl<'c> RecurMode<DP<'c>> for Drive {
    type Error = Infallible;
    fn recur(_: &mut Equiv<DP<'c>>, it: EdgesIter<Nd<'c, KV>>) -> Result<Val, Infallible> {
        let (want, steps) = WANT.with(|w| w.borrow().clone());
        let r = drive(it, want, steps);
        SEEN.with(|s| {
            let s = &mut *s.borrow_mut();
            s.0 += 1;
            s.2 = r.err();
        });
        Ok(Val::new_equiv())
    }
    fn next(&mut self) -> Option<CounterpartsResult<Nd<'c, KV>>> {
        None
    }
    fn reset(self) -> Self {
        self
    }
}
thread_local! {
    static WANT: RefCell<(Vec<Item>, u32)> = RefCell::new((vec![], 0));
}
pub fn driven(x: &[i64], mask: u32, st: &mut Stats) -> Result<(), String> {
    let (da, db, steps) = (x[0] as u32, x[1] as u32, x[2] as u32);
    let n = 2 + da + db;
    let g = Graph::from_vecs(&(0..n).map(|i| match i {
        0 => (0, (2..2 + da).collect()),
        1 => (0, (2 + da..n).collect()),
        _ => (0, vec![]),
    }).collect::<Vec<_>>());
    let cx = Ctx::new(&g, 0, mask);
    let mut want: Vec<Item> = (0..da.min(db)).map(|k| Ok((2 + k, 2 + da + k, child_path(ROOT, k as u64)))).collect();
    if da != db {
        want.push(Err(da.cmp(&db)));
    }
    WANT.with(|w| *w.borrow_mut() = (want, steps));
    few_rng(st, u32::MAX, |st| {
        cx.reset(1 << 20);
        SEEN.with(|s| *s.borrow_mut() = (0, vec![], None));
        let r = Equiv::<DP<'_>>::default().equiv(nd(&cx, 0, 0), nd(&cx, 1, 1));
        st.execs += 1;
        SEEN.with(|s| {
            let s = s.borrow();
            st.transitions += s.1.len() as u64;
            st.states += 1;
            st.outcome(&s.1);
            match &s.2 {
                Some(e) => Err(format!("{} and {} edges, after {:?}: {e}", da, db, s.1)),
                None if s.0 != 1 => Err(format!("{da} and {db} edges: asked {} times to recur", s.0)),
                None if !r.as_ref().is_ok_and(is_equiv) => Err(format!("the mode answers equivalent, the result is {r:?}")),
                None => cx.result().map_err(|m| format!("{} and {} edges, after {:?}: {m}", da, db, s.1)),
            }
        })
    })
}

