//! Drives the real interleave mode directly, as the algorithm does: one query per branch pair.
use crate::graph::Graph;
use crate::node::*;
use crate::tables::*;
use crate::variants::*;
use graph_safe_compare::cycle_safe::modes::interleave::{self, Interleave};
use graph_safe_compare::generic::equiv::DescendMode;
use graph_safe_compare::generic::equiv_classes::{Class, Table};
use std::collections::HashMap;

/// `do_edges` of the real mode for the nodes with these numbers.
pub fn query<'c, K: Kind, I: interleave::Params<Node = Nd<'c, K>>>(m: &mut Interleave<I>, cx: &'c Ctx<'c>, a: u32, b: u32) -> bool
where
    I::Table: Table<Node = Nd<'c, K>>,
{
    let (a, b) = (Nd::<K>::new(cx, a, 0), Nd::new(cx, b, 1));
    ok(<Interleave<I> as DescendMode<EpQueue<I>>>::do_edges(m, &a, &b))
}

pub fn leaves(n: u32) -> Graph {
    let mut g = Graph::new();
    for _ in 0..n {
        g.push(0, &[]);
    }
    g
}

/// The class structure hanging from the newest table, canonically numbered: for each key the
/// object (or -1), and for each object its weight (>= 0) or link (-1 - target).
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Shape {
    pub keys: Vec<i32>,
    pub objs: Vec<i64>,
}
pub fn shape(nkeys: u32) -> Shape {
    let mut num: HashMap<u64, usize> = HashMap::new();
    let mut objs: Vec<i64> = vec![];
    let mut keys = vec![-1; nkeys as usize];
    SNAP.with(|s| {
        let s = s.borrow();
        let s = s.as_ref().expect("snapshot on");
        let by_key: HashMap<u32, usize> = s.iter().enumerate().rev().map(|(i, e)| (e.0, i)).collect();
        for k in 0..nkeys {
            let Some((_, h)) = by_key.get(&k).map(|i| &s[*i]) else { continue };
            let mut cur = h.clone();
            let mut from: Option<usize> = None;
            loop {
                let (i, fresh) = match num.get(&cur.serial()) {
                    Some(&i) => (i, false),
                    None => {
                        let i = objs.len();
                        num.insert(cur.serial(), i);
                        objs.push(0);
                        (i, true)
                    }
                };
                match from {
                    None => keys[k as usize] = i as i32,
                    Some(f) => objs[f] = -1 - i as i64,
                }
                if !fresh {
                    break;
                }
                match cur.peek() {
                    Class::Link { next, .. } => {
                        from = Some(i);
                        cur = next;
                    }
                    Class::Representative { weight, .. } => {
                        objs[i] = weight as i64;
                        break;
                    }
                    _ => unreachable!(),
                }
            }
        }
    });
    Shape { keys, objs }
}
impl Shape {
    /// Links from the object of a key to its representative.
    pub fn chain(&self, key: usize) -> u32 {
        let mut o = self.keys[key];
        if o < 0 {
            return 0;
        }
        let mut d = 0;
        while self.objs[o as usize] < 0 {
            o = (-1 - self.objs[o as usize]) as i32;
            d += 1;
            if d > self.objs.len() as u32 {
                return u32::MAX;
            }
        }
        d
    }
    pub fn max_chain(&self) -> u32 {
        (0..self.keys.len()).map(|k| self.chain(k)).max().unwrap_or(0)
    }
    pub fn known(&self) -> u32 {
        self.keys.iter().filter(|k| **k >= 0).count() as u32
    }
}
pub fn snapshots(on: bool) {
    SNAP.with(|s| *s.borrow_mut() = if on { Some(vec![]) } else { None });
}

/// The closure of the recorded pairs.
#[derive(Clone)]
pub struct Closure(pub Vec<u32>);
impl Closure {
    pub fn new(n: u32) -> Self {
        Closure((0..n).collect())
    }
    pub fn same(&self, a: u32, b: u32) -> bool {
        self.0[a as usize] == self.0[b as usize]
    }
    pub fn join(&mut self, a: u32, b: u32) {
        let (x, y) = (self.0[a as usize], self.0[b as usize]);
        for v in &mut self.0 {
            if *v == y {
                *v = x
            }
        }
    }
}

/// The documented phases.
#[derive(Clone)]
pub struct Phases {
    pub f: u16,
    pub s: u32,
    /// pairs still let through unseen
    pub fast: u32,
    /// consecutive pairs in the slow phase that were not known
    pub slow: u32,
    pub cl: Closure,
}
#[derive(Debug, PartialEq)]
pub struct Step {
    pub descend: bool,
    pub consult: bool,
    pub random: Option<u16>,
}
impl Phases {
    pub fn step(&mut self, a: u32, b: u32, draw: Option<u16>) -> Step {
        if self.fast > 0 {
            self.fast -= 1;
            return Step { descend: true, consult: false, random: None };
        }
        if self.slow == self.s {
            // this pair switches to the fast phase
            self.slow = 0;
            self.fast = draw.unwrap_or(0) as u32;
            return Step { descend: true, consult: false, random: Some(self.f + 1) };
        }
        if self.cl.same(a, b) {
            self.slow = 0;
            Step { descend: false, consult: true, random: None }
        } else {
            self.slow += 1;
            self.cl.join(a, b);
            Step { descend: true, consult: true, random: None }
        }
    }
    /// As `step`, only whether the pair's edges are to be compared.
    pub fn go(&mut self, a: u32, b: u32, draw: &mut dyn FnMut() -> u16) -> bool {
        let d = if self.fast == 0 && self.slow == self.s { Some(draw()) } else { None };
        self.step(a, b, d).descend
    }
}
