//! Reference models: plain searches of the product of two graphs.
use crate::graph::Graph;
use crate::node::{child_path, lab_eq, Ordering, Val, ROOT};
use std::collections::{HashSet, VecDeque};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Order {
    Breadth,
    Depth,
}

/// The first difference in some traversal order.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Diff {
    Label { a: u32, b: u32, path: u64 },
    Amount { a: u32, b: u32, ord: Ordering, path: u64 },
}
impl Diff {
    pub fn val(d: &Option<Diff>, g: &Graph) -> Val {
        match d {
            None => Val::Equiv,
            Some(Diff::Label { a, b, path }) => Val::Lab(g.label[*a as usize], g.label[*b as usize], *path),
            Some(Diff::Amount { ord, .. }) => Val::Ord(*ord),
        }
    }
    pub fn ord(d: &Option<Diff>, g: &Graph) -> Ordering {
        match d {
            None => Ordering::Equal,
            Some(Diff::Label { a, b, .. }) => g.label[*a as usize].cmp(&g.label[*b as usize]),
            Some(Diff::Amount { ord, .. }) => *ord,
        }
    }
}

pub struct Out {
    pub diff: Option<Diff>,
    /// Distinct counterpart pairs visited.
    pub states: u64,
    /// Edge pairs followed.
    pub transitions: u64,
    /// Pairs that were descended into.
    pub branch_pairs: u64,
}

pub struct Seen {
    n: u64,
    bits: Vec<u64>,
    set: HashSet<u64>,
}
impl Seen {
    pub fn new(n: usize) -> Self {
        let n = n as u64;
        let bits = if n * n <= 1 << 26 { vec![0; (n * n / 64 + 1) as usize] } else { vec![] };
        Seen { n, bits, set: HashSet::new() }
    }
    #[inline]
    pub fn insert(&mut self, a: u32, b: u32) -> bool {
        let k = a as u64 * self.n + b as u64;
        if self.bits.is_empty() {
            return self.set.insert(k);
        }
        let w = &mut self.bits[(k / 64) as usize];
        let m = 1 << (k % 64);
        let r = *w & m == 0;
        *w |= m;
        r
    }
}

struct Pend {
    a: u32,
    b: u32,
    k: u32,
    path: u64,
}

/// `memo`: skip counterpart pairs already visited (the product-graph search); otherwise unfold
/// without pruning, up to `cap` visits.  The last component: number of visits, or None at the cap.
pub fn search(g: &Graph, ra: u32, rb: u32, order: Order, memo: bool, cap: u64) -> (Out, Option<u64>) {
    search_peak(g, ra, rb, order, memo, cap, &mut 0)
}

/// As `search`; `peak` gets the maximum of pending pairs with remaining edges.
pub fn search_peak(g: &Graph, ra: u32, rb: u32, order: Order, memo: bool, cap: u64, peak: &mut usize) -> (Out, Option<u64>) {
    let mut seen = if memo { Seen::new(g.n()) } else { Seen { n: 0, bits: vec![], set: HashSet::new() } };
    let mut out = Out { diff: None, states: 0, transitions: 0, branch_pairs: 0 };
    let mut q: VecDeque<Pend> = VecDeque::new();
    let mut visits = 0u64;
    let mut cur = Some((ra, rb, ROOT));
    loop {
        if let Some((a, b, path)) = cur.take() {
            if visits == cap {
                return (out, None);
            }
            visits += 1;
            if !memo || seen.insert(a, b) {
                out.states += 1;
                if a != b {
                    if !lab_eq(g.label[a as usize], g.label[b as usize]) {
                        out.diff = Some(Diff::Label { a, b, path });
                        return (out, Some(visits));
                    }
                    let (da, db) = (g.deg(a), g.deg(b));
                    if (da == 0) != (db == 0) {
                        out.diff = Some(Diff::Amount { a, b, ord: da.cmp(&db), path });
                        return (out, Some(visits));
                    }
                    if da != 0 {
                        out.branch_pairs += 1;
                        q.push_back(Pend { a, b, k: 0, path });
                        *peak = (*peak).max(q.len());
                    }
                }
            }
        }
        let p = match order {
            Order::Breadth => q.front_mut(),
            Order::Depth => q.back_mut(),
        };
        let Some(p) = p else { return (out, Some(visits)) };
        match (g.edge(p.a, p.k), g.edge(p.b, p.k)) {
            (Some(x), Some(y)) => {
                out.transitions += 1;
                cur = Some((x, y, child_path(p.path, p.k as u64)));
                p.k += 1;
                if g.edge(p.a, p.k).is_none() && g.edge(p.b, p.k).is_none() {
                    match order {
                        Order::Breadth => q.pop_front(),
                        Order::Depth => q.pop_back(),
                    };
                }
            }
            (x, y) => {
                let ord = x.is_some().cmp(&y.is_some());
                debug_assert!(ord != Ordering::Equal);
                out.diff = Some(Diff::Amount { a: p.a, b: p.b, ord, path: p.path });
                return (out, Some(visits));
            }
        }
    }
}

/// The bisimulation verdict and first difference of the pruned search.
pub fn first(g: &Graph, ra: u32, rb: u32, order: Order) -> Out {
    search(g, ra, rb, order, true, u64::MAX).0
}

/// All differences that any traversal could meet: (set of values).
pub fn all_diffs(g: &Graph, ra: u32, rb: u32) -> Vec<Val> {
    // Paths are not bounded for cyclic graphs, so only the path-free part is compared.
    let mut seen = Seen::new(g.n());
    let mut st = vec![(ra, rb)];
    let mut v = vec![];
    while let Some((a, b)) = st.pop() {
        if a == b || !seen.insert(a, b) {
            continue;
        }
        let (la, lb) = (g.label[a as usize], g.label[b as usize]);
        if !lab_eq(la, lb) {
            v.push(Val::Lab(la, lb, 0));
            continue;
        }
        let (da, db) = (g.deg(a), g.deg(b));
        if da != db {
            v.push(Val::Ord(da.cmp(&db)));
        }
        for k in 0..da.min(db) {
            st.push((g.edge(a, k).unwrap(), g.edge(b, k).unwrap()));
        }
    }
    v
}
