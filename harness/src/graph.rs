//! Finite rooted graphs with ordered edges, their exhaustive canonical enumeration, and families.

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Graph {
    pub label: Vec<u8>,
    pub off: Vec<u32>,
    pub tgt: Vec<u32>,
    /// The second root (the first is node 0).
    pub rb: u32,
}

impl Graph {
    pub fn new() -> Self {
        Graph { label: vec![], off: vec![0], tgt: vec![], rb: 1 }
    }
    pub fn from(nodes: &[(u8, &[u32])]) -> Self {
        let mut g = Graph::new();
        for (l, t) in nodes {
            g.push(*l, t);
        }
        g
    }
    pub fn from_vecs(nodes: &[(u8, Vec<u32>)]) -> Self {
        let mut g = Graph::new();
        for (l, t) in nodes {
            g.push(*l, t);
        }
        g
    }
    pub fn push(&mut self, label: u8, tgts: &[u32]) -> u32 {
        self.label.push(label);
        self.tgt.extend_from_slice(tgts);
        self.off.push(self.tgt.len() as u32);
        self.label.len() as u32 - 1
    }
    fn pop(&mut self) {
        self.label.pop();
        self.off.pop();
        self.tgt.truncate(*self.off.last().unwrap() as usize);
    }
    #[inline]
    pub fn n(&self) -> usize {
        self.label.len()
    }
    #[inline]
    pub fn deg(&self, i: u32) -> u32 {
        self.off[i as usize + 1] - self.off[i as usize]
    }
    #[inline]
    pub fn edge(&self, i: u32, k: u32) -> Option<u32> {
        if k < self.deg(i) { Some(self.tgt[(self.off[i as usize] + k) as usize]) } else { None }
    }
    pub fn branches(&self) -> u64 {
        (0..self.n() as u32).filter(|&i| self.deg(i) > 0).count() as u64
    }
    pub fn max_deg(&self) -> u64 {
        (0..self.n() as u32).map(|i| self.deg(i) as u64).max().unwrap_or(0)
    }
    pub fn copy_from(&mut self, o: &Graph) {
        self.label.clone_from(&o.label);
        self.off.clone_from(&o.off);
        self.tgt.clone_from(&o.tgt);
        self.rb = o.rb;
    }
    pub fn to_vecs(&self) -> Vec<(u8, Vec<u32>)> {
        (0..self.n() as u32)
            .map(|i| (self.label[i as usize], (0..self.deg(i)).map(|k| self.edge(i, k).unwrap()).collect()))
            .collect()
    }
    pub fn enc(&self) -> String {
        let mut s = String::new();
        if self.rb == 0 {
            s.push('=');
        }
        for i in 0..self.n() as u32 {
            if i > 0 {
                s.push(';');
            }
            s.push_str(&format!("{}:", self.label[i as usize]));
            for k in 0..self.deg(i) {
                if k > 0 {
                    s.push('.');
                }
                s.push_str(&self.edge(i, k).unwrap().to_string());
            }
        }
        s
    }
    pub fn dec(s: &str) -> Self {
        let mut g = Graph::new();
        let s = match s.strip_prefix('=') {
            Some(r) => {
                g.rb = 0;
                r
            }
            None => s,
        };
        for part in s.split(';') {
            let (l, t) = part.split_once(':').expect("graph syntax");
            let t: Vec<u32> = if t.is_empty() { vec![] } else { t.split('.').map(|x| x.parse().unwrap()).collect() };
            g.push(l.parse().unwrap(), &t);
        }
        g
    }
    /// No cycle among the nodes (all nodes are reachable from the roots by construction).
    pub fn is_acyclic(&self) -> bool {
        let n = self.n();
        let mut indeg = vec![0u32; n];
        for &t in &self.tgt {
            if (t as usize) < n {
                indeg[t as usize] += 1;
            }
        }
        let mut st: Vec<u32> = (0..n as u32).filter(|&i| indeg[i as usize] == 0).collect();
        let mut seen = 0;
        while let Some(i) = st.pop() {
            seen += 1;
            for k in 0..self.deg(i) {
                let t = self.edge(i, k).unwrap() as usize;
                if t < n {
                    indeg[t] -= 1;
                    if indeg[t] == 0 {
                        st.push(t as u32);
                    }
                }
            }
        }
        seen == n
    }
}

/// What to enumerate: every graph with at most `max_n` nodes, reachable from `roots` distinct root
/// nodes 0..roots, ordered edges, degrees from `degs`, labels from `labels`; exactly one
/// representative per isomorphism class of (graph, ordered roots).
#[derive(Clone)]
pub struct Spec {
    pub max_n: u32,
    pub degs: &'static [u32],
    pub labels: &'static [u8],
    pub roots: u32,
    pub acyclic: bool,
}

impl Spec {
    pub fn new(max_n: u32, degs: &'static [u32], labels: &'static [u8], roots: u32) -> Self {
        Spec { max_n, degs, labels, roots, acyclic: false }
    }
    pub fn acyclic(mut self) -> Self {
        self.acyclic = true;
        self
    }
    pub fn describe(&self) -> String {
        format!(
            "all {}graphs with <= {} nodes reachable from {} roots{}, degrees {:?}, labels {:?}, up to isomorphism",
            if self.acyclic { "acyclic " } else { "" },
            self.max_n,
            self.roots,
            if self.roots == 2 { " (different or the same)" } else { "" },
            self.degs,
            self.labels
        )
    }
    /// Partial graphs after the first nodes were chosen; each is an independent task.
    pub fn tasks(&self) -> Vec<(Graph, u32)> {
        let mut v = vec![];
        let mut g = Graph::new();
        let stop = self.roots.min(2);
        self.rec(&mut g, self.roots, stop, &mut |g, d| v.push((g.clone(), d)));
        if self.roots == 2 {
            let one = Spec { roots: 1, ..self.clone() };
            g.rb = 0;
            one.rec(&mut g, 1, 1, &mut |g, d| v.push((g.clone(), d)));
        }
        // Small graphs first, so that simple counterexamples are found first.
        v.sort_by_key(|(g, d)| (*d, g.tgt.len()));
        v
    }
    pub fn run_task(&self, task: &(Graph, u32), f: &mut dyn FnMut(&Graph)) {
        let mut g = task.0.clone();
        self.rec(&mut g, task.1, u32::MAX, &mut |g, _| f(g));
    }
    fn rec(&self, g: &mut Graph, disc: u32, stop: u32, f: &mut dyn FnMut(&Graph, u32)) {
        let i = g.n() as u32;
        if i == disc || i == stop {
            f(g, disc);
            return;
        }
        let mut t = Vec::new();
        for &d in self.degs {
            for &l in self.labels {
                self.targets(g, disc, stop, l, d, &mut t, f);
            }
        }
    }
    fn targets(
        &self,
        g: &mut Graph,
        disc: u32,
        stop: u32,
        l: u8,
        d: u32,
        t: &mut Vec<u32>,
        f: &mut dyn FnMut(&Graph, u32),
    ) {
        if t.len() as u32 == d {
            g.push(l, t);
            if !self.acyclic || !closes_cycle(g) {
                self.rec(g, disc, stop, f);
            }
            g.pop();
            return;
        }
        for x in 0..=disc.min(self.max_n - 1) {
            t.push(x);
            let nd = if x == disc { disc + 1 } else { disc };
            self.targets(g, nd, stop, l, d, t, f);
            t.pop();
        }
    }
}

/// Does the last pushed node lie on a cycle of the nodes pushed so far?
fn closes_cycle(g: &Graph) -> bool {
    let last = g.n() as u32 - 1;
    let mut seen = 0u64;
    let mut st = vec![last];
    while let Some(i) = st.pop() {
        for k in 0..g.deg(i) {
            let t = g.edge(i, k).unwrap();
            if t == last {
                return true;
            }
            if t < last && seen >> t & 1 == 0 {
                seen |= 1 << t;
                st.push(t);
            }
        }
    }
    false
}

/// Parametrised families of one graph; node 0 is the head.  `mutate` then changes one node.
pub const FAMILIES: &[&str] = &[
    "list_tail_last", "list_tail_first", "degenerate_dag", "degenerate_cyclic", "ring", "tree", "wide", "ladder",
    "ring_leaf", "chain1", "comb3", "debruijn",
];

pub fn family(kind: usize, n: u32) -> Vec<(u8, Vec<u32>)> {
    let n = n.max(1);
    let mut v: Vec<(u8, Vec<u32>)> = vec![];
    match FAMILIES[kind] {
        // every pair: (leaf, tail)
        "list_tail_last" | "list_tail_first" => {
            let last = FAMILIES[kind] == "list_tail_last";
            for i in 0..n {
                let (leaf, tail) = (2 * i + 1, 2 * i + 2);
                v.push((0, if last { vec![leaf, tail] } else { vec![tail, leaf] }));
                v.push((0, vec![]));
            }
            v.push((0, vec![]));
        }
        "degenerate_dag" => {
            for i in 0..n {
                v.push((0, vec![i + 1, i + 1]));
            }
            v.push((0, vec![]));
        }
        "degenerate_cyclic" => {
            for i in 0..n {
                v.push((0, vec![(i + 1) % n, (i + 1) % n]));
            }
        }
        "ring" => {
            for i in 0..n {
                v.push((0, vec![(i + 1) % n]));
            }
        }
        "ring_leaf" => {
            for i in 0..n {
                v.push((0, vec![n, (i + 1) % n]));
            }
            v.push((0, vec![]));
        }
        "tree" => {
            for i in 0..n {
                if 2 * i + 2 < n { v.push((0, vec![2 * i + 1, 2 * i + 2])) } else { v.push((0, vec![])) }
            }
        }
        "wide" => {
            v.push((0, (1..=n).collect()));
            for _ in 0..n {
                v.push((0, vec![]));
            }
        }
        // cyclic ladder: both a next edge and an edge two ahead
        "ladder" => {
            for i in 0..n {
                v.push((0, vec![(i + 2) % n, (i + 1) % n]));
            }
        }
        "chain1" => {
            for i in 0..n {
                v.push((0, vec![i + 1]));
            }
            v.push((0, vec![]));
        }
        // branch with a two-node twig, the tail in the middle
        "comb3" => {
            for i in 0..n {
                let b = 3 * i;
                v.push((0, vec![b + 1, b + 3, b + 2]));
                v.push((0, vec![b + 2]));
                v.push((0, vec![]));
            }
            v.push((0, vec![]));
        }
        "debruijn" => {
            for i in 0..n {
                v.push((0, vec![(2 * i) % n, (2 * i + 1) % n]));
            }
        }
        _ => unreachable!(),
    }
    v
}

pub fn family_is_acyclic(kind: usize) -> bool {
    !matches!(FAMILIES[kind], "degenerate_cyclic" | "ring" | "ladder" | "ring_leaf" | "debruijn")
}
/// The unfolding has a size linear in the graph (no shared structure doubling the work).
pub fn family_is_thin(kind: usize) -> bool {
    family_is_acyclic(kind) && FAMILIES[kind] != "degenerate_dag"
}

/// Mutations of node `at`: 0 none, 1 label up, 2 drop last edge, 3 add an edge to self/last node, 4 retarget
/// the first edge to the head.
pub fn mutate(v: &mut Vec<(u8, Vec<u32>)>, what: u32, at: u32) {
    let n = v.len() as u32;
    let at = (at % n) as usize;
    match what {
        0 => (),
        1 => v[at].0 += 1,
        2 => drop(v[at].1.pop()),
        3 => v[at].1.push(n - 1),
        4 => {
            if let Some(e) = v[at].1.first_mut() {
                *e = if *e == n - 1 { 0 } else { n - 1 }
            }
        }
        _ => unreachable!(),
    }
}

/// Put two graphs side by side; the roots are 0 and the returned number.
pub fn side_by_side(a: &[(u8, Vec<u32>)], b: &[(u8, Vec<u32>)]) -> (Graph, u32) {
    let mut g = Graph::new();
    for (l, t) in a {
        g.push(*l, t);
    }
    let o = a.len() as u32;
    let mut buf = vec![];
    for (l, t) in b {
        buf.clear();
        buf.extend(t.iter().map(|x| x + o));
        g.push(*l, &buf);
    }
    (g, o)
}
