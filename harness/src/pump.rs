//! Repeated patterns: small gadgets chained to any length.
use crate::graph::*;

/// All edge lists of up to `deg` edges to the `m` nodes of the copy, the next copy's entry (m) or a
/// leaf (m + 1).
pub fn edge_lists(m: u32, deg: u32) -> Vec<Vec<u32>> {
    let mut v: Vec<Vec<u32>> = vec![vec![]];
    let mut from = 0;
    for _ in 0..deg {
        let to = v.len();
        for i in from..to {
            for t in 0..m + 2 {
                let mut w = v[i].clone();
                w.push(t);
                v.push(w);
            }
        }
        from = to;
    }
    v
}
/// [m, deg, code...]; only gadgets that lead on to the next copy, all of whose nodes are reachable.
pub fn gadgets(m: u32, deg: u32) -> Vec<Vec<i64>> {
    let lists = edge_lists(m, deg);
    let mut out = vec![];
    let mut code = vec![0usize; m as usize];
    loop {
        let mut seen = 1u32;
        let mut st = vec![0u32];
        let mut on = false;
        while let Some(i) = st.pop() {
            for &t in &lists[code[i as usize]] {
                if t == m {
                    on = true
                } else if t < m && seen >> t & 1 == 0 {
                    seen |= 1 << t;
                    st.push(t)
                }
            }
        }
        if on && seen == (1 << m) - 1 {
            let mut x = vec![m as i64, deg as i64];
            x.extend(code.iter().map(|c| *c as i64));
            out.push(x);
        }
        let mut i = 0;
        loop {
            if i == code.len() {
                return out;
            }
            code[i] += 1;
            if code[i] < lists.len() {
                break;
            }
            code[i] = 0;
            i += 1;
        }
    }
}
/// `len` copies; `cyclic`: the last leads to the first, else to the leaf; `wide`: a root with an edge to
/// each copy, which lead on to the leaf (wide 1) or to the next copy (wide 2).
pub fn pump(x: &[i64], len: u32, cyclic: bool, wide: i64) -> Vec<(u8, Vec<u32>)> {
    let m = x[0] as u32;
    let lists = edge_lists(m, x[1] as u32);
    let root = (wide > 0) as u32;
    let leaf = root + m * len;
    let entry = |c: u32| root + c * m;
    let mut v: Vec<(u8, Vec<u32>)> = vec![];
    if wide > 0 {
        v.push((0, (0..len).map(entry).collect()));
    }
    for c in 0..len {
        for i in 0..m {
            let e = lists[x[2 + i as usize] as usize]
                .iter()
                .map(|&t| {
                    if t < m {
                        entry(c) + t
                    } else if t == m && wide != 1 {
                        if c + 1 < len { entry(c + 1) } else if cyclic { entry(0) } else { leaf }
                    } else {
                        leaf
                    }
                })
                .collect();
            v.push((0, e));
        }
    }
    v.push((0, vec![]));
    v
}
/// The two sides: 0 separate copies, 1 the last node with edges of the right side differs, 2 the right
/// is only another root of the left, 3 one more copy on the right.
pub fn sides(x: &[i64], len: u32, cyclic: bool, wide: i64, how: i64) -> (Graph, u32) {
    let a = pump(x, len, cyclic, wide);
    match how {
        2 => {
            let mut g = Graph::new();
            for (l, t) in &a {
                g.push(*l, t);
            }
            g.push(a[0].0, &a[0].1);
            let n = a.len() as u32;
            (g, n)
        }
        3 => side_by_side(&a, &pump(x, len + 1, cyclic, wide)),
        _ => {
            let mut b = a.clone();
            if how == 1 {
                let n = b.len();
                b[n - 2].0 = 1;
            }
            side_by_side(&a, &b)
        }
    }
}
