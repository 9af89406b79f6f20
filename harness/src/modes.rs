//! User-supplied modes whose every answer is a choice of the explorer.
use crate::choice::choose;
use crate::graph::Graph;
use crate::node::*;
use crate::refm::{Diff, Order};
use crate::variants::{QP, SP};
use graph_safe_compare::basic::recursion::callstack::CallStack;
use graph_safe_compare::deep_safe::recursion::queue::RecurQueue;
use graph_safe_compare::generic::equiv::{self, DescendMode, Equiv};
use graph_safe_compare::wide_safe::recursion::stack::RecurStack;
use graph_safe_compare::Cmp;
use std::cell::{Cell, RefCell};
use std::collections::VecDeque;
use std::convert::Infallible;
use std::marker::PhantomData;

/// The error of a user-supplied mode.
#[derive(Debug, PartialEq, Eq)]
pub struct UErr(pub u32);
/// The error of the comparison.
#[derive(Debug, PartialEq, Eq)]
pub struct PErr {
    pub tag: u32,
    pub convs: u32,
}
thread_local! {
    pub static CONVS: Cell<u32> = Cell::new(0);
    pub static ASK: RefCell<AskEnv> = RefCell::new(AskEnv::default());
}
impl From<UErr> for PErr {
    fn from(e: UErr) -> Self {
        CONVS.with(|c| c.set(c.get() + 1));
        PErr { tag: e.0, convs: 1 }
    }
}
impl From<Infallible> for PErr {
    fn from(e: Infallible) -> Self {
        match e {}
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum A {
    Yes,
    No,
    Err,
}
/// A question to the mode and its answer.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Q {
    Traverse(A),
    Edges(u32, u32, A),
}
#[derive(Default)]
pub struct AskEnv {
    pub log: Vec<Q>,
    /// how many questions have free answers
    pub free: u32,
    /// after this many questions descents are refused
    pub stop: u32,
    /// is an error among the free answers
    pub errs: bool,
    pub asked: u32,
}
pub fn ask_reset(free: u32, stop: u32, errs: bool) {
    ASK.with(|a| *a.borrow_mut() = AskEnv { free, stop, errs, ..Default::default() });
    CONVS.with(|c| c.set(0));
}
fn answer(edges: bool) -> A {
    ASK.with(|e| {
        let e = &mut *e.borrow_mut();
        let k = e.asked;
        e.asked += 1;
        if k < e.free {
            match choose(if e.errs { 3 } else { 2 }) {
                0 => A::Yes,
                1 => A::No,
                _ => A::Err,
            }
        } else if edges && k >= e.stop {
            A::No
        } else {
            A::Yes
        }
    })
}
fn log(q: Q) {
    ASK.with(|e| e.borrow_mut().log.push(q))
}

/// Asks the explorer.
#[derive(Default)]
pub struct Ask;
impl<'c, K: Kind, P: equiv::Params<Node = Nd<'c, K>>> DescendMode<P> for Ask
where
    UErr: Into<P::Error>,
{
    type Error = UErr;
    fn do_edges(&mut self, a: &P::Node, b: &P::Node) -> Result<bool, UErr> {
        let r = answer(true);
        a.told(b);
        log(Q::Edges(a.i, b.i, r));
        match r {
            A::Yes => Ok(true),
            A::No => {
                a.close();
                b.close();
                Ok(false)
            }
            A::Err => {
                note_fail();
                a.close();
                b.close();
                Err(UErr(1000 + a.i * 16 + b.i))
            }
        }
    }
    fn do_traverse(&mut self) -> Result<bool, UErr> {
        let r = answer(false);
        log(Q::Traverse(r));
        match r {
            A::Yes => Ok(true),
            A::No => Ok(false),
            A::Err => {
                note_fail();
                Err(UErr(ASK.with(|e| e.borrow().asked)))
            }
        }
    }
}

pub struct AP<N, D, R>(PhantomData<(N, D, R)>);
macro_rules! ap { ($($r:ty),*) => { $(
    impl<'c, K: Kind> equiv::Params for AP<Nd<'c, K>, Ask, $r> {
        type Node = Nd<'c, K>;
        type DescendMode = Ask;
        type RecurMode = $r;
        type Error = PErr;
    }
)* } }
ap!(CallStack, RecurQueue<QP<Nd<'c, K>>>, RecurStack<SP<Nd<'c, K>>>);

pub fn ask_run<'c, K: Kind>(r: crate::variants::R, a: Nd<'c, K>, b: Nd<'c, K>) -> Result<K::Cmp, PErr> {
    use crate::variants::R;
    match r {
        R::Call => Equiv::<AP<Nd<'c, K>, Ask, CallStack>>::default().equiv(a, b),
        R::Queue => Equiv::<AP<Nd<'c, K>, Ask, RecurQueue<QP<Nd<'c, K>>>>>::default().equiv(a, b),
        R::Stack => Equiv::<AP<Nd<'c, K>, Ask, RecurStack<SP<Nd<'c, K>>>>>::default().equiv(a, b),
    }
}

/// What must happen with these answers: checks the questions, gives the result and the value
/// comparisons made.
pub struct AskOut {
    pub result: Result<Option<Diff>, u32>,
    pub cmps: Vec<(u32, u32, u64)>,
}
pub fn ask_model(g: &Graph, ra: u32, rb: u32, order: Order, log: &[Q]) -> Result<AskOut, String> {
    let mut cmps = vec![];
    let mut q: VecDeque<(u32, u32, u32, u64)> = VecDeque::new();
    let mut cur = Some((ra, rb, ROOT));
    let mut at = 0;
    let done = |r, cmps, at: usize| {
        if at != log.len() {
            return Err(format!("the mode is asked {:?} although the comparison must end after question {at}", &log[at..]));
        }
        Ok(AskOut { result: r, cmps })
    };
    loop {
        if let Some((a, b, path)) = cur.take() {
            let t = match log.get(at) {
                Some(Q::Traverse(t)) => *t,
                x => return Err(format!("question {at} is {x:?}, instead of whether to traverse the pair ({a},{b})")),
            };
            at += 1;
            match t {
                A::Err => return done(Err(at as u32), cmps, at),
                A::No => (),
                A::Yes if a == b => (),
                A::Yes => {
                    cmps.push((a, b, path));
                    if !lab_eq(g.label[a as usize], g.label[b as usize]) {
                        return done(Ok(Some(Diff::Label { a, b, path })), cmps, at);
                    }
                    let (da, db) = (g.deg(a), g.deg(b));
                    if (da == 0) != (db == 0) {
                        return done(Ok(Some(Diff::Amount { a, b, ord: da.cmp(&db), path })), cmps, at);
                    }
                    if da > 0 {
                        let e = match log.get(at) {
                            Some(Q::Edges(x, y, e)) if (*x, *y) == (a, b) => *e,
                            x => return Err(format!("question {at} is {x:?}, instead of whether to descend from the pair ({a},{b})")),
                        };
                        at += 1;
                        match e {
                            A::Yes => q.push_back((a, b, 0, path)),
                            A::No => (),
                            A::Err => return done(Err(1000 + a * 16 + b), cmps, at),
                        }
                    }
                }
            }
        }
        let p = if order == Order::Breadth { q.front_mut() } else { q.back_mut() };
        let Some(p) = p else { return done(Ok(None), cmps, at) };
        let (a, b, k, path) = *p;
        p.2 += 1;
        match (g.edge(a, k), g.edge(b, k)) {
            (Some(x), Some(y)) => cur = Some((x, y, child_path(path, k as u64))),
            (None, None) => {
                if order == Order::Breadth {
                    q.pop_front()
                } else {
                    q.pop_back()
                };
            }
            (x, y) => return done(Ok(Some(Diff::Amount { a, b, ord: x.is_some().cmp(&y.is_some()), path })), cmps, at),
        }
    }
}

pub fn is_equiv<C: Cmp>(c: &C) -> bool {
    c.is_equiv()
}

/// The real interleaving, noting refused descents.
pub struct Closing<I: graph_safe_compare::cycle_safe::modes::interleave::Params>(graph_safe_compare::cycle_safe::modes::interleave::Interleave<I>);
impl<I: graph_safe_compare::cycle_safe::modes::interleave::Params> Default for Closing<I> {
    fn default() -> Self {
        Closing(Default::default())
    }
}
impl<'c, K: Kind, P, I> DescendMode<P> for Closing<I>
where
    P: equiv::Params<Node = Nd<'c, K>>,
    I: graph_safe_compare::cycle_safe::modes::interleave::Params<Node = Nd<'c, K>>,
    I::Table: graph_safe_compare::generic::equiv_classes::Table<Node = Nd<'c, K>>,
    Infallible: Into<P::Error>,
{
    type Error = Infallible;
    fn do_edges(&mut self, a: &P::Node, b: &P::Node) -> Result<bool, Infallible> {
        a.told(b);
        let r = <graph_safe_compare::cycle_safe::modes::interleave::Interleave<I> as DescendMode<crate::variants::EpQueue<I>>>::do_edges(&mut self.0, a, b)?;
        if !r {
            a.close();
            b.close();
        }
        Ok(r)
    }
    fn do_traverse(&mut self) -> Result<bool, Infallible> {
        <graph_safe_compare::cycle_safe::modes::interleave::Interleave<I> as DescendMode<crate::variants::EpQueue<I>>>::do_traverse(&mut self.0)
    }
}
pub struct CP<N, I, R>(PhantomData<(N, I, R)>);
macro_rules! cp { ($($r:ty),*) => { $(
    impl<'c, K: Kind, I: graph_safe_compare::cycle_safe::modes::interleave::Params<Node = Nd<'c, K>>> equiv::Params for CP<Nd<'c, K>, I, $r>
    where I::Table: graph_safe_compare::generic::equiv_classes::Table<Node = Nd<'c, K>>
    {
        type Node = Nd<'c, K>;
        type DescendMode = Closing<I>;
        type RecurMode = $r;
        type Error = Infallible;
    }
)* } }
cp!(CallStack, RecurQueue<QP<Nd<'c, K>>>, RecurStack<SP<Nd<'c, K>>>);
pub fn closing_run<'c, K: Kind, I: graph_safe_compare::cycle_safe::modes::interleave::Params<Node = Nd<'c, K>>>(r: crate::variants::R, a: Nd<'c, K>, b: Nd<'c, K>) -> K::Cmp
where
    I::Table: graph_safe_compare::generic::equiv_classes::Table<Node = Nd<'c, K>>,
{
    use crate::variants::R;
    crate::variants::ok(match r {
        R::Call => Equiv::<CP<Nd<'c, K>, I, CallStack>>::default().equiv(a, b),
        R::Queue => Equiv::<CP<Nd<'c, K>, I, RecurQueue<QP<Nd<'c, K>>>>>::default().equiv(a, b),
        R::Stack => Equiv::<CP<Nd<'c, K>, I, RecurStack<SP<Nd<'c, K>>>>>::default().equiv(a, b),
    })
}

// ---------------------------------------------------------------------------------------------
// User-supplied recursion modes.

use graph_safe_compare::generic::equiv::{CounterpartsResult, EdgesIter, RecurMode};
use graph_safe_compare::Node;

/// What a recursion mode did, in order.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum D {
    /// recurred at once
    Now,
    /// postponed the iterator
    Later,
    /// took all the edges at once, in this order, and postponed the pairs
    Eager(Vec<(u32, u32, u64)>, bool),
    /// failed
    Fail(u32),
    /// answered inequivalent on its own
    Differ,
    /// resumed the i-th postponed item
    Pick(u32),
    /// supplied an inequality on its own
    PickDiffer,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Style {
    Queue,
    Stack,
    Now,
    /// chosen at each step
    Any,
    /// chosen at each step, also eager expansion, in any order
    AnyEager,
}
pub struct OwnEnv {
    pub style: Style,
    pub log: Vec<D>,
    pub asked: u32,
    pub free: u32,
    /// roles (bits) that may fail
    pub fail: u32,
    pub differ: bool,
    pub calls: [u32; 2],
    pub resets: u32,
}
thread_local! {
    pub static OWN: RefCell<OwnEnv> = RefCell::new(OwnEnv { style: Style::Queue, log: vec![], asked: 0, free: 0, fail: 0, differ: false, calls: [0; 2], resets: 0 });
}
pub fn own_reset(style: Style, free: u32, fail: u32, differ: bool) {
    OWN.with(|o| *o.borrow_mut() = OwnEnv { style, log: vec![], asked: 0, free, fail, differ, calls: [0; 2], resets: 0 });
    CONVS.with(|c| c.set(0));
}
fn decide(n: u32) -> u32 {
    let free = OWN.with(|o| {
        let o = &mut *o.borrow_mut();
        o.asked += 1;
        o.asked <= o.free
    });
    if free { choose(n) } else { 0 }
}
fn did(d: D) {
    OWN.with(|o| o.borrow_mut().log.push(d))
}
enum Pending<N: Node> {
    It(EdgesIter<N>),
    Pair([N; 2]),
    Amount(N::Cmp),
}
/// A recursion mode under the explorer's control.  `ROLE` 0: precheck (or only), 1: main.
pub struct Own<N: Node, const ROLE: usize>(VecDeque<Pending<N>>);
impl<N: Node, const ROLE: usize> Default for Own<N, ROLE> {
    fn default() -> Self {
        Own(VecDeque::new())
    }
}
impl<N: Node> From<Own<N, 0>> for Own<N, 1> {
    fn from(o: Own<N, 0>) -> Self {
        Own(o.0)
    }
}
/// The value a mode answers on its own.
pub trait OwnVal {
    fn own_val() -> Self;
}
impl OwnVal for Val {
    fn own_val() -> Self {
        Val::Lab(77, 88, 99)
    }
}
impl OwnVal for bool {
    fn own_val() -> Self {
        false
    }
}
enum Plan {
    Fail(u32),
    Differ,
    Now,
    Back,
    Front,
    Eager,
}
fn plan<const ROLE: usize>() -> Plan {
    let (style, fail, differ, call) = OWN.with(|o| {
        let o = &mut *o.borrow_mut();
        o.calls[ROLE] += 1;
        (o.style, o.fail >> ROLE & 1 == 1, o.differ, o.calls[ROLE])
    });
    let mut opts: Vec<Plan> = match style {
        Style::Queue => vec![Plan::Back],
        Style::Stack => vec![Plan::Front],
        Style::Now => vec![Plan::Now],
        Style::Any => vec![Plan::Back, Plan::Now],
        Style::AnyEager => vec![Plan::Back, Plan::Now, Plan::Eager],
    };
    if fail {
        opts.push(Plan::Fail(100 * (ROLE as u32 + 1) + call));
    }
    if differ {
        opts.push(Plan::Differ);
    }
    let k = if opts.len() > 1 { decide(opts.len() as u32) } else { 0 };
    opts.swap_remove(k as usize)
}
impl<'c, K: Kind, P, const ROLE: usize> RecurMode<P> for Own<Nd<'c, K>, ROLE>
where
    P: equiv::Params<Node = Nd<'c, K>, RecurMode = Self>,
    UErr: Into<P::Error>,
    K::Cmp: OwnVal,
{
    type Error = P::Error;
    fn recur(it: &mut Equiv<P>, mut ei: EdgesIter<P::Node>) -> Result<K::Cmp, P::Error> {
        match plan::<ROLE>() {
            Plan::Fail(t) => {
                note_fail();
                did(D::Fail(t));
                Err(UErr(t).into())
            }
            Plan::Differ => {
                did(D::Differ);
                Ok(K::Cmp::own_val())
            }
            Plan::Now => {
                did(D::Now);
                for x in ei {
                    match x {
                        Ok([a, b]) => match it.equiv_main(a, b) {
                            Ok(c) if c.is_equiv() => (),
                            r => return r,
                        },
                        Err(c) => return Ok(c),
                    }
                }
                Ok(K::Cmp::new_equiv())
            }
            Plan::Back => {
                did(D::Later);
                it.recur_mode.0.push_back(Pending::It(ei));
                Ok(K::Cmp::new_equiv())
            }
            Plan::Front => {
                did(D::Later);
                it.recur_mode.0.push_front(Pending::It(ei));
                Ok(K::Cmp::new_equiv())
            }
            Plan::Eager => {
                let mut v = vec![];
                let mut am = false;
                while let Some(x) = ei.next() {
                    match x {
                        Ok([a, b]) => {
                            v.push((a.i, b.i, a.path));
                            it.recur_mode.0.push_back(Pending::Pair([a, b]));
                        }
                        Err(c) => {
                            am = true;
                            it.recur_mode.0.push_back(Pending::Amount(c));
                            break;
                        }
                    }
                }
                if !am && ei.next().is_some() {
                    v.push((u32::MAX, u32::MAX, 0));
                }
                did(D::Eager(v, am));
                Ok(K::Cmp::new_equiv())
            }
        }
    }
    fn next(&mut self) -> Option<CounterpartsResult<P::Node>> {
        loop {
            let n = self.0.len() as u32;
            if n == 0 {
                return None;
            }
            let (style, differ) = OWN.with(|o| (o.borrow().style, o.borrow().differ));
            let any = matches!(style, Style::Any | Style::AnyEager);
            let k = match (any, differ) {
                (true, false) => decide(n),
                (true, true) => decide(n + 1),
                (false, true) => decide(2) * n,
                (false, false) => 0,
            };
            if k == n {
                did(D::PickDiffer);
                return Some(Err(K::Cmp::own_val()));
            }
            did(D::Pick(k));
            match &mut self.0[k as usize] {
                Pending::It(e) => match e.next() {
                    Some(x) => return Some(x),
                    None => {
                        self.0.remove(k as usize);
                    }
                },
                _ => match self.0.remove(k as usize) {
                    Some(Pending::Pair(p)) => return Some(Ok(p)),
                    Some(Pending::Amount(c)) => return Some(Err(c)),
                    _ => unreachable!(),
                },
            }
        }
    }
    fn reset(mut self) -> Self {
        OWN.with(|o| o.borrow_mut().resets += 1);
        self.0.clear();
        self
    }
}

/// Like `Own`, but only postpones, and its error is of its own type.
pub struct Post<N: Node, const ROLE: usize>(VecDeque<EdgesIter<N>>);
impl<N: Node, const ROLE: usize> Default for Post<N, ROLE> {
    fn default() -> Self {
        Post(VecDeque::new())
    }
}
impl<N: Node> From<Post<N, 0>> for Post<N, 1> {
    fn from(o: Post<N, 0>) -> Self {
        Post(o.0)
    }
}
impl<'c, K: Kind, P, const ROLE: usize> RecurMode<P> for Post<Nd<'c, K>, ROLE>
where
    P: equiv::Params<Node = Nd<'c, K>, RecurMode = Self>,
    UErr: Into<P::Error>,
{
    type Error = UErr;
    fn recur(it: &mut Equiv<P>, ei: EdgesIter<P::Node>) -> Result<K::Cmp, UErr> {
        match plan::<ROLE>() {
            Plan::Fail(t) => {
                note_fail();
                did(D::Fail(t));
                Err(UErr(t))
            }
            Plan::Front => {
                did(D::Later);
                it.recur_mode.0.push_front(ei);
                Ok(K::Cmp::new_equiv())
            }
            _ => {
                did(D::Later);
                it.recur_mode.0.push_back(ei);
                Ok(K::Cmp::new_equiv())
            }
        }
    }
    fn next(&mut self) -> Option<CounterpartsResult<P::Node>> {
        loop {
            let f = self.0.front_mut()?;
            did(D::Pick(0));
            match f.next() {
                Some(x) => return Some(x),
                None => {
                    self.0.pop_front();
                }
            }
        }
    }
    fn reset(mut self) -> Self {
        OWN.with(|o| o.borrow_mut().resets += 1);
        self.0.clear();
        self
    }
}

impl<'c, K: Kind> equiv::Params for AP<Nd<'c, K>, Ask, Own<Nd<'c, K>, 0>>
where
    K::Cmp: OwnVal,
{
    type Node = Nd<'c, K>;
    type DescendMode = Ask;
    type RecurMode = Own<Nd<'c, K>, 0>;
    type Error = PErr;
}
impl<'c, K: Kind> equiv::Params for AP<Nd<'c, K>, Ask, Post<Nd<'c, K>, 0>> {
    type Node = Nd<'c, K>;
    type DescendMode = Ask;
    type RecurMode = Post<Nd<'c, K>, 0>;
    type Error = PErr;
}
pub fn own_run<'c, K: Kind>(a: Nd<'c, K>, b: Nd<'c, K>) -> Result<K::Cmp, PErr>
where
    K::Cmp: OwnVal,
{
    Equiv::<AP<Nd<'c, K>, Ask, Own<Nd<'c, K>, 0>>>::default().equiv(a, b)
}
pub fn post_run<'c, K: Kind>(a: Nd<'c, K>, b: Nd<'c, K>) -> Result<K::Cmp, PErr> {
    Equiv::<AP<Nd<'c, K>, Ask, Post<Nd<'c, K>, 0>>>::default().equiv(a, b)
}

/// The result of a comparison driven by logged decisions.
#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Diff(Option<Diff>),
    /// the mode's own value
    Own,
    Err(u32),
}
enum MP {
    It(u32, u32, u32, u64),
    Pair(u32, u32, u64),
    Amount(u32, u32, Ordering, u64),
}
/// Replays the decisions of the modes; checks that they were asked as documented.
pub struct OwnModel<'a> {
    pub g: &'a Graph,
    pub style: Style,
    pub log: &'a [D],
    pub at: usize,
    pub asks: &'a [Q],
    pub ask_at: usize,
    pub cmps: Vec<(u32, u32, u64)>,
    pend: VecDeque<MP>,
}
impl<'a> OwnModel<'a> {
    pub fn new(g: &'a Graph, style: Style, log: &'a [D], asks: &'a [Q]) -> Self {
        OwnModel { g, style, log, at: 0, asks, ask_at: 0, cmps: vec![], pend: VecDeque::new() }
    }
    fn take(&mut self, what: &str) -> Result<D, String> {
        match self.log.get(self.at) {
            Some(d) => {
                self.at += 1;
                Ok(d.clone())
            }
            None => Err(format!("the recursion mode was not asked to {what}")),
        }
    }
    /// None: go on.
    fn visit(&mut self, a: u32, b: u32, path: u64) -> Result<Option<End>, String> {
        let t = match self.asks.get(self.ask_at) {
            Some(Q::Traverse(t)) => *t,
            x => return Err(format!("question {} to the descend mode is {x:?}, expected whether to traverse ({a},{b})", self.ask_at)),
        };
        self.ask_at += 1;
        match t {
            A::Err => return Ok(Some(End::Err(self.ask_at as u32))),
            A::No => return Ok(None),
            A::Yes => (),
        }
        if a == b {
            return Ok(None);
        }
        self.cmps.push((a, b, path));
        let g = self.g;
        if !lab_eq(g.label[a as usize], g.label[b as usize]) {
            return Ok(Some(End::Diff(Some(Diff::Label { a, b, path }))));
        }
        let (da, db) = (g.deg(a), g.deg(b));
        if (da == 0) != (db == 0) {
            return Ok(Some(End::Diff(Some(Diff::Amount { a, b, ord: da.cmp(&db), path }))));
        }
        if da == 0 {
            return Ok(None);
        }
        match self.asks.get(self.ask_at) {
            Some(Q::Edges(x, y, e)) if (*x, *y) == (a, b) => {
                self.ask_at += 1;
                match e {
                    A::Yes => (),
                    A::No => return Ok(None),
                    A::Err => return Ok(Some(End::Err(1000 + a * 16 + b))),
                }
            }
            x => return Err(format!("question {} to the descend mode is {x:?}, expected whether to descend from ({a},{b})", self.ask_at)),
        }
        match self.take(&format!("recur on ({a},{b})"))? {
            D::Fail(t) => Ok(Some(End::Err(t))),
            D::Differ => Ok(Some(End::Own)),
            D::Later => {
                if self.style == Style::Stack {
                    self.pend.push_front(MP::It(a, b, 0, path))
                } else {
                    self.pend.push_back(MP::It(a, b, 0, path))
                }
                Ok(None)
            }
            D::Now => {
                for k in 0..da.min(db) {
                    if let Some(e) = self.visit(g.edge(a, k).unwrap(), g.edge(b, k).unwrap(), child_path(path, k as u64))? {
                        return Ok(Some(e));
                    }
                }
                if da != db {
                    return Ok(Some(End::Diff(Some(Diff::Amount { a, b, ord: da.cmp(&db), path }))));
                }
                Ok(None)
            }
            D::Eager(got, am) => {
                let want: Vec<_> = (0..da.min(db)).map(|k| (g.edge(a, k).unwrap(), g.edge(b, k).unwrap(), child_path(path, k as u64))).collect();
                if got != want || am != (da != db) {
                    return Err(format!("the edges iterator of ({a},{b}) yields {got:?}, amount difference {am}; its edges are {want:?}"));
                }
                for (x, y, p) in want {
                    self.pend.push_back(MP::Pair(x, y, p));
                }
                if da != db {
                    self.pend.push_back(MP::Amount(a, b, da.cmp(&db), path));
                }
                Ok(None)
            }
            d => Err(format!("the recursion mode was asked for {d:?} instead of to recur on ({a},{b})")),
        }
    }
    pub fn run(&mut self, ra: u32, rb: u32) -> Result<End, String> {
        let e = self.run1(ra, rb)?;
        if self.at != self.log.len() {
            return Err(format!("the comparison goes on ({:?}) although it must have ended with {e:?}", &self.log[self.at..]));
        }
        if self.ask_at != self.asks.len() {
            return Err(format!("the descend mode is asked {:?} although the comparison must have ended with {e:?}", &self.asks[self.ask_at..]));
        }
        Ok(e)
    }
    fn run1(&mut self, ra: u32, rb: u32) -> Result<End, String> {
        let mut cur = Some((ra, rb, ROOT));
        loop {
            if let Some((a, b, p)) = cur.take() {
                if let Some(e) = self.visit(a, b, p)? {
                    return Ok(e);
                }
            }
            if self.pend.is_empty() {
                return Ok(End::Diff(None));
            }
            match self.take("supply the next pair")? {
                D::PickDiffer => return Ok(End::Own),
                D::Pick(k) => {
                    let k = k as usize;
                    match self.pend.get_mut(k) {
                        None => return Err("more is pending than was given".into()),
                        Some(MP::It(a, b, i, path)) => {
                            let (x, y) = (self.g.edge(*a, *i), self.g.edge(*b, *i));
                            match (x, y) {
                                (Some(x), Some(y)) => {
                                    cur = Some((x, y, child_path(*path, *i as u64)));
                                    *i += 1;
                                }
                                (None, None) => {
                                    self.pend.remove(k);
                                }
                                _ => return Ok(End::Diff(Some(Diff::Amount { a: *a, b: *b, ord: x.is_some().cmp(&y.is_some()), path: *path }))),
                            }
                        }
                        Some(_) => match self.pend.remove(k) {
                            Some(MP::Pair(a, b, p)) => cur = Some((a, b, p)),
                            Some(MP::Amount(a, b, ord, path)) => return Ok(End::Diff(Some(Diff::Amount { a, b, ord, path }))),
                            _ => unreachable!(),
                        },
                    }
                }
                d => return Err(format!("the recursion mode is asked for {d:?} instead of the next pair")),
            }
        }
    }
}

// Precheck and interleaving with user-supplied recursion modes.
use graph_safe_compare::basic::modes::limited::{LimitReached, Limited};
use graph_safe_compare::cycle_safe::modes::interleave;
use graph_safe_compare::generic::equiv_classes::Table;
use graph_safe_compare::generic::precheck_interleave::{self, InterleaveError, PrecheckError};

thread_local! {
    /// node callbacks seen by `counting_hook`, and how many there were when a mode failed
    pub static EVENTS: Cell<u64> = Cell::new(0);
    pub static EVENTS_AT_FAIL: Cell<u64> = Cell::new(u64::MAX);
}
pub fn counting_hook(_: Ev) {
    EVENTS.with(|e| e.set(e.get() + 1))
}
pub fn note_fail() {
    EVENTS_AT_FAIL.with(|f| f.set(EVENTS.with(|e| e.get())))
}
pub fn events_reset() {
    EVENTS.with(|e| e.set(0));
    EVENTS_AT_FAIL.with(|f| f.set(u64::MAX));
}
impl From<UErr> for PrecheckError<PErr> {
    fn from(e: UErr) -> Self {
        PrecheckError::RecurError(e.into())
    }
}
impl From<UErr> for InterleaveError<PErr> {
    fn from(e: UErr) -> Self {
        InterleaveError(e.into())
    }
}
impl From<LimitReached> for PErr {
    fn from(_: LimitReached) -> Self {
        CONVS.with(|c| c.set(c.get() + 1));
        PErr { tag: 7777, convs: 1 }
    }
}
impl<N: Node> From<CallStack> for Own<N, 1> {
    fn from(_: CallStack) -> Self {
        Default::default()
    }
}
impl<N: Node> From<Own<N, 0>> for RecurQueue<QP<N>> {
    fn from(_: Own<N, 0>) -> Self {
        Default::default()
    }
}
impl<N: Node> From<Own<N, 0>> for CallStack {
    fn from(_: Own<N, 0>) -> Self {
        Default::default()
    }
}
pub struct GP<I, A, B>(PhantomData<(I, A, B)>);
macro_rules! gp { ($($a:ty, $b:ty;)*) => { $(
    impl<'c, K: Kind, I: interleave::Params<Node = Nd<'c, K>>> precheck_interleave::Params<Nd<'c, K>> for GP<I, $a, $b>
    where
        I::Table: Table<Node = Nd<'c, K>>,
        K::Cmp: OwnVal,
    {
        type PrecheckRecurMode = $a;
        type InterleaveRecurMode = $b;
        type InterleaveParams = I;
        type Error = PErr;
    }
)* } }
gp! {
    Own<Nd<'c, K>, 0>, Own<Nd<'c, K>, 1>;
    Post<Nd<'c, K>, 0>, Post<Nd<'c, K>, 1>;
    CallStack, Own<Nd<'c, K>, 1>;
    Own<Nd<'c, K>, 0>, RecurQueue<QP<Nd<'c, K>>>;
    Own<Nd<'c, K>, 0>, CallStack;
}
pub const COMBOS: usize = 5;
pub fn gp_run<'c, K: Kind, I: interleave::Params<Node = Nd<'c, K>>>(combo: usize, a: Nd<'c, K>, b: Nd<'c, K>) -> Result<K::Cmp, PErr>
where
    I::Table: Table<Node = Nd<'c, K>>,
    K::Cmp: OwnVal,
{
    type N<'c, K> = Nd<'c, K>;
    match combo {
        0 => precheck_interleave::equiv::<_, GP<I, Own<N<'c, K>, 0>, Own<N<'c, K>, 1>>>(a, b),
        1 => precheck_interleave::equiv::<_, GP<I, Post<N<'c, K>, 0>, Post<N<'c, K>, 1>>>(a, b),
        2 => precheck_interleave::equiv::<_, GP<I, CallStack, Own<N<'c, K>, 1>>>(a, b),
        3 => precheck_interleave::equiv::<_, GP<I, Own<N<'c, K>, 0>, RecurQueue<QP<N<'c, K>>>>>(a, b),
        _ => precheck_interleave::equiv::<_, GP<I, Own<N<'c, K>, 0>, CallStack>>(a, b),
    }
}

/// A limit and a failing recursion mode.
pub struct LP<N, R>(PhantomData<(N, R)>);
macro_rules! lp { ($($r:ty),*) => { $(
    impl<'c, K: Kind> equiv::Params for LP<Nd<'c, K>, $r> where K::Cmp: OwnVal {
        type Node = Nd<'c, K>;
        type DescendMode = Limited<u32>;
        type RecurMode = $r;
        type Error = PErr;
    }
)* } }
lp!(Own<Nd<'c, K>, 0>, Post<Nd<'c, K>, 0>, CallStack, RecurQueue<QP<Nd<'c, K>>>, RecurStack<SP<Nd<'c, K>>>);
pub fn lp_run<'c, K: Kind>(k: usize, l: u32, a: Nd<'c, K>, b: Nd<'c, K>) -> Result<K::Cmp, PErr>
where
    K::Cmp: OwnVal,
{
    type N<'c, K> = Nd<'c, K>;
    match k {
        0 => Equiv::<LP<N<'c, K>, Own<N<'c, K>, 0>>>::new(Limited(l)).equiv(a, b),
        1 => Equiv::<LP<N<'c, K>, Post<N<'c, K>, 0>>>::new(Limited(l)).equiv(a, b),
        2 => Equiv::<LP<N<'c, K>, CallStack>>::new(Limited(l)).equiv(a, b),
        3 => Equiv::<LP<N<'c, K>, RecurQueue<QP<N<'c, K>>>>>::new(Limited(l)).equiv(a, b),
        _ => Equiv::<LP<N<'c, K>, RecurStack<SP<N<'c, K>>>>>::new(Limited(l)).equiv(a, b),
    }
}
