//! Hierarchy: ordered forest (C10), in step with the graph (C11).

use crate::engine::*;
use crate::viewcheck::walk;
use crate::{ensure, ensure_eq};
use portgraph::hierarchy::AttachError;
use portgraph::view::{LinkMut, PortMut};
use portgraph::{Hierarchy, MultiPortGraph, NodeIndex, PortGraph};
use std::collections::BTreeMap;

fn ni(n: usize) -> NodeIndex {
    NodeIndex::new(n)
}

/// Ordered forest: node -> ordered children. Nodes without an entry are roots
/// without children.
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct Forest {
    pub kids: BTreeMap<usize, Vec<usize>>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bad {
    Cycle,
    Attached,
    RootSibling,
}

impl Forest {
    pub fn parent(&self, n: usize) -> Option<usize> {
        self.kids.iter().find(|(_, v)| v.contains(&n)).map(|x| *x.0)
    }
    pub fn children(&self, n: usize) -> &[usize] {
        self.kids.get(&n).map_or(&[], |v| v)
    }
    pub fn below_or_self(&self, n: usize, top: usize) -> bool {
        n == top || self.parent(n).is_some_and(|p| self.below_or_self(p, top))
    }
    pub fn descendants(&self, n: usize) -> Vec<usize> {
        let mut v = vec![n];
        let mut i = 0;
        while i < v.len() {
            v.extend(self.children(v[i]).iter().copied());
            i += 1;
        }
        v
    }
    /// Problems with attaching `n` under `p`.
    fn problems(&self, n: usize, p: Option<usize>) -> Vec<Bad> {
        let mut v = vec![];
        match p {
            None => v.push(Bad::RootSibling),
            Some(p) => {
                if self.below_or_self(p, n) {
                    v.push(Bad::Cycle);
                }
            }
        }
        if self.parent(n).is_some() {
            v.push(Bad::Attached);
        }
        v
    }
    pub fn attach(&mut self, n: usize, p: usize, at: usize) {
        self.kids.entry(p).or_default().insert(at, n);
    }
    pub fn detach(&mut self, n: usize) -> Option<usize> {
        let p = self.parent(n)?;
        let v = self.kids.get_mut(&p).unwrap();
        v.retain(|x| *x != n);
        if v.is_empty() {
            self.kids.remove(&p);
        }
        Some(p)
    }
    pub fn remove(&mut self, n: usize) {
        self.kids.remove(&n);
        self.detach(n);
    }
    pub fn rename(&mut self, f: impl Fn(usize) -> usize) {
        self.kids = self.kids.iter().map(|(k, v)| (f(*k), v.iter().map(|x| f(*x)).collect())).collect();
    }
}

/// Compare every query for the nodes 0..=hi.
pub fn check_forest(h: &Hierarchy, f: &Forest, hi: usize) -> Res {
    for n in 0..=hi {
        let x = ni(n);
        let p = f.parent(n);
        let kids = f.children(n);
        ensure_eq!(h.parent(x).map(|a| a.index()), p, "parent({n})");
        ensure_eq!(h.is_root(x), p.is_none(), "is_root({n})");
        ensure_eq!(h.child_count(x), kids.len(), "child_count({n})");
        ensure_eq!(h.has_children(x), !kids.is_empty(), "has_children({n})");
        ensure_eq!(h.first(x).map(|a| a.index()), kids.first().copied(), "first({n})");
        ensure_eq!(h.last(x).map(|a| a.index()), kids.last().copied(), "last({n})");
        let sib = p.map_or(&[][..], |p| f.children(p));
        let at = sib.iter().position(|y| *y == n);
        ensure_eq!(h.next(x).map(|a| a.index()), at.and_then(|i| sib.get(i + 1).copied()), "next({n})");
        ensure_eq!(h.prev(x).map(|a| a.index()), at.and_then(|i| if i > 0 { Some(sib[i - 1]) } else { None }), "prev({n})");
        let got: Vec<usize> = walk("children", h.children(x))?.iter().map(|a| a.index()).collect();
        ensure_eq!(got, kids, "children({n})");
        ensure_eq!(h.children(x).len(), kids.len(), "children({n}).len()");
        let mut rev: Vec<usize> = h.children(x).rev().map(|a| a.index()).collect();
        rev.reverse();
        ensure_eq!(rev, kids, "children({n}) backwards");
        // from both ends at once
        let mut it = h.children(x);
        let (mut a, mut b) = (vec![], vec![]);
        while let Some(y) = it.next() {
            a.push(y.index());
            if let Some(z) = it.next_back() {
                b.push(z.index());
            }
            let left = kids.len().saturating_sub(a.len() + b.len());
            ensure!(it.len() == left && it.size_hint() == (left, Some(left)), "children({n}): size_hint {:?} with {left} left", it.size_hint());
        }
        ensure!(it.next_back().is_none() && it.next().is_none(), "children({n}) yields after its end");
        b.reverse();
        a.extend(b);
        ensure_eq!(a, kids, "children({n}) from both ends");
        let d: Vec<usize> = walk("descendants", h.descendants(x))?.iter().map(|a| a.index()).collect();
        ensure_eq!(d, f.descendants(n), "descendants({n})");
    }
    Ok(())
}

#[derive(Clone, Debug)]
pub enum HOp {
    Push(usize, usize),
    PushFront(usize, usize),
    Before(usize, usize),
    After(usize, usize),
    Detach(usize),
    DetachChildren(usize),
    Remove(usize),
    Swap(usize, usize),
    Rekey(usize, usize),
    Shrink(usize),
    Reserve(usize),
    CloneInto,
}

#[derive(Clone)]
pub struct HSys {
    pub h: Hierarchy,
    pub f: Forest,
    pub n: usize,
    pub misc: bool,
}

fn bad_of(e: &AttachError, n: usize, p: Option<usize>, sibling: usize) -> Option<Bad> {
    match e {
        AttachError::AlreadyAttached { node } if node.index() == n => Some(Bad::Attached),
        AttachError::Cycle { node, parent } if node.index() == n && Some(parent.index()) == p => Some(Bad::Cycle),
        AttachError::RootSibling { root } if root.index() == sibling => Some(Bad::RootSibling),
        _ => None,
    }
}

impl HSys {
    fn attach(&mut self, n: usize, p: Option<usize>, at: usize, sibling: usize, what: &str, r: Result<(), AttachError>, before: &Hierarchy) -> Res {
        let bad = self.f.problems(n, p);
        match (bad.is_empty(), r) {
            (true, Ok(())) => {
                self.f.attach(n, p.unwrap(), at);
                Ok(())
            }
            (true, Err(e)) => Err(format!("{what} failed with {e:?}")),
            (false, Ok(())) => Err(format!("{what} succeeded, although it must be refused ({bad:?})")),
            (false, Err(e)) => {
                let b = bad_of(&e, n, p, sibling);
                ensure!(b.is_some_and(|b| bad.contains(&b)), "{what} failed with {e:?}, but the problem is {bad:?}");
                ensure!(self.h == *before, "{what} was refused but changed the hierarchy");
                Ok(())
            }
        }
    }
}

impl Sys for HSys {
    type Op = HOp;
    fn ops(&self) -> Vec<HOp> {
        let mut v = Vec::new();
        for a in 0..self.n {
            for b in 0..self.n {
                v.extend([HOp::Push(a, b), HOp::PushFront(a, b), HOp::Before(a, b), HOp::After(a, b)]);
                if a <= b {
                    v.push(HOp::Swap(a, b));
                }
                v.push(HOp::Rekey(a, b));
            }
            v.extend([HOp::Detach(a), HOp::DetachChildren(a), HOp::Remove(a)]);
        }
        if self.misc {
            for k in 0..=self.n {
                v.push(HOp::Shrink(k));
            }
            v.push(HOp::Reserve(self.n + 2));
            v.push(HOp::CloneInto);
        }
        v
    }
    fn apply(&mut self, op: &HOp) -> Res {
        let before = self.h.clone();
        match *op {
            HOp::Push(n, p) => {
                let r = self.h.push_child(ni(n), ni(p));
                let at = self.f.children(p).len();
                self.attach(n, Some(p), at, p, &format!("push_child({n},{p})"), r, &before)?;
            }
            HOp::PushFront(n, p) => {
                let r = self.h.push_front_child(ni(n), ni(p));
                self.attach(n, Some(p), 0, p, &format!("push_front_child({n},{p})"), r, &before)?;
            }
            HOp::Before(n, s) => {
                let r = self.h.insert_before(ni(n), ni(s));
                let p = self.f.parent(s);
                let at = p.map_or(0, |p| self.f.children(p).iter().position(|x| *x == s).unwrap());
                self.attach(n, p, at, s, &format!("insert_before({n},{s})"), r, &before)?;
            }
            HOp::After(n, s) => {
                let r = self.h.insert_after(ni(n), ni(s));
                let p = self.f.parent(s);
                let at = p.map_or(0, |p| self.f.children(p).iter().position(|x| *x == s).unwrap() + 1);
                self.attach(n, p, at, s, &format!("insert_after({n},{s})"), r, &before)?;
            }
            HOp::Detach(n) => {
                let r = self.h.detach(ni(n)).map(|x| x.index());
                ensure_eq!(r, self.f.detach(n), "detach({n})");
            }
            HOp::DetachChildren(n) => {
                self.h.detach_children(ni(n));
                self.f.kids.remove(&n);
            }
            HOp::Remove(n) => {
                self.h.remove(ni(n));
                self.f.remove(n);
            }
            HOp::Swap(a, b) => {
                self.h.swap_nodes(ni(a), ni(b));
                self.f.rename(|x| if x == a { b } else if x == b { a } else { x });
            }
            HOp::Rekey(a, b) => {
                let occupied = a != b && (self.f.parent(b).is_some() || !self.f.children(b).is_empty());
                if occupied {
                    let mut h = self.h.clone();
                    ensure!(panics(|| h.rekey(ni(a), ni(b))), "rekey({a},{b}) onto an attached node did not panic");
                    ensure!(h == before, "rekey({a},{b}) was refused but changed the hierarchy");
                } else {
                    self.h.rekey(ni(a), ni(b));
                    self.f.rename(|x| if x == a { b } else { x });
                }
            }
            HOp::Shrink(k) => {
                self.h.shrink_to(k);
                for n in k..self.n {
                    self.f.remove(n);
                }
            }
            HOp::Reserve(k) => {
                self.h.ensure_capacity(k);
            }
            HOp::CloneInto => {
                let c = self.h.clone();
                ensure!(c == self.h, "a clone differs");
                self.h = c;
            }
        }
        Ok(())
    }
    fn check(&self) -> Res {
        check_forest(&self.h, &self.f, self.n + 1)
    }
    fn key(&self, out: &mut Vec<u8>) {
        rmp_serde::encode::write(out, &self.h).unwrap();
        key_model(out, &self.f);
    }
    fn outcome(&self) -> u64 {
        outcome_of(&self.f)
    }
}

pub fn c10(ctx: &mut Ctx) {
    let s = |n, misc| vec![("empty".to_string(), HSys { h: Hierarchy::new(), f: Forest::default(), n, misc }), ("reserved".to_string(), HSys { h: Hierarchy::with_capacity(n), f: Forest::default(), n, misc })];
    bfs(ctx, Bfs { name: "default".into(), depth: 20, max_states: 30_000_000, bound: "3 nodes, every edit, from Default::default()".into() }, vec![("default".into(), HSys { h: Hierarchy::default(), f: Forest::default(), n: 3, misc: true })]);
    bfs(ctx, Bfs { name: "four-nodes".into(), depth: 20, max_states: 30_000_000, bound: "4 nodes, every edit (attach at 4 kinds of positions, detach, remove, swap, re-index, shrink, reserve), legal or not".into() }, s(4, true));
    // larger forests: a chain, a star, a caterpillar, two combs
    for (n, d) in [(12usize, ctx.pick(2, 2)), (40, 1)] {
        let starts = (0..5).map(|v| {
            let (mut h, mut f) = (Hierarchy::new(), Forest::default());
            let mut bad = None;
            for k in 1..n {
                let p = [k - 1, 0, if k % 2 == 0 { k - 2 } else { k - 1 }, k % 2 * (k / 2), (k - 1) / 2][v];
                if v == 3 && k == n / 2 {
                    continue;
                }
                let at = f.children(p).len();
                if p != k && f.problems(k, Some(p)).is_empty() {
                    if let Err(e) = guarded(|| h.push_child(ni(k), ni(p)).map_err(|e| format!("{e:?}"))) {
                        bad = Some(format!("push_child({k},{p}): {e}"));
                    }
                    f.attach(k, p, at);
                }
            }
            if let Some(e) = bad {
                eprintln!("preparing an initial state failed: {e}"); // the check of the initial state reports it
            }
            (["chain", "star", "caterpillar", "broken comb", "binary tree"][v].to_string(), HSys { h, f, n, misc: false })
        });
        let starts = starts.collect();
        bfs(ctx, Bfs { name: format!("large-{n}"), depth: d, max_states: 30_000_000, bound: format!("{n} nodes in a chain, star, caterpillar, broken comb or binary tree; every attach, detach, remove, swap and re-index, legal or not") }, starts);
    }
    let n = ctx.pick(6, 7);
    bfs(ctx, Bfs { name: format!("{n}-nodes"), depth: 20, max_states: 30_000_000, bound: format!("{n} nodes, every attach, detach, remove, swap and re-index, legal or not") }, s(n, false));
}

// ---------------------------------------------------------------------------

#[derive(Clone, Debug)]
pub enum GOp {
    Add(usize),
    Remove(usize),
    Push(usize, usize),
    Front(usize, usize),
    After(usize, usize),
    Detach(usize),
    Swap(usize, usize),
    Compact,
    Link(usize, usize),
}

/// A graph and a hierarchy over its nodes, edited together.
#[derive(Clone)]
pub struct GSys<G> {
    pub g: G,
    pub h: Hierarchy,
    pub f: Forest,
    pub live: Vec<usize>,
    pub max: usize,
    pub link: bool,
}

impl<G> GSys<G>
where
    G: PortMut + LinkMut + Clone + Send + Sync + serde::Serialize,
{
    fn hi(&self) -> usize {
        self.live.iter().max().map_or(0, |x| x + 1)
    }
}

impl<G> Sys for GSys<G>
where
    G: PortMut + LinkMut + Clone + Send + Sync + serde::Serialize,
{
    type Op = GOp;
    fn ops(&self) -> Vec<GOp> {
        let mut v = vec![GOp::Compact];
        if self.live.len() < self.max && self.hi() < self.max + 3 {
            v.push(GOp::Add(1));
        }
        for &a in &self.live {
            v.push(GOp::Remove(a));
            if self.f.parent(a).is_some() {
                v.push(GOp::Detach(a));
            }
            for &b in &self.live {
                if self.f.problems(a, Some(b)).is_empty() {
                    v.extend([GOp::Push(a, b), GOp::Front(a, b)]);
                }
                if self.f.problems(a, self.f.parent(b)).is_empty() {
                    v.push(GOp::After(a, b));
                }
                if self.link {
                    v.push(GOp::Link(a, b));
                }
            }
            for b in 0..self.hi() {
                if a < b || !self.live.contains(&b) {
                    v.push(GOp::Swap(a, b));
                }
            }
        }
        v
    }
    fn apply(&mut self, op: &GOp) -> Res {
        match *op {
            GOp::Add(k) => {
                let n = self.g.add_node(k, k).index();
                ensure!(!self.live.contains(&n), "add_node returned the live index {n}");
                self.live.push(n);
                self.live.sort();
                ensure!(self.h.is_root(ni(n)) && !self.h.has_children(ni(n)), "the new node {n} is already attached in the hierarchy");
            }
            GOp::Remove(n) => {
                self.g.remove_node(ni(n));
                self.h.remove(ni(n));
                self.f.remove(n);
                self.live.retain(|x| *x != n);
            }
            GOp::Push(a, b) => {
                let r = self.h.push_child(ni(a), ni(b));
                ensure_eq!(r, Ok(()), "push_child({a},{b})");
                let at = self.f.children(b).len();
                self.f.attach(a, b, at);
            }
            GOp::Front(a, b) => {
                let r = self.h.push_front_child(ni(a), ni(b));
                ensure_eq!(r, Ok(()), "push_front_child({a},{b})");
                self.f.attach(a, b, 0);
            }
            GOp::After(a, b) => {
                let r = self.h.insert_after(ni(a), ni(b));
                ensure_eq!(r, Ok(()), "insert_after({a},{b})");
                let p = self.f.parent(b).unwrap();
                let at = self.f.children(p).iter().position(|x| *x == b).unwrap() + 1;
                self.f.attach(a, p, at);
            }
            GOp::Detach(a) => {
                self.h.detach(ni(a));
                self.f.detach(a);
            }
            GOp::Swap(a, b) => {
                self.g.swap_nodes(ni(a), ni(b));
                self.h.swap_nodes(ni(a), ni(b));
                let s = |x: usize| if x == a { b } else if x == b { a } else { x };
                self.f.rename(s);
                self.live = self.live.iter().map(|x| s(*x)).collect();
                self.live.sort();
            }
            GOp::Compact => {
                let mut log = Vec::new();
                let h = &mut self.h;
                self.g.compact_nodes(|a, b| {
                    log.push((a.index(), b.index()));
                    h.rekey(a, b);
                });
                let cap = self.g.nodes_iter().map(|n| n.index() + 1).max().unwrap_or(0);
                self.h.shrink_to(cap);
                let map = crate::multi::follow("compact_nodes", &self.live, &log, true)?;
                self.f.rename(|x| map[&x]);
                self.live = self.live.iter().map(|x| map[x]).collect();
            }
            GOp::Link(a, b) => {
                let _ = self.g.link_nodes(ni(a), 0, ni(b), 0);
            }
        }
        Ok(())
    }
    fn check(&self) -> Res {
        let mut ns: Vec<usize> = self.g.nodes_iter().map(|n| n.index()).collect();
        ns.sort();
        ensure_eq!(ns, self.live, "nodes of the graph");
        check_forest(&self.h, &self.f, self.hi() + 2)?;
        for &n in &self.live {
            for x in self.h.descendants(ni(n)) {
                ensure!(self.g.contains_node(x), "descendant {x:?} of {n} is not a node of the graph");
            }
        }
        Ok(())
    }
    fn key(&self, out: &mut Vec<u8>) {
        rmp_serde::encode::write(out, &self.g).unwrap();
        rmp_serde::encode::write(out, &self.h).unwrap();
        key_model(out, &(&self.f, &self.live));
    }
    fn outcome(&self) -> u64 {
        outcome_of(&(&self.f, &self.live))
    }
}

pub fn c11(ctx: &mut Ctx) {
    let d = ctx.pick(12, 16);
    bfs(
        ctx,
        Bfs { name: "portgraph".into(), depth: d, max_states: 30_000_000, bound: "<=4 nodes; graph add/remove/swap/compact propagated to the hierarchy, attach/detach".into() },
        vec![("empty".to_string(), GSys { g: PortGraph::<u32, u32, u16>::new(), h: Hierarchy::new(), f: Forest::default(), live: vec![], max: 4, link: false })],
    );
    let d = ctx.pick(8, 10);
    bfs(
        ctx,
        Bfs { name: "multiportgraph".into(), depth: d, max_states: 30_000_000, bound: "<=3 nodes of shape (1,1) with parallel links (hidden nodes in the index space); add/remove/swap/compact propagated, attach/detach".into() },
        vec![("empty".to_string(), GSys { g: MultiPortGraph::<u32, u32, u16>::new(), h: Hierarchy::new(), f: Forest::default(), live: vec![], max: 3, link: true })],
    );
    bfs(
        ctx,
        Bfs { name: "portgraph-5".into(), depth: ctx.pick(11, 14), max_states: 30_000_000, bound: "<=5 nodes; graph add/remove/swap/compact propagated to the hierarchy, attach/detach".into() },
        vec![("empty".to_string(), GSys { g: PortGraph::<u32, u32, u16>::new(), h: Hierarchy::new(), f: Forest::default(), live: vec![], max: 5, link: false })],
    );
}
