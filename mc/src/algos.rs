//! Traversals: topological sort (C20), post-order (C21), dominators (C22),
//! lowest common ancestors (C23).

use crate::engine::*;
use crate::families::*;
use crate::gen::*;
use crate::viewcheck::*;
use crate::views::{filtered, mask_of};
use crate::{ensure, ensure_eq};
use bitvec::vec::BitVec;
use portgraph::algorithms::{dominators, dominators_filtered, lca, postorder, postorder_filtered, toposort, toposort_filtered, DominatorTree, TopoSort, LCA};
use portgraph::index::MaybeNodeIndex;
use portgraph::view::{FilteredGraph, FlatRegion, LinkView, PortView, Region, Subgraph};
use portgraph::{Direction, MultiPortGraph, NodeIndex, PortGraph, PortIndex, PortMut, SecondaryMap};
use std::collections::{BTreeSet, HashMap, HashSet};

/// The admitted graph, seen in one direction of traversal: nodes numbered as in
/// the spec, links in the port order of the node they leave.
pub struct Dir {
    pub ok: Vec<bool>,
    pub succ: Vec<Vec<usize>>,
    pub pred: Vec<Vec<usize>>,
}

pub fn directed<G: TG>(b: &Built<G>, m: &Mask, dir: Direction) -> Dir {
    let n = b.nodes.len();
    let o = b.view.port_owner();
    let pos: HashMap<usize, usize> = b.nodes.iter().enumerate().map(|(k, n)| (*n, k)).collect();
    let ok: Vec<bool> = b.nodes.iter().map(|n| m.nodes >> n & 1 == 1).collect();
    let mut l: Vec<(usize, usize, usize)> = vec![];
    for (x, y) in &b.view.links {
        let (x, y) = if dir == Direction::Outgoing { (x.0, y.0) } else { (y.0, x.0) };
        let (a, c) = (pos[&o[&x].0], pos[&o[&y].0]);
        if ok[a] && ok[c] && m.ports >> x & 1 == 1 && m.ports >> y & 1 == 1 {
            l.push((a, o[&x].2, c));
        }
    }
    l.sort_by_key(|x| (x.0, x.1));
    let mut d = Dir { ok, succ: vec![vec![]; n], pred: vec![vec![]; n] };
    for (a, _, c) in l {
        d.succ[a].push(c);
        d.pred[c].push(a);
    }
    d
}

pub const ALL: Mask = Mask { nodes: Bits::ALL, ports: Bits::ALL };

/// A port map whose default is `true`.
struct Inverted(HashSet<PortIndex>);
impl SecondaryMap<PortIndex, bool> for Inverted {
    type Iter<'a> = std::iter::Empty<(PortIndex, &'a bool)>;
    fn new() -> Self {
        Inverted(HashSet::new())
    }
    fn with_capacity(_: usize) -> Self {
        Self::new()
    }
    fn default_value(&self) -> bool {
        true
    }
    fn ensure_capacity(&mut self, _: usize) {}
    fn capacity(&self) -> usize {
        usize::MAX
    }
    fn get(&self, k: PortIndex) -> &bool {
        if self.0.contains(&k) {
            &false
        } else {
            &true
        }
    }
    fn set(&mut self, k: PortIndex, v: bool) {
        if v {
            self.0.remove(&k);
        } else {
            self.0.insert(k);
        }
    }
    fn take(&mut self, k: PortIndex) -> bool {
        !self.0.remove(&k)
    }
    fn iter<'a>(&'a self) -> Self::Iter<'a>
    where
        PortIndex: 'a,
        bool: 'a,
    {
        std::iter::empty()
    }
}

/// The nodes a topological traversal from `src` yields.
fn emitted(d: &Dir, src: &BTreeSet<usize>) -> BTreeSet<usize> {
    let mut e: BTreeSet<usize> = src.iter().copied().filter(|k| d.ok[*k]).collect();
    loop {
        let add: Vec<usize> = (0..d.ok.len()).filter(|k| d.ok[*k] && !e.contains(k) && !d.pred[*k].is_empty() && d.pred[*k].iter().all(|p| e.contains(p))).collect();
        if add.is_empty() {
            return e;
        }
        e.extend(add);
    }
}

/// Drive a traversal, adding `more` after `at` nodes.
fn run_topo<B: TG, G: LinkView, M: SecondaryMap<PortIndex, bool>>(b: &Built<B>, d: &Dir, mut t: TopoSort<'_, G, M>, src: &BTreeSet<usize>, more: Option<(usize, &[usize])>, ports: Option<bool>) -> Result<u64, String> {
    let mut all = src.clone();
    let mut order: Vec<usize> = vec![];
    let mut hints = vec![];
    loop {
        if let Some((at, s)) = more {
            if order.len() == at {
                t.add_sources(s.iter().map(|k| ni(b.nodes[*k])));
                all.extend(s.iter().copied());
            }
        }
        hints.push((order.len(), t.size_hint(), all.len()));
        let Some(n) = t.next() else { break };
        order.push(b.k(n));
        ensure!(order.len() <= b.nodes.len(), "more nodes than the graph has: {order:?}");
    }
    ensure!(t.next().is_none(), "another node after the end");
    let set: BTreeSet<usize> = order.iter().copied().collect();
    ensure_eq!(set.len(), order.len(), "distinct nodes in {order:?}");
    ensure_eq!(set, emitted(d, &all), "nodes yielded (order {order:?})");
    for (i, k) in order.iter().enumerate() {
        if !all.contains(k) {
            for p in &d.pred[*k] {
                ensure!(order[..i].contains(p), "node {k} comes before its predecessor {p} in {order:?}");
            }
        }
    }
    for (at, (lo, hi), n) in hints {
        // the hint promises nothing about sources that are added later
        if n == all.len() {
            let left = order.len() - at;
            ensure!(lo <= left && hi.is_none_or(|h| left <= h), "size_hint {:?} with {left} nodes to come", (lo, hi));
        }
    }
    if let Some(true) = ports {
        let rest: BTreeSet<PortIndex> = t.ports_remaining().collect();
        let o = b.view.port_owner();
        for p in &rest {
            ensure!(o.contains_key(&p.index()), "ports_remaining lists the unknown port {p:?}");
        }
        let missing = b.view.nodes.iter().any(|(n, p)| p.iter().any(|x| !x.is_empty()) && !set.contains(&b.k(ni(*n))));
        ensure_eq!(!rest.is_empty(), missing, "ports remaining: {rest:?}, nodes yielded: {order:?}");
    }
    Ok(order.len() as u64 + 1)
}

fn sets(n: usize) -> impl Iterator<Item = Vec<usize>> {
    (0..1u64 << n).map(move |s| (0..n).filter(|k| s >> k & 1 == 1).collect())
}

fn topo_case<G: TG>(spec: &Spec, nodes: u64, ports: u64) -> Result<Tally, String> {
    let b: Built<G> = build(spec)?;
    let m = mask_of(&b, nodes, ports);
    let mut steps = 0;
    for dir in DIRS {
        let d = directed(&b, &m, dir);
        for (j, s) in sets(b.nodes.len()).enumerate() {
            let src: BTreeSet<usize> = s.iter().copied().collect();
            let mut list: Vec<NodeIndex> = s.iter().map(|k| ni(b.nodes[*k])).collect();
            if j % 2 == 1 {
                list.reverse();
            }
            let what = |e: String| format!("{dir:?} from {s:?}: {e}");
            let nf = |n: NodeIndex| m.nodes >> n.index() & 1 == 1;
            let pf = |n: NodeIndex, p: PortIndex| {
                assert_eq!(b.g.port_node(p), Some(n), "the port filter is asked about a port and a node it does not belong to");
                m.ports >> p.index() & 1 == 1
            };
            let t: TopoSort<_, BitVec> = toposort_filtered(&b.g, list.iter().copied(), dir, nf, pf);
            steps += run_topo(&b, &d, t, &src, None, None).map_err(what)?;
            let t: TopoSort<_, Inverted> = toposort_filtered(&b.g, list.iter().copied(), dir, nf, pf);
            steps += run_topo(&b, &d, t, &src, None, None).map_err(what)?;
            let inside = list.iter().copied().filter(|n| nf(*n));
            let t: TopoSort<_, HashSet<PortIndex>> = toposort(filt(&b.g, m), inside, dir);
            steps += run_topo(&b, &d, t, &src, None, None).map_err(what)?;
        }
    }
    Ok(Tally { steps, outcome: outcome_of(&filtered(&b.view, &m)) })
}

fn topo_plain_case<G: TG>(spec: &Spec, more: bool) -> Result<Tally, String> {
    let b: Built<G> = build(spec)?;
    let n = b.nodes.len();
    let mut steps = 0;
    for dir in DIRS {
        let d = directed(&b, &ALL, dir);
        for s in sets(n) {
            let src: BTreeSet<usize> = s.iter().copied().collect();
            let list = |s: &[usize]| s.iter().map(|k| ni(b.nodes[*k])).collect::<Vec<_>>();
            let what = |e: String| format!("{dir:?} from {s:?}: {e}");
            let t: TopoSort<_> = toposort(&b.g, list(&s), dir);
            steps += run_topo(&b, &d, t, &src, None, Some(true)).map_err(what)?;
            let t: TopoSort<_, Inverted> = toposort(&b.g, list(&s).into_iter().rev(), dir);
            steps += run_topo(&b, &d, t, &src, None, Some(true)).map_err(what)?;
            let t: TopoSort<_, HashSet<PortIndex>> = toposort(&b.g, list(&s).into_iter().chain(list(&s)), dir);
            steps += run_topo(&b, &d, t, &src, None, Some(true)).map_err(|e| format!("{dir:?} from {s:?} twice: {e}"))?;
            if more {
                for s2 in sets(n) {
                    for at in 0..=n {
                        let what = |e: String| format!("{dir:?} from {s:?}, adding {s2:?} after {at} nodes: {e}");
                        let t: TopoSort<_> = toposort(&b.g, list(&s), dir);
                        steps += run_topo(&b, &d, t, &src, Some((at, &s2)), Some(true)).map_err(what)?;
                    }
                }
            }
        }
    }
    Ok(Tally { steps, outcome: outcome_of(&b.view) })
}

fn starts_of(n: usize) -> Vec<usize> {
    if n <= 20 {
        (0..n).collect()
    } else {
        vec![0, 1, n / 3, n / 2, n - 2, n - 1]
    }
}

/// A larger graph: from the natural sources, everything, each node alone, and
/// with sources added on the way; with single nodes and ports rejected.
fn topo_big<G: TG>(spec: &Spec, limit: usize) -> Result<Tally, String> {
    let b: Built<G> = build(spec)?;
    let n = b.nodes.len();
    let mut steps = 0;
    let list = |s: &[usize]| s.iter().map(|k| ni(b.nodes[*k])).collect::<Vec<_>>();
    for dir in DIRS {
        let d = directed(&b, &ALL, dir);
        let roots: Vec<usize> = (0..n).filter(|k| d.pred[*k].is_empty()).collect();
        let mut src: Vec<Vec<usize>> = starts_of(n).into_iter().map(|k| vec![k]).collect();
        src.push(roots.clone());
        src.push(roots.iter().rev().copied().collect());
        src.push((0..n).collect());
        src.push((0..n).rev().collect());
        src.push(roots.iter().copied().chain([n / 2]).collect());
        src.push(roots.iter().skip(1).copied().collect());
        for s in &src {
            let what = |e: String| format!("{dir:?} from {s:?}: {e}");
            let set: BTreeSet<usize> = s.iter().copied().collect();
            let t: TopoSort<_> = toposort(&b.g, list(s), dir);
            steps += run_topo(&b, &d, t, &set, None, Some(true)).map_err(what)?;
            let t: TopoSort<_, Inverted> = toposort(&b.g, list(s), dir);
            steps += run_topo(&b, &d, t, &set, None, Some(true)).map_err(what)?;
        }
        for more in [vec![n / 2], roots.clone(), vec![n - 1, 0]] {
            for at in [0, 1, n / 3, n / 2, n - 1, n] {
                for s in [&vec![], &vec![0], &vec![n / 2], &roots] {
                    let t: TopoSort<_> = toposort(&b.g, list(s), dir);
                    let set: BTreeSet<usize> = s.iter().copied().collect();
                    steps += run_topo(&b, &d, t, &set, Some((at, &more)), Some(true)).map_err(|e| format!("{dir:?} from {s:?}, adding {more:?} after {at} nodes: {e}"))?;
                }
            }
        }
        for m in rejections(&b, limit) {
            heartbeat();
            let d = directed(&b, &m, dir);
            let free: Vec<usize> = (0..n).filter(|k| d.pred[*k].is_empty()).collect();
            for s in [&roots, &free, &vec![n / 2]] {
                let what = |e: String| format!("{dir:?} from {s:?}, filtered by {m:?}: {e}");
                let set: BTreeSet<usize> = s.iter().copied().collect();
                let nf = |n: NodeIndex| m.nodes >> n.index() & 1 == 1;
                let pf = |_: NodeIndex, p: PortIndex| m.ports >> p.index() & 1 == 1;
                let t: TopoSort<_, BitVec> = toposort_filtered(&b.g, list(s), dir, nf, pf);
                steps += run_topo(&b, &d, t, &set, None, None).map_err(what)?;
                let t: TopoSort<_, HashSet<PortIndex>> = toposort(filt(&b.g, m), list(s).into_iter().filter(|n| nf(*n)), dir);
                steps += run_topo(&b, &d, t, &set, None, None).map_err(what)?;
            }
        }
    }
    Ok(Tally { steps, outcome: outcome_of(&b.view) })
}

fn big_section(ctx: &mut Ctx, name: &str, what: &str, specs: Vec<Named>, f: impl Fn(&Spec) -> Result<Tally, String> + Sync) {
    cases(ctx, name, &describe(what, &specs), specs.len() as u64, |i| specs[i as usize].0.clone(), |i| f(&specs[i as usize].1));
}

/// Port masks: all of them, or those rejecting at most `k` ports.
fn masks(p: usize, k: Option<u32>) -> Vec<u64> {
    (0..1u64 << p).filter(|m| k.is_none_or(|k| (p as u32 - m.count_ones()) <= k)).collect()
}

type CaseFn = fn(&Spec, u64, u64) -> Result<Tally, String>;
fn masked_section(ctx: &mut Ctx, name: &str, bound: &str, specs: Vec<Spec>, reject: Option<u32>, f: CaseFn) {
    let n = specs[0].shapes.len();
    let (o, i) = count(&specs[0].shapes);
    let pm = masks(o + i, reject);
    let per = (pm.len() as u64) << n;
    let total = specs.len() as u64 * per;
    let at = |i: u64| (&specs[(i / per) as usize], i % per & ((1 << n) - 1), pm[((i % per) >> n) as usize]);
    let what = reject.map_or("ports".to_string(), |k| format!("up to {k} ports"));
    cases(ctx, name, &format!("{bound}; {} graphs x every set of rejected nodes and {what}, both directions, every start set", specs.len()), total,
        |i| format!("{:?} nodes {:#b} ports {:#b}", at(i).0, at(i).1, at(i).2),
        |i| f(at(i).0, at(i).1, at(i).2));
}

fn plain_section(ctx: &mut Ctx, name: &str, bound: &str, specs: Vec<Spec>, f: impl Fn(&Spec) -> Result<Tally, String> + Sync) {
    cases(ctx, name, &format!("{bound}; {} graphs, both directions, every start set", specs.len()), specs.len() as u64,
        |i| format!("{:?}", specs[i as usize]),
        |i| f(&specs[i as usize]));
}

const MIX: [(usize, usize); 3] = [(1, 1), (2, 1), (1, 2)];

pub fn c20(ctx: &mut Ctx) {
    let q = ctx.quick();
    masked_section(ctx, "filtered-portgraph", "every graph on 3 nodes of shapes (1,1),(2,1),(1,2)", singles(&MIX, 9, true), q.then_some(2), topo_case::<PortGraph>);
    masked_section(ctx, "filtered-multi", "every multigraph on 3 nodes of shape (1,1)", multis(&[(1, 1); 3], ctx.pick(3, 4), true), None, topo_case::<MultiPortGraph>);
    masked_section(ctx, "filtered-multi-wide", "every multigraph on 2 nodes of shapes (1,2),(2,1)", multis(&[(1, 2), (2, 1)], ctx.pick(3, 5), false), None, topo_case::<MultiPortGraph>);
    plain_section(ctx, "portgraph-3", "every graph on 3 nodes of shapes (1,1),(2,1),(1,2); sources added after every number of nodes", singles(&MIX, 9, true), |s| topo_plain_case::<PortGraph>(s, true));
    plain_section(ctx, "portgraph-4", "every graph on 4 nodes of shapes (1,2),(2,1),(1,1),(2,2)", singles(&[(1, 2), (2, 1), (1, 1), (2, 2)], 9, false), |s| topo_plain_case::<PortGraph>(s, false));
    plain_section(ctx, "sources-and-sinks", "every graph on 5 nodes of shapes (0,0),(0,2),(1,1),(2,1),(1,0); sources added after every number of nodes", singles(&[(0, 0), (0, 2), (1, 1), (2, 1), (1, 0)], 9, true), |s| topo_plain_case::<PortGraph>(s, true));
    plain_section(ctx, "multi-3", "every multigraph on 3 nodes of shape (1,1); sources added after every number of nodes", multis(&[(1, 1); 3], ctx.pick(4, 6), true), |s| topo_plain_case::<MultiPortGraph>(s, true));
    plain_section(ctx, "multi-4", "every multigraph on 4 nodes of shape (1,1)", multis(&[(1, 1); 4], ctx.pick(4, 5), false), |s| topo_plain_case::<MultiPortGraph>(s, false));
    let c = Choice { sizes: if q { &[6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 40, 65] } else { &[6, 7, 8, 9, 10, 12, 14, 15, 16, 17, 24, 31, 32, 33, 40, 48, 63, 64, 65, 70, 129] }, cyclic: true, drop: if q { 17 } else { 40 } };
    let limit = ctx.pick(50, 1000);
    let what = "both directions, from many starts, with sources added on the way and single nodes and ports rejected";
    big_section(ctx, "large-portgraph", what, members::<PortGraph>(&c), |s| topo_big::<PortGraph>(s, limit));
    big_section(ctx, "large-multi", what, members::<MultiPortGraph>(&c), |s| topo_big::<MultiPortGraph>(s, limit));
    if !q {
        plain_section(ctx, "portgraph-dag-6", "every graph on 6 nodes of shapes (0,2),(1,2),(2,1),(1,1),(2,0),(1,1)", singles(&[(0, 2), (1, 2), (2, 1), (1, 1), (2, 0), (1, 1)], 7, false), |s| topo_plain_case::<PortGraph>(s, false));
    }
}

// ---------------------------------------------------------------------------
// C21
// ---------------------------------------------------------------------------

/// Depth-first finishing order, following sources and ports in order.
fn dfs_order(d: &Dir, src: &[usize]) -> Vec<usize> {
    fn go(d: &Dir, k: usize, seen: &mut Vec<bool>, out: &mut Vec<usize>) {
        if std::mem::replace(&mut seen[k], true) {
            return;
        }
        for s in &d.succ[k] {
            go(d, *s, seen, out);
        }
        out.push(k);
    }
    let mut seen = vec![false; d.ok.len()];
    let mut out = vec![];
    for s in src {
        if d.ok[*s] {
            go(d, *s, &mut seen, &mut out);
        }
    }
    out
}

fn run_post(b: &Built<PortGraph>, d: &Dir, mut t: impl Iterator<Item = NodeIndex>, src: &[usize]) -> Result<u64, String> {
    let mut order: Vec<usize> = vec![];
    let mut hints = vec![t.size_hint()];
    while let Some(n) = t.next() {
        order.push(b.k(n));
        ensure!(order.len() <= b.nodes.len(), "more nodes than the graph has: {order:?}");
        hints.push(t.size_hint());
    }
    ensure!(t.next().is_none(), "another node after the end");
    ensure_eq!(order, dfs_order(d, src), "order");
    for (at, (lo, hi)) in hints.into_iter().enumerate() {
        let left = order.len() - at;
        ensure!(lo <= left && hi.is_none_or(|h| left <= h), "size_hint {:?} with {left} nodes to come", (lo, hi));
    }
    Ok(order.len() as u64 + 1)
}

/// All sequences of distinct elements of 0..n.
fn arrangements(n: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    let mut from = 0;
    while from < out.len() {
        let x: Vec<usize> = out[from].clone();
        from += 1;
        for k in 0..n {
            if !x.contains(&k) {
                let mut y = x.clone();
                y.push(k);
                out.push(y);
            }
        }
    }
    out
}

fn post_case(spec: &Spec, nodes: u64, ports: u64) -> Result<Tally, String> {
    let b: Built<PortGraph> = build(spec)?;
    let m = mask_of(&b, nodes, ports);
    let full = m == mask_of(&b, !0, !0);
    let mut steps = 0;
    for dir in DIRS {
        let d = directed(&b, &m, dir);
        for s in arrangements(b.nodes.len()) {
            let what = |e: String| format!("{dir:?} from {s:?}: {e}");
            let list: Vec<NodeIndex> = s.iter().map(|k| ni(b.nodes[*k])).collect();
            let pf = |n: NodeIndex, p: PortIndex| {
                assert_eq!(b.g.port_node(p), Some(n), "the port filter is asked about a port and a node it does not belong to");
                m.ports >> p.index() & 1 == 1
            };
            steps += run_post(&b, &d, postorder_filtered(&b.g, list.iter().copied(), dir, |n| m.nodes >> n.index() & 1 == 1, pf), &s).map_err(what)?;
            if full {
                steps += run_post(&b, &d, postorder(&b.g, list.iter().copied(), dir), &s).map_err(what)?;
                steps += run_post(&b, &d, postorder(&b.g, list.iter().chain(&list).copied(), dir), &s).map_err(what)?;
            }
        }
    }
    Ok(Tally { steps, outcome: outcome_of(&filtered(&b.view, &m)) })
}

fn post_big(spec: &Spec, limit: usize) -> Result<Tally, String> {
    let b: Built<PortGraph> = build(spec)?;
    let n = b.nodes.len();
    let list = |s: &[usize]| s.iter().map(|k| ni(b.nodes[*k])).collect::<Vec<_>>();
    let mut starts: Vec<Vec<usize>> = starts_of(n).into_iter().map(|k| vec![k]).collect();
    starts.push((0..n).collect());
    starts.push((0..n).rev().collect());
    starts.push(vec![n - 1, n / 2, 0]);
    starts.push(vec![n / 2, n / 2 - 1, n / 2 + 1]);
    let mut steps = 0;
    for dir in DIRS {
        let d = directed(&b, &ALL, dir);
        for s in &starts {
            steps += run_post(&b, &d, postorder(&b.g, list(s), dir), s).map_err(|e| format!("{dir:?} from {s:?}: {e}"))?;
        }
        for m in rejections(&b, limit) {
            heartbeat();
            let d = directed(&b, &m, dir);
            for s in [vec![0], vec![n - 1], vec![n / 2, 0], (0..n).collect()] {
                let nf = |n: NodeIndex| m.nodes >> n.index() & 1 == 1;
                let pf = |_: NodeIndex, p: PortIndex| m.ports >> p.index() & 1 == 1;
                steps += run_post(&b, &d, postorder_filtered(&b.g, list(&s), dir, nf, pf), &s).map_err(|e| format!("{dir:?} from {s:?}, filtered by {m:?}: {e}"))?;
            }
        }
    }
    Ok(Tally { steps, outcome: outcome_of(&b.view) })
}

pub fn c21(ctx: &mut Ctx) {
    let q = ctx.quick();
    masked_section(ctx, "filtered-3", "every graph on 3 nodes of shapes (1,1),(2,1),(1,2); starts in every order", singles(&MIX, 9, true), q.then_some(3), post_case);
    masked_section(ctx, "filtered-2", "every graph on 2 nodes of shapes (2,2),(1,2); starts in every order", singles(&[(2, 2), (1, 2)], 9, true), None, post_case);
    let c = Choice { sizes: if q { &[6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 40, 65] } else { &[6, 7, 8, 9, 10, 12, 14, 15, 16, 17, 24, 31, 32, 33, 40, 48, 63, 64, 65, 70, 129] }, cyclic: true, drop: if q { 33 } else { 65 } };
    let limit = ctx.pick(100, 1000);
    big_section(ctx, "large", "both directions, from many starts, with single nodes and ports rejected", members::<PortGraph>(&c), |s| post_big(s, limit));
    let full = |s: &Spec| post_case(s, !0, !0);
    plain_section(ctx, "plain-4", "every graph on 4 nodes of shapes (1,2),(2,1),(1,1),(2,2); starts in every order", singles(&[(1, 2), (2, 1), (1, 1), (2, 2)], 9, false), full);
    plain_section(ctx, "plain-4-wide", "every graph on 4 nodes of shapes (1,3),(2,1),(1,1),(2,1); starts in every order", singles(&[(1, 3), (2, 1), (1, 1), (2, 1)], 9, true), full);
    if !q {
        plain_section(ctx, "plain-5", "every graph on 5 nodes of shapes (1,2),(2,1),(1,1),(1,2),(1,1) with up to 5 links; starts in every order", singles(&[(1, 2), (2, 1), (1, 1), (1, 2), (1, 1)], 5, false), full);
    }
}

// ---------------------------------------------------------------------------
// C22
// ---------------------------------------------------------------------------

fn reach_without(d: &Dir, from: usize, without: Option<usize>) -> Vec<bool> {
    let mut seen = vec![false; d.ok.len()];
    let mut todo = vec![from];
    while let Some(k) = todo.pop() {
        if Some(k) == without || std::mem::replace(&mut seen[k], true) {
            continue;
        }
        todo.extend(d.succ[k].iter().copied());
    }
    seen
}

/// The immediate dominator of every node, from the definition.
fn idoms(d: &Dir, entry: usize) -> Vec<Option<usize>> {
    let n = d.ok.len();
    let r = reach_without(d, entry, None);
    let cut: Vec<Vec<bool>> = (0..n).map(|k| reach_without(d, entry, Some(k))).collect();
    let dom = |a: usize, b: usize| r[b] && !cut[a][b];
    (0..n)
        .map(|k| {
            if k == entry || !r[k] {
                return None;
            }
            let c: Vec<usize> = (0..n).filter(|x| *x != k && r[*x] && dom(*x, k)).collect();
            // the strict dominator dominated by all others
            c.iter().copied().find(|x| c.iter().all(|y| y == x || dom(*y, *x)))
        })
        .collect()
}

fn check_dom<M: SecondaryMap<NodeIndex, MaybeNodeIndex<u32>>>(b: &Built<PortGraph>, t: &DominatorTree<M>, want: &[Option<usize>], entry: usize) -> Result<u64, String> {
    ensure_eq!(t.root(), ni(b.nodes[entry]), "root");
    let got: Vec<Option<usize>> = b.nodes.iter().map(|n| t.immediate_dominator(ni(*n)).map(|x| b.k(x))).collect();
    ensure_eq!(got, want, "immediate dominators");
    Ok(1 + got.len() as u64)
}

fn dom_case(spec: &Spec, nodes: u64, ports: u64) -> Result<Tally, String> {
    let b: Built<PortGraph> = build(spec)?;
    let m = mask_of(&b, nodes, ports);
    let full = m == mask_of(&b, !0, !0);
    let mut steps = 0;
    let mut out = vec![];
    for dir in DIRS {
        let d = directed(&b, &m, dir);
        for entry in (0..b.nodes.len()).filter(|k| d.ok[*k]) {
            let what = |e: String| format!("{dir:?} from {entry}: {e}");
            let want = idoms(&d, entry);
            let e = ni(b.nodes[entry]);
            let pf = |n: NodeIndex, p: PortIndex| {
                assert_eq!(b.g.port_node(p), Some(n), "the port filter is asked about a port and a node it does not belong to");
                m.ports >> p.index() & 1 == 1
            };
            let t: DominatorTree = dominators_filtered(&b.g, e, dir, |n| m.nodes >> n.index() & 1 == 1, pf);
            steps += check_dom(&b, &t, &want, entry).map_err(what)?;
            if full {
                let t: DominatorTree = dominators(&b.g, e, dir);
                steps += check_dom(&b, &t, &want, entry).map_err(what)?;
            }
            out.push(want);
        }
    }
    Ok(Tally { steps, outcome: outcome_of(&out) })
}

fn dom_big(spec: &Spec, limit: usize) -> Result<Tally, String> {
    let b: Built<PortGraph> = build(spec)?;
    let n = b.nodes.len();
    let mut steps = 0;
    for dir in DIRS {
        let d = directed(&b, &ALL, dir);
        for entry in starts_of(n) {
            let t: DominatorTree = dominators(&b.g, ni(b.nodes[entry]), dir);
            steps += check_dom(&b, &t, &idoms(&d, entry), entry).map_err(|e| format!("{dir:?} from {entry}: {e}"))?;
        }
        for m in rejections(&b, limit) {
            heartbeat();
            let d = directed(&b, &m, dir);
            for entry in [0, n / 2, n - 1] {
                if d.ok[entry] {
                    let nf = |n: NodeIndex| m.nodes >> n.index() & 1 == 1;
                    let pf = |_: NodeIndex, p: PortIndex| m.ports >> p.index() & 1 == 1;
                    let t: DominatorTree = dominators_filtered(&b.g, ni(b.nodes[entry]), dir, nf, pf);
                    steps += check_dom(&b, &t, &idoms(&d, entry), entry).map_err(|e| format!("{dir:?} from {entry}, filtered by {m:?}: {e}"))?;
                }
            }
        }
    }
    Ok(Tally { steps, outcome: outcome_of(&b.view) })
}

pub fn c22(ctx: &mut Ctx) {
    let q = ctx.quick();
    masked_section(ctx, "filtered-3", "every graph on 3 nodes of shapes (1,1),(2,1),(1,2)", singles(&MIX, 9, true), None, dom_case);
    masked_section(ctx, "filtered-4", "every graph on 4 nodes of shapes (1,2),(2,1),(1,1),(1,1)", singles(&[(1, 2), (2, 1), (1, 1), (1, 1)], 9, false), Some(ctx.pick(1, 2)), dom_case);
    let c = Choice { sizes: if q { &[6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 40, 65] } else { &[6, 7, 8, 9, 10, 12, 14, 15, 16, 17, 24, 31, 32, 33, 40, 48, 63, 64, 65, 70, 129] }, cyclic: true, drop: if q { 17 } else { 40 } };
    let limit = ctx.pick(40, 400);
    big_section(ctx, "large", "both directions, from many entries, with single nodes and ports rejected", members::<PortGraph>(&c), |s| dom_big(s, limit));
    let full = |s: &Spec| dom_case(s, !0, !0);
    plain_section(ctx, "plain-4", "every graph on 4 nodes of shape (2,2) with up to 6 links", singles(&[(2, 2); 4], ctx.pick(5, 8), true), full);
    plain_section(ctx, "plain-5", "every graph on 5 nodes of shapes (1,2),(2,1),(1,1),(2,2),(1,1)", singles(&[(1, 2), (2, 1), (1, 1), (2, 2), (1, 1)], ctx.pick(5, 7), false), full);
    // every directed graph without parallel links on n nodes: node k has n inputs and n outputs
    for n in 2..=5 {
        let shapes = vec![(n, n); n];
        let e: Vec<(usize, usize)> = (0..n * n).filter(|x| x / n != x % n).map(|x| (x / n, x % n)).collect();
        let spec = |bits: u64| Spec {
            shapes: shapes.clone(),
            links: e.iter().enumerate().filter(|(i, _)| bits >> i & 1 == 1).map(|(_, (a, c))| (a * n + c, c * n + a)).collect(),
            holes: bits % 2 == 1,
        };
        cases(ctx, &format!("digraphs-{n}"), &format!("every directed graph on {n} nodes, both directions, every entry"), 1 << e.len(),
            |i| format!("{:?}", spec(i)), |i| dom_case(&spec(i), !0, !0));
    }
    let _ = q;
}

// ---------------------------------------------------------------------------
// C23
// ---------------------------------------------------------------------------

fn check_lca(l: &LCA, parents: &[Option<usize>], at: impl Fn(usize) -> NodeIndex) -> Result<u64, String> {
    check_lca_in(l, parents, !0, at)
}
/// Queries among the nodes in the bit set.
fn check_lca_in(l: &LCA, parents: &[Option<usize>], set: u64, at: impl Fn(usize) -> NodeIndex) -> Result<u64, String> {
    let n = parents.len();
    let up = |k: usize| std::iter::successors(Some(k), |x| parents[*x]).collect::<Vec<_>>();
    let inside = |k: &usize| n > 60 || set >> k & 1 == 1;
    for a in (0..n).filter(inside) {
        let ua = up(a);
        ensure_eq!(l.root(at(a)), at(*ua.last().unwrap()), "root of {a}");
        for b in (0..n).filter(inside) {
            let ub = up(b);
            ensure_eq!(l.is_ancestor(at(a), at(b)), ub.contains(&a), "is_ancestor({a},{b})");
            ensure_eq!(l.lca(at(a), at(b)), ua.iter().find(|x| ub.contains(x)).map(|x| at(*x)), "lca({a},{b})");
        }
    }
    Ok((n * n) as u64)
}

fn lca_case(parents: &[Option<usize>], desc: bool) -> Result<Tally, String> {
    let n = parents.len();
    let b: Built<PortGraph> = build(&Spec { shapes: vec![(0, 0); n], links: vec![], holes: desc })?;
    let h = hierarchy(parents, &b.nodes, desc);
    let mut steps = check_lca(&lca(&b.g, &h), parents, |k| ni(b.nodes[k]))?;
    let b: Built<MultiPortGraph> = build(&Spec { shapes: vec![(0, 0); n], links: vec![], holes: !desc })?;
    let h = hierarchy(parents, &b.nodes, desc);
    steps += check_lca(&LCA::new(&b.g, &h).clone(), parents, |k| ni(b.nodes[k]))?;
    // A view of some whole trees: queries among their nodes.
    let roots: Vec<usize> = (0..n).filter(|k| parents[*k].is_none()).collect();
    for r in &roots {
        let inside: Vec<usize> = (0..n).filter(|k| below(parents, *k, *r)).collect();
        let p: Vec<Option<usize>> = inside.iter().map(|k| parents[*k].map(|x| inside.iter().position(|y| *y == x).unwrap())).collect();
        let v = Region::new(&b.g, &h, ni(b.nodes[*r]));
        steps += check_lca(&lca(&v, &h), &p, |k| ni(b.nodes[inside[k]])).map_err(|e| format!("region of {r}: {e}"))?;
    }
    // Views that leave out some ancestors: every region and every set of nodes.
    if n <= 6 {
        for r in 0..n {
            let set = (0..n).filter(|k| below(parents, *k, r)).fold(0, |s, k| s | 1 << k);
            let v = Region::new(&b.g, &h, ni(b.nodes[r]));
            steps += check_lca_in(&lca(&v, &h), parents, set, |k| ni(b.nodes[k])).map_err(|e| format!("in the region of {r}: {e}"))?;
        }
        for set in 1..1u64 << n {
            let v = filt(&b.g, crate::views::mask_of(&b, set, !0));
            steps += check_lca_in(&lca(&v, &h), parents, set, |k| ni(b.nodes[k])).map_err(|e| format!("in the view of the nodes {set:#b}: {e}"))?;
        }
    }
    Ok(Tally { steps, outcome: outcome_of(&parents) })
}

/// Forests in which every parent has a smaller number; the numbers are then
/// reversed for half of the cases.
fn increasing(n: usize, mut c: u64, reversed: bool) -> Vec<Option<usize>> {
    let mut p = vec![None; n];
    for k in 1..n {
        let v = (c % (k as u64 + 1)) as usize;
        c /= k as u64 + 1;
        p[k] = if v == k { None } else { Some(v) };
    }
    if reversed {
        p = (0..n).map(|k| p[n - 1 - k].map(|x| n - 1 - x)).collect();
    }
    p
}

pub fn c23(ctx: &mut Ctx) {
    for n in 1..=6 {
        let f = forests(n);
        cases(ctx, &format!("forests-{n}"), &format!("every labelled forest on {n} nodes, children in both orders, all pairs"), 2 * f.len() as u64,
            |i| format!("{:?} descending {}", f[i as usize / 2], i % 2), |i| lca_case(&f[i as usize / 2], i % 2 == 1));
    }
    for n in 6..=ctx.pick(9, 10) {
        let total: u64 = (1..=n as u64).product::<u64>() * 2;
        cases(ctx, &format!("tall-{n}"), &format!("every forest on {n} nodes numbered from the roots or from the leaves, all pairs"), total,
            |i| format!("{:?}", increasing(n, i / 2, i % 2 == 1)), |i| lca_case(&increasing(n, i / 2, i % 2 == 1), i % 4 < 2));
    }
    let mut big: Vec<(String, Vec<Option<usize>>)> = vec![];
    for n in if ctx.quick() { vec![9, 10, 11, 12, 15, 16, 17, 18, 31, 32, 33, 34, 40, 63, 64, 65, 66, 100, 129] } else { (9..140).collect() } {
        big.extend(big_forests(n));
    }
    cases(ctx, "large", &format!("{} larger forests of up to 129 nodes (chains, stars, combs, binary trees, brooms, forks, several trees; three numberings), children in both orders, all pairs; whole trees as regions", big.len()), 2 * big.len() as u64,
        |i| format!("{} descending {}", big[i as usize / 2].0, i % 2), |i| lca_case(&big[i as usize / 2].1, i % 2 == 1));
    // two long branches off a trunk: every depth below and above the fork
    let m = ctx.pick(16u64, 24);
    let spec = |i: u64| {
        let (t, x, y) = ((i % m) as usize, (i / m % m) as usize, (i / m / m) as usize);
        let mut p: Vec<Option<usize>> = (0..=t).map(|k| k.checked_sub(1)).collect();
        for len in [x, y] {
            for k in 0..len {
                p.push(Some(if k == 0 { t } else { p.len() - 1 }));
            }
        }
        p
    };
    cases(ctx, "forks", &format!("trunk and two branches of every length up to {m}, all pairs"), m * m * m, |i| format!("{:?}", spec(i)), |i| lca_case(&spec(i), i % 2 == 1));
}
