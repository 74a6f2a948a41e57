//! C27: the petgraph traits of every graph kind and view, and petgraph's
//! algorithms run through them.

use crate::convex::{rel, Rel};
use crate::engine::*;
use crate::families::*;
use crate::gen::*;
use crate::viewcheck::*;
use crate::views::{filtered, mask_of};
use crate::{ensure, ensure_eq};
use petgraph::algo;
use petgraph::visit as pv;
use petgraph::visit::{EdgeCount, EdgeRef as _, GetAdjacencyMatrix, GraphProp, IntoEdgeReferences, IntoEdges, IntoEdgesDirected, IntoNeighbors, IntoNeighborsDirected, IntoNodeIdentifiers, IntoNodeReferences, NodeCount, NodeIndexable, NodeRef as _, VisitMap, Visitable, Walker};
use portgraph::view::{FlatRegion, LinkView, PortView, Region, Subgraph};
use portgraph::{MultiPortGraph, NodeIndex, PortGraph};
use std::collections::{BTreeMap, BTreeSet};

/// An edge as (source node, target node, output endpoint, input endpoint).
type Edge = (usize, usize, Ep, Ep);

/// What petgraph should see.
struct Model {
    r: Rel,
    edges: Vec<Edge>,
    /// shortest distances
    dist: Vec<Vec<Option<u64>>>,
}

fn model(v: &RefView) -> Model {
    let r = rel(v);
    let o = v.port_owner();
    let edges = v.links.iter().map(|(a, b)| (o[&a.0].0, o[&b.0].0, *a, *b)).collect();
    let n = r.nodes.len();
    let mut dist = vec![vec![None; n]; n];
    for (s, row) in dist.iter_mut().enumerate() {
        row[s] = Some(0);
        for d in 0..n as u64 {
            for (a, b) in &r.e {
                if row[*a] == Some(d) && row[*b].is_none() {
                    row[*b] = Some(d + 1);
                }
            }
        }
    }
    Model { r, edges, dist }
}

impl Model {
    fn at(&self, n: NodeIndex) -> Result<usize, String> {
        self.r.nodes.iter().position(|x| *x == n.index()).ok_or(format!("{n:?} is not a node"))
    }
    fn n(&self, k: usize) -> NodeIndex {
        ni(self.r.nodes[k])
    }
    fn all(&self) -> Vec<NodeIndex> {
        self.r.nodes.iter().map(|n| ni(*n)).collect()
    }
    /// An order in which edges go forward.
    fn is_topo(&self, l: &[NodeIndex]) -> Result<bool, String> {
        let pos: BTreeMap<usize, usize> = l.iter().enumerate().map(|(i, n)| (n.index(), i)).collect();
        Ok(l.len() == self.r.nodes.len() && pos.len() == l.len() && self.edges.iter().all(|e| pos[&e.0] < pos[&e.1]))
    }
    /// Immediate dominator of k seen from root, if k is reached.
    fn idom(&self, root: usize, k: usize) -> Option<usize> {
        let n = self.r.nodes.len();
        if !self.r.r[root][k] || k == root {
            return None;
        }
        let dom = |d: usize, k: usize| {
            // without d, k is not reached
            let e: Vec<_> = self.r.e.iter().copied().filter(|x| x.0 != d && x.1 != d).collect();
            d == root || d == k || !reach(n, &e)[root][k]
        };
        let strict: Vec<usize> = (0..n).filter(|d| *d != k && self.r.r[root][*d] && dom(*d, k)).collect();
        strict.iter().copied().find(|d| strict.iter().all(|x| dom(*x, *d)))
    }
}

fn edge<E: EpKey, R: pv::EdgeRef<NodeId = NodeIndex, EdgeId = (E, E)>>(e: R) -> Edge {
    let _ = e.weight();
    (e.source().index(), e.target().index(), e.id().0.ep(), e.id().1.ep())
}

macro_rules! checks {
    ($name:ident, $t:ty) => {
        fn $name(g: &$t, v: &RefView, algos: bool) -> Result<u64, String> {
            let m = model(v);
            let n = m.r.nodes.len();
            let mut steps = 0u64;
            // Counts and index maps.
            ensure_eq!(NodeCount::node_count(g), n, "node_count");
            ensure_eq!(EdgeCount::edge_count(g), m.edges.len(), "edge_count");
            ensure!(GraphProp::is_directed(g), "is_directed");
            let bound = NodeIndexable::node_bound(g);
            let mut seen = BTreeSet::new();
            for x in m.all() {
                let i = NodeIndexable::to_index(g, x);
                ensure!(i < bound, "to_index({x:?}) is {i}, node_bound is {bound}");
                ensure!(seen.insert(i), "to_index({x:?}) is {i}, as for another node");
                ensure_eq!(NodeIndexable::from_index(g, i), x, "from_index({i})");
            }
            // Nodes.
            ensure!(same_multiset(&g.node_identifiers().collect::<Vec<_>>(), &m.all()), "node_identifiers gives {:?}, expected {:?}", g.node_identifiers().collect::<Vec<_>>(), m.all());
            let refs: Vec<NodeIndex> = g.node_references().map(|x| { let () = x.weight(); x.id() }).collect();
            ensure!(same_multiset(&refs, &m.all()), "node_references gives {refs:?}");
            // Edges.
            let mut it = g.edge_references();
            let mut got = vec![];
            for left in (0..=m.edges.len()).rev() {
                ensure_eq!((it.size_hint(), it.len()), ((left, Some(left)), left), "size_hint and len of edge_references with {left} of {} edges left", m.edges.len());
                if left > 0 {
                    got.push(edge(it.next().ok_or(format!("edge_references ends with {left} of {} edges missing", m.edges.len()))?));
                }
            }
            ensure!(it.next().is_none() && it.next().is_none(), "edge_references yields more than {} edges", m.edges.len());
            ensure!(same_multiset(&got, &m.edges), "edge_references gives {got:?}, expected {:?}", m.edges);
            ensure_eq!(g.edge_references().count(), m.edges.len(), "edge_references().count()");
            steps += 6 + n as u64 * 4;
            for x in m.all() {
                let out: Vec<Edge> = m.edges.iter().copied().filter(|e| e.0 == x.index()).collect();
                let inc: Vec<Edge> = m.edges.iter().copied().filter(|e| e.1 == x.index()).collect();
                let targets: Vec<NodeIndex> = out.iter().map(|e| ni(e.1)).collect();
                let sources: Vec<NodeIndex> = inc.iter().map(|e| ni(e.0)).collect();
                let c = |what: &str, got: Vec<NodeIndex>, want: &Vec<NodeIndex>| -> Res {
                    ensure!(same_multiset(&got, want), "{what} of {x:?} gives {got:?}, expected {want:?}");
                    Ok(())
                };
                c("neighbors", g.neighbors(x).collect(), &targets)?;
                c("neighbors_directed(Outgoing)", g.neighbors_directed(x, petgraph::Outgoing).collect(), &targets)?;
                c("neighbors_directed(Incoming)", g.neighbors_directed(x, petgraph::Incoming).collect(), &sources)?;
                let c = |what: &str, got: Vec<Edge>, hint: (usize, Option<usize>), want: &Vec<Edge>, count: usize| -> Res {
                    ensure!(same_multiset(&got, want), "{what} of {x:?} gives {got:?}, expected {want:?}");
                    ensure_eq!(count, want.len(), "{what} of {x:?}, count()");
                    ensure!(hint.0 <= want.len() && hint.1.map_or(true, |h| want.len() <= h), "{what} of {x:?}: size_hint {hint:?} for {} edges", want.len());
                    Ok(())
                };
                c("edges", g.edges(x).map(edge).collect(), g.edges(x).size_hint(), &out, g.edges(x).count())?;
                for (d, want) in [(petgraph::Outgoing, &out), (petgraph::Incoming, &inc)] {
                    c(&format!("edges_directed({d:?})"), g.edges_directed(x, d).map(edge).collect(), g.edges_directed(x, d).size_hint(), want, g.edges_directed(x, d).count())?;
                }
                steps += 6;
            }
            // Adjacency.
            let adj = GetAdjacencyMatrix::adjacency_matrix(g);
            for a in m.all() {
                for b in m.all() {
                    ensure_eq!(GetAdjacencyMatrix::is_adjacent(g, &adj, a, b), m.edges.iter().any(|e| e.0 == a.index() && e.1 == b.index()), "is_adjacent({a:?},{b:?})");
                    steps += 1;
                }
            }
            // Visit maps: all subsets of nodes visited.
            let all_sets: Vec<Vec<usize>> = if n > 9 { node_sets(n, false) } else { (0..1u64 << n).map(|s| (0..n).filter(|k| s >> k & 1 == 1).collect()).collect() };
            for set in all_sets {
                let s: u128 = set.iter().map(|k| 1u128 << k).sum();
                let mut map = Visitable::visit_map(g);
                for k in 0..n {
                    if s >> k & 1 == 1 {
                        ensure!(map.visit(m.n(k)), "the first visit of {:?} is not reported as such", m.n(k));
                        ensure!(!map.visit(m.n(k)), "the second visit of {:?} is reported as the first", m.n(k));
                    }
                }
                for k in 0..n {
                    ensure_eq!(map.is_visited(&m.n(k)), s >> k & 1 == 1, "is_visited({:?}) with the visited nodes {s:#b}", m.n(k));
                }
                for k in (0..n).step_by(2) {
                    ensure_eq!(map.unvisit(m.n(k)), s >> k & 1 == 1, "unvisit({:?}) with the visited nodes {s:#b}", m.n(k));
                    ensure!(!map.is_visited(&m.n(k)), "is_visited({:?}) after unvisit", m.n(k));
                    ensure!(!map.unvisit(m.n(k)), "unvisit({:?}) twice", m.n(k));
                }
                for k in (1..n).step_by(2) {
                    ensure_eq!(map.is_visited(&m.n(k)), s >> k & 1 == 1, "is_visited({:?}) after unvisiting others", m.n(k));
                }
                Visitable::reset_map(g, &mut map);
                for k in 0..n {
                    ensure!(!map.is_visited(&m.n(k)), "is_visited({:?}) after reset_map", m.n(k));
                    ensure!(map.visit(m.n(k)), "first visit of {:?} after reset_map", m.n(k));
                }
                steps += n as u64;
            }
            if !algos {
                return Ok(steps);
            }
            // Algorithms.
            let acyclic = m.r.acyclic();
            ensure_eq!(algo::is_cyclic_directed(g), !acyclic, "is_cyclic_directed");
            match algo::toposort(g, None) {
                Ok(l) => ensure!(acyclic && m.is_topo(&l)?, "toposort gives {l:?}"),
                Err(c) => {
                    let k = m.at(c.node_id())?;
                    ensure!(m.r.e.iter().any(|e| e.0 == k && m.r.r[e.1][k]), "toposort reports a cycle at {:?}", c.node_id());
                }
            }
            if acyclic {
                let l: Vec<NodeIndex> = pv::Topo::new(g).iter(g).collect();
                ensure!(m.is_topo(&l)?, "Topo gives {l:?}");
            }
            for (what, comps) in [("tarjan_scc", algo::tarjan_scc(g)), ("kosaraju_scc", algo::kosaraju_scc(g))] {
                let mut of = BTreeMap::new();
                for (i, c) in comps.iter().enumerate() {
                    for x in c {
                        ensure!(of.insert(m.at(*x)?, i).is_none(), "{what}: {x:?} is in two components");
                    }
                }
                ensure_eq!(of.len(), n, "{what}: nodes in components");
                for a in 0..n {
                    for b in 0..n {
                        ensure_eq!(of[&a] == of[&b], m.r.r[a][b] && m.r.r[b][a], "{what}: {:?} and {:?} in one component", m.n(a), m.n(b));
                        ensure!(of[&a] == of[&b] || !m.r.r[a][b] || of[&a] > of[&b], "{what}: order of components");
                    }
                }
            }
            for a in 0..n {
                let reached: Vec<NodeIndex> = (0..n).filter(|b| m.r.r[a][*b]).map(|b| m.n(b)).collect();
                let dfs: Vec<NodeIndex> = pv::Dfs::new(g, m.n(a)).iter(g).collect();
                ensure!(same_multiset(&dfs, &reached), "Dfs from {:?} gives {dfs:?}, reachable are {reached:?}", m.n(a));
                let post: Vec<NodeIndex> = pv::DfsPostOrder::new(g, m.n(a)).iter(g).collect();
                ensure!(same_multiset(&post, &reached) && post.last() == Some(&m.n(a)), "DfsPostOrder from {:?} gives {post:?}, reachable are {reached:?}", m.n(a));
                let bfs: Vec<NodeIndex> = pv::Bfs::new(g, m.n(a)).iter(g).collect();
                ensure!(same_multiset(&bfs, &reached), "Bfs from {:?} gives {bfs:?}, reachable are {reached:?}", m.n(a));
                let d: Vec<_> = bfs.iter().map(|x| m.at(*x).map(|k| m.dist[a][k])).collect::<Result<_, _>>()?;
                ensure!(d.windows(2).all(|w| w[0] <= w[1]), "Bfs from {:?} is not by distance: {bfs:?}", m.n(a));
                let dij = algo::dijkstra(g, m.n(a), None, |_| 1u64);
                let dom = algo::dominators::simple_fast(g, m.n(a));
                let back: Vec<NodeIndex> = pv::Dfs::new(pv::Reversed(g), m.n(a)).iter(pv::Reversed(g)).collect();
                let want: Vec<NodeIndex> = (0..n).filter(|b| m.r.r[*b][a]).map(|b| m.n(b)).collect();
                ensure!(same_multiset(&back, &want), "Dfs on the reversed graph from {:?} gives {back:?}, expected {want:?}", m.n(a));
                let rdij = algo::dijkstra(pv::Reversed(g), m.n(a), None, |_| 1u64);
                for b in 0..n {
                    ensure_eq!(dij.get(&m.n(b)).copied(), m.dist[a][b], "dijkstra from {:?} to {:?}", m.n(a), m.n(b));
                    ensure_eq!(rdij.get(&m.n(b)).copied(), m.dist[b][a], "dijkstra on the reversed graph from {:?} to {:?}", m.n(a), m.n(b));
                    ensure_eq!(algo::has_path_connecting(g, m.n(a), m.n(b), None), m.r.r[a][b], "has_path_connecting({:?},{:?})", m.n(a), m.n(b));
                    ensure_eq!(dom.immediate_dominator(m.n(b)), m.idom(a, b).map(|k| m.n(k)), "dominators from {:?}: immediate dominator of {:?}", m.n(a), m.n(b));
                    let path = algo::astar(g, m.n(a), |x| x == m.n(b), |_| 1u64, |_| 0u64);
                    ensure_eq!(path.as_ref().map(|x| x.0), m.dist[a][b], "astar from {:?} to {:?}", m.n(a), m.n(b));
                    if let Some((_, p)) = path {
                        ensure!(p.first() == Some(&m.n(a)) && p.last() == Some(&m.n(b)) && p.windows(2).all(|w| m.edges.iter().any(|e| e.0 == w[0].index() && e.1 == w[1].index())), "astar from {:?} to {:?} gives {p:?}", m.n(a), m.n(b));
                    }
                    steps += 5;
                }
                steps += 5;
            }
            // A spanning forest: n minus the number of (weak) components edges.
            let tree = algo::min_spanning_tree(g).filter(|e| matches!(e, petgraph::data::Element::Edge { .. })).count();
            let both: Vec<_> = m.r.e.iter().flat_map(|(a, b)| [(*a, *b), (*b, *a)]).collect();
            let w = reach(n, &both);
            let comps = (0..n).filter(|a| (0..*a).all(|b| !w[*a][b])).count();
            ensure_eq!(tree, n - comps, "edges of min_spanning_tree");
            Ok(steps + 6)
        }
    };
}

/// The petgraph traits of a graph type and of the views over it.
trait Pet: TG {
    fn own(g: &Self, v: &RefView, algos: bool) -> Result<u64, String>;
    fn region(g: &Region<'_, &Self>, v: &RefView, algos: bool) -> Result<u64, String>;
    fn flat(g: &FlatRegion<'_, &Self>, v: &RefView, algos: bool) -> Result<u64, String>;
    fn sub(g: &Subgraph<&Self>, v: &RefView, algos: bool) -> Result<u64, String>;
    fn filt(g: &Filt<&Self>, v: &RefView, algos: bool) -> Result<u64, String>;
}
macro_rules! pet {
    ($g:ty, $m:ident) => {
        mod $m {
            use super::*;
            checks!(own, $g);
            checks!(region, Region<'_, &$g>);
            checks!(flat, FlatRegion<'_, &$g>);
            checks!(sub, Subgraph<&$g>);
            checks!(filt, Filt<&$g>);
            impl Pet for $g {
                fn own(g: &Self, v: &RefView, a: bool) -> Result<u64, String> {
                    own(g, v, a)
                }
                fn region(g: &Region<'_, &Self>, v: &RefView, a: bool) -> Result<u64, String> {
                    region(g, v, a)
                }
                fn flat(g: &FlatRegion<'_, &Self>, v: &RefView, a: bool) -> Result<u64, String> {
                    flat(g, v, a)
                }
                fn sub(g: &Subgraph<&Self>, v: &RefView, a: bool) -> Result<u64, String> {
                    sub(g, v, a)
                }
                fn filt(g: &Filt<&Self>, v: &RefView, a: bool) -> Result<u64, String> {
                    filt(g, v, a)
                }
            }
        }
    };
}
pet!(PortGraph, single);
pet!(MultiPortGraph, multi);

fn base<G: Pet>(ctx: &mut Ctx, name: &str, bound: &str, specs: Vec<Spec>) {
    cases(ctx, name, &format!("{bound}: {} graphs, all traits and algorithms", specs.len()), specs.len() as u64, |i| format!("{:?}", specs[i as usize]), |i| {
        let b: Built<G> = build(&specs[i as usize])?;
        let mut steps = G::own(&b.g, &b.view, true)?;
        // After compaction of the indices there are no holes.
        let mut g = b.g.clone();
        g.compact_nodes(|_, _| {});
        let v = crate::copy::observe(&g);
        steps += G::own(&g, &v, true).map_err(|e| format!("after compact_nodes: {e}"))?;
        // A node removed.
        for n in &b.nodes {
            let mut g = b.g.clone();
            g.remove_node(ni(*n));
            let v = crate::copy::observe(&g);
            steps += G::own(&g, &v, true).map_err(|e| format!("after removing node {n}: {e}"))?;
        }
        Ok(Tally { steps, outcome: outcome_of(&b.view) })
    });
}

fn views<G: Pet>(ctx: &mut Ctx, name: &str, bound: &str, specs: Vec<Spec>, all_ports: bool) {
    let n = specs[0].shapes.len();
    let f = forests(n);
    cases(ctx, name, &format!("{bound}: {} graphs, every subgraph, filter ({}), region and flat region in the {} labelled forests", specs.len(), if all_ports { "nodes and ports" } else { "nodes, and single ports" }, f.len()), specs.len() as u64, |i| format!("{:?}", specs[i as usize]), |i| {
        let b: Built<G> = build(&specs[i as usize])?;
        let mut steps = 0;
        let np = b.view.port_owner().len();
        for s in 0..1u64 << n {
            heartbeat();
            let l: Vec<NodeIndex> = b.nodes.iter().enumerate().filter(|(k, _)| s >> k & 1 == 1).map(|x| ni(*x.1)).collect();
            let m = restrict(&b.view, |x| l.contains(&ni(x)), |_| true);
            steps += G::sub(&Subgraph::with_nodes(&b.g, l.iter().copied()), &m, true).map_err(|e| format!("subgraph {l:?}: {e}"))?;
            let ports: Vec<u64> = if all_ports { (0..1 << np).collect() } else { (0..=np).map(|p| !(1 << p)).collect() };
            for p in ports {
                let k = mask_of(&b, s, p);
                steps += G::filt(&filt(&b.g, k), &filtered(&b.view, &k), true).map_err(|e| format!("filter {k:?}: {e}"))?;
            }
        }
        for (j, parents) in f.iter().enumerate() {
            heartbeat();
            let h = hierarchy(parents, &b.nodes, j % 2 == 1);
            for root in 0..n {
                let rn = ni(b.nodes[root]);
                let m = restrict(&b.view, |x| (0..n).any(|k| b.nodes[k] == x && below(parents, k, root)), |_| true);
                steps += G::region(&Region::new(&b.g, &h, rn), &m, true).map_err(|e| format!("parents {parents:?}: region of {rn:?}: {e}"))?;
                for with in [false, true] {
                    let r = if with { FlatRegion::new_with_root(&b.g, &h, rn) } else { FlatRegion::new_without_root(&b.g, &h, rn) };
                    let m = restrict(&b.view, |x| (0..n).any(|k| b.nodes[k] == x && (parents[k] == Some(root) || with && k == root)), |_| true);
                    steps += G::flat(&r, &m, true).map_err(|e| format!("parents {parents:?}: flat region of {rn:?} (root: {with}): {e}"))?;
                }
            }
        }
        Ok(Tally { steps, outcome: outcome_of(&b.view) })
    });
}

/// A larger graph, with a node removed, compacted, and views over it.
fn pet_large<G: Pet>(spec: &Spec, limit: usize) -> Result<Tally, String> {
    let b: Built<G> = build(spec)?;
    let n = b.nodes.len();
    let algos = n <= 9;
    let mut steps = G::own(&b.g, &b.view, algos)?;
    let mut g = b.g.clone();
    g.compact_nodes(|_, _| {});
    steps += G::own(&g, &crate::copy::observe(&g), algos).map_err(|e| format!("after compact_nodes: {e}"))?;
    for k in [0, n / 2, n - 1] {
        let mut g = b.g.clone();
        g.remove_node(ni(b.nodes[k]));
        steps += G::own(&g, &crate::copy::observe(&g), algos).map_err(|e| format!("after removing node {}: {e}", b.nodes[k]))?;
    }
    let sets = node_sets(n, false);
    for set in sets.iter().step_by(sets.len().div_ceil(limit).max(1)) {
        heartbeat();
        let l: Vec<NodeIndex> = set.iter().map(|k| ni(b.nodes[*k])).collect();
        let m = restrict(&b.view, |x| l.contains(&ni(x)), |_| true);
        steps += G::sub(&Subgraph::with_nodes(&b.g, l.iter().copied()), &m, algos).map_err(|e| format!("subgraph {l:?}: {e}"))?;
        if let Some((root, rest)) = l.split_first() {
            let mut h = portgraph::Hierarchy::new();
            for (k, r) in rest.iter().enumerate() {
                h.push_child(*r, l[k / 2]).map_err(|e| format!("{e:?}"))?;
            }
            steps += G::region(&Region::new(&b.g, &h, *root), &m, algos).map_err(|e| format!("region {l:?}: {e}"))?;
        }
    }
    for m in rejections(&b, limit) {
        heartbeat();
        steps += G::filt(&filt(&b.g, m), &filtered(&b.view, &m), algos).map_err(|e| format!("filtered by {m:?}: {e}"))?;
    }
    Ok(Tally { steps, outcome: outcome_of(&b.view) })
}

fn holes(s: Vec<Spec>) -> Vec<Spec> {
    s.into_iter().flat_map(|s| [Spec { holes: true, ..s.clone() }, Spec { holes: false, ..s }]).collect()
}

pub fn c27(ctx: &mut Ctx) {
    for d in DIRS {
        // Conversion of directions, both ways.
        let p: petgraph::Direction = d.into();
        let ok = portgraph::Direction::from(p) == d && (p == petgraph::Incoming) == (d == portgraph::Direction::Incoming);
        cases(ctx, &format!("direction-{d:?}"), "conversion to petgraph and back", 1, |_| format!("{d:?}"), |_| if ok { Ok(Tally { steps: 2, outcome: d as u64 }) } else { Err(format!("{d:?} converts to {p:?}")) });
    }
    let c = Choice { sizes: if ctx.quick() { &[7, 9, 16, 17, 24] } else { &[6, 7, 8, 9, 12, 15, 16, 17, 24, 33, 40, 65] }, cyclic: true, drop: ctx.pick(0, 12) };
    let (x, y) = (members::<PortGraph>(&c), members::<MultiPortGraph>(&c));
    let limit = ctx.pick(6, 20);
    let what = "all traits, on the graph, with a node removed, compacted, and on subgraphs, regions and filtered views; algorithms up to 9 nodes";
    cases(ctx, "large-portgraph", &describe(what, &x), x.len() as u64, |i| x[i as usize].0.clone(), |i| pet_large::<PortGraph>(&x[i as usize].1, limit));
    cases(ctx, "large-multi", &describe(what, &y), y.len() as u64, |i| y[i as usize].0.clone(), |i| pet_large::<MultiPortGraph>(&y[i as usize].1, limit));
    base::<PortGraph>(ctx, "portgraph-3", "every graph on 3 nodes of shapes (2,1),(1,2),(1,1)", holes(singles(&[(2, 1), (1, 2), (1, 1)], 9, true)));
    base::<PortGraph>(ctx, "portgraph-4", "every graph on 4 nodes of shapes (1,1),(1,1),(1,2),(2,1)", singles(&[(1, 1), (1, 1), (1, 2), (2, 1)], 9, true));
    base::<MultiPortGraph>(ctx, "multi-2", "every multigraph on 2 nodes of shapes (1,2),(2,1)", holes(multis(&[(1, 2), (2, 1)], ctx.pick(5, 7), true)));
    base::<MultiPortGraph>(ctx, "multi-3", "every multigraph on 3 nodes of shape (1,1)", holes(multis(&[(1, 1); 3], ctx.pick(5, 7), true)));
    base::<MultiPortGraph>(ctx, "multi-4", "every multigraph on 4 nodes of shape (1,1)", multis(&[(1, 1); 4], ctx.pick(4, 5), true));
    views::<PortGraph>(ctx, "views-portgraph", "every graph on 3 nodes of shape (1,1)", holes(singles(&[(1, 1); 3], 9, true)), true);
    views::<MultiPortGraph>(ctx, "views-multi", "every multigraph on 3 nodes of shape (1,1)", holes(multis(&[(1, 1); 3], ctx.pick(3, 5), true)), true);
    if !ctx.quick() {
        views::<PortGraph>(ctx, "views-portgraph-4", "every graph on 4 nodes of shapes (1,1),(1,1),(1,2),(2,1)", singles(&[(1, 1), (1, 1), (1, 2), (2, 1)], 9, true), false);
    }
}
