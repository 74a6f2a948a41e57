//! Enumeration of small graphs, and building them on the real code.

use crate::viewcheck::*;
use crate::{ensure, ensure_eq};
use portgraph::view::{FilteredGraph, FlatRegion, LinkFilter, LinkMut, LinkView, MultiView, NodeFilter, PortMut, PortView, Region, Subgraph};
use portgraph::{Hierarchy, MultiPortGraph, NodeIndex, PortGraph, PortIndex, PortOffset};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;

pub type Shapes = Vec<(usize, usize)>;

/// A graph to build: node shapes and links between the k-th output and the
/// k-th input slot, counted over all nodes.
#[derive(Clone, Debug, PartialEq)]
pub struct Spec {
    pub shapes: Shapes,
    pub links: Vec<(usize, usize)>,
    /// Leave unused node and port indices between the nodes.
    pub holes: bool,
}

impl Spec {
    pub fn out_slots(shapes: &Shapes) -> Vec<(usize, usize)> {
        shapes.iter().enumerate().flat_map(|(n, s)| (0..s.1).map(move |o| (n, o))).collect()
    }
    pub fn in_slots(shapes: &Shapes) -> Vec<(usize, usize)> {
        shapes.iter().enumerate().flat_map(|(n, s)| (0..s.0).map(move |o| (n, o))).collect()
    }
    /// Links as (from node, output offset, to node, input offset).
    pub fn ends(&self) -> Vec<(usize, usize, usize, usize)> {
        let (o, i) = (Self::out_slots(&self.shapes), Self::in_slots(&self.shapes));
        self.links.iter().map(|(a, b)| (o[*a].0, o[*a].1, i[*b].0, i[*b].1)).collect()
    }
    /// Is the node-level graph acyclic?
    pub fn acyclic(&self) -> bool {
        let n = self.shapes.len();
        let e: Vec<(usize, usize)> = self.ends().iter().map(|x| (x.0, x.2)).collect();
        let r = reach(n, &e);
        (0..n).all(|v| !e.iter().any(|x| x.0 == v && r[x.1][v]))
    }
}

/// Reflexive-transitive reachability.
pub fn reach(n: usize, e: &[(usize, usize)]) -> Vec<Vec<bool>> {
    let mut r = vec![vec![false; n]; n];
    for (i, row) in r.iter_mut().enumerate() {
        row[i] = true;
    }
    for (a, b) in e {
        r[*a][*b] = true;
    }
    for k in 0..n {
        for i in 0..n {
            if r[i][k] {
                for j in 0..n {
                    if r[k][j] {
                        r[i][j] = true;
                    }
                }
            }
        }
    }
    r
}

/// All partial one-to-one matchings of `o` outputs with `i` inputs, up to `max` links.
pub fn matchings(o: usize, i: usize, max: usize) -> Vec<Vec<(usize, usize)>> {
    fn go(k: usize, o: usize, used: &mut Vec<bool>, cur: &mut Vec<(usize, usize)>, max: usize, out: &mut Vec<Vec<(usize, usize)>>) {
        if k == o {
            out.push(cur.clone());
            return;
        }
        go(k + 1, o, used, cur, max, out);
        if cur.len() < max {
            for j in 0..used.len() {
                if !used[j] {
                    used[j] = true;
                    cur.push((k, j));
                    go(k + 1, o, used, cur, max, out);
                    cur.pop();
                    used[j] = false;
                }
            }
        }
    }
    let mut out = vec![];
    go(0, o, &mut vec![false; i], &mut vec![], max, &mut out);
    out
}

/// All multisets of up to `max` (output, input) pairs.
pub fn multisets(o: usize, i: usize, max: usize) -> Vec<Vec<(usize, usize)>> {
    let pairs: Vec<(usize, usize)> = (0..o).flat_map(|a| (0..i).map(move |b| (a, b))).collect();
    let mut out = vec![vec![]];
    fn go(from: usize, pairs: &[(usize, usize)], cur: &mut Vec<(usize, usize)>, max: usize, out: &mut Vec<Vec<(usize, usize)>>) {
        if cur.len() == max {
            return;
        }
        for k in from..pairs.len() {
            cur.push(pairs[k]);
            out.push(cur.clone());
            go(k, pairs, cur, max, out);
            cur.pop();
        }
    }
    go(0, &pairs, &mut vec![], max, &mut out);
    out
}

pub fn count(shapes: &Shapes) -> (usize, usize) {
    (shapes.iter().map(|s| s.1).sum(), shapes.iter().map(|s| s.0).sum())
}

/// All single-link graphs over these shapes.
pub fn singles(shapes: &[(usize, usize)], max: usize, holes: bool) -> Vec<Spec> {
    let shapes = shapes.to_vec();
    let (o, i) = count(&shapes);
    matchings(o, i, max).into_iter().map(|links| Spec { shapes: shapes.clone(), links, holes }).collect()
}
/// All multigraphs over these shapes.
pub fn multis(shapes: &[(usize, usize)], max: usize, holes: bool) -> Vec<Spec> {
    let shapes = shapes.to_vec();
    let (o, i) = count(&shapes);
    multisets(o, i, max).into_iter().map(|links| Spec { shapes: shapes.clone(), links, holes }).collect()
}

/// Filter context: bit sets of accepted nodes and ports.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Mask {
    pub nodes: Bits,
    pub ports: Bits,
}
/// A set of indices below 1024.
#[derive(Clone, Copy, PartialEq)]
pub struct Bits([u64; 16]);
impl Bits {
    pub const ALL: Bits = Bits([!0; 16]);
    pub const NONE: Bits = Bits([0; 16]);
    pub fn set(&mut self, k: usize, v: bool) {
        let (w, b) = (&mut self.0[k / 64], 1u64 << (k % 64));
        *w = if v { *w | b } else { *w & !b };
    }
    pub fn of(it: impl IntoIterator<Item = usize>) -> Bits {
        let mut b = Bits::NONE;
        it.into_iter().for_each(|k| b.set(k, true));
        b
    }
    pub fn without(mut self, k: usize) -> Bits {
        self.set(k, false);
        self
    }
}
impl std::ops::Shr<usize> for Bits {
    type Output = u64;
    /// The word starting at this bit.
    fn shr(self, k: usize) -> u64 {
        self.0[k / 64] >> (k % 64)
    }
}
impl std::ops::Shr<&usize> for Bits {
    type Output = u64;
    fn shr(self, k: &usize) -> u64 {
        self >> *k
    }
}
impl Debug for Bits {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let zeros: Vec<usize> = (0..1024).filter(|k| *self >> k & 1 == 0).collect();
        if zeros.len() < 500 {
            write!(f, "all but {zeros:?}")
        } else {
            write!(f, "{:?}", (0..1024).filter(|k| *self >> k & 1 == 1).collect::<Vec<_>>())
        }
    }
}
pub type Filt<G> = FilteredGraph<G, NodeFilter<Mask>, LinkFilter<Mask>, Mask>;
pub fn filt<G: Clone>(g: G, m: Mask) -> Filt<G> {
    FilteredGraph::new(g, |n, c: &Mask| c.nodes >> n.index() & 1 == 1, |p, c: &Mask| c.ports >> p.index() & 1 == 1, m)
}

macro_rules! checked_views {
    ($($name:ident: $t:ty),* $(,)?) => {
        /// A graph type to test, with the views over it.
        pub trait TG: LinkMut<PortOffsetBase = u16, LinkEndpoint: EpKey> + Clone + Default + Send + Sync + Debug + PartialEq + serde::Serialize {
            const MULTI: bool;
            fn subports_of(&self, _n: NodeIndex) -> Option<Vec<Ep>> {
                None
            }
            $(fn $name(g: &$t, m: &RefView, o: &Opts) -> Result<u64, String>;)*
        }
        impl TG for PortGraph {
            const MULTI: bool = false;
            $(fn $name(g: &$t, m: &RefView, o: &Opts) -> Result<u64, String> {
                check_view(g, m, o)
            })*
        }
        impl TG for MultiPortGraph {
            const MULTI: bool = true;
            fn subports_of(&self, n: NodeIndex) -> Option<Vec<Ep>> {
                Some(self.all_subports(n).map(|x| x.ep()).collect())
            }
            $(fn $name(g: &$t, m: &RefView, o: &Opts) -> Result<u64, String> {
                check_multi(g, m, o)?;
                check_view(g, m, o)
            })*
        }
    };
}
checked_views! {
    check_self: Self,
    check_ref: &Self,
    check_ref_ref: &&Self,
    check_mut: &mut Self,
    check_region: Region<'_, &Self>,
    check_flat: FlatRegion<'_, &Self>,
    check_sub: Subgraph<&Self>,
    check_sub_mut: Subgraph<&mut Self>,
    check_filt: Filt<&Self>,
    check_filt_filt: Filt<Filt<&Self>>,
    check_filt_region: Filt<Region<'_, &Self>>,
    check_filt_flat: Filt<FlatRegion<'_, &Self>>,
    check_filt_sub: Filt<Subgraph<&Self>>,
    check_region_owned: Region<'_, Self>,
    check_region_ref: &Region<'_, &Self>,
    check_region_mut: &mut Region<'_, &Self>,
    check_flat_ref: &FlatRegion<'_, &Self>,
    check_sub_ref: &Subgraph<&Self>,
    check_filt_ref: &Filt<&Self>,
}

#[derive(Clone, Debug)]
pub struct Built<G> {
    pub g: G,
    /// Index of the k-th node of the spec.
    pub nodes: Vec<usize>,
    pub view: RefView,
}

pub fn ni(n: usize) -> NodeIndex {
    NodeIndex::new(n)
}
pub fn pi(p: usize) -> PortIndex {
    PortIndex::new(p)
}

impl<G: TG> Built<G> {
    pub fn k(&self, n: NodeIndex) -> usize {
        self.nodes.iter().position(|x| *x == n.index()).expect("node of the spec")
    }
    pub fn hi(&self) -> (usize, usize) {
        let n = self.view.nodes.keys().max().copied().unwrap_or(0) + 2;
        let p = self.view.port_owner().keys().max().copied().unwrap_or(0) + 3;
        (n, p)
    }
    pub fn opts(&self) -> Opts {
        let (n, p) = self.hi();
        Opts { strict_absent_ports: !G::MULTI, strict_absent_nodes: !G::MULTI, ..Opts::base(n, p) }
    }
    /// Options for views that are only specified inside.
    pub fn inner_opts(&self) -> Opts {
        Opts { strict_absent_ports: false, strict_absent_nodes: false, ..self.opts() }
    }
}

pub fn build<G: TG>(s: &Spec) -> Result<Built<G>, String> {
    let mut g = G::default();
    let mut nodes = vec![];
    let mut junk = vec![];
    for sh in &s.shapes {
        if s.holes {
            junk.push(g.add_node(1, 1));
        }
        nodes.push(g.add_node(sh.0, sh.1).index());
    }
    let mut view = RefView::default();
    for (k, sh) in s.shapes.iter().enumerate() {
        let mut ps = [vec![], vec![]];
        for d in DIRS {
            let c = if d as usize == 0 { sh.0 } else { sh.1 };
            for o in 0..c {
                ps[d as usize].push(g.port_index(ni(nodes[k]), PortOffset::new(d, o)).ok_or("port is missing")?.index());
            }
        }
        view.nodes.insert(nodes[k], ps);
    }
    for j in junk {
        g.remove_node(j);
    }
    for (a, x, b, y) in s.ends() {
        let r = g.link_nodes(ni(nodes[a]), x, ni(nodes[b]), y).map_err(|e| format!("building {s:?}: {e:?}"))?;
        view.links.push((r.0.ep(), r.1.ep()));
    }
    view.links.sort();
    if G::MULTI {
        let mut subs: BTreeMap<usize, Vec<usize>> = view.port_owner().keys().map(|p| (*p, vec![])).collect();
        for n in &nodes {
            for (p, k) in g.subports_of(ni(*n)).unwrap() {
                subs.get_mut(&p).ok_or(format!("subport of unknown port {p}"))?.push(k);
            }
        }
        view.subports = Some(subs);
    }
    Ok(Built { g, nodes, view })
}

/// The part of a view with these nodes and links.
pub fn restrict(v: &RefView, node: impl Fn(usize) -> bool, link: impl Fn(&(Ep, Ep)) -> bool) -> RefView {
    let owner = v.port_owner();
    let nodes: BTreeMap<_, _> = v.nodes.iter().filter(|(n, _)| node(**n)).map(|(n, p)| (*n, p.clone())).collect();
    let kept: BTreeSet<usize> = owner.iter().filter(|(_, o)| nodes.contains_key(&o.0)).map(|(p, _)| *p).collect();
    RefView {
        nodes,
        links: v.links.iter().filter(|l| kept.contains(&l.0 .0) && kept.contains(&l.1 .0) && link(l)).copied().collect(),
        subports: v.subports.as_ref().map(|s| s.iter().filter(|(p, _)| kept.contains(p)).map(|(p, k)| (*p, k.clone())).collect()),
    }
}

/// No link query may answer with anything outside the view, also when asked
/// about nodes outside.
pub fn check_links_inside<G>(g: &G, inside: &RefView, all: &RefView) -> Result<(), String>
where
    G: LinkView,
    G::LinkEndpoint: EpKey,
{
    for (&n, ps) in &all.nodes {
        if inside.nodes.contains_key(&n) {
            for t in all.nodes.keys().filter(|t| !inside.nodes.contains_key(t)) {
                ensure!(g.get_connections(ni(n), ni(*t)).next().is_none(), "get_connections({n},{t}) finds a link to a node outside");
                ensure!(!g.connected(ni(n), ni(*t)), "connected({n},{t}) to a node outside");
            }
            continue;
        }
        for d in DIRS {
            ensure_eq!(g.links(ni(n), d).count(), 0, "number of links({n},{d:?}) of a node outside");
            for p in &ps[d as usize] {
                ensure!(!g.contains_port(pi(*p)), "contains_port({p}) for a port of a node outside");
                ensure_eq!(g.port_links(pi(*p)).count(), 0, "number of port_links({p}) of a node outside");
            }
        }
        ensure_eq!(g.all_links(ni(n)).count(), 0, "number of all_links({n}) of a node outside");
        for t in all.nodes.keys() {
            ensure!(g.get_connections(ni(n), ni(*t)).next().is_none(), "get_connections({n},{t}) from a node outside");
        }
    }
    Ok(())
}

/// All labelled rooted forests on n nodes, as parent lists.
pub fn forests(n: usize) -> Vec<Vec<Option<usize>>> {
    let mut out = vec![];
    let total = (n as u64 + 1).pow(n as u32);
    'f: for mut c in 0..total {
        let mut p = vec![None; n];
        for x in p.iter_mut() {
            let v = (c % (n as u64 + 1)) as usize;
            c /= n as u64 + 1;
            *x = if v == n { None } else { Some(v) };
        }
        for s in 0..n {
            let mut x = s;
            let mut k = 0;
            while let Some(y) = p[x] {
                x = y;
                k += 1;
                if k > n {
                    continue 'f;
                }
            }
        }
        out.push(p);
    }
    out
}

/// A hierarchy with the given parents; children in ascending (or descending) order.
pub fn hierarchy(parents: &[Option<usize>], nodes: &[usize], descending: bool) -> Hierarchy {
    let mut h = Hierarchy::new();
    let order: Vec<usize> = if descending { (0..parents.len()).rev().collect() } else { (0..parents.len()).collect() };
    for k in order {
        if let Some(p) = parents[k] {
            h.push_child(ni(nodes[k]), ni(nodes[p])).expect("attach");
        }
    }
    h
}

pub fn below(parents: &[Option<usize>], mut n: usize, root: usize) -> bool {
    loop {
        if n == root {
            return true;
        }
        match parents[n] {
            None => return false,
            Some(p) => n = p,
        }
    }
}
