//! Reference model of a (multi)portgraph as seen through its query interface,
//! and the exhaustive comparison of an implementation of the query traits
//! with it.

use crate::engine::{same_multiset, Res};
use crate::{ensure, ensure_eq};
use portgraph::multiportgraph::SubportIndex;
use portgraph::view::{LinkView, MultiView};
use portgraph::{Direction, NodeIndex, PortIndex, PortOffset};
use std::collections::BTreeMap;
use std::fmt::Debug;

/// Link endpoint as (port index, subport offset).
pub type Ep = (usize, usize);

pub trait EpKey: Copy + Debug + PartialEq + Into<PortIndex> {
    fn ep(self) -> Ep;
}
impl EpKey for PortIndex {
    fn ep(self) -> Ep {
        (self.index(), 0)
    }
}
impl EpKey for SubportIndex {
    fn ep(self) -> Ep {
        (self.port().index(), self.offset())
    }
}

pub const DIRS: [Direction; 2] = [Direction::Incoming, Direction::Outgoing];

/// What a user should see: nodes with ordered ports, and links.
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct RefView {
    /// node -> (inputs, outputs)
    pub nodes: BTreeMap<usize, [Vec<usize>; 2]>,
    /// (output endpoint, input endpoint), sorted.
    pub links: Vec<(Ep, Ep)>,
    /// All subports of every port, for multigraphs: port -> ordered offsets.
    pub subports: Option<BTreeMap<usize, Vec<usize>>>,
}

impl RefView {
    pub fn port_owner(&self) -> BTreeMap<usize, (usize, Direction, usize)> {
        let mut m = BTreeMap::new();
        for (&n, ps) in &self.nodes {
            for d in DIRS {
                for (o, &p) in ps[d as usize].iter().enumerate() {
                    m.insert(p, (n, d, o));
                }
            }
        }
        m
    }
}

/// Walk an iterator to the end, checking its size hints at every step and its
/// `count`, `clone` and `nth` against the sequence it produces.
pub fn walk<T: Clone + PartialEq + Debug>(what: &str, it: impl Iterator<Item = T> + Clone) -> Result<Vec<T>, String> {
    let start = it.clone();
    let mut hints = Vec::new();
    let mut out = Vec::new();
    let mut it = it;
    let mut half = None;
    loop {
        hints.push(it.size_hint());
        if out.len() == 1 {
            half = Some(it.clone());
        }
        match it.next() {
            Some(x) => out.push(x),
            None => break,
        }
        ensure!(out.len() < 1_000_000, "{what}: iterator does not end");
    }
    for (i, (lo, hi)) in hints.iter().enumerate() {
        let left = out.len() - i;
        ensure!(*lo <= left && hi.map_or(true, |h| left <= h), "{what}: size_hint {:?} after {i} items, but {left} are left", (lo, hi));
    }
    ensure!(it.next().is_none(), "{what}: iterator yields again after its end");
    let c = start.clone().count();
    ensure!(c == out.len(), "{what}: count() is {c}, but {} items are produced", out.len());
    if let Some(h) = half {
        let rest: Vec<T> = h.collect();
        ensure!(rest[..] == out[1..], "{what}: a clone of the partly consumed iterator produces {rest:?} instead of {:?}", &out[1..]);
    }
    if out.len() >= 2 {
        let mut s = start.clone();
        let x = s.nth(1);
        ensure!(x.as_ref() == out.get(1), "{what}: nth(1) gives {x:?} instead of {:?}", out[1]);
        let r: Vec<T> = s.collect();
        ensure!(r[..] == out[2..], "{what}: after nth(1), got {r:?} instead of {:?}", &out[2..]);
    }
    Ok(out)
}

pub struct Opts {
    /// Port queries on ports outside the view must say "no such port".
    pub strict_absent_ports: bool,
    /// Node queries on nodes outside the view must be empty.
    pub strict_absent_nodes: bool,
    /// Largest node and port index to probe (inclusive).
    pub max_node: usize,
    pub max_port: usize,
    /// check is_empty == (no nodes)
    pub check_capacity: bool,
    pub check_link_count: bool,
}
impl Opts {
    pub fn base(max_node: usize, max_port: usize) -> Self {
        Opts { strict_absent_ports: true, strict_absent_nodes: true, max_node, max_port, check_capacity: true, check_link_count: true }
    }
}

fn flip(l: &(Ep, Ep)) -> (Ep, Ep) {
    (l.1, l.0)
}

/// Check that `g` answers every query as `m` says.
pub fn check_view<G>(g: &G, m: &RefView, o: &Opts) -> Result<u64, String>
where
    G: LinkView,
    G::LinkEndpoint: EpKey,
{
    let mut q = 0u64;
    let owner = m.port_owner();
    let nnodes = m.nodes.len();
    let nports = owner.len();

    // Global counts and iterators.
    ensure_eq!(g.node_count(), nnodes, "node_count");
    ensure_eq!(g.port_count(), nports, "port_count");
    if o.check_link_count {
        ensure_eq!(g.link_count(), m.links.len(), "link_count");
    }
    ensure_eq!(g.is_empty(), nnodes == 0, "is_empty");
    let mut ns: Vec<usize> = walk("nodes_iter", g.nodes_iter())?.iter().map(|n| n.index()).collect();
    ns.sort();
    ensure_eq!(ns, m.nodes.keys().copied().collect::<Vec<_>>(), "nodes_iter");
    let mut ps: Vec<usize> = walk("ports_iter", g.ports_iter())?.iter().map(|n| n.index()).collect();
    ps.sort();
    ensure_eq!(ps, owner.keys().copied().collect::<Vec<_>>(), "ports_iter");
    if o.check_capacity {
        ensure!(g.node_capacity() >= nnodes, "node_capacity {} below node_count {nnodes}", g.node_capacity());
        ensure!(g.port_capacity() >= nports, "port_capacity {} below port_count {nports}", g.port_capacity());
    }
    q += 6;

    // Links by endpoint.
    let mut by_port: BTreeMap<usize, Vec<(Ep, Ep)>> = BTreeMap::new();
    for l in &m.links {
        by_port.entry(l.0 .0).or_default().push(*l);
        by_port.entry(l.1 .0).or_default().push(flip(l));
    }
    let node_of = |p: usize| owner.get(&p).map(|x| x.0);

    for n in 0..=o.max_node {
        let ni = NodeIndex::new(n);
        let here = m.nodes.get(&n);
        ensure_eq!(g.contains_node(ni), here.is_some(), "contains_node({n})");
        if here.is_none() && !o.strict_absent_nodes {
            continue;
        }
        let empty = [vec![], vec![]];
        let mp = here.unwrap_or(&empty);
        let mut total: Vec<usize> = Vec::new();
        let mut alloff: Vec<PortOffset<G::PortOffsetBase>> = Vec::new();
        let mut all_links = Vec::new();
        let mut all_nb = Vec::new();
        for d in DIRS {
            let want = &mp[d as usize];
            let got: Vec<usize> = walk("ports", g.ports(ni, d))?.iter().map(|p| p.index()).collect();
            ensure_eq!(got, *want, "ports({n},{d:?})");
            let got2: Vec<usize> = match d {
                Direction::Incoming => g.inputs(ni).map(|p| p.index()).collect(),
                Direction::Outgoing => g.outputs(ni).map(|p| p.index()).collect(),
            };
            ensure_eq!(got2, *want, "inputs/outputs({n},{d:?})");
            ensure_eq!(g.num_ports(ni, d), want.len(), "num_ports({n},{d:?})");
            let nn = if d == Direction::Incoming { g.num_inputs(ni) } else { g.num_outputs(ni) };
            ensure_eq!(nn, want.len(), "num_inputs/num_outputs({n},{d:?})");
            let offs = walk("port_offsets", g.port_offsets(ni, d))?;
            ensure_eq!(offs.iter().map(|x| (x.direction(), x.index())).collect::<Vec<_>>(), (0..want.len()).map(|i| (d, i)).collect::<Vec<_>>(), "port_offsets({n},{d:?})");
            let offs2: Vec<PortOffset<G::PortOffsetBase>> = if d == Direction::Incoming { g.input_offsets(ni).collect() } else { g.output_offsets(ni).collect() };
            ensure_eq!(offs2, offs, "input_offsets/output_offsets({n},{d:?})");
            alloff.extend(&offs);
            for i in 0..want.len() + 2 {
                let w = want.get(i).copied();
                ensure_eq!(g.port_index(ni, PortOffset::new(d, i)).map(|p| p.index()), w, "port_index({n},{d:?},{i})");
                let x = if d == Direction::Incoming { g.input(ni, i) } else { g.output(ni, i) };
                ensure_eq!(x.map(|p| p.index()), w, "input/output({n},{d:?},{i})");
                q += 2;
            }
            total.extend(want);

            // links of this direction: grouped in port order
            let got: Vec<(Ep, Ep)> = walk("links", g.links(ni, d))?.iter().map(|(a, b)| (a.ep(), b.ep())).collect();
            let mut want_l: Vec<(Ep, Ep)> = Vec::new();
            for p in want {
                want_l.extend(by_port.get(p).into_iter().flatten().copied());
            }
            ensure!(same_multiset(&got, &want_l), "links({n},{d:?}): got {got:?}, expected {want_l:?}");
            let pos = |p: usize| want.iter().position(|x| *x == p);
            ensure!(got.windows(2).all(|w| pos(w[0].0 .0) <= pos(w[1].0 .0)), "links({n},{d:?}) are not in port order: {got:?}");
            let got2: Vec<(Ep, Ep)> = if d == Direction::Incoming { g.input_links(ni).map(|(a, b)| (a.ep(), b.ep())).collect() } else { g.output_links(ni).map(|(a, b)| (a.ep(), b.ep())).collect() };
            ensure_eq!(got2, got, "input_links/output_links({n},{d:?})");
            // neighbours, in link order
            let nb: Vec<usize> = walk("neighbours", g.neighbours(ni, d))?.iter().map(|p| p.index()).collect();
            let want_nb: Vec<usize> = got.iter().map(|l| node_of(l.1 .0).unwrap_or(usize::MAX)).collect();
            ensure!(same_multiset(&nb, &want_nb), "neighbours({n},{d:?}): got {nb:?}, expected {want_nb:?}");
            let nb2: Vec<usize> = if d == Direction::Incoming { g.input_neighbours(ni).map(|p| p.index()).collect() } else { g.output_neighbours(ni).map(|p| p.index()).collect() };
            ensure_eq!(nb2, nb, "input_neighbours/output_neighbours({n},{d:?})");
            for l in &want_l {
                // self-loops appear once
                let canon = if d == Direction::Outgoing { *l } else { flip(l) };
                let selfl = node_of(l.1 .0) == Some(n);
                if !(selfl && d == Direction::Outgoing) {
                    all_links.push(canon);
                    all_nb.push(node_of(l.1 .0).unwrap_or(usize::MAX));
                }
            }
            q += 8;
        }
        let got: Vec<usize> = walk("all_ports", g.all_ports(ni))?.iter().map(|p| p.index()).collect();
        ensure_eq!(got, total, "all_ports({n})");
        let got = walk("all_port_offsets", g.all_port_offsets(ni))?;
        ensure_eq!(got, alloff, "all_port_offsets({n})");
        let raw: Vec<(Ep, Ep)> = walk("all_links", g.all_links(ni))?.iter().map(|(a, b)| (a.ep(), b.ep())).collect();
        for (a, _) in &raw {
            ensure_eq!(node_of(a.0), Some(n), "all_links({n}): first endpoint's node");
        }
        let got: Vec<(Ep, Ep)> = raw.iter().map(|l| if owner[&l.0 .0].1 == Direction::Outgoing { *l } else { flip(l) }).collect();
        ensure!(same_multiset(&got, &all_links), "all_links({n}): got {got:?}, expected {all_links:?} (each link once)");
        let got: Vec<usize> = walk("all_neighbours", g.all_neighbours(ni))?.iter().map(|p| p.index()).collect();
        ensure!(same_multiset(&got, &all_nb), "all_neighbours({n}): got {got:?}, expected {all_nb:?}");
        if o.check_capacity && here.is_some() {
            ensure!(g.node_port_capacity(ni) >= total.len(), "node_port_capacity({n}) = {} below its {} ports", g.node_port_capacity(ni), total.len());
        }
        q += 5;
        // connections
        for t in 0..=o.max_node {
            if !m.nodes.contains_key(&t) && !o.strict_absent_nodes {
                continue;
            }
            let ti = NodeIndex::new(t);
            let raw = walk("get_connections", g.get_connections(ni, ti))?;
            let got: Vec<(Ep, Ep)> = raw.iter().map(|(a, b)| (a.ep(), b.ep())).collect();
            let want: Vec<(Ep, Ep)> = m.links.iter().filter(|l| node_of(l.0 .0) == Some(n) && node_of(l.1 .0) == Some(t)).copied().collect();
            ensure!(same_multiset(&got, &want), "get_connections({n},{t}): got {got:?}, expected {want:?}");
            let outs = &mp[1];
            let pos = |p: usize| outs.iter().position(|x| *x == p);
            ensure!(got.windows(2).all(|w| pos(w[0].0 .0) <= pos(w[1].0 .0)), "get_connections({n},{t}) not in port order: {got:?}");
            ensure_eq!(g.get_connection(ni, ti).map(|(a, b)| (a.ep(), b.ep())), got.first().copied(), "get_connection({n},{t})");
            ensure_eq!(g.connected(ni, ti), !want.is_empty(), "connected({n},{t})");
            q += 3;
        }
    }

    for p in 0..=o.max_port {
        let pi = PortIndex::new(p);
        match owner.get(&p) {
            Some(&(n, d, off)) => {
                ensure!(g.contains_port(pi), "contains_port({p}) is false for a live port");
                ensure_eq!(g.port_node(pi).map(|n| n.index()), Some(n), "port_node({p})");
                ensure_eq!(g.port_direction(pi), Some(d), "port_direction({p})");
                let po = g.port_offset(pi);
                ensure_eq!(po.map(|x| (x.direction(), x.index())), Some((d, off)), "port_offset({p})");
                let want = by_port.get(&p).cloned().unwrap_or_default();
                let raw = walk("port_links", g.port_links(pi))?;
                let got: Vec<(Ep, Ep)> = raw.iter().map(|(a, b)| (a.ep(), b.ep())).collect();
                ensure!(same_multiset(&got, &want), "port_links({p}): got {got:?}, expected {want:?}");
                let pl = g.port_link(pi).map(|x| x.ep());
                ensure!(match pl { None => want.is_empty(), Some(x) => want.iter().any(|l| l.1 == x) }, "port_link({p}) is {pl:?}, links are {want:?}");
                q += 6;
            }
            None => {
                ensure!(!g.contains_port(pi), "contains_port({p}) is true for a port that does not exist");
                if o.strict_absent_ports {
                    ensure_eq!(g.port_node(pi), None, "port_node({p}) of an absent port");
                    ensure_eq!(g.port_direction(pi), None, "port_direction({p}) of an absent port");
                    ensure_eq!(g.port_offset(pi), None, "port_offset({p}) of an absent port");
                }
                q += 1;
            }
        }
    }
    Ok(q)
}

/// The additional queries of multigraph views.
pub fn check_multi<G>(g: &G, m: &RefView, o: &Opts) -> Res
where
    G: MultiView,
    G::LinkEndpoint: EpKey,
{
    let subs = m.subports.as_ref();
    for n in 0..=o.max_node {
        let ni = NodeIndex::new(n);
        let empty = [vec![], vec![]];
        let mp = match m.nodes.get(&n) {
            Some(x) => x,
            None if o.strict_absent_nodes => &empty,
            None => continue,
        };
        let mut all = Vec::new();
        for d in DIRS {
            let raw = walk("subports", g.subports(ni, d))?;
            let got: Vec<Ep> = raw.iter().map(|x| x.ep()).collect();
            let mut want: Vec<Ep> = Vec::new();
            for p in &mp[d as usize] {
                match subs {
                    Some(s) => want.extend(s[p].iter().map(|k| (*p, *k))),
                    None => want.push((*p, 0)),
                }
            }
            ensure_eq!(got, want, "subports({n},{d:?})");
            let got2: Vec<Ep> = if d == Direction::Incoming { g.subport_inputs(ni).map(|x| x.ep()).collect() } else { g.subport_outputs(ni).map(|x| x.ep()).collect() };
            ensure_eq!(got2, got, "subport_inputs/outputs({n},{d:?})");
            all.extend(want);
            for s in raw {
                let e = s.ep();
                let want: Option<Ep> = m.links.iter().find_map(|l| if l.0 == e { Some(l.1) } else if l.1 == e { Some(l.0) } else { None });
                ensure_eq!(g.subport_link(s).map(|x| x.ep()), want, "subport_link({s:?})");
            }
        }
        let got: Vec<Ep> = walk("all_subports", g.all_subports(ni))?.iter().map(|x| x.ep()).collect();
        ensure_eq!(got, all, "all_subports({n})");
    }
    Ok(())
}
