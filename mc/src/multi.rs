//! MultiPortGraph in lockstep with an abstract multi-port graph.

use crate::engine::*;
use crate::pg::*;
use crate::viewcheck::*;
use crate::{ensure, ensure_eq};
use portgraph::multiportgraph::SubportIndex;
use portgraph::view::{LinkMut, LinkView, MultiMut, MultiView, PortMut, PortView};
use portgraph::{Direction, LinkError, MultiPortGraph, NodeIndex, PortGraph, PortIndex, PortOffset};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

pub type MG = MultiPortGraph<u32, u32, u16>;

#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct MModel {
    pub nodes: BTreeMap<usize, [Vec<usize>; 2]>,
    /// symmetric map of linked subports
    pub link: BTreeMap<Ep, Ep>,
}

impl MModel {
    pub fn owner(&self, p: usize) -> Option<(usize, Direction, usize)> {
        for (&n, ps) in &self.nodes {
            for d in DIRS {
                if let Some(o) = ps[d as usize].iter().position(|x| *x == p) {
                    return Some((n, d, o));
                }
            }
        }
        None
    }
    pub fn ports(&self) -> Vec<(usize, Direction)> {
        let mut v = Vec::new();
        for ps in self.nodes.values() {
            for d in DIRS {
                v.extend(ps[d as usize].iter().map(|p| (*p, d)));
            }
        }
        v
    }
    pub fn links_of(&self, p: usize) -> Vec<(Ep, Ep)> {
        self.link.range((p, 0)..(p + 1, 0)).map(|(a, b)| (*a, *b)).collect()
    }
    fn unlink_ep(&mut self, e: Ep) -> Option<Ep> {
        let q = self.link.remove(&e)?;
        self.link.remove(&q);
        Some(q)
    }
    fn unlink_all(&mut self, p: usize) {
        for (a, _) in self.links_of(p) {
            self.unlink_ep(a);
        }
    }
    fn rename_ports(&mut self, f: &BTreeMap<usize, usize>) {
        let r = |p: &usize| *f.get(p).unwrap_or(p);
        for ps in self.nodes.values_mut() {
            for v in ps.iter_mut() {
                for p in v.iter_mut() {
                    *p = r(p);
                }
            }
        }
        self.link = self.link.iter().map(|(a, b)| ((r(&a.0), a.1), (r(&b.0), b.1))).collect();
    }
    pub fn view(&self) -> RefView {
        let mut links = Vec::new();
        for ps in self.nodes.values() {
            for p in &ps[1] {
                links.extend(self.links_of(*p));
            }
        }
        links.sort();
        RefView { nodes: self.nodes.clone(), links, subports: None }
    }
}

#[derive(Clone, Debug)]
pub enum MOp {
    Add(usize, usize),
    Remove(usize),
    Link(usize, usize),
    LinkNodes(usize, usize, usize, usize),
    LinkSubs(Ep, Ep),
    Unlink(usize),
    UnlinkSub(Ep),
    SetPorts(usize, usize, usize),
    Swap(usize, usize),
    CompactNodes,
    CompactPorts,
    Clear,
    Shrink,
    Reserve(usize, usize),
    Refused,
    Convert,
}

#[derive(Clone, Debug)]
pub struct MCfg {
    pub shapes: Vec<(usize, usize)>,
    pub sizes: Vec<(usize, usize)>,
    pub max_nodes: usize,
    pub max_links: usize,
    pub max_port_slots: usize,
    pub judge: Judge,
    pub swap: bool,
    pub compact: bool,
    pub remove: bool,
    pub subs: bool,
    pub both_orders: bool,
    pub misc: bool,
    pub refused: bool,
    /// Large graphs: link, unlink and swap only representative items.
    pub thin: bool,
}
impl MCfg {
    pub fn new(shapes: &[(usize, usize)], sizes: &[(usize, usize)], max_nodes: usize, max_links: usize, judge: Judge) -> Self {
        MCfg { shapes: shapes.to_vec(), sizes: sizes.to_vec(), max_nodes, max_links, max_port_slots: 40, judge, swap: true, compact: true, remove: true, subs: true, both_orders: false, misc: false, refused: false, thin: false }
    }
    /// For `large` starting points: every kind of operation, on representative items.
    pub fn large(judge: Judge) -> Self {
        let mut c = Self::new(&[(0, 0), (1, 1), (3, 2)], &[(0, 0), (1, 1), (2, 3), (5, 4)], usize::MAX, usize::MAX, judge);
        c.max_port_slots = usize::MAX;
        c.thin = true;
        c
    }
}

#[derive(Clone)]
pub struct MSys {
    pub g: MG,
    pub m: MModel,
    pub cfg: Arc<MCfg>,
    broken: Option<String>,
}

fn ni(n: usize) -> NodeIndex {
    NodeIndex::new(n)
}
fn pi(p: usize) -> PortIndex {
    PortIndex::new(p)
}
pub fn sp(e: Ep) -> SubportIndex {
    SubportIndex::new_multi(pi(e.0), e.1)
}

impl MSys {
    pub fn new(cfg: Arc<MCfg>) -> Self {
        MSys { g: MG::new(), m: MModel::default(), cfg, broken: None }
    }
    pub fn after(cfg: &Arc<MCfg>, ops: &[MOp]) -> Self {
        let mut s = MSys::new(cfg.clone());
        for o in ops {
            if let Err(e) = guarded(|| s.apply(o)) {
                s.broken = Some(format!("preparing the initial state, at {o:?}: {e}"));
                return s;
            }
        }
        s
    }
    pub fn bytes(&self) -> Vec<u8> {
        rmp_serde::to_vec(&self.g).expect("serialize")
    }
    /// Observable state, as far as users can see.
    fn observe(&self) -> (Vec<(usize, Vec<usize>, Vec<usize>)>, Vec<(Ep, Ep)>, Vec<Ep>, usize, usize, usize) {
        let mut nodes = Vec::new();
        let mut links = Vec::new();
        let mut subs = Vec::new();
        for n in self.g.nodes_iter() {
            nodes.push((n.index(), self.g.inputs(n).map(|p| p.index()).collect(), self.g.outputs(n).map(|p| p.index()).collect()));
            links.extend(self.g.all_links(n).map(|(a, b)| (a.ep(), b.ep())));
            subs.extend(self.g.all_subports(n).map(|a| a.ep()));
        }
        (nodes, links, subs, self.g.node_count(), self.g.port_count(), self.g.link_count())
    }
    fn read_ports(&self, n: usize) -> [Vec<usize>; 2] {
        let f = |d| self.g.ports(ni(n), d).map(|p| p.index()).collect::<Vec<_>>();
        [f(Direction::Incoming), f(Direction::Outgoing)]
    }
    fn node_hi(&self) -> usize {
        self.g.as_portgraph().nodes_iter().map(|n| n.index() + 1).max().unwrap_or(0)
    }
    fn port_hi(&self) -> usize {
        self.g.as_portgraph().ports_iter().map(|n| n.index() + 1).max().unwrap_or(0)
    }
    fn free_subs(&self) -> Vec<(Ep, Direction)> {
        let mut v = Vec::new();
        for &n in self.m.nodes.keys() {
            for d in DIRS {
                for s in self.g.subports(ni(n), d) {
                    if !self.m.link.contains_key(&s.ep()) {
                        v.push((s.ep(), d));
                    }
                }
            }
        }
        v
    }
    fn add_link(&mut self, a: usize, b: usize, r: Result<(SubportIndex, SubportIndex), LinkError<u16>>, what: &str) -> Res {
        let (x, y) = match r {
            Ok(x) => x,
            Err(e) => return Err(format!("{what} failed: {e:?}")),
        };
        let (x, y) = (x.ep(), y.ep());
        ensure!(x.0 == a && y.0 == b, "{what} returned endpoints {x:?},{y:?} of other ports");
        for e in [x, y] {
            ensure!(!self.m.link.contains_key(&e), "{what} reused subport {e:?}, which was already linked");
        }
        self.m.link.insert(x, y);
        self.m.link.insert(y, x);
        Ok(())
    }

    fn refused(&mut self) -> Res {
        let before = self.observe();
        let before_bytes = self.bytes();
        let ports = self.m.ports();
        let hi = self.port_hi();
        let dead: Vec<usize> = (0..hi + 2).filter(|p| self.g.as_portgraph().port_node(pi(*p)).is_none()).collect();
        let all: Vec<(usize, Option<Direction>)> = ports.iter().map(|(p, d)| (*p, Some(*d))).chain(dead.iter().map(|p| (*p, None))).collect();
        for &(a, da) in &all {
            for &(b, db) in &all {
                if da.is_some() && db.is_some() && da != db || (a == b && da.is_none()) {
                    continue;
                }
                let what = format!("link_ports({a},{b})");
                let r = self.g.link_ports(pi(a), pi(b));
                let e = match r {
                    Ok(x) => return Err(format!("{what} returned Ok({x:?}) although it must be refused")),
                    Err(e) => e,
                };
                let mut allowed: Vec<LinkError<u16>> = Vec::new();
                if da.is_none() {
                    allowed.push(LinkError::UnknownPort { port: pi(a) });
                }
                if db.is_none() {
                    allowed.push(LinkError::UnknownPort { port: pi(b) });
                }
                if let (Some(x), Some(y)) = (da, db) {
                    if x == y {
                        allowed.push(LinkError::IncompatibleDirections { port_a: pi(a), port_b: pi(b), dir: x });
                    }
                }
                ensure!(allowed.contains(&e), "{what} failed with {e:?}, which does not describe what is wrong (expected one of {allowed:?})");
                let after = self.observe();
                ensure!(after == before, "{what} was refused but changed the graph: {before:?} became {after:?}");
            }
        }
        ensure!(self.bytes() == before_bytes, "refused links left something behind in the graph");
        // Subport links that must be refused.
        let mut subs: Vec<(Ep, Direction)> = Vec::new();
        for &n in self.m.nodes.keys() {
            for d in DIRS {
                subs.extend(self.g.subports(ni(n), d).map(|s| (s.ep(), d)));
            }
        }
        for &(a, da) in &subs {
            for &(b, db) in &subs {
                let (la, lb) = (self.m.link.contains_key(&a), self.m.link.contains_key(&b));
                if da != db && !la && !lb {
                    continue;
                }
                let what = format!("link_subports({a:?},{b:?})");
                let r = self.g.link_subports(sp(a), sp(b));
                ensure!(r.is_err(), "{what} succeeded although it must be refused");
                let e = r.unwrap_err();
                let mut ok = Vec::new();
                if da == db {
                    ok.push(LinkError::IncompatibleDirections { port_a: pi(a.0), port_b: pi(b.0), dir: da });
                }
                if la {
                    ok.push(LinkError::AlreadyLinked { port: pi(a.0) });
                }
                if lb {
                    ok.push(LinkError::AlreadyLinked { port: pi(b.0) });
                }
                ensure!(ok.contains(&e), "{what} failed with {e:?}, expected one of {ok:?}");
            }
        }
        // Subports that do not exist.
        for &(a, da) in &ports {
            let last = subs.iter().filter(|s| s.0 .0 == a).map(|s| s.0 .1).max().unwrap_or(0);
            let ghost = (a, last + 1);
            ensure_eq!(self.g.subport_link(sp(ghost)), None, "subport_link of the non-existent subport {ghost:?}");
            ensure_eq!(self.g.unlink_subport(sp(ghost)), None, "unlink_subport of the non-existent subport {ghost:?}");
            if let Some(other) = subs.iter().find(|s| s.1 != da && !self.m.link.contains_key(&s.0)) {
                let r = self.g.link_subports(sp(ghost), sp(other.0));
                ensure!(matches!(r, Err(LinkError::UnknownPort { port }) if port == pi(a)), "link_subports of the non-existent subport {ghost:?}: {r:?}");
                let r = self.g.link_subports(sp(other.0), sp(ghost));
                ensure!(matches!(r, Err(LinkError::UnknownPort { port }) if port == pi(a)), "link_subports onto the non-existent subport {ghost:?}: {r:?}");
            }
        }
        for &p in &dead {
            ensure_eq!(self.g.unlink_port(pi(p)), None, "unlink_port({p}) of an absent port");
            ensure_eq!(self.g.unlink_subport(sp((p, 0))), None, "unlink_subport({p}) of an absent port");
        }
        for &(p, _) in &ports {
            if self.m.links_of(p).is_empty() && subs.iter().filter(|s| s.0 .0 == p).count() == 1 {
                ensure_eq!(self.g.unlink_port(pi(p)), None, "unlink_port({p}) of an unlinked port");
            }
        }
        for &(s, _) in &subs {
            if !self.m.link.contains_key(&s) {
                ensure_eq!(self.g.unlink_subport(sp(s)), None, "unlink_subport({s:?}) of an unlinked subport");
            }
        }
        for n in 0..self.node_hi() + 2 {
            if self.g.as_portgraph().contains_node(ni(n)) {
                continue;
            }
            self.g.remove_node(ni(n));
            let mut calls = 0;
            self.g.set_num_ports(ni(n), 1, 1, |_, _| calls += 1);
            ensure_eq!(calls, 0, "callbacks of set_num_ports on absent node {n}");
        }
        let nodes: Vec<usize> = self.m.nodes.keys().copied().collect();
        for &n in &nodes {
            for &n2 in &nodes {
                let outs = self.m.nodes[&n][1].len();
                let ins = self.m.nodes[&n2][0].len();
                for (i, j) in [(outs, 0), (0, ins), (outs, ins)] {
                    if i < outs && j < ins {
                        continue;
                    }
                    let what = format!("link_nodes({n},{i},{n2},{j})");
                    let e = match self.g.link_nodes(ni(n), i, ni(n2), j) {
                        Ok(x) => return Err(format!("{what} returned Ok({x:?}) although an offset does not exist")),
                        Err(e) => e,
                    };
                    let mut ok = Vec::new();
                    if i >= outs {
                        ok.push(LinkError::UnknownOffset { node: ni(n), offset: PortOffset::new_outgoing(i) });
                    }
                    if j >= ins {
                        ok.push(LinkError::UnknownOffset { node: ni(n2), offset: PortOffset::new_incoming(j) });
                    }
                    ensure!(ok.contains(&e), "{what} failed with {e:?}, expected one of {ok:?}");
                }
            }
        }
        let after = self.observe();
        ensure!(after == before, "a refused or void request changed the graph: {before:?} became {after:?}");
        ensure!(self.bytes() == before_bytes, "a refused or void request left something behind in the graph");
        Ok(())
    }

    /// The flat graph underneath: contracting every hidden node into its main
    /// node gives the multigraph.
    fn check_flat(&self) -> Res {
        let pg = self.g.as_portgraph();
        let mut hidden = 0;
        let mut want: Vec<(usize, usize)> = Vec::new();
        for n in pg.nodes_iter() {
            let main = self.g.pg_main_node(n).index();
            if self.m.nodes.contains_key(&n.index()) {
                ensure_eq!(main, n.index(), "pg_main_node of a main node");
                for d in DIRS {
                    let ps: Vec<usize> = pg.ports(n, d).map(|p| p.index()).collect();
                    ensure_eq!(ps, self.m.nodes[&n.index()][d as usize], "ports of {n:?} in the flat graph");
                }
            } else {
                ensure!(self.m.nodes.contains_key(&main), "pg_main_node({n:?}) = {main}, which is not a node");
                hidden += 1;
                want.push((main, main));
            }
        }
        for (a, b) in self.m.view().links {
            want.push((self.m.owner(a.0).unwrap().0, self.m.owner(b.0).unwrap().0));
        }
        let mut got = Vec::new();
        for n in pg.nodes_iter() {
            for (a, b) in pg.output_links(n) {
                let f = |p| self.g.pg_main_node(pg.port_node(p).unwrap()).index();
                got.push((f(a), f(b)));
            }
        }
        ensure!(same_multiset(&got, &want), "contracting the {hidden} hidden nodes of the flat graph gives links {got:?}, expected {want:?}");
        Ok(())
    }

    pub fn ref_view(&self) -> Result<RefView, String> {
        let mut v = self.m.view();
        let mut subs: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
        for (&n, ps) in &self.m.nodes {
            for d in DIRS {
                let got: Vec<Ep> = self.g.subports(ni(n), d).map(|s| s.ep()).collect();
                let set: BTreeSet<Ep> = got.iter().copied().collect();
                ensure!(set.len() == got.len(), "subports({n},{d:?}) has duplicates: {got:?}");
                for e in &got {
                    ensure!(ps[d as usize].contains(&e.0), "subports({n},{d:?}) lists {e:?} of another port");
                    subs.entry(e.0).or_default().push(e.1);
                }
                for p in &ps[d as usize] {
                    ensure!(subs.contains_key(p), "subports({n},{d:?}) omits port {p}");
                    for (a, _) in self.m.links_of(*p) {
                        ensure!(set.contains(&a), "subports({n},{d:?}) omits the linked subport {a:?}");
                    }
                }
                let pos = |p: usize| ps[d as usize].iter().position(|x| *x == p);
                ensure!(got.windows(2).all(|w| pos(w[0].0) <= pos(w[1].0)), "subports({n},{d:?}) are not in port order: {got:?}");
            }
        }
        v.subports = Some(subs);
        Ok(v)
    }
}

impl Sys for MSys {
    type Op = MOp;

    fn ops(&self) -> Vec<MOp> {
        let c = &*self.cfg;
        let m = &self.m;
        let mut v = Vec::new();
        if self.broken.is_some() {
            return v;
        }
        let phi = self.port_hi();
        let room = phi <= c.max_port_slots;
        if m.nodes.len() < c.max_nodes && room {
            for &(i, o) in &c.shapes {
                v.push(MOp::Add(i, o));
            }
        }
        let ports = m.ports();
        let nlinks = m.link.len() / 2;
        if nlinks < c.max_links && room {
            let pick = |most: bool| -> Vec<(usize, Direction)> {
                let mut v = Vec::new();
                for ps in m.nodes.values() {
                    for d in DIRS {
                        let it = ps[d as usize].iter();
                        let n = |p: &&usize| m.links_of(**p).len();
                        v.extend(if most { it.max_by_key(n) } else { it.min_by_key(n) }.map(|p| (*p, d)));
                    }
                }
                v
            };
            // With `thin`, from the least linked to the most linked port of each node and direction.
            let (from, to) = if c.thin { (pick(false), pick(true)) } else { (ports.clone(), ports.clone()) };
            for &(a, da) in &from {
                for &(b, db) in &to {
                    if da == Direction::Outgoing && db == Direction::Incoming {
                        v.push(MOp::Link(a, b));
                        if c.both_orders {
                            v.push(MOp::Link(b, a));
                            let (na, _, oa) = m.owner(a).unwrap();
                            let (nb, _, ob) = m.owner(b).unwrap();
                            v.push(MOp::LinkNodes(na, oa, nb, ob));
                        }
                    }
                }
            }
            if c.subs {
                let mut fs = self.free_subs();
                if c.thin {
                    fs = fs.into_iter().step_by(3).take(12).collect();
                }
                for &(a, da) in &fs {
                    for &(b, db) in &fs {
                        if da != db && (da == Direction::Outgoing || c.both_orders) {
                            v.push(MOp::LinkSubs(a, b));
                        }
                    }
                }
            }
        }
        for &(p, _) in ports.iter().step_by(if c.thin { 3 } else { 1 }) {
            v.push(MOp::Unlink(p));
        }
        if c.subs {
            for a in m.link.keys().step_by(if c.thin { 3 } else { 1 }) {
                v.push(MOp::UnlinkSub(*a));
            }
        }
        if c.remove {
            for &n in m.nodes.keys() {
                v.push(MOp::Remove(n));
            }
        }
        for (&n, ps) in &m.nodes {
            for &(i, o) in &c.sizes {
                if (i, o) != (ps[0].len(), ps[1].len()) && room {
                    v.push(MOp::SetPorts(n, i, o));
                }
            }
        }
        if c.swap {
            let hi = self.node_hi();
            for a in 0..hi {
                for b in a + 1..hi {
                    if (m.nodes.contains_key(&a) || m.nodes.contains_key(&b)) && (!c.thin || [1, 2, hi / 2].contains(&(b - a)) || a == 0) {
                        v.push(MOp::Swap(a, b));
                    }
                }
            }
        }
        if c.compact {
            v.push(MOp::CompactNodes);
            v.push(MOp::CompactPorts);
        }
        if c.misc {
            v.push(MOp::Clear);
            v.push(MOp::Shrink);
            v.push(MOp::Reserve(3, 5));
            v.push(MOp::Convert);
        }
        if c.refused {
            v.push(MOp::Refused);
        }
        v
    }

    fn apply(&mut self, op: &MOp) -> Res {
        let j = self.cfg.judge;
        match *op {
            MOp::Add(i, o) => {
                let n = self.g.add_node(i, o).index();
                ensure!(!self.m.nodes.contains_key(&n), "add_node returned index {n} of a live node");
                let ps = self.read_ports(n);
                ensure_eq!((ps[0].len(), ps[1].len()), (i, o), "ports of the new node");
                for p in ps.iter().flatten() {
                    ensure!(self.m.owner(*p).is_none(), "new node {n} got port index {p}, which belongs to a live node");
                }
                self.m.nodes.insert(n, ps);
            }
            MOp::Remove(n) => {
                self.g.remove_node(ni(n));
                if let Some(ps) = self.m.nodes.remove(&n) {
                    for p in ps.iter().flatten() {
                        self.m.unlink_all(*p);
                    }
                }
            }
            MOp::Link(a, b) => {
                let r = self.g.link_ports(pi(a), pi(b));
                self.add_link(a, b, r, &format!("link_ports({a},{b})"))?;
            }
            MOp::LinkNodes(na, oa, nb, ob) => {
                let (a, b) = (self.m.nodes[&na][1][oa], self.m.nodes[&nb][0][ob]);
                let r = self.g.link_nodes(ni(na), oa, ni(nb), ob);
                self.add_link(a, b, r, "link_nodes")?;
            }
            MOp::LinkSubs(a, b) => {
                let r = self.g.link_subports(sp(a), sp(b));
                ensure_eq!(r, Ok(()), "link_subports({a:?},{b:?})");
                self.m.link.insert(a, b);
                self.m.link.insert(b, a);
            }
            MOp::Unlink(p) => {
                let ls = self.m.links_of(p);
                let r = self.g.unlink_port(pi(p)).map(|x| x.ep());
                match r {
                    None => ensure!(ls.is_empty(), "unlink_port({p}) returned None, but it was linked to {ls:?}"),
                    Some(x) => ensure!(ls.iter().any(|l| l.1 == x), "unlink_port({p}) returned {x:?}, but it was linked to {ls:?}"),
                }
                self.m.unlink_all(p);
            }
            MOp::UnlinkSub(e) => {
                let r = self.g.unlink_subport(sp(e)).map(|x| x.ep());
                let w = self.m.unlink_ep(e);
                ensure_eq!(r, w, "unlink_subport({e:?})");
            }
            MOp::SetPorts(n, i, o) => {
                let old = self.m.nodes[&n].clone();
                let live: BTreeSet<usize> = self.m.ports().iter().map(|x| x.0).collect();
                let mut partners: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
                for (a, b) in &self.m.link {
                    partners.entry(a.0).or_default().push(b.0);
                }
                let mut log = ResizeLog::new();
                self.g.set_num_ports(ni(n), i, o, |p, op| log.push(p, op));
                let new = self.read_ports(n);
                ensure_eq!((new[0].len(), new[1].len()), (i, o), "port counts after set_num_ports({n},{i},{o})");
                if j.rekey {
                    log.judge(&old, &new, &live, &partners)?;
                }
                let mut ren = BTreeMap::new();
                for d in 0..2 {
                    for (k, p) in old[d].iter().enumerate() {
                        match new[d].get(k) {
                            Some(q) => {
                                ren.insert(*p, *q);
                            }
                            None => self.m.unlink_all(*p),
                        }
                    }
                }
                for p in new.iter().flatten() {
                    if let Some((n2, _, _)) = self.m.owner(*p) {
                        ensure!(n2 == n, "after set_num_ports({n},{i},{o}) port {p} belongs to nodes {n} and {n2}");
                    }
                }
                let e = self.m.nodes.get_mut(&n).unwrap();
                e[0].truncate(i);
                e[1].truncate(o);
                self.m.rename_ports(&ren);
                self.m.nodes.insert(n, new);
            }
            MOp::Swap(a, b) => {
                self.g.swap_nodes(ni(a), ni(b));
                let x = self.m.nodes.remove(&a);
                let y = self.m.nodes.remove(&b);
                if let Some(x) = x {
                    self.m.nodes.insert(b, x);
                }
                if let Some(y) = y {
                    self.m.nodes.insert(a, y);
                }
            }
            MOp::CompactNodes => {
                let mut log = Vec::new();
                self.g.compact_nodes(|a, b| log.push((a.index(), b.index())));
                let live: Vec<usize> = self.m.nodes.keys().copied().collect();
                let map = follow("compact_nodes", &live, &log, j.rekey)?;
                self.m.nodes = self.m.nodes.iter().map(|(n, ps)| (map[n], ps.clone())).collect();
                ensure_eq!(self.m.nodes.len(), live.len(), "nodes merged by compact_nodes");
                if j.rekey {
                    let pg = self.g.as_portgraph();
                    ensure!(pg.nodes_iter().all(|n| n.index() < pg.node_count()), "compact_nodes leaves holes in the index space");
                }
            }
            MOp::CompactPorts => {
                let mut log = Vec::new();
                self.g.compact_ports(|a, b| log.push((a.index(), b.index())));
                let live: Vec<usize> = self.m.ports().iter().map(|x| x.0).collect();
                let map = follow("compact_ports", &live, &log, j.rekey)?;
                self.m.rename_ports(&map);
                if j.rekey {
                    let pg = self.g.as_portgraph();
                    ensure!(pg.ports_iter().all(|n| n.index() < pg.port_count()), "compact_ports leaves holes in the index space");
                }
            }
            MOp::Clear => {
                self.g.clear();
                self.m = MModel::default();
            }
            MOp::Shrink => {
                let b = self.observe();
                self.g.shrink_to_fit();
                ensure!(b == self.observe(), "shrink_to_fit changed the graph");
            }
            MOp::Reserve(n, p) => {
                let b = self.observe();
                let (nc, pc) = (self.g.node_count(), self.g.port_count());
                self.g.reserve(n, p);
                ensure!(self.g.node_capacity() >= nc + n, "node_capacity after reserve");
                ensure!(self.g.port_capacity() >= pc + p, "port_capacity after reserve");
                ensure!(b == self.observe(), "reserve changed the graph");
            }
            MOp::Convert => {
                // multi -> flat -> multi: the flat graph seen as a multigraph.
                let flat: PortGraph = self.g.clone().into();
                let back: MG = flat.clone().into();
                ensure_eq!(back.node_count(), flat.node_count(), "node_count of a converted graph");
                ensure_eq!(back.port_count(), flat.port_count(), "port_count of a converted graph");
                ensure_eq!(back.link_count(), flat.link_count(), "link_count of a converted graph");
                for n in flat.nodes_iter() {
                    ensure!(back.contains_node(n), "converted graph lacks {n:?}");
                    let a: Vec<(Ep, Ep)> = flat.all_links(n).map(|(a, b)| (a.ep(), b.ep())).collect();
                    let b: Vec<(Ep, Ep)> = back.all_links(n).map(|(a, b)| (a.ep(), b.ep())).collect();
                    ensure_eq!(b, a, "links of {n:?} in the converted graph");
                }
            }
            MOp::Refused => self.refused()?,
        }
        Ok(())
    }

    fn check(&self) -> Res {
        if let Some(b) = &self.broken {
            return Err(b.clone());
        }
        let v = self.ref_view()?;
        if self.cfg.judge.content {
            let o = Opts { strict_absent_ports: false, strict_absent_nodes: false, ..Opts::base(self.node_hi() + 1, self.port_hi() + 1) };
            check_view(&self.g, &v, &o)?;
            check_multi(&self.g, &v, &o)?;
            self.check_flat()?;
            ensure!(self.g == self.g.clone(), "a clone is not equal to its original");
        } else {
            quick_agree(&self.g, &v)?;
        }
        Ok(())
    }

    fn key(&self, out: &mut Vec<u8>) {
        rmp_serde::encode::write(out, &self.g).expect("serialize");
        key_model(out, &self.m);
    }
    fn outcome(&self) -> u64 {
        outcome_of(&self.m)
    }
}

/// Follow a sequence of reported moves; unreported items keep their index.
pub fn follow(what: &str, live: &[usize], log: &[(usize, usize)], strict: bool) -> Result<BTreeMap<usize, usize>, String> {
    let mut occ: BTreeMap<usize, usize> = live.iter().map(|n| (*n, *n)).collect();
    for (a, b) in log {
        // Moves of items that are not tracked (hidden ones) are fine.
        if let Some(o) = occ.remove(a) {
            if let Some(x) = occ.insert(*b, o) {
                return Err(format!("{what} reports {a} moving onto {b}, which still holds {x} ({log:?})"));
            }
        } else if strict && occ.contains_key(b) {
            return Err(format!("{what} reports {a} (not a live index) moving onto the live index {b} ({log:?})"));
        }
    }
    Ok(occ.into_iter().map(|(now, orig)| (orig, now)).collect())
}

pub fn starts(cfg: &Arc<MCfg>) -> Vec<(String, MSys)> {
    use MOp::*;
    let mut v = vec![("empty".to_string(), MSys::new(cfg.clone()))];
    let mut add = |n: &str, ops: &[MOp]| v.push((n.to_string(), MSys::after(cfg, ops)));
    // both ends multi
    add("double-link", &[Add(1, 1), Add(1, 1), Link(1, 2), Link(1, 2)]);
    // fan-out with holes left by removed nodes
    add("fan-out", &[Add(1, 1), Add(1, 1), Add(2, 0), Link(1, 2), Link(1, 4), Link(1, 4)]);
    v
}

/// Larger starting points: `n` nodes in several shapes and link patterns with up to 6 links on
/// a port, with and without freed indices.
pub fn large(cfg: &Arc<MCfg>, n: usize) -> Vec<(String, MSys)> {
    let mut v = Vec::new();
    for variant in 0..4 {
        for holes in [false, true] {
            let mut s = MSys::new(cfg.clone());
            let act = |s: &mut MSys, o: MOp| {
                if s.broken.is_none() {
                    if let Err(e) = guarded(|| s.apply(&o)) {
                        s.broken = Some(format!("preparing the initial state, at {o:?}: {e}"));
                    }
                }
            };
            let link = |s: &mut MSys, step: usize| {
                let ports = s.m.ports();
                let side = |d| ports.iter().filter(|x| x.1 == d).map(|x| x.0).collect::<Vec<_>>();
                let (outs, ins) = (side(Direction::Outgoing), side(Direction::Incoming));
                for (k, &o) in outs.iter().enumerate() {
                    for t in 0..[1, 2, 6, k % 4][variant] {
                        if !ins.is_empty() {
                            // parallel links, fan-out and fan-in
                            let i = ins[(k * step + if t % 2 == 0 { 0 } else { t }) % ins.len()];
                            act(s, if k % 2 == 0 { MOp::Link(o, i) } else { MOp::Link(i, o) });
                        }
                    }
                }
            };
            for k in 0..n {
                let (i, o) = match variant {
                    0 => (2, 2),
                    1 => (k % 4, (k + 2) % 4),
                    2 => (k % 2, (k + 1) % 2),
                    _ => ((k * k) % 3, (k * 2) % 3),
                };
                act(&mut s, MOp::Add(i, o));
                // hidden nodes between the visible ones
                if holes && k == n / 2 {
                    link(&mut s, 2);
                }
            }
            link(&mut s, 3);
            if holes {
                let nodes: Vec<usize> = s.m.nodes.keys().copied().collect();
                act(&mut s, MOp::SetPorts(nodes[1], 5, 4));
                act(&mut s, MOp::SetPorts(nodes[n - 2], 0, 1));
                for k in (2..n).step_by(4) {
                    act(&mut s, MOp::Remove(nodes[k]));
                }
            }
            v.push((format!("{n} nodes, pattern {variant}{}", if holes { ", with holes" } else { "" }), s));
        }
    }
    v
}

fn large_sections(ctx: &mut Ctx, j: Judge, f: impl Fn(&mut MCfg)) {
    let mut c = MCfg::large(j);
    f(&mut c);
    let c = Arc::new(c);
    let bound = "8 starting graphs of that many nodes (4 shape and link patterns with up to 6 links on a port, with and without freed indices); every kind of operation on representative ports and nodes";
    for (n, d) in [(4, ctx.pick(2, 3)), (7, 2), (if j.content { 16 } else { 40 }, 1)] {
        bfs(ctx, Bfs { name: format!("large-{n}"), depth: d, max_states: 40_000_000, bound: bound.into() }, large(&c, n));
    }
}

pub fn c07(ctx: &mut Ctx) {
    let j = Judge { content: true, ..Default::default() };
    let mut c = MCfg::new(&[(1, 1)], &[(0, 1), (1, 2)], 2, 3, j);
    c.both_orders = false;
    let c = Arc::new(c);
    bfs(ctx, Bfs { name: "two-nodes".into(), depth: ctx.pick(9, 10), max_states: 30_000_000, bound: "<=2 nodes of shape (1,1), <=3 links (parallel and self), resize to (0,1),(1,2), all link/unlink (port and subport level)/remove/swap/compact".into() }, vec![("empty".into(), MSys::new(c.clone()))]);
    let mut c = MCfg::new(&[(1, 1), (2, 0)], &[], 3, 4, j);
    c.swap = false;
    c.misc = true;
    c.both_orders = true;
    let c = Arc::new(c);
    bfs(ctx, Bfs { name: "fan".into(), depth: ctx.pick(6, 7), max_states: 30_000_000, bound: "<=3 nodes of shape (1,1),(2,0), <=4 links, all link forms, subport relinking, removal, compaction, clear, conversion; 3 start graphs".into() }, starts(&c));
    // The other constructors. Equal states are merged, so every one has a search of its own.
    let mut c = MCfg::new(&[(1, 1), (2, 0)], &[(1, 2)], 3, 3, j);
    c.misc = true;
    let c = Arc::new(c);
    let made: Vec<(&str, fn() -> MG)> = vec![
        ("default", MG::default),
        ("capacity-0-0", || MG::with_capacity(0, 0)),
        ("capacity-1-2", || MG::with_capacity(1, 2)),
        ("capacity-4-0", || MG::with_capacity(4, 0)),
        ("capacity-0-9", || MG::with_capacity(0, 9)),
        ("capacity-99-70", || MG::with_capacity(99, 70)),
        ("from-flat", || PortGraph::with_capacity(3, 5).into()),
    ];
    for (name, f) in made {
        let mut s = MSys::new(c.clone());
        s.g = f();
        bfs(ctx, Bfs { name: format!("made-{name}"), depth: ctx.pick(4, 5), max_states: 30_000_000, bound: "a multigraph from another constructor than new(); <=3 nodes, <=3 links, all histories".into() }, vec![(name.into(), s)]);
    }
    large_sections(ctx, j, |c| {
        c.misc = true;
        c.both_orders = true;
    });
}

pub fn c08(ctx: &mut Ctx) {
    let j = Judge { rekey: true, ..Default::default() };
    let mut c = MCfg::new(&[(1, 1), (2, 2)], &[(0, 0), (0, 1), (1, 0), (1, 2), (2, 1), (3, 3)], 2, 4, j);
    c.swap = false;
    let c = Arc::new(c);
    bfs(ctx, Bfs { name: "resize".into(), depth: ctx.pick(5, 6), max_states: 30_000_000, bound: "<=2 nodes of shape (1,1),(2,2), resize to 6 shapes, <=4 links".into() }, starts(&c));
    let mut c = MCfg::new(&[(1, 1)], &[(0, 1), (2, 1)], 3, 3, j);
    c.subs = false;
    let c = Arc::new(c);
    bfs(ctx, Bfs { name: "compact-swap".into(), depth: ctx.pick(5, 6), max_states: 30_000_000, bound: "<=3 nodes of shape (1,1), 2 resize targets, <=3 links, removal, compaction, swaps including hidden and free indices".into() }, starts(&c));
    large_sections(ctx, j, |_| ());
}

pub fn c03_multi(ctx: &mut Ctx) {
    let j = Judge { refused: true, ..Default::default() };
    let mut c = MCfg::new(&[(1, 1), (2, 0)], &[(0, 1)], 2, 3, j);
    c.refused = true;
    c.swap = false;
    let c = Arc::new(c);
    bfs(ctx, Bfs { name: "multiportgraph".into(), depth: ctx.pick(6, 7), max_states: 30_000_000, bound: "<=2 nodes of shape (1,1),(2,0), <=3 links; after every history every illegal or void request at port and subport level".into() }, starts(&c));
    let mut c = MCfg::large(j);
    c.refused = true;
    let c = Arc::new(c);
    bfs(ctx, Bfs { name: "multi-large-4".into(), depth: 1, max_states: 1_000_000, bound: "8 starting multigraphs of 4 nodes with up to 6 links on a port; one operation, then every illegal or void request".into() }, large(&c, 4));
}
