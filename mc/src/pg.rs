//! PortGraph in lockstep with an abstract port graph.

use crate::engine::*;
use crate::viewcheck::*;
use crate::{ensure, ensure_eq};
use portgraph::portgraph::PortOperation;
use portgraph::view::{LinkMut, LinkView, PortMut, PortView};
use portgraph::{Direction, LinkError, NodeIndex, PortGraph, PortIndex, PortOffset};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct PModel {
    pub nodes: BTreeMap<usize, [Vec<usize>; 2]>,
    /// symmetric
    pub link: BTreeMap<usize, usize>,
    /// High-water marks of the index spaces (reset by compaction / clear).
    pub node_hi: usize,
    pub port_hi: usize,
    /// Sizes of the freed port blocks, sorted.
    pub free: Vec<usize>,
}

impl PModel {
    pub fn owner(&self, p: usize) -> Option<(usize, Direction, usize)> {
        for (&n, ps) in &self.nodes {
            for d in DIRS {
                if let Some(o) = ps[d as usize].iter().position(|x| *x == p) {
                    return Some((n, d, o));
                }
            }
        }
        None
    }
    pub fn ports(&self) -> Vec<(usize, Direction)> {
        let mut v = Vec::new();
        for ps in self.nodes.values() {
            for d in DIRS {
                v.extend(ps[d as usize].iter().map(|p| (*p, d)));
            }
        }
        v
    }
    pub fn view(&self) -> RefView {
        let mut links = Vec::new();
        for ps in self.nodes.values() {
            for p in &ps[1] {
                if let Some(q) = self.link.get(p) {
                    links.push(((*p, 0), (*q, 0)));
                }
            }
        }
        links.sort();
        RefView { nodes: self.nodes.clone(), links, subports: None }
    }
    fn unlink(&mut self, p: usize) -> Option<usize> {
        let q = self.link.remove(&p)?;
        self.link.remove(&q);
        Some(q)
    }
    fn add_free(&mut self, size: usize) {
        if size > 0 {
            self.free.push(size);
            self.free.sort();
        }
    }
    fn take_free(&mut self, size: usize) {
        if let Some(k) = self.free.iter().position(|x| *x == size) {
            self.free.remove(k);
        }
    }
    fn rename_ports(&mut self, f: &BTreeMap<usize, usize>) {
        for ps in self.nodes.values_mut() {
            for v in ps.iter_mut() {
                for p in v.iter_mut() {
                    if let Some(q) = f.get(p) {
                        *p = *q;
                    }
                }
            }
        }
        self.link = self.link.iter().map(|(a, b)| (*f.get(a).unwrap_or(a), *f.get(b).unwrap_or(b))).collect();
    }
}

#[derive(Clone, Debug)]
pub enum POp {
    Add(usize, usize),
    Remove(usize),
    Link(usize, usize),
    LinkNodes(usize, usize, usize, usize),
    Unlink(usize),
    SetPorts(usize, usize, usize),
    Swap(usize, usize),
    CompactNodes,
    CompactPorts,
    Clear,
    Reserve(usize, usize),
    Shrink,
    /// Try every call that must be refused / must do nothing.
    Refused,
}

/// Which aspects are judged.
#[derive(Clone, Copy, Debug, Default)]
pub struct Judge {
    pub content: bool,
    pub rekey: bool,
    pub refused: bool,
    pub recycle: bool,
}

#[derive(Clone, Debug)]
pub struct PCfg {
    pub shapes: Vec<(usize, usize)>,
    pub sizes: Vec<(usize, usize)>,
    pub max_nodes: usize,
    pub max_node_slots: usize,
    pub max_port_slots: usize,
    pub judge: Judge,
    pub swap: bool,
    pub compact: bool,
    pub links: bool,
    pub unlink: bool,
    pub remove: bool,
    pub reserve: bool,
    pub clear: bool,
    pub refused: bool,
    pub both_orders: bool,
    /// Large graphs: link, unlink and swap only representative items.
    pub thin: bool,
}

impl PCfg {
    pub fn new(shapes: &[(usize, usize)], sizes: &[(usize, usize)], max_nodes: usize, judge: Judge) -> Self {
        PCfg {
            shapes: shapes.to_vec(),
            sizes: sizes.to_vec(),
            max_nodes,
            max_node_slots: max_nodes + 1,
            max_port_slots: 14,
            judge,
            swap: true,
            compact: true,
            links: true,
            unlink: true,
            remove: true,
            reserve: false,
            clear: false,
            refused: false,
            both_orders: false,
            thin: false,
        }
    }
    /// For `large` starting points: every kind of operation, on representative items.
    pub fn large(judge: Judge) -> Self {
        let mut c = Self::new(&[(0, 0), (1, 1), (3, 2), (2, 0), (5, 4)], &[(0, 0), (1, 1), (2, 3), (5, 4), (9, 0)], 1, judge);
        c.max_nodes = usize::MAX;
        c.max_node_slots = usize::MAX - 1;
        c.max_port_slots = 100_000;
        c.thin = true;
        c
    }
}

#[derive(Clone)]
pub struct PSys {
    pub g: PortGraph,
    pub m: PModel,
    pub cfg: std::sync::Arc<PCfg>,
}

impl PSys {
    pub fn new(cfg: std::sync::Arc<PCfg>) -> Self {
        PSys { g: PortGraph::new(), m: PModel::default(), cfg }
    }
    pub fn state_bytes(&self) -> Vec<u8> {
        rmp_serde::to_vec(&self.g).expect("serialize")
    }
    /// Start from a history.
    pub fn after(cfg: &std::sync::Arc<PCfg>, ops: &[POp]) -> Self {
        let mut s = PSys::new(cfg.clone());
        for o in ops {
            guarded(|| s.apply(o)).unwrap_or_else(|e| {
                // A failure here is a failure of the code under test: let the
                // initial-state check of the search report it.
                s.m.node_hi = usize::MAX;
                eprintln!("preparing an initial state failed at {o:?}: {e}");
            });
        }
        s
    }
    fn ni(n: usize) -> NodeIndex {
        NodeIndex::new(n)
    }
    fn pi(p: usize) -> PortIndex {
        PortIndex::new(p)
    }
    fn read_ports(&self, n: usize) -> [Vec<usize>; 2] {
        let f = |d| self.g.ports(Self::ni(n), d).map(|p| p.index()).collect::<Vec<_>>();
        [f(Direction::Incoming), f(Direction::Outgoing)]
    }

    fn bump_hi(&mut self) {
        if let Some(n) = self.m.nodes.keys().next_back() {
            self.m.node_hi = self.m.node_hi.max(n + 1);
        }
        // Resized nodes may own a larger slab than their ports need.
        for (&n, ps) in &self.m.nodes {
            if let Some(&p) = ps.iter().flatten().min() {
                let cap = self.g.node_port_capacity(Self::ni(n)).max(ps[0].len() + ps[1].len());
                self.m.port_hi = self.m.port_hi.max(p + cap);
            }
        }
    }

    /// All refused or no-effect calls: each must fail as documented and leave
    /// the graph untouched.
    fn refused(&mut self) -> Res {
        let before = self.state_bytes();
        let ports = self.m.ports();
        let hi = ports.iter().map(|x| x.0).max().map_or(0, |x| x + 1).max(self.m.port_hi);
        let dead: Vec<usize> = (0..hi + 2).filter(|p| self.m.owner(*p).is_none()).collect();
        let judge = self.cfg.judge.refused;
        let unchanged = |s: &Self, what: &str| -> Res {
            ensure!(s.state_bytes() == before, "{what} was refused but changed the graph");
            Ok(())
        };
        let all: Vec<(usize, Option<Direction>)> = ports.iter().map(|(p, d)| (*p, Some(*d))).chain(dead.iter().map(|p| (*p, None))).collect();
        for &(a, da) in &all {
            for &(b, db) in &all {
                if a == b && da.is_none() {
                    continue;
                }
                let la = self.m.link.contains_key(&a);
                let lb = self.m.link.contains_key(&b);
                let legal = da.is_some() && db.is_some() && da != db && !la && !lb;
                if legal {
                    continue;
                }
                let r = self.g.link_ports(Self::pi(a), Self::pi(b));
                if judge {
                    let what = format!("link_ports({a},{b})");
                    let e = match r {
                        Ok(x) => return Err(format!("{what} returned Ok({x:?}) although it must be refused")),
                        Err(e) => e,
                    };
                    let mut allowed: Vec<LinkError<u16>> = Vec::new();
                    if da.is_none() {
                        allowed.push(LinkError::UnknownPort { port: Self::pi(a) });
                    }
                    if db.is_none() {
                        allowed.push(LinkError::UnknownPort { port: Self::pi(b) });
                    }
                    if let (Some(x), Some(y)) = (da, db) {
                        if x == y {
                            allowed.push(LinkError::IncompatibleDirections { port_a: Self::pi(a), port_b: Self::pi(b), dir: x });
                        }
                        if la {
                            allowed.push(LinkError::AlreadyLinked { port: Self::pi(a) });
                        }
                        if lb {
                            allowed.push(LinkError::AlreadyLinked { port: Self::pi(b) });
                        }
                    }
                    ensure!(allowed.contains(&e), "{what} failed with {e:?}, which does not describe what is wrong (expected one of {allowed:?})");
                    unchanged(self, &what)?;
                }
            }
        }
        // Offsets that do not exist.
        let nodes: Vec<usize> = (0..self.m.node_hi + 2).collect();
        for &n in &nodes {
            for &n2 in &nodes {
                let outs = self.m.nodes.get(&n).map_or(0, |x| x[1].len());
                let ins = self.m.nodes.get(&n2).map_or(0, |x| x[0].len());
                for i in [0, outs, outs + 1] {
                    for j in [0, ins, ins + 1] {
                        if i < outs && j < ins {
                            continue;
                        }
                        let r = self.g.link_nodes(Self::ni(n), i, Self::ni(n2), j);
                        if judge {
                            let what = format!("link_nodes({n},{i},{n2},{j})");
                            let e = match r {
                                Ok(x) => return Err(format!("{what} returned Ok({x:?}) although an offset does not exist")),
                                Err(e) => e,
                            };
                            let mut ok = Vec::new();
                            if i >= outs {
                                ok.push(LinkError::UnknownOffset { node: Self::ni(n), offset: PortOffset::new_outgoing(i) });
                            }
                            if j >= ins {
                                ok.push(LinkError::UnknownOffset { node: Self::ni(n2), offset: PortOffset::new_incoming(j) });
                            }
                            ensure!(ok.contains(&e), "{what} failed with {e:?}, expected one of {ok:?}");
                            unchanged(self, &what)?;
                        }
                    }
                }
            }
        }
        // Calls documented to do nothing on absent items.
        for &n in &nodes {
            if self.m.nodes.contains_key(&n) {
                continue;
            }
            self.g.remove_node(Self::ni(n));
            if judge {
                unchanged(self, &format!("remove_node({n}) of an absent node"))?;
            }
            let mut calls = 0;
            self.g.set_num_ports(Self::ni(n), 1, 1, |_, _| calls += 1);
            if judge {
                ensure_eq!(calls, 0, "callbacks of set_num_ports on absent node {n}");
                unchanged(self, &format!("set_num_ports({n}) of an absent node"))?;
            }
        }
        for &p in &dead {
            let r = self.g.unlink_port(Self::pi(p));
            if judge {
                ensure_eq!(r, None, "unlink_port({p}) of an absent port");
                unchanged(self, &format!("unlink_port({p}) of an absent port"))?;
            }
        }
        for (p, _) in &ports {
            if !self.m.link.contains_key(p) {
                let r = self.g.unlink_port(Self::pi(*p));
                if judge {
                    ensure_eq!(r, None, "unlink_port({p}) of an unlinked port");
                    unchanged(self, &format!("unlink_port({p}) of an unlinked port"))?;
                }
            }
        }
        Ok(())
    }
}

/// Checks the callbacks of a resize: `old` ports and links before, `new` ports after.
pub struct ResizeLog {
    pub log: Vec<(usize, Option<usize>, Option<usize>)>, // port, moved-to, old_link (if removed)
    pub removed: Vec<bool>,
    /// An operation that contradicts itself.
    pub wrong: Option<String>,
}
impl ResizeLog {
    pub fn new() -> Self {
        ResizeLog { log: Vec::new(), removed: Vec::new(), wrong: None }
    }
    pub fn push(&mut self, p: PortIndex, op: PortOperation) {
        let moved = match op {
            PortOperation::Moved { new_index } => Some(new_index),
            _ => None,
        };
        if op.new_index() != moved {
            self.wrong.get_or_insert_with(|| format!("new_index() of {op:?} is {:?}", op.new_index()));
        }
        match op {
            PortOperation::Removed { old_link } => {
                self.log.push((p.index(), None, old_link.map(|x| x.index())));
                self.removed.push(true);
            }
            PortOperation::Moved { new_index } => {
                self.log.push((p.index(), Some(new_index.index()), None));
                self.removed.push(false);
            }
        }
    }
    /// Verify against the resize of a node from ports `old` to ports `new`,
    /// where `link` is the (single-port) link map before and `live` every
    /// live port before. For ports linked several times `links_of` gives all
    /// partners.
    pub fn judge(&self, old: &[Vec<usize>; 2], new: &[Vec<usize>; 2], live: &BTreeSet<usize>, partners: &BTreeMap<usize, Vec<usize>>) -> Res {
        if let Some(w) = &self.wrong {
            return Err(w.clone());
        }
        let mut kept: BTreeMap<usize, usize> = BTreeMap::new(); // old -> new expected
        let mut gone: BTreeSet<usize> = BTreeSet::new();
        for d in 0..2 {
            for (i, p) in old[d].iter().enumerate() {
                match new[d].get(i) {
                    Some(q) => {
                        kept.insert(*p, *q);
                    }
                    None => {
                        gone.insert(*p);
                    }
                }
            }
        }
        // Sequential application, the way a user's map follows the calls.
        let mut occ: BTreeMap<usize, usize> = live.iter().map(|p| (*p, *p)).collect(); // current index -> original port
        let mut seen: BTreeSet<usize> = BTreeSet::new();
        let cur_of = |occ: &BTreeMap<usize, usize>, orig: usize| occ.iter().find(|(_, o)| **o == orig).map(|(c, _)| *c);
        for (k, (p, to, old_link)) in self.log.iter().enumerate() {
            let Some(orig) = occ.remove(p) else {
                return Err(format!("callback {k} names port {p}, which is not a live port at that time (callbacks {:?})", self.log));
            };
            ensure!(seen.insert(orig), "port {orig} is reported twice (callbacks {:?})", self.log);
            if self.removed[k] {
                ensure!(gone.contains(&orig), "port {orig} is reported as removed but it is kept (callbacks {:?})", self.log);
                let ps = partners.get(&orig).cloned().unwrap_or_default();
                // partners still alive at the time of the call, under their current index
                let alive: Vec<usize> = ps.iter().filter_map(|q| cur_of(&occ, *q)).collect();
                match old_link {
                    None => ensure!(alive.is_empty(), "removed port {orig} is reported without its link (linked to {alive:?})"),
                    Some(l) => ensure!(alive.contains(l), "removed port {orig} is reported with link {l}, but it was linked to {alive:?}"),
                }
            } else {
                let q = to.unwrap();
                ensure!(kept.get(&orig) == Some(&q), "port {orig} is reported as moved to {q}, expected {:?} (callbacks {:?})", kept.get(&orig), self.log);
                ensure!(occ.insert(q, orig).is_none(), "callback {k} moves port {orig} onto index {q}, which still holds another port (callbacks {:?})", self.log);
            }
        }
        for p in &gone {
            ensure!(seen.contains(p), "removed port {p} was not reported (callbacks {:?})", self.log);
        }
        for (p, q) in &kept {
            ensure!(p == q || seen.contains(p), "port {p} moved to {q} without a callback (callbacks {:?})", self.log);
        }
        Ok(())
    }
}

impl Sys for PSys {
    type Op = POp;

    fn ops(&self) -> Vec<POp> {
        let c = &*self.cfg;
        let mut v = Vec::new();
        let m = &self.m;
        if m.node_hi == usize::MAX {
            return v;
        }
        if m.nodes.len() < c.max_nodes && m.node_hi <= c.max_node_slots {
            for &(i, o) in &c.shapes {
                if m.port_hi + i + o <= c.max_port_slots {
                    v.push(POp::Add(i, o));
                }
            }
        }
        let ports = m.ports();
        // With `thin`, the last free and the first linked port of each node and direction.
        let pick = |linked: bool| -> Vec<(usize, Direction)> {
            let mut v = Vec::new();
            for ps in m.nodes.values() {
                for d in DIRS {
                    let mut it = ps[d as usize].iter().filter(|p| m.link.contains_key(p) == linked);
                    v.extend(if linked { it.next() } else { it.next_back() }.map(|p| (*p, d)));
                }
            }
            v
        };
        let free = if c.thin { pick(false) } else { ports.clone() };
        let linked = if c.thin { pick(true) } else { ports.clone() };
        if c.links {
            for &(a, da) in &free {
                for &(b, db) in &free {
                    if da == Direction::Outgoing && db == Direction::Incoming && !m.link.contains_key(&a) && !m.link.contains_key(&b) {
                        v.push(POp::Link(a, b));
                        if c.both_orders {
                            v.push(POp::Link(b, a));
                            let (na, _, oa) = m.owner(a).unwrap();
                            let (nb, _, ob) = m.owner(b).unwrap();
                            v.push(POp::LinkNodes(na, oa, nb, ob));
                        }
                    }
                }
            }
        }
        if c.unlink {
            for &(a, _) in &linked {
                if m.link.contains_key(&a) {
                    v.push(POp::Unlink(a));
                }
            }
        }
        if c.remove {
            for &n in m.nodes.keys() {
                v.push(POp::Remove(n));
            }
        }
        for (&n, ps) in &m.nodes {
            for &(i, o) in &c.sizes {
                if (i, o) != (ps[0].len(), ps[1].len()) && m.port_hi + (i + o).next_power_of_two() <= c.max_port_slots + 6 {
                    v.push(POp::SetPorts(n, i, o));
                }
            }
        }
        if c.swap {
            for a in 0..m.node_hi {
                for b in a + 1..m.node_hi {
                    if !c.thin || [1, 2, m.node_hi / 2].contains(&(b - a)) || a == 0 {
                        v.push(POp::Swap(a, b));
                    }
                }
            }
        }
        if c.compact {
            v.push(POp::CompactNodes);
            v.push(POp::CompactPorts);
        }
        if c.clear {
            v.push(POp::Clear);
        }
        if c.reserve {
            v.push(POp::Reserve(3, 5));
            v.push(POp::Shrink);
        }
        if c.refused {
            v.push(POp::Refused);
        }
        v
    }

    fn apply(&mut self, op: &POp) -> Res {
        let j = self.cfg.judge;
        match *op {
            POp::Add(i, o) => {
                let n = self.g.add_node(i, o).index();
                ensure!(!self.m.nodes.contains_key(&n), "add_node returned index {n} of a live node");
                let ps = self.read_ports(n);
                ensure_eq!((ps[0].len(), ps[1].len()), (i, o), "ports of the new node");
                for p in ps.iter().flatten() {
                    ensure!(self.m.owner(*p).is_none(), "new node {n} got port index {p}, which belongs to a live node");
                }
                if j.recycle {
                    if (0..self.m.node_hi).any(|x| !self.m.nodes.contains_key(&x)) {
                        ensure!(n < self.m.node_hi, "add_node grew the node index space to {n} although a freed index below {} is available", self.m.node_hi);
                    } else {
                        ensure!(n <= self.m.node_hi, "add_node skipped indices: returned {n} with {} node slots in use", self.m.node_hi);
                    }
                    if let Some(p) = ps.iter().flatten().max() {
                        ensure!(*p < self.m.port_hi + i + o, "add_node({i},{o}) skipped port indices: {ps:?} with {} slots in use", self.m.port_hi);
                        ensure!(*p < self.m.port_hi || !self.m.free.contains(&(i + o)), "add_node({i},{o}) grows the port index space ({ps:?} with {} slots in use) although a freed block of that size is left (sizes {:?})", self.m.port_hi, self.m.free);
                    }
                }
                if ps.iter().flatten().any(|p| *p < self.m.port_hi) {
                    self.m.take_free(self.g.node_port_capacity(Self::ni(n)));
                }
                self.m.nodes.insert(n, ps);
            }
            POp::Remove(n) => {
                let shape = self.m.nodes.get(&n).map(|p| (p[0].len(), p[1].len()));
                let tight = self.m.nodes.contains_key(&n) && self.g.node_port_capacity(Self::ni(n)) == shape.unwrap().0 + shape.unwrap().1;
                let cap = self.g.node_port_capacity(Self::ni(n));
                self.g.remove_node(Self::ni(n));
                self.m.add_free(cap);
                if let Some(ps) = self.m.nodes.remove(&n) {
                    for p in ps.iter().flatten() {
                        self.m.unlink(*p);
                    }
                }
                if j.recycle && tight {
                    // Re-adding a node of the same shape must not grow the index spaces.
                    let (i, o) = shape.unwrap();
                    let mut g2 = self.g.clone();
                    let n2 = g2.add_node(i, o);
                    ensure!(n2.index() < self.m.node_hi, "re-adding a removed node grows the node index space: {n2:?}");
                    for p in g2.all_ports(n2) {
                        ensure!(p.index() < self.m.port_hi, "re-adding a removed node of the same shape grows the port index space: {p:?}");
                    }
                }
            }
            POp::Link(a, b) => {
                let r = self.g.link_ports(Self::pi(a), Self::pi(b));
                ensure_eq!(r, Ok((Self::pi(a), Self::pi(b))), "link_ports({a},{b})");
                self.m.link.insert(a, b);
                self.m.link.insert(b, a);
            }
            POp::LinkNodes(na, oa, nb, ob) => {
                let (a, b) = (self.m.nodes[&na][1][oa], self.m.nodes[&nb][0][ob]);
                let r = self.g.link_nodes(Self::ni(na), oa, Self::ni(nb), ob);
                ensure_eq!(r, Ok((Self::pi(a), Self::pi(b))), "link_nodes");
                self.m.link.insert(a, b);
                self.m.link.insert(b, a);
            }
            POp::Unlink(p) => {
                let r = self.g.unlink_port(Self::pi(p));
                let w = self.m.unlink(p);
                ensure_eq!(r.map(|x| x.index()), w, "unlink_port({p})");
            }
            POp::SetPorts(n, i, o) => {
                let old = self.m.nodes[&n].clone();
                let live: BTreeSet<usize> = self.m.ports().iter().map(|x| x.0).collect();
                let partners: BTreeMap<usize, Vec<usize>> = self.m.link.iter().map(|(a, b)| (*a, vec![*b])).collect();
                let mut log = ResizeLog::new();
                let cap = self.g.node_port_capacity(Self::ni(n));
                self.g.set_num_ports(Self::ni(n), i, o, |p, op| log.push(p, op));
                let new = self.read_ports(n);
                let cap2 = self.g.node_port_capacity(Self::ni(n));
                if cap2 != cap {
                    if new.iter().flatten().any(|p| *p < self.m.port_hi) {
                        self.m.take_free(cap2);
                    }
                    self.m.add_free(cap);
                }
                ensure_eq!((new[0].len(), new[1].len()), (i, o), "port counts after set_num_ports({n},{i},{o})");
                if j.rekey {
                    log.judge(&old, &new, &live, &partners)?;
                    ensure!(i + o >= cap || i + o == 0 || self.g.node_port_capacity(Self::ni(n)) == cap, "set_num_ports({n},{i},{o}) reallocated although the allocated capacity {cap} suffices");
                }
                let mut ren = BTreeMap::new();
                for d in 0..2 {
                    for (k, p) in old[d].iter().enumerate() {
                        match new[d].get(k) {
                            Some(q) => {
                                ren.insert(*p, *q);
                            }
                            None => {
                                self.m.unlink(*p);
                            }
                        }
                    }
                }
                // Fresh ports must not alias ports of other nodes.
                for p in new.iter().flatten() {
                    if let Some((n2, _, _)) = self.m.owner(*p) {
                        ensure!(n2 == n, "after set_num_ports({n},{i},{o}) port {p} belongs to nodes {n} and {n2}");
                    }
                }
                // two-phase rename
                self.m.nodes.get_mut(&n).unwrap()[0].truncate(i);
                self.m.nodes.get_mut(&n).unwrap()[1].truncate(o);
                self.m.rename_ports(&ren);
                self.m.nodes.insert(n, new);
            }
            POp::Swap(a, b) => {
                self.g.swap_nodes(Self::ni(a), Self::ni(b));
                let x = self.m.nodes.remove(&a);
                let y = self.m.nodes.remove(&b);
                if let Some(x) = x {
                    self.m.nodes.insert(b, x);
                }
                if let Some(y) = y {
                    self.m.nodes.insert(a, y);
                }
            }
            POp::CompactNodes => {
                let mut log = Vec::new();
                self.g.compact_nodes(|a, b| log.push((a.index(), b.index())));
                let want: Vec<usize> = self.m.nodes.keys().copied().collect();
                let mut occ: BTreeMap<usize, usize> = want.iter().map(|n| (*n, *n)).collect();
                if j.rekey {
                    for (a, b) in &log {
                        let Some(o) = occ.remove(a) else {
                            return Err(format!("compact_nodes reports the move of {a}, which is not a node then ({log:?})"));
                        };
                        ensure!(occ.insert(*b, o).is_none(), "compact_nodes reports {a} moving onto the live node {b} ({log:?})");
                    }
                }
                // The reported moves define the new names.
                let map: BTreeMap<usize, usize> = log.into_iter().collect();
                let mut nodes = BTreeMap::new();
                for (n, ps) in &self.m.nodes {
                    let q = *map.get(n).unwrap_or(n);
                    ensure!(nodes.insert(q, ps.clone()).is_none(), "compact_nodes maps two nodes to {q}");
                }
                self.m.nodes = nodes;
                if j.recycle {
                    let got: Vec<usize> = self.g.nodes_iter().map(|n| n.index()).collect();
                    ensure!(got.iter().all(|n| *n < want.len()), "compact_nodes leaves holes: {got:?}");
                }
                self.m.node_hi = self.m.nodes.len();
            }
            POp::CompactPorts => {
                let mut log = Vec::new();
                self.g.compact_ports(|a, b| log.push((a.index(), b.index())));
                let live: Vec<usize> = self.m.ports().iter().map(|x| x.0).collect();
                if j.rekey {
                    let mut occ: BTreeMap<usize, usize> = live.iter().map(|n| (*n, *n)).collect();
                    for (a, b) in &log {
                        let Some(o) = occ.remove(a) else {
                            return Err(format!("compact_ports reports the move of {a}, which is not a port then ({log:?})"));
                        };
                        ensure!(occ.insert(*b, o).is_none(), "compact_ports reports {a} moving onto the live port {b} ({log:?})");
                    }
                }
                let map: BTreeMap<usize, usize> = log.into_iter().collect();
                self.m.rename_ports(&map);
                if j.recycle {
                    let got: Vec<usize> = self.g.ports_iter().map(|n| n.index()).collect();
                    ensure!(got.iter().all(|n| *n < live.len()), "compact_ports leaves holes: {got:?}");
                }
                self.m.port_hi = live.len();
                self.m.free.clear();
            }
            POp::Clear => {
                self.g.clear();
                self.m = PModel::default();
                if j.recycle {
                    let fresh = rmp_serde::to_vec(&PortGraph::<u32, u32, u16>::new()).unwrap();
                    let _ = fresh;
                    let mut g2 = self.g.clone();
                    let n = g2.add_node(1, 1);
                    ensure!(n.index() == 0 && g2.all_ports(n).all(|p| p.index() < 2), "a cleared graph does not start from index 0 again");
                }
            }
            POp::Reserve(n, p) => {
                let b = self.state_bytes();
                let (nc, pc) = (self.g.node_count(), self.g.port_count());
                self.g.reserve(n, p);
                ensure!(self.g.node_capacity() >= nc + n, "node_capacity {} after reserve({n},{p}) with {nc} nodes", self.g.node_capacity());
                ensure!(self.g.port_capacity() >= pc + p, "port_capacity {} after reserve({n},{p}) with {pc} ports", self.g.port_capacity());
                ensure!(b == self.state_bytes(), "reserve changed the graph");
            }
            POp::Shrink => {
                let b = self.state_bytes();
                self.g.shrink_to_fit();
                ensure!(b == self.state_bytes(), "shrink_to_fit changed the graph");
            }
            POp::Refused => self.refused()?,
        }
        self.bump_hi();
        Ok(())
    }

    fn check(&self) -> Res {
        ensure!(self.m.node_hi != usize::MAX, "preparing the initial state failed");
        let v = self.m.view();
        if self.cfg.judge.content {
            check_view(&self.g, &v, &Opts::base(self.m.node_hi + 1, self.m.port_hi + 1))?;
            ensure!(self.g == self.g.clone(), "a clone is not equal to its original");
        } else {
            quick_agree(&self.g, &v)?;
        }
        Ok(())
    }

    fn key(&self, out: &mut Vec<u8>) {
        rmp_serde::encode::write(out, &self.g).expect("serialize");
        key_model(out, &self.m);
    }

    fn outcome(&self) -> u64 {
        let v = self.m.view();
        outcome_of(&v)
    }
}

/// Cheap agreement of the graph structure with the model (used where the full
/// query interface is judged by another property).
pub fn quick_agree<G>(g: &G, v: &RefView) -> Res
where
    G: LinkView,
    G::LinkEndpoint: EpKey,
{
    let mut ns: Vec<usize> = g.nodes_iter().map(|n| n.index()).collect();
    ns.sort();
    ensure_eq!(ns, v.nodes.keys().copied().collect::<Vec<_>>(), "nodes");
    let mut links = Vec::new();
    for (&n, ps) in &v.nodes {
        for d in DIRS {
            let got: Vec<usize> = g.ports(NodeIndex::new(n), d).map(|p| p.index()).collect();
            ensure_eq!(got, ps[d as usize], "ports({n},{d:?})");
            for p in &got {
                ensure_eq!(g.port_node(PortIndex::new(*p)).map(|x| x.index()), Some(n), "port_node({p})");
                ensure_eq!(g.port_direction(PortIndex::new(*p)), Some(d), "port_direction({p})");
                for (a, b) in g.port_links(PortIndex::new(*p)) {
                    if d == Direction::Outgoing {
                        links.push((a.ep(), b.ep()));
                    } else {
                        ensure!(v.links.contains(&(b.ep(), a.ep())), "port {p} has a link from {:?} that should not exist", b.ep());
                    }
                }
            }
        }
    }
    links.sort();
    ensure_eq!(links, v.links, "links");
    ensure_eq!(g.link_count(), v.links.len(), "link_count");
    Ok(())
}

// ---------------------------------------------------------------------------
// Checks
// ---------------------------------------------------------------------------

use std::sync::Arc;

/// Fragmented starting points: free lists of nodes and of port slabs of
/// several sizes, over-allocated slabs, links across.
pub fn fragmented(cfg: &Arc<PCfg>) -> Vec<(String, PSys)> {
    use POp::*;
    let mut v = vec![("empty".to_string(), PSys::new(cfg.clone()))];
    let mut add = |n: &str, ops: &[POp]| v.push((n.to_string(), PSys::after(cfg, ops)));
    add("holes", &[Add(1, 1), Add(1, 1), Add(1, 2), Remove(0), Remove(1)]);
    add("linked-pair", &[Add(1, 1), Add(1, 1), Link(1, 2), Link(3, 0)]);
    add("overallocated", &[Add(1, 1), SetPorts(0, 1, 2), Add(1, 1)]);
    v
}

/// Larger starting points: `n` nodes in several shapes and link patterns, with or without
/// freed indices, over-allocated and shrunk nodes.
pub fn large(cfg: &Arc<PCfg>, n: usize) -> Vec<(String, PSys)> {
    let mut v = Vec::new();
    for variant in 0..4 {
        for holes in [false, true] {
            let mut s = PSys::new(cfg.clone());
            let act = |s: &mut PSys, o: POp| {
                if s.m.node_hi != usize::MAX {
                    if let Err(e) = guarded(|| s.apply(&o)) {
                        s.m.node_hi = usize::MAX;
                        eprintln!("preparing an initial state failed at {o:?}: {e}");
                    }
                }
            };
            for k in 0..n {
                let (i, o) = match variant {
                    0 => (2, 2),
                    1 => (k % 4, (k + 2) % 4),
                    2 => (3 * (k % 2), 3 * ((k + 1) % 2)),
                    _ => ((k * k) % 5, (k * 3) % 5),
                };
                act(&mut s, POp::Add(i, o));
            }
            if holes {
                act(&mut s, POp::SetPorts(1, 5, 4));
                act(&mut s, POp::SetPorts(n - 2, 0, 1));
                for k in (2..n).step_by(4) {
                    act(&mut s, POp::Remove(k));
                }
            }
            let ports = s.m.ports();
            let side = |d| ports.iter().filter(|x| x.1 == d).map(|x| x.0).collect::<Vec<_>>();
            let (outs, ins) = (side(Direction::Outgoing), side(Direction::Incoming));
            for (k, &o) in outs.iter().enumerate() {
                if ins.is_empty() || k % 5 == 4 {
                    continue;
                }
                let i = ins[(k * 3 + variant) % ins.len()];
                if !s.m.link.contains_key(&i) {
                    act(&mut s, if k % 2 == 0 { POp::Link(o, i) } else { POp::Link(i, o) });
                }
            }
            if holes {
                for k in (3..n).step_by(8) {
                    act(&mut s, POp::Remove(k));
                }
            }
            v.push((format!("{n} nodes, pattern {variant}{}", if holes { ", with holes" } else { "" }), s));
        }
    }
    v
}

fn large_sections(ctx: &mut Ctx, j: Judge, f: impl Fn(&mut PCfg)) {
    let mut c = PCfg::large(j);
    f(&mut c);
    let c = Arc::new(c);
    let bound = "8 starting graphs of that many nodes (4 shape and link patterns, with and without freed indices); every kind of operation on representative ports and nodes";
    for (n, d) in [(5, ctx.pick(if j.content { 2 } else { 3 }, 3)), (8, ctx.pick(if j.content { 1 } else { 2 }, 2)), (24, 1), (if j.content { 40 } else { 70 }, 1)] {
        bfs(ctx, Bfs { name: format!("large-{n}"), depth: d, max_states: 40_000_000, bound: bound.into() }, large(&c, n));
    }
}

const J_CONTENT: Judge = Judge { content: true, rekey: false, refused: false, recycle: false };

pub fn c01(ctx: &mut Ctx) {
    let sizes = [(0, 0), (1, 0), (1, 1), (0, 2), (2, 1)];
    let mut c = PCfg::new(&[(0, 0), (1, 1), (2, 1)], &sizes, 3, J_CONTENT);
    c.reserve = true;
    c.clear = true;
    c.both_orders = true;
    let c = Arc::new(c);
    let d = ctx.pick(6, 7);
    bfs(ctx, Bfs { name: "wide".into(), depth: d, max_states: 40_000_000, bound: "<=3 nodes, shapes (0,0),(1,1),(2,1), resize to 5 shapes, all links/unlinks/removals/swaps/compactions/clear/reserve/shrink".into() }, fragmented(&c));
    let mut c = PCfg::new(&[(1, 1), (0, 2)], &[(0, 0), (1, 2)], 2, J_CONTENT);
    c.max_node_slots = 3;
    let c = Arc::new(c);
    let d = ctx.pick(20, 30);
    bfs(ctx, Bfs { name: "deep".into(), depth: d, max_states: 40_000_000, bound: "<=2 nodes, shapes (1,1),(0,2), resize to (0,0),(1,2), all links/unlinks/removals/swaps/compactions".into() }, vec![("empty".into(), PSys::new(c.clone()))]);
    // Free-list heavy: many node slots, no links.
    let mut c = PCfg::new(&[(0, 0), (1, 0)], &[], 4, J_CONTENT);
    c.max_node_slots = 5;
    c.links = false;
    let c = Arc::new(c);
    let d = ctx.pick(14, 20);
    bfs(ctx, Bfs { name: "slots".into(), depth: d, max_states: 40_000_000, bound: "<=4 nodes of shape (0,0),(1,0); add/remove/swap/compact".into() }, vec![("empty".into(), PSys::new(c.clone()))]);
    // The other constructors. Equal states are merged, so every one has a search of its own.
    let mut c = PCfg::new(&[(0, 0), (1, 1), (2, 1)], &[(0, 2)], 3, J_CONTENT);
    c.reserve = true;
    c.clear = true;
    let c = Arc::new(c);
    let made: Vec<(&str, fn() -> PortGraph)> = vec![
        ("default", PortGraph::default),
        ("capacity-0-0", || PortGraph::with_capacity(0, 0)),
        ("capacity-1-2", || PortGraph::with_capacity(1, 2)),
        ("capacity-4-0", || PortGraph::with_capacity(4, 0)),
        ("capacity-0-9", || PortGraph::with_capacity(0, 9)),
        ("capacity-99-7", || PortGraph::with_capacity(99, 7)),
    ];
    for (name, f) in made {
        let mut s = PSys::new(c.clone());
        s.g = f();
        bfs(ctx, Bfs { name: format!("made-{name}"), depth: ctx.pick(4, 5), max_states: 40_000_000, bound: "a graph from another constructor than new(); <=3 nodes, all histories".into() }, vec![(name.into(), s)]);
    }
    large_sections(ctx, J_CONTENT, |c| {
        c.reserve = true;
        c.clear = true;
        c.both_orders = true;
    });
}

pub fn c02(ctx: &mut Ctx) {
    let j = Judge { rekey: true, ..Default::default() };
    let sizes: Vec<(usize, usize)> = (0..=3).flat_map(|i| (0..=3).map(move |o| (i, o))).collect();
    let mut c = PCfg::new(&[(1, 1), (2, 2)], &sizes, 2, j);
    c.max_port_slots = 16;
    c.swap = false;
    let c = Arc::new(c);
    let d = ctx.pick(6, 7);
    bfs(ctx, Bfs { name: "resize".into(), depth: d, max_states: 40_000_000, bound: "<=2 nodes of shape (1,1),(2,2), resize to every (i,o) with i,o<=3, all links (self-loops included), unlinks, removals, compactions".into() }, vec![("empty".into(), PSys::new(c.clone()))]);
    let mut c = PCfg::new(&[(0, 1), (1, 0), (1, 1)], &[(0, 0), (1, 2), (2, 0)], 3, j);
    c.max_port_slots = 12;
    let c = Arc::new(c);
    let d = ctx.pick(7, 8);
    bfs(ctx, Bfs { name: "compact-swap".into(), depth: d, max_states: 40_000_000, bound: "<=3 nodes of shape (0,1),(1,0),(1,1), 3 resize targets, all links/unlinks/removals/swaps/compactions".into() }, fragmented(&c));
    // One node with more ports: growth and shrinkage through several slab sizes.
    let sizes: Vec<(usize, usize)> = (0..=6).flat_map(|i| (0..=6).map(move |o| (i, o))).filter(|(i, o)| i + o <= 9).collect();
    let mut c = PCfg::new(&[(2, 2)], &sizes, 1, j);
    c.max_port_slots = 64;
    c.compact = false;
    c.swap = false;
    c.remove = false;
    let c = Arc::new(c);
    let d = ctx.pick(5, 6);
    bfs(ctx, Bfs { name: "resize-one".into(), depth: d, max_states: 40_000_000, bound: "one node of shape (2,2), resize to every (i,o) with i,o<=6 and i+o<=9, all self-links/unlinks".into() }, vec![("empty".into(), PSys::new(c.clone()))]);
    large_sections(ctx, j, |_| ());
}

pub fn c03(ctx: &mut Ctx) {
    let j = Judge { refused: true, ..Default::default() };
    let mut c = PCfg::new(&[(0, 0), (1, 1), (2, 1)], &[(0, 0), (1, 0), (1, 1), (0, 2), (2, 1)], 3, j);
    c.refused = true;
    c.max_port_slots = 12;
    let c = Arc::new(c);
    let d = ctx.pick(6, 7);
    bfs(ctx, Bfs { name: "portgraph".into(), depth: d, max_states: 40_000_000, bound: "<=3 nodes, shapes (0,0),(1,1),(2,1); after every history every illegal link request (all port pairs, dead ports, bad offsets) and every no-op request".into() }, fragmented(&c));
    crate::multi::c03_multi(ctx);
    let mut c = PCfg::large(j);
    c.refused = true;
    let c = Arc::new(c);
    bfs(ctx, Bfs { name: "large-5".into(), depth: 1, max_states: 1_000_000, bound: "8 starting graphs of 5 nodes and up to 30 ports; one operation, then every illegal or void request".into() }, large(&c, 5));
}

pub fn c04(ctx: &mut Ctx) {
    let j = Judge { recycle: true, ..Default::default() };
    let mut c = PCfg::new(&[(0, 0), (1, 1), (2, 1)], &[(0, 0), (1, 0), (1, 2)], 3, j);
    c.clear = true;
    c.max_node_slots = 4;
    let c = Arc::new(c);
    let d = ctx.pick(7, 8);
    bfs(ctx, Bfs { name: "recycle".into(), depth: d, max_states: 40_000_000, bound: "<=3 nodes, shapes (0,0),(1,1),(2,1), 3 resize targets, all links/unlinks/removals/swaps/compactions/clear".into() }, fragmented(&c));
    let mut c = PCfg::new(&[(0, 0), (1, 0), (1, 1)], &[], 4, j);
    c.max_node_slots = 5;
    c.links = false;
    let c = Arc::new(c);
    let d = ctx.pick(12, 20);
    bfs(ctx, Bfs { name: "slots".into(), depth: d, max_states: 40_000_000, bound: "<=4 nodes of shape (0,0),(1,0),(1,1); add/remove/swap/compact".into() }, vec![("empty".into(), PSys::new(c.clone()))]);
    large_sections(ctx, j, |c| c.clear = true);
}
