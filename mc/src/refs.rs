//! Access through references (C30): the same program is run on a graph
//! directly, through `&mut G` and through `&mut &mut G`; the queries are asked
//! directly and through every kind of reference.

use crate::copy::observe;
use crate::engine::*;
use crate::families::*;
use crate::gen::*;
use crate::viewcheck::*;
use crate::views::{filtered, mask_of};
use crate::{ensure, ensure_eq};
use portgraph::view::{FlatRegion, LinkMut, LinkView, MultiMut, MultiView, PortMut, PortView, Region, Subgraph};
use portgraph::{MultiPortGraph, NodeIndex, PortGraph, PortIndex, PortOffset};
use portgraph::multiportgraph::SubportIndex;
use std::collections::BTreeSet;
use std::fmt::{Debug, Write};

#[derive(Clone, Debug)]
pub enum ROp {
    Add(usize, usize),
    Remove(usize),
    SetPorts(usize, usize, usize),
    Swap(usize, usize),
    CompactNodes,
    CompactPorts,
    Clear,
    Reserve,
    Shrink,
    Link(usize, usize),
    LinkNodes(usize, usize, usize, usize),
    LinkOffsets(usize, bool, usize, usize, bool, usize),
    Unlink(usize),
    Insert(usize),
    LinkSub(Ep, Ep),
    UnlinkSub(Ep),
}

fn off(out: bool, k: usize) -> PortOffset {
    if out {
        PortOffset::new_outgoing(k)
    } else {
        PortOffset::new_incoming(k)
    }
}

/// The graphs to insert.
fn gadget(k: usize) -> PortGraph {
    let mut g = PortGraph::new();
    let a = g.add_node(0, 1);
    if k > 0 {
        let b = g.add_node(1, 0);
        g.link_nodes(a, 0, b, 0).unwrap();
        g.remove_node(a);
        let a = g.add_node(0, 2);
        g.link_nodes(a, 1, b, 0).unwrap();
    }
    g
}

/// Run one operation, writing down everything it says.
fn drive<M>(m: &mut M, op: &ROp) -> String
where
    M: LinkMut<PortOffsetBase = u16>,
    M::LinkEndpoint: EpKey,
{
    let mut s = String::new();
    let ends = |r: Result<(M::LinkEndpoint, M::LinkEndpoint), portgraph::LinkError<u16>>| match r {
        Ok((a, b)) => format!("{:?}->{:?}", a.ep(), b.ep()),
        Err(e) => format!("{e:?}"),
    };
    match *op {
        ROp::Add(i, o) => write!(s, "{:?}", m.add_node(i, o)).unwrap(),
        ROp::Remove(n) => m.remove_node(ni(n)),
        ROp::SetPorts(n, i, o) => m.set_num_ports(ni(n), i, o, |p, x| write!(s, "{p:?} {x:?};").unwrap()),
        ROp::Swap(a, b) => m.swap_nodes(ni(a), ni(b)),
        ROp::CompactNodes => m.compact_nodes(|a, b| write!(s, "{a:?} {b:?};").unwrap()),
        ROp::CompactPorts => m.compact_ports(|a, b| write!(s, "{a:?} {b:?};").unwrap()),
        ROp::Clear => m.clear(),
        ROp::Reserve => m.reserve(5, 11),
        ROp::Shrink => m.shrink_to_fit(),
        ROp::Link(a, b) => s = ends(m.link_ports(pi(a), pi(b))),
        ROp::LinkNodes(a, x, b, y) => s = ends(m.link_nodes(ni(a), x, ni(b), y)),
        ROp::LinkOffsets(a, d, x, b, e, y) => s = ends(m.link_offsets(ni(a), off(d, x), ni(b), off(e, y))),
        ROp::Unlink(p) => s = format!("{:?}", m.unlink_port(pi(p)).map(|x| x.ep())),
        ROp::Insert(k) => {
            let r = m.insert_graph(&gadget(k));
            let mut v: Vec<_> = r.iter().flatten().map(|(a, b)| (a.index(), b.index())).collect();
            v.sort();
            s = format!("{} {v:?}", r.is_ok());
        }
        ROp::LinkSub(..) | ROp::UnlinkSub(..) => unreachable!(),
    }
    s
}
fn drive_multi<M>(m: &mut M, op: &ROp) -> String
where
    M: MultiMut<PortOffsetBase = u16, LinkEndpoint = SubportIndex>,
{
    let sp = |e: Ep| SubportIndex::new_multi(pi(e.0), e.1);
    match *op {
        ROp::LinkSub(a, b) => format!("{:?}", m.link_subports(sp(a), sp(b))),
        ROp::UnlinkSub(a) => format!("{:?}", m.unlink_subport(sp(a))),
        _ => drive(m, op),
    }
}

/// What the capacity queries and the provided methods answer.
fn extras<M>(m: &M, hi: usize) -> String
where
    M: LinkView<PortOffsetBase = u16>,
    M::LinkEndpoint: EpKey + Debug,
{
    let mut s = format!("{} {} ", m.node_capacity(), m.port_capacity());
    for n in (0..hi).map(ni) {
        if m.contains_node(n) {
            write!(s, "{n:?} {} in{:?} out{:?} {} {} {:?} {:?} ", m.node_port_capacity(n), m.inputs(n).collect::<Vec<_>>(), m.outputs(n).collect::<Vec<_>>(), m.num_inputs(n), m.num_outputs(n),
                m.input_offsets(n).collect::<Vec<_>>(), m.output_offsets(n).collect::<Vec<_>>()).unwrap();
            write!(s, "{:?} {:?} {:?} {:?} ", m.input_links(n).collect::<Vec<_>>(), m.output_links(n).collect::<Vec<_>>(), m.input_neighbours(n).collect::<Vec<_>>(), m.output_neighbours(n).collect::<Vec<_>>()).unwrap();
            for p in m.all_ports(n) {
                write!(s, "{:?} ", m.port_links(p).collect::<Vec<_>>()).unwrap();
            }
            for k in (0..hi).map(ni).filter(|k| m.contains_node(*k)) {
                write!(s, "{:?} {} ", m.get_connection(n, k), m.connected(n, k)).unwrap();
            }
        }
    }
    s
}

trait RG: TG {
    /// `how` references deep.
    fn run(&mut self, op: &ROp, how: u8) -> String;
    fn subs(&self) -> Vec<Ep> {
        vec![]
    }
    fn multi_extras(&self) -> [String; 4] {
        Default::default()
    }
}
impl RG for PortGraph {
    fn run(&mut self, op: &ROp, how: u8) -> String {
        match how {
            0 => drive(self, op),
            1 => drive(&mut &mut *self, op),
            _ => drive(&mut &mut &mut *self, op),
        }
    }
}
fn subport_extras<M: MultiView<LinkEndpoint = SubportIndex>>(m: &M) -> String {
    let mut s = String::new();
    for n in m.nodes_iter() {
        write!(s, "{:?} {:?} {:?}", m.subport_inputs(n).collect::<Vec<_>>(), m.subport_outputs(n).collect::<Vec<_>>(), m.all_subports(n).map(|x| (x, m.subport_link(x))).collect::<Vec<_>>()).unwrap();
    }
    s
}
impl RG for MultiPortGraph {
    fn run(&mut self, op: &ROp, how: u8) -> String {
        match how {
            0 => drive_multi(self, op),
            1 => drive_multi(&mut &mut *self, op),
            _ => drive_multi(&mut &mut &mut *self, op),
        }
    }
    fn subs(&self) -> Vec<Ep> {
        self.nodes_iter().flat_map(|n| self.all_subports(n).map(|x| x.ep()).collect::<Vec<_>>()).collect()
    }
    fn multi_extras(&self) -> [String; 4] {
        let mut x = self.clone();
        [subport_extras(self), subport_extras(&self), subport_extras(&&self), subport_extras(&&mut x)]
    }
}

#[derive(Clone)]
struct RSys<G> {
    gs: [G; 3],
    max_nodes: usize,
    max_links: usize,
    dead: bool,
}

impl<G: RG> Sys for RSys<G>
where
    G::LinkEndpoint: Debug,
{
    type Op = ROp;
    fn ops(&self) -> Vec<ROp> {
        use ROp::*;
        if self.dead {
            return vec![];
        }
        let g = &self.gs[0];
        let Ok(v) = guarded(|| Ok(observe(g))) else { return vec![] };
        let mut o = vec![CompactNodes, CompactPorts, Clear, Reserve, Shrink];
        let hi = v.nodes.keys().max().map_or(0, |x| x + 1);
        if v.nodes.len() < self.max_nodes && hi < self.max_nodes + 2 {
            o.extend([Add(1, 1), Add(0, 2)]);
        }
        if v.nodes.len() + 1 < self.max_nodes && hi < self.max_nodes + 2 {
            o.extend([Insert(0), Insert(1)]);
        }
        for &n in v.nodes.keys() {
            o.push(Remove(n));
            for (i, k) in [(0, 0), (1, 2), (2, 1)] {
                o.push(SetPorts(n, i, k));
            }
            for &m in v.nodes.keys() {
                if n <= m {
                    o.push(Swap(n, m));
                }
                if v.links.len() < self.max_links {
                    o.push(LinkNodes(n, 0, m, 0));
                    o.push(LinkOffsets(n, false, 0, m, true, 1));
                }
            }
        }
        if let Some(&n) = v.nodes.keys().next() {
            // refused
            o.extend([LinkNodes(n, 7, n, 0), LinkOffsets(n, true, 0, n, true, 0), LinkOffsets(n, false, 9, n, true, 0)]);
        }
        let ps: Vec<usize> = v.port_owner().keys().copied().collect();
        for &a in &ps {
            o.push(Unlink(a));
            for &b in &ps {
                if v.links.len() < self.max_links {
                    o.push(Link(a, b));
                }
            }
        }
        o.push(Link(40, 41));
        let subs = g.subs();
        for &a in &subs {
            o.push(UnlinkSub(a));
            for &b in &subs {
                if v.links.len() < self.max_links {
                    o.push(LinkSub(a, b));
                }
            }
        }
        o
    }
    fn apply(&mut self, op: &ROp) -> Res {
        let mut want = String::new();
        for how in 0..3u8 {
            let g = &mut self.gs[how as usize];
            let r = guarded(|| Ok(g.run(op, how)));
            if how == 0 {
                match r {
                    Ok(s) => want = s,
                    Err(_) => {
                        self.dead = true;
                        return Ok(());
                    }
                }
            } else {
                let name = ["", "&mut G", "&mut &mut G"][how as usize];
                let r = r.map_err(|e| format!("{op:?} through {name}: {e}"))?;
                ensure_eq!(r, want, "what {op:?} through {name} reports");
            }
        }
        for how in 1..3 {
            let name = ["", "&mut G", "&mut &mut G"][how];
            ensure!(self.gs[how] == self.gs[0], "{op:?} through {name} leaves a different graph: {:?} instead of {:?}", self.gs[how], self.gs[0]);
            for (k, f) in [("node_capacity", G::node_capacity as fn(&G) -> usize), ("port_capacity", G::port_capacity)] {
                ensure_eq!(f(&self.gs[how]), f(&self.gs[0]), "{k} after {op:?} through {name}");
            }
        }
        Ok(())
    }
    fn check(&self) -> Res {
        if self.dead {
            return Ok(());
        }
        let g = &self.gs[0];
        let Ok((v, o)) = guarded(|| {
            let v = observe(g);
            let (n, p) = (v.nodes.keys().max().copied().unwrap_or(0) + 2, v.port_owner().keys().max().copied().unwrap_or(0) + 3);
            let o = Opts { strict_absent_ports: !G::MULTI, strict_absent_nodes: !G::MULTI, ..Opts::base(n, p) };
            G::check_self(g, &v, &o)?;
            Ok((v, o))
        }) else {
            // The graph itself is wrong: not about references.
            return Ok(());
        };
        G::check_ref(&g, &v, &o).map_err(|e| format!("through &G: {e}"))?;
        G::check_ref_ref(&&g, &v, &o).map_err(|e| format!("through &&G: {e}"))?;
        let mut x = g.clone();
        G::check_mut(&&mut x, &v, &o).map_err(|e| format!("through &mut G: {e}"))?;
        let hi = v.nodes.keys().max().copied().unwrap_or(0) + 1;
        let want = extras(g, hi);
        ensure_eq!(extras(&g, hi), want, "answers through &G");
        ensure_eq!(extras(&&g, hi), want, "answers through &&G");
        let mut x = g.clone();
        let want = extras(&x, hi);
        ensure_eq!(extras(&&mut x, hi), want, "answers through &mut G");
        let m = g.multi_extras();
        for k in 1..4 {
            ensure_eq!(m[k], m[0], "subport answers through {}", ["", "&G", "&&G", "&mut G"][k]);
        }
        Ok(())
    }
    fn key(&self, out: &mut Vec<u8>) {
        out.push(self.dead as u8);
        rmp_serde::encode::write(out, &self.gs[0]).unwrap();
    }
    fn outcome(&self) -> u64 {
        outcome_of(&rmp_serde::to_vec(&self.gs[0]).unwrap())
    }
}

/// References to views.
fn view_case<G: TG>(spec: &Spec, parents: &[Option<usize>]) -> Result<Tally, String> {
    let b: Built<G> = build(spec)?;
    let h = hierarchy(parents, &b.nodes, false);
    let o = b.inner_opts();
    let n = parents.len();
    let mut steps = 0;
    for root in 0..n {
        let rn = ni(b.nodes[root]);
        let m = restrict(&b.view, |x| below(parents, b.nodes.iter().position(|y| *y == x).unwrap(), root), |_| true);
        let mut r = Region::new(&b.g, &h, rn);
        if guarded(|| G::check_region(&r, &m, &o)).is_ok() {
            steps += G::check_region_ref(&&r, &m, &o).map_err(|e| format!("through a reference to the region of {root}: {e}"))?;
            steps += G::check_region_mut(&&mut r, &m, &o).map_err(|e| format!("through a mutable reference to the region of {root}: {e}"))?;
        }
        let kids: BTreeSet<usize> = (0..n).filter(|k| parents[*k] == Some(root)).map(|k| b.nodes[k]).collect();
        let m = restrict(&b.view, |x| kids.contains(&x) || x == rn.index(), |_| true);
        let r = FlatRegion::new_with_root(&b.g, &h, rn);
        if guarded(|| G::check_flat(&r, &m, &o)).is_ok() {
            steps += G::check_flat_ref(&&r, &m, &o).map_err(|e| format!("through a reference to the flat region of {root}: {e}"))?;
        }
    }
    let sets: Vec<Vec<usize>> = if n <= 6 { (1..1u64 << n).map(|s| (0..n).filter(|k| s >> k & 1 == 1).collect()).collect() } else { node_sets(n, false) };
    for set in sets {
        let nodes: u64 = set.iter().map(|k| 1u64 << k).sum();
        let list: Vec<NodeIndex> = set.iter().map(|k| ni(b.nodes[*k])).collect();
        let m = restrict(&b.view, |x| list.contains(&ni(x)), |_| true);
        let s = Subgraph::with_nodes(&b.g, list.clone());
        if guarded(|| G::check_sub(&s, &m, &o)).is_ok() {
            steps += G::check_sub_ref(&&s, &m, &o).map_err(|e| format!("through a reference to the subgraph of {list:?}: {e}"))?;
        }
        let mask = mask_of(&b, nodes, !0 >> 1);
        let m = filtered(&b.view, &mask);
        let f = filt(&b.g, mask);
        if guarded(|| G::check_filt(&f, &m, &o)).is_ok() {
            steps += G::check_filt_ref(&&f, &m, &o).map_err(|e| format!("through a reference to a filtered graph {mask:?}: {e}"))?;
        }
    }
    Ok(Tally { steps, outcome: outcome_of(&(parents, &b.view.links)) })
}
fn view_section<G: TG>(ctx: &mut Ctx, name: &str, bound: &str, specs: Vec<Spec>) {
    let f = forests(specs[0].shapes.len());
    let at = |i: u64| (&specs[i as usize / f.len()], &f[i as usize % f.len()]);
    cases(ctx, name, &format!("{bound}; {} graphs x {} forests; references to every region, flat region, subgraph and node filter", specs.len(), f.len()), (specs.len() * f.len()) as u64,
        |i| format!("{:?} parents {:?}", at(i).0, at(i).1), |i| view_case::<G>(at(i).0, at(i).1));
}

/// Larger graphs and hierarchies.
fn large_views<G: TG>(ctx: &mut Ctx, name: &str, sizes: &[usize]) {
    let v: Vec<Named> = members::<G>(&Choice { sizes, cyclic: true, drop: 0 });
    let f = |i: u64| {
        let h = big_forests(v[i as usize].1.shapes.len());
        let k = i as usize * 5 % h.len();
        (h[k].0.clone(), h[k].1.clone())
    };
    cases(ctx, name, &describe("one larger hierarchy each; references to every region, flat region, and subgraphs and node filters of all, single, all but one, first and last nodes", &v), v.len() as u64,
        |i| format!("{} hierarchy {}", v[i as usize].0, f(i).0), |i| view_case::<G>(&v[i as usize].1, &f(i).1));
}

/// Larger graphs as the starting points.
fn large_starts<G: RG>(sizes: &[usize], every: usize) -> Vec<(String, RSys<G>)> {
    members::<G>(&Choice { sizes, cyclic: true, drop: 0 }).into_iter().step_by(every).map(|(name, s)| {
        let g = build::<G>(&opened(&s)).unwrap_or_else(|e| panic!("{name}: {e}")).g;
        (name, RSys { gs: std::array::from_fn(|_| g.clone()), max_nodes: 99, max_links: 999, dead: false })
    }).collect()
}

pub fn c30(ctx: &mut Ctx) {
    let (a, b): (&[usize], &[usize]) = ctx.pick((&[5, 9, 17], &[5, 9]), (&[5, 7, 9, 12, 17], &[5, 7, 9]));
    let every = ctx.pick(3, 1);
    let bound = |s: &[usize]| format!("one operation on every {every}-th family member of sizes {s:?} with a free port of either direction on every node");
    bfs(ctx, Bfs { name: "large-portgraph".into(), depth: 1, max_states: 20_000_000, bound: bound(a) }, large_starts::<PortGraph>(a, every));
    bfs(ctx, Bfs { name: "large-multi".into(), depth: 1, max_states: 20_000_000, bound: bound(b) }, large_starts::<MultiPortGraph>(b, every));
    let sizes: &[usize] = ctx.pick(&[5, 9, 16], &[5, 7, 8, 9, 12, 16, 17, 24]);
    large_views::<PortGraph>(ctx, "large-views", sizes);
    large_views::<MultiPortGraph>(ctx, "large-views-multi", sizes);
    let s = |max_links| RSys { gs: std::array::from_fn(|_| PortGraph::new()), max_nodes: 3, max_links, dead: false };
    bfs(ctx, Bfs { name: "portgraph".into(), depth: ctx.pick(7, 8), max_states: 20_000_000, bound: "<=3 nodes; every operation of PortMut and LinkMut, legal and refused, directly and through &mut and &mut &mut; all queries through &, &&, &mut".into() }, vec![("empty".into(), s(9))]);
    let s = |max_links| RSys { gs: std::array::from_fn(|_| MultiPortGraph::new()), max_nodes: 2, max_links, dead: false };
    bfs(ctx, Bfs { name: "multiportgraph".into(), depth: ctx.pick(7, 9), max_states: 20_000_000, bound: "<=2 nodes, <=3 links; every operation of PortMut, LinkMut and MultiMut, directly and through &mut and &mut &mut; all queries through &, &&, &mut".into() }, vec![("empty".into(), s(3))]);
    let s11 = |n: usize| vec![(1, 1); n];
    view_section::<PortGraph>(ctx, "views", "every graph on 3 nodes of shape (1,1)", singles(&s11(3), 3, true));
    view_section::<MultiPortGraph>(ctx, "views-multi", "every multigraph on 3 nodes of shape (1,1)", multis(&s11(3), ctx.pick(2, 3), true));
}
