//! Convexity checkers: C24 (topological), C25 (lines).

use crate::engine::*;
use crate::families::*;
use crate::gen::*;
use crate::viewcheck::*;
use crate::views::{cut_out, filtered, mask_of};
use crate::{ensure, ensure_eq};
use portgraph::algorithms::convex::{LineConvexChecker, LineIndex, LineInterval, LineIntervals, Position};
use portgraph::algorithms::{ConvexChecker, CreateConvexChecker, TopoConvexChecker};
use portgraph::boundary::{Boundary, HasBoundary};
use portgraph::view::{LinkView, PortView, Subgraph};
use portgraph::{MultiPortGraph, NodeIndex, PortGraph, PortIndex};
use std::collections::{BTreeMap, BTreeSet};

/// Node-level reachability of a view, nodes numbered in order of their index.
pub struct Rel {
    pub nodes: Vec<usize>,
    pub e: Vec<(usize, usize)>,
    pub r: Vec<Vec<bool>>,
}

pub fn rel(v: &RefView) -> Rel {
    let nodes: Vec<usize> = v.nodes.keys().copied().collect();
    let o = v.port_owner();
    let at = |p: usize| nodes.iter().position(|n| *n == o[&p].0).unwrap();
    let e: Vec<(usize, usize)> = v.links.iter().map(|(a, b)| (at(a.0), at(b.0))).collect();
    let r = reach(nodes.len(), &e);
    Rel { nodes, e, r }
}

impl Rel {
    pub fn acyclic(&self) -> bool {
        self.e.iter().all(|(a, b)| !self.r[*b][*a])
    }
    /// No node outside lies between two nodes of the set.
    pub fn convex(&self, s: u64) -> bool {
        let n = self.nodes.len();
        let ins = |k: usize| s >> k & 1 == 1;
        (0..n).all(|w| ins(w) || !((0..n).any(|a| ins(a) && self.r[a][w]) && (0..n).any(|b| ins(b) && self.r[w][b])))
    }
    fn list(&self, s: u64, rev: bool) -> Vec<NodeIndex> {
        let mut l: Vec<NodeIndex> = (0..self.nodes.len()).filter(|k| s >> k & 1 == 1).map(|k| ni(self.nodes[k])).collect();
        if rev {
            l.reverse();
        }
        l
    }
}

trait Checker<G>: CreateConvexChecker<G> {
    fn node_convex(&self, nodes: Vec<NodeIndex>) -> bool;
    /// Everything else that can be asked.
    fn extra(&self, _v: &RefView, _r: &Rel, _full: bool, _sets: &[u64]) -> Result<u64, String> {
        Ok(0)
    }
}
impl<G: LinkView> Checker<G> for TopoConvexChecker<G> {
    fn node_convex(&self, nodes: Vec<NodeIndex>) -> bool {
        self.is_node_convex(nodes)
    }
}
impl<G: LinkView> Checker<G> for LineConvexChecker<G> {
    fn node_convex(&self, nodes: Vec<NodeIndex>) -> bool {
        self.is_node_convex(nodes)
    }
    fn extra(&self, v: &RefView, r: &Rel, full: bool, sets: &[u64]) -> Result<u64, String> {
        check_lines(self, v, r, full, sets)
    }
}

/// Answers of one checker for every node set (and every choice of boundary
/// ports, if `ports`).
fn check_checker<G: LinkView, C: Checker<G>>(c: &C, v: &RefView, r: &Rel, ports: bool, full: bool) -> Result<u64, String> {
    check_sets(c, v, r, ports, full, &(0..1u64 << r.nodes.len()).collect::<Vec<_>>())
}

fn check_sets<G: LinkView, C: Checker<G>>(c: &C, v: &RefView, r: &Rel, ports: bool, full: bool, sets: &[u64]) -> Result<u64, String> {
    let mut steps = 0;
    let owner = v.port_owner();
    ensure!(c.graph().nodes_iter().count() == r.nodes.len(), "graph() shows a different number of nodes");
    for &s in sets {
        let want = r.convex(s);
        for rev in [false, true] {
            let l = r.list(s, rev);
            ensure_eq!(c.node_convex(l.clone()), want, "is_node_convex({l:?})");
            ensure_eq!(c.is_convex(l.clone(), [], []), want, "is_convex({l:?}) without boundary ports");
            steps += 2;
        }
        if !ports {
            continue;
        }
        let mine: Vec<usize> = owner.iter().filter(|(_, o)| r.list(s, false).contains(&ni(o.0))).map(|(p, _)| *p).collect();
        for b in 0..1u64 << mine.len() {
            let chosen = |d| mine.iter().enumerate().filter(|(k, p)| b >> k & 1 == 1 && owner[p].1 == d).map(|(_, p)| *p).collect::<Vec<usize>>();
            let (ins, outs) = (chosen(DIRS[0]), chosen(DIRS[1]));
            let edge = v.links.iter().any(|(x, y)| outs.contains(&x.0) && ins.contains(&y.0));
            let l = r.list(s, b % 2 == 1);
            let got = c.is_convex(l.clone(), ins.iter().map(|p| pi(*p)), outs.iter().map(|p| pi(*p)));
            ensure_eq!(got, want && !edge, "is_convex({l:?}, {ins:?}, {outs:?})");
            steps += 1;
        }
    }
    steps += check_subgraphs(c, v, r, ports, sets)?;
    Ok(steps + c.extra(v, r, full, sets)?)
}

/// The subgraph of every node set, and with `ports` the one cut out by every
/// choice of boundary ports, asked for its convexity.
fn check_subgraphs<G: LinkView, C: Checker<G>>(c: &C, v: &RefView, r: &Rel, ports: bool, sets: &[u64]) -> Result<u64, String> {
    let owner = v.port_owner();
    let g = c.graph();
    let mut steps = 0;
    let ask = |s: u64, sub: &Subgraph<&G>| -> Res {
        let ins: Vec<PortIndex> = sub.port_boundary().input_indices().to_vec();
        let outs: Vec<PortIndex> = sub.port_boundary().output_indices().to_vec();
        let edge = v.links.iter().any(|(x, y)| outs.contains(&pi(x.0)) && ins.contains(&pi(y.0)));
        let want = s.count_ones() < 2 || (r.convex(s) && !edge);
        ensure_eq!(sub.is_convex_with_checker(c), want, "is_convex_with_checker of the subgraph {:?} with the boundary {ins:?}, {outs:?}", r.list(s, false));
        ensure_eq!(sub.is_convex(), want, "is_convex of the subgraph {:?} with the boundary {ins:?}, {outs:?}", r.list(s, false));
        Ok(())
    };
    let every = if ports || r.nodes.len() <= 5 { 1 } else { 5 };
    for &s in sets.iter().step_by(every) {
        ask(s, &Subgraph::with_nodes(g, r.list(s, false)))?;
        steps += 2;
    }
    if ports {
        let all: Vec<usize> = owner.keys().copied().collect();
        for b in 0..1u64 << all.len() {
            let chosen: BTreeSet<usize> = all.iter().enumerate().filter(|(k, _)| b >> k & 1 == 1).map(|x| *x.1).collect();
            let (inside, _) = cut_out(v, &chosen);
            let sub = Subgraph::new_subgraph(g, Boundary::from_ports(g, chosen.iter().map(|p| pi(*p))));
            // Which nodes there are is the business of C16.
            if sub.nodes_iter().map(|n| n.index()).collect::<BTreeSet<_>>() == inside {
                ask((0..r.nodes.len()).filter(|k| inside.contains(&r.nodes[*k])).map(|k| 1 << k).sum(), &sub)?;
                steps += 2;
            }
        }
    }
    Ok(steps)
}

fn as_map(i: &LineIntervals) -> Result<BTreeMap<LineIndex, LineInterval>, String> {
    let m: BTreeMap<LineIndex, LineInterval> = i.iter().collect();
    ensure_eq!(m.len(), i.iter().count(), "distinct lines in {i:?}");
    ensure_eq!(m.is_empty(), i.is_empty(), "is_empty of {i:?}");
    ensure_eq!(i.values().count(), m.len(), "values of {i:?}");
    for (l, x) in &m {
        ensure_eq!(i.get(*l), Some(*x), "get({l:?})");
    }
    Ok(m)
}

fn check_lines<G: LinkView>(c: &LineConvexChecker<G>, v: &RefView, r: &Rel, full: bool, sets: &[u64]) -> Result<u64, String> {
    let n = r.nodes.len();
    let owner = v.port_owner();
    // The partition: read off the lines from the nodes.
    let mut lines: BTreeMap<LineIndex, Vec<(Position, usize)>> = BTreeMap::new();
    for k in 0..n {
        let node = ni(r.nodes[k]);
        ensure!(!c.get_lines(node).is_empty(), "node {k} is on no line");
        for l in c.get_lines(node) {
            lines.entry(*l).or_default().push((c.get_position(node), k));
        }
    }
    let mut links: BTreeMap<(usize, usize), i64> = BTreeMap::new();
    for e in &r.e {
        *links.entry(*e).or_default() += 1;
    }
    for (l, x) in lines.iter_mut() {
        x.sort();
        for w in x.windows(2) {
            ensure!(w[0].0 < w[1].0, "{l:?}: nodes {} and {} at the same position", w[0].1, w[1].1);
            *links.entry((w[0].1, w[1].1)).or_default() -= 1;
        }
    }
    ensure!(links.values().all(|x| *x == 0), "the lines do not partition the links: number of links not on a line, or steps of a line that are no link (negative): {links:?}");
    // Lines through a port.
    for p in owner.keys() {
        let l: BTreeSet<_> = c.lines_at_port(pi(*p)).iter().copied().collect();
        let mine = v.links.iter().filter(|(a, b)| a.0 == *p || b.0 == *p).count();
        ensure_eq!(c.lines_at_port(pi(*p)).len(), mine, "number of lines at port {p}");
        ensure_eq!(l.len(), mine, "number of distinct lines at port {p}");
    }
    // Every step of a line uses one link between the ports it passes.
    let mut used: BTreeMap<(usize, usize), usize> = BTreeMap::new();
    for (l, x) in &lines {
        for w in x.windows(2) {
            let at = |k: usize, d: usize| {
                let p: Vec<usize> = v.nodes[&r.nodes[k]][d].iter().copied().filter(|p| c.lines_at_port(pi(*p)).contains(l)).collect();
                if p.len() == 1 { Ok(p[0]) } else { Err(format!("{l:?} passes the {:?} ports {p:?} of node {k}", DIRS[d])) }
            };
            *used.entry((at(w[0].1, 1)?, at(w[1].1, 0)?)).or_default() += 1;
        }
    }
    let mut have: BTreeMap<(usize, usize), usize> = BTreeMap::new();
    for (a, b) in &v.links {
        *have.entry((a.0, b.0)).or_default() += 1;
    }
    ensure_eq!(used, have, "links used by the lines, by ports");
    // Intervals of node sets.
    let expect = |s: u64| -> Option<BTreeMap<LineIndex, LineInterval>> {
        let mut m = BTreeMap::new();
        for (l, x) in &lines {
            let at: Vec<usize> = (0..x.len()).filter(|i| s >> x[*i].1 & 1 == 1).collect();
            if let (Some(a), Some(b)) = (at.first(), at.last()) {
                if b - a + 1 != at.len() {
                    return None;
                }
                m.insert(*l, LineInterval { min: x[*a].0, max: x[*b].0 });
            }
        }
        Some(m)
    };
    let mut steps = lines.len() as u64;
    for &s in sets {
        if n > 8 {
            heartbeat();
        }
        let want = expect(s);
        let got = c.get_intervals_from_nodes(r.list(s, s % 3 == 0));
        let gm = got.as_ref().map(as_map).transpose()?;
        ensure_eq!(gm, want, "get_intervals_from_nodes({:?})", r.list(s, false));
        steps += 1;
        let Some(i) = got else { continue };
        ensure_eq!(c.is_convex_by_intervals(&i), r.convex(s), "is_convex_by_intervals for the nodes {:?}", r.list(s, false));
        let back: Vec<NodeIndex> = c.nodes_in_intervals(&i).collect();
        ensure!(same_multiset(&back, &r.list(s, false)), "nodes_in_intervals gives {back:?} for the nodes {:?}", r.list(s, false));
        ensure!(back.windows(2).all(|w| c.get_position(w[0]) <= c.get_position(w[1])), "nodes_in_intervals is not ordered by position: {back:?}");
        // Add one node.
        for k in 0..n {
            let mut j = i.clone();
            let ok = c.try_extend_intervals(&mut j, ni(r.nodes[k]));
            let t = s | 1 << k;
            let w = expect(t);
            ensure_eq!(ok, w.is_some(), "try_extend_intervals of the nodes {:?} by node {:?}", r.list(s, false), r.nodes[k]);
            match w {
                Some(w) => {
                    ensure_eq!(as_map(&j)?, w, "intervals of {:?} extended by {:?}", r.list(s, false), r.nodes[k]);
                    ensure_eq!(c.is_convex_by_intervals(&j), r.convex(t), "is_convex_by_intervals for the nodes {:?} extended by {:?}", r.list(s, false), r.nodes[k]);
                }
                None => ensure_eq!(as_map(&j)?, as_map(&i)?, "intervals after try_extend_intervals failed"),
            }
            steps += 2;
        }
    }
    if full && owner.len() <= 8 {
        // Node sets given by their boundary.
        for b in 0..1u64 << owner.len() {
            let ports: BTreeSet<usize> = owner.keys().copied().enumerate().filter(|(k, _)| b >> k & 1 == 1).map(|x| x.1).collect();
            let (inside, ok) = cut_out(v, &ports);
            if !ok {
                continue;
            }
            let s: u64 = (0..n).filter(|k| inside.contains(&r.nodes[*k])).map(|k| 1 << k).sum();
            let want = expect(s);
            let got = c.get_intervals_from_boundary_ports(ports.iter().map(|p| pi(*p)));
            ensure_eq!(got.as_ref().map(as_map).transpose()?, want, "get_intervals_from_boundary_ports({ports:?})");
            let bd = Boundary::from_ports(c.graph(), ports.iter().map(|p| pi(*p)));
            let got = c.get_intervals_from_boundary(&bd);
            ensure_eq!(got.as_ref().map(as_map).transpose()?, want, "get_intervals_from_boundary({ports:?})");
            if let Some(i) = got {
                ensure_eq!(c.is_convex_by_intervals(&i), r.convex(s), "is_convex_by_intervals for the boundary {ports:?}");
            }
            steps += 2;
        }
    }
    Ok(steps)
}

#[derive(Clone, Copy, PartialEq)]
enum Which {
    Topo,
    Line,
}

fn dag_case<G: TG>(w: Which, spec: &Spec, ports: bool) -> Result<Tally, String> {
    let b: Built<G> = build(spec)?;
    let r = rel(&b.view);
    if !r.acyclic() {
        return Ok(Tally { steps: 0, outcome: 0 });
    }
    let mut steps = match w {
        Which::Topo => check_checker(&TopoConvexChecker::new(&b.g), &b.view, &r, ports, true)?,
        Which::Line => {
            let mut c = LineConvexChecker::new(&b.g);
            let x = check_checker(&c, &b.view, &r, ports, true)?;
            c.shrink_to_fit();
            let again = c.clone();
            ensure!(again == c, "a clone differs");
            x
        }
    };
    if r.nodes.len() <= 4 {
        // By value, and on every induced subgraph.
        steps += match w {
            Which::Topo => check_checker(&<TopoConvexChecker<G> as CreateConvexChecker<G>>::new_convex_checker(b.g.clone()), &b.view, &r, false, false)?,
            Which::Line => check_checker(&<LineConvexChecker<G> as CreateConvexChecker<G>>::new_convex_checker(b.g.clone()), &b.view, &r, false, false)?,
        };
        for m in 0..1u64 << r.nodes.len() {
            let l = r.list(m, false);
            let v = restrict(&b.view, |n| l.contains(&ni(n)), |_| true);
            let s = Subgraph::with_nodes(&b.g, l.iter().copied());
            let rr = rel(&v);
            let what = |e| format!("in the subgraph {l:?}: {e}");
            steps += match w {
                Which::Topo => check_checker(&TopoConvexChecker::new(&s), &v, &rr, false, false).map_err(what)?,
                Which::Line => check_checker(&LineConvexChecker::new(&s), &v, &rr, false, false).map_err(what)?,
            };
        }
    }
    Ok(Tally { steps, outcome: outcome_of(&(&r.nodes, &r.e)) })
}

fn dag_section<G: TG>(ctx: &mut Ctx, w: Which, name: &str, bound: &str, specs: Vec<Spec>, ports: bool) {
    let specs: Vec<Spec> = specs.into_iter().filter(|s| s.acyclic()).collect();
    cases(ctx, name, &format!("{bound}: {} acyclic graphs, every node set{}", specs.len(), if ports { " and choice of boundary ports" } else { "" }), specs.len() as u64,
        |i| format!("{:?}", specs[i as usize]),
        |i| dag_case::<G>(w, &specs[i as usize], ports));
}

/// Every acyclic graph without parallel links on n nodes whose links follow
/// one of three numberings.
pub fn dags(n: usize, multi: bool, i: u64) -> Spec {
    let shape = if multi { (1, 1) } else { (n, n) };
    let perm: Vec<usize> = match i % 3 {
        0 => (0..n).collect(),
        1 => (0..n).rev().collect(),
        _ => (0..n).map(|k| (k * 2 + 1) % n | 0).collect::<Vec<_>>(),
    };
    let perm = if perm.iter().collect::<BTreeSet<_>>().len() == n { perm } else { (0..n).map(|k| if k % 2 == 0 { k / 2 } else { n - 1 - k / 2 }).collect() };
    let bits = i / 3;
    let mut links = vec![];
    let mut e = 0;
    for a in 0..n {
        for b in a + 1..n {
            if bits >> e & 1 == 1 {
                let (x, y) = (perm[a], perm[b]);
                links.push(if multi { (x, y) } else { (x * n + y, y * n + x) });
            }
            e += 1;
        }
    }
    Spec { shapes: vec![shape; n], links, holes: bits % 2 == 1 }
}

fn all_dags<G: TG>(ctx: &mut Ctx, w: Which, n: usize) {
    let total = 3 << (n * (n - 1) / 2);
    cases(ctx, &format!("{}-dags-{n}", if G::MULTI { "multi" } else { "portgraph" }), &format!("every directed acyclic graph on {n} nodes in three numberings, every node set"), total,
        |i| format!("{:?}", dags(n, G::MULTI, i)), |i| dag_case::<G>(w, &dags(n, G::MULTI, i), false));
}

/// A line of k nodes; between consecutive nodes runs a second path that is
/// `gaps[i]` nodes long, so that positions on the line are uneven.
fn stretched(gaps: &[usize]) -> (Spec, Vec<usize>) {
    let k = gaps.len() + 1;
    let mut shapes = vec![(2, 2); k];
    shapes.extend(vec![(1, 1); gaps.iter().sum()]);
    let main_out = |n: usize, o: usize| 2 * n + o;
    let mut links = vec![];
    let mut next = 0;
    for (i, g) in gaps.iter().enumerate() {
        links.push((main_out(i, 0), main_out(i + 1, 0)));
        let mut from = main_out(i, 1);
        for _ in 0..*g {
            links.push((from, 2 * k + next));
            from = 2 * k + next;
            next += 1;
        }
        if *g > 0 {
            links.push((from, main_out(i + 1, 1)));
        }
    }
    (Spec { shapes, links, holes: false }, (0..k).collect())
}

fn stretched_case(w: Which, gaps: &[usize]) -> Result<Tally, String> {
    let (spec, main) = stretched(gaps);
    let b: Built<PortGraph> = build(&spec)?;
    let r = rel(&b.view);
    ensure!(r.acyclic(), "harness: cyclic");
    let line = LineConvexChecker::new(&b.g);
    let topo = TopoConvexChecker::new(&b.g);
    let mut steps = 0;
    let total = r.nodes.len();
    for s in 0..1u64 << main.len() {
        // the chosen line nodes, without or with all the nodes of the second
        // paths between them
        for with in [false, true] {
            let mut set = s;
            if with {
                let mut at = main.len();
                for (i, g) in gaps.iter().enumerate() {
                    if s >> i & 3 == 3 {
                        for x in at..at + g {
                            set |= 1 << x;
                        }
                    }
                    at += g;
                }
            }
            let l = r.list(set, s % 2 == 1);
            let want = r.convex(set);
            steps += 1;
            match w {
                Which::Topo => ensure_eq!(topo.is_node_convex(l.clone()), want, "is_node_convex({l:?})"),
                Which::Line => {
                    ensure_eq!(line.is_node_convex(l.clone()), want, "is_node_convex({l:?})");
                    let Some(i) = line.get_intervals_from_nodes(l.iter().copied()) else {
                        ensure!(!want, "no intervals for the convex set {l:?}");
                        continue;
                    };
                    ensure!(same_multiset(&line.nodes_in_intervals(&i).collect::<Vec<_>>(), &l), "nodes_in_intervals for {l:?}");
                    for k in 0..total {
                        let mut j = i.clone();
                        let ok = line.try_extend_intervals(&mut j, ni(r.nodes[k]));
                        let t = set | 1 << k;
                        ensure_eq!(ok, line.get_intervals_from_nodes(r.list(t, false)).is_some(), "try_extend_intervals of {l:?} by {k}");
                        if ok {
                            ensure_eq!(line.is_convex_by_intervals(&j), r.convex(t), "is_convex_by_intervals of {l:?} and {k}");
                        }
                    }
                }
            }
        }
    }
    Ok(Tally { steps, outcome: outcome_of(&gaps) })
}

/// Node sets of a larger graph: those of `node_sets`, runs of a topological
/// order, everything between two nodes, and the latter with one node more or
/// less.
pub fn large_sets(r: &Rel) -> Vec<u64> {
    let n = r.nodes.len();
    let bits = |s: &[usize]| s.iter().map(|k| 1u64 << k).sum::<u64>();
    let mut v: BTreeSet<u64> = node_sets(n, true).iter().map(|s| bits(s)).collect();
    let mut order: Vec<usize> = (0..n).collect();
    order.sort_by_key(|k| (0..n).filter(|x| r.r[*x][*k]).count());
    for a in 0..n {
        for b in a + 1..n {
            v.insert(bits(&order[a..=b]));
            let (x, y) = (order[a], order[b]);
            let between = bits(&(0..n).filter(|k| r.r[x][*k] && r.r[*k][y]).collect::<Vec<_>>());
            v.insert(between);
            v.insert(between ^ 1 << order[(a + b) / 2]);
            v.insert(between ^ 1 << order[(a * 3 + b * 5) % n]);
            // two of them at once
            let z = order[(b + 1) % n];
            v.insert(between | bits(&(0..n).filter(|k| r.r[y][*k] && r.r[*k][z]).collect::<Vec<_>>()) | 1 << z);
        }
    }
    v.into_iter().collect()
}

fn large_case<G: TG>(w: Which, spec: &Spec) -> Result<Tally, String> {
    let b: Built<G> = build(spec)?;
    let r = rel(&b.view);
    ensure!(r.acyclic(), "harness: cyclic");
    let sets = large_sets(&r);
    let mut steps = match w {
        Which::Topo => check_sets(&TopoConvexChecker::new(&b.g), &b.view, &r, false, true, &sets)?,
        Which::Line => check_sets(&LineConvexChecker::new(&b.g), &b.view, &r, false, true, &sets)?,
    };
    // A part of the graph.
    let n = r.nodes.len();
    for s in [(1..n - 1).collect::<Vec<_>>(), (0..n).step_by(2).collect(), (n / 2..n).collect()] {
        let l: Vec<NodeIndex> = s.iter().map(|k| ni(r.nodes[*k])).collect();
        let v = restrict(&b.view, |n| l.contains(&ni(n)), |_| true);
        let sub = Subgraph::with_nodes(&b.g, l.iter().copied());
        let rr = rel(&v);
        let few: Vec<u64> = large_sets(&rr).into_iter().step_by(7).collect();
        let what = |e| format!("in the subgraph {l:?}: {e}");
        steps += match w {
            Which::Topo => check_sets(&TopoConvexChecker::new(&sub), &v, &rr, false, false, &few).map_err(what)?,
            Which::Line => check_sets(&LineConvexChecker::new(&sub), &v, &rr, false, false, &few).map_err(what)?,
        };
    }
    Ok(Tally { steps, outcome: outcome_of(&b.view) })
}

fn convexity(ctx: &mut Ctx, w: Which) {
    let c = Choice { sizes: if ctx.quick() { &[7, 8, 9, 10, 12, 16, 17, 24, 33, 60] } else { &[7, 8, 9, 10, 12, 15, 16, 17, 18, 24, 33, 48, 60] }, cyclic: false, drop: ctx.pick(12, 33) };
    let (x, y) = (members::<PortGraph>(&c), members::<MultiPortGraph>(&c));
    let what = "node sets: single nodes, pairs, all but one, runs of a topological order, everything between two nodes with one more or less; also within subgraphs";
    cases(ctx, "large-portgraph", &describe(what, &x), x.len() as u64, |i| x[i as usize].0.clone(), |i| large_case::<PortGraph>(w, &x[i as usize].1));
    cases(ctx, "large-multi", &describe(what, &y), y.len() as u64, |i| y[i as usize].0.clone(), |i| large_case::<MultiPortGraph>(w, &y[i as usize].1));
    dag_section::<PortGraph>(ctx, w, "portgraph-ports", "graphs on 3 nodes of shapes (1,1),(2,1),(1,2)", singles(&[(1, 1), (2, 1), (1, 2)], 9, true), true);
    dag_section::<MultiPortGraph>(ctx, w, "multi-ports", "multigraphs on 3 nodes of shape (1,1)", multis(&[(1, 1); 3], ctx.pick(4, 6), true), true);
    dag_section::<MultiPortGraph>(ctx, w, "multi-ports-wide", "multigraphs on 3 nodes of shapes (0,2),(1,1),(2,0)", multis(&[(0, 2), (1, 1), (2, 0)], ctx.pick(4, 6), true), true);
    dag_section::<PortGraph>(ctx, w, "portgraph-4", "graphs on 4 nodes of shapes (1,2),(2,1),(1,1),(2,2)", singles(&[(1, 2), (2, 1), (1, 1), (2, 2)], 9, false), false);
    dag_section::<MultiPortGraph>(ctx, w, "multi-4", "multigraphs on 4 nodes of shape (1,1)", multis(&[(1, 1); 4], ctx.pick(4, 6), true), false);
    for n in 2..=5 {
        all_dags::<PortGraph>(ctx, w, n);
        all_dags::<MultiPortGraph>(ctx, w, n);
    }
    all_dags::<PortGraph>(ctx, w, 6);
    all_dags::<MultiPortGraph>(ctx, w, 6);
    if !ctx.quick() && w == Which::Topo {
        all_dags::<PortGraph>(ctx, w, 7);
    }
    let (k, g) = ctx.pick((6u32, [0usize, 1, 4]), (8, [0, 1, 4]));
    cases(ctx, "stretched", &format!("a line of {} nodes with gaps of 0, 1 or 4 positions, every set of line nodes and every one-node extension", k + 1), 3u64.pow(k),
        |i| format!("{:?}", (0..k).map(|j| g[(i / 3u64.pow(j) % 3) as usize]).collect::<Vec<_>>()),
        |i| stretched_case(w, &(0..k).map(|j| g[(i / 3u64.pow(j) % 3) as usize]).collect::<Vec<_>>()));
    // More lines than are stored inline.
    let star = |a: usize, b: usize, holes| Spec { shapes: vec![(0, a), (a, b), (b, 0), (0, 0)], links: (0..a + b).map(|k| (k, k)).collect(), holes };
    let specs: Vec<Spec> = (0..=ctx.pick(6, 12)).flat_map(|a| (0..=12).map(move |b| star(a, b, a % 2 == 0))).collect();
    dag_section::<PortGraph>(ctx, w, "wide", "three nodes joined by up to 12 parallel links", specs, false);
}

pub fn c24(ctx: &mut Ctx) {
    convexity(ctx, Which::Topo);
}
pub fn c25(ctx: &mut Ctx) {
    convexity(ctx, Which::Line);
}
