//! Boundaries and their port orderings (C19).

use crate::engine::*;
use crate::families::*;
use crate::gen::*;
use crate::viewcheck::*;
use crate::views::cut_out;
use crate::{ensure, ensure_eq};
use portgraph::boundary::{Boundary, BoundaryPort, HasBoundary, PortOrdering};
use portgraph::view::{LinkView, PortView, Subgraph};
use portgraph::{Direction, MultiPortGraph, NodeIndex, PortGraph, PortIndex};
use std::collections::{BTreeMap, BTreeSet};

type Pairs = BTreeSet<(usize, usize)>;

/// Which inputs reach which outputs, by position in the boundary; `None` if the
/// inside has a cycle.
fn pairs(v: &RefView, inside: &BTreeSet<usize>, cut: &BTreeSet<usize>, ins: &[usize], outs: &[usize]) -> Option<Pairs> {
    let o = v.port_owner();
    let pos: BTreeMap<usize, usize> = v.nodes.keys().enumerate().map(|(k, n)| (*n, k)).collect();
    let e: Vec<(usize, usize)> = v
        .links
        .iter()
        .filter(|(a, b)| !cut.contains(&a.0) && !cut.contains(&b.0))
        .map(|(a, b)| (o[&a.0].0, o[&b.0].0))
        .filter(|(a, b)| inside.contains(a) && inside.contains(b))
        .map(|(a, b)| (pos[&a], pos[&b]))
        .collect();
    let r = reach(pos.len(), &e);
    if e.iter().any(|(a, b)| r[*b][*a]) {
        return None;
    }
    Some(ins.iter().enumerate().flat_map(|(i, p)| outs.iter().enumerate().filter(|(_, q)| r[pos[&o[p].0]][pos[&o[q].0]]).map(move |(j, _)| (i, j)).collect::<Vec<_>>()).collect())
}

fn check_ordering(bd: &Boundary, ord: &PortOrdering, want: &Pairs) -> Res {
    let ins: Vec<BoundaryPort> = bd.inputs().collect();
    let outs: Vec<BoundaryPort> = bd.outputs().collect();
    let mut got = Pairs::new();
    for (i, p) in ins.iter().enumerate() {
        for q in ord.reachable_ports(*p) {
            got.insert((i, outs.iter().position(|x| x == q).ok_or("reachable_ports names a port that is not an output of the boundary")?));
        }
    }
    ensure_eq!(got, *want, "pairs of reachable_ports");
    let mut got = Pairs::new();
    for (j, q) in outs.iter().enumerate() {
        for p in ord.reaching_ports(*q) {
            got.insert((ins.iter().position(|x| x == p).ok_or("reaching_ports names a port that is not an input of the boundary")?, j));
        }
    }
    ensure_eq!(got, *want, "pairs of reaching_ports");
    Ok(())
}

fn check_lists<G: TG>(g: &G, bd: &Boundary, ins: &[usize], outs: &[usize]) -> Res {
    let (pin, pout): (Vec<PortIndex>, Vec<PortIndex>) = (ins.iter().map(|p| pi(*p)).collect(), outs.iter().map(|p| pi(*p)).collect());
    ensure_eq!(bd.num_ports(), ins.len() + outs.len(), "num_ports");
    ensure_eq!(bd.input_indices(), &pin[..], "input_indices");
    ensure_eq!(bd.output_indices(), &pout[..], "output_indices");
    ensure_eq!(bd.port_indices().collect::<Vec<_>>(), [&pin[..], &pout[..]].concat(), "port_indices");
    let (a, b): (Vec<BoundaryPort>, Vec<BoundaryPort>) = (bd.inputs().collect(), bd.outputs().collect());
    ensure_eq!(bd.ports(Direction::Incoming).collect::<Vec<_>>(), a, "ports(Incoming)");
    ensure_eq!(bd.ports(Direction::Outgoing).collect::<Vec<_>>(), b, "ports(Outgoing)");
    ensure_eq!(a.iter().chain(&b).collect::<BTreeSet<_>>().len(), bd.num_ports(), "distinct boundary ports");
    for (list, ports, dir) in [(&a, &pin, Direction::Incoming), (&b, &pout, Direction::Outgoing)] {
        ensure_eq!(list.iter().map(|p| bd.port_index(p)).collect::<Vec<_>>(), *ports, "port_index ({dir:?})");
        for (x, p) in list.iter().zip(ports) {
            ensure_eq!(bd.find_port(*p, dir), *x, "find_port({p:?},{dir:?})");
            ensure_eq!(g.port_direction(*p), Some(dir), "direction of {p:?}");
        }
    }
    Ok(())
}

fn order_case<G: TG>(spec: &Spec, bits: u64) -> Result<Tally, String> {
    let b: Built<G> = build(spec)?;
    let ports: Vec<usize> = b.view.port_owner().keys().copied().enumerate().filter(|(k, _)| bits >> k & 1 == 1).map(|x| x.1).collect();
    order_ports(&b, ports)
}

/// A larger graph with free ports on every node: the boundaries of many node
/// sets, with and without the free ports.
fn order_large<G: TG>(spec: &Spec) -> Result<Tally, String> {
    let spec = opened(spec);
    let b: Built<G> = build(&spec)?;
    let n = b.nodes.len();
    let owner = b.view.port_owner();
    let linked: BTreeSet<usize> = b.view.links.iter().flat_map(|l| [l.0 .0, l.1 .0]).collect();
    let free: Vec<usize> = owner.keys().copied().filter(|p| !linked.contains(p)).collect();
    let mut steps = order_ports(&b, free.clone())?.steps;
    steps += order_ports(&b, free.iter().copied().filter(|p| owner[p].1 == Direction::Incoming).collect())?.steps;
    steps += order_ports(&b, free.iter().copied().filter(|p| owner[p].1 == Direction::Outgoing).take(n / 2).collect())?.steps;
    for s in node_sets(n, n <= 9) {
        heartbeat();
        let inside: BTreeSet<usize> = s.iter().map(|k| b.nodes[*k]).collect();
        let cut: BTreeSet<usize> = b.view.links.iter().filter(|(x, y)| inside.contains(&owner[&x.0].0) != inside.contains(&owner[&y.0].0)).map(|(x, y)| if inside.contains(&owner[&x.0].0) { x.0 } else { y.0 }).collect();
        steps += order_ports(&b, cut.iter().copied().collect())?.steps;
        let own = free.iter().copied().filter(|p| inside.contains(&owner[p].0));
        steps += order_ports(&b, cut.iter().copied().chain(own).collect())?.steps;
    }
    Ok(Tally { steps, outcome: outcome_of(&b.view) })
}

fn order_ports<G: TG>(b: &Built<G>, mut ports: Vec<usize>) -> Result<Tally, String> {
    let owner = b.view.port_owner();
    let set: BTreeSet<usize> = ports.iter().copied().collect();
    let (inside, ok) = cut_out(&b.view, &set);
    if !ok {
        return Ok(Tally { steps: 0, outcome: 0 });
    }
    let mut steps = 0;
    let mut outcome = 0;
    for turn in 0..2 {
        if turn == 1 {
            ports.reverse();
        }
        let side = |d| ports.iter().copied().filter(|p| owner[p].1 == d).collect::<Vec<_>>();
        let (ins, outs) = (side(DIRS[0]), side(DIRS[1]));
        let bd = Boundary::from_ports(&b.g, ports.iter().map(|p| pi(*p)));
        let what = |e: String| format!("boundary {ins:?} -> {outs:?}: {e}");
        check_lists(&b.g, &bd, &ins, &outs).map_err(what)?;
        let other = Boundary::new(ins.iter().map(|p| pi(*p)), outs.iter().map(|p| pi(*p)));
        ensure!(bd == other, "from_ports and new differ for the boundary {ins:?} -> {outs:?}");
        let Some(want) = pairs(&b.view, &inside, &set, &ins, &outs) else {
            return Ok(Tally { steps: 0, outcome: 0 });
        };
        outcome = outcome_of(&(&want, ins.len(), outs.len()));
        steps += 3;
        check_ordering(&bd, &bd.port_ordering(&b.g), &want).map_err(|e| what(format!("in the graph: {e}")))?;
        let s = Subgraph::new_subgraph(&b.g, bd.clone());
        check_ordering(&bd, &bd.port_ordering(&s), &want).map_err(|e| what(format!("in the subgraph: {e}")))?;
        let cutting = restrict(&b.view, |_| true, |l| !set.contains(&l.0 .0) && !set.contains(&l.1 .0));
        if cutting.links.len() == b.view.links.len() {
            continue;
        }
        // The subgraph of the same nodes, with its own boundary.
        let s = Subgraph::with_nodes(&b.g, inside.iter().map(|n| ni(*n)));
        let own = s.port_boundary().into_owned();
        let list = |p: &[PortIndex]| p.iter().map(|p| p.index()).collect::<Vec<_>>();
        let (oi, oo) = (list(own.input_indices()), list(own.output_indices()));
        let oset: BTreeSet<usize> = oi.iter().chain(&oo).copied().collect();
        if !cut_out(&b.view, &oset).1 {
            continue;
        }
        check_lists(&b.g, &own, &oi, &oo).map_err(what)?;
        let Some(w) = pairs(&b.view, &inside, &oset, &oi, &oo) else { continue };
        check_ordering(&own, &own.port_ordering(&s), &w).map_err(|e| format!("boundary {oi:?} -> {oo:?} of the nodes {inside:?}: {e}"))?;
        steps += 1;
    }
    Ok(Tally { steps, outcome })
}

fn order_section<G: TG>(ctx: &mut Ctx, name: &str, bound: &str, specs: Vec<Spec>) {
    let (o, i) = count(&specs[0].shapes);
    let p = 1u64 << (o + i);
    cases(ctx, name, &format!("{bound}; {} graphs x every well-formed boundary around an acyclic inside, in two orders, traversed in the whole graph and in the subgraph", specs.len()), specs.len() as u64 * p,
        |i| format!("{:?} boundary {:#b}", specs[(i / p) as usize], i % p),
        |i| order_case::<G>(&specs[(i / p) as usize], i % p));
}

/// Compare the orderings of all pairs of compatible boundaries.
fn compare_section(ctx: &mut Ctx, specs: Vec<Spec>) {
    let mut all = vec![];
    let mut err = None;
    for s in &specs {
        let b: Built<PortGraph> = match guarded(|| build(s)) {
            Ok(b) => b,
            Err(e) => {
                err = Some(e);
                continue;
            }
        };
        let n = b.view.port_owner().len();
        for bits in 0..1u64 << n {
            let ports: BTreeSet<usize> = b.view.port_owner().keys().copied().enumerate().filter(|(k, _)| bits >> k & 1 == 1).map(|x| x.1).collect();
            let (inside, ok) = cut_out(&b.view, &ports);
            let o = b.view.port_owner();
            let side = |d| ports.iter().copied().filter(|p| o[p].1 == d).collect::<Vec<_>>();
            let (ins, outs) = (side(DIRS[0]), side(DIRS[1]));
            if !ok {
                continue;
            }
            if let Some(w) = pairs(&b.view, &inside, &ports, &ins, &outs) {
                all.push((b.clone(), Boundary::new(ins.iter().map(|p| pi(*p)), outs.iter().map(|p| pi(*p))), (ins.len(), outs.len()), w));
            }
        }
    }
    let n = all.len() as u64;
    cases(ctx, "compare", &format!("every pair out of {n} boundaries of graphs on 2 nodes of shapes (2,1),(1,2)"), n * n,
        |i| format!("{:?} and {:?}", all[(i / n) as usize].1, all[(i % n) as usize].1),
        |i| {
            if let Some(e) = &err {
                return Err(e.clone());
            }
            let (x, y) = (&all[(i / n) as usize], &all[(i % n) as usize]);
            let ok = x.2 == y.2;
            ensure_eq!(x.1.is_compatible(&y.1), ok, "is_compatible");
            if !ok {
                return Ok(Tally { steps: 1, outcome: 0 });
            }
            let stronger = y.3.is_subset(&x.3);
            let (a, b) = (x.1.port_ordering(&x.0.g), y.1.port_ordering(&y.0.g));
            ensure_eq!(a.is_stronger_than(&b), stronger, "is_stronger_than ({:?}, {:?})", x.3, y.3);
            ensure_eq!(x.1.is_stronger_than(&y.1, &x.0.g, &y.0.g), stronger, "Boundary::is_stronger_than");
            let (ins, outs): (Vec<_>, Vec<_>) = (x.1.inputs().collect(), x.1.outputs().collect());
            let miss: Vec<(usize, usize)> = a.missing_pairs(&b).map(|(p, q)| (ins.iter().position(|z| *z == p).unwrap(), outs.iter().position(|z| *z == q).unwrap())).collect();
            let want: Vec<(usize, usize)> = y.3.difference(&x.3).copied().collect();
            ensure!(same_multiset(&miss, &want), "missing_pairs: {miss:?}, expected {want:?}");
            Ok(Tally { steps: 4, outcome: outcome_of(&(&x.3, &y.3)) })
        });
}

pub fn c19(ctx: &mut Ctx) {
    order_section::<PortGraph>(ctx, "portgraph-3", "every graph on 3 nodes of shapes (1,1),(2,1),(1,2)", singles(&[(1, 1), (2, 1), (1, 2)], 9, true));
    order_section::<PortGraph>(ctx, "portgraph-4", "every graph on 4 nodes of shapes (0,1),(1,1),(2,1),(1,2)", singles(&[(0, 1), (1, 1), (2, 1), (1, 2)], 9, false));
    order_section::<MultiPortGraph>(ctx, "multi-3", "every multigraph on 3 nodes of shape (1,1)", multis(&[(1, 1); 3], ctx.pick(6, 7), true));
    order_section::<MultiPortGraph>(ctx, "multi-4", "every multigraph on 4 nodes of shape (1,1)", multis(&[(1, 1); 4], ctx.pick(5, 6), false));
    let c = Choice { sizes: if ctx.quick() { &[7, 8, 9, 16, 17, 24] } else { &[6, 7, 8, 9, 10, 12, 15, 16, 17, 18, 24, 31, 32, 33, 34, 48, 65, 70] }, cyclic: true, drop: ctx.pick(9, 24) };
    let (x, y) = (members::<PortGraph>(&c), members::<MultiPortGraph>(&c));
    let what = "with free ports on every node; boundaries of node sets that are empty, full, single nodes, all but one, first and last parts, with and without the free ports, in two orders";
    cases(ctx, "large-portgraph", &describe(what, &x), x.len() as u64, |i| x[i as usize].0.clone(), |i| order_large::<PortGraph>(&x[i as usize].1));
    cases(ctx, "large-multi", &describe(what, &y), y.len() as u64, |i| y[i as usize].0.clone(), |i| order_large::<MultiPortGraph>(&y[i as usize].1));
    compare_section(ctx, singles(&[(2, 1), (1, 2)], 9, true));
    order_section::<PortGraph>(ctx, "portgraph-5", "every graph on 5 nodes of shapes (0,1),(1,1),(2,1),(1,2),(1,0)", singles(&[(0, 1), (1, 1), (2, 1), (1, 2), (1, 0)], 5, false));
    if !ctx.quick() {
        order_section::<PortGraph>(ctx, "portgraph-5-wide", "every graph on 5 nodes of shapes (0,1),(1,1),(2,1),(1,2),(1,1)", singles(&[(0, 1), (1, 1), (2, 1), (1, 2), (1, 1)], 5, false));
    }
}
