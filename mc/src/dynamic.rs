//! C26: the dynamic convexity checker, driven through every short history of
//! edits in lockstep with a plain graph that receives the same edits.

use crate::convex::{dags, large_sets, rel, Rel};
use crate::copy::observe;
use crate::engine::*;
use crate::families::*;
use crate::gen::*;
use crate::viewcheck::*;
use crate::{ensure, ensure_eq};
use portgraph::algorithms::{ConvexChecker, DynamicTopoConvexChecker};
use portgraph::boundary::HasBoundary;
use portgraph::view::{LinkMut, LinkView, PortMut, PortView, Subgraph};
use portgraph::{MultiPortGraph, NodeIndex, PortGraph, PortIndex};

type Dyn<G> = DynamicTopoConvexChecker<G>;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Nop,
    /// Link the first free output of one node to the first free input of the
    /// other (multigraphs: the first ones). `true`: input port given first.
    Link(usize, usize, bool),
    /// Link output and input of these offsets, free or not.
    LinkAt(usize, usize, usize, usize),
    /// Two ports in the same direction.
    Same(usize, usize),
    /// Ports that do not exist.
    NoPort,
    /// Unlink the first linked port in this direction.
    Unlink(usize, usize),
    Add(usize, usize),
    Remove(usize),
    Swap(usize, usize),
    Ports(usize, usize, usize),
    CompactNodes,
    CompactPorts,
    Clear,
    Shrink,
    /// Insert a copy of a two-node graph with a link.
    Insert,
}

/// What an edit did, as seen from outside.
type Ans = String;

fn port<G: TG>(g: &G, n: usize, d: usize, linked: Option<bool>) -> Option<PortIndex> {
    if !g.contains_node(ni(n)) {
        return None;
    }
    g.ports(ni(n), DIRS[d]).find(|p| match linked {
        None => true,
        Some(x) => g.port_links(*p).next().is_some() == x,
    })
}

/// The ports an operation links, if there are any.
fn link_ports<G: TG>(g: &G, op: Op) -> Option<(PortIndex, PortIndex)> {
    match op {
        Op::Link(a, b, rev) => {
            let free = if G::MULTI { None } else { Some(false) };
            let (x, y) = (port(g, a, 1, free)?, port(g, b, 0, free)?);
            Some(if rev { (y, x) } else { (x, y) })
        }
        Op::LinkAt(a, x, b, y) if g.contains_node(ni(a)) && g.contains_node(ni(b)) => Some((g.output(ni(a), x)?, g.input(ni(b), y)?)),
        Op::Same(n, d) => Some((port(g, n, d, None)?, port(g, n, d, None)?)),
        Op::NoPort => Some((pi(40), pi(41))),
        _ => None,
    }
}

/// Perform an edit other than linking.
fn edit<H: LinkMut<LinkEndpoint: EpKey>>(h: &mut H, op: Op, at: Option<PortIndex>) -> Ans {
    match op {
        Op::Unlink(..) => match at {
            Some(p) => format!("{:?}", h.unlink_port(p).map(|e| e.ep())),
            None => String::new(),
        },
        Op::Add(i, o) => format!("{:?}", h.add_node(i, o)),
        Op::Remove(n) => {
            h.remove_node(ni(n));
            String::new()
        }
        Op::Swap(a, b) => {
            h.swap_nodes(ni(a), ni(b));
            String::new()
        }
        Op::Ports(n, i, o) => {
            let mut log = vec![];
            h.set_num_ports(ni(n), i, o, |p, x| log.push(format!("{p:?} {x:?}")));
            format!("{log:?}")
        }
        Op::CompactNodes => {
            let mut log = vec![];
            h.compact_nodes(|a, b| log.push((a, b)));
            format!("{log:?}")
        }
        Op::CompactPorts => {
            let mut log = vec![];
            h.compact_ports(|a, b| log.push((a, b)));
            format!("{log:?}")
        }
        Op::Clear => {
            h.clear();
            String::new()
        }
        Op::Shrink => {
            h.shrink_to_fit();
            h.reserve(3, 5);
            String::new()
        }
        Op::Insert => {
            let mut o = PortGraph::new();
            let (a, b) = (o.add_node(1, 1), o.add_node(1, 1));
            o.link_nodes(a, 0, b, 0).unwrap();
            let mut r: Vec<_> = h.insert_graph(&o).unwrap().into_iter().collect();
            r.sort();
            format!("{r:?}")
        }
        _ => String::new(),
    }
}

fn linked<E: EpKey, X: std::fmt::Debug>(r: Result<(E, E), X>) -> Ans {
    format!("{:?}", r.map(|(a, b)| (a.ep(), b.ep())))
}

/// Whether the checker refuses this link; `None` if it did not, with its answer.
fn try_link<G: TG>(c: &mut Dyn<G>, x: PortIndex, y: PortIndex) -> Option<Ans> {
    catch_quiet(|| linked(c.link_ports(x, y))).ok()
}

fn step<G: TG>(c: &mut Dyn<G>, g: &mut G, op: Op) -> Res {
    if let Some((x, y)) = link_ports(g, op) {
        let o = observe(g).port_owner();
        let ends = match (o.get(&x.index()), o.get(&y.index())) {
            (Some(a), Some(b)) if a.1 != b.1 => Some(if a.1 == DIRS[1] { (a.0, b.0) } else { (b.0, a.0) }),
            _ => None,
        };
        let mut after = g.clone();
        let want = linked(after.link_ports(x, y));
        let closes = match ends {
            Some((a, b)) => {
                let r = rel(&observe(g));
                let at = |n| r.nodes.iter().position(|k| *k == n).unwrap();
                r.r[at(b)][at(a)] || a == b
            }
            None => false,
        };
        let got = try_link(c, x, y);
        if closes {
            if let Some(got) = got {
                // A link that is impossible anyway may be reported as such.
                ensure!(got == want && want.starts_with("Err"), "{op:?} = link_ports({x:?},{y:?}) would close a cycle, but is not refused: {got}");
            }
        } else {
            ensure_eq!(got, Some(want), "{op:?} = link_ports({x:?},{y:?}) (None: refused as a cycle)");
            *g = after;
        }
        return Ok(());
    }
    let at = match op {
        Op::Unlink(n, d) => port(g, n, d, Some(true)),
        _ => None,
    };
    // Swap only indices the graph has used, and in multigraphs touch only
    // nodes (other indices may be in use internally).
    let nodes = match op {
        Op::Swap(a, b) => vec![a, b],
        Op::Remove(n) | Op::Ports(n, ..) => vec![n],
        _ => vec![],
    };
    if G::MULTI && nodes.iter().any(|n| !g.contains_node(ni(*n))) || nodes.len() == 2 && g.nodes_iter().all(|n| nodes.iter().any(|x| n.index() < *x)) {
        return Ok(());
    }
    let want = edit(g, op, at);
    let got = edit(c, op, at);
    ensure_eq!(got, want, "answer of {op:?}");
    Ok(())
}

/// Every question about the present state.
fn check<G: TG>(c: &mut Dyn<G>, g: &G, deep: bool) -> Result<u64, String> {
    check_some(c, g, deep, 1, 1)
}

/// Every `sets`-th node set and every `pairs`-th link that would close a cycle.
fn check_some<G: TG>(c: &mut Dyn<G>, g: &G, deep: bool, sets: usize, pairs: usize) -> Result<u64, String> {
    let v = observe(g);
    let r = rel(&v);
    let owner = v.port_owner();
    let mut steps = 0;
    if deep {
        let hi = (v.nodes.keys().max().map_or(0, |x| x + 2), owner.keys().max().map_or(0, |x| x + 2));
        let o = Opts { strict_absent_ports: !G::MULTI, strict_absent_nodes: !G::MULTI, ..Opts::base(hi.0, hi.1) };
        steps += check_view(c, &v, &o)?;
        ensure!(c.node_capacity() >= v.nodes.len() && c.port_capacity() >= owner.len(), "the capacity is less than the number of entries");
        for n in g.nodes_iter() {
            ensure_eq!(c.node_port_capacity(n), g.node_port_capacity(n), "node_port_capacity({n:?})");
        }
    } else {
        ensure_eq!((c.node_count(), c.link_count()), (v.nodes.len(), v.links.len()), "node and link count");
    }
    let n = r.nodes.len();
    let which: Vec<u64> = if n <= 6 { (0..1u64 << n).collect() } else { large_sets(&r).into_iter().step_by(sets).collect() };
    for s in which {
        let l: Vec<NodeIndex> = (0..n).filter(|k| s >> k & 1 == 1).map(|k| ni(r.nodes[k])).collect();
        let want = r.convex(s);
        ensure_eq!(c.is_convex(l.iter().copied(), [], []), want, "is_convex({l:?}) without boundary ports");
        steps += 1;
        if !deep {
            continue;
        }
        // A node that is not there.
        if let Some(absent) = (0..).map(ni).find(|n| !g.contains_node(*n)) {
            ensure!(!c.is_convex(l.iter().copied().chain([absent]), [], []), "is_convex({l:?} and {absent:?}), which does not exist");
        }
        // All links that run inside, at their ports: each alone, and all.
        let inner: Vec<_> = v.links.iter().filter(|(a, b)| l.contains(&ni(owner[&a.0].0)) && l.contains(&ni(owner[&b.0].0))).collect();
        let ports = |d: usize| -> Vec<PortIndex> { owner.iter().filter(|(_, o)| o.1 == DIRS[d] && l.contains(&ni(o.0))).map(|(p, _)| pi(*p)).collect() };
        let (ins, outs) = (ports(0), ports(1));
        // The subgraph of these nodes, at its own boundary.
        let sub = Subgraph::with_nodes(&*c, l.iter().copied());
        let (si, so) = (sub.port_boundary().input_indices().to_vec(), sub.port_boundary().output_indices().to_vec());
        let edge = v.links.iter().any(|(a, b)| so.contains(&pi(a.0)) && si.contains(&pi(b.0)));
        let yes = l.len() < 2 || (want && !edge);
        ensure_eq!(sub.is_convex_with_checker(&*c), yes, "is_convex_with_checker of the subgraph {l:?} with the boundary {si:?}, {so:?}");
        ensure_eq!(sub.is_convex(), yes, "is_convex of the subgraph {l:?} with the boundary {si:?}, {so:?}");
        let ask = |i: &[PortIndex], o: &[PortIndex]| c.is_convex(l.iter().copied(), i.iter().copied(), o.iter().copied());
        ensure_eq!(ask(&ins, &outs), want && inner.is_empty(), "is_convex({l:?}) with all ports at the boundary");
        ensure_eq!(ask(&ins, &[]), want, "is_convex({l:?}) with the inputs at the boundary");
        ensure_eq!(ask(&[], &outs), want, "is_convex({l:?}) with the outputs at the boundary");
        for i in &ins {
            for o in &outs {
                let edge = v.links.iter().any(|(a, b)| a.0 == o.index() && b.0 == i.index());
                ensure_eq!(ask(&[*i], &[*o]), want && !edge, "is_convex({l:?}) with {i:?} and {o:?} at the boundary");
                let most: Vec<PortIndex> = ins.iter().copied().filter(|x| x != i).collect();
                let edge = v.links.iter().any(|(a, b)| a.0 == o.index() && most.contains(&pi(b.0)));
                ensure_eq!(ask(&most, &[*o]), want && !edge, "is_convex({l:?}) with {most:?} and {o:?} at the boundary");
                steps += 2;
            }
        }
        steps += 4;
    }
    // Links that would close a cycle are refused and change nothing.
    let mut refused = 0;
    for a in 0..n {
        for b in 0..n {
            if (a == b || r.r[b][a]) && (a * n + b) % pairs == 0 {
                let (x, y) = (port(g, r.nodes[a], 1, None), port(g, r.nodes[b], 0, None));
                if let (Some(x), Some(y)) = (x, y) {
                    if let Some(got) = try_link(c, x, y) {
                        let want = linked(g.clone().link_ports(x, y));
                        ensure!(got == want && want.starts_with("Err"), "the link {x:?} to {y:?} would close a cycle, but is not refused: {got}");
                    }
                    refused += 1;
                }
            }
        }
    }
    if refused > 0 {
        ensure_eq!(c.link_count(), v.links.len(), "link count after refused links");
        for n in g.nodes_iter() {
            for p in g.all_ports(n) {
                let f = |h: Vec<(Ep, Ep)>| h;
                ensure_eq!(f(c.port_links(p).map(|(a, b)| (a.ep(), b.ep())).collect()), f(g.port_links(p).map(|(a, b)| (a.ep(), b.ep())).collect()), "links of {p:?} after refused links");
            }
        }
    }
    Ok(steps + refused)
}

fn digits(mut i: u64, base: u64, len: usize) -> Vec<usize> {
    let mut d = vec![0; len];
    for x in d.iter_mut().rev() {
        *x = (i % base) as usize;
        i /= base;
    }
    d
}

/// One history. State is checked after the last step that is not `ops[0]`
/// (which does nothing), so that each shorter history is checked once.
fn history<G: TG>(init: &G, ops: &[Op], d: &[usize], deep: bool) -> Result<Tally, String> {
    let len = d.iter().rposition(|x| *x != 0).map_or(0, |x| x + 1);
    if d[..len].contains(&0) {
        return Ok(Tally { steps: 0, outcome: 0 });
    }
    let mut g = init.clone();
    let mut c = Dyn::new(init.clone());
    for (k, i) in d[..len].iter().enumerate() {
        step(&mut c, &mut g, ops[*i]).map_err(|m| format!("step {}: {m}", k + 1))?;
    }
    let steps = check(&mut c, &g, deep && len < 4)?;
    Ok(Tally { steps: steps + len as u64, outcome: outcome_of(&observe(&g)) })
}

fn histories<G: TG>(ctx: &mut Ctx, name: &str, init: G, ops: Vec<Op>, len: usize, deep: bool) {
    let total = (ops.len() as u64).pow(len as u32);
    let show = |i: u64| format!("{:?}", digits(i, ops.len() as u64, len).into_iter().map(|x| ops[x]).filter(|x| *x != Op::Nop).collect::<Vec<_>>());
    cases(ctx, name, &format!("every history of at most {len} edits out of {}", ops.len() - 1), total, show, |i| history(&init, &ops, &digits(i, ops.len() as u64, len), deep));
}

/// Every edit on nodes below n.
fn mixed(n: usize) -> Vec<Op> {
    let mut o = vec![Op::Nop];
    for a in 0..n {
        for b in 0..n {
            o.push(Op::Link(a, b, false));
            if a != b {
                o.push(Op::Link(a, b, true));
            }
            if a < b {
                o.push(Op::Swap(a, b));
            }
        }
        o.extend([Op::Remove(a), Op::Unlink(a, 1)]);
    }
    o.extend([Op::LinkAt(0, 0, 1, 0), Op::LinkAt(1, 0, 0, 0), Op::Same(0, 0), Op::Same(1, 1), Op::NoPort, Op::Unlink(1, 0), Op::Add(1, 1), Op::Ports(1, 1, 1), Op::Ports(0, 3, 3), Op::Swap(1, n), Op::Remove(n)]);
    o.extend([Op::CompactNodes, Op::CompactPorts, Op::Clear, Op::Shrink, Op::Insert]);
    o
}

fn fresh<G: TG>(n: usize, k: usize) -> G {
    let mut g = G::default();
    for _ in 0..n {
        g.add_node(k, k);
    }
    g
}

/// Every order of adding distinct links between n nodes, refused ones
/// included as the last step only.
fn link_orders<G: TG>(ctx: &mut Ctx, name: &str, n: usize, len: usize) {
    let pairs: Vec<(usize, usize)> = (0..n).flat_map(|a| (0..n).filter(move |b| *b != a).map(move |b| (a, b))).collect();
    let base = pairs.len() as u64 + 1;
    let mut ops = vec![Op::Nop];
    ops.extend(pairs.iter().enumerate().map(|(k, (a, b))| Op::Link(*a, *b, k % 3 == 1)));
    let init: G = fresh(n, if G::MULTI { 1 } else { n - 1 });
    let total = base.pow(len as u32);
    let show = |i: u64| format!("{:?}", digits(i, base, len).into_iter().map(|x| ops[x]).filter(|x| *x != Op::Nop).collect::<Vec<_>>());
    cases(ctx, name, &format!("every order of adding at most {len} distinct links between {n} nodes"), total, show, |i| {
        let d = digits(i, base, len);
        let used = d.iter().rposition(|x| *x != 0).map_or(0, |x| x + 1);
        let mut r = vec![0u64; n];
        for (k, x) in d[..used].iter().enumerate() {
            if *x == 0 || d[..k].contains(x) {
                return Ok(Tally { steps: 0, outcome: 0 });
            }
            let (a, b) = pairs[x - 1];
            if r[b] >> a & 1 == 1 {
                return Ok(Tally { steps: 0, outcome: 0 });
            }
            for s in 0..n {
                if s == a || r[s] >> a & 1 == 1 {
                    r[s] |= 1 << b | r[b];
                }
            }
        }
        history(&init, &ops, &d, false)
    });
}

/// Every acyclic graph as the start, then every edit (or pair of edits).
fn starts<G: TG>(ctx: &mut Ctx, name: &str, bound: &str, specs: Vec<Spec>, pairs: bool) {
    let specs: Vec<Spec> = specs.into_iter().filter(|s| s.acyclic()).collect();
    cases(ctx, name, &format!("{bound}: {} acyclic graphs, then every {}", specs.len(), if pairs { "pair of edits" } else { "edit" }), specs.len() as u64, |i| format!("{:?}", specs[i as usize]), |i| {
        let b: Built<G> = build(&specs[i as usize])?;
        let mut c = Dyn::new(b.g.clone());
        let mut steps = check(&mut c, &b.g, true).map_err(|m| format!("fresh checker: {m}"))?;
        let n = b.view.nodes.keys().max().map_or(0, |x| x + 1);
        let ops = mixed(n);
        for op in &ops[1..] {
            heartbeat();
            let mut g = b.g.clone();
            let mut c = Dyn::new(b.g.clone());
            step(&mut c, &mut g, *op)?;
            steps += 1 + check(&mut c, &g, !pairs).map_err(|m| format!("after {op:?}: {m}"))?;
            if pairs {
                for op2 in &ops[1..] {
                    heartbeat();
                    let mut g = b.g.clone();
                    let mut c = Dyn::new(b.g.clone());
                    step(&mut c, &mut g, *op)?;
                    step(&mut c, &mut g, *op2).map_err(|m| format!("after {op:?}: {m}"))?;
                    steps += 1 + check(&mut c, &g, false).map_err(|m| format!("after {op:?}, {op2:?}: {m}"))?;
                }
            }
        }
        Ok(Tally { steps, outcome: outcome_of(&b.view) })
    });
}

/// Edits on a larger graph: all nodes, but only some pairs of nodes.
fn some_edits(n: usize) -> Vec<Op> {
    let mut o = vec![Op::Swap(0, n), Op::Swap(n / 2, n), Op::Remove(n), Op::Add(1, 1), Op::CompactNodes, Op::CompactPorts, Op::Clear, Op::Shrink, Op::Insert];
    for k in 0..n {
        o.extend([Op::Remove(k), Op::Unlink(k, 0), Op::Unlink(k, 1), Op::Ports(k, 1, 1)]);
        for x in [(k + 1) % n, (k + n / 2) % n, (2 * k + 1) % n, n - 1 - k, 0, n - 1] {
            if x != k {
                o.extend([Op::Link(k, x, false), Op::Link(x, k, true)]);
                if k < x {
                    o.push(Op::Swap(k, x));
                }
            }
        }
    }
    o
}

/// Larger graphs as the start, then one edit, then another.
fn large_starts<G: TG>(ctx: &mut Ctx, name: &str, c: &Choice) {
    let v: Vec<Named> = members::<G>(c).into_iter().map(|(n, s)| (n, opened(&s))).collect();
    let of = ctx.pick(5, 1);
    let what = format!("one free port of either direction on every node; a fresh checker, then every edit of nodes and of about 6 pairs per node; every {of}-th of them followed by every {}-th of them", 7 * of);
    cases(ctx, name, &describe(&what, &v), v.len() as u64, |i| v[i as usize].0.clone(), |i| {
        let b: Built<G> = build(&v[i as usize].1)?;
        let mut steps = check_some(&mut Dyn::new(b.g.clone()), &b.g, false, 1, 1).map_err(|m| format!("fresh checker: {m}"))?;
        let n = b.view.nodes.keys().max().map_or(0, |x| x + 1);
        let ops = some_edits(n);
        let q = 1 + n * n / 60;
        for (k, op) in ops.iter().enumerate() {
            heartbeat();
            let mut g = b.g.clone();
            let mut c = Dyn::new(b.g.clone());
            step(&mut c, &mut g, *op)?;
            steps += 1 + check_some(&mut c, &g, false, q, q).map_err(|m| format!("after {op:?}: {m}"))?;
            if k % of != 0 {
                continue;
            }
            for op2 in ops.iter().skip(k % (7 * of)).step_by(7 * of) {
                let mut g = b.g.clone();
                let mut c = Dyn::new(b.g.clone());
                step(&mut c, &mut g, *op)?;
                step(&mut c, &mut g, *op2).map_err(|m| format!("after {op:?}: {m}"))?;
                steps += 1 + check_some(&mut c, &g, false, 4 * q, 4 * q).map_err(|m| format!("after {op:?}, {op2:?}: {m}"))?;
            }
        }
        Ok(Tally { steps, outcome: outcome_of(&b.view) })
    });
}

/// Larger graphs built link by link, taken apart and built again.
fn large_walks<G: TG>(ctx: &mut Ctx, name: &str, sizes: &[usize]) {
    let v: Vec<Named> = members::<G>(&Choice { sizes, cyclic: false, drop: 0 });
    let what = "all nodes first, then link by link, in four orders; then each third link removed and added again, then nodes removed one by one";
    cases(ctx, name, &describe(what, &v), 4 * v.len() as u64, |i| format!("{} order {}", v[i as usize / 4].0, i % 4), |i| {
        let mut spec = v[i as usize / 4].1.clone();
        let links = std::mem::take(&mut spec.links);
        let b: Built<G> = build(&spec)?;
        let m = links.len();
        let mut order: Vec<usize> = (0..m).collect();
        match i % 4 {
            0 => {}
            1 => order.reverse(),
            2 => order.sort_by_key(|k| (k % 3, *k)),
            _ => order.sort_by_key(|k| (std::cmp::Reverse(k % 4), k * 7 % 11)),
        }
        let (o, inp) = (Spec::out_slots(&spec.shapes), Spec::in_slots(&spec.shapes));
        let at = |k: usize| {
            let (x, y) = (o[links[k].0], inp[links[k].1]);
            Op::LinkAt(b.nodes[x.0], x.1, b.nodes[y.0], y.1)
        };
        let (mut g, mut c) = (b.g.clone(), Dyn::new(b.g.clone()));
        let n = spec.shapes.len();
        let q = 1 + n * n / 30;
        let mut steps = 0;
        for (x, k) in order.iter().enumerate() {
            heartbeat();
            step(&mut c, &mut g, at(*k)).map_err(|e| format!("adding link {x}: {e}"))?;
            let (s, p) = if x + 1 == m { (1, 1) } else { (4 * q, q) };
            steps += 1 + check_some(&mut c, &g, false, s, p).map_err(|e| format!("after adding link {x}: {e}"))?;
        }
        for x in 0..m {
            let n = b.nodes[o[links[order[(x * 3) % m]].0].0];
            for op in [Op::Unlink(n, 1), at(order[(x * 3) % m])] {
                step(&mut c, &mut g, op).map_err(|e| format!("later: {e}"))?;
                steps += 1 + check_some(&mut c, &g, false, 4 * q, q).map_err(|e| format!("later, after {op:?}: {e}"))?;
            }
            heartbeat();
        }
        for x in 0..n {
            let x = b.nodes[(x * 2 + 1) % n];
            for op in [Op::Swap(x.min(b.nodes[0]), x.max(b.nodes[0])), Op::Remove(x), Op::Add(2, 2), Op::Link(x, b.nodes[n / 2], false), Op::Link(b.nodes[n / 3], x, false)] {
                if op == Op::Swap(x, x) {
                    continue;
                }
                step(&mut c, &mut g, op).map_err(|e| format!("taking apart: {e}"))?;
                steps += 1 + check_some(&mut c, &g, false, 4 * q, q).map_err(|e| format!("taking apart, after {op:?}: {e}"))?;
            }
            heartbeat();
        }
        Ok(Tally { steps, outcome: outcome_of(&b.view) })
    });
}

pub fn c26(ctx: &mut Ctx) {
    let t = ctx.pick(false, true);
    let sizes: &[usize] = if t { &[4, 5, 7, 8, 9, 10, 12, 16, 17, 20, 24] } else { &[5, 8, 9, 12] };
    let c = Choice { sizes, cyclic: false, drop: 0 };
    large_starts::<PortGraph>(ctx, "large-starts", &c);
    large_starts::<MultiPortGraph>(ctx, "large-starts-multi", &c);
    let sizes: &[usize] = if t { &[4, 5, 6, 7, 8, 9, 10, 12, 16, 17, 24, 33, 40] } else { &[4, 7, 8, 9, 12, 16, 17, 24] };
    large_walks::<PortGraph>(ctx, "large-walks", sizes);
    large_walks::<MultiPortGraph>(ctx, "large-walks-multi", sizes);
    starts::<PortGraph>(ctx, "starts-portgraph", "graphs on 3 nodes of shapes (1,1),(2,1),(1,2)", singles(&[(1, 1), (2, 1), (1, 2)], 9, true), false);
    starts::<MultiPortGraph>(ctx, "starts-multi", "multigraphs on 3 nodes of shape (1,1)", multis(&[(1, 1); 3], ctx.pick(3, 4), true), false);
    let n = 4;
    starts::<PortGraph>(ctx, "starts-dags", &format!("every graph on {n} nodes in three numberings"), (0..3 << (n * (n - 1) / 2)).map(|i| dags(n, false, i)).collect(), t);
    histories::<PortGraph>(ctx, "edits-portgraph", fresh(2, 2), mixed(3), 4, true);
    histories::<MultiPortGraph>(ctx, "edits-multi", fresh(3, 1), mixed(3), ctx.pick(3, 4), true);
    histories::<PortGraph>(ctx, "edits-empty", PortGraph::new(), vec![Op::Nop, Op::Add(2, 2), Op::Link(0, 1, false), Op::Link(1, 0, true), Op::Link(2, 0, false), Op::Link(1, 2, false), Op::Remove(0), Op::Remove(1), Op::Swap(0, 2), Op::CompactNodes, Op::Clear], ctx.pick(6, 7), t);
    link_orders::<PortGraph>(ctx, "links-4", 4, 6);
    link_orders::<MultiPortGraph>(ctx, "links-multi-4", 4, ctx.pick(5, 6));
    link_orders::<PortGraph>(ctx, "links-5", 5, ctx.pick(5, 6));
}
