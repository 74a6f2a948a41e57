//! Inserting and copying graphs (C18); references (C30).

use crate::engine::*;
use crate::families::*;
use crate::gen::*;
use crate::viewcheck::*;
use crate::{ensure, ensure_eq};
use portgraph::view::{CopySubgraphError, FlatRegion, LinkMut, LinkView, PortMut, PortView, Region, Subgraph};
use portgraph::{MultiPortGraph, NodeIndex, PortGraph};
use std::collections::{BTreeMap, BTreeSet, HashMap};

/// Read a graph through its basic queries.
pub fn observe<G: TG>(g: &G) -> RefView {
    let mut v = RefView::default();
    for n in g.nodes_iter() {
        let f = |d| g.ports(n, d).map(|p| p.index()).collect::<Vec<_>>();
        v.nodes.insert(n.index(), [f(DIRS[0]), f(DIRS[1])]);
        v.links.extend(g.output_links(n).map(|(a, b)| (a.ep(), b.ep())));
    }
    v.links.sort();
    if G::MULTI {
        let mut subs: BTreeMap<usize, Vec<usize>> = v.port_owner().keys().map(|p| (*p, vec![])).collect();
        for n in v.nodes.keys() {
            for (p, k) in g.subports_of(ni(*n)).unwrap() {
                subs.entry(p).or_default().push(k);
            }
        }
        v.subports = Some(subs);
    }
    v
}

/// A link by node, direction and offset of both ends.
type L = ((usize, usize), (usize, usize));
fn port_links(v: &RefView) -> Vec<L> {
    let o = v.port_owner();
    let mut l: Vec<L> = v.links.iter().map(|(a, b)| ((o[&a.0].0, o[&a.0].2), (o[&b.0].0, o[&b.0].2))).collect();
    l.sort();
    l
}

/// The graph now shows exactly the old content and the additional nodes and links.
fn extended<G: TG>(g: &G, old: &RefView, map: &HashMap<NodeIndex, NodeIndex>, src: &RefView, extra: Vec<L>) -> Result<u64, String> {
    let now = observe(g);
    let (hn, hp) = (now.nodes.keys().max().map_or(0, |x| x + 2), now.port_owner().keys().max().map_or(0, |x| x + 2));
    let q = G::check_self(g, &now, &Opts { strict_absent_nodes: !G::MULTI, strict_absent_ports: !G::MULTI, ..Opts::base(hn, hp) })?;
    let m: BTreeMap<usize, usize> = map.iter().map(|(a, b)| (a.index(), b.index())).collect();
    ensure_eq!(m.keys().copied().collect::<Vec<_>>(), src.nodes.keys().copied().collect::<Vec<_>>(), "nodes in the returned correspondence");
    let new: BTreeSet<usize> = m.values().copied().collect();
    ensure_eq!(new.len(), m.len(), "distinct new nodes");
    for n in &new {
        ensure!(!old.nodes.contains_key(n), "node {n} existed before");
    }
    ensure_eq!(now.nodes.keys().copied().collect::<BTreeSet<_>>(), old.nodes.keys().copied().chain(new.iter().copied()).collect::<BTreeSet<_>>(), "nodes afterwards");
    for (n, p) in &old.nodes {
        ensure_eq!(now.nodes[n], *p, "ports of the old node {n}");
    }
    for l in &old.links {
        ensure!(now.links.contains(l), "the old link {l:?} is gone");
    }
    for (a, b) in &m {
        for d in 0..2 {
            ensure_eq!(now.nodes[b][d].len(), src.nodes[a][d].len(), "number of ports ({:?}) of the copy of node {a}", DIRS[d]);
        }
    }
    let mut want = port_links(old);
    want.extend(port_links(src).iter().map(|((a, i), (b, j))| ((m[a], *i), (m[b], *j))));
    want.extend(extra.iter().map(|((a, i), (b, j))| ((*m.get(a).unwrap_or(a), *i), (*m.get(b).unwrap_or(b), *j))));
    want.sort();
    ensure_eq!(port_links(&now), want, "links afterwards");
    Ok(q)
}

fn single_linked(v: &RefView) -> bool {
    let mut s = BTreeSet::new();
    v.links.iter().all(|(a, b)| s.insert(a.0) && s.insert(b.0))
}

fn insert<B: TG>(base: &Built<B>, what: &str, src: &impl LinkView<PortOffsetBase = u16>, m: &RefView) -> Result<u64, String> {
    let mut g = base.g.clone();
    let r = g.insert_graph(src);
    if !B::MULTI && !single_linked(m) {
        ensure!(r.is_err(), "inserting {what}: several links on one port were accepted by a graph that can not hold them");
        return Ok(1);
    }
    let map = r.map_err(|e| format!("inserting {what}: {e:?}"))?;
    extended(&g, &base.view, &map, m, vec![]).map_err(|e| format!("inserting {what}: {e}"))
}

fn bases<B: TG>() -> Vec<Built<B>> {
    let mut v = vec![];
    let s = |shapes: &[(usize, usize)], links: &[(usize, usize)], holes| Spec { shapes: shapes.to_vec(), links: links.to_vec(), holes };
    v.push(build(&s(&[], &[], false)).unwrap());
    v.push(build(&s(&[(1, 1), (2, 1)], &[(0, 1), (1, 0)], true)).unwrap());
    if B::MULTI {
        v.push(build(&s(&[(1, 1), (1, 1)], &[(0, 1), (0, 1), (0, 0)], true)).unwrap());
    }
    // freed nodes and ports below and above the remaining one
    let mut b: Built<B> = build(&s(&[(1, 2), (1, 1), (0, 1), (1, 1)], &[(3, 1)], false)).unwrap();
    for k in [3, 0, 2] {
        b.g.remove_node(ni(b.nodes[k]));
        b.view.nodes.remove(&b.nodes[k]);
    }
    b.view = observe(&b.g);
    v.push(b);
    v
}

fn insert_case<B: TG, G: TG>(bs: &[Built<B>], spec: &Spec, x: u64) -> Result<Tally, String> {
    let s: Built<G> = build(spec)?;
    let n = s.nodes.len();
    let mut steps = 0;
    let np = s.view.port_owner().len();
    let set: BTreeSet<usize> = (0..n).filter(|k| x >> k & 1 == 1).map(|k| s.nodes[k]).collect();
    let list: Vec<NodeIndex> = set.iter().map(|x| ni(*x)).collect();
    let m = restrict(&s.view, |n| set.contains(&n), |_| true);
    for b in bs {
        if set.len() == n {
            steps += insert(b, "the graph", &s.g, &s.view)?;
            steps += insert(b, "a reference", &&s.g, &s.view)?;
        }
        steps += insert(b, &format!("the subgraph of {set:?}"), &Subgraph::with_nodes(&s.g, list.iter().copied()), &m)?;
        for j in 0..=np {
            let dead = s.view.port_owner().keys().copied().nth(j);
            let mask = Mask { nodes: Bits::of(set.iter().copied()), ports: dead.map_or(Bits::ALL, |p| Bits::ALL.without(p)) };
            let fm = restrict(&m, |_| true, |l| Some(l.0 .0) != dead && Some(l.1 .0) != dead);
            steps += insert(b, &format!("the filtered graph of {set:?} without port {dead:?}"), &filt(&s.g, mask), &fm)?;
        }
        if let Some((root, rest)) = list.split_first() {
            let mut h = portgraph::Hierarchy::new();
            let mut chain = portgraph::Hierarchy::new();
            for (k, r) in rest.iter().enumerate() {
                h.push_front_child(*r, *root).map_err(|e| format!("{e:?}"))?;
                chain.push_child(*r, list[k]).map_err(|e| format!("{e:?}"))?;
            }
            steps += insert(b, &format!("the region {set:?}"), &Region::new(&s.g, &chain, *root), &m)?;
            steps += insert(b, &format!("the flat region {set:?}"), &FlatRegion::new_with_root(&s.g, &h, *root), &m)?;
            let m = restrict(&m, |n| n != root.index(), |_| true);
            steps += insert(b, &format!("the flat region {set:?} without root"), &FlatRegion::new_without_root(&s.g, &h, *root), &m)?;
        }
    }
    Ok(Tally { steps, outcome: outcome_of(&m) })
}

fn insert_section<B: TG, G: TG>(ctx: &mut Ctx, name: &str, bound: &str, specs: Vec<Spec>) {
    let bs = bases::<B>();
    let per = 1u64 << specs[0].shapes.len();
    cases(ctx, name, &format!("{bound} and all its subgraphs, regions, flat regions and filtered views by every node set, inserted into {} graphs (empty, linked, with freed indices)", bs.len()), specs.len() as u64 * per,
        |i| format!("{:?} nodes {:#b}", specs[(i / per) as usize], i % per),
        |i| insert_case::<B, G>(&bs, &specs[(i / per) as usize], i % per));
}

/// A larger graph and views over it, inserted into small and large graphs.
fn insert_large<B: TG, G: TG>(bs: &[Built<B>], spec: &Spec, limit: usize) -> Result<Tally, String> {
    let s: Built<G> = build(spec)?;
    let n = s.nodes.len();
    let mut steps = 0;
    let sets = node_sets(n, false);
    let step = sets.len().div_ceil(limit).max(1);
    for b in bs {
        steps += insert(b, "the graph", &s.g, &s.view)?;
        for set in sets.iter().step_by(step) {
            heartbeat();
            let list: Vec<NodeIndex> = set.iter().map(|k| ni(s.nodes[*k])).collect();
            let m = restrict(&s.view, |n| list.contains(&ni(n)), |_| true);
            steps += insert(b, &format!("the subgraph of {set:?}"), &Subgraph::with_nodes(&s.g, list.iter().copied()), &m)?;
            if let Some((root, rest)) = list.split_first() {
                let mut chain = portgraph::Hierarchy::new();
                for (k, r) in rest.iter().enumerate() {
                    chain.push_child(*r, list[k / 2]).map_err(|e| format!("{e:?}"))?;
                }
                steps += insert(b, &format!("the region {set:?}"), &Region::new(&s.g, &chain, *root), &m)?;
            }
        }
        for m in rejections(&s, limit) {
            heartbeat();
            steps += insert(b, &format!("the graph filtered by {m:?}"), &filt(&s.g, m), &crate::views::filtered(&s.view, &m))?;
        }
    }
    Ok(Tally { steps, outcome: outcome_of(&s.view) })
}

/// The graphs to insert larger graphs into.
fn large_bases<B: TG>() -> Vec<Built<B>> {
    let mut v = bases::<B>();
    let f = acyclic_families(17);
    v.push(build(&lay_out(17, &f[1].links, if B::MULTI { FOLDED[1] } else { LAYOUTS[2] }, true)).unwrap());
    // every second node removed again
    let mut b: Built<B> = build(&lay_out(17, &f[0].links, LAYOUTS[0], false)).unwrap();
    for k in (1..17).step_by(2) {
        b.g.remove_node(ni(b.nodes[k]));
    }
    b.view = observe(&b.g);
    v.push(b);
    v
}

/// Copies of many node sets of a larger graph.
fn copy_large<G: TG>(spec: &Spec) -> Result<Tally, String> {
    let b: Built<G> = build(spec)?;
    let n = b.nodes.len();
    let owner = b.view.port_owner();
    let mut steps = 0;
    let mut sets = node_sets(n, false);
    // what can be reached from a node: closed sets in one direction
    let pos = |p: usize| b.nodes.iter().position(|x| *x == owner[&p].0).unwrap();
    let e: Vec<(usize, usize)> = b.view.links.iter().map(|(x, y)| (pos(x.0), pos(y.0))).collect();
    let r = reach(n, &e);
    sets.extend((0..n).step_by(n.div_ceil(9)).map(|k| (0..n).filter(|x| r[k][*x] || r[*x][k]).collect::<Vec<_>>()));
    for s in sets {
        heartbeat();
        steps += copy_set::<G>(b.clone(), s.iter().map(|k| b.nodes[*k]).collect()).map_err(|e| format!("nodes {s:?}: {e}"))?.steps;
    }
    Ok(Tally { steps, outcome: outcome_of(&b.view) })
}

fn copy_case<G: TG>(spec: &Spec, bits: u64) -> Result<Tally, String> {
    let b: Built<G> = build(spec)?;
    let idx: Vec<usize> = (0..b.nodes.len()).filter(|k| bits >> k & 1 == 1).map(|k| b.nodes[k]).collect();
    copy_set(b, idx)
}
fn copy_set<G: TG>(mut b: Built<G>, idx: Vec<usize>) -> Result<Tally, String> {
    let inside: BTreeSet<usize> = idx.iter().copied().collect();
    let m = restrict(&b.view, |n| inside.contains(&n), |_| true);
    let crossing: Vec<L> = port_links(&b.view).into_iter().filter(|l| inside.contains(&l.0 .0) != inside.contains(&l.1 .0)).collect();
    let opts = b.inner_opts();
    let mut s = Subgraph::with_nodes(&mut b.g, idx.iter().map(|n| ni(*n)));
    let r = s.copy_in_parent();
    // The subgraph still shows what it showed before.
    ensure_eq!(s.nodes_iter().map(|n| n.index()).collect::<BTreeSet<_>>(), inside, "nodes of the subgraph after copying");
    let mut steps = 1;
    if !G::MULTI {
        steps += G::check_sub_mut(&s, &m, &opts).map_err(|e| format!("the subgraph after copying: {e}"))?;
    }
    drop(s);
    match r {
        Ok(map) => {
            ensure!(G::MULTI || crossing.is_empty(), "the boundary links {crossing:?} can not be copied, but no error is reported");
            let ncross = crossing.len();
            steps += extended(&b.g, &b.view, &map, &m, crossing)?;
            Ok(Tally { steps, outcome: outcome_of(&(&m, ncross)) })
        }
        Err(CopySubgraphError::CantCopyBoundary { internal, external }) => {
            ensure!(!G::MULTI, "copying a subgraph of a multigraph is refused at the ports {internal:?}, {external:?}");
            let o = b.view.port_owner();
            let (i, e) = (internal.index(), external.index());
            ensure!(b.view.links.iter().any(|(x, y)| (x.0 == i && y.0 == e) || (x.0 == e && y.0 == i)), "the error names the ports {i} and {e}, which are not linked");
            ensure!(inside.contains(&o[&i].0) && !inside.contains(&o[&e].0), "the error names {i} as internal and {e} as external port");
            steps += G::check_self(&b.g, &b.view, &b.opts()).map_err(|e| format!("copying was refused, but the graph changed: {e}"))?;
            Ok(Tally { steps, outcome: 0 })
        }
        Err(e) => Err(format!("unexpected error {e:?}")),
    }
}

fn copy_section<G: TG>(ctx: &mut Ctx, name: &str, bound: &str, specs: Vec<Spec>) {
    let per = 1u64 << specs[0].shapes.len();
    cases(ctx, name, &format!("{bound}; {} graphs x every node set copied into its graph", specs.len()), specs.len() as u64 * per,
        |i| format!("{:?} nodes {:#b}", specs[(i / per) as usize], i % per),
        |i| copy_case::<G>(&specs[(i / per) as usize], i % per));
}

pub fn c18(ctx: &mut Ctx) {
    let s = |n: usize| singles(&[(1, 1); 4][..n], 9, true);
    let s3 = || singles(&[(1, 1), (2, 1), (1, 2)], 9, true);
    let k = ctx.pick(5, 6);
    insert_section::<PortGraph, PortGraph>(ctx, "insert-pg-pg", "every graph on 3 nodes of shapes (1,1),(2,1),(1,2)", s3());
    insert_section::<MultiPortGraph, PortGraph>(ctx, "insert-multi-pg", "every graph on 3 nodes of shape (1,1)", s(3));
    insert_section::<MultiPortGraph, MultiPortGraph>(ctx, "insert-multi-multi", "every multigraph on 3 nodes of shape (1,1)", multis(&[(1, 1); 3], k, true));
    insert_section::<PortGraph, MultiPortGraph>(ctx, "insert-pg-multi", "every multigraph on 3 nodes of shape (1,1)", multis(&[(1, 1); 3], k.min(4), true));
    copy_section::<PortGraph>(ctx, "copy-pg-3", "every graph on 3 nodes of shapes (1,1),(2,1),(1,2)", s3());
    copy_section::<PortGraph>(ctx, "copy-pg-4", "every graph on 4 nodes of shape (1,1)", s(4));
    copy_section::<MultiPortGraph>(ctx, "copy-multi-3", "every multigraph on 3 nodes of shape (1,1)", multis(&[(1, 1); 3], ctx.pick(6, 8), true));
    copy_section::<MultiPortGraph>(ctx, "copy-multi-4", "every multigraph on 4 nodes of shape (1,1)", multis(&[(1, 1); 4], ctx.pick(4, 5), false));
    copy_section::<MultiPortGraph>(ctx, "copy-multi-wide", "every multigraph on 2 nodes of shapes (2,1),(1,2)", multis(&[(2, 1), (1, 2)], ctx.pick(6, 8), false));
    let c = Choice { sizes: if ctx.quick() { &[7, 8, 16, 17, 24] } else { &[6, 7, 8, 9, 12, 15, 16, 17, 24, 33, 40] }, cyclic: true, drop: ctx.pick(0, 12) };
    let limit = ctx.pick(8, 20);
    let (a, b) = (members::<PortGraph>(&c), members::<MultiPortGraph>(&c));
    let (bp, bm) = (large_bases::<PortGraph>(), large_bases::<MultiPortGraph>());
    let what = "inserted whole, as subgraphs and regions of node sets and with single nodes and ports rejected, into small and larger graphs";
    let name = |v: &[Named], i: u64| v[i as usize].0.clone();
    cases(ctx, "insert-large-pg-pg", &describe(what, &a), a.len() as u64, |i| name(&a, i), |i| insert_large::<PortGraph, PortGraph>(&bp, &a[i as usize].1, limit));
    cases(ctx, "insert-large-multi-pg", &describe(what, &a), a.len() as u64, |i| name(&a, i), |i| insert_large::<MultiPortGraph, PortGraph>(&bm, &a[i as usize].1, limit));
    cases(ctx, "insert-large-multi-multi", &describe(what, &b), b.len() as u64, |i| name(&b, i), |i| insert_large::<MultiPortGraph, MultiPortGraph>(&bm, &b[i as usize].1, limit));
    let what = "copies of node sets: single, all but one, first and last parts, everything before and after a node";
    cases(ctx, "copy-large-pg", &describe(what, &a), a.len() as u64, |i| name(&a, i), |i| copy_large::<PortGraph>(&a[i as usize].1));
    cases(ctx, "copy-large-multi", &describe(what, &b), b.len() as u64, |i| name(&b, i), |i| copy_large::<MultiPortGraph>(&b[i as usize].1));
    if !ctx.quick() {
        insert_section::<PortGraph, PortGraph>(ctx, "insert-pg-pg-4", "every graph on 4 nodes of shape (1,1)", s(4));
        copy_section::<PortGraph>(ctx, "copy-pg-5", "every graph on 5 nodes of shape (1,1)", singles(&[(1, 1); 5], 9, true));
    }
}
