//! Regions (C14), filters (C15), subgraphs (C16), query order (C17),
//! insertion and copying (C18), references (C30).

use crate::engine::*;
use crate::families::*;
use crate::gen::*;
use crate::viewcheck::*;
use crate::{ensure, ensure_eq};
use portgraph::boundary::{Boundary, HasBoundary};
use portgraph::view::{FilteredGraph, FlatRegion, LinkView, PortView, Region, Subgraph};
use portgraph::{Hierarchy, MultiPortGraph, NodeIndex, PortGraph};
use std::collections::BTreeSet;

// ---------------------------------------------------------------------------
// C14
// ---------------------------------------------------------------------------

fn region_case<G: TG>(spec: &Spec, parents: &[Option<usize>], desc: bool) -> Result<Tally, String> {
    let b: Built<G> = build(spec)?;
    let h = hierarchy(parents, &b.nodes, desc);
    let o = b.inner_opts();
    let n = parents.len();
    let mut steps = 0;
    let mut g2 = b.g.clone();
    g2.add_node(1, 0);
    let h2 = parents.iter().position(|p| p.is_some()).map(|k| {
        let mut x = h.clone();
        x.detach(ni(b.nodes[k]));
        x
    });
    for root in 0..n {
        heartbeat();
        let rn = ni(b.nodes[root]);
        let inside: BTreeSet<usize> = (0..n).filter(|k| below(parents, *k, root)).map(|k| b.nodes[k]).collect();
        let m = restrict(&b.view, |x| inside.contains(&x), |_| true);
        let r = Region::new(&b.g, &h, rn);
        let what = |e: String| format!("region of node {root}: {e}");
        ensure_eq!(r.region_root(), rn, "region_root");
        steps += G::check_region(&r, &m, &o).map_err(what)?;
        check_links_inside(&r, &m, &b.view).map_err(what)?;
        for k in &b.nodes {
            ensure_eq!(r.is_descendant(ni(*k)), inside.contains(k), "is_descendant({k}) in the region of node {root}");
        }
        let c = r.clone();
        ensure!(c == r, "a clone of the region of node {root} differs");
        G::check_region(&c, &m, &o).map_err(what)?;
        let own = Region::new(b.g.clone(), &h, rn);
        G::check_region_owned(&own, &m, &o).map_err(what)?;
        // Regions are equal when they look at the same node of equal graphs and hierarchies.
        for other in 0..n {
            let r2 = Region::new(&b.g, &h, ni(b.nodes[other]));
            ensure!((r2 == r) == (other == root), "the regions of the nodes {root} and {other}: eq gives {}", r2 == r);
        }
        ensure!(Region::new(&g2, &h, rn) != r && r != Region::new(&g2, &h, rn), "regions over different graphs are equal");
        if let Some(h2) = &h2 {
            ensure!(Region::new(&b.g, h2, rn) != r && r != Region::new(&b.g, h2, rn), "regions over different hierarchies are equal");
        }
        let (g3, h3) = (b.g.clone(), h.clone());
        ensure!(Region::new(&g3, &h3, rn) == r, "regions over equal graphs and hierarchies differ");

        let kids: BTreeSet<usize> = (0..n).filter(|k| parents[*k] == Some(root)).map(|k| b.nodes[k]).collect();
        for with_root in [false, true] {
            for owned in [false, true] {
                let r = match (with_root, owned) {
                    (true, false) => FlatRegion::new_with_root(&b.g, &h, rn),
                    (true, true) => FlatRegion::new_with_root(&b.g, h.clone(), rn),
                    (false, false) => FlatRegion::new_without_root(&b.g, &h, rn),
                    (false, true) => FlatRegion::new_without_root(&b.g, h.clone(), rn),
                };
                let m = restrict(&b.view, |x| kids.contains(&x) || (with_root && x == rn.index()), |_| true);
                let what = |e: String| format!("flat region of node {root} ({} root): {e}", if with_root { "with" } else { "without" });
                ensure_eq!(r.region_root(), rn, "region_root");
                ensure_eq!(r.includes_root(), with_root, "includes_root");
                steps += G::check_flat(&r, &m, &o).map_err(what)?;
                check_links_inside(&r, &m, &b.view).map_err(what)?;
                // children keep the order of the hierarchy
                let want: Vec<NodeIndex> = with_root.then_some(rn).into_iter().chain(h.children(rn)).collect();
                ensure_eq!(r.nodes_iter().collect::<Vec<_>>(), want, "order of the nodes in the flat region of node {root}");
            }
        }
        #[allow(deprecated)]
        let r = FlatRegion::new(&b.g, &h, rn);
        ensure!(r.includes_root() && r == FlatRegion::new_with_root(&b.g, &h, rn), "FlatRegion::new differs from new_with_root");
    }
    Ok(Tally { steps, outcome: outcome_of(&(parents, &b.view.links)) })
}

fn region_section<G: TG>(ctx: &mut Ctx, name: &str, bound: &str, specs: Vec<Spec>) {
    let n = specs[0].shapes.len();
    let f = forests(n);
    let total = (specs.len() * f.len()) as u64;
    let at = |i: u64| (&specs[i as usize / f.len()], &f[i as usize % f.len()]);
    cases(ctx, name, &format!("{bound}; {} graphs x {} labelled forests, every root, region and flat region with and without root", specs.len(), f.len()), total,
        |i| format!("{:?} parents {:?}", at(i).0, at(i).1),
        |i| region_case::<G>(at(i).0, at(i).1, i % 2 == 1));
}

/// Larger hierarchies over larger graphs.
fn region_large<G: TG>(ctx: &mut Ctx, name: &str, sizes: &[usize]) {
    let mut all: Vec<(String, Spec, Vec<Option<usize>>)> = vec![];
    for &n in sizes {
        for (fname, parents) in big_forests(n) {
            for f in [&acyclic_families(n)[1], &cyclic_families(n)[0], &cyclic_families(n)[1], &cyclic_families(n)[2]] {
                let k = all.len();
                let l = if G::MULTI && k % 2 == 0 { FOLDED[k / 2 % 2] } else { LAYOUTS[k / 2 % 4] };
                all.push((format!("{} {l:?} with forest {fname}", f.name), lay_out(f.n, &f.links, l, k % 3 == 0), parents.clone()));
            }
        }
    }
    cases(ctx, name, &format!("{} larger graphs with larger hierarchies of {sizes:?} nodes (chains, stars, combs, binary trees, brooms, forks, several trees; three numberings): every root, region and flat region", all.len()), all.len() as u64,
        |i| all[i as usize].0.clone(),
        |i| region_case::<G>(&all[i as usize].1, &all[i as usize].2, i % 2 == 1));
}

pub fn c14(ctx: &mut Ctx) {
    let sizes: &[usize] = if ctx.quick() { &[7, 8, 9, 10, 12, 15, 16, 17, 18, 24, 33] } else { &[6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 18, 24, 31, 32, 33, 34, 40, 48, 64, 65, 66] };
    region_large::<PortGraph>(ctx, "large-portgraph", sizes);
    region_large::<MultiPortGraph>(ctx, "large-multi", sizes);
    let s11 = |n: usize| vec![(1, 1); n];
    region_section::<PortGraph>(ctx, "portgraph-3", "every graph on 3 nodes of shapes (1,1),(2,1),(1,2)", singles(&[(1, 1), (2, 1), (1, 2)], 9, true));
    region_section::<PortGraph>(ctx, "portgraph-4", "every graph on 4 nodes of shape (1,1)", singles(&s11(4), 4, false));
    region_section::<MultiPortGraph>(ctx, "multi-3", "every multigraph on 3 nodes of shape (1,1)", multis(&s11(3), ctx.pick(4, 6), true));
    region_section::<MultiPortGraph>(ctx, "multi-4", "every multigraph on 4 nodes of shapes (1,1),(0,1),(1,0),(1,1)", multis(&[(1, 1), (0, 1), (1, 0), (1, 1)], ctx.pick(3, 5), false));
    // deeper trees, few graphs
    let ring = |n: usize| Spec { shapes: s11(n), links: (0..n).map(|k| (k, (k + 1) % n)).collect(), holes: true };
    let n = ctx.pick(5, 6);
    region_section::<PortGraph>(ctx, "portgraph-deep", &format!("{n} nodes of shape (1,1): a ring, a reversed ring, self-loops"), vec![
        ring(n), Spec { links: (0..n).map(|k| ((k + 1) % n, k)).collect(), ..ring(n) }, Spec { links: (0..n).map(|k| (k, k)).collect(), ..ring(n) }]);
    region_section::<MultiPortGraph>(ctx, "multi-deep", &format!("{n} nodes of shape (1,1): a ring with doubled links; the complete graph"), vec![
        Spec { links: (0..n).flat_map(|k| [(k, (k + 1) % n), (k, (k + 1) % n)]).collect(), ..ring(n) },
        Spec { links: (0..n).flat_map(|k| (0..n).map(move |l| (k, l))).collect(), ..ring(n) }]);
    if !ctx.quick() {
        region_section::<PortGraph>(ctx, "portgraph-5", "every graph on 5 nodes of shape (1,1)", singles(&s11(5), 5, false));
    }
}

// ---------------------------------------------------------------------------
// C15
// ---------------------------------------------------------------------------

/// Spread mask bits: node bits over the built nodes, port bits over the ports.
pub fn mask_of<G: TG>(b: &Built<G>, nodes: u64, ports: u64) -> Mask {
    // counted over all of them; beyond 64, like the last one
    let bit = |m: u64, k: usize| m >> k.min(63) & 1 == 1;
    let owner = b.view.port_owner();
    let nodes = b.nodes.iter().enumerate().filter(|(k, _)| bit(nodes, *k)).map(|x| *x.1);
    let ports = owner.keys().enumerate().filter(|(k, _)| bit(ports, *k)).map(|x| *x.1);
    Mask { nodes: Bits::of(nodes), ports: Bits::of(ports) }
}
pub fn filtered(v: &RefView, m: &Mask) -> RefView {
    restrict(v, |n| m.nodes >> n & 1 == 1, |l| m.ports >> l.0 .0 & 1 == 1 && m.ports >> l.1 .0 & 1 == 1)
}

fn filter_case<G: TG>(spec: &Spec, nodes: u64, ports: u64) -> Result<Tally, String> {
    let b: Built<G> = build(spec)?;
    let o = b.inner_opts();
    let m = mask_of(&b, nodes, ports);
    let r = filtered(&b.view, &m);
    let f = filt(&b.g, m);
    ensure_eq!(*f.context(), m, "context");
    let mut steps = G::check_filt(&f, &r, &o)?;
    check_links_inside(&f, &r, &b.view)?;
    let c = f.clone();
    ensure!(c.nodes_iter().eq(f.nodes_iter()), "a clone differs");
    if ports + 1 == 1 << b.view.port_owner().len() {
        // node-only filters
        let f: Filt<&G> = FilteredGraph::new_node_filtered(&b.g, |n, c: &Mask| c.nodes >> n.index() & 1 == 1, m);
        steps += G::check_filt(&f, &r, &o).map_err(|e| format!("node filter: {e}"))?;
    }
    Ok(Tally { steps, outcome: outcome_of(&r) })
}

/// A larger graph with node sets and port sets filtered out, also on top of
/// other views.
fn filter_large<G: TG>(spec: &Spec, ports: usize) -> Result<Tally, String> {
    let b: Built<G> = build(spec)?;
    let o = b.inner_opts();
    let n = b.nodes.len();
    let owner: Vec<usize> = b.view.port_owner().keys().copied().collect();
    let mut masks: Vec<Mask> = node_sets(n, n <= 9).into_iter().map(|s| Mask { nodes: Bits::of(s.iter().map(|k| b.nodes[*k])), ports: Bits::ALL }).collect();
    let all = Mask { nodes: Bits::ALL, ports: Bits::ALL };
    for p in owner.iter().step_by(owner.len().div_ceil(ports).max(1)) {
        masks.push(Mask { ports: Bits::ALL.without(*p), ..all });
        masks.push(Mask { ports: Bits::of([*p]), ..all });
        masks.push(Mask { ports: Bits::of(owner.iter().copied().filter(|x| x >= p)), nodes: Bits::ALL.without(b.nodes[p % n]) });
    }
    masks.push(Mask { ports: Bits::of(owner.iter().copied().step_by(2)), ..all });
    let mut steps = 0;
    for (k, m) in masks.iter().enumerate() {
        heartbeat();
        let what = |e: String| format!("filtered by {m:?}: {e}");
        let r = filtered(&b.view, m);
        let f = filt(&b.g, *m);
        steps += G::check_filt(&f, &r, &o).map_err(what)?;
        check_links_inside(&f, &r, &b.view).map_err(what)?;
        // on top of the previous filter
        let m2 = masks[(k * 7 + 3) % masks.len()];
        let r2 = filtered(&r, &m2);
        steps += G::check_filt_filt(&filt(filt(&b.g, *m), m2), &r2, &o).map_err(|e| format!("filtered by {m:?}, then {m2:?}: {e}"))?;
        let inside: Vec<NodeIndex> = b.nodes.iter().filter(|n| m.nodes >> **n & 1 == 1).map(|n| ni(*n)).collect();
        let rs = filtered(&restrict(&b.view, |n| inside.contains(&ni(n)), |_| true), &m2);
        let s = Subgraph::with_nodes(&b.g, inside.iter().copied());
        steps += G::check_filt_sub(&filt(s, m2), &rs, &o).map_err(|e| format!("subgraph {inside:?} filtered by {m2:?}: {e}"))?;
    }
    Ok(Tally { steps, outcome: outcome_of(&b.view) })
}

fn filter_section<G: TG>(ctx: &mut Ctx, name: &str, bound: &str, specs: Vec<Spec>) {
    let n = specs[0].shapes.len() as u32;
    let (o, i) = count(&specs[0].shapes);
    let p = (o + i) as u32;
    let per = 1u64 << (n + p);
    let total = specs.len() as u64 * per;
    let at = |i: u64| (&specs[(i / per) as usize], i % per & ((1 << n) - 1), (i % per) >> n);
    cases(ctx, name, &format!("{bound}; {} graphs x every set of rejected nodes and ports", specs.len()), total,
        |i| format!("{:?} nodes {:#b} ports {:#b}", at(i).0, at(i).1, at(i).2),
        |i| filter_case::<G>(at(i).0, at(i).1, at(i).2));
}

/// A filter over a filter, a region, a flat region and a subgraph.
fn stack_case<G: TG>(spec: &Spec, x: u64) -> Result<Tally, String> {
    let b: Built<G> = build(spec)?;
    let n = b.nodes.len();
    let o = b.inner_opts();
    let np = b.view.port_owner().len();
    let nb = 1u64 << n;
    let (m1, m2) = (mask_of(&b, x % nb, !0), mask_of(&b, x / nb % nb, !0));
    let mut steps = 0;
    // ports rejected at either level
    for i in 0..=np {
        for j in 0..=np {
            let a = Mask { ports: mask_of(&b, 0, !(1 << i)).ports, ..m1 };
            let c = Mask { ports: mask_of(&b, 0, !(1 << j)).ports, ..m2 };
            let m = filtered(&filtered(&b.view, &a), &c);
            let f = filt(filt(&b.g, a), c);
            steps += G::check_filt_filt(&f, &m, &o).map_err(|e| format!("filter {c:?} over filter {a:?}: {e}"))?;
        }
    }
    for j in 0..=np {
        let c = Mask { ports: mask_of(&b, 0, !(1 << j)).ports, ..m2 };
        // the set m1 as subgraph
        let inside: Vec<NodeIndex> = b.nodes.iter().filter(|n| m1.nodes >> **n & 1 == 1).map(|n| ni(*n)).collect();
        let m = filtered(&filtered(&b.view, &m1), &c);
        let s = Subgraph::with_nodes(&b.g, inside.iter().copied());
        steps += G::check_filt_sub(&filt(s, c), &m, &o).map_err(|e| format!("filter {c:?} over subgraph {inside:?}: {e}"))?;
        // and as region below the first of them
        if let Some((root, rest)) = inside.split_first() {
            let mut h = Hierarchy::new();
            for r in rest {
                h.push_child(*r, *root).map_err(|e| format!("{e:?}"))?;
            }
            let r = Region::new(&b.g, &h, *root);
            steps += G::check_filt_region(&filt(r, c), &m, &o).map_err(|e| format!("filter {c:?} over region {inside:?}: {e}"))?;
            let r = FlatRegion::new_with_root(&b.g, &h, *root);
            steps += G::check_filt_flat(&filt(r, c), &m, &o).map_err(|e| format!("filter {c:?} over flat region {inside:?}: {e}"))?;
        }
    }
    Ok(Tally { steps, outcome: x })
}

fn stack_section<G: TG>(ctx: &mut Ctx, name: &str, bound: &str, specs: Vec<Spec>) {
    let per = 1u64 << (2 * specs[0].shapes.len());
    cases(ctx, name, &format!("{bound}; {} graphs x every pair of node sets x up to one rejected port per level; a filter over a filter, subgraph, region, flat region", specs.len()), specs.len() as u64 * per,
        |i| format!("{:?} node sets {:#b}", specs[(i / per) as usize], i % per),
        |i| stack_case::<G>(&specs[(i / per) as usize], i % per));
}

pub fn c15(ctx: &mut Ctx) {
    let c = Choice { sizes: if ctx.quick() { &[6, 7, 8, 9, 12, 16, 17, 24, 33] } else { &[6, 7, 8, 9, 10, 12, 15, 16, 17, 18, 24, 31, 32, 33, 34, 48, 65] }, cyclic: true, drop: ctx.pick(7, 17) };
    let ports = ctx.pick(12, 60);
    let (a, b) = (members::<PortGraph>(&c), members::<MultiPortGraph>(&c));
    let what = "every node set that is empty, full, a single node, all but one, a first or last part; single ports rejected or admitted; on top of other filters and subgraphs";
    cases(ctx, "large-portgraph", &describe(what, &a), a.len() as u64, |i| a[i as usize].0.clone(), |i| filter_large::<PortGraph>(&a[i as usize].1, ports));
    cases(ctx, "large-multi", &describe(what, &b), b.len() as u64, |i| b[i as usize].0.clone(), |i| filter_large::<MultiPortGraph>(&b[i as usize].1, ports));
    filter_section::<PortGraph>(ctx, "portgraph-2", "every graph on 2 nodes of shapes (2,1),(1,2)", singles(&[(2, 1), (1, 2)], 4, true));
    filter_section::<PortGraph>(ctx, "portgraph-3", "every graph on 3 nodes of shape (1,1)", singles(&[(1, 1); 3], 4, true));
    filter_section::<MultiPortGraph>(ctx, "multi-2", "every multigraph on 2 nodes of shapes (1,1),(1,2)", multis(&[(1, 1), (1, 2)], ctx.pick(5, 7), true));
    filter_section::<MultiPortGraph>(ctx, "multi-3", "every multigraph on 3 nodes of shape (1,1)", multis(&[(1, 1); 3], ctx.pick(4, 5), false));
    stack_section::<PortGraph>(ctx, "portgraph-stacked", "every graph on 3 nodes of shape (1,1)", singles(&[(1, 1); 3], 4, true));
    stack_section::<MultiPortGraph>(ctx, "multi-stacked", "every multigraph on 3 nodes of shapes (1,1),(0,1),(1,0)", multis(&[(1, 1), (0, 1), (1, 0)], ctx.pick(5, 7), false));
    filter_section::<PortGraph>(ctx, "portgraph-4", "every graph on 4 nodes of shape (1,1)", singles(&[(1, 1); 4], 4, false));
    filter_section::<PortGraph>(ctx, "portgraph-wide", "every graph on 3 nodes of shapes (2,1),(1,2),(1,1)", singles(&[(2, 1), (1, 2), (1, 1)], 4, true));
    stack_section::<PortGraph>(ctx, "portgraph-stacked-wide", "every graph on 3 nodes of shapes (1,1),(2,1),(1,2)", singles(&[(1, 1), (2, 1), (1, 2)], 9, true));
    if !ctx.quick() {
        filter_section::<MultiPortGraph>(ctx, "multi-wide", "every multigraph on 3 nodes of shapes (2,1),(1,2),(1,1)", multis(&[(2, 1), (1, 2), (1, 1)], 4, true));
        stack_section::<PortGraph>(ctx, "portgraph-stacked-4", "every graph on 4 nodes of shape (1,1)", singles(&[(1, 1); 4], 9, true));
        stack_section::<MultiPortGraph>(ctx, "multi-stacked-3", "every multigraph on 3 nodes of shape (1,1)", multis(&[(1, 1); 3], 4, true));
    }
}

// ---------------------------------------------------------------------------
// C16
// ---------------------------------------------------------------------------

/// Nodes cut out by a boundary, and whether the boundary is well-formed: all
/// its links lead outside.
pub fn cut_out(v: &RefView, boundary: &BTreeSet<usize>) -> (BTreeSet<usize>, bool) {
    let owner = v.port_owner();
    let mut s: BTreeSet<usize> = boundary.iter().map(|p| owner[p].0).collect();
    if s.is_empty() {
        s = v.nodes.keys().copied().collect();
    }
    loop {
        let before = s.len();
        for (a, b) in &v.links {
            if !boundary.contains(&a.0) && !boundary.contains(&b.0) {
                let (x, y) = (owner[&a.0].0, owner[&b.0].0);
                if s.contains(&x) || s.contains(&y) {
                    s.extend([x, y]);
                }
            }
        }
        if s.len() == before {
            break;
        }
    }
    let ok = v.links.iter().all(|(a, b)| {
        let cut = boundary.contains(&a.0) || boundary.contains(&b.0);
        !cut || !(s.contains(&owner[&a.0].0) && s.contains(&owner[&b.0].0))
    });
    (s, ok)
}

/// All sequences without repetition over 0..n.
pub fn arrangements(n: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    let mut i = 0;
    while i < out.len() {
        for k in 0..n {
            if !out[i].contains(&k) {
                let mut v = out[i].clone();
                v.push(k);
                out.push(v);
            }
        }
        i += 1;
    }
    out
}

fn sub_nodes_case<G: TG>(spec: &Spec, order: &[usize]) -> Result<Tally, String> {
    let mut b: Built<G> = build(spec)?;
    let o = b.inner_opts();
    let owner = b.view.port_owner();
    let idx: Vec<usize> = order.iter().map(|k| b.nodes[*k]).collect();
    let inside: BTreeSet<usize> = idx.iter().copied().collect();
    let m = restrict(&b.view, |n| inside.contains(&n), |_| true);
    let s = Subgraph::with_nodes(&b.g, idx.iter().map(|n| ni(*n)));
    let mut steps = G::check_sub(&s, &m, &o)?;
    check_links_inside(&s, &m, &b.view)?;
    // boundary: the ports with a link to the outside, in order
    let crosses = |p: &usize| b.view.links.iter().any(|(x, y)| (x.0 == *p && !inside.contains(&owner[&y.0].0)) || (y.0 == *p && !inside.contains(&owner[&x.0].0)));
    let mut want = [vec![], vec![]];
    for n in &idx {
        for d in 0..2 {
            want[d].extend(b.view.nodes[n][d].iter().filter(|p| crosses(p)).map(|p| pi(*p)));
        }
    }
    ensure_eq!(s.port_boundary().input_indices().to_vec(), want[0], "boundary inputs of the nodes {idx:?}");
    ensure_eq!(s.port_boundary().output_indices().to_vec(), want[1], "boundary outputs of the nodes {idx:?}");
    let c = s.clone();
    ensure!(c == s, "a clone of the subgraph differs");
    let view = b.view.clone();
    let r = Subgraph::with_nodes(&mut b.g, idx.iter().map(|n| ni(*n)));
    steps += G::check_sub_mut(&r, &m, &o)?;
    drop(r);
    G::check_self(&b.g, &view, &b.opts()).map_err(|e| format!("the graph changed: {e}"))?;
    Ok(Tally { steps, outcome: outcome_of(&(&m, want)) })
}

fn sub_boundary_case<G: TG>(spec: &Spec, bits: u64) -> Result<Tally, String> {
    let b: Built<G> = build(spec)?;
    let ports: Vec<usize> = b.view.port_owner().keys().copied().enumerate().filter(|(k, _)| bits >> k & 1 == 1).map(|x| x.1).collect();
    sub_boundary(&b, &ports)
}

/// A larger graph: subgraphs of many node sets, in two orders, and those cut out
/// by their boundaries.
fn sub_large<G: TG>(spec: &Spec) -> Result<Tally, String> {
    let b: Built<G> = build(spec)?;
    let n = b.nodes.len();
    let owner = b.view.port_owner();
    let mut steps = 0;
    for s in node_sets(n, n <= 9) {
        heartbeat();
        let rev: Vec<usize> = s.iter().rev().copied().collect();
        steps += sub_nodes_case::<G>(spec, &s)?.steps + sub_nodes_case::<G>(spec, &rev)?.steps;
        let inside: BTreeSet<usize> = s.iter().map(|k| b.nodes[*k]).collect();
        let cut: BTreeSet<usize> = b.view.links.iter().filter(|(x, y)| inside.contains(&owner[&x.0].0) != inside.contains(&owner[&y.0].0)).map(|(x, y)| if inside.contains(&owner[&x.0].0) { x.0 } else { y.0 }).collect();
        steps += sub_boundary(&b, &cut.into_iter().collect::<Vec<_>>())?.steps;
    }
    // boundaries of one and two ports
    let ports: Vec<usize> = owner.keys().copied().collect();
    for (k, p) in ports.iter().enumerate() {
        steps += sub_boundary(&b, &[*p])?.steps;
        for q in [k / 2, ports.len() - 1 - k] {
            if q != k {
                steps += sub_boundary(&b, &[*p, ports[q]])?.steps;
            }
        }
    }
    Ok(Tally { steps, outcome: outcome_of(&b.view) })
}

/// The subgraph with this boundary, if it is well-formed.
fn sub_boundary<G: TG>(b: &Built<G>, ports: &[usize]) -> Result<Tally, String> {
    let owner = b.view.port_owner();
    let set: BTreeSet<usize> = ports.iter().copied().collect();
    let (inside, ok) = cut_out(&b.view, &set);
    if !ok {
        return Ok(Tally { steps: 0, outcome: 0 });
    }
    let o = b.inner_opts();
    let m = restrict(&b.view, |n| inside.contains(&n), |_| true);
    let mut steps = 0;
    for rev in [false, true] {
        let mut ps = ports.to_vec();
        if rev {
            ps.reverse();
        }
        let bd = Boundary::from_ports(&b.g, ps.iter().map(|p| pi(*p)));
        let s = Subgraph::new_subgraph(&b.g, bd.clone());
        steps += G::check_sub(&s, &m, &o).map_err(|e| format!("boundary {ps:?}: {e}"))?;
        check_links_inside(&s, &m, &b.view).map_err(|e| format!("boundary {ps:?}: {e}"))?;
        for d in DIRS {
            let want: Vec<_> = ps.iter().filter(|p| owner[p].1 == d).map(|p| pi(*p)).collect();
            let got = if d as usize == 0 { s.port_boundary().input_indices().to_vec() } else { s.port_boundary().output_indices().to_vec() };
            ensure_eq!(got, want, "the {d:?} boundary of {ps:?}");
        }
    }
    Ok(Tally { steps, outcome: outcome_of(&m) })
}

fn sub_section<G: TG>(ctx: &mut Ctx, name: &str, bound: &str, specs: Vec<Spec>) {
    let arr = arrangements(specs[0].shapes.len());
    let (o, i) = count(&specs[0].shapes);
    let p = 1u64 << (o + i);
    let na = arr.len() as u64;
    let at = |i: u64| (&specs[(i / na) as usize], &arr[(i % na) as usize]);
    cases(ctx, &format!("{name}-nodes"), &format!("{bound}; {} graphs x every ordered node selection", specs.len()), specs.len() as u64 * na,
        |i| format!("{:?} nodes {:?}", at(i).0, at(i).1), |i| sub_nodes_case::<G>(at(i).0, at(i).1));
    let at = |i: u64| (&specs[(i / p) as usize], i % p);
    cases(ctx, &format!("{name}-boundary"), &format!("{bound}; {} graphs x every well-formed set of boundary ports, in two orders", specs.len()), specs.len() as u64 * p,
        |i| format!("{:?} boundary {:#b}", at(i).0, at(i).1), |i| sub_boundary_case::<G>(at(i).0, at(i).1));
}

pub fn c16(ctx: &mut Ctx) {
    let c = Choice { sizes: if ctx.quick() { &[6, 7, 8, 9, 16, 17, 24] } else { &[6, 7, 8, 9, 10, 12, 15, 16, 17, 18, 24, 31, 32, 33, 34, 48, 65] }, cyclic: true, drop: ctx.pick(0, 12) };
    let (a, b) = (members::<PortGraph>(&c), members::<MultiPortGraph>(&c));
    let what = "node sets that are empty, full, a single node, all but one, a first or last part, in two orders; their boundaries; boundaries of one and two ports";
    cases(ctx, "large-portgraph", &describe(what, &a), a.len() as u64, |i| a[i as usize].0.clone(), |i| sub_large::<PortGraph>(&a[i as usize].1));
    cases(ctx, "large-multi", &describe(what, &b), b.len() as u64, |i| b[i as usize].0.clone(), |i| sub_large::<MultiPortGraph>(&b[i as usize].1));
    sub_section::<PortGraph>(ctx, "portgraph-3", "every graph on 3 nodes of shapes (1,1),(2,1),(1,2)", singles(&[(1, 1), (2, 1), (1, 2)], 9, true));
    sub_section::<PortGraph>(ctx, "portgraph-4", "every graph on 4 nodes of shape (1,1)", singles(&[(1, 1); 4], 4, false));
    sub_section::<MultiPortGraph>(ctx, "multi-3", "every multigraph on 3 nodes of shape (1,1)", multis(&[(1, 1); 3], ctx.pick(5, 6), true));
    sub_section::<MultiPortGraph>(ctx, "multi-4", "every multigraph on 4 nodes of shapes (1,1),(0,1),(1,0),(1,1)", multis(&[(1, 1), (0, 1), (1, 0), (1, 1)], ctx.pick(5, 6), false));
    sub_section::<PortGraph>(ctx, "portgraph-5", "every graph on 5 nodes of shape (1,1)", singles(&[(1, 1); 5], 5, true));
    if !ctx.quick() {
        sub_section::<PortGraph>(ctx, "portgraph-4-wide", "every graph on 4 nodes of shapes (1,2),(2,1),(1,1),(1,1)", singles(&[(1, 2), (2, 1), (1, 1), (1, 1)], 5, true));
        sub_section::<MultiPortGraph>(ctx, "multi-4-full", "every multigraph on 4 nodes of shape (1,1)", multis(&[(1, 1); 4], 5, true));
    }
}

// ---------------------------------------------------------------------------
// C17
// ---------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq)]
enum Q {
    /// Ask about a node.
    Ask(usize),
    /// One single question about a node.
    Desc(usize),
    /// Copy the region, and ask the copy.
    CloneAsk(usize),
    /// Ask for the neighbours and ports of a node.
    Links(usize),
}

/// The graph of the order checks: a ring, so that every node has links.
fn ring(n: usize, holes: bool) -> Spec {
    Spec { shapes: vec![(1, 1); n], links: (0..n).map(|k| (k, (k + 1) % n)).collect(), holes }
}

fn ask(b: &Built<PortGraph>, r: &Region<'_, &PortGraph>, parents: &[Option<usize>], q: Q) -> Res {
    let n = parents.len();
    let ins = |k: usize| k < n && below(parents, k, 0);
    let node = |k: usize| if k < n { ni(b.nodes[k]) } else { ni(b.nodes[n - 1] + 2) };
    match q {
        Q::Ask(k) => {
            ensure_eq!(r.is_descendant(node(k)), ins(k), "is_descendant of node {k}");
            ensure_eq!(r.contains_node(node(k)), ins(k), "contains_node of node {k}");
        }
        Q::Desc(k) => ensure_eq!(r.is_descendant(node(k)), ins(k), "is_descendant of node {k}"),
        Q::CloneAsk(k) => {
            let c = r.clone();
            ensure_eq!(c.is_descendant(node(k)), ins(k), "is_descendant of node {k} in a clone");
        }
        Q::Links(k) => {
            let t = (k + 1) % n;
            let both = ins(k) && ins(t);
            let p = b.g.output(node(k), 0).unwrap();
            ensure_eq!(r.contains_port(p), ins(k), "contains_port of the output of node {k}");
            ensure_eq!(r.connected(node(k), node(t)), both, "connected({k},{t})");
            ensure_eq!(r.output_links(node(k)).count(), both as usize, "number of output_links of node {k}");
        }
    }
    Ok(())
}

/// All sequences of queries, one region per sequence.
fn order_section(ctx: &mut Ctx, n: usize, len: usize) {
    let f = forests(n);
    let qs: Vec<Q> = (0..=n).map(Q::Ask).chain((0..n).map(Q::CloneAsk)).chain((0..n).map(Q::Links)).collect();
    let b: Built<PortGraph> = build(&ring(n, true)).expect("ring");
    cases(ctx, &format!("order-{n}"), &format!("region of node 0 in each of {} labelled forests on {n} nodes over a ring graph: every sequence of {len} queries (nodes and an absent node, copies, links), then all nodes in both orders", f.len()), f.len() as u64,
        |i| format!("parents {:?}", f[i as usize]),
        |i| {
            let parents = &f[i as usize];
            let h = hierarchy(parents, &b.nodes, false);
            let mut seq = vec![0usize; len];
            let mut steps = 0u64;
            loop {
                let r = Region::new(&b.g, &h, ni(b.nodes[0]));
                let run = || -> Res {
                    for &k in &seq {
                        ask(&b, &r, parents, qs[k])?;
                    }
                    let c = r.clone();
                    for k in 0..n {
                        ask(&b, &r, parents, Q::Ask(k))?;
                        ask(&b, &c, parents, Q::Ask(n - 1 - k))?;
                    }
                    Ok(())
                };
                run().map_err(|e| format!("after queries {:?}: {e}", seq.iter().map(|k| qs[*k]).collect::<Vec<_>>()))?;
                steps += 2 * n as u64 + len as u64;
                let mut k = 0;
                while k < len {
                    seq[k] += 1;
                    if seq[k] < qs.len() {
                        break;
                    }
                    seq[k] = 0;
                    k += 1;
                }
                if k == len {
                    break;
                }
            }
            Ok(Tally { steps, outcome: i })
        });
}

/// All interleavings of the threads' lock steps.
fn threads_section(ctx: &mut Ctx, name: &str, n: usize, threads: usize, len: usize, preempt: usize, asks: &[Q], before: &[Option<usize>]) {
    let f = forests(n);
    let b: Built<PortGraph> = build(&ring(n, false)).expect("ring");
    // scripts: one sequence of length len per thread; threads are interchangeable
    let mut scripts: Vec<Vec<Q>> = vec![vec![]];
    for _ in 0..len {
        scripts = scripts.iter().flat_map(|s| asks.iter().map(move |q| { let mut v = s.clone(); v.push(*q); v })).collect();
    }
    let mut combos: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..threads {
        combos = combos.iter().flat_map(|c| (c.last().copied().unwrap_or(0)..scripts.len()).map(move |k| { let mut v = c.clone(); v.push(k); v })).collect();
    }
    let per = (combos.len() * before.len()) as u64;
    let total = f.len() as u64 * per;
    let at = |i: u64| (&f[(i / per) as usize], &combos[(i % per) as usize / before.len()], before[i as usize % before.len()]);
    let describe = |i: u64| {
        let (p, c, w) = at(i);
        format!("parents {p:?}, asked before: {w:?}, threads {:?}", c.iter().map(|k| &scripts[*k]).collect::<Vec<_>>())
    };
    let bound_p = if preempt > 100 { "every interleaving".to_string() } else { format!("every interleaving with at most {preempt} preemptions") };
    let total_schedules = std::sync::atomic::AtomicU64::new(0);
    let capped = std::sync::atomic::AtomicU64::new(0);
    let cap = ctx.pick(20_000, 2_000_000);
    cases(ctx, name, &format!("region of node 0 in each of {} labelled forests on {n} nodes, {threads} threads of {len} queries, {} combinations of queries, {bound_p} of lock steps", f.len(), per), total, describe, |i| {
        let (parents, combo, warm) = at(i);
        let h = hierarchy(parents, &b.nodes, false);
        let r = crate::sched::explore(
            threads,
            preempt,
            cap,
            || {
                let r = Region::new(&b.g, &h, ni(b.nodes[0]));
                if let Some(k) = warm {
                    r.is_descendant(ni(b.nodes[k]));
                }
                r
            },
            |r, t| {
                for q in &scripts[combo[t]] {
                    ask(&b, r, parents, *q)?;
                }
                Ok(())
            },
            |r, res: Vec<Res>| {
                for (t, x) in res.into_iter().enumerate() {
                    x.map_err(|e| format!("thread {t}: {e}"))?;
                }
                for k in 0..n {
                    ask(&b, r, parents, Q::Ask(k)).map_err(|e| format!("afterwards: {e}"))?;
                    ask(&b, r, parents, Q::CloneAsk(k)).map_err(|e| format!("afterwards: {e}"))?;
                }
                Ok(())
            },
        )
        .map_err(|(s, m)| format!("schedule {s:?}: {m}"))?;
        if !r.complete {
            capped.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        }
        total_schedules.fetch_add(r.schedules, std::sync::atomic::Ordering::Relaxed);
        Ok(Tally { steps: r.steps, outcome: r.schedules })
    });
    if ctx.replay.is_none() {
        let n = total_schedules.load(std::sync::atomic::Ordering::Relaxed);
        println!("    {n} schedules");
        if let Some(s) = ctx.sections.last_mut() {
            s.bound = format!("{}; {n} schedules executed", s.bound);
            let c = capped.load(std::sync::atomic::Ordering::Relaxed);
            if c > 0 {
                s.bound = format!("{}; {c} combinations stopped at {cap} schedules, in order of increasing preemptions", s.bound);
                s.complete = false;
            }
        }
    }
}

/// Larger hierarchies: every pair of first queries, then all nodes.
fn deep_orders(ctx: &mut Ctx, sizes: &[usize]) {
    let mut all: Vec<(String, Vec<Option<usize>>)> = sizes.iter().flat_map(|n| big_forests(*n)).collect();
    all.sort_by_key(|x| std::cmp::Reverse(x.1.len()));
    cases(ctx, "order-deep", &format!("{} larger hierarchies of {sizes:?} nodes: region of every node; every pair of first queries, then all nodes in both orders, in the region and in copies made before and after", all.len()), all.len() as u64,
        |i| all[i as usize].0.clone(),
        |i| {
            let parents = &all[i as usize].1;
            let n = parents.len();
            let b: Built<PortGraph> = build(&ring(n, i % 2 == 1))?;
            let h = hierarchy(parents, &b.nodes, i % 4 < 2);
            let some: Vec<usize> = if n <= 20 { (0..n).collect() } else { vec![0, 1, 2, n / 3, n / 2, n / 2 + 1, n - 2, n - 1] };
            let mut steps = 0;
            for &root in &some {
                heartbeat();
                let ins: Vec<bool> = (0..n).map(|k| below(parents, k, root)).collect();
                let check = |r: &Region<'_, &PortGraph>, k: usize| -> Res {
                    ensure_eq!(r.is_descendant(ni(b.nodes[k])), ins[k], "is_descendant of node {k}");
                    ensure_eq!(r.contains_node(ni(b.nodes[k])), ins[k], "contains_node of node {k}");
                    Ok(())
                };
                for &x in &some {
                    for &y in &some {
                        let r = Region::new(&b.g, &h, ni(b.nodes[root]));
                        let run = || -> Res {
                            check(&r, x)?;
                            let c1 = r.clone();
                            check(&r, y)?;
                            let c2 = r.clone();
                            for k in 0..n {
                                check(&r, k)?;
                                check(&c1, n - 1 - k)?;
                                check(&c2, (k * 2 + 1) % n)?;
                            }
                            ensure_eq!(r.node_count(), ins.iter().filter(|x| **x).count(), "node_count");
                            for k in 0..n {
                                check(&r, n - 1 - k)?;
                            }
                            Ok(())
                        };
                        run().map_err(|e| format!("region of node {root}, after asking about {x}, {y}: {e}"))?;
                        steps += 8 * n as u64;
                    }
                }
            }
            Ok(Tally { steps, outcome: i })
        });
}

pub fn c17(ctx: &mut Ctx) {
    deep_orders(ctx, if ctx.quick() { &[7, 9, 12, 16, 17, 33, 65] } else { &[7, 8, 9, 10, 12, 15, 16, 17, 18, 20, 32, 33, 64, 65, 70, 129] });
    order_section(ctx, 3, ctx.pick(4, 5));
    order_section(ctx, 4, 4);
    order_section(ctx, 5, ctx.pick(3, 4));
    let (q, n) = (ctx.quick(), 1000);
    threads_section(ctx, "threads-2x1", 3, 2, 1, n, &[Q::Desc(1), Q::Desc(2), Q::CloneAsk(2)], if q { &[None] } else { &[None, Some(1)] });
    threads_section(ctx, "threads-2x1-long", 3, 2, 1, if q { 2 } else { n }, &(1..3).map(Q::Ask).chain((1..3).map(Q::CloneAsk)).collect::<Vec<_>>(), &[None, Some(1)]);
    threads_section(ctx, "threads-2x1-4", 4, 2, 1, if q { 1 } else { n }, &(0..4).map(Q::Desc).chain([Q::CloneAsk(3)]).collect::<Vec<_>>(), &[None]);
    threads_section(ctx, "threads-2x2", 3, 2, 2, if q { 1 } else { 3 }, &[Q::Desc(1), Q::Desc(2), Q::CloneAsk(2)], &[None]);
    threads_section(ctx, "threads-3x1", 3, 3, 1, if q { 1 } else { 4 }, &[Q::Desc(1), Q::Desc(2), Q::CloneAsk(2)], &[None]);
    if !q {
        threads_section(ctx, "threads-3x2", 3, 3, 2, 2, &[Q::Desc(1), Q::Desc(2), Q::CloneAsk(2)], &[None]);
    }
}
