//! Larger graphs: every member of some parameterised families, in several
//! numberings and orders of ports and links.

use crate::gen::*;
use crate::viewcheck::*;
use portgraph::{MultiPortGraph, PortGraph};

/// A family member: name, number of nodes, links between nodes.
pub struct Fam {
    pub name: String,
    pub n: usize,
    pub links: Vec<(usize, usize)>,
}

pub fn acyclic_families(n: usize) -> Vec<Fam> {
    let mut v = vec![];
    let mut add = |name: &str, n: usize, links: Vec<(usize, usize)>| v.push(Fam { name: format!("{name}-{n}"), n, links });
    let chain: Vec<(usize, usize)> = (1..n).map(|k| (k - 1, k)).collect();
    add("chain", n, chain.clone());
    add("skips", n, chain.iter().copied().chain((2..n).map(|k| (k - 2, k))).collect());
    add("jumps", n, chain.iter().copied().chain((n / 2..n).map(|k| (k - n / 2, k)).filter(|e| e.0 != e.1)).collect());
    add("ladder", n, (2..n).map(|k| (k - 2, k)).chain((1..n).step_by(2).map(|k| (k - 1, k))).collect());
    add("diamond", n, (1..n - 1).flat_map(|k| [(0, k), (k, n - 1)]).collect());
    add("out-tree", n, (1..n).map(|k| ((k - 1) / 2, k)).collect());
    add("in-tree", n, (1..n).map(|k| (k, (k - 1) / 2)).collect());
    let w = (1..).find(|w| w * w >= n).unwrap();
    add("grid", n, (0..n).flat_map(|k| [(k, k + 1), (k, k + w)].into_iter().filter(move |e| e.1 < n && (e.1 != k + 1 || e.1 % w != 0))).collect());
    let h = (n / 2).min(6);
    add("bipartite", 2 * h, (0..h).flat_map(|a| (h..2 * h).map(move |b| (a, b))).collect());
    add("parallel", 3, (0..n).map(|_| (0, 1)).chain((0..n).map(|_| (1, 2))).collect());
    add("triples", n, (1..n).filter(|k| k % 3 != 0).map(|k| (k - 1, k)).collect());
    if n <= 9 {
        add("tournament", n, (0..n).flat_map(|b| (0..b).map(move |a| (a, b))).collect());
    }
    v
}

pub fn cyclic_families(n: usize) -> Vec<Fam> {
    let mut v = vec![];
    let mut add = |name: &str, n: usize, links: Vec<(usize, usize)>| v.push(Fam { name: format!("{name}-{n}"), n, links });
    let chain: Vec<(usize, usize)> = (1..n).map(|k| (k - 1, k)).collect();
    let ring: Vec<(usize, usize)> = (0..n).map(|k| (k, (k + 1) % n)).collect();
    add("ring", n, ring.clone());
    add("chords", n, ring.iter().copied().chain((0..n).map(|k| (k, (k + 3) % n))).collect());
    add("two-way", n, chain.iter().flat_map(|(a, b)| [(*a, *b), (*b, *a)]).collect());
    add("returns", n, chain.iter().copied().chain((1..n).map(|k| (k, 0))).collect());
    add("loops", n, chain.iter().copied().chain((0..n).map(|k| (k, k))).collect());
    let h = n / 2;
    add("two-rings", 2 * h, (0..h).flat_map(|k| [(k, (k + 1) % h), (h + k, h + (k + 1) % h)]).chain([(h - 1, h)]).collect());
    add("wheel", n, (1..n).flat_map(|k| [(0, k), (k, if k + 1 == n { 1 } else { k + 1 }), (k, 0)]).collect());
    if n <= 7 {
        add("complete", n, (0..n).flat_map(|a| (0..n).map(move |b| (a, b))).collect());
    }
    v
}

/// How a family member is laid out.
#[derive(Clone, Copy, Debug)]
pub struct Layout {
    /// 0: as listed, 1: reversed, 2: scattered.
    pub numbering: usize,
    pub ports_reversed: bool,
    pub links_reversed: bool,
    /// All links of a node at its first ports.
    pub folded: bool,
}

pub const LAYOUTS: [Layout; 4] = [
    Layout { numbering: 0, ports_reversed: false, links_reversed: false, folded: false },
    Layout { numbering: 1, ports_reversed: false, links_reversed: true, folded: false },
    Layout { numbering: 2, ports_reversed: true, links_reversed: false, folded: false },
    Layout { numbering: 0, ports_reversed: true, links_reversed: true, folded: false },
];
pub const FOLDED: [Layout; 2] = [
    Layout { numbering: 0, ports_reversed: false, links_reversed: false, folded: true },
    Layout { numbering: 2, ports_reversed: false, links_reversed: true, folded: true },
];

fn number(k: usize, n: usize, how: usize) -> usize {
    match how {
        0 => k,
        1 => n - 1 - k,
        _ => {
            let step = (2..).map(|s| n / 2 + s).find(|s| gcd(*s, n) == 1).unwrap();
            (k * step + 1) % n
        }
    }
}
fn gcd(a: usize, b: usize) -> usize {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}

pub fn lay_out(n: usize, links: &[(usize, usize)], l: Layout, holes: bool) -> Spec {
    let e: Vec<(usize, usize)> = links.iter().map(|(a, b)| (number(*a, n, l.numbering), number(*b, n, l.numbering))).collect();
    let mut shapes = vec![(0, 0); n];
    // offset of each link at either end
    let mut at: Vec<(usize, usize)> = vec![];
    for (a, b) in &e {
        if l.folded {
            at.push((0, 0));
            shapes[*a].1 = 1;
            shapes[*b].0 = 1;
        } else {
            at.push((shapes[*a].1, shapes[*b].0));
            shapes[*a].1 += 1;
            shapes[*b].0 += 1;
        }
    }
    let (mut o0, mut i0) = (vec![], vec![]);
    let (mut o, mut i) = (0, 0);
    for s in &shapes {
        o0.push(o);
        i0.push(i);
        o += s.1;
        i += s.0;
    }
    let mut out: Vec<(usize, usize)> = e
        .iter()
        .zip(&at)
        .map(|((a, b), (x, y))| {
            let (x, y) = if l.ports_reversed { (shapes[*a].1 - 1 - x, shapes[*b].0 - 1 - y) } else { (*x, *y) };
            (o0[*a] + x, i0[*b] + y)
        })
        .collect();
    if l.links_reversed {
        out.reverse();
    }
    Spec { shapes, links: out, holes }
}

/// The same graph with one more, free input and output on every node.
pub fn opened(s: &Spec) -> Spec {
    let (o, i) = (Spec::out_slots(&s.shapes), Spec::in_slots(&s.shapes));
    // node k has k additional slots before it
    Spec {
        shapes: s.shapes.iter().map(|x| (x.0 + 1, x.1 + 1)).collect(),
        links: s.links.iter().map(|(a, b)| (a + o[*a].0, b + i[*b].0)).collect(),
        holes: s.holes,
    }
}

/// A graph of a family, with the name of the case.
pub type Named = (String, Spec);

pub struct Choice<'a> {
    pub sizes: &'a [usize],
    pub cyclic: bool,
    /// Leave out each single link, for graphs of up to this size.
    pub drop: usize,
}

/// All members, in every layout; multigraphs also with shared ports.
pub fn members<G: TG>(c: &Choice) -> Vec<Named> {
    let mut v = vec![];
    for &n in c.sizes {
        let mut f = acyclic_families(n);
        if c.cyclic {
            f.extend(cyclic_families(n));
        }
        for f in &f {
            let layouts = LAYOUTS.iter().chain(FOLDED.iter().filter(|_| G::MULTI));
            for (k, l) in layouts.enumerate() {
                v.push((format!("{} {l:?}", f.name), lay_out(f.n, &f.links, *l, k % 2 == 1)));
            }
            if f.n <= c.drop && f.n > 3 {
                for x in 0..f.links.len() {
                    let mut links = f.links.clone();
                    let e = links.remove(x);
                    let l = if G::MULTI { FOLDED[x % 2] } else { LAYOUTS[x % 4] };
                    v.push((format!("{} without link {e:?} {l:?}", f.name), lay_out(f.n, &links, l, x % 2 == 0)));
                }
            }
        }
    }
    v
}

/// All ways to reject nothing, one node or one port; for larger graphs every
/// `1/limit`-th of them.
pub fn rejections<G: TG>(b: &Built<G>, limit: usize) -> Vec<Mask> {
    let all = Mask { nodes: Bits::ALL, ports: Bits::ALL };
    let mut v: Vec<Mask> = b.nodes.iter().map(|n| Mask { nodes: Bits::ALL.without(*n), ..all }).collect();
    v.extend(b.view.port_owner().keys().map(|p| Mask { ports: Bits::ALL.without(*p), ..all }));
    let step = v.len().div_ceil(limit).max(1);
    let mut v: Vec<Mask> = v.into_iter().step_by(step).collect();
    v.push(all);
    v
}

/// Node sets of a graph of n nodes (n <= 64): none, all, single nodes,
/// everything but one node, the first k nodes, the last k nodes, every second
/// node, and pairs.
pub fn node_sets(n: usize, pairs: bool) -> Vec<Vec<usize>> {
    let mut v: Vec<Vec<usize>> = vec![vec![], (0..n).collect(), (0..n).step_by(2).collect(), (1..n).step_by(2).collect()];
    for k in 0..n {
        v.push(vec![k]);
        v.push((0..n).filter(|x| *x != k).collect());
        if k > 1 {
            v.push((0..k).collect());
            v.push((0..k).rev().map(|x| n - 1 - x).collect());
        }
        if pairs {
            v.extend((0..k).map(|x| vec![k, x]));
        }
    }
    v
}

/// Larger forests on n nodes: a chain, a star, a comb, a binary tree, two
/// chains joined at the root, several small trees; numbered from the root, from
/// the leaves, and scattered.
pub fn big_forests(n: usize) -> Vec<(String, Vec<Option<usize>>)> {
    let mut v: Vec<(String, Vec<Option<usize>>)> = vec![];
    let mut add = |name: &str, f: &dyn Fn(usize) -> Option<usize>| {
        for how in 0..3 {
            let mut p = vec![None; n];
            for k in 0..n {
                p[number(k, n, how)] = f(k).map(|x| number(x, n, how));
            }
            v.push((format!("{name}-{n} numbering {how}"), p));
        }
    };
    add("chain", &|k| k.checked_sub(1));
    add("star", &|k| (k > 0).then_some(0));
    add("comb", &|k| if k == 0 { None } else if k % 2 == 1 { Some(k - 1) } else { Some(k - 2) });
    add("binary", &|k| (k > 0).then(|| (k - 1) / 2));
    add("broom", &|k| if k == 0 { None } else if k <= n / 2 { Some(k - 1) } else { Some(n / 2) });
    add("fork", &|k| match k {
        0 => None,
        1 | 2 => Some(0),
        _ => Some(k - 2),
    });
    add("trees", &|k| if k % 5 == 0 { None } else { Some(k - 1 - (k % 5) / 3) });
    v
}

pub fn describe(bound: &str, v: &[Named]) -> String {
    format!("{} larger graphs ({bound}; chains, trees, grids, diamonds, parallel links and others in several numberings and port orders)", v.len())
}
