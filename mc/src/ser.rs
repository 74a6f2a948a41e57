//! Serialization round trips (C28).
//!
//! Every state of the other explorations is also driven through "twins": at
//! every step the same operation is applied to the original and to a copy that
//! has been written out and read back after every earlier step, once per
//! format.  Twins must stay equal to the original, answer every query like the
//! reference model and serialize to the same bytes.

use crate::engine::*;
use crate::hier::{Forest, GSys, HSys};
use crate::maps::{WCfg, WSys, W};
use crate::multi::{self, MCfg, MSys};
use crate::pg::{self, Judge, PCfg, PSys};
use crate::{ensure, ensure_eq};
use bitvec::vec::BitVec;
use portgraph::index::{MaybeNodeIndex, MaybePortIndex, Unsigned};
use portgraph::view::{LinkMut, LinkView, PortMut, PortView};
use portgraph::{Direction, Hierarchy, MultiPortGraph, NodeIndex, PortGraph, PortIndex, PortOffset, SecondaryMap, UnmanagedDenseMap, Weights};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::sync::Arc;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Fmt {
    Json,
    Compact,
    Named,
}
const FMTS: [Fmt; 3] = [Fmt::Json, Fmt::Compact, Fmt::Named];

fn write<T: Serialize>(f: Fmt, t: &T) -> Result<Vec<u8>, String> {
    match f {
        Fmt::Json => serde_json::to_vec(t).map_err(|e| format!("JSON serialization failed: {e}")),
        Fmt::Compact => rmp_serde::to_vec(t).map_err(|e| format!("MessagePack serialization failed: {e}")),
        Fmt::Named => rmp_serde::to_vec_named(t).map_err(|e| format!("named MessagePack serialization failed: {e}")),
    }
}
fn read<T: DeserializeOwned>(f: Fmt, b: &[u8]) -> Result<T, String> {
    match f {
        Fmt::Json => serde_json::from_slice(b).map_err(|e| format!("JSON deserialization failed: {e} of {}", String::from_utf8_lossy(b))),
        _ => rmp_serde::from_slice(b).map_err(|e| format!("{f:?} MessagePack deserialization failed: {e}")),
    }
}
/// Write out, read back; the result must serialize to the same bytes.
fn trip<T: Serialize + DeserializeOwned>(f: Fmt, t: &T) -> Result<T, String> {
    let b = write(f, t)?;
    let u: T = read(f, &b)?;
    let c = write(f, &u)?;
    ensure!(b == c, "{f:?}: serializing the deserialized value gives different bytes");
    if f == Fmt::Json {
        // Through the generic value as well: field order must not matter.
        let v = serde_json::to_value(t).map_err(|e| format!("to_value failed: {e}"))?;
        let w: T = serde_json::from_value(v).map_err(|e| format!("from_value failed: {e}"))?;
        ensure!(write(f, &w)? == b, "a round trip through serde_json::Value changes the value");
        // And through a reader, where strings cannot be borrowed.
        let w: T = serde_json::from_reader(&b[..]).map_err(|e| format!("from_reader failed: {e}"))?;
        ensure!(write(f, &w)? == b, "reading from a stream changes the value");
    }
    Ok(u)
}

trait Again: Sys {
    fn again(&self, f: Fmt) -> Result<Self, String>;
    fn same(&self, o: &Self) -> bool;
}

impl Again for PSys {
    fn again(&self, f: Fmt) -> Result<Self, String> {
        Ok(PSys { g: trip(f, &self.g)?, ..self.clone() })
    }
    fn same(&self, o: &Self) -> bool {
        self.g == o.g
    }
}
impl Again for MSys {
    fn again(&self, f: Fmt) -> Result<Self, String> {
        let mut s = self.clone();
        s.g = trip(f, &self.g)?;
        Ok(s)
    }
    fn same(&self, o: &Self) -> bool {
        self.g == o.g
    }
}
impl Again for HSys {
    fn again(&self, f: Fmt) -> Result<Self, String> {
        Ok(HSys { h: trip(f, &self.h)?, ..self.clone() })
    }
    fn same(&self, o: &Self) -> bool {
        self.h == o.h
    }
}
impl<G> Again for GSys<G>
where
    G: PortMut + LinkMut + Clone + Send + Sync + Serialize + DeserializeOwned + PartialEq,
{
    fn again(&self, f: Fmt) -> Result<Self, String> {
        Ok(GSys { h: trip(f, &self.h)?, g: trip(f, &self.g)?, ..self.clone() })
    }
    fn same(&self, o: &Self) -> bool {
        self.h == o.h && self.g == o.g
    }
}
impl<G> Again for WSys<G>
where
    G: LinkMut + Clone + Send + Sync + Default + Serialize + DeserializeOwned + PartialEq,
{
    fn again(&self, f: Fmt) -> Result<Self, String> {
        Ok(WSys { g: trip(f, &self.g)?, w: trip(f, &self.w)?, sw: trip(f, &self.sw)?, ..self.clone() })
    }
    fn same(&self, o: &Self) -> bool {
        self.g == o.g && self.w.nodes == o.w.nodes && self.w.ports == o.w.ports && self.sw == o.sw
    }
}

#[derive(Clone)]
struct Ser<S> {
    s: S,
    twins: Vec<(Fmt, S)>,
    /// The original itself broke: another property's business.
    dead: bool,
    broken: Option<String>,
}

impl<S: Again> Ser<S> {
    fn new(s: S) -> Self {
        let mut r = Ser { s, twins: vec![], dead: false, broken: None };
        if guarded(|| r.s.check()).is_err() {
            r.dead = true;
            return r;
        }
        for f in FMTS {
            match guarded(|| r.s.again(f)) {
                Ok(t) => r.twins.push((f, t)),
                Err(e) => r.broken = Some(format!("initial state, {f:?}: {e}")),
            }
        }
        r
    }
}

impl<S: Again> Sys for Ser<S> {
    type Op = S::Op;
    fn ops(&self) -> Vec<S::Op> {
        if self.dead || self.broken.is_some() {
            return vec![];
        }
        self.s.ops()
    }
    fn apply(&mut self, op: &S::Op) -> Res {
        let s = &mut self.s;
        if guarded(|| s.apply(op)).is_err() || guarded(|| s.check()).is_err() {
            self.dead = true;
            return Ok(());
        }
        for (f, t) in self.twins.iter_mut() {
            t.apply(op).map_err(|e| format!("after a {f:?} round trip: {e}"))?;
            *t = t.again(*f)?;
        }
        Ok(())
    }
    fn check(&self) -> Res {
        if let Some(b) = &self.broken {
            return Err(b.clone());
        }
        if self.dead {
            return Ok(());
        }
        let mut a = vec![];
        self.s.key(&mut a);
        for (f, t) in &self.twins {
            ensure!(self.s.same(t) && t.same(&self.s), "after a {f:?} round trip the value is not equal to the original");
            t.check().map_err(|e| format!("after a {f:?} round trip: {e}"))?;
            let mut b = vec![];
            t.key(&mut b);
            ensure!(a == b, "after a {f:?} round trip the state differs from the original's");
        }
        Ok(())
    }
    fn key(&self, out: &mut Vec<u8>) {
        out.push(self.dead as u8);
        let a = out.len();
        self.s.key(out);
        // Copies that differ from the original make a different state.
        let b = out.len();
        for (_, t) in &self.twins {
            let c = out.len();
            t.key(out);
            if out[a..b] == out[c..] {
                out.truncate(c);
            }
        }
    }
    fn outcome(&self) -> u64 {
        self.s.outcome()
    }
}

fn wrap<S: Again>(v: Vec<(String, S)>) -> Vec<(String, Ser<S>)> {
    v.into_iter().map(|(n, s)| (n, Ser::new(s))).collect()
}

fn weights<G>(ctx: &mut Ctx, name: &str, cfg: WCfg, depth: usize)
where
    G: LinkMut + Clone + Send + Sync + Default + Serialize + DeserializeOwned + PartialEq,
{
    let bound = format!("<={} nodes of shapes {:?}, resizes to {:?}, <={} links; removal, swapping, compaction, clearing; graph and weights round-tripped after every step", cfg.max_nodes, cfg.shapes, cfg.sizes, cfg.max_links);
    let s = WSys::<G> { g: G::default(), w: Weights::new(), sw: UnmanagedDenseMap::new(), bits: BitVec::new(), set: HashSet::new(), m: BTreeMap::new(), bad: None, cfg: Arc::new(cfg) };
    bfs(ctx, Bfs { name: name.into(), depth, max_states: 8_000_000, bound }, wrap(vec![("empty".into(), s)]));
}

// --- scalar types ----------------------------------------------------------

fn scalar<T: Serialize + DeserializeOwned + PartialEq + Debug>(x: &T, json: &str) -> Res {
    for f in FMTS {
        let y = trip(f, x)?;
        ensure!(y == *x, "{f:?} round trip of {x:?} gives {y:?}");
        // As an element of a sequence and as the content of an option.
        let v: Vec<Option<T>> = {
            let b = write(f, &vec![Some(x), None, Some(x)])?;
            read(f, &b)?
        };
        ensure!(v.len() == 3 && v[0].as_ref() == Some(x) && v[2].as_ref() == Some(x) && v[1].is_none(), "{f:?} round trip of [{x:?}, none, {x:?}] gives {v:?}");
    }
    let _ = json;
    Ok(())
}

fn index_case<U>(v: usize) -> Result<Tally, String>
where
    U: Unsigned + Serialize + DeserializeOwned + 'static,
{
    let mut steps = 0;
    let max = NodeIndex::<U>::max_index();
    let valid = v <= max;
    let bits = std::mem::size_of::<U>() * 8;
    if valid {
        scalar(&NodeIndex::<U>::new(v), "")?;
        scalar(&PortIndex::<U>::new(v), "")?;
        scalar(&PortOffset::<U>::new_incoming(v), "")?;
        scalar(&PortOffset::<U>::new_outgoing(v), "")?;
        for f in FMTS {
            let m = MaybeNodeIndex::<U>::new(Some(NodeIndex::new(v)));
            ensure!(trip(f, &m)? == m, "{f:?} round trip of {m:?} (u{bits})");
            let m = MaybePortIndex::<U>::new(Some(PortIndex::new(v)));
            ensure!(trip(f, &m)? == m, "{f:?} round trip of {m:?} (u{bits})");
            // An index is readable as the number it stands for, at every width
            // that can hold it.
            let n: NodeIndex<u64> = read(f, &write(f, &NodeIndex::<U>::new(v))?)?;
            ensure!(n.index() == v, "{f:?}: NodeIndex({v}) of u{bits} read as {n:?} of u64");
            let n: PortOffset<u64> = read(f, &write(f, &PortOffset::<U>::new_outgoing(v))?)?;
            ensure!(n == PortOffset::new_outgoing(v), "{f:?}: Outgoing({v}) of u{bits} read as {n:?} of u64");
            steps += 6;
        }
        steps += 24;
    }
    // A number beyond the range of the type is refused, not wrapped.
    for f in FMTS {
        let b = write(f, &v)?;
        ensure!(read::<NodeIndex<U>>(f, &b).map(|x| x.index()).ok() == valid.then_some(v), "{f:?}: reading {v} as a NodeIndex of u{bits}");
        ensure!(read::<PortIndex<U>>(f, &b).map(|x| x.index()).ok() == valid.then_some(v), "{f:?}: reading {v} as a PortIndex of u{bits}");
        ensure!(read::<MaybeNodeIndex<U>>(f, &b).ok().map(|x| x.to_option().map(|x| x.index())) == valid.then_some(Some(v)), "{f:?}: reading {v} as a MaybeNodeIndex of u{bits}");
        ensure!(read::<MaybePortIndex<U>>(f, &b).ok().map(|x| x.to_option().map(|x| x.index())) == valid.then_some(Some(v)), "{f:?}: reading {v} as a MaybePortIndex of u{bits}");
        if v < NodeIndex::<usize>::max_index() {
            for d in [Direction::Incoming, Direction::Outgoing] {
                let b = write(f, &PortOffset::<usize>::new(d, v))?;
                let r = read::<PortOffset<U>>(f, &b).ok();
                ensure!(r == valid.then(|| PortOffset::new(d, v)), "{f:?}: reading offset {v} {d:?} as a PortOffset of u{bits}");
            }
        }
        steps += 6;
    }
    if v == 0 {
        for f in FMTS {
            ensure!(trip(f, &MaybeNodeIndex::<U>::default())?.is_none(), "{f:?} round trip of no node");
            ensure!(trip(f, &MaybePortIndex::<U>::default())?.is_none(), "{f:?} round trip of no port");
            for d in [Direction::Incoming, Direction::Outgoing] {
                ensure!(trip(f, &d)? == d, "{f:?} round trip of {d:?}");
            }
        }
    }
    Ok(Tally { steps, outcome: valid as u64 })
}

fn edge_values(bits: u32) -> Vec<usize> {
    let mut v = vec![0usize, 1, 2, 127, 128, 255, 256];
    for b in [7u32, 8, 15, 16, 23, 24, 31, 32, 33, 62, 63] {
        let x = 1usize << b;
        v.extend([x - 3, x - 2, x - 1, x, x + 1, x + 2]);
    }
    v.extend([usize::MAX, usize::MAX - 1, usize::MAX / 2, usize::MAX / 2 + 1]);
    let _ = bits;
    v.sort();
    v.dedup();
    v
}

// --- dense maps ------------------------------------------------------------

/// A dense map with a chosen default and content, then further use.
fn dense_case(case: u64) -> Result<Tally, String> {
    let default = W([7, 0, 3][(case % 3) as usize]);
    let mut c = case / 3;
    let mut m: UnmanagedDenseMap<PortIndex, W> = UnmanagedDenseMap::with_default(default.clone());
    let mut model: BTreeMap<usize, W> = BTreeMap::new();
    // Each of five slots: untouched, set to one of three values (the default among them).
    for k in 0..5usize {
        let d = c % 4;
        c /= 4;
        if d > 0 {
            let w = W([7, 0, 3][(d - 1) as usize]);
            m.set(PortIndex::new(k), w.clone());
            model.insert(k, w);
        }
    }
    let get = |k: usize| model.get(&k).cloned().unwrap_or(default.clone());
    let mut steps = 0;
    for f in FMTS {
        let t = trip(f, &m)?;
        ensure!(t == m && m == t, "{f:?} round trip is not equal: {t:?} for {m:?}");
        for k in 0..9 {
            ensure_eq!(*t.get(PortIndex::new(k)), get(k), "{f:?}: value of {k} after a round trip");
            ensure_eq!(t[PortIndex::new(k)], get(k), "{f:?}: value of {k} after a round trip (by index)");
        }
        ensure_eq!(t.default_value(), default.clone(), "{f:?}: default after a round trip");
        let mut it: Vec<(usize, W)> = t.iter().map(|(k, v)| (k.index(), v.clone())).filter(|(_, v)| *v != default).collect();
        it.sort();
        let want: Vec<(usize, W)> = model.iter().filter(|(_, v)| **v != default).map(|(k, v)| (*k, v.clone())).collect();
        ensure_eq!(it, want, "{f:?}: non-default entries after a round trip");
        // It stays usable.
        for k in 0..8 {
            let mut u = t.clone();
            u[PortIndex::new(k)] = W(99);
            let tk = SecondaryMap::take(&mut u, PortIndex::new((k + 1) % 8));
            ensure_eq!(tk, get((k + 1) % 8), "{f:?}: take after a round trip");
            u.rekey(PortIndex::new(k), Some(PortIndex::new(8)));
            for j in 0..9 {
                let w = if j == 8 { W(99) } else if j == k || j == (k + 1) % 8 { default.clone() } else { get(j) };
                ensure_eq!(*u.get(PortIndex::new(j)), w, "{f:?}: value of {j} after a round trip, setting {k}, taking and rekeying");
            }
            steps += 1;
        }
    }
    Ok(Tally { steps, outcome: case })
}

// --- size boundaries -------------------------------------------------------

/// A graph of `n` nodes of one shape, linked in a pattern, with some removed.
#[derive(Clone, Copy, Debug)]
struct Big {
    n: usize,
    shape: (usize, usize),
    /// Every node is linked to the one that many places on.
    stride: usize,
    /// Every so many-th node is removed again (0: none).
    remove: usize,
}

fn dump<G: LinkView>(g: &G) -> impl PartialEq + Debug {
    let nodes: Vec<NodeIndex> = g.nodes_iter().collect();
    let ports: Vec<_> = nodes.iter().flat_map(|n| g.all_ports(*n)).map(|p| (p, g.port_node(p), g.port_offset(p).map(|o| (o.direction(), o.index())))).collect();
    let links: Vec<_> = nodes.iter().flat_map(|n| g.links(*n, Direction::Outgoing)).map(|(a, b)| (a.into(), b.into())).collect::<Vec<(PortIndex, PortIndex)>>();
    let slots: Vec<usize> = nodes.iter().map(|n| g.node_port_capacity(*n)).collect();
    (nodes, ports, links, slots, (g.node_count(), g.port_count(), g.link_count()))
}

fn big_graph<G>(b: Big, multi: bool) -> Result<Tally, String>
where
    G: LinkMut + Clone + Default + Serialize + DeserializeOwned + PartialEq,
{
    // Anything that goes wrong before the first round trip is not ours.
    let made = guarded(|| {
        let mut g = G::default();
        let v: Vec<NodeIndex> = (0..b.n).map(|_| g.add_node(b.shape.0, b.shape.1)).collect();
        if b.stride > 0 {
            for k in 0..b.n.saturating_sub(b.stride) {
                for o in 0..b.shape.0.min(b.shape.1) {
                    let _ = g.link_nodes(v[k], o, v[k + b.stride], o);
                    if multi && k < 300 {
                        let _ = g.link_nodes(v[k], o, v[k + b.stride], 0);
                    }
                }
            }
        }
        if b.remove > 0 {
            for k in (0..b.n).step_by(b.remove) {
                g.remove_node(v[k]);
            }
        }
        Ok(g)
    });
    let Ok(g) = made else { return Ok(Tally { steps: 0, outcome: 0 }) };
    let want = dump(&g);
    let step = |g: &mut G, k: usize| -> Result<String, String> {
        guarded(|| {
            let nodes: Vec<NodeIndex> = g.nodes_iter().collect();
            let at = |j: usize| nodes.get(j.min(nodes.len().saturating_sub(1))).copied().unwrap_or(NodeIndex::new(0));
            Ok(match k {
                0 | 1 | 2 | 7 | 13 => format!("add {:?}", g.add_node(b.shape.0, b.shape.1)),
                3 => format!("add empty {:?}", g.add_node(0, 0)),
                4 => {
                    g.remove_node(at(b.n / 2));
                    String::new()
                }
                5 => {
                    let mut log = vec![];
                    g.set_num_ports(at(1), b.shape.0 + 1, b.shape.1, |p, o| log.push(format!("{p:?} {o:?}")));
                    format!("resize {log:?}")
                }
                6 => format!("link {:?}", g.link_nodes(at(0), 0, at(nodes.len() - 1), b.shape.0.saturating_sub(1)).map(|(a, b)| (a.into(), b.into())).map_err(|e| format!("{e:?}")) as Result<(PortIndex, PortIndex), String>),
                8 => format!("unlink {:?}", g.all_ports(at(nodes.len() / 3)).collect::<Vec<_>>().into_iter().map(|p| g.unlink_port(p).is_some()).collect::<Vec<_>>()),
                9 => {
                    g.swap_nodes(at(0), at(nodes.len() - 1));
                    String::new()
                }
                10 => {
                    let mut log = vec![];
                    g.compact_nodes(|a, b| log.push(format!("{a:?} {b:?}")));
                    format!("compact {log:?}")
                }
                11 => {
                    let mut log = vec![];
                    g.compact_ports(|a, b| log.push(format!("{a:?} {b:?}")));
                    format!("compact {log:?}")
                }
                _ => {
                    g.shrink_to_fit();
                    String::new()
                }
            })
        })
    };
    let mut steps = 0;
    for f in FMTS {
        let mut t = trip(f, &g)?;
        ensure!(t == g && g == t, "{f:?} round trip is not equal");
        ensure!(dump(&t) == want, "{f:?} round trip answers differently");
        let mut o = g.clone();
        for k in 0..14 {
            heartbeat();
            let (x, y) = (step(&mut o, k), step(&mut t, k));
            if x.is_err() && y.is_err() {
                break;
            }
            let cut = |r: &Result<String, String>| match r {
                Ok(s) => s.chars().take(200).collect::<String>(),
                Err(e) => format!("panic: {e}"),
            };
            ensure!(x == y, "{f:?}: step {k} after a round trip gives {}, without one {}", cut(&y), cut(&x));
            ensure!(o == t && dump(&o) == dump(&t), "{f:?}: the graph differs after step {k} after a round trip");
            steps += 1;
        }
    }
    Ok(Tally { steps, outcome: outcome_of(&format!("{b:?}")) })
}

fn big_hierarchy(n: usize, shape: usize) -> Result<Tally, String> {
    let ni = NodeIndex::new;
    let made = guarded(|| {
        let mut h = Hierarchy::new();
        for k in 1..n {
            let p = match shape {
                0 => k - 1,
                1 => 0,
                2 => (k - 1) / 2,
                _ => if k % 3 == 0 { continue } else { k - 1 },
            };
            h.push_child(ni(k), ni(p)).map_err(|e| format!("{e:?}"))?;
        }
        Ok(h)
    });
    let Ok(h) = made else { return Ok(Tally { steps: 0, outcome: 0 }) };
    let look = |h: &Hierarchy| -> Vec<(Option<NodeIndex>, Option<NodeIndex>, Option<NodeIndex>, Option<NodeIndex>, Option<NodeIndex>, usize)> {
        (0..n + 2).map(ni).map(|k| (h.parent(k), h.first(k), h.last(k), h.next(k), h.prev(k), h.child_count(k))).collect()
    };
    let mut steps = 0;
    for f in FMTS {
        let mut t = trip(f, &h)?;
        ensure!(t == h && h == t, "{f:?} round trip is not equal");
        ensure!(look(&t) == look(&h), "{f:?} round trip answers differently");
        let mut o = h.clone();
        for k in [0, 1, n / 2, n - 1, 255, 256] {
            for what in 0..4 {
                heartbeat();
                let act = |h: &mut Hierarchy| {
                    guarded(|| {
                        match what {
                            0 => format!("{:?}", h.detach(ni(k))),
                            1 => format!("{:?}", h.push_front_child(ni(k), ni((k + 7) % n))),
                            2 => format!("{:?}", h.detach_children(ni(k))),
                            _ => format!("{:?}", h.insert_after(ni(k + 1), ni((k + 5) % n))),
                        };
                        Ok(())
                    })
                };
                let (x, y) = (act(&mut o), act(&mut t));
                ensure!(x == y, "{f:?}: edit {what} of {k} after a round trip: {y:?}, without one {x:?}");
                if x.is_err() {
                    break;
                }
                ensure!(o == t && look(&o) == look(&t), "{f:?}: the hierarchy differs after edit {what} of {k} after a round trip");
                steps += 1;
            }
        }
    }
    Ok(Tally { steps, outcome: (n * 4 + shape) as u64 })
}

fn big_map(n: usize, how: usize) -> Result<Tally, String> {
    let default = W([7, 3][how % 2]);
    let mut m: UnmanagedDenseMap<PortIndex, W> = UnmanagedDenseMap::with_default(default.clone());
    let mut w: Weights<W, W> = Weights::new();
    // All keys, only the last one, or every third one.
    let set = |k: usize| match how / 2 {
        0 => true,
        1 => k == n - 1,
        _ => k % 3 == 0,
    };
    let val = |k: usize| if set(k) { W((k % 60_000) as u16 + 100) } else { default.clone() };
    for k in (0..n).filter(|k| set(*k)) {
        m[PortIndex::new(k)] = val(k);
        w.ports[PortIndex::new(k)] = val(k);
        w.nodes[NodeIndex::new(k)] = val(k);
    }
    for f in FMTS {
        let t = trip(f, &m)?;
        ensure!(t == m && m == t, "{f:?} round trip is not equal");
        let u = trip(f, &w)?;
        ensure!(u.nodes == w.nodes && u.ports == w.ports, "{f:?} round trip of weights is not equal");
        for k in 0..n {
            ensure!(*t.get(PortIndex::new(k)) == val(k), "{f:?}: value of {k} after a round trip");
            ensure!(u.ports[PortIndex::new(k)] == w.ports[PortIndex::new(k)] && u.nodes[NodeIndex::new(k)] == w.nodes[NodeIndex::new(k)], "{f:?}: weight of {k} after a round trip");
        }
        ensure!(*t.get(PortIndex::new(n)) == default, "{f:?}: value of an unset key after a round trip");
    }
    Ok(Tally { steps: 6 * n as u64, outcome: (n * 8 + how) as u64 })
}

fn big(ctx: &mut Ctx) {
    let around = |v: &[usize]| -> Vec<usize> { v.iter().flat_map(|x| [x - 1, *x, x + 1]).collect() };
    let mut sizes = around(&[16, 32, 128, 256]);
    sizes.extend([1000, 5000]);
    if ctx.pick(false, true) {
        sizes.extend(around(&[512, 4096, 65_536]));
    } else {
        sizes.extend([65_537]);
    }
    let mut specs = vec![];
    for &n in &sizes {
        for (shape, stride) in [((0, 0), 0), ((1, 1), 1), ((2, 3), 2)] {
            for remove in [0, 1, 3] {
                if n <= 5000 || (shape == (1, 1) && remove == 3) {
                    specs.push(Big { n, shape, stride, remove });
                }
            }
        }
    }
    // Many ports on a node.
    for p in around(&[16, 128, 256, 4096]).into_iter().chain([32_767]) {
        for shape in [(p, 0), (0, p), (p, p)] {
            if p <= 4096 || shape.0 != shape.1 {
                for remove in [0, 2] {
                    specs.push(Big { n: 3, shape, stride: 1, remove });
                }
            }
        }
    }
    let what = |n: usize| format!("{n} graphs at the boundaries of number and length encodings (up to 65537 nodes, up to 32767 ports on a node); round trips in three formats, then 14 operations in lockstep with the original");
    let name = |s: &[Big], c: u64| format!("{:?}", s[c as usize]);
    cases(ctx, "big-portgraph", &what(specs.len()), specs.len() as u64, |c| name(&specs, c), |c| big_graph::<PortGraph>(specs[c as usize], false));
    let m: Vec<Big> = specs.iter().copied().filter(|b| b.n * (b.shape.0 + b.shape.1 + 1) <= 20_000).collect();
    cases(ctx, "big-multi", &what(m.len()), m.len() as u64, |c| name(&m, c), |c| big_graph::<MultiPortGraph>(m[c as usize], true));
    let s: Vec<Big> = m.iter().copied().filter(|b| b.shape.0 < 127 && b.shape.1 < 127).collect();
    cases(ctx, "big-u8", &what(s.len()), s.len() as u64, |c| name(&s, c), |c| big_graph::<PortGraph<u32, u32, u8>>(s[c as usize], false));
    cases(ctx, "big-u32", &what(m.len()), m.len() as u64, |c| name(&m, c), |c| big_graph::<PortGraph<u32, u32, u32>>(m[c as usize], false));
    cases(ctx, "big-multi-u8", &what(s.len()), s.len() as u64, |c| name(&s, c), |c| big_graph::<MultiPortGraph<u32, u32, u8>>(s[c as usize], true));

    let h: Vec<(usize, usize)> = sizes.iter().flat_map(|n| (0..4).map(move |s| (*n, s))).collect();
    cases(ctx, "big-hierarchy", "chains, stars, binary trees and broken chains of up to 65537 nodes; round trips in three formats, then edits in lockstep with the original", h.len() as u64, |c| format!("{:?}", h[c as usize]), |c| big_hierarchy(h[c as usize].0, h[c as usize].1));
    let d: Vec<(usize, usize)> = sizes.iter().flat_map(|n| (0..6).map(move |s| (*n, s))).collect();
    cases(ctx, "big-maps", "dense maps and weights of up to 65537 entries, all, every third or only the last set; three formats", d.len() as u64, |c| format!("{:?}", d[c as usize]), |c| big_map(d[c as usize].0, d[c as usize].1));
}

pub fn c28(ctx: &mut Ctx) {
    big(ctx);
    // Index types.
    cases(ctx, "index-u8", "all numbers up to 300 as u8 indices: NodeIndex, PortIndex, PortOffset, MaybeNodeIndex, MaybePortIndex; three formats", 300, |c| format!("{c}"), |c| index_case::<u8>(c as usize));
    cases(ctx, "index-u16", "all numbers up to 66000 as u16 indices; three formats", 66_000, |c| format!("{c}"), |c| index_case::<u16>(c as usize));
    let ev = edge_values(0);
    cases(ctx, "index-u32", "numbers around every power of two of interest as u32 indices; three formats", ev.len() as u64, |c| format!("{}", ev[c as usize]), |c| index_case::<u32>(ev[c as usize]));
    cases(ctx, "index-u64", "numbers around every power of two of interest as u64 indices; three formats", ev.len() as u64, |c| format!("{}", ev[c as usize]), |c| index_case::<u64>(ev[c as usize]));
    cases(ctx, "index-usize", "numbers around every power of two of interest as usize indices; three formats", ev.len() as u64, |c| format!("{}", ev[c as usize]), |c| index_case::<usize>(ev[c as usize]));
    cases(ctx, "dense-map", "dense maps with three defaults and every content of 5 slots over {unset, 3 values}; three formats, then every set/take/rekey", 3 * 1024, |c| format!("{c}"), dense_case);

    // Graphs.
    let j = Judge { content: true, rekey: true, ..Default::default() };
    let mut c = PCfg::new(&[(0, 0), (1, 1), (0, 2)], &[(0, 0), (1, 2), (2, 0)], 3, j);
    c.clear = true;
    c.reserve = true;
    let c = Arc::new(c);
    bfs(ctx, Bfs { name: "portgraph".into(), depth: ctx.pick(5, 6), max_states: 20_000_000, bound: "<=3 nodes of shape (0,0),(1,1),(0,2), 3 resize targets; all operations, round trips after every step in three formats; 4 start graphs".into() }, wrap(pg::fragmented(&c)));
    let mut c = PCfg::new(&[(0, 0), (1, 0), (2, 1)], &[], 3, j);
    c.links = false;
    c.max_node_slots = 4;
    let c = Arc::new(c);
    bfs(ctx, Bfs { name: "free-lists".into(), depth: ctx.pick(9, 12), max_states: 20_000_000, bound: "<=3 nodes of shape (0,0),(1,0),(2,1), no links; add/remove/swap/compact, round trips after every step in three formats".into() }, wrap(vec![("empty".into(), PSys::new(c))]));
    let mut c = MCfg::new(&[(1, 1)], &[(0, 1), (1, 2)], 2, 3, Judge { content: true, rekey: true, ..Default::default() });
    c.misc = true;
    let c = Arc::new(c);
    bfs(ctx, Bfs { name: "multiportgraph".into(), depth: ctx.pick(4, 6), max_states: 20_000_000, bound: "<=2 nodes of shape (1,1), <=3 links, resizes to (0,1),(1,2); all operations at port and subport level, round trips after every step in three formats; 3 start graphs".into() }, wrap(multi::starts(&c)));
    let mut c = PCfg::large(j);
    c.clear = true;
    let c = Arc::new(c);
    for n in [5, 20] {
        bfs(ctx, Bfs { name: format!("portgraph-large-{n}"), depth: 1, max_states: 1_000_000, bound: format!("8 starting graphs of {n} nodes (4 shape and link patterns, with and without freed indices); one operation, round trips before and after in three formats") }, wrap(pg::large(&c, n)));
    }
    let c = Arc::new(MCfg::large(Judge { content: true, rekey: true, ..Default::default() }));
    for n in [4, 10] {
        bfs(ctx, Bfs { name: format!("multi-large-{n}"), depth: 1, max_states: 1_000_000, bound: format!("8 starting multigraphs of {n} nodes (up to 6 links on a port, with and without freed indices); one operation, round trips before and after in three formats") }, wrap(multi::large(&c, n)));
    }

    // Hierarchies.
    bfs(ctx, Bfs { name: "hierarchy".into(), depth: ctx.pick(8, 12), max_states: 20_000_000, bound: "forests over 4 nodes; all attach/detach/move operations, round trips after every step in three formats".into() }, wrap(vec![("empty".into(), HSys { h: Hierarchy::new(), f: Forest::default(), n: 4, misc: true }), ("capacity".into(), HSys { h: Hierarchy::with_capacity(2), f: Forest::default(), n: 4, misc: true })]));
    bfs(ctx, Bfs { name: "graph+hierarchy".into(), depth: ctx.pick(10, 12), max_states: 20_000_000, bound: "<=3 nodes; graph edits propagated to the hierarchy, both round-tripped after every step".into() }, wrap(vec![("empty".into(), GSys { g: PortGraph::<u32, u32, u16>::new(), h: Hierarchy::new(), f: Forest::default(), live: vec![], max: 3, link: false })]));

    // Weights.
    weights::<PortGraph>(ctx, "weights", WCfg { shapes: vec![(1, 1), (0, 3)], sizes: vec![(0, 0), (2, 1), (1, 3)], max_nodes: 2, max_links: 1, span: (40, 10) }, ctx.pick(6, 8));
    weights::<MultiPortGraph>(ctx, "weights-multi", WCfg { shapes: vec![(1, 1)], sizes: vec![(0, 1), (2, 2)], max_nodes: 2, max_links: 2, span: (40, 10) }, ctx.pick(7, 9));
}
