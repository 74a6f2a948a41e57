//! Port-count limits (C05) and the packed index types (C06).

use crate::engine::*;
use crate::{ensure, ensure_eq};
use portgraph::index::{MaybeNodeIndex, MaybePortIndex, Unsigned};
use portgraph::portgraph::PortOperation;
use portgraph::view::{LinkMut, LinkView, PortMut, PortView};
use portgraph::{Direction, MultiPortGraph, NodeIndex, PortGraph, PortIndex, PortOffset};
use std::collections::{HashMap, HashSet};
use std::fmt::Debug;

const TOTAL: usize = u16::MAX as usize;

/// Some(true): must succeed, Some(false): must be refused by a panic, None:
/// the documentation leaves it open.
fn allowed(max: usize, i: usize, o: usize) -> Option<bool> {
    if i + o > TOTAL || i > max || o > max {
        return Some(false);
    }
    if i < TOTAL {
        return Some(true);
    }
    None
}

/// Every port of `n` is addressable, and only those.
fn check_node<G: LinkView>(g: &G, n: NodeIndex, i: usize, o: usize, what: &str) -> Res
where
    G::PortOffsetBase: Debug,
{
    for (d, k) in [(Direction::Incoming, i), (Direction::Outgoing, o)] {
        ensure_eq!(g.num_ports(n, d), k, "{what}: num_ports {d:?}");
        ensure_eq!(g.ports(n, d).count(), k, "{what}: number of ports listed {d:?}");
        ensure_eq!(g.port_offsets(n, d).count(), k, "{what}: number of offsets listed {d:?}");
        for off in [0, 1, k / 2, k.wrapping_sub(2), k.wrapping_sub(1)] {
            if off >= k {
                continue;
            }
            let p = if d == Direction::Incoming { g.input(n, off) } else { g.output(n, off) };
            let Some(p) = p else { return Err(format!("{what}: port {off} {d:?} of {k} is not addressable")) };
            ensure_eq!(g.port_index(n, PortOffset::new(d, off)), Some(p), "{what}: port_index of offset {off} {d:?}");
            ensure_eq!(g.port_direction(p), Some(d), "{what}: direction of port {off} {d:?}");
            ensure_eq!(g.port_node(p), Some(n), "{what}: node of port {off} {d:?}");
            let po = g.port_offset(p).map(|x| (x.direction(), x.index()));
            ensure_eq!(po, Some((d, off)), "{what}: port_offset of port {off} {d:?}");
            ensure_eq!(g.ports(n, d).nth(off), Some(p), "{what}: {off}-th listed port {d:?}");
        }
        for off in [k, k + 1, 127, 128, 200, 255, 256, 32767, 32768, 40000, 65535, 65536, 70000] {
            if off < k {
                continue;
            }
            let p = if d == Direction::Incoming { g.input(n, off) } else { g.output(n, off) };
            ensure_eq!(p, None, "{what}: port {off} {d:?}, beyond the {k} ports of the node");
        }
    }
    let a: Vec<PortIndex> = g.all_ports(n).collect();
    ensure_eq!(a.len(), i + o, "{what}: all_ports");
    Ok(())
}

fn run<G, PO: Unsigned>(mk: impl Fn() -> G, seq: &[(usize, usize)]) -> Result<Tally, String>
where
    G: LinkView<PortOffsetBase = PO> + LinkMut + PortMut + Clone,
{
    let max = PortOffset::<PO>::max_offset();
    let mut g = mk();
    let buddy = g.add_node(2, 2);
    let mut cur: Option<(NodeIndex, usize, usize)> = None;
    let mut steps = 0;
    let mut out = Vec::new();
    for &(i, o) in seq {
        steps += 1;
        let counts = (g.node_count(), g.port_count(), g.link_count());
        let want = allowed(max, i, o);
        let what = match cur {
            None => format!("add_node({i},{o})"),
            Some((_, a, b)) => format!("set_num_ports from ({a},{b}) to ({i},{o})"),
        };
        let mut moved: HashMap<usize, usize> = HashMap::new();
        let mut removed: HashSet<usize> = HashSet::new();
        let before: Vec<PortIndex> = cur.iter().flat_map(|c| g.all_ports(c.0).collect::<Vec<_>>()).collect();
        let mut node = None;
        let failed = panics(|| match cur {
            None => node = Some(g.add_node(i, o)),
            Some((n, ..)) => {
                node = Some(n);
                g.set_num_ports(n, i, o, |p, op| match op {
                    PortOperation::Moved { new_index } => {
                        moved.insert(p.index(), new_index.index());
                    }
                    PortOperation::Removed { .. } => assert!(removed.insert(p.index()), "removed twice"),
                });
            }
        });
        out.push(failed);
        match (want, failed) {
            (Some(true), true) => return Err(format!("{what} panicked although a node may have that many ports (max offset {max})")),
            (Some(false), false) => return Err(format!("{what} was accepted although it exceeds the limit (max offset {max})")),
            _ => {}
        }
        if failed {
            ensure_eq!((g.node_count(), g.port_count(), g.link_count()), counts, "counts after the refused {what}");
            if let Some((n, a, b)) = cur {
                check_node(&g, n, a, b, &format!("after the refused {what}"))?;
            }
            check_node(&g, buddy, 2, 2, &format!("other node after the refused {what}"))?;
            continue;
        }
        let n = node.unwrap();
        check_node(&g, n, i, o, &what)?;
        check_node(&g, buddy, 2, 2, &format!("other node after {what}"))?;
        ensure_eq!(g.port_count(), 4 + i + o, "port_count after {what}");
        ensure_eq!(g.port_count(), g.ports_iter().count(), "ports listed after {what}");
        ensure_eq!(g.node_count(), 2, "node_count after {what}");
        if let Some((_, a, b)) = cur {
            // survivors keep their offset, and the callback says where they went
            for (k, p) in before.iter().enumerate() {
                let (d, off) = if k < a { (Direction::Incoming, k) } else { (Direction::Outgoing, k - a) };
                let keep = off < if d == Direction::Incoming { i } else { o };
                if keep {
                    let q = if d == Direction::Incoming { g.input(n, off) } else { g.output(n, off) }.unwrap();
                    ensure_eq!(moved.get(&p.index()).copied().unwrap_or(p.index()), q.index(), "{what}: reported place of port {off} {d:?}");
                } else {
                    ensure!(removed.contains(&p.index()), "{what}: removal of port {off} {d:?} not reported");
                }
            }
            ensure_eq!(removed.len(), a.saturating_sub(i) + b.saturating_sub(o), "{what}: number of removals reported");
            // links at the extremes survive iff their port does
            let mut links = 0;
            if a > 0 && i >= a {
                links += 1;
                ensure_eq!(g.port_links(g.input(n, a - 1).unwrap()).count(), 1, "{what}: link on the last input");
            }
            if b > 0 && o >= b {
                links += 1;
                ensure_eq!(g.port_links(g.output(n, b - 1).unwrap()).count(), 1, "{what}: link on the last output");
            }
            ensure_eq!(g.link_count(), links, "{what}: link_count");
        }
        // relink at the new extremes
        for p in g.all_ports(buddy).collect::<Vec<_>>() {
            g.unlink_port(p);
        }
        if i > 0 {
            let p = g.input(n, i - 1).unwrap();
            ensure!(g.link_ports(g.output(buddy, 0).unwrap(), p).is_ok(), "{what}: linking the last input failed");
            ensure!(g.link_nodes(buddy, 1, n, i - 1).is_err() || g.port_links(p).count() == 2, "{what}: second link to the last input");
            g.unlink_port(g.output(buddy, 1).unwrap());
        }
        if o > 0 {
            ensure!(g.link_nodes(n, o - 1, buddy, 1).is_ok(), "{what}: linking the last output failed");
        }
        cur = Some((n, i, o));
        steps += (i + o) as u64;
    }
    // removal gives everything back
    if let Some((n, ..)) = cur {
        g.remove_node(n);
        ensure_eq!((g.node_count(), g.port_count(), g.link_count()), (1, 4, 0), "counts after removing the node again");
    }
    Ok(Tally { steps, outcome: outcome_of(&out) })
}

pub fn c05(ctx: &mut Ctx) {
    fn shapes(s: &[usize]) -> Vec<(usize, usize)> {
        s.iter().flat_map(|i| s.iter().map(move |o| (*i, *o))).collect()
    }
    fn section<G, PO: Unsigned>(ctx: &mut Ctx, name: &str, sizes: &[usize], len: u32, mk: impl Fn() -> G + Sync)
    where
        G: LinkView<PortOffsetBase = PO> + LinkMut + PortMut + Clone,
    {
        let sh = shapes(sizes);
        let k = sh.len() as u64;
        let dec = |mut c: u64| {
            (0..len)
                .map(|_| {
                    let s = sh[(c % k) as usize];
                    c /= k;
                    s
                })
                .collect::<Vec<_>>()
        };
        let bound = format!("every sequence of add_node and {} set_num_ports with incoming and outgoing counts in {sizes:?}", len - 1);
        cases(ctx, name, &bound, k.pow(len), |c| format!("{:?}", dec(c)), |c| run(&mk, &dec(c)));
    }
    let q = ctx.quick();
    let s8: &[usize] = if q { &[0, 1, 63, 125, 126, 127, 128, 129, 255, 256] } else { &[0, 1, 2, 31, 32, 33, 63, 64, 65, 124, 125, 126, 127, 128, 129, 130, 254, 255, 256, 257] };
    section::<_, u8>(ctx, "u8-offsets", s8, 2, PortGraph::<u32, u32, u8>::new);
    section::<_, u8>(ctx, "u8-offsets-resize-twice", &[0, 1, 64, 126, 128, 256], 3, PortGraph::<u32, u32, u8>::new);
    section::<_, u8>(ctx, "u8-multi", &[0, 1, 64, 126, 128, 256], if q { 2 } else { 3 }, MultiPortGraph::<u32, u32, u8>::new);
    let s16: &[usize] = if q { &[0, 1, 16385, 32766, 32767] } else { &[0, 1, 2, 16384, 16385, 32765, 32766, 32768, 32769, 65534, 65535, 65536, 70000] };
    section::<_, u16>(ctx, "u16-offsets", s16, 2, PortGraph::<u32, u32, u16>::new);
    section::<_, u16>(ctx, "u16-multi", &[1, 32766, 32767], 2, MultiPortGraph::<u32, u32, u16>::new);
    let s32: &[usize] = if q { &[0, 1, 32769, 65534, 65536] } else { &[0, 1, 2, 16384, 32767, 32768, 32769, 65533, 65534, 65535, 65536, 70000, 131072] };
    section::<_, u32>(ctx, "u32-offsets", s32, 2, PortGraph::<u32, u32, u32>::new);
    section::<_, u32>(ctx, "u32-all-ports", &[0, 65_535], 1, PortGraph::<u32, u32, u32>::new);
    // Fan-out of one port up to and past the width of the offset type.
    let top = ctx.pick(140u64, 300);
    cases(ctx, "u8-fan-out", "every number of links on one port, up to past the offset limit, in an 8-bit multigraph", top, |c| format!("{c} links"), |c| {
        let mut g = MultiPortGraph::<u32, u32, u8>::new();
        let a = g.add_node(0, 1);
        let b = g.add_node(300usize.min(PortOffset::<u8>::max_offset()), 0);
        let b2 = g.add_node(PortOffset::<u8>::max_offset(), 0);
        let b3 = g.add_node(PortOffset::<u8>::max_offset(), 0);
        let ins: Vec<PortIndex> = g.inputs(b).chain(g.inputs(b2)).chain(g.inputs(b3)).collect();
        let out = g.output(a, 0).unwrap();
        let max = PortOffset::<u8>::max_offset();
        let mut made = 0;
        for k in 0..c as usize {
            let mut r = None;
            let failed = panics(|| r = Some(g.link_ports(out, ins[k])));
            if failed {
                ensure!(k + 1 > max, "link {k} of one port panicked, below the limit of {max}");
                break;
            }
            let (f, t) = match r.unwrap() {
                Ok(x) => x,
                Err(e) => return Err(format!("link {k} of one port failed: {e:?}")),
            };
            made += 1;
            ensure_eq!((f.port(), t.port()), (out, ins[k]), "ports of link {k}");
            ensure_eq!(g.port_links(out).count(), made, "links of the port");
            ensure_eq!(g.link_count(), made, "link_count");
        }
        let got: Vec<PortIndex> = g.port_links(out).map(|l| l.1.port()).collect();
        ensure_eq!(got, ins[..made].to_vec(), "far ends of the links");
        ensure_eq!(g.output_neighbours(a).count(), made, "neighbours");
        Ok(Tally { steps: c, outcome: made as u64 })
    });
}

// ---------------------------------------------------------------------------

fn width_check<U>(v: usize, max: usize) -> Res
where
    U: Unsigned + std::hash::Hash + serde::Serialize + for<'a> serde::Deserialize<'a>,
{
    macro_rules! one {
        ($idx:ident, $maybe:ident, $name:literal) => {{
            ensure_eq!($idx::<U>::max_index(), max, "max_index");
            let ok = v <= max;
            ensure_eq!(panics(|| { let _ = $idx::<U>::new(v); }), !ok, "{}::new({v}) panics", $name);
            let t = $idx::<U>::try_from(v);
            ensure_eq!(t.is_ok(), ok, "{}::try_from({v}) succeeds", $name);
            ensure_eq!(serde_json::from_str::<$idx<U>>(&v.to_string()).is_ok(), ok, "deserializing {v} as {} succeeds", $name);
            ensure_eq!(guarded(|| Ok(serde_json::from_str::<$maybe<U>>(&v.to_string()).is_ok()))?, ok, "deserializing {v} as optional {} succeeds", $name);
            ensure_eq!(std::mem::size_of::<$maybe<U>>(), std::mem::size_of::<U>(), "size");
            let none = $maybe::<U>::default();
            ensure!(none.is_none() && !none.is_some() && none.to_option().is_none(), "default is not none");
            ensure_eq!(none, $maybe::<U>::from(None), "from none");
            ensure_eq!(serde_json::to_string(&none).unwrap(), "null", "json of none");
            ensure!(panics(|| { let _ = none.unwrap(); }), "unwrap of none returns");
            if !ok {
                return Ok(());
            }
            let i = $idx::<U>::new(v);
            ensure_eq!(t.unwrap(), i, "try_from({v})");
            ensure_eq!(i.index(), v, "{}::new({v}).index()", $name);
            ensure_eq!(usize::from(i), v, "usize from {}", $name);
            ensure_eq!(format!("{i:?}"), format!("{}({v})", $name), "debug");
            for w in [0, 1, v.saturating_sub(1), v + 1, v / 2, v ^ 1, max] {
                if w <= max {
                    let j = $idx::<U>::new(w);
                    ensure_eq!(i.cmp(&j), v.cmp(&w), "order of {v} and {w}");
                    ensure_eq!(i == j, v == w, "equality of {v} and {w}");
                }
            }
            ensure_eq!(serde_json::to_string(&i).unwrap(), v.to_string(), "json");
            ensure_eq!(serde_json::from_str::<$idx<U>>(&v.to_string()).ok(), Some(i), "json round trip");
            ensure_eq!(rmp_serde::from_slice::<$idx<U>>(&rmp_serde::to_vec(&i).unwrap()).ok(), Some(i), "msgpack round trip");
            // optional
            let m = $maybe::<U>::from(i);
            ensure_eq!(m, $maybe::<U>::new(Some(i)), "new(Some)");
            ensure!(m != none, "Some({v}) equals none");
            ensure!(m.is_some() && !m.is_none(), "Some({v}) is none");
            ensure_eq!(m.to_option(), Some(i), "to_option");
            ensure_eq!(Option::<$idx<U>>::from(m), Some(i), "into option");
            ensure_eq!(m.unwrap(), i, "unwrap");
            ensure_eq!(m.expect("x"), i, "expect");
            ensure_eq!(m.into_iter().collect::<Vec<_>>(), vec![i], "into_iter");
            ensure_eq!(none.into_iter().count(), 0, "into_iter of none");
            ensure_eq!(format!("{m:?}"), format!("{:?}", Some(i)), "debug");
            ensure_eq!(serde_json::to_string(&m).unwrap(), v.to_string(), "json of some");
            ensure_eq!(serde_json::from_str::<$maybe<U>>(&v.to_string()).ok(), Some(m), "json round trip of some");
            ensure_eq!(rmp_serde::from_slice::<$maybe<U>>(&rmp_serde::to_vec(&none).unwrap()).ok(), Some(none), "msgpack round trip of none");
            // mutation: every sequence of two of take / replace / as_mut
            let j = $idx::<U>::new(if v == 0 { max } else { v - 1 });
            for start in [None, Some(i)] {
                for ops in 0..27u32 {
                    let mut real = $maybe::<U>::from(start);
                    let mut model = start;
                    let mut o = ops;
                    for _ in 0..3 {
                        match o % 3 {
                            0 => {
                                ensure_eq!(real.take().to_option(), model.take(), "take");
                            }
                            1 => {
                                ensure_eq!(real.replace(j).to_option(), model.replace(j), "replace");
                            }
                            _ => {
                                let (a, b) = (real.as_mut(), model.as_mut());
                                ensure_eq!(a.is_some(), b.is_some(), "as_mut");
                                if let (Some(a), Some(b)) = (a, b) {
                                    ensure_eq!(*a, *b, "as_mut");
                                    *a = j;
                                    *b = j;
                                }
                            }
                        }
                        ensure_eq!(real.to_option(), model, "value after an update");
                        o /= 3;
                    }
                }
            }
        }};
    }
    one!(NodeIndex, MaybeNodeIndex, "NodeIndex");
    one!(PortIndex, MaybePortIndex, "PortIndex");
    Ok(())
}

fn offset_check<U>(v: usize, max: usize) -> Res
where
    U: Unsigned + std::hash::Hash + serde::Serialize + for<'a> serde::Deserialize<'a>,
{
    ensure_eq!(PortOffset::<U>::max_offset(), max, "max_offset");
    for d in Direction::BOTH {
        let ok = v <= max;
        ensure_eq!(panics(|| { let _ = PortOffset::<U>::new(d, v); }), !ok, "PortOffset::new({d:?},{v}) panics");
        let json = format!("{{\"index\":{v},\"direction\":\"{d:?}\"}}");
        let de = guarded(|| Ok(serde_json::from_str::<PortOffset<U>>(&json).ok()))?;
        ensure_eq!(de.is_some(), ok, "deserializing offset {v} succeeds");
        if !ok {
            continue;
        }
        let o = PortOffset::<U>::new(d, v);
        let o2 = if d == Direction::Incoming { PortOffset::<U>::new_incoming(v) } else { PortOffset::<U>::new_outgoing(v) };
        ensure_eq!(o, o2, "new_incoming/new_outgoing");
        ensure_eq!((o.direction(), o.index()), (d, v), "PortOffset::new({d:?},{v})");
        let opp = o.opposite();
        ensure_eq!((opp.direction(), opp.index()), (d.reverse(), v), "opposite of ({d:?},{v})");
        ensure_eq!(opp.opposite(), o, "opposite twice");
        ensure!(opp != o, "opposite equals the offset");
        ensure_eq!(format!("{o:?}"), format!("{d:?}({v})"), "debug");
        ensure_eq!(de, Some(o), "json");
        ensure_eq!(serde_json::from_str::<PortOffset<U>>(&serde_json::to_string(&o).unwrap()).ok(), Some(o), "json round trip");
        ensure_eq!(rmp_serde::from_slice::<PortOffset<U>>(&rmp_serde::to_vec(&o).unwrap()).ok(), Some(o), "msgpack round trip");
        for w in [0, 1, v.saturating_sub(1), v + 1, max] {
            if w > max {
                continue;
            }
            for e in Direction::BOTH {
                let x = PortOffset::<U>::new(e, w);
                ensure_eq!(x == o, (e, w) == (d, v), "equality");
                ensure_eq!(o.cmp(&x), (d, v).cmp(&(e, w)), "order of ({d:?},{v}) and ({e:?},{w})");
            }
        }
    }
    Ok(())
}

pub fn c06(ctx: &mut Ctx) {
    fn one(ctx: &mut Ctx, name: &str, bound: &str, vals: Vec<usize>, f: impl Fn(usize) -> Res + Sync) {
        cases(ctx, name, bound, vals.len() as u64, |c| format!("value {}", vals[c as usize]), |c| {
            let v = vals[c as usize];
            f(v)?;
            Ok(Tally { steps: 100, outcome: v as u64 })
        });
    }
    let edge = |bits: u32| -> Vec<usize> {
        let mut s = std::collections::BTreeSet::new();
        for b in 0..64u32 {
            for d in -3i128..=3 {
                let x = (1i128 << b) + d;
                if x >= 0 && x <= (usize::MAX >> 1) as i128 + 2 {
                    s.insert(x as usize);
                }
            }
        }
        let _ = bits;
        s.into_iter().collect()
    };
    let m8 = (1 << 7) - 2;
    let m16 = (1 << 15) - 2;
    let m32 = (1 << 31) - 2;
    let m64 = (1usize << 63) - 2;
    one(ctx, "u8-index", "all values 0..1000", (0..1000).collect(), |v| width_check::<u8>(v, m8));
    one(ctx, "u8-offset", "all values 0..1000", (0..1000).collect(), |v| offset_check::<u8>(v, m8));
    let all16: Vec<usize> = (0..ctx.pick(70_000, 140_000)).collect();
    let b16 = ctx.pick("all values 0..70000", "all values 0..140000");
    one(ctx, "u16-index", b16, all16.clone(), |v| width_check::<u16>(v, m16));
    one(ctx, "u16-offset", b16, all16, |v| offset_check::<u16>(v, m16));
    let e = "0..200 and all values within 3 of a power of two up to 2^63";
    let vals: Vec<usize> = (0..200).chain(edge(32)).collect();
    one(ctx, "u32-index", e, vals.clone(), |v| width_check::<u32>(v, m32));
    one(ctx, "u32-offset", e, vals.clone(), |v| offset_check::<u32>(v, m32));
    one(ctx, "u64-index", e, vals.clone(), |v| width_check::<u64>(v, m64));
    one(ctx, "u64-offset", e, vals.clone(), |v| offset_check::<u64>(v, m64));
    one(ctx, "usize-index", e, vals.clone(), |v| width_check::<usize>(v, m64));
    one(ctx, "usize-offset", e, vals, |v| offset_check::<usize>(v, m64));
    one(ctx, "direction", "0..300", (0..300).collect(), |v| {
        let d = Direction::try_from(v);
        ensure_eq!(d.is_ok(), v < 2, "Direction::try_from({v}) succeeds");
        if let Ok(d) = d {
            ensure_eq!(usize::from(d), v, "Direction round trip");
            ensure_eq!(usize::from(d.reverse()), 1 - v, "reverse");
            ensure_eq!(Direction::BOTH[v], d, "BOTH");
        }
        ensure_eq!(MaybeNodeIndex::<u32>::NONE, MaybeNodeIndex::<u32>::default(), "NONE");
        Ok(())
    });
}
