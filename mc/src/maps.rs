//! Secondary maps (C12) and weights that follow a graph (C13).

use crate::engine::*;
use crate::viewcheck::{walk, DIRS};
use crate::{ensure, ensure_eq};
use bitvec::vec::BitVec;
use portgraph::portgraph::PortOperation;
use portgraph::view::{LinkMut, LinkView, PortMut, PortView};
use portgraph::{MultiPortGraph, NodeIndex, PortGraph, PortIndex, PortOffset, SecondaryMap, UnmanagedDenseMap, Weights};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fmt::Debug;

/// A value type whose `Default` is not all-zero.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, serde::Serialize, serde::Deserialize)]
pub struct W(pub u16);
impl Default for W {
    fn default() -> Self {
        W(7)
    }
}

pub trait Val: Clone + Debug + PartialEq + Send + Sync + Default + 'static {
    fn code(&self) -> u16;
}
impl Val for W {
    fn code(&self) -> u16 {
        self.0
    }
}
impl Val for bool {
    fn code(&self) -> u16 {
        *self as u16
    }
}

#[derive(Clone, Debug)]
pub enum SOp<V> {
    Set(usize, V),
    Take(usize),
    Remove(usize),
    Rekey(usize, Option<usize>),
    Swap(usize, usize),
    Ensure(usize),
    // dense map only
    GetMut(usize, V),
    TryGetMut(usize, V),
    IndexSet(usize, V),
    Disjoint2(usize, usize, V, V),
    Disjoint3(usize, usize, usize, V, V, V),
    Shrink(usize),
    InherentRekey(usize, Option<usize>),
}

/// What differs between the map kinds.
pub trait Kind<V: Val>: SecondaryMap<NodeIndex, V> + Clone + Send + Sync + Debug {
    /// Extra operations.
    fn extra_ops(_keys: &[usize], _vals: &[V]) -> Vec<SOp<V>> {
        vec![]
    }
    /// Returns what the operation says about the previous value, for the model to check.
    fn extra(&mut self, _op: &SOp<V>, _m: &mut Model<V>) -> Res {
        Err("unsupported".into())
    }
    /// Hidden state that matters for the future.
    fn hidden(&self) -> Vec<usize>;
    /// The entries, walked through the iterator with all its checks.
    fn entries(&self) -> Result<Vec<(usize, V)>, String>;
    fn extra_check(&self, _m: &Model<V>) -> Res {
        Ok(())
    }
    /// iteration order is ascending
    const ORDERED: bool;
    /// iteration may list defaults
    const LISTS_DEFAULTS: bool;
}

#[derive(Clone, Debug)]
pub struct Model<V> {
    pub d: V,
    pub m: BTreeMap<usize, V>,
}
impl<V: Val> Model<V> {
    fn get(&self, k: usize) -> V {
        self.m.get(&k).cloned().unwrap_or(self.d.clone())
    }
    fn set(&mut self, k: usize, v: V) {
        if v == self.d {
            self.m.remove(&k);
        } else {
            self.m.insert(k, v);
        }
    }
}

fn ni(n: usize) -> NodeIndex {
    NodeIndex::new(n)
}

fn both_ends<T: PartialEq + Debug + Clone>(what: &str, it: impl DoubleEndedIterator<Item = T> + Clone, fwd: &[T]) -> Res {
    let mut r: Vec<T> = it.clone().rev().collect();
    r.reverse();
    ensure!(r == fwd, "{what}: backwards gives {r:?}, forwards {fwd:?}");
    let (mut a, mut b) = (vec![], vec![]);
    let mut it = it;
    while let Some(x) = it.next() {
        a.push(x);
        let y = it.next_back();
        let none = y.is_none();
        b.extend(y);
        let left = fwd.len().saturating_sub(a.len() + b.len());
        let (lo, hi) = it.size_hint();
        ensure!(lo <= left && hi.is_none_or(|h| h >= left), "{what}: size_hint {:?} with {left} left", (lo, hi));
        if none {
            break;
        }
    }
    ensure!(it.next().is_none() && it.next_back().is_none(), "{what}: yields after its end");
    b.reverse();
    a.extend(b);
    ensure!(a == fwd, "{what}: from both ends gives {a:?}, forwards {fwd:?}");
    Ok(())
}

impl Kind<bool> for BitVec {
    fn hidden(&self) -> Vec<usize> {
        vec![BitVec::len(self), BitVec::capacity(self)]
    }
    fn entries(&self) -> Result<Vec<(usize, bool)>, String> {
        let v = walk("iter", SecondaryMap::<NodeIndex, bool>::iter(self))?;
        both_ends("iter", SecondaryMap::<NodeIndex, bool>::iter(self), &v)?;
        Ok(v.into_iter().map(|(k, v)| (k.index(), *v)).collect())
    }
    const ORDERED: bool = true;
    const LISTS_DEFAULTS: bool = false;
}
impl Kind<bool> for HashSet<NodeIndex> {
    fn hidden(&self) -> Vec<usize> {
        // The capacity of larger sets depends on the (random) hashes.
        vec![if self.len() < 8 { HashSet::capacity(self) } else { 0 }]
    }
    fn entries(&self) -> Result<Vec<(usize, bool)>, String> {
        let v = walk("iter", SecondaryMap::<NodeIndex, bool>::iter(self))?;
        Ok(v.into_iter().map(|(k, v)| (k.index(), *v)).collect())
    }
    const ORDERED: bool = false;
    const LISTS_DEFAULTS: bool = false;
}
type Dense = UnmanagedDenseMap<NodeIndex, W>;
impl Kind<W> for Dense {
    fn extra_ops(keys: &[usize], vals: &[W]) -> Vec<SOp<W>> {
        let mut o = vec![];
        for &k in keys {
            for v in vals {
                o.push(SOp::GetMut(k, v.clone()));
                o.push(SOp::TryGetMut(k, v.clone()));
                o.push(SOp::IndexSet(k, v.clone()));
            }
            o.push(SOp::InherentRekey(k, None));
            for &l in keys {
                o.push(SOp::Disjoint2(k, l, vals[0].clone(), vals[1].clone()));
                o.push(SOp::InherentRekey(k, Some(l)));
                o.push(SOp::Disjoint3(k, l, keys[0], vals[0].clone(), vals[1].clone(), vals[2].clone()));
            }
            o.push(SOp::Shrink(k));
        }
        o
    }
    fn extra(&mut self, op: &SOp<W>, m: &mut Model<W>) -> Res {
        match op {
            SOp::GetMut(k, v) => {
                let r = UnmanagedDenseMap::get_mut(self, ni(*k));
                ensure_eq!(*r, m.get(*k), "get_mut({k})");
                *r = v.clone();
                m.set(*k, v.clone());
            }
            SOp::TryGetMut(k, v) => match self.try_get_mut(ni(*k)) {
                Some(r) => {
                    ensure_eq!(*r, m.get(*k), "try_get_mut({k})");
                    *r = v.clone();
                    m.set(*k, v.clone());
                }
                None => {
                    ensure!(m.get(*k) == m.d, "try_get_mut({k}) finds no entry, but {:?} was stored", m.get(*k));
                }
            },
            SOp::IndexSet(k, v) => {
                self[ni(*k)] = v.clone();
                m.set(*k, v.clone());
            }
            SOp::Disjoint2(a, b, v, w) => match self.get_disjoint_mut([ni(*a), ni(*b)]) {
                Some([x, y]) => {
                    ensure!(a != b, "get_disjoint_mut([{a},{b}]) hands out the same value twice");
                    ensure_eq!((x.clone(), y.clone()), (m.get(*a), m.get(*b)), "get_disjoint_mut([{a},{b}])");
                    *x = v.clone();
                    *y = w.clone();
                    m.set(*a, v.clone());
                    m.set(*b, w.clone());
                }
                None => ensure!(a == b, "get_disjoint_mut([{a},{b}]) gives nothing for different keys"),
            },
            SOp::Disjoint3(a, b, c, v, w, u) => match self.get_disjoint_mut([ni(*a), ni(*b), ni(*c)]) {
                Some([x, y, z]) => {
                    ensure!(a != b && a != c && b != c, "get_disjoint_mut([{a},{b},{c}]) hands out the same value twice");
                    ensure_eq!((x.clone(), y.clone(), z.clone()), (m.get(*a), m.get(*b), m.get(*c)), "get_disjoint_mut([{a},{b},{c}])");
                    *x = v.clone();
                    *y = w.clone();
                    *z = u.clone();
                    m.set(*a, v.clone());
                    m.set(*b, w.clone());
                    m.set(*c, u.clone());
                }
                None => ensure!(a == b || a == c || b == c, "get_disjoint_mut([{a},{b},{c}]) gives nothing for different keys"),
            },
            SOp::Shrink(c) => {
                let before = UnmanagedDenseMap::capacity(self);
                self.shrink_to(*c);
                ensure!(UnmanagedDenseMap::capacity(self) <= before, "shrink_to({c}) grew the capacity");
                ensure!(UnmanagedDenseMap::capacity(self) <= c + 64, "the capacity is still {} after shrink_to({c})", UnmanagedDenseMap::capacity(self));
                m.m.retain(|k, _| k < c);
            }
            SOp::InherentRekey(a, b) => {
                UnmanagedDenseMap::rekey(self, ni(*a), b.map(ni));
                let v = m.get(*a);
                m.set(*a, m.d.clone());
                if let Some(b) = b {
                    m.set(*b, v);
                }
            }
            _ => unreachable!(),
        }
        Ok(())
    }
    fn hidden(&self) -> Vec<usize> {
        vec![SecondaryMap::iter(self).count(), UnmanagedDenseMap::capacity(self)]
    }
    fn entries(&self) -> Result<Vec<(usize, W)>, String> {
        let v = walk("iter", SecondaryMap::iter(self))?;
        both_ends("iter", SecondaryMap::iter(self), &v)?;
        Ok(v.into_iter().map(|(k, v)| (k.index(), v.clone())).collect())
    }
    fn extra_check(&self, m: &Model<W>) -> Res {
        for k in 0..140 {
            ensure_eq!(self[ni(k)], m.get(k), "index [{k}]");
            ensure_eq!(*UnmanagedDenseMap::get(self, ni(k)), m.get(k), "inherent get({k})");
        }
        // Equality is equality of the total maps.
        let mut o = Dense::with_default(m.d.clone());
        for (k, v) in m.m.iter().rev() {
            o[ni(*k)] = v.clone();
        }
        ensure!(*self == o && o == *self, "differs from a map with the same default and values");
        o[ni(135)] = m.d.clone();
        ensure!(*self == o && o == *self, "differs from a map with the same values and more room");
        for k in [0, 2, 64, 138] {
            let mut p = o.clone();
            p[ni(k)] = W(m.get(k).0 + 1);
            ensure!(*self != p && p != *self, "equals a map that differs at {k}");
        }
        let mut p = Dense::with_default(W(m.d.0 + 1));
        ensure!(*self != p && p != *self, "equals a map with another default");
        for (k, v) in &m.m {
            p[ni(*k)] = v.clone();
        }
        ensure!(*self != p && p != *self, "equals a map with another default and the same entries");
        Ok(())
    }
    const ORDERED: bool = true;
    const LISTS_DEFAULTS: bool = true;
}

pub struct SSys<M, V> {
    make: fn() -> M,
    hist: Vec<SOp<V>>,
    s: M,
    m: Model<V>,
    keys: Vec<usize>,
    vals: Vec<V>,
    caps: Vec<usize>,
}

/// Cloning a vector or set does not keep its capacity, so copies of a state are
/// made by re-executing its history.
impl<V: Val, M: Kind<V>> Clone for SSys<M, V> {
    fn clone(&self) -> Self {
        let mut s = SSys { make: self.make, hist: vec![], s: (self.make)(), m: Model { d: self.m.d.clone(), m: BTreeMap::new() }, keys: self.keys.clone(), vals: self.vals.clone(), caps: self.caps.clone() };
        for op in &self.hist {
            let _ = s.apply(op);
        }
        s
    }
}

impl<V: Val, M: Kind<V>> Sys for SSys<M, V> {
    type Op = SOp<V>;
    fn ops(&self) -> Vec<SOp<V>> {
        let mut o = vec![];
        for &k in &self.keys {
            for v in &self.vals {
                o.push(SOp::Set(k, v.clone()));
            }
            o.push(SOp::Take(k));
            o.push(SOp::Remove(k));
            o.push(SOp::Rekey(k, None));
            for &l in &self.keys {
                o.push(SOp::Rekey(k, Some(l)));
                o.push(SOp::Swap(k, l));
            }
        }
        for &c in &self.caps {
            o.push(SOp::Ensure(c));
        }
        o.extend(M::extra_ops(&self.keys, &self.vals));
        o
    }
    fn apply(&mut self, op: &SOp<V>) -> Res {
        let m = &mut self.m;
        let s = &mut self.s;
        match op {
            SOp::Set(k, v) => {
                s.set(ni(*k), v.clone());
                m.set(*k, v.clone());
            }
            SOp::Take(k) => {
                ensure_eq!(s.take(ni(*k)), m.get(*k), "take({k})");
                m.set(*k, m.d.clone());
            }
            SOp::Remove(k) => {
                s.remove(ni(*k));
                m.set(*k, m.d.clone());
            }
            SOp::Rekey(a, b) => {
                s.rekey(ni(*a), b.map(ni));
                let v = m.get(*a);
                m.set(*a, m.d.clone());
                if let Some(b) = b {
                    m.set(*b, v);
                }
            }
            SOp::Swap(a, b) => {
                s.swap(ni(*a), ni(*b));
                let (x, y) = (m.get(*a), m.get(*b));
                m.set(*a, y);
                m.set(*b, x);
            }
            SOp::Ensure(c) => {
                let before = s.capacity();
                s.ensure_capacity(*c);
                ensure!(s.capacity() >= *c, "capacity {} after ensure_capacity({c})", s.capacity());
                ensure!(s.capacity() >= before, "ensure_capacity({c}) shrank the capacity from {before} to {}", s.capacity());
            }
            _ => s.extra(op, m)?,
        }
        self.hist.push(op.clone());
        // A copy is independent.
        let mut c = self.s.clone();
        for &k in &self.keys {
            for v in &self.vals {
                c.set(ni(k), v.clone());
            }
        }
        Ok(())
    }
    fn check(&self) -> Res {
        ensure_eq!(self.s.default_value(), self.m.d, "default_value");
        for k in (0..140).chain([1000, 1 << 20]) {
            ensure_eq!(*self.s.get(ni(k)), self.m.get(k), "get({k})");
        }
        for &l in self.keys.iter().chain(&self.caps) {
            for k in l.saturating_sub(1)..=l + 1 {
                ensure_eq!(*self.s.get(ni(k)), self.m.get(k), "get({k})");
            }
        }
        let e = self.s.entries()?;
        let keys: BTreeSet<usize> = e.iter().map(|x| x.0).collect();
        ensure!(keys.len() == e.len(), "iteration lists a key twice: {e:?}");
        if M::ORDERED {
            ensure!(e.windows(2).all(|w| w[0].0 < w[1].0), "iteration is not in key order: {e:?}");
        }
        for (k, v) in &e {
            ensure_eq!(*v, self.m.get(*k), "iteration at key {k}");
            ensure!(M::LISTS_DEFAULTS || *v != self.m.d, "iteration lists the default at {k}");
        }
        for (k, v) in &self.m.m {
            ensure!(keys.contains(k), "iteration omits key {k} with value {v:?}");
        }
        self.s.extra_check(&self.m)
    }
    fn key(&self, out: &mut Vec<u8>) {
        for (k, v) in &self.m.m {
            out.extend((*k as u32).to_le_bytes());
            out.extend(v.code().to_le_bytes());
        }
        for h in self.s.hidden() {
            out.extend((h as u64).to_le_bytes());
        }
        // What the map really holds.
        for &k in &self.keys {
            out.extend(self.s.get(ni(k)).code().to_le_bytes());
        }
        if let Ok(mut e) = self.s.entries() {
            e.sort_by_key(|x| x.0);
            for (k, v) in e {
                if v != self.m.d {
                    out.extend((k as u32).to_le_bytes());
                    out.extend(v.code().to_le_bytes());
                }
            }
        } else {
            out.push(1);
        }
    }
    fn outcome(&self) -> u64 {
        outcome_of(&self.m.m)
    }
}

pub fn c12(ctx: &mut Ctx) {
    let keys: Vec<usize> = ctx.pick(vec![0, 1, 2, 63, 64, 65], vec![0, 1, 2, 31, 62, 63, 64, 65, 127, 128]);
    let caps = vec![0, 1, 3, 70, 200];
    let bound = |what: &str| format!("{what}: keys {keys:?}, capacity requests {caps:?}, all operations of the map trait");
    let depth = ctx.pick(60, 60);
    let bits = |make: fn() -> BitVec, n: &str| (n.to_string(), SSys { make, hist: vec![], s: make(), m: Model { d: false, m: BTreeMap::new() }, keys: keys.clone(), vals: vec![true, false], caps: caps.clone() });
    bfs(ctx, Bfs { name: "bitvec".into(), depth, max_states: 5_000_000, bound: bound("BitVec") }, vec![
        bits(|| <BitVec as SecondaryMap<NodeIndex, bool>>::new(), "new"),
        bits(|| <BitVec as SecondaryMap<NodeIndex, bool>>::with_capacity(10), "capacity 10"),
        bits(|| <BitVec as SecondaryMap<NodeIndex, bool>>::with_capacity(100), "capacity 100"),
    ]);
    let set = |make: fn() -> HashSet<NodeIndex>, n: &str| (n.to_string(), SSys { make, hist: vec![], s: make(), m: Model { d: false, m: BTreeMap::new() }, keys: keys.clone(), vals: vec![true, false], caps: caps.clone() });
    bfs(ctx, Bfs { name: "hashset".into(), depth, max_states: 5_000_000, bound: bound("HashSet") }, vec![
        set(|| <HashSet<NodeIndex> as SecondaryMap<NodeIndex, bool>>::new(), "new"),
        set(|| <HashSet<NodeIndex> as SecondaryMap<NodeIndex, bool>>::with_capacity(10), "capacity 10"),
    ]);
    let dkeys: Vec<usize> = ctx.pick(vec![0, 1, 3, 6], vec![0, 1, 2, 4, 5, 8]);
    let dcaps = vec![0, 1, 4, 9];
    let dense = |make: fn() -> Dense, d: u16, n: &str| (n.to_string(), SSys { make, hist: vec![], s: make(), m: Model { d: W(d), m: BTreeMap::new() }, keys: dkeys.clone(), vals: vec![W(1), W(7), W(9)], caps: dcaps.clone() });
    bfs(ctx, Bfs { name: "dense".into(), depth, max_states: 5_000_000, bound: format!("UnmanagedDenseMap: keys {dkeys:?}, values 1, 7 (the type's default), 9 (a custom default), capacity requests {dcaps:?}, all operations") }, vec![
        dense(|| Dense::new(), 7, "new"),
        dense(|| Dense::default(), 7, "default"),
        dense(|| <Dense as SecondaryMap<NodeIndex, W>>::new(), 7, "trait new"),
        dense(|| Dense::with_capacity(2), 7, "capacity 2"),
        dense(|| <Dense as SecondaryMap<NodeIndex, W>>::with_capacity(5), 7, "trait capacity 5"),
        dense(|| Dense::with_default(W(9)), 9, "default 9"),
        dense(|| Dense::with_capacity_and_default(3, W(9)), 9, "capacity 3, default 9"),
    ]);

    // Far keys and many keys.
    let far: Vec<usize> = ctx.pick(vec![0, 255, 256, 1023, 4096, 65_535], vec![0, 127, 255, 256, 511, 1023, 4096, 32_768, 65_535, 65_536]);
    let fcaps = vec![0, 300, 5000, 70_000];
    let bound = |what: &str| format!("{what}: keys {far:?}, capacity requests {fcaps:?}, all operations of the map trait");
    let sys = |make: fn() -> BitVec, n: &str| (n.to_string(), SSys { make, hist: vec![], s: make(), m: Model { d: false, m: BTreeMap::new() }, keys: far.clone(), vals: vec![true, false], caps: fcaps.clone() });
    bfs(ctx, Bfs { name: "bitvec-far".into(), depth: ctx.pick(4, 6), max_states: 5_000_000, bound: bound("BitVec") }, vec![sys(|| BitVec::default(), "empty"), sys(|| BitVec::repeat(false, 600), "600 flags")]);
    let sys = |make: fn() -> HashSet<NodeIndex>, n: &str| (n.to_string(), SSys { make, hist: vec![], s: make(), m: Model { d: false, m: BTreeMap::new() }, keys: far.clone(), vals: vec![true, false], caps: fcaps.clone() });
    bfs(ctx, Bfs { name: "hashset-far".into(), depth: ctx.pick(4, 6), max_states: 5_000_000, bound: bound("HashSet") }, vec![sys(|| HashSet::default(), "empty")]);
    let dfar: Vec<usize> = ctx.pick(vec![0, 255, 256, 1024], vec![0, 255, 256, 1024, 65_536]);
    let sys = |make: fn() -> Dense, d: u16, n: &str| (n.to_string(), SSys { make, hist: vec![], s: make(), m: Model { d: W(d), m: BTreeMap::new() }, keys: dfar.clone(), vals: vec![W(1), W(7), W(9)], caps: vec![0, 300, 2000] });
    bfs(ctx, Bfs { name: "dense-far".into(), depth: 3, max_states: 5_000_000, bound: format!("UnmanagedDenseMap: keys {dfar:?}, all operations") }, vec![
        sys(|| Dense::new(), 7, "new"),
        sys(|| Dense::with_default(W(9)), 9, "default 9"),
    ]);
    let many = [0, 7, 8, 31, 32, 63, 64, 99, 100];
    let full = |n: usize, step: usize| (0..n).filter(move |k| k % step == 0);
    for n in [33usize, 65, 100] {
        let mut b = vec![];
        let mut h = vec![];
        let mut d = vec![];
        for step in [1, 3] {
            let keys: Vec<usize> = many.iter().copied().filter(|k| *k <= n).collect();
            let mut s = SSys { make: || BitVec::default(), hist: vec![], s: BitVec::default(), m: Model { d: false, m: BTreeMap::new() }, keys: keys.clone(), vals: vec![true, false], caps: vec![n + 50] };
            let mut t = SSys { make: || HashSet::<NodeIndex>::default(), hist: vec![], s: HashSet::default(), m: Model { d: false, m: BTreeMap::new() }, keys: keys.clone(), vals: vec![true, false], caps: vec![n + 50] };
            let mut u = SSys { make: || Dense::new(), hist: vec![], s: Dense::new(), m: Model { d: W(7), m: BTreeMap::new() }, keys, vals: vec![W(1), W(7), W(9)], caps: vec![n + 50] };
            for k in full(n, step) {
                // A failure shows in the check of the start state.
                let _ = (s.apply(&SOp::Set(k, true)), t.apply(&SOp::Set(k, true)), u.apply(&SOp::Set(k, W(20 + k as u16))));
            }
            let name = format!("every {step}. of {n} keys set");
            b.push((name.clone(), s));
            h.push((name.clone(), t));
            d.push((name, u));
        }
        let depth = ctx.pick(2, 3);
        bfs(ctx, Bfs { name: format!("bitvec-many-{n}"), depth, max_states: 5_000_000, bound: format!("{n} keys, all or every third set, keys {many:?} operated on") }, b);
        bfs(ctx, Bfs { name: format!("hashset-many-{n}"), depth, max_states: 5_000_000, bound: format!("{n} keys, all or every third set, keys {many:?} operated on") }, h);
        bfs(ctx, Bfs { name: format!("dense-many-{n}"), depth: ctx.pick(1, 2), max_states: 5_000_000, bound: format!("{n} keys, all or every third set, keys {many:?} operated on") }, d);
    }
}

// ---------------------------------------------------------------------------
// C13
// ---------------------------------------------------------------------------

#[derive(Clone, Debug)]
pub enum WOp {
    Add(usize, usize),
    Remove(usize),
    SetPorts(usize, usize, usize),
    Swap(usize, usize),
    CompactNodes,
    CompactPorts,
    Clear,
    Link(usize, usize),
    Unlink(usize),
}

#[derive(Clone)]
pub struct WCfg {
    pub shapes: Vec<(usize, usize)>,
    pub sizes: Vec<(usize, usize)>,
    pub max_nodes: usize,
    pub max_links: usize,
    /// Port and node indices that are part of the state.
    pub span: (usize, usize),
}

#[derive(Clone)]
pub struct WSys<G> {
    pub g: G,
    pub w: Weights<W, W>,
    /// The same weights, moved by swapping as in the documentation's example.
    pub sw: UnmanagedDenseMap<PortIndex, W>,
    pub bits: BitVec,
    pub set: HashSet<PortIndex>,
    /// node -> (weight, port weights); the default weight stands for "never set"
    pub m: BTreeMap<usize, (W, [Vec<W>; 2])>,
    pub cfg: std::sync::Arc<WCfg>,
    /// Preparing this initial state failed.
    pub bad: Option<String>,
}

impl<G> WSys<G>
where
    G: LinkMut + Clone + Send + Sync + Default + serde::Serialize,
{
    fn fresh(&self) -> u16 {
        let used: BTreeSet<u16> = self.m.values().flat_map(|(n, p)| std::iter::once(n.0).chain(p.iter().flatten().map(|x| x.0))).collect();
        (100..).find(|x| !used.contains(x)).unwrap()
    }
    fn port(&self, n: usize, d: usize, o: usize) -> Result<PortIndex, String> {
        self.g.port_index(ni(n), PortOffset::new(DIRS[d], o)).ok_or(format!("port_index({n},{:?},{o}) is missing", DIRS[d]))
    }
    /// Give a new port its weight; every third port keeps the default.
    fn init_port(&mut self, n: usize, d: usize, o: usize) -> Result<W, String> {
        let p = self.port(n, d, o)?;
        ensure_eq!(self.w[p], W::default(), "weight of the new port {p:?} (node {n}, {:?} {o})", DIRS[d]);
        ensure_eq!(*SecondaryMap::<PortIndex, bool>::get(&self.bits, p), false, "flag of the new port {p:?} (node {n}, {:?} {o})", DIRS[d]);
        ensure_eq!(*SecondaryMap::<PortIndex, bool>::get(&self.set, p), false, "set membership of the new port {p:?} (node {n}, {:?} {o})", DIRS[d]);
        let w = if o == 2 { W::default() } else { W(self.fresh()) };
        self.w[p] = w.clone();
        self.sw[p] = w.clone();
        SecondaryMap::set(&mut self.bits, p, w.0 % 2 == 0);
        SecondaryMap::set(&mut self.set, p, w.0 % 2 == 0);
        Ok(w)
    }
    fn moved(&mut self, old: PortIndex, new: Option<PortIndex>) {
        self.w.ports.rekey(old, new);
        SecondaryMap::rekey(&mut self.bits, old, new);
        SecondaryMap::rekey(&mut self.set, old, new);
    }
    fn drop_ports(&mut self, n: usize) -> Res {
        let ps: Vec<PortIndex> = self.g.all_ports(ni(n)).collect();
        for p in ps {
            SecondaryMap::remove(&mut self.w.ports, p);
            SecondaryMap::remove(&mut self.bits, p);
            SecondaryMap::remove(&mut self.set, p);
        }
        Ok(())
    }
    fn ports(&self) -> Vec<(PortIndex, usize)> {
        let mut v = vec![];
        for (n, (_, ps)) in &self.m {
            for d in 0..2 {
                for o in 0..ps[d].len() {
                    if let Ok(p) = self.port(*n, d, o) {
                        v.push((p, d));
                    }
                }
            }
        }
        v
    }
}

impl<G> Sys for WSys<G>
where
    G: LinkMut + Clone + Send + Sync + Default + serde::Serialize,
{
    type Op = WOp;
    fn ops(&self) -> Vec<WOp> {
        let mut o = vec![];
        if self.m.len() < self.cfg.max_nodes {
            for s in &self.cfg.shapes {
                o.push(WOp::Add(s.0, s.1));
            }
        }
        for &n in self.m.keys() {
            o.push(WOp::Remove(n));
            for s in &self.cfg.sizes {
                o.push(WOp::SetPorts(n, s.0, s.1));
            }
            for &k in self.m.keys() {
                if k > n {
                    o.push(WOp::Swap(n, k));
                }
            }
        }
        o.push(WOp::CompactNodes);
        o.push(WOp::CompactPorts);
        if self.m.len() > 1 {
            o.push(WOp::Clear);
        }
        if self.cfg.max_links > 0 {
            let mut ps = self.ports();
            if ps.len() > 24 {
                // a representative selection of the ports of a large graph
                let step = ps.len() / 12 | 1;
                ps = ps.into_iter().step_by(step).collect();
            }
            if self.g.link_count() < self.cfg.max_links {
                for &(a, d) in &ps {
                    if d == 1 {
                        for &(b, e) in &ps {
                            if e == 0 {
                                o.push(WOp::Link(a.index(), b.index()));
                            }
                        }
                    }
                }
            }
            for &(a, d) in &ps {
                if d == 1 && self.g.port_link(a).is_some() {
                    o.push(WOp::Unlink(a.index()));
                }
            }
        }
        o
    }
    fn apply(&mut self, op: &WOp) -> Res {
        match op {
            WOp::Add(i, o) => {
                let n = self.g.add_node(*i, *o).index();
                ensure!(!self.m.contains_key(&n), "add_node returned the used index {n}");
                ensure_eq!(self.w[ni(n)], W::default(), "weight of the new node {n}");
                let w = W(self.fresh());
                self.w[ni(n)] = w.clone();
                self.m.insert(n, (w, [vec![], vec![]]));
                for (d, c) in [*i, *o].into_iter().enumerate() {
                    for k in 0..c {
                        let w = self.init_port(n, d, k)?;
                        self.m.get_mut(&n).unwrap().1[d].push(w);
                    }
                }
            }
            WOp::Remove(n) => {
                self.drop_ports(*n)?;
                SecondaryMap::remove(&mut self.w.nodes, ni(*n));
                self.g.remove_node(ni(*n));
                self.m.remove(n);
            }
            WOp::SetPorts(n, i, o) => {
                let mut log: Vec<(PortIndex, Option<PortIndex>)> = vec![];
                self.g.set_num_ports(ni(*n), *i, *o, |p, op| {
                    log.push(match op {
                        PortOperation::Removed { .. } => (p, None),
                        PortOperation::Moved { new_index } => (p, Some(new_index)),
                    })
                });
                for (p, q) in log {
                    self.moved(p, q);
                    if let Some(q) = q {
                        self.sw.swap(p, q);
                    }
                }
                for (d, c) in [*i, *o].into_iter().enumerate() {
                    let v = &mut self.m.get_mut(n).unwrap().1[d];
                    v.truncate(c);
                    for k in v.len()..c {
                        let w = self.init_port(*n, d, k)?;
                        self.m.get_mut(n).unwrap().1[d].push(w);
                    }
                }
            }
            WOp::Swap(a, b) => {
                self.g.swap_nodes(ni(*a), ni(*b));
                SecondaryMap::swap(&mut self.w.nodes, ni(*a), ni(*b));
                let (x, y) = (self.m.remove(a).unwrap(), self.m.remove(b).unwrap());
                self.m.insert(*a, y);
                self.m.insert(*b, x);
            }
            WOp::CompactNodes => {
                let w = &mut self.w.nodes;
                self.g.compact_nodes(|a, b| w.rekey(a, Some(b)));
                // The user's nodes keep their order; hidden nodes may sit in between.
                let now: Vec<usize> = {
                    let mut v: Vec<usize> = self.g.nodes_iter().map(|n| n.index()).collect();
                    v.sort();
                    v
                };
                ensure_eq!(now.len(), self.m.len(), "nodes after compaction");
                self.m = std::mem::take(&mut self.m).into_values().zip(now).map(|(v, k)| (k, v)).collect();
            }
            WOp::CompactPorts => {
                let mut log = vec![];
                self.g.compact_ports(|a, b| log.push((a, b)));
                for (a, b) in log {
                    self.moved(a, Some(b));
                    self.sw.swap(a, b);
                }
            }
            WOp::Clear => {
                for n in self.m.keys().copied().collect::<Vec<_>>() {
                    self.drop_ports(n)?;
                    SecondaryMap::remove(&mut self.w.nodes, ni(n));
                }
                self.g.clear();
                self.m.clear();
            }
            WOp::Link(a, b) => {
                // refused on single graphs when taken; either way weights stay
                let _ = self.g.link_ports(PortIndex::new(*a), PortIndex::new(*b));
            }
            WOp::Unlink(a) => {
                let _ = self.g.unlink_port(PortIndex::new(*a));
            }
        }
        Ok(())
    }
    fn check(&self) -> Res {
        if let Some(e) = &self.bad {
            return Err(e.clone());
        }
        let mut live: BTreeMap<usize, W> = BTreeMap::new();
        for (n, (w, ps)) in &self.m {
            ensure_eq!(self.w[ni(*n)], *w, "weight of node {n}");
            for d in 0..2 {
                ensure_eq!(self.g.num_ports(ni(*n), DIRS[d]), ps[d].len(), "num_ports({n},{:?})", DIRS[d]);
                for (o, w) in ps[d].iter().enumerate() {
                    let p = self.port(*n, d, o)?;
                    ensure_eq!(self.w[p], *w, "weight of {:?} port {o} of node {n} (port {})", DIRS[d], p.index());
                    ensure_eq!(self.sw[p], *w, "weight of {:?} port {o} of node {n} (port {}), moved by swapping", DIRS[d], p.index());
                    live.insert(p.index(), w.clone());
                }
            }
        }
        for n in 0..self.g.node_capacity() + 4 {
            if !self.m.contains_key(&n) {
                ensure_eq!(self.w[ni(n)], W::default(), "weight of the absent node {n}");
            }
        }
        for p in 0..64.max(self.cfg.span.0) {
            let x = PortIndex::new(p);
            let w = live.get(&p).cloned().unwrap_or_default();
            ensure_eq!(self.w[x], w, "weight of port {p}");
            let f = w.0 % 2 == 0;
            ensure_eq!(*SecondaryMap::<PortIndex, bool>::get(&self.bits, x), f, "flag of port {p}");
            ensure_eq!(*SecondaryMap::<PortIndex, bool>::get(&self.set, x), f, "set membership of port {p}");
        }
        Ok(())
    }
    fn key(&self, out: &mut Vec<u8>) {
        out.extend(rmp_serde::to_vec(&self.g).unwrap());
        for (n, (w, ps)) in &self.m {
            out.extend((*n as u16).to_le_bytes());
            out.extend(w.0.to_le_bytes());
            for d in 0..2 {
                out.push(ps[d].len() as u8);
                out.extend(ps[d].iter().flat_map(|x| x.0.to_le_bytes()));
            }
        }
        // What the maps really hold, also at indices not in use.
        for p in 0..self.cfg.span.0 {
            let p = PortIndex::new(p);
            out.extend(SecondaryMap::get(&self.w.ports, p).0.to_le_bytes());
            out.extend(SecondaryMap::get(&self.sw, p).0.to_le_bytes());
            out.push(*SecondaryMap::<PortIndex, bool>::get(&self.bits, p) as u8 * 2 + *SecondaryMap::<PortIndex, bool>::get(&self.set, p) as u8);
        }
        for n in 0..self.cfg.span.1 {
            out.extend(SecondaryMap::get(&self.w.nodes, ni(n)).0.to_le_bytes());
        }
    }
    fn outcome(&self) -> u64 {
        outcome_of(&self.m)
    }
}

fn weights_section<G>(ctx: &mut Ctx, name: &str, cfg: WCfg, depth: usize)
where
    G: LinkMut + Clone + Send + Sync + Default + serde::Serialize,
{
    let bound = format!("<={} nodes of shapes {:?}, resizes to {:?}, <={} links; removal, swapping, compaction, clearing", cfg.max_nodes, cfg.shapes, cfg.sizes, cfg.max_links);
    let s = WSys::<G> { g: G::default(), w: Weights::new(), sw: UnmanagedDenseMap::new(), bits: BitVec::new(), set: HashSet::new(), m: BTreeMap::new(), cfg: std::sync::Arc::new(cfg), bad: None };
    let mut s2 = s.clone();
    s2.w = Weights::with_capacity(1, 2);
    let mut s3 = s.clone();
    s3.w = Weights::default();
    bfs(ctx, Bfs { name: format!("{name}-default"), depth: 2, max_states: 8_000_000, bound: "weights from Default::default()".into() }, vec![("default".into(), s3)]);
    bfs(ctx, Bfs { name: name.into(), depth, max_states: 8_000_000, bound }, vec![("empty".into(), s), ("small capacity".into(), s2)]);
}

/// Larger graphs with all their weights, with links, freed indices and resized nodes.
fn weights_large<G>(ctx: &mut Ctx, name: &str, n: usize, depth: usize)
where
    G: LinkMut + Clone + Send + Sync + Default + serde::Serialize,
{
    let cfg = WCfg { shapes: vec![(1, 1), (3, 2)], sizes: vec![(0, 0), (1, 1), (2, 4), (7, 6)], max_nodes: usize::MAX, max_links: usize::MAX, span: (n * 24, n * 4) };
    let bound = format!("4 starting graphs of {n} nodes (2 shapes and link patterns, with and without removed and resized nodes), adding, resizes to {:?}, links, removal, swapping, compaction, clearing", cfg.sizes);
    let cfg = std::sync::Arc::new(cfg);
    let mut v = vec![];
    for variant in 0..2 {
        for holes in [false, true] {
            let mut s = WSys::<G> { g: G::default(), w: Weights::new(), sw: UnmanagedDenseMap::new(), bits: BitVec::new(), set: HashSet::new(), m: BTreeMap::new(), cfg: cfg.clone(), bad: None };
            let act = |s: &mut WSys<G>, o: WOp| {
                if s.bad.is_none() {
                    s.bad = guarded(|| s.apply(&o)).err().map(|e| format!("preparing the initial state, at {o:?}: {e}"));
                }
            };
            for k in 0..n {
                let (i, o) = if variant == 0 { (2, 2) } else { (k % 4, (k * 3) % 5) };
                act(&mut s, WOp::Add(i, o));
            }
            let (outs, ins): (Vec<_>, Vec<_>) = s.ports().into_iter().partition(|x| x.1 == 1);
            for (k, o) in outs.iter().enumerate() {
                for t in 0..1 + variant {
                    act(&mut s, WOp::Link(o.0.index(), ins[(3 * k + t) % ins.len()].0.index()));
                }
            }
            if holes {
                act(&mut s, WOp::SetPorts(1, 6, 3));
                act(&mut s, WOp::SetPorts(n - 2, 0, 1));
                for k in (2..n).step_by(4) {
                    act(&mut s, WOp::Remove(k));
                }
            }
            v.push((format!("{n} nodes, pattern {variant}{}", if holes { ", with holes" } else { "" }), s));
        }
    }
    bfs(ctx, Bfs { name: name.into(), depth, max_states: 8_000_000, bound }, v);
}

pub fn c13(ctx: &mut Ctx) {
    let all: Vec<(usize, usize)> = (0..4).flat_map(|a| (0..4).map(move |b| (a, b))).collect();
    weights_section::<PortGraph>(ctx, "portgraph-resize", WCfg { shapes: vec![(2, 2), (3, 1)], sizes: all, max_nodes: 2, max_links: 0, span: (40, 10) }, ctx.pick(6, 7));
    weights_section::<PortGraph>(ctx, "portgraph-mixed", WCfg { shapes: vec![(1, 1), (0, 2)], sizes: vec![(0, 0), (2, 1), (1, 3)], max_nodes: 3, max_links: 0, span: (40, 10) }, ctx.pick(8, 9));
    weights_section::<PortGraph>(ctx, "portgraph-linked", WCfg { shapes: vec![(1, 2)], sizes: vec![(0, 1), (2, 2)], max_nodes: 2, max_links: 2, span: (40, 10) }, ctx.pick(10, 12));
    weights_section::<MultiPortGraph>(ctx, "multi", WCfg { shapes: vec![(1, 1), (2, 1)], sizes: vec![(0, 1), (2, 2)], max_nodes: 2, max_links: 3, span: (40, 10) }, ctx.pick(8, 9));
    weights_large::<PortGraph>(ctx, "portgraph-large-5", 5, ctx.pick(2, 3));
    weights_large::<PortGraph>(ctx, "portgraph-large-30", 30, 1);
    weights_large::<MultiPortGraph>(ctx, "multi-large-5", 5, ctx.pick(2, 3));
    weights_large::<MultiPortGraph>(ctx, "multi-large-30", 30, 1);
}
