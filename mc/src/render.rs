//! Rendering (C29): the dot and mermaid texts are parsed and compared with the
//! graph, its hierarchy and the requested styles.

use crate::engine::*;
use crate::families::*;
use crate::gen::*;
use crate::viewcheck::*;
use crate::views::{filtered, mask_of};
use crate::{ensure, ensure_eq};
use portgraph::render::{DotFormat, EdgeStyle, MermaidFormat, NodeStyle, PortStyle, PresentationStyle};
use portgraph::view::{FlatRegion, LinkView, Region, Subgraph};
use portgraph::{Direction, Hierarchy, MultiPortGraph, NodeIndex, PortGraph, PortIndex, Weights};
use std::collections::{BTreeMap, BTreeSet};

// ---------------------------------------------------------------------------
// dot
// ---------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Id(String),
    Html(String),
    Arrow,
    P(char),
}

fn tokens(s: &str) -> Result<Vec<Tok>, String> {
    let c: Vec<char> = s.chars().collect();
    let mut v = vec![];
    let mut i = 0;
    while i < c.len() {
        match c[i] {
            x if x.is_whitespace() => i += 1,
            '"' => {
                let mut t = String::new();
                i += 1;
                while i < c.len() && c[i] != '"' {
                    if c[i] == '\\' && i + 1 < c.len() && c[i + 1] == '"' {
                        i += 1;
                    }
                    t.push(c[i]);
                    i += 1;
                }
                ensure!(i < c.len(), "dot: unterminated string in {s:?}");
                i += 1;
                v.push(Tok::Id(t));
            }
            '<' => {
                let (mut depth, from) = (1, i + 1);
                i += 1;
                while i < c.len() {
                    if c[i] == '<' {
                        depth += 1;
                    }
                    if c[i] == '>' {
                        depth -= 1;
                        if depth == 0 {
                            break;
                        }
                    }
                    i += 1;
                }
                ensure!(i < c.len(), "dot: unbalanced angle brackets in {s:?}");
                v.push(Tok::Html(c[from..i].iter().collect()));
                i += 1;
            }
            '-' if c.get(i + 1) == Some(&'>') => {
                v.push(Tok::Arrow);
                i += 2;
            }
            x if x.is_alphanumeric() || x == '_' || x == '.' => {
                let from = i;
                while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_' || c[i] == '.') {
                    i += 1;
                }
                v.push(Tok::Id(c[from..i].iter().collect()));
            }
            x if "{}[]=,;:".contains(x) => {
                v.push(Tok::P(x));
                i += 1;
            }
            x => return Err(format!("dot: unexpected character {x:?} in {s:?}")),
        }
    }
    Ok(v)
}

/// One cell of a table.
#[derive(Clone, Debug, Default)]
struct Cell {
    attrs: BTreeMap<String, String>,
    text: String,
}

fn table(s: &str) -> Result<Vec<Vec<Cell>>, String> {
    let mut rows = vec![];
    let mut row: Option<Vec<Cell>> = None;
    let mut cell: Option<Cell> = None;
    let (mut open, mut closed) = (false, false);
    let mut rest = s;
    while !rest.is_empty() {
        if let Some(r) = rest.strip_prefix('<') {
            let end = r.find('>').ok_or(format!("html: unterminated tag in {s:?}"))?;
            let tag = &r[..end];
            rest = &r[end + 1..];
            let name = tag.split_whitespace().next().unwrap_or("");
            match name {
                "table" => {
                    ensure!(!open, "html: two tables in {s:?}");
                    open = true;
                }
                "/table" => {
                    ensure!(open && !closed && row.is_none(), "html: misplaced </table> in {s:?}");
                    closed = true;
                }
                "tr" => {
                    ensure!(open && !closed && row.is_none(), "html: misplaced <tr> in {s:?}");
                    row = Some(vec![]);
                }
                "/tr" => {
                    ensure!(cell.is_none(), "html: misplaced </tr> in {s:?}");
                    rows.push(row.take().ok_or(format!("html: misplaced </tr> in {s:?}"))?);
                }
                "td" => {
                    ensure!(row.is_some() && cell.is_none(), "html: misplaced <td> in {s:?}");
                    let mut c = Cell::default();
                    let mut a = tag["td".len()..].trim();
                    while !a.is_empty() {
                        let eq = a.find("=\"").ok_or(format!("html: bad attribute {a:?}"))?;
                        let close = a[eq + 2..].find('"').ok_or(format!("html: bad attribute {a:?}"))?;
                        let old = c.attrs.insert(a[..eq].trim().to_string(), a[eq + 2..eq + 2 + close].to_string());
                        ensure!(old.is_none(), "html: repeated attribute in {tag:?}");
                        a = a[eq + 2 + close + 1..].trim();
                    }
                    cell = Some(c);
                }
                "/td" => {
                    let c = cell.take().ok_or(format!("html: misplaced </td> in {s:?}"))?;
                    row.as_mut().unwrap().push(c);
                }
                _ => return Err(format!("html: unexpected tag {tag:?} in {s:?}")),
            }
        } else {
            let end = rest.find('<').unwrap_or(rest.len());
            match cell.as_mut() {
                Some(c) => c.text.push_str(&rest[..end]),
                None => ensure!(rest[..end].trim().is_empty(), "html: text outside of a cell in {s:?}"),
            }
            rest = &rest[end..];
        }
    }
    ensure!(open && closed, "html: no complete table in {s:?}");
    Ok(rows)
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct DotEdge {
    from: usize,
    out: Option<usize>,
    to: usize,
    inp: Option<usize>,
    style: String,
}
#[derive(Clone, Debug, PartialEq)]
struct DotNode {
    label: String,
    /// (offset, text, boxed)
    ports: [Vec<(usize, String, bool)>; 2],
    attrs: BTreeMap<String, String>,
}
#[derive(Default, Debug)]
struct Dot {
    nodes: BTreeMap<usize, DotNode>,
    edges: Vec<DotEdge>,
    hier_nodes: BTreeMap<usize, String>,
    hier_edges: Vec<(usize, usize)>,
}

fn num(s: &str) -> Result<usize, String> {
    s.parse().map_err(|_| format!("not a number: {s:?}"))
}

fn dot_node(attrs: &BTreeMap<String, Tok>) -> Result<DotNode, String> {
    let Some(Tok::Html(h)) = attrs.get("label") else { return Err(format!("dot: node without an html label: {attrs:?}")) };
    let rows = table(h)?;
    let mut n = DotNode { label: String::new(), ports: [vec![], vec![]], attrs: BTreeMap::new() };
    for (k, v) in attrs {
        if let (true, Tok::Id(v)) = (!["label", "shape"].contains(&k.as_str()), v) {
            n.attrs.insert(k.clone(), v.clone());
        }
    }
    let mut stage = 0;
    let mut width = None;
    for row in rows {
        let mut w = 0;
        for c in &row {
            w += c.attrs.get("colspan").map_or(Ok(1), |x| num(x))?;
            match c.attrs.get("port") {
                None => {
                    ensure!(stage == 0 && row.len() == 1, "dot: misplaced label cell in {h:?}");
                    stage = 1;
                    n.label = c.text.clone();
                }
                Some(p) => {
                    let (d, o) = if let Some(o) = p.strip_prefix("in") { (0, o) } else if let Some(o) = p.strip_prefix("out") { (1, o) } else { return Err(format!("dot: bad port name {p:?}")) };
                    ensure!(stage == d, "dot: port {p} on the wrong side of the node in {h:?}");
                    n.ports[d].push((num(o)?, c.text.clone(), c.attrs.get("border").map(|s| s.as_str()) != Some("0")));
                }
            }
        }
        ensure!(*width.get_or_insert(w) == w, "dot: rows of different width in {h:?}");
    }
    ensure!(stage == 1, "dot: no label in {h:?}");
    Ok(n)
}

fn parse_dot(s: &str) -> Result<Dot, String> {
    let t = tokens(s)?;
    let mut d = Dot::default();
    ensure!(t.len() >= 3 && t[0] == Tok::Id("digraph".into()) && t[1] == Tok::P('{') && t.last() == Some(&Tok::P('}')), "dot: not a digraph: {s:?}");
    let t = &t[2..t.len() - 1];
    let mut i = 0;
    let id = |i: &mut usize| -> Result<(String, Option<String>), String> {
        let Some(Tok::Id(n)) = t.get(*i) else { return Err(format!("dot: expected a node at token {i} of {s:?}")) };
        *i += 1;
        if t.get(*i) == Some(&Tok::P(':')) {
            let Some(Tok::Id(p)) = t.get(*i + 1) else { return Err(format!("dot: expected a port at token {i} of {s:?}")) };
            *i += 2;
            return Ok((n.clone(), Some(p.clone())));
        }
        Ok((n.clone(), None))
    };
    while i < t.len() {
        if t[i] == Tok::P(';') {
            i += 1;
            continue;
        }
        let a = id(&mut i)?;
        let b = if t.get(i) == Some(&Tok::Arrow) {
            i += 1;
            Some(id(&mut i)?)
        } else {
            None
        };
        let mut attrs = BTreeMap::new();
        if t.get(i) == Some(&Tok::P('[')) {
            i += 1;
            while t.get(i) != Some(&Tok::P(']')) {
                if matches!(t.get(i), Some(Tok::P(',' | ';'))) {
                    i += 1;
                    continue;
                }
                let (Some(Tok::Id(k)), Some(Tok::P('=')), Some(v)) = (t.get(i), t.get(i + 1), t.get(i + 2)) else { return Err(format!("dot: bad attribute at token {i} of {s:?}")) };
                ensure!(attrs.insert(k.clone(), v.clone()).is_none(), "dot: attribute {k} given twice in {s:?}");
                i += 3;
            }
            i += 1;
        }
        let hier = |x: &str| x.strip_prefix("hier").map(num);
        match (hier(&a.0), &b) {
            (Some(n), None) => {
                let Some(Tok::Id(l)) = attrs.get("label") else { return Err("dot: hierarchy node without a label".into()) };
                ensure!(d.hier_nodes.insert(n?, l.clone()).is_none(), "dot: hierarchy node {} declared twice", a.0);
            }
            (Some(n), Some(b)) => {
                let m = hier(&b.0).ok_or(format!("dot: edge from {} to {}", a.0, b.0))?;
                ensure!(a.1.is_none() && b.1.is_none(), "dot: ports on hierarchy edge");
                d.hier_edges.push((n?, m?));
            }
            (None, None) => {
                ensure!(d.nodes.insert(num(&a.0)?, dot_node(&attrs)?).is_none(), "dot: node {} declared twice", a.0);
            }
            (None, Some(b)) => {
                let port = |p: &Option<String>, dir: &str| -> Result<Option<usize>, String> {
                    match p {
                        None => Ok(None),
                        Some(p) => Ok(Some(num(p.strip_prefix(dir).ok_or(format!("dot: edge end at port {p:?}, expected {dir}.."))?)?)),
                    }
                };
                let style = match attrs.get("style") {
                    None => String::new(),
                    Some(Tok::Id(s)) => s.clone(),
                    Some(x) => return Err(format!("dot: edge style {x:?}")),
                };
                d.edges.push(DotEdge { from: num(&a.0)?, out: port(&a.1, "out")?, to: num(&b.0)?, inp: port(&b.1, "in")?, style });
            }
        }
    }
    d.edges.sort();
    d.hier_edges.sort();
    Ok(d)
}

// ---------------------------------------------------------------------------
// mermaid
// ---------------------------------------------------------------------------

#[derive(Clone, Debug)]
struct MmNode {
    /// Enclosing blocks, outermost first.
    inside: Vec<usize>,
    block: bool,
    /// `None` for a node marked as hidden.
    label: Option<String>,
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Line {
    Solid,
    Dotted,
    Custom(String),
}
#[derive(Default, Debug)]
struct Mm {
    nodes: BTreeMap<usize, MmNode>,
    /// (from, to, line, label, enclosing blocks)
    edges: Vec<(usize, usize, Line, Option<String>, Vec<usize>)>,
    styles: BTreeMap<usize, BTreeMap<String, String>>,
    /// Children of every block (`None`: the top), in order.
    order: BTreeMap<Option<usize>, Vec<usize>>,
}

fn mm_text(s: &str) -> Result<String, String> {
    let s = s.trim();
    match s.strip_prefix('"') {
        Some(q) => {
            let q = q.strip_suffix('"').ok_or(format!("mermaid: unbalanced quotes in {s:?}"))?;
            ensure!(!q.contains('"'), "mermaid: a quote inside the label {s:?}");
            Ok(q.replace("#quot;", "\"").replace("<br>", "\n").replace("<br/>", "\n"))
        }
        None => {
            ensure!(!s.contains(['"', '[', ']']), "mermaid: special characters in the bare label {s:?}");
            Ok(s.to_string())
        }
    }
}

fn mm_line(s: &str) -> Result<(Line, Option<String>), String> {
    let plain = |a: &str| a.trim().is_empty() || a.chars().all(|c| c == '-' || c == '.');
    for (pre, post, l) in [("--", "->", Line::Solid), ("-.", "->", Line::Dotted)] {
        if let Some(m) = s.strip_prefix(pre).and_then(|m| m.strip_suffix(post)) {
            if let (Some(a), Some(b)) = (m.find('"'), m.rfind('"')) {
                if a < b && plain(&m[..a]) && plain(&m[b + 1..]) && !m[b + 1..].is_empty() {
                    let q = &m[a + 1..b];
                    ensure!(!q.contains('"'), "mermaid: a quote inside the edge label {s:?}");
                    return Ok((l, Some(q.replace("#quot;", "\"").replace("<br>", "\n"))));
                }
            }
            if plain(m) {
                return Ok((l, None));
            }
        }
        // "-->" is the shortest solid line
        if s == "-->" {
            return Ok((Line::Solid, None));
        }
    }
    Ok((Line::Custom(s.to_string()), None))
}

fn parse_mm(s: &str) -> Result<Mm, String> {
    let mut m = Mm::default();
    let mut lines = s.lines();
    let head = lines.next().unwrap_or("").trim();
    ensure!(head.starts_with("graph ") || head.starts_with("flowchart "), "mermaid: not a flowchart: {s:?}");
    let mut stack: Vec<usize> = vec![];
    for l in lines {
        let l = l.trim();
        if l.is_empty() || l.starts_with("direction ") {
            continue;
        }
        if l == "end" {
            ensure!(stack.pop().is_some(), "mermaid: unbalanced end in {s:?}");
            continue;
        }
        if let Some(r) = l.strip_prefix("style ") {
            let (id, a) = r.split_once(' ').ok_or(format!("mermaid: bad style line {l:?}"))?;
            let mut at = BTreeMap::new();
            for kv in a.split(',') {
                let (k, v) = kv.split_once(':').ok_or(format!("mermaid: bad style line {l:?}"))?;
                ensure!(at.insert(k.trim().to_string(), v.trim().to_string()).is_none(), "mermaid: repeated attribute in {l:?}");
            }
            ensure!(m.styles.insert(num(id)?, at).is_none(), "mermaid: two style lines for node {id}");
            continue;
        }
        let (block, r) = match l.strip_prefix("subgraph ") {
            Some(r) => (true, r.trim()),
            None => (false, l),
        };
        let digits = r.chars().take_while(|c| c.is_ascii_digit()).count();
        ensure!(digits > 0, "mermaid: line {l:?} does not start with a node");
        let id = num(&r[..digits])?;
        let rest = r[digits..].trim();
        let declare = |m: &mut Mm, label: Option<String>| -> Res {
            ensure!(!m.nodes.contains_key(&id), "mermaid: node {id} is declared twice in {s}");
            m.order.entry(stack.last().copied()).or_default().push(id);
            m.nodes.insert(id, MmNode { inside: stack.clone(), block, label });
            Ok(())
        };
        if rest.is_empty() {
            declare(&mut m, Some(id.to_string()))?;
        } else if rest == ":::hidden" && !block {
            declare(&mut m, None)?;
        } else if let Some(lbl) = rest.strip_prefix('[') {
            let lbl = lbl.strip_suffix(']').ok_or(format!("mermaid: bad node line {l:?}"))?;
            let t = mm_text(lbl)?;
            declare(&mut m, if block && t.is_empty() { None } else { Some(t) })?;
        } else {
            ensure!(!block, "mermaid: bad block line {l:?}");
            let tail = rest.chars().rev().take_while(|c| c.is_ascii_digit()).count();
            ensure!(tail > 0, "mermaid: line {l:?} is not understood");
            let to = num(&rest[rest.len() - tail..])?;
            let (line, label) = mm_line(rest[..rest.len() - tail].trim())?;
            m.edges.push((id, to, line, label, stack.clone()));
            continue;
        }
        if block {
            stack.push(id);
        }
    }
    ensure!(stack.is_empty(), "mermaid: unclosed block in {s:?}");
    m.edges.sort();
    Ok(m)
}

// ---------------------------------------------------------------------------
// Expectations
// ---------------------------------------------------------------------------

/// What was asked for.
#[derive(Clone, Default)]
struct Ask {
    node: Option<BTreeMap<usize, NodeStyle>>,
    port: Option<BTreeMap<usize, PortStyle>>,
    edge: Option<BTreeMap<(Ep, Ep), EdgeStyle>>,
    weights: Option<Weights<String, String>>,
}

#[allow(deprecated)]
fn node_look(s: &NodeStyle) -> Option<(String, PresentationStyle)> {
    match s {
        NodeStyle::Hidden => None,
        NodeStyle::Box(l) => Some((l.clone(), PresentationStyle::new())),
        NodeStyle::Boxed { label, attrs, .. } => Some((label.clone(), attrs.clone())),
        _ => unreachable!(),
    }
}

fn parent_of(h: Option<&Hierarchy>, v: &RefView, n: usize) -> Option<usize> {
    h?.parent(ni(n)).map(|p| p.index()).filter(|p| v.nodes.contains_key(p))
}

impl Ask {
    fn node(&self, n: usize) -> Option<(String, PresentationStyle)> {
        if let Some(w) = &self.weights {
            return Some((w.nodes[ni(n)].clone(), PresentationStyle::new()));
        }
        match &self.node {
            None => Some((String::new(), PresentationStyle::new())),
            Some(m) => node_look(&m[&n]),
        }
    }
    fn port(&self, p: usize) -> PortStyle {
        if let Some(w) = &self.weights {
            return PortStyle::Boxed(w.ports[pi(p)].clone(), true);
        }
        self.port.as_ref().map_or(PortStyle::Boxed(String::new(), true), |m| m[&p].clone())
    }
    fn edge(&self, l: &(Ep, Ep)) -> EdgeStyle {
        self.edge.as_ref().map_or(EdgeStyle::Solid, |m| m[l].clone())
    }

    fn dot<G>(&self, g: &G, v: &RefView, h: Option<&Hierarchy>) -> Result<String, String>
    where
        G: LinkView,
        G::LinkEndpoint: EpKey,
    {
        let mut f = g.dot_format();
        if let Some(h) = h {
            f = f.with_hierarchy(h);
        }
        if let Some(m) = &self.node {
            f = f.with_node_style(|n| m[&n.index()].clone());
        }
        if let Some(m) = &self.port {
            f = f.with_port_style(|p| m[&p.index()].clone());
        }
        if let Some(m) = &self.edge {
            f = f.with_edge_style(|a, b| m.get(&(a.ep(), b.ep())).cloned().unwrap_or(EdgeStyle::Custom("unknown link".into())));
        }
        if let Some(w) = &self.weights {
            f = f.with_weights(w);
        }
        let s = f.finish();
        let d = parse_dot(&s)?;
        let shown = |n: usize| self.node(n).is_some();
        // nodes
        for n in d.nodes.keys() {
            ensure!(v.nodes.contains_key(n), "dot: node {n} is drawn, but it is not in the graph\n{s}");
        }
        for (&n, ps) in &v.nodes {
            let Some((label, at)) = self.node(n) else {
                ensure!(!d.nodes.contains_key(&n), "dot: the hidden node {n} is drawn\n{s}");
                continue;
            };
            let Some(x) = d.nodes.get(&n) else { return Err(format!("dot: node {n} is not drawn\n{s}")) };
            let styled = self.node.is_some() || self.weights.is_some();
            ensure_eq!(x.label, if styled { label } else { n.to_string() }, "dot: label of node {n}\n{s}");
            for (a, k) in [(&at.color, "fontcolor"), (&at.fill, "fillcolor"), (&at.stroke, "color"), (&at.stroke_width, "penwidth")] {
                ensure_eq!(x.attrs.get(k), a.as_ref(), "dot: attribute {k} of node {n}\n{s}");
            }
            for dir in DIRS {
                let want: Vec<(usize, String, bool)> = ps[dir as usize]
                    .iter()
                    .enumerate()
                    .filter_map(|(o, p)| {
                        let text = |l: String, show: bool| match (show, l.is_empty()) {
                            (false, _) => l,
                            (true, true) => o.to_string(),
                            (true, false) => format!("{o}: {l}"),
                        };
                        match self.port(*p) {
                            PortStyle::Hidden => None,
                            PortStyle::Plain(l, s) => Some((o, text(l, s), false)),
                            PortStyle::Boxed(l, s) => Some((o, text(l, s), true)),
                            _ => unreachable!(),
                        }
                    })
                    .collect();
                ensure_eq!(x.ports[dir as usize], want, "dot: {dir:?} ports of node {n} as (offset, text, boxed)\n{s}");
            }
        }
        // links
        let owner = v.port_owner();
        let mut want: Vec<DotEdge> = v
            .links
            .iter()
            .filter(|(a, b)| shown(owner[&a.0].0) && shown(owner[&b.0].0))
            .map(|l| {
                let (a, b) = (owner[&l.0 .0], owner[&l.1 .0]);
                let style = match self.edge(l).strip_label() {
                    EdgeStyle::Solid => String::new(),
                    EdgeStyle::Dotted => "dotted".into(),
                    EdgeStyle::Dashed => "dashed".into(),
                    EdgeStyle::Custom(s) => s.clone(),
                    _ => unreachable!(),
                };
                DotEdge { from: a.0, out: Some(a.2), to: b.0, inp: Some(b.2), style }
            })
            .collect();
        want.sort();
        let hidden = |n: usize, d: Direction, o: usize| self.port(v.nodes[&n][d as usize][o]) == PortStyle::Hidden;
        if d.edges != want {
            // An end at a hidden port may be attached to the node.
            let blur = |e: &DotEdge| {
                let mut e = e.clone();
                e.out = e.out.filter(|o| !v.nodes.get(&e.from).is_some_and(|ps| *o < ps[1].len() && hidden(e.from, Direction::Outgoing, *o)));
                e.inp = e.inp.filter(|o| !v.nodes.get(&e.to).is_some_and(|ps| *o < ps[0].len() && hidden(e.to, Direction::Incoming, *o)));
                e
            };
            let (mut a, mut b): (Vec<_>, Vec<_>) = (d.edges.iter().map(blur).collect(), want.iter().map(blur).collect());
            a.sort();
            b.sort();
            ensure_eq!(a, b, "dot: edges\n{s}");
        }
        // hierarchy
        match h {
            None => ensure!(d.hier_nodes.is_empty() && d.hier_edges.is_empty(), "dot: a hierarchy is drawn, but none was given\n{s}"),
            Some(_) => {
                for (n, l) in &d.hier_nodes {
                    ensure!(v.nodes.contains_key(n), "dot: the hierarchy shows node {n}, which is not in the graph\n{s}");
                    ensure_eq!(*l, n.to_string(), "dot: label of node {n} in the hierarchy");
                }
                for n in v.nodes.keys() {
                    ensure!(d.hier_nodes.contains_key(n) || !shown(*n), "dot: the hierarchy lacks node {n}\n{s}");
                }
                let vis = |e: &(usize, usize)| shown(e.0) && shown(e.1);
                let mut want: Vec<(usize, usize)> = v.nodes.keys().filter_map(|n| parent_of(h, v, *n).map(|p| (p, *n))).filter(vis).collect();
                want.sort();
                for e in &d.hier_edges {
                    ensure!(v.nodes.contains_key(&e.0) && v.nodes.contains_key(&e.1), "dot: hierarchy edge {e:?}, not in the graph\n{s}");
                }
                let got: Vec<(usize, usize)> = d.hier_edges.iter().copied().filter(vis).collect();
                ensure_eq!(got, want, "dot: hierarchy edges\n{s}");
            }
        }
        Ok(s)
    }

    fn mermaid<G>(&self, g: &G, v: &RefView, h: Option<&Hierarchy>) -> Result<String, String>
    where
        G: LinkView,
        G::LinkEndpoint: EpKey,
    {
        let mut f = g.mermaid_format();
        if let Some(h) = h {
            f = f.with_hierarchy(h);
        }
        if let Some(m) = &self.node {
            f = f.with_node_style(|n| m.get(&n.index()).cloned().unwrap_or_default());
        }
        if let Some(m) = &self.edge {
            f = f.with_edge_style(|a, b| m.get(&(a.ep(), b.ep())).cloned().unwrap_or(EdgeStyle::Custom("unknown link".into())));
        }
        if let Some(w) = &self.weights {
            f = f.with_weights(w);
        }
        let s = f.finish();
        let m = parse_mm(&s)?;
        for n in m.nodes.keys() {
            ensure!(v.nodes.contains_key(n), "mermaid: node {n} is drawn, but it is not in the graph\n{s}");
        }
        let chain = |n: usize| {
            let mut c: Vec<usize> = std::iter::successors(parent_of(h, v, n), |x| parent_of(h, v, *x)).collect();
            c.reverse();
            c
        };
        for &n in v.nodes.keys() {
            let look = self.node(n);
            let has_kids = v.nodes.keys().any(|k| parent_of(h, v, *k) == Some(n));
            let Some(x) = m.nodes.get(&n) else {
                ensure!(look.is_none() && !has_kids, "mermaid: node {n} is not drawn\n{s}");
                continue;
            };
            ensure_eq!(x.inside, chain(n), "mermaid: blocks around node {n}\n{s}");
            ensure!(x.block || !has_kids, "mermaid: node {n} has children in the graph but is not drawn as a block\n{s}");
            ensure!(!x.block || has_kids, "mermaid: node {n} has no children in the graph but is drawn as a block\n{s}");
            match look {
                None => ensure!(x.label.is_none(), "mermaid: the hidden node {n} is drawn with label {:?}\n{s}", x.label),
                Some((l, at)) => {
                    let l = if l.is_empty() { n.to_string() } else { l };
                    ensure_eq!(x.label, Some(l), "mermaid: label of node {n}\n{s}");
                    let got = m.styles.get(&n).cloned().unwrap_or_default();
                    let want: BTreeMap<String, String> = [(at.color, "color"), (at.fill, "fill"), (at.stroke, "stroke"), (at.stroke_width, "stroke-width")].into_iter().filter_map(|(a, k)| a.map(|a| (k.to_string(), a))).collect();
                    ensure_eq!(got, want, "mermaid: style of node {n}\n{s}");
                }
            }
        }
        for n in m.styles.keys() {
            ensure!(m.nodes.contains_key(n), "mermaid: style line for node {n}, which is not drawn\n{s}");
        }
        // children keep their order
        if let Some(h) = h {
            for n in v.nodes.keys() {
                let want: Vec<usize> = h.children(ni(*n)).map(|x| x.index()).filter(|x| m.nodes.contains_key(x)).collect();
                ensure_eq!(m.order.get(&Some(*n)).cloned().unwrap_or_default(), want, "mermaid: children of node {n}, in order\n{s}");
            }
        }
        // links
        let owner = v.port_owner();
        let shown = |n: usize| self.node(n).is_some();
        let mut want: Vec<(usize, usize, Line, Option<String>)> = v
            .links
            .iter()
            .filter(|(a, b)| shown(owner[&a.0].0) && shown(owner[&b.0].0))
            .map(|l| {
                let e = self.edge(l);
                let line = match e.strip_label() {
                    EdgeStyle::Solid => Line::Solid,
                    EdgeStyle::Dotted | EdgeStyle::Dashed => Line::Dotted,
                    EdgeStyle::Custom(c) => Line::Custom(c.clone()),
                    _ => unreachable!(),
                };
                let label = match &e {
                    EdgeStyle::Labelled(t, _) if !t.is_empty() && !matches!(line, Line::Custom(_)) => Some(t.clone()),
                    _ => None,
                };
                (owner[&l.0 .0].0, owner[&l.1 .0].0, line, label)
            })
            .collect();
        want.sort();
        let got: Vec<_> = m.edges.iter().map(|e| (e.0, e.1, e.2.clone(), e.3.clone())).collect();
        ensure_eq!(got, want, "mermaid: edges\n{s}");
        // A line inside a block pulls both of its ends into the block.
        for e in &m.edges {
            for n in [e.0, e.1] {
                ensure!(chain(n).starts_with(&e.4), "mermaid: the edge {}->{} is drawn inside of block {:?}, which does not enclose node {n}\n{s}", e.0, e.1, e.4.last());
            }
        }
        Ok(s)
    }

    fn both<G>(&self, g: &G, v: &RefView, h: Option<&Hierarchy>) -> Result<u64, String>
    where
        G: LinkView,
        G::LinkEndpoint: EpKey,
    {
        self.dot(g, v, h)?;
        self.mermaid(g, v, h)?;
        Ok(2)
    }
}

// ---------------------------------------------------------------------------
// Cases
// ---------------------------------------------------------------------------

fn plain_case<G: TG>(spec: &Spec, parents: &[Option<usize>], desc: bool) -> Result<Tally, String> {
    let b: Built<G> = build(spec)?;
    let h = hierarchy(parents, &b.nodes, desc);
    let a = Ask::default();
    let mut steps = a.both(&b.g, &b.view, Some(&h))?;
    if parents.iter().all(|p| p.is_none()) {
        steps += a.both(&b.g, &b.view, None)?;
        ensure_eq!(b.g.dot_string(), a.dot(&b.g, &b.view, None)?, "dot_string");
        parse_mm(&b.g.mermaid_string())?;
        a.both(&&b.g, &b.view, None)?;
        // weights
        let mut w = Weights::<String, String>::new();
        for (n, ps) in &b.view.nodes {
            if n % 2 == 0 {
                w[ni(*n)] = format!("n {n}");
            }
            for p in ps.iter().flatten() {
                if p % 3 != 0 {
                    w[pi(*p)] = format!("p{p}");
                }
            }
        }
        let a = Ask { weights: Some(w), ..Default::default() };
        steps += a.both(&b.g, &b.view, None)?;
        steps += a.both(&b.g, &b.view, Some(&h))?;
    }
    Ok(Tally { steps, outcome: outcome_of(&(parents, &b.view.links)) })
}

fn plain<G: TG>(ctx: &mut Ctx, name: &str, bound: &str, specs: Vec<Spec>) {
    let n = specs[0].shapes.len();
    let f = forests(n);
    let at = |i: u64| (&specs[i as usize / f.len()], &f[i as usize % f.len()]);
    cases(ctx, name, &format!("{bound}; {} graphs x {} labelled forests; dot and mermaid, with and without hierarchy and weights", specs.len(), f.len()), (specs.len() * f.len()) as u64,
        |i| format!("{:?} parents {:?}", at(i).0, at(i).1), |i| plain_case::<G>(at(i).0, at(i).1, i % 2 == 1));
}

fn view_case<G: TG>(spec: &Spec, parents: &[Option<usize>], desc: bool, all_ports: bool) -> Result<Tally, String> {
    let b: Built<G> = build(spec)?;
    let h = hierarchy(parents, &b.nodes, desc);
    let n = parents.len();
    let a = Ask::default();
    let mut steps = 0;
    for hh in [Some(&h), None] {
        for root in 0..n {
            let rn = ni(b.nodes[root]);
            let what = |e: String| format!("region of node {}: {e}", rn.index());
            let m = restrict(&b.view, |x| below(parents, b.nodes.iter().position(|y| *y == x).unwrap(), root), |_| true);
            steps += a.both(&Region::new(&b.g, &h, rn), &m, hh).map_err(what)?;
            let kids: BTreeSet<usize> = (0..n).filter(|k| parents[*k] == Some(root)).map(|k| b.nodes[k]).collect();
            let m = restrict(&b.view, |x| kids.contains(&x), |_| true);
            let what = |e: String| format!("flat region of node {}: {e}", rn.index());
            steps += a.both(&FlatRegion::new_without_root(&b.g, &h, rn), &m, hh).map_err(what)?;
            let m = restrict(&b.view, |x| kids.contains(&x) || x == rn.index(), |_| true);
            steps += a.both(&FlatRegion::new_with_root(&b.g, &h, rn), &m, hh).map_err(what)?;
        }
        let ports = b.view.port_owner().len();
        let full = (1u64 << ports) - 1;
        for nodes in 0..1u64 << n {
            let mut sets = vec![full];
            if all_ports {
                sets.extend((0..ports).map(|k| full ^ (1 << k)));
            }
            for ps in sets {
                let m = mask_of(&b, nodes, ps);
                steps += a.both(&filt(&b.g, m), &filtered(&b.view, &m), hh).map_err(|e| format!("filtered by {m:?}: {e}"))?;
            }
            if nodes != 0 {
                let list: Vec<NodeIndex> = (0..n).filter(|k| nodes >> k & 1 == 1).map(|k| ni(b.nodes[k])).collect();
                let m = restrict(&b.view, |x| list.contains(&ni(x)), |_| true);
                steps += a.both(&Subgraph::with_nodes(&b.g, list.clone()), &m, hh).map_err(|e| format!("subgraph of {list:?}: {e}"))?;
            }
        }
    }
    Ok(Tally { steps, outcome: outcome_of(&(parents, &b.view.links)) })
}

fn views<G: TG>(ctx: &mut Ctx, name: &str, bound: &str, specs: Vec<Spec>, all_ports: bool) {
    let n = specs[0].shapes.len();
    let f = forests(n);
    let at = |i: u64| (&specs[i as usize / f.len()], &f[i as usize % f.len()]);
    cases(ctx, name, &format!("{bound}; {} graphs x {} labelled forests; every region, flat region, node subgraph and filter, drawn with and without the hierarchy", specs.len(), f.len()), (specs.len() * f.len()) as u64,
        |i| format!("{:?} parents {:?}", at(i).0, at(i).1), |i| view_case::<G>(at(i).0, at(i).1, i % 2 == 1, all_ports));
}

fn with(f: impl FnOnce(&mut PresentationStyle)) -> PresentationStyle {
    let mut p = PresentationStyle::default();
    f(&mut p);
    p
}

#[allow(deprecated)]
fn node_styles(mermaid: bool) -> Vec<NodeStyle> {
    let all = with(|p| {
        p.color = Some("#f00".into());
        p.fill = Some("#0f0".into());
        p.stroke = Some("#00f".into());
        p.stroke_width = Some("4px".into());
    });
    vec![
        NodeStyle::Hidden,
        NodeStyle::boxed(if mermaid { "say \"hi\"\nand \"bye\"\n!" } else { "a label" }),
        NodeStyle::boxed("all").with_attrs(all),
        NodeStyle::default(),
        NodeStyle::Box("box".into()),
        NodeStyle::new(17),
        NodeStyle::boxed("c").with_attrs(with(|p| p.color = Some("#123".into()))),
        NodeStyle::boxed("f").with_attrs(with(|p| p.fill = Some("#ABCDEF".into()))),
        NodeStyle::boxed("s").with_attrs(with(|p| p.stroke = Some("#999".into()))),
        NodeStyle::default().with_attrs(with(|p| p.stroke_width = Some("0.5em".into()))),
        NodeStyle::Hidden.with_attrs(with(|p| p.fill = Some("#000".into()))),
    ]
}

fn digits(mut x: u64, base: u64, n: usize) -> Vec<usize> {
    (0..n)
        .map(|_| {
            let d = x % base;
            x /= base;
            d as usize
        })
        .collect()
}

fn node_styles_section<G: TG>(ctx: &mut Ctx, name: &str, bound: &str, specs: Vec<Spec>, k: u64) {
    let n = specs[0].shapes.len();
    let f = forests(n);
    let per = k.pow(n as u32);
    let total = (specs.len() * f.len()) as u64 * per;
    let at = |i: u64| (&specs[(i / per) as usize / f.len()], &f[(i / per) as usize % f.len()], digits(i % per, k, n));
    cases(ctx, name, &format!("{bound}; {} graphs x {} forests x every assignment of {k} node styles", specs.len(), f.len()), total,
        |i| format!("{:?}", at(i)),
        |i| {
            let (spec, parents, st) = at(i);
            let b: Built<G> = build(spec)?;
            let h = hierarchy(parents, &b.nodes, i % 2 == 1);
            for mermaid in [false, true] {
                let styles = node_styles(mermaid);
                let a = Ask { node: Some(b.nodes.iter().zip(&st).map(|(n, s)| (*n, styles[*s].clone())).collect()), ..Default::default() };
                if mermaid {
                    a.mermaid(&b.g, &b.view, Some(&h))?;
                } else {
                    a.dot(&b.g, &b.view, Some(&h))?;
                    a.dot(&b.g, &b.view, None)?;
                }
            }
            Ok(Tally { steps: 3, outcome: outcome_of(&(i / per, st)) })
        });
}

fn port_styles_section<G: TG>(ctx: &mut Ctx, name: &str, bound: &str, specs: Vec<Spec>) {
    let styles = [PortStyle::Hidden, PortStyle::text("", true), PortStyle::text("a b", false), PortStyle::boxed("c", true), PortStyle::boxed("d", false), PortStyle::new("e"), PortStyle::default(), PortStyle::text("f", true)];
    let k = styles.len() as u64;
    let ports: usize = specs[0].shapes.iter().map(|s| s.0 + s.1).sum();
    let per = k.pow(ports as u32);
    let at = |i: u64| (&specs[(i / per) as usize], digits(i % per, k, ports));
    cases(ctx, name, &format!("{bound}; {} graphs x every assignment of {k} port styles to {ports} ports", specs.len()), specs.len() as u64 * per,
        |i| format!("{:?}", at(i)),
        |i| {
            let (spec, st) = at(i);
            let b: Built<G> = build(spec)?;
            let m: BTreeMap<usize, PortStyle> = b.view.port_owner().keys().zip(&st).map(|(p, s)| (*p, styles[*s].clone())).collect();
            let a = Ask { port: Some(m), ..Default::default() };
            a.dot(&b.g, &b.view, None)?;
            Ok(Tally { steps: 1, outcome: outcome_of(&st) })
        });
}

fn edge_styles_section<G: TG>(ctx: &mut Ctx, name: &str, bound: &str, specs: Vec<Spec>, links: usize) {
    let specs: Vec<Spec> = specs.into_iter().filter(|s| s.links.len() == links).collect();
    let style = |k: usize, id: usize| match k {
        0 => EdgeStyle::Solid,
        1 => EdgeStyle::Dotted,
        2 => EdgeStyle::Dashed,
        3 => EdgeStyle::Custom("==>".into()),
        4 => EdgeStyle::Solid.with_label(format!("l{id}")),
        5 => EdgeStyle::Dotted.with_label(format!("say \"{id}\"\n.")),
        6 => EdgeStyle::Dashed.with_label("first").with_label(format!("second {id}")),
        7 => EdgeStyle::Labelled(format!("outer{id}"), Box::new(EdgeStyle::Labelled("inner".into(), Box::new(EdgeStyle::Dotted)))),
        8 => EdgeStyle::Solid.with_label(""),
        9 => EdgeStyle::Custom("--x".into()).with_label("dropped"),
        _ => EdgeStyle::default(),
    };
    let k = 10u64;
    let per = k.pow(links as u32);
    let at = |i: u64| (&specs[(i / per) as usize], digits(i % per, k, links));
    cases(ctx, name, &format!("{bound}; {} graphs with {links} links x every assignment of {k} edge styles", specs.len()), specs.len() as u64 * per,
        |i| format!("{:?}", at(i)),
        |i| {
            let (spec, st) = at(i);
            let b: Built<G> = build(spec)?;
            let m: BTreeMap<(Ep, Ep), EdgeStyle> = b.view.links.iter().zip(&st).enumerate().map(|(id, (l, s))| (*l, style(*s, id))).collect();
            let a = Ask { edge: Some(m), ..Default::default() };
            a.both(&b.g, &b.view, None)?;
            let n = b.nodes.len();
            let h = hierarchy(&(0..n).map(|k| if k == 0 { None } else { Some(0) }).collect::<Vec<_>>(), &b.nodes, false);
            a.both(&b.g, &b.view, Some(&h))?;
            Ok(Tally { steps: 4, outcome: outcome_of(&(i / per, st)) })
        });
}

/// Larger graphs and hierarchies, whole and in parts.
fn large<G: TG>(ctx: &mut Ctx, name: &str, sizes: &[usize]) {
    let mut all: Vec<(String, Spec, Vec<Option<usize>>)> = vec![];
    for &n in sizes {
        let fs = big_forests(n);
        let c = Choice { sizes: &[n], cyclic: true, drop: 0 };
        for (k, (name, spec)) in members::<G>(&c).into_iter().enumerate() {
            for j in 0..3 {
                let (fname, parents) = &fs[(k * 5 + j * 8) % fs.len()];
                if spec.shapes.len() == n {
                    all.push((format!("{name} with forest {fname}"), spec.clone(), parents.clone()));
                }
            }
        }
    }
    cases(ctx, name, &format!("{} larger graphs with larger hierarchies of {sizes:?} nodes: dot and mermaid of the graph, with and without hierarchy and weights, and of parts", all.len()), all.len() as u64,
        |i| all[i as usize].0.clone(),
        |i| {
            let (_, spec, parents) = &all[i as usize];
            let n = parents.len();
            let mut t = plain_case::<G>(spec, parents, i % 2 == 1)?;
            t.steps += plain_case::<G>(spec, &vec![None; n], false)?.steps;
            let b: Built<G> = build(spec)?;
            let h = hierarchy(parents, &b.nodes, i % 2 == 1);
            let a = Ask::default();
            for root in [0, n / 2, n - 1] {
                let rn = ni(b.nodes[root]);
                let m = restrict(&b.view, |x| below(parents, b.nodes.iter().position(|y| *y == x).unwrap(), root), |_| true);
                t.steps += a.both(&Region::new(&b.g, &h, rn), &m, Some(&h)).map_err(|e| format!("region of node {}: {e}", rn.index()))?;
            }
            for s in node_sets(n, false).into_iter().step_by(5) {
                heartbeat();
                let m = Mask { nodes: Bits::of(s.iter().map(|k| b.nodes[*k])), ports: Bits::ALL };
                t.steps += a.both(&filt(&b.g, m), &filtered(&b.view, &m), Some(&h)).map_err(|e| format!("filtered by {m:?}: {e}"))?;
            }
            Ok(t)
        });
}

pub fn c29(ctx: &mut Ctx) {
    let s11 = |n: usize| vec![(1, 1); n];
    let sizes: &[usize] = if ctx.quick() { &[9, 11, 12, 17] } else { &[8, 9, 10, 11, 12, 16, 17, 24, 33, 101] };
    large::<PortGraph>(ctx, "large-portgraph", sizes);
    large::<MultiPortGraph>(ctx, "large-multi", sizes);
    plain::<PortGraph>(ctx, "portgraph-3", "every graph on 3 nodes of shapes (1,2),(2,1),(1,1)", singles(&[(1, 2), (2, 1), (1, 1)], 9, true));
    plain::<PortGraph>(ctx, "portgraph-4", "every graph on 4 nodes of shape (1,1)", singles(&s11(4), ctx.pick(3, 4), false));
    plain::<MultiPortGraph>(ctx, "multi-3", "every multigraph on 3 nodes of shapes (1,1),(1,1),(1,0)", multis(&[(1, 1), (1, 1), (1, 0)], ctx.pick(3, 5), true));
    if !ctx.quick() {
        plain::<MultiPortGraph>(ctx, "multi-4", "every multigraph on 4 nodes of shape (1,1) with <=2 links", multis(&s11(4), 2, false));
        plain::<PortGraph>(ctx, "portgraph-5", "every graph on 5 nodes of shape (1,1) with <=2 links", singles(&s11(5), 2, true));
    }
    // wide nodes: the table layout
    let shapes: Vec<Spec> = (0..=6).flat_map(|i| (0..=6).map(move |o| Spec { shapes: vec![(i, o)], links: (0..i.min(o)).map(|k| (k, i.min(o) - 1 - k)).collect(), holes: false })).collect();
    plain::<PortGraph>(ctx, "wide", "one node of every shape up to (6,6) with crossed self-links", shapes);

    views::<PortGraph>(ctx, "views-3", "every graph on 3 nodes of shape (1,1)", singles(&s11(3), 3, true), true);
    views::<PortGraph>(ctx, "views-4", "every graph on 4 nodes of shape (1,1)", singles(&s11(4), ctx.pick(2, 4), false), false);
    views::<MultiPortGraph>(ctx, "views-multi-3", "every multigraph on 3 nodes of shape (1,1)", multis(&s11(3), ctx.pick(2, 3), true), true);

    let ring = |n: usize, holes: bool| Spec { shapes: s11(n), links: (0..n).map(|k| (k, (k + 1) % n)).collect(), holes };
    let selfs = Spec { links: vec![(0, 0), (1, 2), (2, 1)], ..ring(3, false) };
    let back = Spec { links: (0..3).map(|k| ((k + 1) % 3, k)).collect(), ..ring(3, true) };
    let styled = vec![ring(3, true), back, selfs, Spec { links: vec![], ..ring(3, false) }];
    node_styles_section::<PortGraph>(ctx, "node-styles", "3 nodes of shape (1,1)", styled, ctx.pick(7, 11));
    node_styles_section::<PortGraph>(ctx, "node-styles-2", "every graph on 2 nodes of shape (1,1)", singles(&s11(2), 2, false), 11);
    node_styles_section::<PortGraph>(ctx, "node-styles-4", "a ring of 4 nodes; shown with attributes, labelled or hidden", vec![ring(4, false)], 3);
    node_styles_section::<MultiPortGraph>(ctx, "node-styles-multi", "every multigraph on 2 nodes of shape (1,1)", multis(&s11(2), ctx.pick(2, 3), false), 11);

    port_styles_section::<PortGraph>(ctx, "port-styles", "every graph on 2 nodes of shapes (1,1),(2,1)", singles(&[(1, 1), (2, 1)], 3, true));
    port_styles_section::<MultiPortGraph>(ctx, "port-styles-multi", "every multigraph on 2 nodes of shapes (1,1),(1,1)", multis(&s11(2), 2, false));

    for l in 1..=ctx.pick(2, 3) {
        edge_styles_section::<PortGraph>(ctx, &format!("edge-styles-{l}"), "every graph on 3 nodes of shape (1,1)", singles(&s11(3), l, false), l);
        edge_styles_section::<MultiPortGraph>(ctx, &format!("edge-styles-multi-{l}"), "every multigraph on 2 nodes of shape (1,1)", multis(&s11(2), l, true), l);
    }
}
