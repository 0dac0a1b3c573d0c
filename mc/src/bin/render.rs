//! Drawing graphs: every small graph, every small label, and families of larger graphs.

use mc::*;
use std::collections::BTreeMap;
use triple_arena::{Arena, Link};
use triple_arena_render::{render_to_svg, render_to_svg_file, DebugNode, DebugNodeTrait, RenderError};

/// Where an edge goes
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum To {
    Node(usize),
    /// a removed node
    Gone,
    /// the pointer that is never valid
    Never,
    /// a removed node whose slot is in use again (with generations only)
    Stale,
}
use To::*;

#[derive(Clone, Debug, Default)]
struct N {
    src: Vec<(To, String)>,
    center: Vec<String>,
    snk: Vec<(To, String)>,
}

#[derive(Clone, Debug, Default)]
struct Graph {
    nodes: Vec<N>,
    /// whether the arena has holes and reused slots
    holes: bool,
    /// whether the generation counter is at its end
    aged: bool,
}

impl Graph {
    fn new(n: usize) -> Self {
        Graph {
            nodes: (0..n).map(|i| N { center: vec![format!("n{i}")], ..Default::default() }).collect(),
            holes: false,
            aged: false,
        }
    }
    fn source(&mut self, y: usize, x: To) {
        let k = self.nodes[y].src.len();
        self.nodes[y].src.push((x, format!("i{y}.{k}")));
    }
    fn sink(&mut self, x: usize, y: To) {
        let k = self.nodes[x].snk.len();
        self.nodes[x].snk.push((y, format!("o{x}.{k}")));
    }
    fn unlabel(&mut self) {
        for n in &mut self.nodes {
            for e in n.src.iter_mut().chain(n.snk.iter_mut()) {
                e.1.clear();
            }
        }
    }
    fn show(&self) -> String {
        let e = |l: &[(To, String)]| l.iter().map(|(t, s)| format!("{t:?}{}", if s.is_empty() { String::new() } else { format!(" {s:?}") })).collect::<Vec<_>>().join(", ");
        let v: Vec<String> = self
            .nodes
            .iter()
            .enumerate()
            .map(|(i, n)| format!("{i}: sources [{}] {:?} sinks [{}]", e(&n.src), n.center, e(&n.snk)))
            .collect();
        let holes = if self.holes { "; in an arena with holes" } else { "" };
        format!("{}{holes}{}", v.join("; "), if self.aged { "; at the last generation" } else { "" })
    }
    /// Nodes and references (two for each edge that is cut) it may take
    fn places(&self) -> usize {
        self.nodes.iter().map(|n| 1 + 2 * (n.src.len() + n.snk.len())).sum::<usize>() + 2
    }
    fn dangling(&self) -> bool {
        self.nodes.iter().any(|n| n.src.iter().chain(&n.snk).any(|e| !matches!(e.0, Node(_))))
    }
}

struct Built<P: Px> {
    a: Arena<P, DebugNode<P>>,
    ptrs: Vec<P>,
    gone: P,
    stale: P,
}

impl<P: Px> Built<P> {
    fn to(&self, t: To) -> P {
        match t {
            Node(i) => self.ptrs[i],
            Gone => self.gone,
            Never => P::invalid(),
            Stale => self.stale,
        }
    }
}

fn build<P: Px>(g: &Graph) -> Built<P> {
    let mut a: Arena<P, DebugNode<P>> = Arena::new();
    let (mut gone, mut stale) = (P::invalid(), P::invalid());
    if g.aged && P::HAS_GEN {
        let last = P::max_gen() - if g.holes { 2 } else { 1 };
        while P::rawgen(a.generation()) < last {
            let p = a.insert(DebugNode::default());
            a.remove(p).unwrap();
        }
    }
    if g.holes {
        gone = a.insert(DebugNode::default());
        stale = a.insert(DebugNode::default());
        a.remove(stale).unwrap();
    }
    let ptrs: Vec<P> = g.nodes.iter().map(|_| a.insert(DebugNode::default())).collect();
    if !g.holes {
        gone = a.insert(DebugNode::default());
    }
    a.remove(gone).unwrap();
    if a.contains(stale) || stale == P::invalid() {
        stale = gone;
    }
    let mut b = Built { a, ptrs, gone, stale };
    for (i, n) in g.nodes.iter().enumerate() {
        let d = DebugNode::new(
            n.src.iter().map(|(t, s)| (b.to(*t), s.clone())).collect(),
            n.center.clone(),
            n.snk.iter().map(|(t, s)| (b.to(*t), s.clone())).collect(),
        );
        b.a[b.ptrs[i]] = d;
    }
    b
}

// ---------------------------------------------------------------- reading the picture

#[derive(Debug, Default)]
struct Pic {
    view: [f64; 4],
    rects: Vec<[f64; 4]>,
    texts: Vec<([f64; 2], f64, String)>,
    /// of the fonts of `texts`
    sizes: Vec<f64>,
    lines: Vec<([f64; 2], [f64; 2])>,
}

/// Characters a document may contain
fn legal(c: char) -> bool {
    matches!(c, '\t' | '\n' | '\r' | '\u{20}'..='\u{d7ff}' | '\u{e000}'..='\u{fffd}' | '\u{10000}'..)
}

/// Replaces references by what they stand for
fn unescape(s: &str) -> R<String> {
    let mut out = String::new();
    let mut rest = s;
    while let Some(i) = rest.find('&') {
        out += &rest[..i];
        let j = rest[i..].find(';').ok_or("an ampersand that starts no reference")? + i;
        let name = &rest[i + 1..j];
        out.push(match name {
            "amp" => '&',
            "lt" => '<',
            "gt" => '>',
            "quot" => '"',
            "apos" => '\'',
            _ => {
                let n = if let Some(h) = name.strip_prefix("#x") {
                    u32::from_str_radix(h, 16).ok()
                } else if let Some(d) = name.strip_prefix('#') {
                    d.parse().ok()
                } else {
                    None
                };
                n.and_then(char::from_u32).filter(|c| legal(*c)).ok_or_else(|| format!("undefined reference &{name};"))?
            }
        });
        rest = &rest[j + 1..];
    }
    out += rest;
    Ok(out)
}

struct Tag<'a> {
    name: &'a str,
    attrs: Vec<(&'a str, String)>,
}
impl Tag<'_> {
    fn get(&self, k: &str) -> R<&str> {
        self.attrs.iter().find(|a| a.0 == k).map(|a| a.1.as_str()).ok_or_else(|| format!("<{}> without {k}", self.name))
    }
    fn num(&self, k: &str) -> R<f64> {
        number(self.get(k)?)
    }
}

fn number(s: &str) -> R<f64> {
    s.trim().parse().map_err(|_| format!("{s:?} is no number"))
}

/// The content of a tag (without the angle brackets), already known to hold no `<`
fn tag(s: &str) -> R<Tag<'_>> {
    let name_end = s.find(|c: char| c.is_ascii_whitespace()).unwrap_or(s.len());
    let (name, mut rest) = s.split_at(name_end);
    ensure!(!name.is_empty() && name.chars().all(|c| c.is_ascii_alphanumeric() || c == '-' || c == ':'), "bad element name {name:?}");
    let mut attrs: Vec<(&str, String)> = vec![];
    loop {
        let trimmed = rest.trim_start();
        if trimmed.is_empty() {
            break;
        }
        ensure!(trimmed.len() < rest.len(), "no space before attribute in <{s}>");
        let eq = trimmed.find('=').ok_or_else(|| format!("attribute without value in <{s}>"))?;
        let k = trimmed[..eq].trim();
        ensure!(!k.is_empty() && k.chars().all(|c| c.is_ascii_alphanumeric() || c == '-' || c == ':'), "bad attribute name {k:?}");
        ensure!(attrs.iter().all(|a| a.0 != k), "attribute {k} given twice");
        let v = trimmed[eq + 1..].trim_start();
        let q = v.chars().next().filter(|c| *c == '"' || *c == '\'').ok_or_else(|| format!("unquoted attribute in <{s}>"))?;
        let end = v[1..].find(q).ok_or_else(|| format!("unterminated attribute in <{s}>"))? + 1;
        attrs.push((k, unescape(&v[1..end])?));
        rest = &v[end + 1..];
    }
    Ok(Tag { name, attrs })
}

/// Position of the `>` which ends the tag starting at 0, and no `<` before it
fn tag_end(s: &str) -> R<usize> {
    let mut quote = None;
    for (i, c) in s.char_indices().skip(1) {
        match (quote, c) {
            (_, '<') => return Err(format!("`<` inside of a tag: {:.60}", s)),
            (None, '>') => return Ok(i),
            (None, '"' | '\'') => quote = Some(c),
            (Some(q), c) if q == c => quote = None,
            _ => (),
        }
    }
    Err("a tag that does not end".into())
}

fn pair(s: &str) -> R<[f64; 2]> {
    let (x, y) = s.split_once(',').ok_or_else(|| format!("{s:?} is no point"))?;
    Ok([number(x)?, number(y)?])
}

fn parse(svg: &str) -> R<Pic> {
    if let Some(c) = svg.chars().find(|c| !legal(*c)) {
        return Err(format!("character {c:?} in the document"));
    }
    let mut pic = Pic::default();
    let mut open: Vec<(String, Option<([f64; 2], f64)>)> = vec![];
    let mut text = String::new();
    let mut roots = 0;
    let mut rest = svg;
    while !rest.is_empty() {
        let i = rest.find('<').unwrap_or(rest.len());
        if i > 0 {
            let t = &rest[..i];
            ensure!(!t.contains("]]>"), "`]]>` in text");
            ensure!(!open.is_empty() || t.trim().is_empty(), "text outside of the document");
            let label = open.last().is_some_and(|o| o.1.is_some());
            ensure!(!label || !t.contains(['"', '\'', '>']), "{t:?} is not escaped");
            text += &unescape(t)?;
            rest = &rest[i..];
            continue;
        }
        if rest.starts_with("<?") {
            ensure!(rest.len() == svg.len(), "a declaration which is not at the start");
            rest = &rest[rest.find("?>").ok_or("unterminated declaration")? + 2..];
        } else if rest.starts_with("<!DOCTYPE") {
            ensure!(roots == 0, "document type after the start");
            rest = &rest[rest.find('>').ok_or("unterminated document type")? + 1..];
        } else if rest.starts_with("<!--") {
            let j = rest[4..].find("--").ok_or("unterminated comment")? + 4;
            ensure!(rest[j..].starts_with("-->"), "`--` in a comment");
            rest = &rest[j + 3..];
        } else {
            let j = tag_end(rest)?;
            let inner = &rest[1..j];
            rest = &rest[j + 1..];
            if let Some(name) = inner.strip_prefix('/') {
                let (top, what) = open.pop().ok_or("an end tag too many")?;
                ensure!(top == name.trim_end(), "<{top}> ended by </{name}>");
                if let Some((at, len)) = what {
                    pic.texts.push((at, len, std::mem::take(&mut text)));
                }
                continue;
            }
            let (inner, closed) = match inner.strip_suffix('/') {
                Some(x) => (x, true),
                None => (inner, false),
            };
            let t = tag(inner)?;
            if open.is_empty() {
                roots += 1;
                ensure!(roots == 1 && t.name == "svg", "the document is not one svg element");
                let v: Vec<f64> = t.get("viewBox")?.split_whitespace().map(number).collect::<R<_>>()?;
                ensure!(v.len() == 4, "bad viewBox");
                pic.view.copy_from_slice(&v);
                ensure!(t.get("xmlns")? == "http://www.w3.org/2000/svg", "not in the svg name space");
            }
            let mut what = None;
            match t.name {
                "rect" => pic.rects.push([t.num("x")?, t.num("y")?, t.num("width")?, t.num("height")?]),
                "text" => {
                    text.clear();
                    what = Some(([t.num("x")?, t.num("y")?], t.num("textLength")?));
                    pic.sizes.push(t.num("font-size")?);
                    if closed {
                        pic.texts.push(([t.num("x")?, t.num("y")?], t.num("textLength")?, String::new()));
                    }
                }
                "path" => {
                    let d = t.get("d")?;
                    let p: Vec<&str> = d.split_whitespace().collect();
                    ensure!(p.len() >= 4 && p[0] == "M", "a line {d:?} of another form");
                    pic.lines.push((pair(p[1])?, pair(p[p.len() - 1])?));
                }
                _ => (),
            }
            if !closed {
                open.push((t.name.into(), what));
            }
        }
    }
    ensure!(open.is_empty() && roots == 1, "elements are not closed");
    Ok(pic)
}

// ---------------------------------------------------------------- judging the picture

#[derive(Clone, Debug, PartialEq, Eq)]
enum Role {
    Real(usize),
    Ref(String),
    Invalid(String),
}

fn contains(r: &[f64; 4], p: &[f64; 2]) -> bool {
    r[0] <= p[0] && p[0] <= r[0] + r[2] && r[1] <= p[1] && p[1] <= r[1] + r[3]
}

fn distinct_labels(n: &N) -> bool {
    let mut v: Vec<&String> = n.src.iter().chain(&n.snk).map(|e| &e.1).filter(|s| !s.is_empty()).chain(&n.center).collect();
    let l = v.len();
    v.sort();
    v.dedup();
    v.len() == l
}

/// The rectangles of nodes (the background left out), each with the numbers of its texts
fn boxes(pic: &Pic) -> R<(Vec<[f64; 4]>, Vec<Vec<usize>>)> {
    // the canvas is the first rectangle and contains all others
    ensure!(!pic.rects.is_empty(), "no canvas");
    let canvas = pic.rects[0];
    let v = pic.view;
    ensure!(
        v[0] <= canvas[0] && v[1] <= canvas[1] && canvas[0] + canvas[2] <= v[0] + v[2] && canvas[1] + canvas[3] <= v[1] + v[3],
        "canvas {canvas:?} not in view {v:?}"
    );
    let rects = pic.rects[1..].to_vec();
    for (i, r) in rects.iter().enumerate() {
        ensure!(r[2] > 0.0 && r[3] > 0.0, "node of no size {r:?}");
        ensure!(
            canvas[0] <= r[0] && canvas[1] <= r[1] && r[0] + r[2] <= canvas[0] + canvas[2] && r[1] + r[3] <= canvas[1] + canvas[3],
            "node {r:?} leaves canvas {canvas:?}"
        );
        for s in &rects[..i] {
            ensure!(
                r[0] + r[2] <= s[0] || s[0] + s[2] <= r[0] || r[1] + r[3] <= s[1] || s[1] + s[3] <= r[1],
                "nodes {s:?} and {r:?} overlap"
            );
        }
    }
    let mut texts = vec![vec![]; rects.len()];
    for (k, (at, len, s)) in pic.texts.iter().enumerate() {
        let i = rects.iter().position(|r| contains(r, at)).ok_or_else(|| format!("text {s:?} outside of all nodes"))?;
        ensure!(at[0] + len <= rects[i][0] + rects[i][2], "text {s:?} leaves its node");
        texts[i].push(k);
    }
    // what is certainly covered by the letters
    let covered = |k: usize| {
        let (at, len, s) = &pic.texts[k];
        (!s.is_empty()).then_some([at[0], at[1] - 0.7 * pic.sizes[k], *len, 0.7 * pic.sizes[k]])
    };
    for ts in &texts {
        for (n, j) in ts.iter().enumerate() {
            for k in &ts[..n] {
                let (Some(r), Some(s)) = (covered(*j), covered(*k)) else { continue };
                ensure!(
                    r[0] + r[2] <= s[0] || s[0] + s[2] <= r[0] || r[1] + r[3] <= s[1] || s[1] + s[3] <= r[1],
                    "the labels {:?} and {:?} overlap",
                    pic.texts[*k].2,
                    pic.texts[*j].2
                );
            }
        }
    }
    Ok((rects, texts))
}

fn judge<P: Px>(g: &Graph, b: &Built<P>, svg: &str) -> R {
    let pic = parse(svg)?;
    let (rects, texts) = boxes(&pic)?;
    let n = g.nodes.len();
    let name = |i: usize| format!("{:?}", b.ptrs[i]);
    let gone_name = |t: To| format!("{:?}(invalid)", b.to(t));
    // which rectangle is what
    let mut expected: Vec<Vec<&str>> = vec![];
    for nd in &g.nodes {
        let mut v: Vec<&str> = nd.src.iter().chain(&nd.snk).map(|e| e.1.as_str()).chain(nd.center.iter().map(|s| s.as_str())).filter(|s| !s.is_empty()).collect();
        v.sort();
        expected.push(v);
    }
    let mut rect_of = vec![None; n];
    let mut roles: Vec<Role> = vec![];
    for (r, ts) in texts.iter().enumerate() {
        let mut v: Vec<&str> = ts.iter().map(|k| pic.texts[*k].2.as_str()).filter(|s| !s.is_empty()).collect();
        v.sort();
        if let Some(i) = (0..n).find(|i| rect_of[*i].is_none() && expected[*i] == v) {
            rect_of[i] = Some(r);
            roles.push(Role::Real(i));
        } else if v.len() == 1 && v[0].ends_with("(invalid)") {
            roles.push(Role::Invalid(v[0].into()));
        } else if v.len() == 1 {
            roles.push(Role::Ref(v[0].into()));
        } else {
            return Err(format!("a box with {v:?}, which belongs to no node"));
        }
    }
    for i in 0..n {
        ensure!(rect_of[i].is_some(), "no box with the labels of node {i}, {:?}", expected[i]);
    }
    // lines of a label from top to bottom
    for (i, nd) in g.nodes.iter().enumerate() {
        if !distinct_labels(nd) {
            continue;
        }
        let ts = &texts[rect_of[i].unwrap()];
        let y = |s: &str| ts.iter().find(|k| pic.texts[**k].2 == s).map(|k| pic.texts[*k].0[1]).unwrap();
        let ys: Vec<f64> = nd.center.iter().filter(|s| !s.is_empty()).map(|s| y(s)).collect();
        ensure!(ys.windows(2).all(|w| w[0] < w[1]), "label lines of node {i} in another order");
    }
    // edges
    let mut s = vec![vec![0usize; n]; n];
    let mut t = vec![vec![0usize; n]; n];
    for (i, nd) in g.nodes.iter().enumerate() {
        for e in &nd.src {
            if let Node(x) = e.0 {
                s[x][i] += 1;
            }
        }
        for e in &nd.snk {
            if let Node(y) = e.0 {
                t[i][y] += 1;
            }
        }
    }
    let edge = |x: usize, y: usize| s[x][y] + t[x][y] > 0;
    let mut reach = vec![vec![false; n]; n];
    for x in 0..n {
        for y in 0..n {
            reach[x][y] = edge(x, y);
        }
    }
    for k in 0..n {
        for x in 0..n {
            if reach[x][k] {
                for y in 0..n {
                    if reach[k][y] {
                        reach[x][y] = true;
                    }
                }
            }
        }
    }
    // an edge that is part of a cycle
    let loopy = |x: usize, y: usize| edge(x, y) && (x == y || reach[y][x]);
    for r in &roles {
        if let Role::Ref(r) = r {
            let i = (0..n).find(|i| name(*i) == *r).ok_or_else(|| format!("a box with {r:?}, which belongs to no node"))?;
            ensure!(reach[i][i], "a reference to node {i}, which is on no cycle");
        }
    }
    // port labels: (node, entry) by line
    let port = |r: usize, p: &[f64; 2], of: &[(To, String)]| -> Option<usize> {
        of.iter().position(|e| {
            !e.1.is_empty()
                && texts[r].iter().any(|k| {
                    let (at, len, s) = &pic.texts[*k];
                    *s == e.1 && at[0] < p[0] && p[0] < at[0] + len
                })
        })
    };
    let mut in_use: BTreeMap<(usize, usize), usize> = BTreeMap::new();
    let mut out_use: BTreeMap<(usize, usize), usize> = BTreeMap::new();
    let mut direct = vec![vec![0usize; n]; n];
    // lines from x to something named y, and from something else into y
    let mut to_ref: BTreeMap<(usize, String), usize> = BTreeMap::new();
    let mut from_ref: BTreeMap<(String, usize), usize> = BTreeMap::new();
    for (p, q) in &pic.lines {
        let f = rects.iter().position(|r| contains(r, p)).ok_or_else(|| format!("a line starts at {p:?}, outside of all nodes"))?;
        let e = rects.iter().position(|r| contains(r, q)).ok_or_else(|| format!("a line ends at {q:?}, outside of all nodes"))?;
        let what = format!("line from {:?} to {:?}", roles[f], roles[e]);
        let mut out_entry = None;
        let mut in_entry = None;
        if let Role::Real(x) = roles[f] {
            if distinct_labels(&g.nodes[x]) {
                if let Some(k) = port(f, p, &g.nodes[x].snk) {
                    *out_use.entry((x, k)).or_insert(0) += 1;
                    out_entry = Some((k, g.nodes[x].snk[k].0));
                }
            }
        }
        if let Role::Real(y) = roles[e] {
            if distinct_labels(&g.nodes[y]) {
                if let Some(k) = port(e, q, &g.nodes[y].src) {
                    *in_use.entry((y, k)).or_insert(0) += 1;
                    in_entry = Some((k, g.nodes[y].src[k].0));
                }
            }
        }
        match (&roles[f], &roles[e]) {
            (Role::Real(x), Role::Real(y)) => {
                ensure!(edge(*x, *y), "{what}, but there is no such edge");
                if let Some((k, to)) = out_entry {
                    ensure!(to == Node(*y), "{what} starts at the port of sink {k}, which is to {to:?}");
                }
                if let Some((k, to)) = in_entry {
                    ensure!(to == Node(*x), "{what} ends at the port of source {k}, which is from {to:?}");
                }
                direct[*x][*y] += 1;
            }
            (Role::Real(x), Role::Ref(r)) => {
                let y = (0..n).find(|i| name(*i) == *r).unwrap();
                ensure!(loopy(*x, y), "{what}, but no cycle had to be cut there");
                if let Some((k, to)) = out_entry {
                    ensure!(to == Node(y), "{what} starts at the port of sink {k}, which is to {to:?}");
                }
                *to_ref.entry((*x, r.clone())).or_insert(0) += 1;
            }
            (Role::Ref(r), Role::Real(y)) => {
                let z = (0..n).find(|i| name(*i) == *r).unwrap();
                ensure!((0..n).any(|x| loopy(x, *y) && (z == x || z == *y)), "{what}, but no cycle had to be cut there");
                if let Some((k, to)) = in_entry {
                    let ok = matches!(to, Node(x) if loopy(x, *y) && (z == x || z == *y));
                    ensure!(ok, "{what} ends at the port of source {k}, which is from {to:?}");
                }
                *from_ref.entry((r.clone(), *y)).or_insert(0) += 1;
            }
            (Role::Real(x), Role::Invalid(r)) => {
                ensure!(g.nodes[*x].snk.iter().any(|e| !matches!(e.0, Node(_)) && gone_name(e.0) == *r), "{what}, but there is no such edge");
                if let Some((k, to)) = out_entry {
                    ensure!(!matches!(to, Node(_)) && gone_name(to) == *r, "{what} starts at the port of sink {k}, which is to {to:?}");
                }
                *to_ref.entry((*x, r.clone())).or_insert(0) += 1;
            }
            (Role::Invalid(r), Role::Real(y)) => {
                ensure!(g.nodes[*y].src.iter().any(|e| !matches!(e.0, Node(_)) && gone_name(e.0) == *r), "{what}, but there is no such edge");
                if let Some((k, to)) = in_entry {
                    ensure!(!matches!(to, Node(_)) && gone_name(to) == *r, "{what} ends at the port of source {k}, which is from {to:?}");
                }
                *from_ref.entry((r.clone(), *y)).or_insert(0) += 1;
            }
            _ => return Err(format!("{what}, which are both no nodes")),
        }
    }
    for (i, nd) in g.nodes.iter().enumerate() {
        let labels = distinct_labels(nd);
        for (k, (to, l)) in nd.src.iter().enumerate() {
            if labels && !l.is_empty() {
                same!(in_use.get(&(i, k)).copied().unwrap_or(0), 1, "lines into node {i} at its source {k} ({l:?}, {to:?})");
            }
            let there = match to {
                Node(x) => direct[*x][i] > 0 || (loopy(*x, i) && (from_ref.contains_key(&(name(*x), i)) || from_ref.contains_key(&(name(i), i)))),
                gone => from_ref.contains_key(&(gone_name(*gone), i)),
            };
            ensure!(there, "no line into node {i} for its source {k} ({to:?})");
        }
        for (k, (to, l)) in nd.snk.iter().enumerate() {
            if labels && !l.is_empty() {
                ensure!(out_use.contains_key(&(i, k)), "no line out of node {i} at its sink {k} ({l:?}, {to:?})");
            }
            let there = match to {
                Node(y) => direct[i][*y] > 0 || (loopy(i, *y) && to_ref.contains_key(&(i, name(*y)))),
                gone => to_ref.contains_key(&(i, gone_name(*gone))),
            };
            ensure!(there, "no line out of node {i} for its sink {k} ({to:?})");
        }
    }
    // each edge once: a source and a sink that name each other are the two ends of one edge
    for x in 0..n {
        for y in 0..n {
            let k = s[x][y].max(t[x][y]);
            ensure!(direct[x][y] <= k, "{} lines from node {x} to node {y} for {k} edges", direct[x][y]);
        }
    }
    // cycles are cut
    let mut left: Vec<usize> = (0..n).collect();
    loop {
        let before = left.len();
        let keep: Vec<usize> = left.iter().copied().filter(|y| left.iter().any(|x| direct[*x][*y] > 0)).collect();
        left = keep;
        if left.len() == before {
            break;
        }
    }
    ensure!(left.is_empty(), "the lines between nodes {left:?} form a cycle");
    Ok(())
}

// ---------------------------------------------------------------- one case

/// Renders `g` both ways
fn case<P: Px>(picture: bool, g: &Graph) -> R<bool> {
    if g.places() as u128 > P::max_inx() {
        return Ok(false);
    }
    let b = build::<P>(g);
    let dangling = g.dangling();
    if !picture {
        match render_to_svg(&b.a, true) {
            Ok(_) => ensure!(!dangling, "no error for an invalid pointer"),
            Err(RenderError::InvalidPtr(p)) => {
                let ok = g.nodes.iter().any(|n| n.src.iter().chain(&n.snk).any(|e| !matches!(e.0, Node(_)) && b.to(e.0) == p));
                ensure!(ok, "error about {p:?}, which is no invalid pointer of the graph");
            }
            Err(e) => return Err(format!("unexpected error {e:?}")),
        }
    }
    let svg = render_to_svg(&b.a, false).map_err(|e| format!("unexpected error {e:?}"))?;
    if picture {
        judge(g, &b, &svg)?;
    } else {
        ensure!(svg.ends_with("</svg>"), "no picture");
        for e in g.nodes.iter().flat_map(|n| n.src.iter().chain(&n.snk)) {
            if !matches!(e.0, Node(_)) {
                let p = b.to(e.0);
                ensure!(svg.contains(&format!("{p:?}(invalid)")), "{p:?} not shown as invalid");
            }
        }
    }
    Ok(dangling || g.nodes.iter().any(|n| !n.src.is_empty() || !n.snk.is_empty()))
}

// ---------------------------------------------------------------- families of graphs

/// Number of lists up to `len` over `k` things
fn lists(k: u64, len: u32) -> u64 {
    (0..=len).map(|l| k.pow(l)).sum()
}
fn list(mut x: u64, k: u64) -> Vec<u64> {
    let mut l = 0;
    while x >= k.pow(l) {
        x -= k.pow(l);
        l += 1;
    }
    (0..l)
        .map(|_| {
            let d = x % k;
            x /= k;
            d
        })
        .collect()
}
fn digit(x: &mut u64, base: u64) -> u64 {
    let d = *x % base;
    *x /= base;
    d
}

/// Every node with every list of sources and every list of sinks
fn with_lists(n: usize, gone: &[To], len: u32, both: bool, mut x: u64) -> Graph {
    let k = (n + gone.len()) as u64;
    let to = |d: u64| if (d as usize) < n { Node(d as usize) } else { gone[d as usize - n] };
    let mut g = Graph::new(n);
    g.holes = gone.contains(&Stale);
    let c = lists(k, len);
    let kind = if both { 2 } else { digit(&mut x, 2) };
    for i in 0..n {
        if kind != 1 {
            for d in list(digit(&mut x, c), k) {
                g.source(i, to(d));
            }
        }
        if kind != 0 {
            for d in list(digit(&mut x, c), k) {
                g.sink(i, to(d));
            }
        }
    }
    g
}

/// Every node has an edge to every other, or not, in one of `kinds` ways: no, as a source, as a sink, as both
fn with_pairs(n: usize, selves: bool, kinds: u64, mut x: u64) -> Graph {
    let mut g = Graph::new(n);
    for i in 0..n {
        for j in 0..n {
            if i == j && !selves {
                continue;
            }
            let d = digit(&mut x, kinds);
            if d & 1 != 0 {
                g.source(j, Node(i));
            }
            if d & 2 != 0 {
                g.sink(i, Node(j));
            }
        }
    }
    g
}

/// Every pair of nodes connected not at all, forward or backward; as sources or sinks
fn oriented(n: usize, mut x: u64) -> Graph {
    let mut g = Graph::new(n);
    let sinks = digit(&mut x, 2) == 1;
    for i in 0..n {
        for j in i + 1..n {
            let (a, b) = match digit(&mut x, 3) {
                0 => continue,
                1 => (i, j),
                _ => (j, i),
            };
            if sinks {
                g.sink(a, Node(b));
            } else {
                g.source(b, Node(a));
            }
        }
    }
    g
}

/// Every number of edges up to `most` between every two nodes
fn multi(n: usize, most: u64, mut x: u64) -> Graph {
    let mut g = Graph::new(n);
    let sinks = digit(&mut x, 2) == 1;
    for i in 0..n {
        for j in 0..n {
            for _ in 0..digit(&mut x, most + 1) {
                if sinks {
                    g.sink(i, Node(j));
                } else {
                    g.source(j, Node(i));
                }
            }
        }
    }
    g
}

const SHAPES: [&str; 12] = [
    "apart", "path", "cycle", "path into a cycle", "star out", "star in", "tree", "all forward", "all both ways", "layers", "many edges", "all to nothing",
];

fn shape(kind: usize, n: usize, sinks: bool) -> Graph {
    let mut g = Graph::new(n);
    let e = |g: &mut Graph, a: usize, b: usize| {
        if sinks {
            g.sink(a, Node(b));
        } else {
            g.source(b, Node(a));
        }
    };
    match kind {
        0 => (),
        1 => (1..n).for_each(|i| e(&mut g, i - 1, i)),
        2 => (0..n).for_each(|i| e(&mut g, i, (i + 1) % n)),
        3 => (1..n).for_each(|i| e(&mut g, i, if i + 1 == n { n / 2 } else { i + 1 })),
        4 => (1..n).for_each(|i| e(&mut g, 0, i)),
        5 => (1..n).for_each(|i| e(&mut g, i, 0)),
        6 => (1..n).for_each(|i| e(&mut g, (i - 1) / 2, i)),
        7 => (0..n).for_each(|i| (i + 1..n).for_each(|j| e(&mut g, i, j))),
        8 => (0..n).for_each(|i| (0..n).for_each(|j| e(&mut g, i, j))),
        9 => (0..n).for_each(|i| (0..n).filter(|j| j / 4 == i / 4 + 1).for_each(|j| e(&mut g, i, j))),
        10 => (0..n).for_each(|_| e(&mut g, 0, n - 1)),
        _ => (0..n).for_each(|i| if sinks { g.sink(i, Gone) } else { g.source(i, Gone) }),
    }
    g
}

/// Special characters, and some that are not
const CHARS: [&str; 11] = ["<", ">", "&", "\"", "'", "a", ";", "#", " ", "é", "字"];
const WORDS: [&str; 10] = ["&amp;", "&lt;", "&#60;", "]]>", "<!--", "-->", "</text>", "<?x?>", "&quot;&apos;", "\u{10ffff}\u{2028}"];

fn word(x: u64) -> String {
    if (x as usize) < WORDS.len() {
        return WORDS[x as usize].into();
    }
    list(x - WORDS.len() as u64, CHARS.len() as u64).iter().map(|d| CHARS[*d as usize]).collect()
}

/// A node between two others with the given labels
fn labelled(src: Vec<String>, center: Vec<String>, snk: Vec<String>) -> Graph {
    let mut g = Graph::new(3);
    g.nodes[1].src = src.into_iter().map(|s| (Node(0), s)).collect();
    g.nodes[1].center = center;
    g.nodes[1].snk = snk.into_iter().map(|s| (Node(2), s)).collect();
    g
}

fn of_len(tag: &str, l: &[u64]) -> Vec<String> {
    // all different as far as they are not empty
    l.iter().enumerate().map(|(i, n)| format!("{}{}", tag, (b'0' + i as u8) as char).repeat(*n as usize)).collect()
}

fn families<P: Px>(c: &mut Ctx, picture: bool, name: &str) {
    let cases = |c: &mut Ctx, what: &str, count: u64, make: &(dyn Fn(u64) -> Graph + Sync)| {
        c.enumerate(&format!("{what}, {name}"), count, |x| make(x).show(), |x| case::<P>(picture, &make(x)));
    };
    let main = name == "default pointers";
    let all: &[To] = if P::HAS_GEN { &[Gone, Never, Stale] } else { &[Gone, Never] };
    cases(c, "one node with every list", lists(1 + all.len() as u64, 3).pow(2), &|x| with_lists(1, all, 3, true, x));
    cases(c, "two nodes with every list", lists(3, 2).pow(4), &|x| with_lists(2, &[Gone], 2, true, x));
    cases(c, "two nodes with every list, two gone", lists(4, 2).pow(2) * 2, &|x| with_lists(2, &all[all.len() - 2..], 2, false, x));
    cases(c, "three nodes with every list", lists(4, 2).pow(3) * 2, &|x| with_lists(3, &[Gone], 2, false, x));
    cases(c, "three nodes, up to two edges each", 3u64.pow(9) * 2, &|x| multi(3, 2, x));
    if main {
        cases(c, "three nodes, every pair", 4u64.pow(9), &|x| with_pairs(3, true, 4, x));
        cases(c, "four nodes, sources", 1 << 16, &|x| with_pairs(4, true, 2, x));
        cases(c, "four nodes, sinks", 1 << 16, &|x| {
            let mut g = with_pairs(4, true, 2, x);
            for i in 0..4 {
                for (to, _) in std::mem::take(&mut g.nodes[i].src) {
                    if let Node(j) = to {
                        g.sink(j, Node(i));
                    }
                }
            }
            g
        });
        cases(c, "four nodes, oriented", 3u64.pow(6) * 2, &|x| oriented(4, x));
        cases(c, "five nodes, oriented", 3u64.pow(10) * 2, &|x| oriented(5, x));
        cases(c, "without port labels, three nodes", 4u64.pow(9), &|x| {
            let mut g = with_pairs(3, true, 4, x);
            g.unlabel();
            g
        });
        if c.thorough {
            cases(c, "two nodes with every list, all gone", lists(5, 2).pow(4), &|x| with_lists(2, all, 2, true, x));
            cases(c, "three nodes with longer lists", lists(4, 3).pow(3) * 2, &|x| with_lists(3, &[Gone], 3, false, x));
            cases(c, "four nodes, every pair", 4u64.pow(12), &|x| with_pairs(4, false, 4, x));
            cases(c, "four nodes, up to two edges each", 3u64.pow(16) / 8, &|x| multi(4, 2, x * 8));
            cases(c, "six nodes, oriented", 3u64.pow(15) * 2, &|x| oriented(6, x));
        }
    }
    let sizes = c.q(if main { 40 } else { 70 }, if main { 120 } else { 120 });
    c.enumerate(
        &format!("larger graphs, {name}"),
        sizes * SHAPES.len() as u64 * 2,
        |x| format!("{}, {} nodes, {}", SHAPES[(x / 2 % SHAPES.len() as u64) as usize], x / 2 / SHAPES.len() as u64 + 1, ["sources", "sinks"][x as usize & 1]),
        |x| {
            let kind = (x / 2 % SHAPES.len() as u64) as usize;
            let n = (x / 2 / SHAPES.len() as u64) as usize + 1;
            if (kind == 7 || kind == 8) && n > 16 {
                return Ok(false);
            }
            case::<P>(picture, &shape(kind, n, x & 1 == 1))
        },
    );
    if P::HAS_GEN && P::max_gen() < 256 {
        let aged = |mut g: Graph| {
            g.aged = true;
            g
        };
        cases(c, "one node with every list, last generation", lists(4, 3).pow(2), &|x| aged(with_lists(1, all, 3, true, x)));
        cases(c, "two nodes with every list, last generation", lists(3, 2).pow(4), &|x| aged(with_lists(2, &[Gone], 2, true, x)));
        cases(c, "three nodes, up to two edges each, last generation", 3u64.pow(9) * 2, &|x| aged(multi(3, 2, x)));
        cases(c, "larger graphs, last generation", 60 * SHAPES.len() as u64 * 2, &|x| {
            let kind = (x / 2 % SHAPES.len() as u64) as usize;
            let n = (x / 2 / SHAPES.len() as u64) as usize + 1;
            aged(shape(kind, if kind == 7 || kind == 8 { n % 16 + 1 } else { n }, x & 1 == 1))
        });
    }
}

fn labels(c: &mut Ctx, picture: bool) {
    let cases = |c: &mut Ctx, what: &str, count: u64, make: &(dyn Fn(u64) -> Graph + Sync)| {
        c.enumerate(what, count, |x| make(x).show(), |x| case::<PD>(picture, &make(x)));
    };
    let words = WORDS.len() as u64 + lists(CHARS.len() as u64, c.q(3, 4));
    cases(c, "label text", words * 3, &|x| {
        let w = vec![word(x / 3)];
        match x % 3 {
            0 => labelled(vec!["s".into()], w, vec!["t".into()]),
            1 => labelled(w, vec!["c".into()], vec!["t".into()]),
            _ => labelled(vec!["s".into()], vec!["c".into()], w),
        }
    });
    let short = WORDS.len() as u64 + lists(CHARS.len() as u64, 1);
    cases(c, "label texts together", short.pow(3), &|x| labelled(vec![word(x % short)], vec![word(x / short % short)], vec![word(x / short / short)]));
    let (a, b) = (lists(4, 3), lists(3, 3));
    cases(c, "label sizes", a * b * b, &|mut x| {
        let src = of_len("s", &list(digit(&mut x, b), 3));
        let snk = of_len("t", &list(digit(&mut x, b), 3));
        labelled(src, of_len("c", &list(x, 4)), snk)
    });
    cases(c, "long labels", 200 * 3, &|x| {
        let mut v = [vec!["s".to_string()], vec!["c".to_string()], vec!["t".to_string()]];
        v[(x % 3) as usize] = vec!["x".repeat((x / 3) as usize)];
        let [s, m, t] = v;
        labelled(s, m, t)
    });
    cases(c, "many labels", 60 * 3, &|x| {
        let n = (x / 3) as usize;
        let mut v = [vec!["s".to_string()], vec!["c".to_string()], vec!["t".to_string()]];
        v[(x % 3) as usize] = (0..n).map(|i| format!("{}{i}", ["s", "c", "t"][(x % 3) as usize])).collect();
        let [s, m, t] = v;
        labelled(s, m, t)
    });
}

/// Nodes that cannot be told apart: only the number of boxes and their places are judged
fn blank(c: &mut Ctx, picture: bool) {
    c.enumerate(
        "blank nodes",
        4u64.pow(9),
        |x| with_pairs(3, true, 4, x).show(),
        |x| {
            let mut g = with_pairs(3, true, 4, x);
            g.unlabel();
            for n in &mut g.nodes {
                n.center.clear();
            }
            let b = build::<PD>(&g);
            for err in [false, true] {
                if err && picture {
                    break;
                }
                let svg = render_to_svg(&b.a, err).map_err(|e| format!("unexpected error {e:?}"))?;
                if picture {
                    let pic = parse(&svg)?;
                    let (rects, texts) = boxes(&pic)?;
                    same!(rects.iter().zip(&texts).filter(|x| x.1.is_empty()).count(), 3, "number of boxes");
                }
            }
            Ok(x != 0)
        },
    );
}

struct Wrapped(DebugNode<PD>, std::cell::Cell<Option<PD>>);
impl DebugNodeTrait<PD> for Wrapped {
    fn debug_node(p: PD, this: &Self) -> DebugNode<PD> {
        this.1.set(Some(p));
        this.0.clone()
    }
}

/// The file is the same picture; a link is drawn as what it holds; each node is asked for with its own pointer
fn ways(c: &mut Ctx) {
    let dir = std::env::temp_dir().join(format!("mc-render-{}", std::process::id()));
    let _ = std::fs::create_dir(&dir);
    c.enumerate(
        "written to files",
        4u64.pow(4) * 2,
        |x| with_pairs(2, true, 4, x / 2).show(),
        |x| {
            let mut g = with_pairs(2, true, 4, x / 2);
            if x & 1 == 1 {
                g.source(0, Gone);
            }
            let b = build::<PD>(&g);
            let f = dir.join(format!("{x}.svg"));
            let want = render_to_svg(&b.a, false).map_err(|e| format!("{e:?}"))?;
            for round in 0..2 {
                if round == 1 {
                    std::fs::write(&f, "x".repeat(want.len() + 100)).map_err(|e| e.to_string())?;
                }
                render_to_svg_file(&b.a, false, f.clone()).map_err(|e| format!("{e:?}"))?;
                let got = std::fs::read_to_string(&f).map_err(|e| e.to_string())?;
                ensure!(got == want, "the file differs from the picture (round {round})");
            }
            match render_to_svg_file(&b.a, true, f.clone()) {
                Ok(()) => ensure!(x & 1 == 0, "no error for an invalid pointer"),
                Err(RenderError::InvalidPtr(p)) => ensure!(x & 1 == 1 && p == b.gone, "error about {p:?}"),
                Err(e) => return Err(format!("unexpected error {e:?}")),
            }
            let _ = std::fs::remove_file(&f);
            match render_to_svg_file(&b.a, false, dir.join("no such directory").join("x.svg")) {
                Err(RenderError::IoError(_)) => (),
                r => return Err(format!("writing to an impossible place: {r:?}")),
            }
            Ok(x != 0)
        },
    );
    let _ = std::fs::remove_dir_all(&dir);
    c.enumerate(
        "links and own nodes",
        4u64.pow(4),
        |x| with_pairs(2, true, 4, x).show(),
        |x| {
            let g = with_pairs(2, true, 4, x);
            let b = build::<PD>(&g);
            let want = render_to_svg(&b.a, false).map_err(|e| format!("{e:?}"))?;
            let mut own: Arena<PD, Wrapped> = Arena::new();
            own.clone_from_with(&b.a, |_, n| Wrapped(n.clone(), Default::default()));
            let got = render_to_svg(&own, false).map_err(|e| format!("{e:?}"))?;
            ensure!(got == want, "a type with the same nodes gives another picture");
            for (p, w) in &own {
                same!(w.1.get(), Some(p), "pointer the node was asked for with");
            }
            let mut links: Arena<PD, Link<PD, DebugNode<PD>>> = Arena::new();
            links.clone_from_with(&b.a, |_, n| Link::new((Some(b.ptrs[0]), None), n.clone()));
            let got = render_to_svg(&links, false).map_err(|e| format!("{e:?}"))?;
            ensure!(got == want, "links give another picture than what they hold");
            Ok(x != 0)
        },
    );
}

fn main() {
    run(|c| {
        let picture = match c.prop.as_str() {
            "R01" => false,
            "R02" => true,
            p => panic!("unknown property {p}"),
        };
        c.enumerate("no nodes", 1, |_| "empty".into(), |_| case::<PD>(picture, &Graph::new(0)));
        families::<PD>(c, picture, "default pointers");
        families::<PN>(c, picture, "no generations");
        families::<P8N>(c, picture, "8 bit index, no generations");
        families::<P88>(c, picture, "8 bit index and generation");
        labels(c, picture);
        blank(c, picture);
        ways(c);
    });
}
