//! C07, C08: the document model.
use super::lang::any_module;
use crate::gen::*;
use crate::pipe::*;
use crate::refl::*;
use crate::{ensure, Check, Ctx, Res, Tier};
use seiren::color::{NamedColor, RGBColor, WebColor};
use seiren::geometry::{Orientation, Point, Size};
use seiren::mir::{self, Document, EdgeData, EdgeId, NodeId, ShapeKind, TerminalPortId};

// ------------------------------------------------------------------ C07

/// How a row of this type and key looks, apart from its name.
fn look(f: &mir::FieldShape) -> String {
    let mut g = f.clone();
    g.title.text = String::new();
    format!("{:?}", g)
}
fn style_of(ty: Ty, key: Option<Key>) -> String {
    let m = RModule { name: None, entries: vec![REntry::Def("t".into(), vec![RField { name: "f".into(), ty, key }])] };
    let doc = m.to_api().into_mir();
    let rec = doc.body().children().next().unwrap();
    let row = doc.get_node(rec).unwrap().children().nth(1).unwrap();
    look(field(doc.get_node(row).unwrap()).unwrap())
}
fn header_style() -> String {
    let m = RModule { name: None, entries: vec![REntry::Def("t".into(), vec![])] };
    let doc = m.to_api().into_mir();
    let rec = doc.body().children().next().unwrap();
    let row = doc.get_node(rec).unwrap().children().next().unwrap();
    look(field(doc.get_node(row).unwrap()).unwrap())
}

pub fn faithful(cx: &mut Ctx, m: &RModule, doc: &Document) -> Res {
    let defs = m.defs();
    let recs: Vec<NodeId> = doc.body().children().collect();
    ensure!(recs.len() == defs.len(), "{} entities, {} tables\n{}", defs.len(), recs.len(), show(m));
    let mut rows: Vec<Vec<NodeId>> = vec![];
    let mut seen = std::collections::HashSet::new();
    let hs = header_style();
    let mut styles = std::collections::HashMap::new();
    for (i, (rec, (name, fields))) in recs.iter().zip(&defs).enumerate() {
        let n = node(doc, *rec)?;
        ensure!(matches!(n.kind(), ShapeKind::Record(_)), "entity #{} is not drawn as a table\n{}", i, show(m));
        ensure!(seen.insert(*rec), "table used twice\n{}", show(m));
        let kids: Vec<NodeId> = n.children().collect();
        ensure!(kids.len() == fields.len() + 1, "entity #{} {:?} has {} fields, its table {} rows\n{}", i, name, fields.len(), kids.len(), show(m));
        for k in &kids {
            ensure!(seen.insert(*k), "row used twice\n{}", show(m));
        }
        let head = field(node(doc, kids[0])?).ok_or("header is no field")?;
        ensure!(head.title.text == **name, "header of entity #{} says {:?}, not {:?}\n{}", i, head.title.text, name, show(m));
        ensure!(head.subtitle.is_none() && head.badge.is_none(), "header of entity #{} has a type or badge\n{}", i, show(m));
        ensure!(look(head) == hs, "header of entity #{} looks unlike other headers\n{}", i, show(m));
        for (j, f) in fields.iter().enumerate() {
            let row = field(node(doc, kids[j + 1])?).ok_or("row is no field")?;
            let at = || format!("entity #{} {:?} field #{}", i, name, j);
            ensure!(row.title.text == f.name, "{} is named {:?}, not {:?}\n{}", at(), row.title.text, f.name, show(m));
            let sub = row.subtitle.as_ref().map(|s| s.text.as_str());
            ensure!(sub == Some(f.ty.word()), "{} shows type {:?}, not {:?}\n{}", at(), sub, f.ty, show(m));
            let badge = row.badge.as_ref().map(|b| b.text.as_str());
            ensure!(badge == f.key.map(|k| k.word()), "{} shows badge {:?}, not {:?}\n{}", at(), badge, f.key, show(m));
            let style = styles.entry((f.ty.word(), f.key.map(|k| k.word()))).or_insert_with(|| style_of(f.ty, f.key));
            ensure!(look(row) == *style, "{} looks unlike other fields of its type and key\n{}", at(), show(m));
        }
        rows.push(kids);
    }
    let named = |p: &RPath| -> Vec<NodeId> {
        let mut v = vec![];
        for (i, (n, fs)) in defs.iter().enumerate() {
            if **n == p.0 {
                match &p.1 {
                    None => v.push(recs[i]),
                    Some(f) => v.extend(fs.iter().enumerate().filter(|(_, x)| x.name == *f).map(|(j, _)| rows[i][j + 1])),
                }
            }
        }
        v
    };
    let want: Vec<_> = m.rels().into_iter().filter(|(a, b)| m.resolves(a) && m.resolves(b)).collect();
    let edges: Vec<&EdgeData> = doc.edges().collect();
    ensure!(edges.len() == want.len(), "{} relations have both ends defined, {} edges\n{}", want.len(), edges.len(), show(m));
    for (k, (e, (a, b))) in edges.iter().zip(&want).enumerate() {
        ensure!(named(a).contains(&e.source_id()), "relation #{} {:?} -- {:?} starts at node {}\n{}", k, a, b, e.source_id(), show(m));
        ensure!(named(b).contains(&e.target_id()), "relation #{} {:?} -- {:?} ends at node {}\n{}", k, a, b, e.target_id(), show(m));
    }
    cx.add("tables", defs.len() as u64);
    cx.add("edges", edges.len() as u64);
    cx.add("relations left out", (m.rels().len() - want.len()) as u64);
    Ok(())
}

/// Modules with more of one thing than sixteen bits can count.
const VAST: usize = 4;
fn vast(kind: usize) -> RModule {
    let n = 66_000 + 37 * kind;
    let f = |i: usize| RField { name: format!("f{}", i), ty: TYS[i % 4], key: [None, Some(Key::Pk), Some(Key::Fk)][i % 3] };
    let def = |i: usize, fs: Vec<RField>| REntry::Def(format!("t{}", i), fs);
    let rel = |a: (usize, usize), b: (usize, usize)| REntry::Rel((format!("t{}", a.0), Some(format!("f{}", a.1))), (format!("t{}", b.0), Some(format!("f{}", b.1))));
    let mut entries = vec![];
    match kind {
        0 => {
            entries.push(def(0, (0..n).map(f).collect()));
            entries.push(rel((0, 0), (0, n - 1)));
            entries.push(rel((0, n - 2), (0, 464)));
        }
        1 => {
            entries.extend((0..n).map(|i| def(i, vec![])));
            entries.push(def(n, (0..3).map(f).collect()));
            entries.push(rel((n, 0), (n, 2)));
            entries.push(REntry::Rel((format!("t{}", n - 1), None), (format!("t{}", n - 65_536), None)));
        }
        2 => {
            entries.push(def(0, (0..5).map(f).collect()));
            entries.push(def(1, (0..7).map(f).collect()));
            entries.extend((0..n).map(|i| rel((i % 2, i % 5), (1, i / 3 % 8))));
        }
        _ => {
            entries.extend((0..300).map(|i| def(i, (0..250).map(f).collect())));
            entries.extend((0..300).map(|i| rel((i, 249), (299 - i, i % 250))));
        }
    }
    RModule { name: None, entries }
}

fn c07(cx: &mut Ctx) -> Res {
    if cx.idx < VAST {
        let m = vast(cx.idx);
        let doc = m.to_api().into_mir();
        faithful(cx, &m, &doc)?;
        cx.add("vast modules", 1);
        cx.nontrivial(&[cx.idx as u8]);
        return Ok(());
    }
    let m = if cx.rng.chance(1, 300) { big_module(&mut cx.rng, false) } else { any_module(&mut cx.rng) };
    let api = m.to_api();
    let doc = guard(|| api.into_mir()).map_err(|p| format!("building the document panicked: {}\n{}", p, show(&m)))?;
    faithful(cx, &m, &doc)?;
    // building again gives the same, and so does building from text
    let again = api.into_mir();
    ensure!(dump(&doc) == dump(&again), "building twice gives two documents\n{}", show(&m));
    let src = emit(&mut cx.rng, &m, 2);
    let parsed = parse_ok(&src)?.into_mir();
    ensure!(dump(&doc) == dump(&parsed), "a module read from text gives another document\nsource: {}", brief(&src));
    let defined: Vec<_> = m.rels().iter().map(|(a, b)| m.resolves(a) && m.resolves(b)).collect();
    let forward = m.entries.iter().enumerate().any(|(i, e)| matches!(e, REntry::Rel(..)) && m.entries[i..].iter().any(|x| matches!(x, REntry::Def(..))));
    if forward && defined.contains(&true) {
        cx.add("modules with relations before entities", 1);
    }
    if !m.entries.is_empty() {
        cx.nontrivial(src.as_bytes());
    }
    cx.sample(|| show(&m));
    Ok(())
}
pub const C07: Check = Check {
    id: "C07",
    level: "exploration",
    cases: |t: Tier| VAST + t.n(64000, 500000),
    run: c07,
    rule: "four modules with more than 65536 of one thing (fields of a table, tables, relations, rows altogether), then random modules (any names, duplicates, empty entities, dangling and forward relations), built through the API and read from text; every table, row, badge and edge of the document is compared with the module; non-trivial if the module has entries; distinct by source text",
    assumptions: &["where a name is defined more than once an edge may use any of its definitions"],
    need: &[("tables", 10000), ("edges", 5000), ("relations left out", 1000), ("modules with relations before entities", 200), ("vast modules", 4)],
    exhaustive: false,
    workers: 8,
};

// ------------------------------------------------------------------ C08

#[derive(Clone, Debug, Default)]
struct MNode {
    kind: String,
    kids: Vec<usize>,
    origin: Option<Point>,
    size: Option<Size>,
    ports: Vec<(Point, Orientation, String)>,
}
struct MEdge {
    src: usize,
    dst: usize,
    path: Option<Vec<Point>>,
}
struct Hist {
    doc: Document,
    nodes: Vec<MNode>,
    /// id of each node but the body (index 0)
    ids: Vec<Option<NodeId>>,
    edges: Vec<MEdge>,
    eids: Vec<EdgeId>,
    pids: Vec<TerminalPortId>,
    log: Vec<String>,
}
fn kind_text(k: &ShapeKind) -> String {
    format!("{:?}", k)
}
fn point(r: &mut crate::rng::Rng) -> Point {
    let c = |r: &mut crate::rng::Rng| match r.below(6) {
        0 => 0.0,
        1 => -(r.below(1000) as f32) / 4.0,
        _ => r.below(4000) as f32 / 4.0,
    };
    Point::new(c(r), c(r))
}
pub fn colour(r: &mut crate::rng::Rng) -> WebColor {
    match r.below(7) {
        0 => WebColor::Named(NamedColor::White),
        1 => WebColor::Named(NamedColor::Black),
        // black and white by number, pure colours, greys
        2 => {
            let c = |r: &mut crate::rng::Rng| *r.pick(&[0u8, 0, 255, 255, 1, 16, 128]);
            WebColor::RGB(RGBColor::new(c(r), c(r), c(r)))
        }
        3 => {
            let g = *r.pick(&[0u8, 255, 0x1c, 0x33, 0x80, 0xaa]);
            WebColor::RGB(RGBColor::new(g, g, g))
        }
        _ => {
            let v = r.next();
            WebColor::RGB(RGBColor::new(v as u8, (v >> 8) as u8, (v >> 16) as u8))
        }
    }
}
pub fn text_span(r: &mut crate::rng::Rng) -> mir::TextSpan {
    use mir::{FontFamily::*, FontSize, FontWeight};
    mir::TextSpan {
        text: any_name(r),
        color: r.chance(3, 4).then(|| colour(r)),
        font_family: r.chance(3, 4).then(|| *r.pick(&[SansSerif1, SansSerif2, SansSerif3, Monospace1, Monospace2])),
        font_weight: r.chance(1, 2).then(|| *r.pick(&[FontWeight::Normal, FontWeight::Bold, FontWeight::Lighter, FontWeight::Bolder])),
        font_size: r.chance(1, 2).then(|| *r.pick(&[FontSize::XXSmall, FontSize::XSmall, FontSize::Small, FontSize::Medium, FontSize::Large, FontSize::XLarge, FontSize::XXLarge, FontSize::XXXLarge])),
    }
}
pub fn field_shape(r: &mut crate::rng::Rng) -> mir::FieldShape {
    mir::FieldShape {
        title: text_span(r),
        subtitle: r.chance(1, 2).then(|| text_span(r)),
        badge: r.chance(1, 2).then(|| mir::Badge {
            text: any_name(r),
            color: r.chance(3, 4).then(|| colour(r)),
            bg_color: r.chance(3, 4).then(|| colour(r)),
        }),
        bg_color: r.chance(1, 2).then(|| colour(r)),
        border_color: r.chance(1, 2).then(|| colour(r)),
    }
}
pub fn record_shape(r: &mut crate::rng::Rng) -> mir::RecordShape {
    mir::RecordShape {
        rounded: r.chance(1, 2),
        bg_color: r.chance(3, 4).then(|| colour(r)),
        border_color: r.chance(3, 4).then(|| colour(r)),
    }
}

impl Hist {
    fn node(&self, i: usize) -> &mir::NodeData {
        match self.ids[i] {
            None => self.doc.body(),
            Some(id) => self.doc.get_node(id).unwrap_or_else(|| panic!("node {} is gone", id)),
        }
    }
    fn node_mut(&mut self, i: usize) -> &mut mir::NodeData {
        match self.ids[i] {
            None => self.doc.body_mut(),
            Some(id) => self.doc.get_node_mut(id).unwrap_or_else(|| panic!("node {} is gone", id)),
        }
    }
    fn check(&self) -> Res {
        let why = |s: String| format!("{}\nhistory:\n{}", s, self.log.join("\n"));
        for (i, m) in self.nodes.iter().enumerate() {
            let n = self.node(i);
            ensure!(kind_text(n.kind()) == m.kind, "{}", why(format!("node #{} is now {:?}", i, n.kind())));
            let kids: Vec<Option<NodeId>> = n.children().map(Some).collect();
            let want: Vec<Option<NodeId>> = m.kids.iter().map(|k| self.ids[*k]).collect();
            ensure!(kids == want && n.children().len() == want.len(), "{}", why(format!("children of node #{}: {:?}, expected {:?}", i, kids, want)));
            ensure!(n.origin == m.origin && n.size == m.size, "{}", why(format!("place of node #{}: {:?} {:?}", i, n.origin, n.size)));
            let r = n.rect().map(|r| (r.origin, r.size));
            ensure!(r == m.origin.zip(m.size), "{}", why(format!("rect of node #{}: {:?}", i, r)));
            let ports: Vec<_> = n.terminal_ports().map(|p| (*p.location(), p.orientation(), p.id().to_string())).collect();
            ensure!(ports == m.ports && n.terminal_ports().len() == ports.len(), "{}", why(format!("ports of node #{}: {:?}, expected {:?}", i, ports, m.ports)));
        }
        let ids: Vec<EdgeId> = self.doc.edge_ids().collect();
        ensure!(ids == self.eids && self.doc.edge_ids().len() == ids.len(), "{}", why(format!("edge ids {:?}, expected {:?}", ids, self.eids)));
        ensure!(self.doc.edges().count() == self.edges.len(), "{}", why("number of edges".into()));
        for (k, (e, m)) in self.doc.edges().zip(&self.edges).enumerate() {
            let same = |e: &EdgeData| Some(e.source_id()) == self.ids[m.src] && Some(e.target_id()) == self.ids[m.dst] && e.path_points() == m.path.as_deref();
            ensure!(same(e), "{}", why(format!("edge #{} is now {:?}", k, e)));
            let by = self.doc.edge(self.eids[k]);
            ensure!(by.map_or(false, same), "{}", why(format!("edge {} looked up is {:?}", self.eids[k], by)));
            let ends = self.doc.edge_endpoints(self.eids[k]).map(|(a, b)| (Some(a), Some(b)));
            ensure!(ends == Some((self.ids[m.src], self.ids[m.dst])), "{}", why(format!("ends of edge {}: {:?}", self.eids[k], ends)));
        }
        Ok(())
    }
}

/// One document with `n` of everything: nodes, children, edges, ports of a node.
fn c08_many(cx: &mut Ctx, n: usize) -> Res {
    let mut doc = Document::new();
    let what = format!("in a document with {} nodes, edges and ports of a node", n);
    let shape = |i: usize| mir::FieldShape { title: mir::TextSpan { text: format!("node {}", i), ..Default::default() }, ..Default::default() };
    let place = |i: usize| Point::new(i as f32 / 2.0, (i % 977) as f32);
    let turn = |i: usize| [Orientation::Up, Orientation::Down, Orientation::Left, Orientation::Right][i % 4];
    let rec = doc.create_record(Default::default());
    doc.body_mut().append_child(rec);
    let ids: Vec<NodeId> = (0..n).map(|i| doc.create_field(shape(i))).collect();
    let mut eids = vec![];
    for i in 0..n {
        doc.get_node_mut(rec).unwrap().append_child(ids[i]);
        let d = doc.get_node_mut(ids[i]).ok_or("a node is gone")?;
        d.origin = Some(place(i));
        d.size = (i % 3 > 0).then(|| Size::new(i as f32, 1.0));
        eids.push(doc.add_edge(EdgeData::new(ids[i], ids[i / 7 * 5 % n], (i % 5 == 0).then(|| vec![place(i)]))));
    }
    let body = doc.body_mut();
    let pids: Vec<TerminalPortId> = (0..n).map(|i| body.add_terminal_port(ids[i], place(i), turn(i))).collect();
    for (k, e) in doc.edges_mut().enumerate() {
        if k % 11 == 3 {
            e.set_path_points(Some(vec![place(k), place(k + 1)]));
        }
    }
    let distinct = |v: Vec<String>| v.iter().collect::<std::collections::HashSet<_>>().len();
    ensure!(distinct(ids.iter().map(|i| i.to_string()).collect()) == n, "node ids given twice {}", what);
    ensure!(distinct(eids.iter().map(|i| i.to_string()).collect()) == n, "edge ids given twice {}", what);
    ensure!(distinct(pids.iter().map(|i| i.to_string()).collect()) == n, "port ids given twice {}", what);
    ensure!(doc.get_node(rec).unwrap().children().eq(ids.iter().copied()), "children differ {}", what);
    for i in 0..n {
        let d = doc.get_node(ids[i]).ok_or("a node is gone")?;
        ensure!(kind_text(d.kind()) == kind_text(&ShapeKind::Field(shape(i))), "node #{} is now {:?} {}", i, d.kind(), what);
        ensure!(d.origin == Some(place(i)) && d.size == (i % 3 > 0).then(|| Size::new(i as f32, 1.0)), "place of node #{}: {:?} {:?} {}", i, d.origin, d.size, what);
        ensure!(d.children().len() == 0 && d.terminal_ports().len() == 0, "node #{} has children or ports {}", i, what);
    }
    ensure!(doc.edge_ids().eq(eids.iter().copied()) && doc.edges().count() == n, "edges differ {}", what);
    for (i, e) in doc.edges().enumerate() {
        let path = match () {
            _ if i % 11 == 3 => Some(vec![place(i), place(i + 1)]),
            _ => (i % 5 == 0).then(|| vec![place(i)]),
        };
        for e in [e, doc.edge(eids[i]).ok_or("an edge is gone")?] {
            ensure!(e.source_id() == ids[i] && e.target_id() == ids[i / 7 * 5 % n] && e.path_points() == path.as_deref(), "edge #{} is now {:?} {}", i, e, what);
        }
        ensure!(doc.edge_endpoints(eids[i]) == Some((ids[i], ids[i / 7 * 5 % n])), "ends of edge #{} {}", i, what);
    }
    ensure!(doc.body().terminal_ports().len() == n, "number of ports {}", what);
    for (i, p) in doc.body().terminal_ports().enumerate() {
        ensure!(*p.location() == place(i) && p.orientation() == turn(i) && p.id() == pids[i], "port #{} is now {:?} {}", i, p, what);
    }
    cx.add("documents with 300 to 70 000 of everything", 1);
    cx.max("nodes", n as u64);
    cx.nontrivial(&n.to_le_bytes());
    Ok(())
}

fn c08(cx: &mut Ctx) -> Res {
    const MANY: [usize; 5] = [300, 1100, 5000, 33_000, 70_000];
    if cx.idx < MANY.len() {
        return c08_many(cx, MANY[cx.idx]);
    }
    let doc = Document::new();
    let body_kind = kind_text(doc.body().kind());
    ensure!(matches!(doc.body().kind(), ShapeKind::Body(_)) && doc.body().children().len() == 0 && doc.edges().count() == 0, "a new document is not empty");
    let mut h = Hist {
        doc,
        nodes: vec![MNode { kind: body_kind, ..Default::default() }],
        ids: vec![None],
        edges: vec![],
        eids: vec![],
        pids: vec![],
        log: vec![],
    };
    let most = if cx.rng.chance(1, 20) { 300 } else { 60 };
    let mut ops = cx.rng.range(1, most);
    // now and then one node gets most of everything
    let focus = cx.rng.chance(1, 12);
    if focus {
        ops = *cx.rng.pick(&[60, 120, 300, 700]);
    }
    for step in 0..ops {
        let r = &mut cx.rng;
        let n = h.nodes.len();
        let what = if focus && step > 3 { *r.pick(&[10, 10, 10, 4, 6, 9, 11]) } else { r.below(12) };
        match what {
            0 | 1 => {
                let s = record_shape(r);
                let id = h.doc.create_record(s.clone());
                ensure!(!h.ids.contains(&Some(id)), "node id {} given twice", id);
                h.log.push(format!("create_record -> {}", id));
                h.nodes.push(MNode { kind: kind_text(&ShapeKind::Record(s)), ..Default::default() });
                h.ids.push(Some(id));
            }
            2 | 3 => {
                let s = field_shape(r);
                let id = h.doc.create_field(s.clone());
                ensure!(!h.ids.contains(&Some(id)), "node id {} given twice", id);
                h.log.push(format!("create_field -> {}", id));
                h.nodes.push(MNode { kind: kind_text(&ShapeKind::Field(s)), ..Default::default() });
                h.ids.push(Some(id));
            }
            4 | 5 if n > 1 => {
                let a = if focus && r.chance(9, 10) { 1 } else { r.below(n) };
                let b = r.range(1, n - 1);
                let id = h.ids[b].unwrap();
                h.log.push(format!("#{} append_child {}", a, id));
                h.node_mut(a).append_child(id);
                h.nodes[a].kids.push(b);
            }
            6 | 7 if n > 1 => {
                let (a, b) = if focus && r.chance(3, 4) { (1, r.range(1, n - 1)) } else { (r.range(1, n - 1), r.range(1, n - 1)) };
                let path = r.chance(1, 3).then(|| (0..r.below(5)).map(|_| point(r)).collect::<Vec<_>>());
                let (x, y) = (h.ids[a].unwrap(), h.ids[b].unwrap());
                let e = h.doc.add_edge(EdgeData::new(x, y, path.clone()));
                ensure!(!h.eids.contains(&e), "edge id {} given twice", e);
                h.log.push(format!("add_edge {} {} -> {}", x, y, e));
                h.eids.push(e);
                h.edges.push(MEdge { src: a, dst: b, path });
                if a == b {
                    cx.add("self edges", 1);
                }
            }
            8 if !h.edges.is_empty() => {
                let k = r.below(h.edges.len());
                let path = r.chance(2, 3).then(|| (0..r.below(6)).map(|_| point(r)).collect::<Vec<_>>());
                h.log.push(format!("set path of edge #{} {:?}", k, path));
                let e = h.doc.edges_mut().nth(k).ok_or("edges_mut is shorter than edges")?;
                e.set_path_points(path.clone());
                h.edges[k].path = path;
            }
            9 => {
                let a = r.below(n);
                let o = r.chance(4, 5).then(|| point(r));
                let s = r.chance(4, 5).then(|| Size::new(r.below(500) as f32 / 2.0, r.below(500) as f32 / 2.0));
                h.log.push(format!("place #{} {:?} {:?}", a, o, s));
                let nd = h.node_mut(a);
                nd.origin = o;
                nd.size = s;
                h.nodes[a].origin = o;
                h.nodes[a].size = s;
            }
            10 if n > 1 => {
                let a = if focus && r.chance(9, 10) { 1 } else { r.range(1, n - 1) };
                let p = point(r);
                let o = *r.pick(&[Orientation::Up, Orientation::Down, Orientation::Left, Orientation::Right]);
                let id = h.ids[a].unwrap();
                let pid = h.node_mut(a).add_terminal_port(id, p, o);
                h.log.push(format!("add port {} {:?} {:?} -> {}", id, p, o, pid));
                ensure!(!h.pids.contains(&pid), "port id {} given twice\nhistory:\n{}", pid, h.log.join("\n"));
                h.pids.push(pid);
                h.nodes[a].ports.push((p, o, pid.to_string()));
            }
            _ => {
                if cx.rng.chance(1, if focus { 15 } else { 3 }) {
                    h.check()?;
                    cx.add("full comparisons", 1);
                }
            }
        }
    }
    h.check()?;
    cx.add("full comparisons", 1);
    cx.add("operations", ops as u64);
    cx.add("edges", h.edges.len() as u64);
    cx.add("ports", h.pids.len() as u64);
    cx.max("ports of one node", h.nodes.iter().map(|n| n.ports.len()).max().unwrap_or(0) as u64);
    cx.max("children of one node", h.nodes.iter().map(|n| n.kids.len()).max().unwrap_or(0) as u64);
    if h.nodes.iter().any(|n| n.ports.len() > 40 && n.kids.len() > 10) {
        cx.add("nodes with many ports and children", 1);
    }
    // identifiers of another, larger document
    let mut other = Document::new();
    let mut last = None;
    for _ in 0..h.nodes.len() + 3 {
        last = Some(other.create_field(Default::default()));
    }
    ensure!(h.doc.get_node(last.unwrap()).is_none(), "a node the document does not have was found");
    cx.nontrivial(h.log.join("\n").as_bytes());
    cx.sample(|| h.log.join("; "));
    Ok(())
}
pub const C08: Check = Check {
    id: "C08",
    level: "exploration",
    cases: |t: Tier| t.n(48000, 400000),
    run: c08,
    rule: "documents with 300 to 70 000 nodes, edges and ports of a node, then random histories of up to 700 document operations, in one of twelve mostly on one node (hundreds of ports, children and edges), mirrored in a plain model; everything readable is compared at random moments and at the end; distinct by history",
    assumptions: &[],
    need: &[("operations", 50000), ("edges", 5000), ("ports", 2000), ("self edges", 100), ("nodes with many ports and children", 300)],
    exhaustive: false,
    workers: 8,
};
