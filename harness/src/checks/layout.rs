//! C09 - C13, C15, C16: places, connection points, routes and their network.
use crate::gen::*;
use crate::pipe::*;
use crate::refl::*;
use crate::rng::Rng;
use crate::{ensure, Check, Ctx, Res, Tier};
use seiren::geometry::{Orientation, Point, Rect, Size};
use seiren::layout::{LayoutEngine, RouteGraph, SimpleLayoutEngine};
use seiren::mir::{Document, EdgeData, FieldShape, NodeId, RecordShape, TerminalPort, TerminalPortId};
use std::collections::{BinaryHeap, HashMap, HashSet};

const ROUTED: Shape = Shape {
    defs: (1, 10),
    fields: (0, 9),
    rels: (1, 12),
    names: 0,
    unique: true,
    dangling: false,
    ordered: true,
};

/// A diagram that is large in one way: very tall tables, very many tables, or
/// very many relations.
fn huge(r: &mut Rng) -> RModule {
    let many = r.chance(1, 8);
    let sizes: Vec<usize> = match r.below(3) {
        _ if many => (0..r.range(2, 6)).map(|_| r.below(4)).collect(),
        0 => vec![r.range(1900, 3000)],
        1 => (0..r.range(2, 8)).map(|_| if r.chance(1, 2) { r.range(600, 2500) } else { r.below(4) }).collect(),
        _ => (0..r.range(60, 160)).map(|_| r.below(9)).collect(),
    };
    let end = |r: &mut Rng| {
        let i = match r.below(3) {
            0 => 0,
            1 => sizes.len() - 1,
            _ => r.below(sizes.len()),
        };
        let f = match (sizes[i], r.below(4)) {
            (0, _) | (_, 0) => None,
            (_, 1) => Some(0),
            (n, 2) => Some(n - 1),
            (n, _) => Some(r.below(n)),
        };
        (format!("t{}", i), f.map(|j| format!("f{}", j)))
    };
    let n = if many { *r.pick(&[130, 260, 515, 1030]) } else { r.range(1, 3) };
    let rels = (0..n).map(|_| (end(r), end(r))).collect();
    grid(&sizes, rels)
}

/// Such a diagram now and then, else any.
pub fn routed_or_huge(r: &mut Rng) -> RModule {
    if r.chance(1, 150) {
        huge(r)
    } else {
        routed(r)
    }
}

/// A module with relations, of varied size and density.
pub fn routed(r: &mut Rng) -> RModule {
    let mut s = ROUTED;
    match r.below(12) {
        0 => s.defs = (1, 1),
        1 => s.defs = (1, 3),
        2 => {
            s.defs = (8, 24);
            s.rels = (1, 20);
        }
        3 => {
            s.defs = (4, 9);
            s.fields = (0, 30);
        }
        4 => {
            s.defs = (4, 16);
            s.fields = (0, 2);
        }
        5 => {
            s.defs = (2, 7);
            s.rels = (10, 40);
        }
        6 => {
            s.defs = (3, 12);
            s.rels = (1, 1);
        }
        7 => {
            s.defs = (6, 12);
            s.fields = (0, 6);
            s.rels = (1, 3);
        }
        _ => {}
    }
    let mut m = module(r, &s);
    // one table far taller than the rest, and now and then all relations from one place
    if r.chance(1, 12) {
        let at = r.below(m.entries.len());
        if let REntry::Def(_, f) = &mut m.entries[at] {
            for i in 0..r.range(20, 60) {
                f.push(RField { name: format!("x{}_", i), ty: *r.pick(&TYS), key: None });
            }
        }
    }
    m
}

/// Number of small diagrams with a single relation (see `small`).
const SMALL_GRIDS: usize = 3 + 9 + 27 + 81 + 243;
/// The k-th small grid: up to five tables with no, one or four fields.
fn small_grid(mut k: usize) -> Vec<usize> {
    let mut n = 1;
    let mut w = 3;
    while k >= w {
        k -= w;
        w *= 3;
        n += 1;
    }
    (0..n)
        .map(|_| {
            let v = [0, 1, 4][k % 3];
            k /= 3;
            v
        })
        .collect()
}
/// Tables of the given numbers of fields, named t0.. with fields f0..
fn grid(sizes: &[usize], rels: Vec<(RPath, RPath)>) -> RModule {
    let mut entries: Vec<REntry> = sizes
        .iter()
        .enumerate()
        .map(|(i, n)| {
            let fs = (0..*n).map(|j| RField { name: format!("f{}", j), ty: TYS[j % 4], key: None }).collect();
            REntry::Def(format!("t{}", i), fs)
        })
        .collect();
    entries.extend(rels.into_iter().map(|(a, b)| REntry::Rel(a, b)));
    RModule { name: None, entries }
}
/// Every end a relation can have in such a grid, rows in the middle once.
fn ends(sizes: &[usize]) -> Vec<RPath> {
    let mut v = vec![];
    for (i, n) in sizes.iter().enumerate() {
        let t = format!("t{}", i);
        v.push((t.clone(), None));
        if *n > 0 {
            v.push((t.clone(), Some("f0".into())));
        }
        if *n > 2 {
            v.push((t.clone(), Some("f1".into())));
        }
        if *n > 1 {
            v.push((t, Some(format!("f{}", n - 1))));
        }
    }
    v
}
/// All modules of the k-th small grid with one relation.
fn small(k: usize) -> Vec<RModule> {
    let s = small_grid(k);
    let e = ends(&s);
    let mut v = vec![];
    for a in &e {
        for b in &e {
            v.push(grid(&s, vec![(a.clone(), b.clone())]));
        }
    }
    v
}

/// Cases 0..SMALL_GRIDS are the small grids, complete; the rest is random, some
/// of it placed by hand.
fn worlds(cx: &mut Ctx, each: fn(&mut Ctx, &World) -> Res) -> Res {
    if cx.idx < SMALL_GRIDS {
        for m in small(cx.idx) {
            cx.add("enumerated single-relation diagrams", 1);
            each(cx, &world(&m)?)?;
        }
        return Ok(());
    }
    if cx.rng.chance(1, 4) {
        let m = routed(&mut cx.rng);
        let w = by_hand(&mut cx.rng, &m)?;
        cx.add("diagrams placed by hand", 1);
        let places: Vec<_> = rects_of(&w.doc)?;
        return each(cx, &w).map_err(|e| format!("{}\nplaced by hand: {:?}", e, places));
    }
    if cx.rng.chance(1, 10) {
        // by an engine that has laid out something else before
        let before = routed(&mut cx.rng);
        let mut m = routed(&mut cx.rng);
        if cx.rng.chance(1, 2) {
            m.entries.retain(|e| matches!(e, REntry::Def(..)));
        }
        let World { mut engine, .. } = world(&before)?;
        let mut doc = m.to_api().into_mir();
        let w = guard(|| {
            let view_box = layout(&mut engine, &mut doc);
            World { model: m.clone(), doc, engine, view_box }
        })
        .map_err(|p| format!("layout panicked: {}\n{}", p, show(&m)))?;
        cx.add("diagrams laid out by a used engine", 1);
        return each(cx, &w).map_err(|e| format!("{}\nthe engine has laid out before:\n{}", e, show(&before)));
    }
    let m = routed_or_huge(&mut cx.rng);
    each(cx, &world(&m)?)
}

/// A module's document placed by hand - a grid of any number of columns of any
/// width, rows of any height, gaps of twice the margin or more - and the rest
/// left to the engine. All measures are multiples of ten, since the engine takes
/// what is less than one unit apart for the same.
pub fn by_hand(r: &mut Rng, m: &RModule) -> Result<World, String> {
    let me = measure()?;
    let gap = me.gx.max(me.gy);
    let mut doc = m.to_api().into_mir();
    let recs = records(&doc);
    let cols = r.range(1, 6);
    let tens = |r: &mut Rng, lo: usize, hi: usize| r.range(lo, hi) as f32 * 10.0;
    let same = r.chance(1, 2);
    let w0 = tens(r, 12, 70);
    let mut x = tens(r, 5, 30);
    let mut lanes: Vec<(f32, f32)> = vec![];
    for _ in 0..cols {
        let w = if same { w0 } else { tens(r, 12, 70) };
        lanes.push((x, w));
        x += w + gap + tens(r, 0, 12);
    }
    let mut y = tens(r, 5, 30);
    let h0 = tens(r, 2, 6);
    // tables need not stand in the order they were declared in
    let mut order = recs.clone();
    if r.chance(1, 2) {
        r.shuffle(&mut order);
    }
    for row in order.chunks(cols) {
        let mut low = y;
        for (rec, (x, w)) in row.iter().zip(&lanes) {
            let kids: Vec<NodeId> = node(&doc, *rec)?.children().collect();
            let mut at = y;
            for f in &kids {
                let h = if same || r.chance(1, 2) { h0 } else { tens(r, 2, 9) };
                let n = doc.get_node_mut(*f).ok_or("row lost")?;
                n.origin = Some(Point::new(*x, at));
                n.size = Some(Size::new(*w, h));
                at += h;
            }
            let n = doc.get_node_mut(*rec).ok_or("table lost")?;
            n.origin = Some(Point::new(*x, y));
            n.size = Some(Size::new(*w, at - y));
            low = low.max(at);
        }
        y = low + gap + tens(r, 0, 12);
    }
    let m = m.clone();
    let what = format!("{}\nplaced {:?}", show(&m), records(&doc).iter().map(|r| doc.get_node(*r).and_then(|n| n.rect())).collect::<Vec<_>>());
    guard(|| {
        let mut engine = SimpleLayoutEngine::new();
        engine.place_terminal_ports(&mut doc);
        engine.draw_edge_path(&mut doc);
        World { model: m, doc, engine, view_box: None }
    })
    .map_err(|p| format!("layout panicked: {}\n{}", p, what))
}

/// The record and row each end of a relation names, as document nodes.
pub fn end_node(w: &World, recs: &[NodeId], p: &RPath) -> Option<NodeId> {
    let defs = w.model.defs();
    let i = defs.iter().position(|(n, _)| **n == p.0)?;
    let rec = recs[i];
    match &p.1 {
        None => Some(rec),
        Some(f) => {
            let j = defs[i].1.iter().position(|x| x.name == *f)?;
            w.doc.get_node(rec)?.children().nth(j + 1)
        }
    }
}
fn rects_of(doc: &Document) -> Result<Vec<Rect>, String> {
    records(doc).iter().map(|r| rect(doc, *r)).collect()
}

// ------------------------------------------------------------------ C09

/// The measures of the grid, read off one diagram.
#[derive(Debug, Clone, Copy)]
pub struct Measure {
    pub x0: f32,
    pub y0: f32,
    pub w: f32,
    pub h: f32,
    pub gx: f32,
    pub gy: f32,
}
pub fn measure() -> Result<Measure, String> {
    let w = world(&grid(&[2, 1, 0, 1], vec![]))?;
    let r = rects_of(&w.doc)?;
    let row = {
        let rec = records(&w.doc)[0];
        let k = node(&w.doc, rec)?.children().next().unwrap();
        rect(&w.doc, k)?
    };
    let m = Measure {
        x0: r[0].min_x(),
        y0: r[0].min_y(),
        w: r[0].width(),
        h: row.height(),
        gx: r[1].min_x() - r[0].max_x(),
        gy: r[3].min_y() - r[0].max_y(),
    };
    for v in [m.w, m.h, m.gx, m.gy] {
        ensure!(v.is_finite() && v > 0.0, "the grid's measures make no sense: {:?}", m);
    }
    ensure!(m.x0.is_finite() && m.y0.is_finite(), "the grid's measures make no sense: {:?}", m);
    Ok(m)
}
fn near(a: f32, b: f32) -> bool {
    (a - b).abs() <= 1e-3 + a.abs().max(b.abs()) * 1e-6
}
fn same_rect(r: &Rect, x: f32, y: f32, w: f32, h: f32) -> bool {
    near(r.min_x(), x) && near(r.min_y(), y) && near(r.width(), w) && near(r.height(), h)
}

fn tall(r: &mut Rng, big: bool) -> RModule {
    let mut s = Shape { defs: (0, 14), fields: (0, 12), rels: (0, 2), ..ROUTED };
    match r.below(8) {
        0 => s.defs = (0, 4),
        1 => s.fields = (0, 1),
        2 => s.defs = (10, 60),
        3 => {
            s.defs = (1, 4);
            s.fields = (0, 300);
        }
        4 if big => {
            s.defs = (100, 400);
            s.fields = (0, 40);
        }
        5 => {
            s.names = 1;
            s.unique = false;
            s.dangling = true;
        }
        _ => {}
    }
    module(r, &s)
}

const LARGE: [usize; 7] = [470, 950, 1900, 2400, 5000, 17_000, 70_000];
fn c09(cx: &mut Ctx) -> Res {
    let me = measure()?;
    let m = if cx.idx < SMALL_GRIDS {
        cx.add("enumerated grids", 1);
        grid(&small_grid(cx.idx), vec![])
    } else if cx.idx - SMALL_GRIDS < 2 * LARGE.len() {
        // very tall tables or very many, with others beside and below
        let n = LARGE[(cx.idx - SMALL_GRIDS) / 2];
        cx.add("grids of 470 to 70 000 rows or tables", 1);
        let mut sizes: Vec<usize> = match cx.idx % 2 {
            0 => (0..7).map(|i| (i * 3) % 5).collect(),
            _ => (0..n).map(|i| i % 4).collect(),
        };
        let at = cx.rng.below(4);
        sizes[at] = n;
        grid(&sizes, vec![])
    } else {
        tall(&mut cx.rng, cx.idx % 10 == 0)
    };
    let mut doc = m.to_api().into_mir();
    let mut eng = SimpleLayoutEngine::new();
    guard(|| eng.place_nodes(&mut doc)).map_err(|p| format!("place_nodes panicked: {}\n{}", p, show(&m)))?;
    let recs = records(&doc);
    let mut y = me.y0;
    let mut tallest = 0.0f32;
    let mut placed: Vec<Rect> = vec![];
    for (i, rec) in recs.iter().enumerate() {
        if i > 0 && i % 3 == 0 {
            y += tallest + me.gy;
            tallest = 0.0;
        }
        let kids: Vec<NodeId> = node(&doc, *rec)?.children().collect();
        let h = kids.len() as f32 * me.h;
        let x = me.x0 + (i % 3) as f32 * (me.w + me.gx);
        tallest = tallest.max(h);
        let r = rect(&doc, *rec)?;
        ensure!(same_rect(&r, x, y, me.w, h), "table #{} is at {:?}, expected x {} y {} width {} height {}\n{}", i, r, x, y, me.w, h, show(&m));
        for (j, k) in kids.iter().enumerate() {
            let f = rect(&doc, *k)?;
            ensure!(
                same_rect(&f, x, y + j as f32 * me.h, me.w, me.h),
                "row #{} of table #{} is at {:?}, expected x {} y {} width {} height {}\n{}",
                j, i, f, x, y + j as f32 * me.h, me.w, me.h, show(&m)
            );
        }
        if let (Some(a), Some(b)) = (kids.first(), kids.last()) {
            let (a, b) = (rect(&doc, *a)?, rect(&doc, *b)?);
            ensure!(near(a.min_y(), r.min_y()) && near(b.max_y(), r.max_y()), "rows of table #{} do not fill it\n{}", i, show(&m));
        }
        if placed.len() < 100 {
            for (j, p) in placed.iter().enumerate() {
                let apart = p.max_x() <= r.min_x() || r.max_x() <= p.min_x() || p.max_y() <= r.min_y() || r.max_y() <= p.min_y();
                ensure!(apart, "tables #{} {:?} and #{} {:?} overlap\n{}", j, p, i, r, show(&m));
                cx.add("pairs of tables", 1);
            }
        }
        placed.push(r);
        cx.add("rows", kids.len() as u64);
    }
    cx.add("tables", recs.len() as u64);
    cx.max("tables", recs.len() as u64);
    if recs.len() > 1 {
        cx.nontrivial(format!("{:?}", placed).as_bytes());
    }
    cx.sample(|| format!("{:?}", placed));
    Ok(())
}
pub const C09: Check = Check {
    id: "C09",
    level: "exploration",
    cases: |t: Tier| t.n(SMALL_GRIDS + 24000, SMALL_GRIDS + 60000),
    run: c09,
    rule: "every place of every table and row compared with the grid computed from measures read off one small diagram; all grids of up to five tables with 0, 1 or 4 fields, grids with a table of 470 to 70 000 rows or as many tables, and random modules up to 400 tables or 300 rows; non-trivial with two tables or more; distinct by the tables' places",
    assumptions: &["the measures of the grid are those of a four-table diagram laid out by the same build"],
    need: &[("tables", 20000), ("rows", 50000), ("pairs of tables", 20000), ("grids of 470 to 70 000 rows or tables", 14)],
    exhaustive: false,
    workers: 8,
};

// ------------------------------------------------------------------ C10

/// Every connection point of a document.
fn c10_points(cx: &mut Ctx, doc: &Document, shown: &dyn Fn() -> String) -> Res {
    let mut ids = HashSet::new();
    for (i, rec) in records(doc).into_iter().enumerate() {
        let kids: Vec<NodeId> = node(doc, rec)?.children().collect();
        let all: Vec<(NodeId, [bool; 4])> = std::iter::once((rec, [true; 4]))
            .chain(kids.iter().enumerate().map(|(j, k)| (*k, [j == 0, true, j + 1 == kids.len(), true])))
            .collect();
        for (j, (id, sides)) in all.iter().enumerate() {
            let r = rect(doc, *id)?;
            let (cx_, cy) = (r.min_x() + r.width() / 2.0, r.min_y() + r.height() / 2.0);
            let want = [
                (cx_, r.min_y(), Orientation::Up),
                (r.min_x() + r.width(), cy, Orientation::Right),
                (cx_, r.min_y() + r.height(), Orientation::Down),
                (r.min_x(), cy, Orientation::Left),
            ];
            let mut want: Vec<_> = want.iter().zip(sides).filter(|(_, s)| **s).map(|(w, _)| *w).collect();
            let what = || if j == 0 { format!("table #{}", i) } else { format!("row #{} of table #{}", j - 1, i) };
            for p in node(doc, *id)?.terminal_ports() {
                ensure!(ids.insert(p.id()), "{} shares the identifier of a connection point\n{}", what(), shown());
                let at = want.iter().position(|w| near(w.0, p.location().x) && near(w.1, p.location().y) && w.2 == p.orientation());
                let Some(k) = at else {
                    return Err(format!("{} at {:?} has a connection point too many at {:?} facing {:?}\n{}", what(), r, p.location(), p.orientation(), shown()));
                };
                want.remove(k);
                cx.add("connection points", 1);
            }
            ensure!(want.is_empty(), "{} at {:?} lacks connection points {:?}\n{}", what(), r, want, shown());
        }
        cx.add(&format!("tables of {} rows", if kids.len() > 3 { "many".to_string() } else { kids.len().to_string() }), 1);
    }
    ensure!(doc.body().terminal_ports().next().is_none(), "the body has connection points");
    cx.nontrivial(dump(doc).as_bytes());
    Ok(())
}
fn c10(cx: &mut Ctx) -> Res {
    if cx.idx >= SMALL_GRIDS && cx.idx % 4 == 0 {
        // wherever the tables and rows may be
        let mut doc = super::draw::free_document(&mut cx.rng);
        let mut eng = SimpleLayoutEngine::new();
        for _ in 0..cx.rng.range(1, 2) {
            guard(|| eng.place_terminal_ports(&mut doc)).map_err(|p| format!("placing connection points panicked: {}\n{}", p, dump(&doc)))?;
        }
        cx.add("documents placed by hand", 1);
        return c10_points(cx, &doc, &|| dump(&doc));
    }
    let m = if cx.idx < SMALL_GRIDS {
        grid(&small_grid(cx.idx), vec![])
    } else {
        tall(&mut cx.rng, false)
    };
    let mut doc = m.to_api().into_mir();
    let mut eng = SimpleLayoutEngine::new();
    guard(|| {
        eng.place_nodes(&mut doc);
        eng.place_terminal_ports(&mut doc);
    })
    .map_err(|p| format!("placing connection points panicked: {}\n{}", p, show(&m)))?;
    c10_points(cx, &doc, &|| show(&m))
}
pub const C10: Check = Check {
    id: "C10",
    level: "exploration",
    cases: |t: Tier| t.n(SMALL_GRIDS + 16000, SMALL_GRIDS + 60000),
    run: c10,
    rule: "the connection points of every table and row compared with the middles of its sides; all small grids, random modules and documents placed by hand; distinct by document",
    assumptions: &[],
    need: &[("documents placed by hand", 2000), ("connection points", 100000), ("tables of 1 rows", 1000), ("tables of 2 rows", 1000), ("tables of 3 rows", 300), ("tables of many rows", 2000)],
    exhaustive: false,
    workers: 8,
};

// ------------------------------------------------------------------ C11

fn c11_one(cx: &mut Ctx, w: &World) -> Res {
    let m = &w.model;
    let recs = records(&w.doc);
    let edges: Vec<_> = w.doc.edges().collect();
    let rels = m.rels();
    ensure!(edges.len() == rels.len(), "{} relations, {} edges\n{}", rels.len(), edges.len(), show(m));
    for (k, (e, (a, b))) in edges.iter().zip(&rels).enumerate() {
        let why = |s: &str| format!("relation #{} {:?} -- {:?}: {}\nroute {:?}\n{}", k, a, b, s, e.path_points(), show(m));
        let (src, dst) = (end_node(w, &recs, a), end_node(w, &recs, b));
        ensure!(Some(e.source_id()) == src, "{}", why("wrong source"));
        ensure!(Some(e.target_id()) == dst, "{}", why("wrong target"));
        let Some(p) = e.path_points() else { return Err(why("no route")) };
        ensure!(p.len() >= 2, "{}", why("route has fewer than two points"));
        ensure!(p.iter().all(|q| q.x.is_finite() && q.y.is_finite()), "{}", why("a point is no number"));
        let port = |id: NodeId, pt: &Point, dir: Orientation| {
            w.doc.get_node(id).unwrap().terminal_ports().any(|t| t.location() == pt && t.orientation() == dir)
        };
        for s in p.windows(2) {
            ensure!((s[0].x == s[1].x) != (s[0].y == s[1].y), "{}", why(&format!("segment {:?} is not axis-aligned", s)));
        }
        let first = dir(&p[0], &p[1]);
        let last = dir(&p[p.len() - 1], &p[p.len() - 2]);
        ensure!(port(e.source_id(), &p[0], first), "{}", why("does not leave the source outward from one of its ports"));
        ensure!(port(e.target_id(), &p[p.len() - 1], last), "{}", why("does not reach the target from outside at one of its ports"));
        for s in p.windows(3) {
            ensure!(dir(&s[0], &s[1]) != dir(&s[2], &s[1]), "{}", why("turns back on itself"));
        }
        let mut seen = HashSet::new();
        for q in p {
            ensure!(seen.insert((q.x.to_bits(), q.y.to_bits())), "{}", why("comes to one point twice"));
        }
        cx.add("routes", 1);
        cx.add("route segments", (p.len() - 1) as u64);
        cx.max("route segments", (p.len() - 1) as u64);
        let long: f64 = p.windows(2).map(|s| len(&s[0], &s[1])).sum();
        if long > 65536.0 {
            cx.add("routes longer than 65536", 1);
        }
        cx.max("route length", long as u64);
        if a == b {
            cx.add("self relations", 1);
        } else if a.0 == b.0 {
            cx.add("relations within a table", 1);
        }
        if a.1.is_none() || b.1.is_none() {
            cx.add("relations of whole tables", 1);
        }
        cx.nontrivial(format!("{:?}", p).as_bytes());
    }
    cx.sample(|| format!("{} -> {:?}", show(m), edges.last().and_then(|e| e.path_points())));
    Ok(())
}
/// Direction of an axis-aligned line, y growing downwards.
pub fn dir(a: &Point, b: &Point) -> Orientation {
    if a.x == b.x {
        if b.y > a.y {
            Orientation::Down
        } else {
            Orientation::Up
        }
    } else if b.x > a.x {
        Orientation::Right
    } else {
        Orientation::Left
    }
}
fn c11(cx: &mut Ctx) -> Res {
    worlds(cx, c11_one)
}
pub const C11: Check = Check {
    id: "C11",
    level: "exploration",
    cases: |t: Tier| t.n(SMALL_GRIDS + 50000, SMALL_GRIDS + 300000),
    run: c11,
    rule: "one relation between every pair of ends in every grid of up to five tables with 0, 1 or 4 fields, and random diagrams of up to 24 tables and 40 relations, a quarter of them placed by hand in grids of other measures, some very tall or of very many tables; every route is examined; distinct by route",
    assumptions: &[],
    need: &[("diagrams placed by hand", 5000), ("routes", 60000), ("self relations", 1000), ("relations within a table", 3000), ("relations of whole tables", 10000)],
    exhaustive: false,
    workers: 8,
};

// ------------------------------------------------------------------ C12

fn c12_one(cx: &mut Ctx, w: &World) -> Res {
    let m = &w.model;
    let rects = rects_of(&w.doc)?;
    for (k, e) in w.doc.edges().enumerate() {
        // C11 is about routes that are missing
        let Some(p) = e.path_points() else { continue };
        for s in p.windows(2) {
            for r in &rects {
                ensure!(!enters(r, &s[0], &s[1]), "relation #{}: segment {:?} goes through the table at {:?}; route {:?}\n{}", k, s, r, p, show(m));
            }
            cx.add("segments", 1);
        }
        // how many tables stood in the way of a straight line
        let (a, b) = (p[0], p[p.len() - 1]);
        if rects.iter().filter(|r| r.intersects_line(&a, &b)).count() > 2 {
            cx.add("routes around a table in the way", 1);
        }
        cx.nontrivial(format!("{:?}", p).as_bytes());
    }
    cx.sample(|| show(m));
    Ok(())
}
fn c12(cx: &mut Ctx) -> Res {
    worlds(cx, c12_one)
}
pub const C12: Check = Check {
    id: "C12",
    level: "exploration",
    cases: |t: Tier| t.n(SMALL_GRIDS + 50000, SMALL_GRIDS + 300000),
    run: c12,
    rule: "every segment of every route against the interior of every table, in the diagrams of C11; distinct by route",
    assumptions: &["a relation without a route is C11's business"],
    need: &[("segments", 200000), ("routes around a table in the way", 2000)],
    exhaustive: false,
    workers: 8,
};

// ------------------------------------------------------------------ C13

#[derive(PartialEq)]
struct Q(f64, usize);
impl Eq for Q {}
impl Ord for Q {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        o.0.total_cmp(&self.0).then(o.1.cmp(&self.1))
    }
}
impl PartialOrd for Q {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
fn dijkstra(adj: &[Vec<(usize, f64)>], from: usize) -> Vec<f64> {
    let mut d = vec![f64::INFINITY; adj.len()];
    let mut q = BinaryHeap::new();
    d[from] = 0.0;
    q.push(Q(0.0, from));
    while let Some(Q(c, n)) = q.pop() {
        if c > d[n] {
            continue;
        }
        for (m, w) in &adj[n] {
            if c + w < d[*m] {
                d[*m] = c + w;
                q.push(Q(c + w, *m));
            }
        }
    }
    d
}
type Key = (u32, u32);
fn key(p: &Point) -> Key {
    // +0.0: no negative zero
    ((p.x + 0.0).to_bits(), (p.y + 0.0).to_bits())
}
fn len(a: &Point, b: &Point) -> f64 {
    ((b.x - a.x) as f64).hypot((b.y - a.y) as f64)
}
struct Net {
    at: HashMap<Key, usize>,
    pts: Vec<(Point, Option<Orientation>)>,
    adj: Vec<Vec<(usize, f64)>>,
}
impl Net {
    fn new() -> Net {
        Net { at: HashMap::new(), pts: vec![], adj: vec![] }
    }
    fn add(&mut self, p: Point, o: Option<Orientation>) -> usize {
        let n = self.pts.len();
        let k = *self.at.entry(key(&p)).or_insert(n);
        if k == n {
            self.pts.push((p, o));
            self.adj.push(vec![]);
        }
        k
    }
    fn link(&mut self, a: usize, b: usize) {
        let d = len(&self.pts[a].0, &self.pts[b].0);
        self.adj[a].push((b, d));
        self.adj[b].push((a, d));
    }
}
/// The network the engine exports.
fn exported(g: &RouteGraph) -> Net {
    let mut n = Net::new();
    for x in g.nodes() {
        n.add(*x.location(), x.orientation());
    }
    for e in g.edges() {
        let (Some(a), Some(b)) = (g.get_node(e.source_id()), g.get_node(e.target_id())) else { continue };
        let (a, b) = (n.at[&key(a.location())], n.at[&key(b.location())]);
        n.link(a, b);
    }
    n
}
/// The documented junctions, built from the places of tables and connection
/// points alone.
fn reference(doc: &Document, margin: f32) -> Result<Net, String> {
    let tables = rects_of(doc)?;
    let fat: Vec<[f32; 4]> = tables.iter().map(|r| [r.min_x() - margin, r.min_y() - margin, r.max_x() + margin, r.max_y() + margin]).collect();
    let mut pts: Vec<Point> = vec![];
    for f in &fat {
        pts.extend([Point::new(f[0], f[1]), Point::new(f[2], f[1]), Point::new(f[2], f[3]), Point::new(f[0], f[3])]);
    }
    let mut ports = vec![];
    let mut done = HashSet::new();
    for e in doc.edges() {
        for id in [e.source_id(), e.target_id()] {
            if !done.insert(id) {
                continue;
            }
            for p in node(doc, id)?.terminal_ports() {
                ports.push((*p.location(), p.orientation()));
            }
        }
    }
    for (p, o) in &ports {
        // sides of the margins this port's line meets, nearest first; another
        // table's margin ends it
        let vertical = matches!(o, Orientation::Up | Orientation::Down);
        let sign = if matches!(o, Orientation::Down | Orientation::Right) { 1.0 } else { -1.0 };
        let (along, across) = if vertical { (p.y, p.x) } else { (p.x, p.y) };
        let mut end = f32::INFINITY;
        let mut meets = vec![];
        for f in &fat {
            let (lo, hi, a0, a1) = if vertical { (f[0], f[2], f[1], f[3]) } else { (f[1], f[3], f[0], f[2]) };
            if across < lo || across > hi {
                continue;
            }
            let own = a0 < along && along < a1;
            let (near, far) = if sign > 0.0 { (a0 - along, a1 - along) } else { (along - a1, along - a0) };
            if own {
                meets.push(far);
            } else if near >= 0.0 {
                meets.push(near);
                end = end.min(near);
            }
        }
        for d in meets {
            if d <= end {
                let a = along + sign * d;
                pts.push(if vertical { Point::new(across, a) } else { Point::new(a, across) });
            }
        }
    }
    let mut n = Net::new();
    for p in pts {
        // not strictly inside a margin
        if !fat.iter().any(|f| p.x > f[0] && p.x < f[2] && p.y > f[1] && p.y < f[3]) {
            n.add(p, None);
        }
    }
    for (p, o) in ports {
        n.add(p, Some(o));
    }
    for a in 0..n.pts.len() {
        for b in a + 1..n.pts.len() {
            let ((p, po), (q, qo)) = (n.pts[a], n.pts[b]);
            if (p.x != q.x) == (p.y != q.y) {
                continue;
            }
            if po.map_or(true, |o| o == dir(&p, &q)) && qo.map_or(true, |o| o == dir(&q, &p)) && !tables.iter().any(|r| enters(r, &p, &q)) {
                n.link(a, b);
            }
        }
    }
    Ok(n)
}

fn c13_one(cx: &mut Ctx, w: &World) -> Res {
    let (m, me) = (&w.model, measure()?);
    let nets = [exported(w.engine.edge_route_graph()), reference(&w.doc, me.gx / 2.0)?];
    let mut memo: [HashMap<usize, Vec<f64>>; 2] = Default::default();
    for (k, e) in w.doc.edges().enumerate() {
        let Some(p) = e.path_points() else { continue };
        let real: f64 = p.windows(2).map(|s| len(&s[0], &s[1])).sum();
        // the cost of a segment is a whole number of units
        let slack = (p.len() - 1).max(nets[0].pts.iter().filter(|(q, _)| p.windows(2).any(|s| on(&s[0], &s[1], q))).count()) as f64;
        for (ni, net) in nets.iter().enumerate() {
            let mut best = (f64::INFINITY, Point::zero(), Point::zero());
            for s in node(&w.doc, e.source_id())?.terminal_ports() {
                let Some(a) = net.at.get(&key(s.location())).copied() else {
                    return Err(format!("connection point {:?} of relation #{} is not in the network\n{}", s.location(), k, show(m)));
                };
                let d = memo[ni].entry(a).or_insert_with(|| dijkstra(&net.adj, a));
                for t in node(&w.doc, e.target_id())?.terminal_ports() {
                    let Some(b) = net.at.get(&key(t.location())).copied() else { continue };
                    if a != b && d[b] < best.0 {
                        best = (d[b], *s.location(), *t.location());
                    }
                }
            }
            ensure!(
                real <= best.0 + slack + 1e-3 * real,
                "relation #{} is {} long; a route of {} from {:?} to {:?} exists in the {} network\nroute {:?}\n{}",
                k, real, best.0, best.1, best.2, ["exported", "documented"][ni], p, show(m)
            );
            if best.0.is_finite() {
                cx.add(["compared with the exported network", "compared with the documented junctions"][ni], 1);
            }
            if ni == 0 {
                let direct: f64 = (p[0].x - p[p.len() - 1].x).abs() as f64 + (p[0].y - p[p.len() - 1].y).abs() as f64;
                if real > direct + 1.0 {
                    cx.add("routes with a detour", 1);
                }
            }
        }
        cx.nontrivial(format!("{:?}", p).as_bytes());
    }
    cx.sample(|| show(m));
    Ok(())
}
/// Is q on the segment a-b?
pub fn on(a: &Point, b: &Point, q: &Point) -> bool {
    q.x >= a.x.min(b.x) && q.x <= a.x.max(b.x) && q.y >= a.y.min(b.y) && q.y <= a.y.max(b.y)
}
fn c13(cx: &mut Ctx) -> Res {
    worlds(cx, c13_one)
}
pub const C13: Check = Check {
    id: "C13",
    level: "exploration",
    cases: |t: Tier| t.n(SMALL_GRIDS + 18000, SMALL_GRIDS + 200000),
    run: c13,
    rule: "the length of every route compared with Dijkstra's optimum over all pairs of connection points, on the exported network and on an independently built network of the documented junctions; diagrams as in C11; distinct by route",
    assumptions: &["the margin is half the gap between columns", "one unit per segment is granted, since the engine counts whole units"],
    need: &[("compared with the exported network", 40000), ("compared with the documented junctions", 40000), ("routes with a detour", 4000)],
    exhaustive: false,
    workers: 8,
};

// ------------------------------------------------------------------ C15

fn places(doc: &Document) -> String {
    use std::fmt::Write;
    let mut o = String::new();
    for r in records(doc) {
        let n = doc.get_node(r).unwrap();
        writeln!(o, "{:?}", n.rect()).unwrap();
        for k in n.children() {
            writeln!(o, " {:?}", doc.get_node(k).and_then(|n| n.rect())).unwrap();
        }
    }
    for e in doc.edges() {
        writeln!(o, "{:?}", e.path_points()).unwrap();
    }
    o
}
fn network(g: &RouteGraph) -> String {
    format!("{:?} {:?}", g.nodes().collect::<Vec<_>>(), g.edges().collect::<Vec<_>>())
}

/// A document that grows between layouts, against one that is laid out only in
/// the end.
fn c15_grown(cx: &mut Ctx) -> Res {
    enum Op {
        Table,
        Row(usize),
        Edge(usize, usize),
        Step(usize),
    }
    let mut ops = vec![];
    let (mut tables, mut nodes) = (0, 0);
    let parts = cx.rng.range(2, 40);
    let few = cx.rng.chance(1, 2);
    for _ in 0..parts {
        match cx.rng.below(10) {
            0..=2 if tables == 0 || !few || tables < 4 => {
                ops.push(Op::Table);
                tables += 1;
                nodes += 2;
            }
            3..=5 if tables > 0 => {
                ops.push(Op::Row(cx.rng.below(tables)));
                nodes += 1;
            }
            6..=7 if nodes > 0 => ops.push(Op::Edge(cx.rng.below(nodes), cx.rng.below(nodes))),
            _ => {
                // all of it, or a part
                let to = if cx.rng.chance(1, 2) { 3 } else { cx.rng.range(1, 3) };
                ops.extend((0..to).map(Op::Step));
            }
        }
    }
    let mut eng = SimpleLayoutEngine::new();
    let mut layouts = 0;
    let mut build = |between: bool| -> Result<(Document, Vec<NodeId>), String> {
        let mut doc = Document::new();
        let (mut recs, mut all) = (vec![], vec![]);
        for (k, op) in ops.iter().enumerate() {
            match op {
                Op::Table => {
                    let (r, h) = (doc.create_record(RecordShape::default()), doc.create_field(FieldShape::default()));
                    doc.get_node_mut(r).ok_or("table lost")?.append_child(h);
                    doc.body_mut().append_child(r);
                    recs.push(r);
                    all.extend([r, h]);
                }
                Op::Row(t) => {
                    let f = doc.create_field(FieldShape::default());
                    doc.get_node_mut(recs[*t]).ok_or("table lost")?.append_child(f);
                    all.push(f);
                }
                Op::Edge(a, b) => {
                    doc.add_edge(EdgeData::new(all[*a], all[*b], None));
                }
                Op::Step(s) if between => {
                    let e = &mut eng;
                    guard(|| match s {
                        0 => {
                            e.place_nodes(&mut doc);
                        }
                        1 => e.place_terminal_ports(&mut doc),
                        _ => e.draw_edge_path(&mut doc),
                    })
                    .map_err(|p| format!("step {} after {} operations panicked: {}\n{}", s, k, p, dump(&doc)))?;
                    layouts += 1;
                }
                Op::Step(_) => {}
            }
        }
        Ok((doc, all))
    };
    let (mut a, ids) = build(true)?;
    let (mut b, _) = build(false)?;
    let va = guard(|| layout(&mut eng, &mut a)).map_err(|p| format!("laying out a changed document again panicked: {}\n{}", p, dump(&a)))?;
    let mut other = SimpleLayoutEngine::new();
    let vb = guard(|| layout(&mut other, &mut b)).map_err(|p| format!("layout panicked: {}\n{}", p, dump(&b)))?;
    let (da, db) = (dump(&a), dump(&b));
    ensure!(va == vb && da == db, "a document laid out before it was complete is laid out differently: {:?} {:?}\nbefore and after: {}\nafter only: {}", va, vb, brief(&da), brief(&db));
    ensure!(network(eng.edge_route_graph()) == network(other.edge_route_graph()), "a document laid out before it was complete has another network\n{}", brief(&da));
    ensure!(ids.is_empty() || render(&a, va)? == render(&b, vb)?, "drawings differ\n{}", brief(&da));
    cx.add("documents changed and laid out again", u64::from(layouts > 0));
    cx.add("layout steps of unfinished documents", layouts);
    if layouts > 0 {
        cx.nontrivial(da.as_bytes());
    }
    Ok(())
}

/// One engine used for hundreds of documents, some of them again and again.
fn c15_long(cx: &mut Ctx) -> Res {
    let n = *cx.rng.pick(&[140, 270, 520, 1030]);
    let mut eng = SimpleLayoutEngine::new();
    let kept = routed(&mut cx.rng);
    let mut old = kept.to_api().into_mir();
    let mut was = None;
    for k in 0..n {
        let s = Shape { defs: (1, 5), fields: (0, 3), rels: (0, 2), ..ROUTED };
        let m = module(&mut cx.rng, &s);
        let what = || format!("document #{} laid out with one engine\n{}", k, show(&m));
        let fresh = world(&m)?;
        let mut doc = m.to_api().into_mir();
        let vb = guard(|| layout(&mut eng, &mut doc)).map_err(|p| format!("panicked: {}: {}", p, what()))?;
        ensure!(vb == fresh.view_box && dump(&doc) == dump(&fresh.doc), "laid out differently than with a fresh engine: {}\nused: {}\nfresh: {}", what(), brief(&dump(&doc)), brief(&dump(&fresh.doc)));
        ensure!(network(eng.edge_route_graph()) == network(fresh.engine.edge_route_graph()), "another network than with a fresh engine: {}", what());
        if k % 2 == 0 {
            let vb = guard(|| layout(&mut eng, &mut old)).map_err(|p| format!("laying out for the {}th time panicked: {}\n{}", k / 2 + 1, p, show(&kept)))?;
            let now = (vb, dump(&old));
            ensure!(*was.get_or_insert_with(|| now.clone()) == now, "laid out for the {}th time, it changed\n{}", k / 2 + 1, show(&kept));
        }
        cx.add("documents in long histories of an engine", 1);
    }
    cx.max("documents laid out with one engine", n as u64);
    cx.nontrivial(dump(&old).as_bytes());
    Ok(())
}

fn c15(cx: &mut Ctx) -> Res {
    if cx.idx % 4 == 1 {
        return c15_grown(cx);
    }
    if cx.idx % 150 == 0 {
        return c15_long(cx);
    }
    let n = cx.rng.range(2, 6);
    let mut models: Vec<RModule> = (0..n)
        .map(|_| match cx.rng.below(5) {
            0 => tall(&mut cx.rng, false),
            _ => routed_or_huge(&mut cx.rng),
        })
        .collect();
    if cx.rng.chance(1, 3) {
        let k = cx.rng.below(n);
        let m = models[k].clone();
        models.push(m);
    }
    let mut eng = SimpleLayoutEngine::new();
    let mut done: Vec<(usize, Document, String)> = vec![];
    let interleave = cx.rng.chance(1, 4);
    let hist = |k: usize| format!("document #{} of\n{}", k, models.iter().map(show).collect::<Vec<_>>().join("\n"));
    if interleave {
        // the steps of several documents, mixed
        let mut docs: Vec<(Document, usize, Option<Rect>)> = models.iter().map(|m| (m.to_api().into_mir(), 0, None)).collect();
        let mut left = 3 * docs.len();
        while left > 0 {
            let k = cx.rng.below(docs.len());
            let (doc, step, vb) = &mut docs[k];
            let e = &mut eng;
            guard(|| match *step {
                0 => *vb = e.place_nodes(doc),
                1 => e.place_terminal_ports(doc),
                2 => e.draw_edge_path(doc),
                _ => {}
            })
            .map_err(|p| format!("layout panicked: {}\n{}", p, hist(k)))?;
            if *step < 3 {
                *step += 1;
                left -= 1;
            }
        }
        for (k, (doc, _, vb)) in docs.into_iter().enumerate() {
            let f = world(&models[k])?;
            ensure!(dump(&doc) == dump(&f.doc) && vb == f.view_box, "mixed steps changed the layout of {}", hist(k));
            cx.add("documents laid out in mixed steps", 1);
        }
        cx.nontrivial(hist(0).as_bytes());
        return Ok(());
    }
    for k in 0..models.len() {
        let m = &models[k];
        let fresh = world(m)?;
        let mut doc = m.to_api().into_mir();
        let e = &mut eng;
        let vb = guard(|| layout(e, &mut doc)).map_err(|p| format!("layout with a used engine panicked: {}\n{}", p, hist(k)))?;
        let (a, b) = (dump(&doc), dump(&fresh.doc));
        ensure!(a == b, "a used engine lays out differently: {}\nused: {}\nfresh: {}", hist(k), brief(&a), brief(&b));
        ensure!(vb == fresh.view_box, "a used engine gives view box {:?}, a fresh one {:?}: {}", vb, fresh.view_box, hist(k));
        ensure!(
            network(eng.edge_route_graph()) == network(fresh.engine.edge_route_graph()),
            "a used engine keeps another network: {}",
            hist(k)
        );
        ensure!(render(&doc, vb)? == render(&fresh.doc, fresh.view_box)?, "drawings differ: {}", hist(k));
        cx.add("documents laid out with a used engine", u64::from(k > 0));
        if cx.rng.chance(1, 3) {
            // the same document again, with this or another engine
            let before = (places(&doc), render(&doc, vb)?);
            let mut other = SimpleLayoutEngine::new();
            let own = cx.rng.chance(1, 2);
            let e = if own { &mut eng } else { &mut other };
            let vb2 = guard(|| match k % 2 {
                0 => layout(e, &mut doc),
                _ => {
                    let v = e.place_nodes(&mut doc);
                    e.draw_edge_path(&mut doc);
                    v
                }
            })
            .map_err(|p| format!("laying out again panicked: {}\n{}", p, hist(k)))?;
            ensure!(vb == vb2 && before == (places(&doc), render(&doc, vb2)?), "laying out again changed {}", hist(k));
            ensure!(dump(&doc) == a, "laying out again left something else than laying out once: {}\nonce: {}\nagain: {}", hist(k), brief(&a), brief(&dump(&doc)));
            cx.add("documents laid out again", 1);
        }
        let was = dump(&doc);
        done.push((k, doc, was));
        for (j, d, was) in &done {
            if *j < k {
                ensure!(dump(d) == *was, "laying out document #{} changed #{}: {}", k, j, hist(k));
            }
        }
        cx.nontrivial(a.as_bytes());
    }
    cx.sample(|| hist(0));
    Ok(())
}
pub const C15: Check = Check {
    id: "C15",
    level: "exploration",
    cases: |t: Tier| t.n(10000, 80000),
    run: c15,
    rule: "histories of 2 to 7 documents laid out with one engine, one after the other or with their steps mixed, each compared with a fresh engine's layout; some laid out again; documents that grow between layouts or parts of one, against the same laid out only when complete; histories of 140 to 1030 small documents, one of them laid out up to 515 times; distinct by document",
    assumptions: &[],
    need: &[("documents laid out with a used engine", 4000), ("documents laid out again", 1000), ("documents laid out in mixed steps", 800), ("documents changed and laid out again", 1500), ("documents in long histories of an engine", 10000)],
    exhaustive: false,
    workers: 8,
};

// ------------------------------------------------------------------ C16

fn c16_net(cx: &mut Ctx, w: &World) -> Res {
    let m = &w.model;
    let g = w.engine.edge_route_graph();
    let tables = rects_of(&w.doc)?;
    let mut at: HashMap<Key, usize> = HashMap::new();
    let mut cols: HashMap<u32, Vec<usize>> = HashMap::new();
    let mut rows: HashMap<u32, Vec<usize>> = HashMap::new();
    let nodes: Vec<_> = g.nodes().collect();
    ensure!(g.node_ids().len() == nodes.len(), "{} junctions, {} identifiers", nodes.len(), g.node_ids().len());
    for (i, id) in g.node_ids().enumerate() {
        let n = g.get_node(id).ok_or("identifier without junction")?;
        for o in [Orientation::Up, Orientation::Down, Orientation::Left, Orientation::Right] {
            ensure!(n.is_connectable(o) == n.orientation().map_or(true, |x| x == o), "junction {:?} answers wrongly whether links may leave it {:?}\n{}", n, o, show(m));
        }
        let k = key(n.location());
        if let Some(j) = at.insert(k, i) {
            return Err(format!("junctions #{} and #{} are both at {:?}\n{}", j, i, n.location(), show(m)));
        }
        cols.entry(k.0).or_default().push(i);
        rows.entry(k.1).or_default().push(i);
    }
    // connection points of all ends are there, facing as they do
    for e in w.doc.edges() {
        for id in [e.source_id(), e.target_id()] {
            for p in node(&w.doc, id)?.terminal_ports() {
                let n = g.get_terminal_port(p.id()).and_then(|n| g.get_node(n)).ok_or_else(|| format!("connection point {:?} is not in the network\n{}", p, show(m)))?;
                ensure!(n.location() == p.location() && n.orientation() == Some(p.orientation()), "connection point {:?} is {:?} in the network\n{}", p, n, show(m));
            }
        }
    }
    let mut seen = HashSet::new();
    for e in g.edges() {
        let (Some(a), Some(b)) = (g.get_node(e.source_id()), g.get_node(e.target_id())) else {
            return Err(format!("link {:?} has no ends\n{}", e, show(m)));
        };
        let (p, q) = (a.location(), b.location());
        let (i, j) = (at[&key(p)], at[&key(q)]);
        let why = |s: &str| format!("link {:?} - {:?} {}\n{}", p, q, s, show(m));
        ensure!(i != j, "{}", why("joins a junction to itself"));
        ensure!((p.x == q.x) != (p.y == q.y), "{}", why("is slanted"));
        ensure!(seen.insert((i.min(j), i.max(j))), "{}", why("appears twice"));
        for (n, d) in [(a, dir(p, q)), (b, dir(q, p))] {
            ensure!(n.orientation().map_or(true, |o| o == d), "{}", why("leaves a connection point inwards or sideways"));
        }
        for t in &tables {
            ensure!(!enters(t, p, q), "{}", why(&format!("goes through the table at {:?}", t)));
        }
        let line = if p.x == q.x { &cols[&key(p).0] } else { &rows[&key(p).1] };
        for k in line {
            let n = nodes[*k];
            if *k != i && *k != j && on(p, q, n.location()) && n.orientation().is_none() {
                return Err(why(&format!("jumps over the junction at {:?}", n.location())));
            }
        }
        cx.add("links", 1);
    }
    cx.add("junctions", nodes.len() as u64);
    cx.max("junctions", nodes.len() as u64);
    cx.nontrivial(network(g).as_bytes());
    Ok(())
}

fn c16_api(cx: &mut Ctx) -> Res {
    // ports come from a laid-out document, points from a small grid of places
    let w = world(&grid(&[2, 1, 3, 0], vec![]))?;
    let mut ports = vec![];
    for r in records(&w.doc) {
        for id in std::iter::once(r).chain(node(&w.doc, r)?.children()) {
            ports.extend(node(&w.doc, id)?.terminal_ports().cloned());
        }
    }
    if cx.rng.chance(1, 3) {
        // the same ports at other places, as when a document is laid out again
        for t in ports.clone() {
            let p = Point::new(t.location().x + 2000.5, t.location().y + 0.5);
            ports.push(TerminalPort::new(t.id(), p, t.orientation()));
        }
    }
    let mut g = RouteGraph::new();
    let mut ids = vec![];
    let mut model: Vec<(Point, Option<Orientation>)> = vec![];
    let mut links: HashSet<(usize, usize)> = HashSet::new();
    let mut added: HashMap<TerminalPortId, usize> = HashMap::new();
    let mut log = vec![];
    let side = cx.rng.range(1, 6);
    // how far apart places are: from next to nothing to very far
    let (dx, dy) = *cx.rng.pick(&[(10.0f32, 7.5f32), (10.0, 7.5), (0.25, 0.5), (0.001, 0.25), (1.0, 1.0), (0.125, 3000.0), (1e6, 0.5), (1e-6, 1e-6)]);
    let base = *cx.rng.pick(&[(0.0f32, 0.0f32), (-100.0, -900.0), (-0.5, -70.25)]);
    let most = if cx.rng.chance(1, 30) { 1500 } else { 120 };
    if cx.rng.chance(1, 150) {
        // a network that is large to begin with
        let n = *cx.rng.pick(&[270usize, 1030, 2060, 4110]);
        log.push(format!("{} junctions", n));
        for i in 0..n {
            let p = Point::new(base.0 + (i % 30) as f32 * dx, base.1 + (i / 30) as f32 * dy);
            if ports.iter().any(|t| *t.location() == p) {
                continue;
            }
            let id = g.add_node(p);
            match model.iter().position(|(q, _)| *q == p) {
                Some(k) => ensure!(ids[k] == id, "a place got two junctions: #{} at {:?}", i, p),
                None => {
                    ids.push(id);
                    model.push((p, None));
                }
            }
        }
        cx.add("large networks", 1);
    }
    for _ in 0..cx.rng.range(1, most) {
        match cx.rng.below(4) {
            0 => {
                let side = if most > 1000 || model.len() > 200 { 30 } else { side };
                let mut p = Point::new(base.0 + cx.rng.below(side) as f32 * dx, base.1 + cx.rng.below(side) as f32 * dy);
                // there are two zeros, and they are the same place
                for v in [&mut p.x, &mut p.y] {
                    if *v == 0.0 && cx.rng.chance(1, 2) {
                        *v = -0.0;
                    }
                }
                if ports.iter().any(|t| *t.location() == p) {
                    // one place cannot be a port and a plain junction
                    continue;
                }
                log.push(format!("add_node {:?}", p));
                let id = g.add_node(p);
                match model.iter().position(|(q, _)| *q == p) {
                    Some(k) => ensure!(ids[k] == id, "a place got two junctions: {:?}", log),
                    None => {
                        ensure!(!ids.contains(&id), "two places got one junction: {:?}", log);
                        ids.push(id);
                        model.push((p, None));
                    }
                }
            }
            1 => {
                let k = cx.rng.below(ports.len());
                let t = &ports[k];
                log.push(format!("add_terminal_port {:?}", t));
                let id = g.add_terminal_port(t);
                match model.iter().position(|(q, _)| q == t.location()) {
                    Some(k) => ensure!(ids[k] == id, "a place got two junctions: {:?}", log),
                    None => {
                        ensure!(!ids.contains(&id), "two places got one junction: {:?}", log);
                        ids.push(id);
                        model.push((*t.location(), Some(t.orientation())));
                    }
                }
                added.insert(t.id(), ids.iter().position(|x| *x == id).unwrap());
            }
            _ => {
                if ids.len() < 2 {
                    continue;
                }
                let a = cx.rng.below(ids.len());
                let b = (a + 1 + cx.rng.below(ids.len() - 1)) % ids.len();
                log.push(format!("add_edge {} {}", a, b));
                g.add_edge(ids[a], ids[b]);
                links.insert((a.min(b), a.max(b)));
            }
        }
    }
    ensure!(g.node_ids().collect::<Vec<_>>() == ids, "junctions are {:?}, not {:?}: {:?}", g.node_ids().collect::<Vec<_>>(), ids, log);
    for (k, (id, (p, o))) in ids.iter().zip(&model).enumerate() {
        let n = g.get_node(*id).ok_or("junction lost")?;
        ensure!(n.location() == p && n.orientation() == *o, "junction #{} became {:?}: {:?}", k, n, log);
    }
    let mut got = HashSet::new();
    for e in g.edges() {
        let a = ids.iter().position(|x| *x == e.source_id()).ok_or("link to nowhere")?;
        let b = ids.iter().position(|x| *x == e.target_id()).ok_or("link to nowhere")?;
        ensure!(got.insert((a.min(b), a.max(b))), "link {} - {} appears twice: {:?}", a, b, log);
    }
    ensure!(got == links, "links are {:?}, not {:?}: {:?}", got, links, log);
    for t in &ports {
        let want = added.get(&t.id()).map(|i| ids[*i]);
        ensure!(g.get_terminal_port(t.id()) == want, "lookup of {:?} gives {:?}, not {:?}: {:?}", t, g.get_terminal_port(t.id()), want, log);
    }
    cx.add("network operations", log.len() as u64);
    cx.nontrivial(format!("{:?}", log).as_bytes());
    Ok(())
}
fn c16(cx: &mut Ctx) -> Res {
    if cx.idx >= SMALL_GRIDS && cx.idx % 3 == 0 {
        return c16_api(cx);
    }
    worlds(cx, c16_net)
}
pub const C16: Check = Check {
    id: "C16",
    level: "exploration",
    cases: |t: Tier| t.n(SMALL_GRIDS + 27000, SMALL_GRIDS + 200000),
    run: c16,
    rule: "every junction and link of the exported networks of C11's diagrams; random sequences of network operations against a set model; distinct by network or history",
    assumptions: &["adding a plain junction where a connection point is, or a link from a junction to itself, is outside the API's contract"],
    need: &[("links", 500000), ("junctions", 300000), ("network operations", 50000)],
    exhaustive: false,
    workers: 8,
};
