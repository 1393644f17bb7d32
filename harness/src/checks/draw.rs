//! C14, C17 - C21, C32: what the renderer writes.
use super::layout::{dir, routed, routed_or_huge};
use super::model::{field_shape, record_shape};
use crate::gen::*;
use crate::pipe::*;
use crate::refl::*;
use crate::rng::Rng;
use crate::xml::{self, El};
use crate::{ensure, Check, Ctx, Res, Tier};
use seiren::error::BackendError;
use seiren::geometry::{Point, Rect, Size};
use seiren::layout::{LayoutEngine, RouteGraph, SimpleLayoutEngine};
use seiren::mir::{Document, EdgeData, FieldShape, NodeId, ShapeKind};
use seiren::renderer::{Renderer, SVGRenderer};
use std::io::{self, Write};

type R<A> = Result<A, String>;

pub fn num(e: &El, k: &str) -> R<f64> {
    let v = e.get(k).ok_or_else(|| format!("<{}> has no {}: {:?}", e.name, k, e.attrs))?;
    let x: f64 = v.trim().parse().map_err(|_| format!("{}={:?} of <{}> is no number", k, v, e.name))?;
    ensure!(x.is_finite(), "{}={:?} of <{}> is not finite", k, v, e.name);
    Ok(x)
}
pub fn near(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-3 + 1e-6 * a.abs().max(b.abs())
}
/// The text of an element, without the line breaks the writer puts around it.
pub fn text_of(e: &El) -> String {
    let t = e.text();
    let t = t.strip_prefix('\n').unwrap_or(&t);
    t.strip_suffix('\n').unwrap_or(t).to_string()
}
fn same_text(e: &El, want: &str) -> bool {
    let w: String = want.chars().map(|c| if xml::xml_char(c) { c } else { '\u{fffd}' }).collect();
    text_of(e) == w || e.text() == w
}

/// Strictly read a drawing.
pub fn read(svg: &str) -> R<El> {
    let root = xml::parse(svg).map_err(|e| format!("the output is not well-formed: {}", e))?;
    ensure!(root.name == "svg", "the root element is <{}>", root.name);
    ensure!(root.get("xmlns") == Some("http://www.w3.org/2000/svg"), "the root element is not in the SVG namespace: {:?}", root.attrs);
    Ok(root)
}

// --------------------------------------------------- documents to draw

/// A fully laid-out document with everything chosen freely.
pub fn free_document(r: &mut Rng) -> Document {
    let mut doc = Document::new();
    let n = r.range(0, 5);
    let mut ids = vec![];
    // rows often share a size, as they do in real diagrams
    let (w0, h0) = (r.range(800, 2400) as f32 / 4.0, r.range(100, 200) as f32 / 4.0);
    let same = r.chance(1, 2);
    // something that is no table may stand among them
    let stray = r.chance(1, 8);
    for _ in 0..n {
        if stray && r.chance(1, 2) {
            let f = doc.create_field(field_shape(r));
            doc.body_mut().append_child(f);
        }
        let at = |r: &mut Rng| r.range(0, 8000) as f32 / 4.0 - 500.0;
        let (x, y) = (at(r), at(r));
        let rec = doc.create_record(record_shape(r));
        let rows = r.range(0, 5);
        // rows may stand apart, overlap, or go upwards; the first may stand
        // anywhere
        let odd = r.chance(1, 6);
        let slack = if odd { r.range(0, 400) as f32 / 4.0 - 80.0 } else { 0.0 };
        let mut yy = if odd { y + r.range(0, 200) as f32 / 4.0 - 25.0 } else { y };
        for _ in 0..rows {
            let (w, h) = if same { (w0, h0) } else { (r.range(800, 2400) as f32 / 4.0, r.range(100, 200) as f32 / 4.0) };
            let f = doc.create_field(field_shape(r));
            let fx = if same { x } else { x + r.below(9) as f32 - 4.0 };
            let nd = doc.get_node_mut(f).unwrap();
            nd.origin = Some(Point::new(fx, yy));
            nd.size = Some(Size::new(w, h));
            yy += h + slack;
            doc.get_node_mut(rec).unwrap().append_child(f);
            ids.push(f);
        }
        let nd = doc.get_node_mut(rec).unwrap();
        nd.origin = Some(Point::new(x, y));
        // rows need not fill their table, nor stay within it
        let more = if r.chance(1, 6) { r.range(0, 200) as f32 / 4.0 - 20.0 } else { 0.0 };
        nd.size = Some(Size::new(w0, (yy - y + more).max(1.0)));
        doc.body_mut().append_child(rec);
        ids.push(rec);
    }
    if !ids.is_empty() {
        for _ in 0..r.below(5) {
            let (a, b) = (*r.pick(&ids), *r.pick(&ids));
            let p = free_route(r);
            doc.add_edge(EdgeData::new(a, b, Some(p)));
        }
    }
    doc
}
/// A route of horizontal and vertical lines that never turns back.
pub fn free_route(r: &mut Rng) -> Vec<Point> {
    // some at places that are no round numbers
    let off = *r.pick(&[0.0f32, 0.0, 0.0, 1.0 / 3.0, 0.0625, 0.007]);
    let mut p = Point::new(r.range(0, 4000) as f32 / 4.0 + off, r.range(0, 4000) as f32 / 4.0 + off);
    let mut v = vec![p];
    let mut last: Option<usize> = None;
    let short = r.chance(1, 2);
    let n = if r.chance(1, 60) { r.range(20, 700) } else { r.range(1, 9) };
    for _ in 0..n {
        // 0 up 1 right 2 down 3 left
        let d = match last {
            None => r.below(4),
            Some(l) => (l + [0, 1, 3][r.below(3)]) % 4,
        };
        let l = if short {
            *r.pick(&[0.25f32, 0.5, 1.0, 2.5, 3.0, 5.75, 6.0, 6.25, 9.0, 11.5, 12.0, 12.5, 20.0])
        } else {
            r.range(40, 2000) as f32 / 4.0
        };
        let (dx, dy) = [(0.0, -l), (l, 0.0), (0.0, l), (-l, 0.0)][d];
        p = Point::new(p.x + dx, p.y + dy);
        v.push(p);
        last = Some(d);
    }
    v
}
/// Sizes of the large documents, and what there is much of in each.
pub const MUCH: [usize; 4] = [260, 1030, 4100, 66_000];
pub const KINDS_OF_MUCH: usize = 4;
/// A document built freely with `n` tables, rows, relations or route points.
pub fn vast(r: &mut Rng, kind: usize, n: usize) -> Document {
    let mut doc = Document::new();
    let table = |doc: &mut Document, r: &mut Rng, i: usize, rows: usize| {
        let (x, y, w, h) = ((i % 40) as f32 * 400.0 - 900.0, (i / 40) as f32 * 120.0, 300.0 + (i % 3) as f32, 35.0);
        let rec = doc.create_record(record_shape(r));
        let mut ids = vec![rec];
        for j in 0..rows {
            let mut s = field_shape(r);
            s.title.text = format!("row {} of {}", j, i);
            let f = doc.create_field(s);
            let nd = doc.get_node_mut(f).unwrap();
            nd.origin = Some(Point::new(x, y + j as f32 * h));
            nd.size = Some(Size::new(w, h));
            doc.get_node_mut(rec).unwrap().append_child(f);
            ids.push(f);
        }
        let nd = doc.get_node_mut(rec).unwrap();
        nd.origin = Some(Point::new(x, y));
        nd.size = Some(Size::new(w, h * rows.max(1) as f32));
        doc.body_mut().append_child(rec);
        ids
    };
    let mut ids = vec![];
    match kind {
        0 => (0..n).for_each(|i| ids.extend(table(&mut doc, r, i, i % 2 + usize::from(i % 7 == 0)))),
        1 => (0..3).for_each(|i| ids.extend(table(&mut doc, r, i * 40, [2, n, 1][i]))),
        _ => (0..4).for_each(|i| ids.extend(table(&mut doc, r, i, 2))),
    }
    let rels = if kind == 2 { n } else { 3 };
    for k in 0..rels {
        let p = match kind {
            3 if k == 1 => (0..n).map(|i| Point::new((i / 2) as f32 * 6.0, ((i + 1) / 2) as f32 * [6.0, 12.5][i % 2])).scan(0.0f32, |y, p| {
                *y = y.max(p.y);
                Some(Point::new(p.x, *y))
            }).collect(),
            _ => loop {
                let p = free_route(r);
                if p.len() < 12 {
                    break p;
                }
            },
        };
        doc.add_edge(EdgeData::new(*r.pick(&ids), *r.pick(&ids), Some(p)));
    }
    doc
}
/// The large document of a case, if it is one of the first.
fn vast_of(cx: &mut Ctx, sizes: usize) -> Option<Document> {
    if cx.idx >= sizes * KINDS_OF_MUCH {
        return None;
    }
    let (kind, n) = (cx.idx % KINDS_OF_MUCH, MUCH[cx.idx / KINDS_OF_MUCH]);
    cx.add("documents with 260 to 66 000 of something", 1);
    cx.max("tables, rows, relations or route points", n as u64);
    Some(vast(&mut cx.rng, kind, n))
}
/// A module that is large in one way, without relations.
pub fn bulky(r: &mut Rng) -> RModule {
    let mut m = big_module(r, false);
    m.entries.retain(|e| matches!(e, REntry::Def(..)));
    // laying out takes time
    m.entries.truncate(200);
    m
}
/// A module's document, laid out; names of any kind.
fn from_module(r: &mut Rng) -> R<(World, String)> {
    let m = if r.chance(1, 300) {
        bulky(r)
    } else if r.chance(1, 2) {
        routed_or_huge(r)
    } else {
        module(r, &Shape { defs: (0, 7), fields: (0, 6), rels: (0, 8), names: 1, unique: false, dangling: true, ordered: false })
    };
    let w = world(&m)?;
    let s = show(&m);
    Ok((w, s))
}
pub fn draw(doc: &Document, vb: Option<Rect>, net: Option<&RouteGraph>) -> R<String> {
    guard(|| {
        let mut r = SVGRenderer::new();
        r.view_box = vb;
        r.edge_route_graph = net;
        let mut out = vec![];
        r.render(doc, &mut out).map_err(|e| format!("rendering a laid-out document failed: {:?}", e))?;
        String::from_utf8(out).map_err(|e| format!("output is not UTF-8: {}", e))
    })
    .map_err(|p| format!("rendering panicked: {}", p))?
}

// --------------------------------------------------------------- C18

struct Els<'a> {
    v: Vec<&'a El>,
    i: usize,
}
impl<'a> Els<'a> {
    fn next(&mut self, name: &str, what: &str) -> R<&'a El> {
        let e = self.v.get(self.i).ok_or_else(|| format!("the drawing ends where {} should be", what))?;
        ensure!(e.name == name, "element #{} is <{}> {:?}, not the <{}> of {}", self.i, e.name, e.attrs, name, what);
        self.i += 1;
        Ok(e)
    }
}
fn want_rect(e: &El, r: &Rect, what: &str) -> Res {
    let got = (num(e, "x")?, num(e, "y")?, num(e, "width")?, num(e, "height")?);
    let ok = near(got.0, r.min_x() as f64) && near(got.1, r.min_y() as f64) && near(got.2, r.width() as f64) && near(got.3, r.height() as f64);
    ensure!(ok, "{} is drawn at {:?}, its place is {:?}", what, got, r);
    Ok(())
}
fn want_attr(e: &El, k: &str, want: Option<String>, what: &str) -> Res {
    ensure!(e.get(k).map(|s| s.to_string()) == want, "{} of {} is {:?}, not {:?}", k, what, e.get(k), want);
    Ok(())
}
fn rounded(e: &El, what: &str) -> R<f64> {
    let r = num(e, "rx").or_else(|_| num(e, "ry"))?;
    ensure!(r > 0.0 && near(e.get("ry").map_or(Ok(r), |_| num(e, "ry"))?, r), "{} has no even rounded corners: {:?}", what, e.attrs);
    Ok(r)
}
/// The word of CSS for a variant's name: XXSmall is xx-small.
fn css(variant: &str) -> String {
    let cs: Vec<char> = variant.chars().collect();
    let mut w = String::new();
    for (i, c) in cs.iter().enumerate() {
        let next = cs.get(i + 1).map_or(false, |n| n.is_lowercase());
        if i > 0 && c.is_uppercase() && next {
            w.push('-');
        }
        w.push(c.to_ascii_lowercase());
    }
    w
}
fn want_text(e: &El, s: &seiren::mir::TextSpan, row: &Rect, anchor: &str, what: &str) -> R<f64> {
    ensure!(same_text(e, &s.text), "{} reads {:?}, not {:?}", what, text_of(e), s.text);
    ensure!(e.els().next().is_none(), "{} contains elements", what);
    let (x, y) = (num(e, "x")?, num(e, "y")?);
    let mid = row.min_y() as f64 + row.height() as f64 / 2.0;
    ensure!(near(y, mid), "{} is at height {}, the middle of its row is {}", what, y, mid);
    ensure!(matches!(e.get("dominant-baseline"), Some("middle" | "central")), "{} is not vertically centred: {:?}", what, e.attrs);
    ensure!(x > row.min_x() as f64 && x < row.max_x() as f64, "{} at x {} is outside its row {:?}", what, x, row);
    ensure!(e.get("text-anchor").unwrap_or("start") == anchor, "{} is anchored {:?}, not {:?}", what, e.get("text-anchor"), anchor);
    want_attr(e, "fill", s.color.as_ref().map(|c| c.to_string()), what)?;
    want_attr(e, "font-weight", s.font_weight.map(|c| css(&format!("{:?}", c))), what)?;
    want_attr(e, "font-size", s.font_size.map(|c| css(&format!("{:?}", c))), what)?;
    let family = s.font_family.map(|c| c.to_string());
    want_attr(e, "font-family", family.clone(), what)?;
    if let (Some(c), Some(f)) = (s.font_family, family) {
        let last = f.rsplit(',').next().unwrap_or("").trim();
        let generic = css(format!("{:?}", c).trim_end_matches(char::is_numeric));
        ensure!(last.replace('-', "") == generic.replace('-', ""), "{} is to be in {:?}, it is in {:?}", what, c, f);
    }
    Ok(x)
}

/// Compare everything but the relations with the document. Returns the
/// elements of the relations and what follows.
pub fn tables<'a>(root: &'a El, doc: &Document, vb: Option<Rect>, cx: &mut Ctx) -> R<Vec<&'a El>> {
    match (root.get("viewBox"), vb) {
        (None, None) => {}
        (Some(s), Some(v)) => {
            let n: Vec<f64> = s.split(|c: char| c == ',' || c.is_whitespace()).filter(|x| !x.is_empty()).map(|x| x.parse().unwrap_or(f64::NAN)).collect();
            let ok = n.len() == 4 && near(n[0], v.min_x() as f64) && near(n[1], v.min_y() as f64) && near(n[2], v.width() as f64) && near(n[3], v.height() as f64);
            ensure!(ok, "viewBox is {:?}, not {:?}", s, v);
        }
        (g, v) => return Err(format!("viewBox is {:?}, expected {:?}", g, v)),
    }
    ensure!(root.text().trim().is_empty() || root.els().next().is_some(), "stray text");
    for k in &root.kids {
        if let xml::Node::Text(t) = k {
            ensure!(t.trim().is_empty(), "stray text {:?} between elements", t);
        }
    }
    let mut it = Els { v: root.els().collect(), i: 0 };
    let bg = it.next("rect", "the background")?;
    ensure!(bg.get("width") == Some("100%") && bg.get("height") == Some("100%"), "the background does not fill the picture: {:?}", bg.attrs);
    let defs = it.next("defs", "the clip shapes")?;
    let recs = records(doc);
    let clips: Vec<&El> = defs.els().collect();
    ensure!(clips.len() == recs.len(), "{} clip shapes for {} tables", clips.len(), recs.len());
    let mut names = std::collections::HashSet::new();
    // distance of title, type and badge from the row's left side, and radius
    let mut offsets: std::collections::HashMap<(u32, u32), [Option<f64>; 4]> = Default::default();
    let mut radius: Option<f64> = None;
    for (i, (rec, clip)) in recs.iter().zip(&clips).enumerate() {
        let n = node(doc, *rec)?;
        let ShapeKind::Record(shape) = n.kind() else { unreachable!() };
        let r = rect(doc, *rec)?;
        ensure!(clip.name == "clipPath", "<{}> among the clip shapes", clip.name);
        let id = clip.get("id").ok_or("clip shape without id")?;
        ensure!(names.insert(id), "two clip shapes are called {:?}", id);
        let cr: Vec<&El> = clip.els().collect();
        ensure!(cr.len() == 1 && cr[0].name == "rect", "clip shape of table #{} is no rectangle", i);
        want_rect(cr[0], &r, &format!("the clip shape of table #{}", i))?;
        let what = format!("table #{}", i);
        let e = it.next("rect", &what)?;
        want_rect(e, &r, &what)?;
        want_attr(e, "fill", shape.bg_color.as_ref().map(|c| c.to_string()), &what)?;
        want_attr(e, "stroke", shape.border_color.as_ref().map(|c| c.to_string()), &what)?;
        want_attr(e, "clip-path", None, &what)?;
        if shape.rounded {
            for e in [e, cr[0]] {
                let v = rounded(e, &what)?;
                ensure!(near(*radius.get_or_insert(v), v), "{} has corners unlike the others", what);
            }
        }
        for (j, k) in n.children().enumerate() {
            let fr = rect(doc, k)?;
            let ShapeKind::Field(f) = node(doc, k)?.kind() else { return Err("harness: row is no field".into()) };
            row(cx, &mut it, f, &fr, i, j, id, &mut offsets)?;
        }
        cx.add("tables compared", 1);
    }
    Ok(it.v[it.i..].to_vec())
}
#[allow(clippy::too_many_arguments)]
fn row(
    cx: &mut Ctx,
    it: &mut Els,
    f: &FieldShape,
    fr: &Rect,
    i: usize,
    j: usize,
    clip: &str,
    offsets: &mut std::collections::HashMap<(u32, u32), [Option<f64>; 4]>,
) -> Res {
    let what = |s: &str| format!("{} of row #{} of table #{}", s, j, i);
    if let Some(c) = &f.bg_color {
        let w = what("the background");
        let e = it.next("rect", &w)?;
        want_rect(e, fr, &w)?;
        want_attr(e, "fill", Some(c.to_string()), &w)?;
        want_attr(e, "clip-path", Some(format!("url(#{})", clip)), &w)?;
        cx.add("row backgrounds", 1);
    }
    if j > 0 {
        let w = what("the line");
        let e = it.next("line", &w)?;
        let (x1, x2, y1, y2) = (num(e, "x1")?, num(e, "x2")?, num(e, "y1")?, num(e, "y2")?);
        let (a, b) = (x1.min(x2), x1.max(x2));
        ensure!(
            near(a, fr.min_x() as f64) && near(b, fr.max_x() as f64) && near(y1, fr.min_y() as f64) && near(y2, fr.min_y() as f64),
            "{} goes from {} {} to {} {}, the row is at {:?}", w, x1, y1, x2, y2, fr
        );
        want_attr(e, "stroke", f.border_color.as_ref().map(|c| c.to_string()), &w)?;
        cx.add("row lines", 1);
    }
    let left = fr.min_x() as f64;
    let mid = left + fr.width() as f64 / 2.0;
    let mut seen: [Option<f64>; 4] = [None; 4];
    let w = what("the title");
    let t = want_text(it.next("text", &w)?, &f.title, fr, "start", &w)?;
    ensure!(t < mid, "{} starts at {}, right of the middle of {:?}", w, t, fr);
    seen[0] = Some(t - left);
    if let Some(s) = &f.subtitle {
        let w = what("the type");
        let x = want_text(it.next("text", &w)?, s, fr, "end", &w)?;
        ensure!(x > mid, "{} ends at {}, left of the middle of {:?}", w, x, fr);
        seen[1] = Some(x - left);
        cx.add("types", 1);
    }
    if let Some(b) = &f.badge {
        let w = what("the badge");
        let mut circle = None;
        if let Some(c) = &b.bg_color {
            let e = it.next("circle", &w)?;
            let (x, y, r) = (num(e, "cx")?, num(e, "cy")?, num(e, "r")?);
            ensure!(r > 0.0, "{} has radius {}", w, r);
            ensure!(near(y, fr.min_y() as f64 + fr.height() as f64 / 2.0), "{} is at height {}, its row at {:?}", w, y, fr);
            ensure!(
                x + r <= fr.max_x() as f64 + 0.01 && x - r >= mid && y + r <= fr.max_y() as f64 + 0.01 && y - r >= fr.min_y() as f64 - 0.01,
                "{} at {} {} with radius {} leaves its part of the row {:?}", w, x, y, r, fr
            );
            want_attr(e, "fill", Some(c.to_string()), &w)?;
            circle = Some(x);
            seen[3] = Some(r);
            cx.add("badge circles", 1);
        }
        let e = it.next("text", &w)?;
        let x = want_text(e, &b.into_text_span(), fr, "middle", &w)?;
        ensure!(same_text(e, &b.text), "{} reads {:?}, not {:?}", w, text_of(e), b.text);
        want_attr(e, "fill", b.color.as_ref().map(|c| c.to_string()), &w)?;
        if let Some(c) = circle {
            ensure!(near(c, x), "{}: text at {}, circle at {}", w, x, c);
        }
        if let Some(s) = seen[1] {
            ensure!(x - left > s, "{} is left of the type", w);
        }
        seen[2] = Some(x - left);
    }
    let o = offsets.entry((fr.width().to_bits(), fr.height().to_bits())).or_default();
    for (k, s) in seen.iter().enumerate() {
        if let Some(s) = s {
            let first = *o[k].get_or_insert(*s);
            ensure!(near(first, *s), "{} is {} from the left, in another row of that size {}", what(["the title", "the type", "the badge", "the badge's radius"][k]), s, first);
        }
    }
    cx.add("rows compared", 1);
    Ok(())
}

fn c18(cx: &mut Ctx) -> Res {
    let (svg, doc, vb, src);
    if let Some(d) = vast_of(cx, MUCH.len()) {
        (doc, vb) = (d, None);
        src = brief(&dump(&doc));
        svg = draw(&doc, vb, None)?;
    } else if cx.rng.chance(1, 2) {
        let (w, s) = from_module(&mut cx.rng)?;
        svg = draw(&w.doc, w.view_box, None).map_err(|e| format!("{}\n{}", e, s))?;
        (doc, vb, src) = (w.doc, w.view_box, s);
        cx.add("documents from modules", 1);
    } else {
        doc = free_document(&mut cx.rng);
        vb = cx.rng.chance(1, 2).then(|| Rect::new(Point::new(-3.5, 0.25), Size::new(1200.0, 900.5)));
        src = dump(&doc);
        svg = draw(&doc, vb, None).map_err(|e| format!("{}\n{}", e, src))?;
        cx.add("documents built freely", 1);
    }
    let wrap = |e: String| format!("{}\n{}\ndrawing: {}", e, src, brief(&svg));
    let root = read(&svg).map_err(&wrap)?;
    let rest = tables(&root, &doc, vb, cx).map_err(&wrap)?;
    let edges = doc.edges().count();
    ensure!(rest.len() == 3 * edges, "{}", wrap(format!("{} elements after the tables, {} relations", rest.len(), edges)));
    if !records(&doc).is_empty() {
        cx.nontrivial(svg.as_bytes());
    }
    cx.sample(|| src.clone());
    Ok(())
}
pub const C18: Check = Check {
    id: "C18",
    level: "exploration",
    cases: |t: Tier| t.n(40000, 250000),
    run: c18,
    rule: "every element of the drawing compared with the document, for documents with 260 to 66 000 tables, rows, relations or route points, laid-out modules and documents built through the API with arbitrary styles and places; non-trivial with at least one table; distinct by drawing",
    assumptions: &["rows are 200 to 600 wide and 25 to 50 high", "corners of shapes that do not ask for rounding are not judged"],
    need: &[("tables compared", 8000), ("rows compared", 20000), ("row backgrounds", 8000), ("row lines", 15000), ("types", 8000), ("badge circles", 6000), ("documents with 260 to 66 000 of something", 16)],
    exhaustive: false,
    workers: 8,
};

// --------------------------------------------------------------- C19

#[derive(Debug, Clone, Copy)]
enum Cmd {
    M(f64, f64),
    L(f64, f64),
    H(f64),
    V(f64),
    Q(f64, f64, f64, f64),
}
fn path_data(d: &str) -> R<Vec<Cmd>> {
    let mut toks: Vec<String> = vec![];
    for part in d.split(|c: char| c.is_whitespace() || c == ',') {
        let mut cur = String::new();
        for c in part.chars() {
            if c.is_ascii_alphabetic() && c != 'e' && c != 'E' {
                if !cur.is_empty() {
                    toks.push(std::mem::take(&mut cur));
                }
                toks.push(c.to_string());
            } else {
                cur.push(c);
            }
        }
        if !cur.is_empty() {
            toks.push(cur);
        }
    }
    let mut v = vec![];
    let mut i = 0;
    let mut cmd = String::new();
    while i < toks.len() {
        if toks[i].chars().all(|c| c.is_ascii_alphabetic()) {
            cmd = toks[i].clone();
            i += 1;
        }
        let mut arg = || -> R<f64> {
            let x = toks.get(i).and_then(|t| t.parse::<f64>().ok()).filter(|x| x.is_finite()).ok_or_else(|| format!("bad path data {:?}", d))?;
            i += 1;
            Ok(x)
        };
        v.push(match cmd.as_str() {
            "M" => Cmd::M(arg()?, arg()?),
            "L" => Cmd::L(arg()?, arg()?),
            "H" => Cmd::H(arg()?),
            "V" => Cmd::V(arg()?),
            "Q" => Cmd::Q(arg()?, arg()?, arg()?, arg()?),
            _ => return Err(format!("command {:?} in path data {:?}", cmd, d)),
        });
    }
    Ok(v)
}
/// Judge one relation's path against its route.
fn follows(cx: &mut Ctx, d: &str, route: &[Point]) -> Res {
    let cmds = path_data(d)?;
    let p: Vec<(f64, f64)> = route.iter().map(|q| (q.x as f64, q.y as f64)).collect();
    for s in route.windows(3) {
        let (a, b) = (dir(&s[0], &s[1]), dir(&s[1], &s[2]));
        cx.add(&format!("{:?} then {:?}", a, b), 1);
    }
    // what a few roundings of f32 may do
    let tol = 2e-3 + 2e-6 * p.iter().fold(0.0f64, |m, q| m.max(q.0.abs()).max(q.1.abs()));
    // corners only
    let mut c = vec![p[0]];
    for k in 1..p.len() - 1 {
        if dir(&route[k - 1], &route[k]) != dir(&route[k], &route[k + 1]) {
            c.push(p[k]);
        }
    }
    c.push(p[p.len() - 1]);
    let eq = |a: (f64, f64), b: (f64, f64)| near(a.0, b.0) && near(a.1, b.1);
    let mut it = cmds.iter().peekable();
    let mut pos = match it.next() {
        Some(Cmd::M(x, y)) => (*x, *y),
        _ => return Err("the path does not begin with a move".into()),
    };
    ensure!(eq(pos, p[0]), "the path begins at {:?}, the route at {:?}", pos, p[0]);
    for k in 1..c.len() {
        let (a, b) = (c[k - 1], c[k]);
        let l = (b.0 - a.0).hypot(b.1 - a.1);
        let u = ((b.0 - a.0) / l, (b.1 - a.1) / l);
        // place along and beside the line a-b
        let along = |q: (f64, f64)| ((q.0 - a.0) * u.0 + (q.1 - a.1) * u.1, (q.0 - a.0) * u.1 - (q.1 - a.1) * u.0);
        let mut done = along(pos).0;
        loop {
            let to = match it.peek() {
                Some(Cmd::L(x, y)) => (*x, *y),
                Some(Cmd::H(x)) => (*x, pos.1),
                Some(Cmd::V(y)) => (pos.0, *y),
                _ => break,
            };
            let (t, off) = along(to);
            if off.abs() > tol {
                break;
            }
            ensure!(t >= done - tol, "the path runs backwards from {:?} to {:?} on the line {:?} - {:?}", pos, to, a, b);
            ensure!(t <= l + tol, "the path goes past {:?} to {:?}", b, to);
            pos = to;
            done = t;
            it.next();
        }
        if k + 1 == c.len() {
            ensure!(eq(pos, b), "the path ends at {:?}, the route at {:?}", pos, b);
            ensure!(it.next().is_none(), "the path goes on after the end of the route: {:?}", d);
        } else {
            let Some(Cmd::Q(qx, qy, ex, ey)) = it.next().copied() else {
                return Err(format!("no curve at the corner {:?}; the path leaves the route near {:?}", b, pos));
            };
            ensure!(eq((qx, qy), b), "the curve at corner {:?} has control point {:?}", b, (qx, qy));
            let r1 = l - done;
            let n = c[k + 1];
            let m = (n.0 - b.0).hypot(n.1 - b.1);
            let v = ((n.0 - b.0) / m, (n.1 - b.1) / m);
            let r2 = (ex - b.0) * v.0 + (ey - b.1) * v.1;
            let off = (ex - b.0) * v.1 - (ey - b.1) * v.0;
            ensure!(off.abs() <= tol && r2 <= m + tol, "the curve at corner {:?} ends at {:?}, off the line to {:?}", b, (ex, ey), n);
            ensure!(r1 > 0.0 && (r1 - r2).abs() <= tol, "the curve at corner {:?} begins {} before and ends {} after it", b, r1, r2);
            if r1 < 5.9 {
                cx.add("corners on short lines", 1);
            }
            cx.add("corners", 1);
            pos = (ex, ey);
        }
    }
    Ok(())
}
/// The elements of all relations.
pub fn relations(cx: &mut Ctx, rest: &[&El], doc: &Document) -> Res {
    let edges: Vec<&EdgeData> = doc.edges().collect();
    ensure!(rest.len() == 3 * edges.len(), "{} elements after the tables, {} relations", rest.len(), edges.len());
    let mut radius = None;
    let mut i = 0;
    for (k, e) in edges.iter().enumerate() {
        let route = e.path_points().ok_or("harness: no route")?;
        let at = |m: String| format!("relation #{} with route {:?}: {}", k, route, m);
        let three = &rest[i..i + 3];
        i += 3;
        let names: Vec<&str> = three.iter().map(|e| e.name.as_str()).collect();
        ensure!(names == ["path", "circle", "circle"], "{}", at(format!("drawn as {:?}", names)));
        let d = three[0].get("d").ok_or_else(|| at("path without data".into()))?;
        follows(cx, d, route).map_err(|m| at(format!("{} (path {:?})", m, d)))?;
        ensure!(matches!(three[0].get("fill"), Some("none" | "transparent")), "{}", at("the path is filled".into()));
        ensure!(three[0].get("stroke").map_or(false, |s| s != "none" && s != "transparent"), "{}", at("the path is invisible".into()));
        for (c, p) in [(three[1], route[0]), (three[2], route[route.len() - 1])] {
            ensure!(near(num(c, "cx")?, p.x as f64) && near(num(c, "cy")?, p.y as f64), "{}", at(format!("circle {:?} is not at {:?}", c.attrs, p)));
            let r = num(c, "r")?;
            ensure!(r > 0.0 && near(*radius.get_or_insert(r), r), "{}", at(format!("circle {:?} is unlike the others", c.attrs)));
        }
        cx.add("relations", 1);
    }
    Ok(())
}
fn c19(cx: &mut Ctx) -> Res {
    let (svg, doc, src);
    if let Some(d) = vast_of(cx, MUCH.len()) {
        doc = d;
        src = brief(&dump(&doc));
        svg = draw(&doc, None, None)?;
    } else if cx.rng.chance(1, 2) {
        let (w, s) = from_module(&mut cx.rng)?;
        svg = draw(&w.doc, w.view_box, None).map_err(|e| format!("{}\n{}", e, s))?;
        (doc, src) = (w.doc, s);
    } else {
        doc = free_document(&mut cx.rng);
        src = dump(&doc);
        svg = draw(&doc, None, None).map_err(|e| format!("{}\n{}", e, src))?;
    }
    let wrap = |e: String| format!("{}\n{}", e, src);
    let root = read(&svg).map_err(&wrap)?;
    // the relations come last, whatever the tables are drawn with
    let all: Vec<&El> = root.els().collect();
    let n = 3 * doc.edges().count();
    ensure!(all.len() >= n, "{}", wrap("fewer elements than the relations need".into()));
    relations(cx, &all[all.len() - n..], &doc).map_err(&wrap)?;
    ensure!(all[..all.len() - n].iter().all(|e| e.name != "path"), "{}", wrap("a relation is drawn below a table".into()));
    if n > 0 {
        cx.nontrivial(svg.as_bytes());
    }
    cx.sample(|| src.clone());
    Ok(())
}
pub const C19: Check = Check {
    id: "C19",
    level: "exploration",
    cases: |t: Tier| t.n(50000, 300000),
    run: c19,
    rule: "the path data of every relation read back and followed along its route, for documents with 260 to 66 000 tables, rows, relations or route points, laid-out modules and for synthetic routes with lines from 0.25 to 500 long; every pair of directions must occur; distinct by drawing",
    assumptions: &[],
    need: &[
        ("relations", 15000),
        ("corners", 30000),
        ("corners on short lines", 3000),
        ("Up then Left", 300),
        ("Up then Right", 300),
        ("Up then Up", 300),
        ("Down then Left", 300),
        ("Down then Right", 300),
        ("Down then Down", 300),
        ("Left then Up", 300),
        ("Left then Down", 300),
        ("Left then Left", 300),
        ("Right then Up", 300),
        ("Right then Down", 300),
        ("Right then Right", 300),
    ],
    exhaustive: false,
    workers: 8,
};

// --------------------------------------------------------------- C14

fn c14(cx: &mut Ctx) -> Res {
    let m = match cx.rng.below(10) {
        0 => RModule { name: None, entries: vec![] },
        1 => module(&mut cx.rng, &Shape { defs: (0, 3), fields: (0, 2), rels: (0, 3), names: 0, unique: true, dangling: false, ordered: true }),
        2 => module(&mut cx.rng, &Shape { defs: (1, 4), fields: (0, 200), rels: (0, 6), names: 0, unique: true, dangling: false, ordered: true }),
        3 => module(&mut cx.rng, &Shape { defs: (0, 9), fields: (0, 5), rels: (0, 9), names: 1, unique: false, dangling: true, ordered: false }),
        4 => module(&mut cx.rng, &Shape { defs: (20, 40), fields: (0, 5), rels: (0, 4), names: 0, unique: true, dangling: false, ordered: true }),
        _ => routed_or_huge(&mut cx.rng),
    };
    let w = world(&m)?;
    let vb = w.view_box.ok_or_else(|| format!("no view box\n{}", show(&m)))?;
    let v = [vb.min_x(), vb.min_y(), vb.width(), vb.height()];
    ensure!(v.iter().all(|x| x.is_finite()) && v[2] > 0.0 && v[3] > 0.0, "the view box is {:?}\n{}", v, show(&m));
    let svg = draw(&w.doc, w.view_box, None)?;
    let wrap = |e: String| format!("{}\n{}", e, show(&m));
    let root = read(&svg).map_err(&wrap)?;
    let s = root.get("viewBox").ok_or_else(|| wrap("no viewBox".into()))?;
    let n: Vec<f64> = s.split(|c: char| c == ',' || c.is_whitespace()).filter(|x| !x.is_empty()).map(|x| x.parse().unwrap_or(f64::NAN)).collect();
    ensure!(n.len() == 4 && n.iter().zip(v).all(|(a, b)| near(*a, b as f64)), "{}", wrap(format!("viewBox is {:?}, the layout's {:?}", s, v)));
    let (x0, y0, x1, y1) = (n[0], n[1], n[0] + n[2], n[1] + n[3]);
    let mut items = 0;
    for e in root.els() {
        let mut pts: Vec<(f64, f64)> = vec![];
        match e.name.as_str() {
            "rect" if e.get("width") == Some("100%") => {
                // percentages are of the view box, but start at 0, 0
                pts.push((num(e, "x").unwrap_or(0.0), num(e, "y").unwrap_or(0.0)));
            }
            "rect" => {
                let (x, y, w, h) = (num(e, "x")?, num(e, "y")?, num(e, "width")?, num(e, "height")?);
                pts.extend([(x, y), (x + w, y + h)]);
            }
            "circle" => {
                let (x, y, r) = (num(e, "cx")?, num(e, "cy")?, num(e, "r")?);
                pts.extend([(x - r, y - r), (x + r, y + r)]);
            }
            "line" => pts.extend([(num(e, "x1")?, num(e, "y1")?), (num(e, "x2")?, num(e, "y2")?)]),
            "text" => pts.push((num(e, "x")?, num(e, "y")?)),
            "path" => {
                let mut at = (0.0, 0.0);
                for c in path_data(e.get("d").unwrap_or(""))? {
                    match c {
                        Cmd::M(x, y) | Cmd::L(x, y) => at = (x, y),
                        Cmd::H(x) => at.0 = x,
                        Cmd::V(y) => at.1 = y,
                        Cmd::Q(a, b, x, y) => {
                            pts.push((a, b));
                            at = (x, y)
                        }
                    }
                    pts.push(at);
                }
                cx.add("paths", 1);
            }
            _ => {}
        }
        for (x, y) in pts {
            let e0 = 1e-3 + 1e-6 * [x0, y0, x1, y1].iter().fold(0.0f64, |m, v| m.max(v.abs()));
            ensure!(
                x >= x0 - e0 && x <= x1 + e0 && y >= y0 - e0 && y <= y1 + e0,
                "{}",
                wrap(format!("<{}> {:?} reaches {:?}, outside the view box {:?}", e.name, e.attrs, (x, y), n))
            );
            items += 1;
        }
    }
    cx.add("points inside", items);
    if records(&w.doc).is_empty() {
        cx.add("drawings without tables", 1);
    } else {
        cx.nontrivial(svg.as_bytes());
    }
    cx.sample(|| show(&m));
    Ok(())
}
pub const C14: Check = Check {
    id: "C14",
    level: "exploration",
    cases: |t: Tier| t.n(16000, 250000),
    run: c14,
    rule: "the extent of every rectangle, circle, line, path and text anchor of the drawing against its view box, for modules from none to 40 tables; non-trivial with a table; distinct by drawing",
    assumptions: &["the width of text is the viewer's business"],
    need: &[("points inside", 200000), ("drawings without tables", 300), ("paths", 10000)],
    exhaustive: false,
    workers: 8,
};

// --------------------------------------------------------------- C17

/// Number of names made of 64 consecutive scalars each.
const PER: u32 = 64;
const FIELDS: u32 = 64;
const BLOCKS: usize = (0x110000 / (PER * FIELDS)) as usize;

fn skeleton(e: &El, o: &mut String) {
    use std::fmt::Write;
    write!(o, "<{} {:?}>", e.name, e.attrs).unwrap();
    for k in e.els() {
        skeleton(k, o);
    }
    o.push_str("</>");
}
fn texts<'a>(e: &'a El, o: &mut Vec<&'a El>) {
    if e.name == "text" {
        o.push(e);
    }
    for k in e.els() {
        texts(k, o);
    }
}
fn replaced(src: &str, got: &str) -> bool {
    let (a, b): (Vec<char>, Vec<char>) = (src.chars().collect(), got.chars().collect());
    a.len() == b.len() && a.iter().zip(&b).all(|(x, y)| if xml::xml_char(*x) { x == y } else { *y == '\u{fffd}' })
}

fn c17_doc(cx: &mut Ctx, m: &RModule) -> Res {
    let w = world(m)?;
    let wrap = |e: String| format!("{}\n{}", e, show(m));
    let svg = draw(&w.doc, w.view_box, None).map_err(&wrap)?;
    let root = read(&svg).map_err(&wrap)?;
    let mut got = vec![];
    texts(&root, &mut got);
    let mut want: Vec<&str> = vec![];
    for (n, fs) in m.defs() {
        want.push(n);
        for f in fs {
            want.push(&f.name);
            want.push(f.ty.word());
            want.extend(f.key.map(|k| k.word()));
        }
    }
    ensure!(got.len() == want.len(), "{}", wrap(format!("{} texts drawn, {} expected", got.len(), want.len())));
    for (g, s) in got.iter().zip(&want) {
        ensure!(replaced(s, &text_of(g)) || replaced(s, &g.text()), "{}", wrap(format!("{:?} reads {:?}", s, text_of(g))));
        cx.add("texts read back", 1);
        cx.add("characters read back", s.chars().count() as u64);
    }
    // the same module with tame names has the same elements and attributes
    let mut plain = m.clone();
    for (i, e) in plain.entries.iter_mut().enumerate() {
        if let REntry::Def(n, fs) = e {
            *n = format!("t{}", i);
            for (j, f) in fs.iter_mut().enumerate() {
                f.name = format!("f{}", j);
            }
        }
    }
    plain.entries.retain(|e| matches!(e, REntry::Def(..)));
    let mut bare = m.clone();
    bare.entries.retain(|e| matches!(e, REntry::Def(..)));
    let sk = |m: &RModule| -> R<String> {
        let w = world(m)?;
        let mut o = String::new();
        skeleton(&read(&draw(&w.doc, w.view_box, None)?)?, &mut o);
        Ok(o)
    };
    let (a, b) = (sk(&plain)?, sk(&bare).map_err(&wrap)?);
    ensure!(a == b, "{}", wrap(format!("names changed elements or attributes:\n{}\n{}", brief(&a), brief(&b))));
    cx.nontrivial(svg.as_bytes());
    Ok(())
}
fn c17(cx: &mut Ctx) -> Res {
    let m = if cx.idx < BLOCKS {
        let base = cx.idx as u32 * PER * FIELDS;
        let name = |k: u32| -> String { (0..PER).filter_map(|i| char::from_u32(base + k * PER + i)).collect() };
        let fields = (1..FIELDS).map(|k| RField { name: name(k), ty: Ty::Int, key: None }).collect();
        cx.add("blocks of scalars", 1);
        RModule { name: None, entries: vec![REntry::Def(name(0), fields)] }
    } else if cx.idx < BLOCKS + 64 {
        // characters XML treats specially, alone and between others
        let k = (cx.idx - BLOCKS) as u32;
        let cs: Vec<char> = (0..16).filter_map(|i| char::from_u32(k * 16 + i)).chain(['\u{fffe}', '\u{ffff}', '\u{fffd}', '\u{85}', '\u{2028}']).collect();
        let mut fs = vec![];
        for c in cs {
            for n in [format!("{}", c), format!("{}{}", c, c), format!("a{}b", c), format!("&{};", c), format!("<{}>", c), format!("]]{}", c)] {
                fs.push(RField { name: n, ty: Ty::Text, key: Some(Key::Pk) });
            }
        }
        RModule { name: None, entries: vec![REntry::Def(char::from_u32(k).unwrap().to_string(), fs)] }
    } else if cx.rng.chance(1, 300) {
        bulky(&mut cx.rng)
    } else {
        module(&mut cx.rng, &Shape { defs: (0, 5), fields: (0, 6), rels: (0, 5), names: 1, unique: false, dangling: true, ordered: false })
    };
    c17_doc(cx, &m)?;
    cx.sample(|| show(&m));
    Ok(())
}
pub const C17: Check = Check {
    id: "C17",
    level: "exploration",
    cases: |t: Tier| t.n(BLOCKS + 64 + 20000, BLOCKS + 64 + 200000),
    run: c17,
    rule: "drawings read with a strict XML reader and every text compared; all Unicode scalars in names of 64, the first 1024 alone and in hostile surroundings, and random hostile names; elements and attributes compared with a tame twin; distinct by drawing",
    assumptions: &["the line breaks the writer puts around a text are not part of it"],
    need: &[("blocks of scalars", BLOCKS as u64), ("characters read back", 1_112_064), ("texts read back", 40000)],
    exhaustive: false,
    workers: 8,
};

// --------------------------------------------------------------- C20

fn refusal(doc: &Document, concerned: &[NodeId], what: &str) -> Res {
    let before = dump(doc);
    let mut out = vec![];
    let r = guard(|| {
        let mut r = SVGRenderer::new();
        r.view_box = Some(Rect::new(Point::zero(), Size::new(10.0, 10.0)));
        r.render(doc, &mut out)
    })
    .map_err(|p| format!("{}: rendering panicked: {}", what, p))?;
    ensure!(out.is_empty(), "{}: {} bytes were written", what, out.len());
    match r {
        Err(BackendError::InvalidLayout(id)) => ensure!(concerned.contains(&id), "{}: the error names node {}, not one of {:?}", what, id, concerned),
        r => return Err(format!("{}: rendering gave {:?}", what, r)),
    }
    ensure!(before == dump(doc), "{}: rendering changed the document", what);
    Ok(())
}
/// Nodes and edges of the document that are not laid out.
fn missing(doc: &Document) -> Vec<NodeId> {
    let mut v = vec![];
    for r in records(doc) {
        let n = doc.get_node(r).unwrap();
        if n.rect().is_none() {
            v.push(r);
        }
        for k in n.children() {
            if doc.get_node(k).unwrap().rect().is_none() {
                v.push(k);
            }
        }
    }
    for e in doc.edges() {
        if e.path_points().is_none() {
            v.push(e.source_id());
            v.push(e.target_id());
        }
    }
    v
}
fn c20(cx: &mut Ctx) -> Res {
    let large = vast_of(cx, 3);
    let few = large.is_some();
    let free = cx.rng.chance(1, 2);
    let mut doc;
    if let Some(d) = large {
        doc = d;
    } else if free {
        doc = free_document(&mut cx.rng);
    } else {
        // the steps of the layout one by one
        let m = if cx.rng.chance(1, 2) {
            routed(&mut cx.rng)
        } else {
            module(&mut cx.rng, &Shape { defs: (0, 4), fields: (0, 3), rels: (0, 3), names: 0, unique: true, dangling: false, ordered: true })
        };
        doc = m.to_api().into_mir();
        let mut eng = SimpleLayoutEngine::new();
        for step in 0..4 {
            let lack = missing(&doc);
            if !lack.is_empty() {
                refusal(&doc, &lack, &format!("after {} steps of the layout", step)).map_err(|e| format!("{}\n{}", e, show(&m)))?;
                cx.add(&format!("refused after {} steps of the layout", step), 1);
            } else {
                draw(&doc, None, None).map_err(|e| format!("{}\n{}", e, show(&m)))?;
            }
            match step {
                0 => drop(eng.place_nodes(&mut doc)),
                1 => eng.place_terminal_ports(&mut doc),
                2 => eng.draw_edge_path(&mut doc),
                _ => {}
            }
        }
    }
    let whole = dump(&doc);
    let first = draw(&doc, None, None).map_err(|e| format!("{}\n{}", e, whole))?;
    ensure!(whole == dump(&doc), "rendering changed the document\n{}", whole);
    let wrap = |e: String| format!("{}\n{}", e, whole);
    // every single thing missing; in large documents, some
    let rng = &mut Rng::new(cx.rng.next());
    let mut some = |k: usize, n: usize| !few || k < 3 || k + 3 > n || k.is_power_of_two() || (k + 1).is_power_of_two() || rng.below(n) < 20;
    let mut nodes = vec![];
    for r in records(&doc) {
        nodes.push((r, r));
        nodes.extend(doc.get_node(r).unwrap().children().map(|k| (k, r)));
    }
    for (k, (n, rec)) in nodes.iter().enumerate() {
        if !some(k, nodes.len()) {
            continue;
        }
        let (o, s) = {
            let d = doc.get_node(*n).unwrap();
            (d.origin, d.size)
        };
        for which in 1..4 {
            let d = doc.get_node_mut(*n).unwrap();
            d.origin = if which & 1 == 0 { o } else { None };
            d.size = if which & 2 == 0 { s } else { None };
            refusal(&doc, &[*n, *rec], &format!("{} of node {} missing", ["", "the place", "the size", "place and size"][which], n)).map_err(&wrap)?;
            cx.add(if n == rec { "tables not laid out" } else { "rows not laid out" }, 1);
        }
        let d = doc.get_node_mut(*n).unwrap();
        d.origin = o;
        d.size = s;
    }
    let ne = doc.edges().count();
    for k in (0..ne).filter(|k| some(*k, ne)) {
        let e = doc.edges_mut().nth(k).unwrap();
        let p = e.path_points().map(|p| p.to_vec());
        e.set_path_points(None);
        let ids = [e.source_id(), e.target_id()];
        refusal(&doc, &ids, &format!("route of relation #{} missing", k)).map_err(&wrap)?;
        doc.edges_mut().nth(k).unwrap().set_path_points(p);
        cx.add("relations not laid out", 1);
    }
    ensure!(whole == dump(&doc), "harness: the document was not put back");
    // several things missing
    for _ in 0..3 {
        let mut undo: Vec<(NodeId, Option<Point>, Option<Size>)> = vec![];
        for (n, _) in &nodes {
            if cx.rng.chance(1, 3) {
                let d = doc.get_node_mut(*n).unwrap();
                undo.push((*n, d.origin, d.size));
                if cx.rng.chance(2, 3) {
                    d.origin = None;
                }
                if cx.rng.chance(2, 3) {
                    d.size = None;
                }
            }
        }
        let mut paths = vec![];
        for (k, e) in doc.edges_mut().enumerate() {
            if cx.rng.chance(1, 3) {
                paths.push((k, e.path_points().map(|p| p.to_vec())));
                e.set_path_points(None);
            }
        }
        let mut lack = missing(&doc);
        for (n, r) in &nodes {
            if lack.contains(n) && !lack.contains(r) {
                lack.push(*r);
            }
        }
        if !lack.is_empty() {
            refusal(&doc, &lack, "several things missing").map_err(|e| format!("{}\n{}", e, dump(&doc)))?;
            cx.add("several things not laid out", 1);
        }
        for (n, o, s) in undo {
            let d = doc.get_node_mut(n).unwrap();
            d.origin = o;
            d.size = s;
        }
        for (k, p) in paths {
            doc.edges_mut().nth(k).unwrap().set_path_points(p);
        }
    }
    ensure!(draw(&doc, None, None).map_err(&wrap)? == first, "{}", wrap("drawing once more gives another picture".into()));
    if !nodes.is_empty() {
        cx.nontrivial(first.as_bytes());
    }
    cx.sample(|| whole.clone());
    Ok(())
}
pub const C20: Check = Check {
    id: "C20",
    level: "exploration",
    cases: |t: Tier| t.n(2400, 40000),
    run: c20,
    rule: "for each sampled document every single place, size and route is removed and the renderer's answer and output observed, then random subsets (in twelve documents with up to 4100 of something, a sample); modules after each step of the layout; distinct by drawing",
    assumptions: &["for a row its table may be named, for a relation either end"],
    need: &[
        ("tables not laid out", 10000),
        ("rows not laid out", 20000),
        ("relations not laid out", 3000),
        ("several things not laid out", 1500),
        ("refused after 0 steps of the layout", 500),
        ("refused after 1 steps of the layout", 300),
        ("refused after 2 steps of the layout", 300),
    ],
    exhaustive: false,
    workers: 8,
};

// --------------------------------------------------------------- C21

#[derive(Debug)]
struct Marker(u64);
impl std::fmt::Display for Marker {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "marker {}", self.0)
    }
}
impl std::error::Error for Marker {}

#[derive(Debug, Clone, Copy, PartialEq)]
enum End {
    Never,
    Error(io::ErrorKind, u64),
    Os(i32),
    Full,
}
/// Accepts `room` bytes, in pieces, then fails.
struct Faulty {
    got: Vec<u8>,
    room: usize,
    end: End,
    short: bool,
    interrupt: bool,
    rng: Rng,
    calls: u64,
    after: u64,
}
impl Write for Faulty {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        if b.is_empty() {
            return Ok(0);
        }
        if self.interrupt && self.rng.chance(1, 3) {
            return Err(io::ErrorKind::Interrupted.into());
        }
        let left = if self.end == End::Never { usize::MAX } else { self.room - self.got.len() };
        if left == 0 {
            self.after += 1;
            if self.after > 10_000 {
                panic!("the destination is written to again and again after it failed");
            }
            return match self.end {
                End::Error(k, m) => Err(io::Error::new(k, Marker(m))),
                End::Os(c) => Err(io::Error::from_raw_os_error(c)),
                End::Full => Ok(0),
                End::Never => unreachable!(),
            };
        }
        let mut n = b.len().min(left);
        if self.short {
            n = self.rng.range(1, n.min(200));
        }
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
const KINDS: [io::ErrorKind; 7] = [
    io::ErrorKind::Other,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::TimedOut,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::OutOfMemory,
];
fn c21_once(cx: &mut Ctx, doc: &Document, vb: Option<Rect>, full: &[u8], room: usize, end: End, short: bool, interrupt: bool) -> Res {
    let mut w = Faulty { got: vec![], room, end, short, interrupt, rng: Rng::new(cx.rng.next()), calls: 0, after: 0 };
    let r = guard(|| {
        let mut r = SVGRenderer::new();
        r.view_box = vb;
        r.render(doc, &mut w)
    });
    let how = format!("{:?} after {} of {} bytes, short writes {}, interruptions {}", end, room, full.len(), short, interrupt);
    let r = r.map_err(|p| format!("{}: rendering panicked: {}", how, p))?;
    ensure!(full.starts_with(&w.got), "{}: what was accepted is no prefix of the drawing: {}", how, brief(&String::from_utf8_lossy(&w.got)));
    let fails = end != End::Never && room < full.len();
    match (&r, fails) {
        (Ok(()), false) => ensure!(w.got == full, "{}: only {} bytes were written", how, w.got.len()),
        (Err(e), false) => return Err(format!("{}: rendering failed: {:?}", how, e)),
        (Ok(()), true) => return Err(format!("{}: the failure was not reported", how)),
        (Err(BackendError::IoFailure(e)), true) => {
            let ok = match end {
                End::Error(k, m) => e.kind() == k && e.get_ref().and_then(|x| x.downcast_ref::<Marker>()).map(|x| x.0) == Some(m),
                End::Os(c) => e.raw_os_error() == Some(c),
                End::Full => e.kind() == io::ErrorKind::WriteZero,
                End::Never => false,
            };
            ensure!(ok, "{}: the error reported is {:?}", how, e);
        }
        (Err(e), true) => return Err(format!("{}: the error reported is {:?}", how, e)),
    }
    if fails {
        ensure!(w.got.len() == room, "{}: the error was reported before the destination failed ({} bytes)", how, w.got.len());
        cx.add("failures injected", 1);
    } else {
        cx.add("complete writes", 1);
    }
    cx.add("write calls", w.calls);
    Ok(())
}
fn c21(cx: &mut Ctx) -> Res {
    let late = cx.idx >= 16 && cx.idx < 32;
    let (doc, vb, src) = if late {
        let k = cx.idx - 16;
        let d = vast(&mut cx.rng, k % KINDS_OF_MUCH, MUCH[k / KINDS_OF_MUCH]);
        let s = brief(&dump(&d));
        (d, None, s)
    } else if cx.idx % 2 == 0 {
        let m = module(&mut cx.rng, &Shape { defs: (0, 3), fields: (0, 2), rels: (0, 2), names: 1, unique: false, dangling: true, ordered: false });
        let w = world(&m)?;
        (w.doc, w.view_box, show(&m))
    } else {
        let d = free_document(&mut cx.rng);
        let s = dump(&d);
        (d, None, s)
    };
    let full = draw(&doc, vb, None)?.into_bytes();
    let wrap = |e: String| format!("{}\n{}", e, src);
    if cx.idx < 16 {
        // every byte
        for k in 0..=full.len() {
            let end = match k % 3 {
                0 => End::Error(*cx.rng.pick(&KINDS), cx.rng.next()),
                1 => End::Full,
                _ => End::Os(*cx.rng.pick(&[28, 5, 32, 11, 27])),
            };
            let (s, i) = (k % 5 == 0, k % 7 == 0);
            c21_once(cx, &doc, vb, &full, k, end, s, i).map_err(&wrap)?;
        }
        cx.add("drawings with a failure at every byte", 1);
    }
    if late {
        cx.add("large drawings", 1);
        cx.max("bytes of a drawing", full.len() as u64);
    }
    for k in 0..20 {
        let room = match k {
            // late in a large drawing, or around a power of two
            0..=3 if late => full.len() - 1 - cx.rng.below(20),
            4..=9 if late => ((1 << (12 + cx.rng.below(12))) + cx.rng.below(3)).min(full.len()) - 1,
            _ => cx.rng.below(full.len() + 1),
        };
        let end = match cx.rng.below(4) {
            0 => End::Error(*cx.rng.pick(&KINDS), cx.rng.next()),
            1 => End::Full,
            2 => End::Os(*cx.rng.pick(&[28, 5, 32, 11, 27])),
            _ => End::Never,
        };
        let (s, i) = (cx.rng.chance(1, 2), cx.rng.chance(1, 2));
        c21_once(cx, &doc, vb, &full, room, end, s, i).map_err(&wrap)?;
    }
    cx.nontrivial(&full);
    cx.sample(|| src.clone());
    Ok(())
}
pub const C21: Check = Check {
    id: "C21",
    level: "fault_enumeration",
    cases: |t: Tier| t.n(3000, 30000),
    run: c21,
    rule: "a destination that fails at every byte of 16 drawings, at the end of and around powers of two in 16 drawings of up to 30 MB, and at random bytes of others, with custom and OS errors or by accepting nothing, with short and interrupted writes; distinct by drawing",
    assumptions: &["the renderer hands over all bytes with write and does not call flush, so failures of flush are the caller's"],
    need: &[("drawings with a failure at every byte", 16), ("large drawings", 16), ("failures injected", 20000), ("complete writes", 3000), ("write calls", 200000)],
    exhaustive: false,
    workers: 8,
};

// --------------------------------------------------------------- C32

/// A network built through the API: points of a grid, links along its lines.
fn free_network(r: &mut Rng, n: usize) -> RouteGraph {
    let mut g = RouteGraph::new();
    let side = ((n as f64).sqrt() as usize).max(1);
    let step = *r.pick(&[40.0f32, 55.5, 100.25]);
    let (x0, y0) = (r.range(0, 2000) as f32 - 1000.0, r.range(0, 2000) as f32 - 1000.0);
    let ids: Vec<_> = (0..n).map(|i| g.add_node(Point::new(x0 + (i % side) as f32 * step, y0 + (i / side) as f32 * step))).collect();
    let every = r.chance(1, 2);
    for i in 0..n {
        for j in [i + 1, i + side, i + 2 * side] {
            if j < n && (j > i + 1 || j % side > 0) && (every || r.chance(1, 2)) {
                let (a, b) = if r.chance(1, 2) { (i, j) } else { (j, i) };
                g.add_edge(ids[a], ids[b]);
            }
        }
    }
    g
}
fn c32(cx: &mut Ctx) -> Res {
    const SIZES: [usize; 8] = [1, 90, 105, 260, 1030, 4100, 10_050, 66_000];
    if cx.idx < SIZES.len() || cx.idx % 20 == 19 {
        let n = if cx.idx < SIZES.len() { SIZES[cx.idx] } else { cx.rng.below(150) };
        let g = free_network(&mut cx.rng, n);
        let doc = free_document(&mut cx.rng);
        let src = dump(&doc);
        cx.add("networks built freely", 1);
        return c32_one(cx, &doc, None, &g, &src);
    }
    let (w, src) = from_module(&mut cx.rng)?;
    c32_one(cx, &w.doc, w.view_box, w.engine.edge_route_graph(), &src)
}
fn c32_one(cx: &mut Ctx, doc: &Document, vb: Option<Rect>, g: &RouteGraph, src: &str) -> Res {
    let wrap = |e: String| format!("{}\n{}", e, src);
    let base = draw(doc, vb, None).map_err(&wrap)?;
    let over = draw(doc, vb, Some(g)).map_err(&wrap)?;
    let (a, b) = (read(&base).map_err(&wrap)?, read(&over).map_err(&wrap)?);
    ensure!(a.attrs == b.attrs, "{}", wrap("the overlay changes the root element".into()));
    let (ea, eb): (Vec<&El>, Vec<&El>) = (a.els().collect(), b.els().collect());
    ensure!(eb.len() >= ea.len() && ea[..] == eb[..ea.len()], "{}", wrap("the overlay changes or hides what is drawn without it".into()));
    let extra = &eb[ea.len()..];
    let kind = |n: &str| -> Vec<&El> { extra.iter().copied().filter(|e| e.name == n).collect() };
    let (lines, arrows, dots, labels) = (kind("line"), kind("polygon"), kind("circle"), kind("text"));
    ensure!(lines.len() + arrows.len() + dots.len() + labels.len() == extra.len(), "{}", wrap("the overlay has elements of other kinds".into()));
    let links: Vec<_> = g.edges().collect();
    ensure!(lines.len() == links.len() && arrows.len() == links.len(), "{}", wrap(format!("{} links, {} lines, {} arrows", links.len(), lines.len(), arrows.len())));
    for ((l, t), link) in lines.iter().zip(&arrows).zip(&links) {
        let (p, q) = (g.get_node(link.source_id()).unwrap().location(), g.get_node(link.target_id()).unwrap().location());
        let at = [num(l, "x1")?, num(l, "y1")?, num(l, "x2")?, num(l, "y2")?];
        let want = [p.x as f64, p.y as f64, q.x as f64, q.y as f64];
        ensure!(at.iter().zip(want).all(|(a, b)| near(*a, b)), "{}", wrap(format!("the line of link {:?} - {:?} is at {:?}", p, q, at)));
        let pts: Vec<f64> = t
            .get("points")
            .unwrap_or("")
            .split(|c: char| c == ',' || c.is_whitespace())
            .filter(|s| !s.is_empty())
            .map(|s| s.parse().unwrap_or(f64::NAN))
            .collect();
        let bad = || wrap(format!("the arrow of link {:?} - {:?} is {:?}", p, q, pts));
        ensure!(pts.len() == 6 && pts.iter().all(|x| x.is_finite()), "{}", bad());
        let len = (want[2] - want[0]).hypot(want[3] - want[1]);
        let u = ((want[2] - want[0]) / len, (want[3] - want[1]) / len);
        // distance before the far end, and beside the line
        let rel: Vec<(f64, f64)> = pts.chunks(2).map(|c| ((want[2] - c[0]) * u.0 + (want[3] - c[1]) * u.1, (c[0] - want[2]) * u.1 - (c[1] - want[3]) * u.0)).collect();
        let mut rel = rel;
        rel.sort_by(|a, b| a.0.total_cmp(&b.0));
        let ok = rel[0].1.abs() < 0.02 && rel[0].0 >= -0.02 && rel[0].0 < 10.0 && near(rel[1].0, rel[2].0) && rel[1].0 > rel[0].0 + 1.0 && rel[1].0 < 30.0 && (rel[1].1 + rel[2].1).abs() < 0.02 && rel[1].1.abs() > 0.5;
        ensure!(ok, "{}", bad());
        cx.add(&format!("arrows {:?}", dir(p, q)), 1);
    }
    let nodes: Vec<_> = g.node_ids().collect();
    let route: Vec<Point> = doc.edges().flat_map(|e| e.path_points().unwrap_or(&[]).to_vec()).collect();
    ensure!(dots.len() == nodes.len() + route.len(), "{}", wrap(format!("{} junctions, {} route points, {} dots", nodes.len(), route.len(), dots.len())));
    let centre = |e: &El| -> R<(f64, f64)> { Ok((num(e, "cx")?, num(e, "cy")?)) };
    let places: Vec<Point> = nodes.iter().map(|n| *g.get_node(*n).unwrap().location()).chain(route.iter().copied()).collect();
    for (k, (d, p)) in dots.iter().zip(&places).enumerate() {
        let c = centre(d)?;
        ensure!(near(c.0, p.x as f64) && near(c.1, p.y as f64), "{}", wrap(format!("dot #{} is at {:?}, not {:?}", k, c, p)));
        ensure!(num(d, "r")? > 0.0, "{}", wrap("a dot has no size".into()));
    }
    let (a, b) = dots.split_at(nodes.len());
    let fills: std::collections::HashSet<_> = a.iter().map(|e| e.get("fill")).collect();
    ensure!(b.iter().all(|e| !fills.contains(&e.get("fill"))), "{}", wrap("junctions and route points look the same".into()));
    let recs = records(doc);
    ensure!(labels.len() == nodes.len() + recs.len(), "{}", wrap(format!("{} junctions, {} tables, {} labels", nodes.len(), recs.len(), labels.len())));
    let mut spots: Vec<(String, f64, f64)> = vec![];
    for n in &nodes {
        let p = g.get_node(*n).unwrap().location();
        spots.push((n.to_string(), p.x as f64, p.y as f64));
    }
    for r in &recs {
        let q = rect(doc, *r)?;
        spots.push((r.to_string(), q.max_x() as f64, q.max_y() as f64));
    }
    for (l, (t, x, y)) in labels.iter().zip(&spots) {
        let at = (num(l, "x")?, num(l, "y")?);
        ensure!(text_of(l) == *t, "{}", wrap(format!("label at {:?} reads {:?}, not {:?}", at, text_of(l), t)));
        ensure!(at.0 >= *x && at.0 - x < 20.0 && (at.1 - y).abs() < 20.0, "{}", wrap(format!("label {:?} is at {:?}, its place at {:?}", t, at, (x, y))));
    }
    cx.add("junctions", nodes.len() as u64);
    cx.add("links", links.len() as u64);
    cx.add("route points", route.len() as u64);
    cx.add("table labels", recs.len() as u64);
    if !nodes.is_empty() {
        cx.nontrivial(over.as_bytes());
    }
    cx.sample(|| src.to_string());
    Ok(())
}
pub const C32: Check = Check {
    id: "C32",
    level: "exploration",
    cases: |t: Tier| t.n(9000, 80000),
    run: c32,
    rule: "drawings with and without the overlay compared element by element, and every added element with the network and the document, for laid-out modules and for networks of up to 66 000 junctions built through the API; non-trivial with a junction; distinct by drawing",
    assumptions: &["a label within 20 units right of its spot is at its place"],
    need: &[("junctions", 50000), ("links", 50000), ("route points", 10000), ("arrows Up", 100), ("arrows Down", 1000), ("arrows Left", 100), ("arrows Right", 1000), ("networks built freely", 300)],
    exhaustive: false,
    workers: 8,
};
