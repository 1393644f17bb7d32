//! Driving the code under test.
use crate::refl::*;
use seiren::geometry::{Point, Rect};
use seiren::layout::{LayoutEngine, SimpleLayoutEngine};
use seiren::mir::{self, Document, NodeData, NodeId, ShapeKind};
use seiren::renderer::{Renderer, SVGRenderer};
use std::cell::RefCell;
use std::panic::{self, AssertUnwindSafe};

thread_local! {
    static LAST: RefCell<String> = RefCell::new(String::new());
}
pub fn quiet_panics() {
    panic::set_hook(Box::new(|i| {
        let m = i.to_string();
        LAST.with(|l| *l.borrow_mut() = m.clone());
        if std::env::var_os("MON_LOUD").is_some() {
            eprintln!("{}", m);
        }
    }));
}
/// Run `f`, turning a panic into its message.
pub fn guard<A>(f: impl FnOnce() -> A) -> Result<A, String> {
    panic::catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST.with(|l| l.borrow().clone()))
}

pub fn brief(s: &str) -> String {
    let n = s.chars().count();
    if n > 3000 {
        let t: String = s.chars().take(3000).collect();
        format!("{:?}... ({} chars)", t, n)
    } else {
        format!("{:?}", s)
    }
}

/// Parse text that must be accepted without complaint.
pub fn parse_ok(src: &str) -> Result<seiren::erd::Module, String> {
    let (ast, lex, par) = guard(|| seiren::parser::parse(src)).map_err(|p| format!("parse panicked: {}\nsource: {}", p, brief(src)))?;
    if !lex.is_empty() || !par.is_empty() {
        return Err(format!("a documented program was rejected: {:?} {:?}\nsource: {}", lex, par, brief(src)));
    }
    ast.ok_or_else(|| format!("no module and no diagnostic\nsource: {}", brief(src)))
}

pub fn layout(engine: &mut SimpleLayoutEngine, doc: &mut Document) -> Option<Rect> {
    let vb = engine.place_nodes(doc);
    engine.place_terminal_ports(doc);
    engine.draw_edge_path(doc);
    vb
}

pub fn render(doc: &Document, vb: Option<Rect>) -> Result<String, String> {
    let mut r = SVGRenderer::new();
    r.view_box = vb;
    let mut out = vec![];
    r.render(doc, &mut out).map_err(|e| format!("render failed: {:?}", e))?;
    String::from_utf8(out).map_err(|e| format!("output is not UTF-8: {}", e))
}

/// A module laid out by the real engine.
pub struct World {
    pub model: RModule,
    pub doc: Document,
    pub engine: SimpleLayoutEngine,
    pub view_box: Option<Rect>,
}

pub fn world(model: &RModule) -> Result<World, String> {
    let m = model.clone();
    guard(|| {
        let mut doc = m.to_api().into_mir();
        let mut engine = SimpleLayoutEngine::new();
        let view_box = layout(&mut engine, &mut doc);
        World { model: m, doc, engine, view_box }
    })
    .map_err(|p| format!("layout panicked: {}\n{}", p, show(model)))
}

pub fn show(m: &RModule) -> String {
    let mut r = crate::rng::Rng::new(1);
    let s = crate::gen::emit(&mut r, m, 1);
    let s: String = s.chars().take(4000).collect();
    format!("module, as source: {}", s)
}

pub fn records(doc: &Document) -> Vec<NodeId> {
    doc.body()
        .children()
        .filter(|id| doc.get_node(*id).map_or(false, |n| matches!(n.kind(), ShapeKind::Record(_))))
        .collect()
}
pub fn node(doc: &Document, id: NodeId) -> Result<&NodeData, String> {
    doc.get_node(id).ok_or_else(|| format!("document has no node {}", id))
}
pub fn rect(doc: &Document, id: NodeId) -> Result<Rect, String> {
    node(doc, id)?.rect().ok_or_else(|| format!("node {} is not laid out", id))
}
pub fn field(n: &NodeData) -> Option<&mir::FieldShape> {
    match n.kind() {
        ShapeKind::Field(f) => Some(f),
        _ => None,
    }
}

/// Does the closed segment a-b enter the open interior of r? Exact for
/// axis-aligned segments.
pub fn enters(r: &Rect, a: &Point, b: &Point) -> bool {
    let (x0, x1) = (a.x.min(b.x), a.x.max(b.x));
    let (y0, y1) = (a.y.min(b.y), a.y.max(b.y));
    x1 > r.min_x() && x0 < r.max_x() && y1 > r.min_y() && y0 < r.max_y()
}

/// Everything a document holds, as text.
pub fn dump(doc: &Document) -> String {
    use std::fmt::Write;
    fn walk(doc: &Document, n: &NodeData, depth: usize, o: &mut String) {
        let ports: Vec<_> = n.terminal_ports().map(|p| format!("{} {:?} {:?}", p.id(), p.location(), p.orientation())).collect();
        writeln!(o, "{}{:?} {:?} {:?} {:?}", " ".repeat(depth), n.kind(), n.origin, n.size, ports).unwrap();
        for k in n.children() {
            if let Some(c) = doc.get_node(k) {
                if depth < 4 {
                    walk(doc, c, depth + 1, o);
                }
            }
        }
    }
    let mut o = String::new();
    walk(doc, doc.body(), 0, &mut o);
    for e in doc.edges() {
        writeln!(o, "{:?}", e).unwrap();
    }
    o
}
