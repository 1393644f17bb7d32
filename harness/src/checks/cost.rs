//! C31: how work grows.
use crate::alloc::{measure, Cost};
use crate::gen::*;
use crate::pipe::*;
use crate::rng::Rng;
use crate::{ensure, Check, Ctx, Res, Tier};
use seiren::geometry::{Point, Size};
use seiren::layout::SimpleLayoutEngine;
use seiren::mir::{Badge, Document, EdgeData, FieldShape, FontFamily, FontSize, FontWeight, RecordShape, TextSpan};

/// Texts of length about n.
pub const TEXTS: &[(&str, fn(usize) -> String)] = &[
    ("open braces", |n| "{".repeat(n)),
    ("close braces", |n| "}".repeat(n)),
    ("open entities", |n| format!("erd {{ {}", "a {".repeat(n / 3))),
    ("line breaks", |n| format!("erd {{{}}}", "\n".repeat(n))),
    ("semicolons", |n| format!("erd {{{}}}", ";".repeat(n))),
    ("line breaks outside", |n| format!("{}erd{}{{}}{}", "\n".repeat(n / 3), "\n".repeat(n / 3), "\n".repeat(n / 3))),
    ("long name", |n| format!("erd {} {{}}", "a".repeat(n))),
    ("long quoted name", |n| format!("erd `{}` {{}}", "x".repeat(n))),
    ("long escaped name", |n| format!("erd `{}` {{}}", "\\n".repeat(n / 2))),
    ("long unicode escapes", |n| format!("erd `{}` {{}}", "\\u0041".repeat(n / 6))),
    ("open quote", |n| format!("erd `{}", "x".repeat(n))),
    ("open quote with escapes", |n| format!("erd `{}", "\\u0041".repeat(n / 6))),
    ("bad escapes", |n| format!("erd `{}` {{}}", "\\x".repeat(n / 2))),
    ("comment", |n| format!("//{}\nerd {{}}", "c".repeat(n))),
    ("unended comment", |n| format!("erd {{}} //{}", "c".repeat(n))),
    ("comments", |n| format!("{}erd {{}}", "//\n".repeat(n / 3))),
    ("comments inside", |n| format!("erd {{ a {{ {} }} }}", "// x\n".repeat(n / 5))),
    ("relations", |n| format!("erd {{{}}}", "a.b o--o c.d;".repeat(n / 13))),
    ("relations on lines", |n| format!("erd {{\n{}}}", "a o--o c\n".repeat(n / 9))),
    ("fields", |n| format!("erd {{ t {{\n{} }} }}", "a int PK\n".repeat(n / 9))),
    ("fields without separator", |n| format!("erd {{ t {{ {} }} }}", "a int PK ".repeat(n / 9))),
    ("entities", |n| format!("erd {{\n{} }}", "a { b int }\n".repeat(n / 12))),
    ("empty entities", |n| format!("erd {{\n{} }}", "a {}\n".repeat(n / 5))),
    ("entities on one line", |n| format!("erd {{ {} }}", "a { b int } ".repeat(n / 12))),
    ("bad characters", |n| "@".repeat(n)),
    ("bad characters in words", |n| "a@ ".repeat(n / 3)),
    ("bad characters on lines", |n| format!("erd {{\n{}}}", "@\n".repeat(n / 2))),
    ("modules", |n| "erd {} ".repeat(n / 7)),
    ("reserved words", |n| "erd ".repeat(n / 4)),
    ("dots", |n| ".".repeat(n)),
    ("arrows", |n| "o--o".repeat(n / 4)),
    ("broken arrows", |n| format!("erd {{ {} }}", "a o-- b\n".repeat(n / 8))),
    ("quotes", |n| "`".repeat(n)),
    ("blanks", |n| " ".repeat(n)),
    ("blanks inside", |n| format!("erd {{{}}}", " ".repeat(n))),
    ("tabs and CRLF", |n| format!("erd {{{}}}", "\t\r\n".repeat(n / 3))),
    ("backslashes", |n| "\\".repeat(n)),
    ("slashes", |n| "/".repeat(n)),
    ("unknown types", |n| format!("erd {{ a {{\n{} }} }}", "b foo\n".repeat(n / 6))),
    ("bad entities", |n| format!("erd {{\n{}}}", "a { b }\n".repeat(n / 8))),
    ("bad relations", |n| format!("erd {{\n{}}}", "a. o--o b\n".repeat(n / 10))),
    ("text after the module", |n| format!("erd {{}} {}", "a ".repeat(n / 2))),
    ("crabs", |n| "🦀".repeat(n)),
    ("long quoted crab", |n| format!("erd {{ `{}` {{}} }}", "🦀".repeat(n))),
    ("different entities", |n| format!("erd {{\n{}}}", (0..n / 12).map(|i| format!("n{:06} {{}}\n", i)).collect::<String>())),
    ("different fields", |n| format!("erd {{ t {{\n{} }} }}", (0..n / 12).map(|i| format!("n{:06} int\n", i)).collect::<String>())),
    ("different relations", |n| format!("erd {{\n{}}}", (0..n / 20).map(|i| format!("a{:05}.b o--o c{:05}\n", i, i)).collect::<String>())),
    ("different quoted names", |n| format!("erd {{\n{}}}", (0..n / 12).map(|i| format!("`{:06}` {{}}\n", i)).collect::<String>())),
    ("different words", |n| (0..n / 6).map(|i| format!("{}w{:04} ", if i % 2 == 0 { "a" } else { "b" }, i)).collect::<String>()),
    ("different mistakes", |n| format!("erd {{\n{}}}", (0..n / 10).map(|i| format!("n{:05} @\n", i)).collect::<String>())),
    ("different comments", |n| format!("erd {{\n{}}}", (0..n / 10).map(|i| format!("// {:06}\n", i)).collect::<String>())),
    ("words", |n| "word ".repeat(n / 5)),
    ("late error", |n| format!("erd {{ t {{\n{} }}", "a int PK\n".repeat(n / 9))),
    ("late bad character", |n| format!("erd {{ t {{\n{} }} }} @", "a int PK\n".repeat(n / 9))),
];

pub fn read_cost(src: &str) -> Cost {
    measure(|| {
        let _ = seiren::parser::parse(src);
    })
    .1
}
/// Diagrams with about n relations or tables.
pub const DRAWINGS: &[(&str, fn(usize) -> String)] = &[
    ("tables", |n| {
        let mut s = String::from("erd {\n");
        for i in 0..n {
            s += &format!("t{} {{ a int\n b text }}\n", i);
        }
        s + "}"
    }),
    ("chain", |n| {
        let mut s = String::from("erd {\n");
        for i in 0..n {
            s += &format!("t{} {{ a int\n b text }}\n", i);
        }
        for i in 1..n {
            s += &format!("t{}.a o--o t{}.b\n", i - 1, i);
        }
        s + "}"
    }),
    ("star", |n| {
        let mut s = String::from("erd {\n");
        for i in 0..n {
            s += &format!("t{} {{ a int\n b text }}\n", i);
        }
        for i in 1..n {
            s += &format!("t0.a o--o t{}.b\n", i);
        }
        s + "}"
    }),
    ("far", |n| {
        let mut s = String::from("erd {\n");
        for i in 0..n {
            s += &format!("t{} {{ a int\n b text }}\n", i);
        }
        for i in 0..n {
            s += &format!("t{}.a o--o t{}.b\n", i, n - 1 - i);
        }
        s + "}"
    }),
    ("rows", |n| {
        let mut s = String::from("erd {\na {\n");
        for i in 0..n {
            s += &format!("f{} int\n", i);
        }
        s + "}\n}"
    }),
    ("rows related", |n| {
        let mut s = String::from("erd {\na {\n");
        for i in 0..n {
            s += &format!("f{} int\n", i);
        }
        s += "}\nb {\n";
        for i in 0..n {
            s += &format!("f{} int\n", i);
        }
        s += "}\n";
        for i in 0..n {
            s += &format!("a.f{} o--o b.f{}\n", i, n - 1 - i);
        }
        s + "}"
    }),
    ("one relation many times", |n| {
        let mut s = String::from("erd { a { b int }\n c { d int }\n");
        for _ in 0..n {
            s += "a.b o--o c.d\n";
        }
        s + "}"
    }),
    ("self relations", |n| {
        let mut s = String::from("erd { a { b int }\n");
        for _ in 0..n {
            s += "a.b o--o a\n";
        }
        s + "}"
    }),
    ("keys", |n| {
        let mut s = String::from("erd {\n");
        for i in 0..n {
            s += &format!("t{} {{ a int PK\n b uuid FK\n c timestamp }}\n", i);
        }
        s + "}"
    }),
    ("one name many times", |n| {
        let mut s = String::from("erd {\n");
        for _ in 0..n {
            s += "a { a int; a text }\n";
        }
        s + "a.a o--o a\n}"
    }),
    ("a long name", |n| {
        let long = "n".repeat(n);
        format!("erd {{ {} {{ {} int PK }}\n b {{ c int }}\n {}.{} o--o b.c }}", long, long, long, long)
    }),
    ("relations both ways", |n| {
        let mut s = String::from("erd {\n a.b o--o c.d\n");
        for _ in 0..n / 2 {
            s += "a o--o c\nc o--o a\n";
        }
        s + "a { b int }\n c { d int }\n}"
    }),
    ("undefined relations", |n| {
        let mut s = String::from("erd { a { b int }\n");
        for i in 0..n {
            s += &format!("a.b o--o x{}\n", i);
        }
        s + "}"
    }),
];
pub fn draw_cost(src: &str) -> Vec<Cost> {
    let m = seiren::parser::parse(src).0.unwrap();
    let mut v = vec![];
    let (mut doc, c) = measure(|| m.into_mir());
    v.push(c);
    let mut e = SimpleLayoutEngine::new();
    let (vb, c) = measure(|| layout(&mut e, &mut doc));
    v.push(c);
    let (_, c) = measure(|| render(&doc, vb).unwrap());
    v.push(c);
    v
}
/// Growth of a cost between sizes, per unit of size.
fn per(c: u64, n: usize) -> f64 {
    c as f64 / n as f64
}
/// Least CPU time of a few runs, and the rest of the cost.
fn best(runs: usize, f: impl Fn() -> Cost) -> Cost {
    let mut c = f();
    for _ in 1..runs {
        let d = f();
        c.cpu = c.cpu.min(d.cpu);
    }
    c
}

/// Work per character may grow this much over the sizes compared before it
/// counts as growing faster than the text.
const READ_GROWTH: f64 = 3.0;
const READ_CPU_GROWTH: f64 = 6.0;

fn reading(cx: &mut Ctx, name: &str, f: &dyn Fn(usize) -> String, small: usize, big: usize, cpu: bool) -> Res {
    let (a, b) = (f(small), f(big));
    if b.chars().count() < a.chars().count() * 2 {
        return Ok(());
    }
    let (na, nb) = (a.chars().count(), b.chars().count());
    let (x, y) = (read_cost(&a), read_cost(&b));
    let what = |w: &str, p: f64, q: f64| {
        format!("reading a text of {} ({}) takes {:.2} {} per character at {} characters and {:.2} at {}\nthe shorter text: {}", name, w, p, w, na, q, nb, brief(&a))
    };
    // a few hundred of each are free
    let cmp = |w: &str, p: u64, q: u64| -> Res {
        let (p, q) = (per(p + 20 * na as u64, na), per(q, nb));
        ensure!(q <= p * READ_GROWTH, "{}", what(w, p, q));
        Ok(())
    };
    cmp("allocations", x.calls, y.calls)?;
    cmp("bytes", x.bytes, y.bytes)?;
    cmp("bytes at once", x.peak, y.peak)?;
    cx.max("allocated bytes per character", per(y.bytes, nb) as u64);
    if cpu {
        let ok = |x: &Cost, y: &Cost| y.cpu / nb as f64 <= (x.cpu / na as f64).max(0.2e-6) * READ_CPU_GROWTH;
        if !ok(&x, &y) {
            let (x, y) = (best(3, || read_cost(&a)), best(3, || read_cost(&b)));
            ensure!(ok(&x, &y), "{}", what("CPU nanoseconds", x.cpu * 1e9 / na as f64, y.cpu * 1e9 / nb as f64));
        }
        cx.max("CPU nanoseconds per character", (y.cpu * 1e9 / nb as f64) as u64);
        cx.add("texts timed", 2);
    }
    cx.add("texts read", 2);
    cx.max("text chars", nb as u64);
    Ok(())
}
/// A text with a part that can be repeated.
fn pump(r: &mut Rng) -> (String, String, String) {
    let m = super::lang::any_module(r);
    let src = emit(r, &m, 2);
    let cs: Vec<char> = src.chars().take(300).collect();
    let cut = r.below(cs.len() + 1);
    let head: String = cs[..cut].iter().collect();
    let unit: String = match r.below(4) {
        0 => soup(r).chars().take(12).collect(),
        1 => noise(r).chars().take(4).collect(),
        2 if cut > 0 => {
            let k = r.below(cut);
            cs[k..cut.min(k + 40)].iter().collect()
        }
        _ => {
            let k = r.range(1, 4);
            (0..k).map(|_| *r.pick(&["a", " ", "\n", ";", "{", "}", ".", "o--o", "int", "`", "\\", "//", "@", "PK", "\r\n", "erd", "é"])).collect()
        }
    };
    let tail: String = match r.below(3) {
        0 => String::new(),
        1 => cs[cut..].iter().collect(),
        _ => soup(r),
    };
    (head, if unit.is_empty() { "x".into() } else { unit }, tail)
}

/// Work of a drawing may grow this much when the diagram doubles: the third
/// power, with a margin.
const DRAW_GROWTH: f64 = 12.0;

fn drawing(cx: &mut Ctx, name: &str, f: &dyn Fn(usize) -> String, sizes: &[usize]) -> Res {
    let mut last: Option<(usize, Vec<Cost>)> = None;
    for n in sizes {
        let src = f(*n);
        let mut c = draw_cost(&src);
        for (k, step) in ["building", "laying out", "drawing"].iter().enumerate() {
            ensure!(c[k].cpu < 20.0, "{} a diagram of {} ({}) takes {:.1} CPU seconds\nsource: {}", step, name, n, c[k].cpu, brief(&src));
            if let Some((m, p)) = &last {
                let say = |w: &str, x: f64, y: f64| format!("{} a diagram of {} takes {} {} at size {} and {} at size {}\nsource: {}", step, name, x, w, m, y, n, brief(&src));
                let floor = 100_000;
                ensure!((c[k].bytes as f64) <= (p[k].bytes.max(floor) as f64) * DRAW_GROWTH, "{}", say("bytes", p[k].bytes as f64, c[k].bytes as f64));
                ensure!((c[k].peak as f64) <= (p[k].peak.max(floor) as f64) * DRAW_GROWTH, "{}", say("bytes at once", p[k].peak as f64, c[k].peak as f64));
                if c[k].cpu > p[k].cpu.max(0.002) * DRAW_GROWTH {
                    let again = draw_cost(&src);
                    c[k].cpu = c[k].cpu.min(again[k].cpu);
                    let before = draw_cost(&f(*m))[k].cpu.max(p[k].cpu);
                    ensure!(c[k].cpu <= before.max(0.002) * DRAW_GROWTH, "{}", say("CPU seconds", before, c[k].cpu));
                }
                cx.add("doublings of diagrams", 1);
            }
            cx.max(&format!("CPU milliseconds {}", step), (c[k].cpu * 1e3) as u64);
        }
        last = Some((*n, c));
    }
    Ok(())
}

/// Laid-out documents with about n parts of one kind.
pub const DOCUMENTS: &[(&str, fn(usize) -> Document)] = &[
    ("badges", |n| coloured(1, n)),
    ("tables with badges", |n| coloured(n, 1)),
    ("tables", |n| placed(n, 2, &[], "a name")),
    ("tables without fields", |n| placed(n, 0, &[], "a name")),
    ("rows", |n| placed(1, n, &[], "a name")),
    ("relations", |n| placed(2, 2, &vec![4; n], "a name")),
    ("relations with few points", |n| placed(2, 2, &vec![2; n], "a name")),
    ("points of a relation", |n| placed(2, 2, &[n.max(2)], "a name")),
    ("points of two relations", |n| placed(2, 2, &[n / 2 + 2, n / 2 + 2], "a name")),
    ("tables and relations", |n| placed(n / 2, 1, &vec![3; n / 2], "a name")),
    ("characters of names", |n| placed(2, 2, &[3], &"n".repeat(n * 4))),
    ("wide characters of names", |n| placed(2, 2, &[3], &"日🦀".repeat(n * 2))),
    ("special characters of names", |n| placed(2, 2, &[3], &"<&>\"'".repeat(n))),
    ("unprintable characters of names", |n| placed(2, 2, &[3], &"\u{1}\u{ffff}a".repeat(n))),
];
/// As below, with everything a table and a row can have.
fn coloured(tables: usize, rows: usize) -> Document {
    use seiren::color::*;
    let mut d = Document::new();
    let colour = |k: usize| Some(WebColor::RGB(RGBColor::new(k as u8, (k / 3) as u8, 9)));
    let span = |k: usize| TextSpan { text: "a name".into(), color: colour(k), font_family: Some(FontFamily::Monospace1), font_weight: Some(FontWeight::Bold), font_size: Some(FontSize::Small) };
    for t in 0..tables {
        let rec = d.create_record(RecordShape { rounded: true, bg_color: colour(t), border_color: colour(t + 1) });
        let (x, y) = (t as f32 * 400.0, 10.0);
        for j in 0..=rows {
            let badge = Some(Badge { text: "PK".into(), color: colour(j), bg_color: colour(j + 7) });
            let f = d.create_field(FieldShape { title: span(j), subtitle: Some(span(j + 5)), badge, bg_color: colour(j + 2), border_color: colour(j + 3) });
            let n = d.get_node_mut(f).unwrap();
            n.origin = Some(Point::new(x, y + 30.0 * j as f32));
            n.size = Some(Size::new(300.0, 30.0));
            d.get_node_mut(rec).unwrap().append_child(f);
        }
        let n = d.get_node_mut(rec).unwrap();
        n.origin = Some(Point::new(x, y));
        n.size = Some(Size::new(300.0, 30.0 * (rows + 1) as f32));
        d.body_mut().append_child(rec);
    }
    d
}
fn placed(tables: usize, rows: usize, routes: &[usize], name: &str) -> Document {
    let mut d = Document::new();
    let mut ids = vec![];
    let span = || TextSpan { text: name.into(), color: None, font_family: None, font_weight: None, font_size: None };
    for t in 0..tables {
        let rec = d.create_record(RecordShape { rounded: true, bg_color: None, border_color: None });
        let (x, y) = (t as f32 * 400.0, 10.0);
        for j in 0..=rows {
            let f = d.create_field(FieldShape { title: span(), subtitle: (j > 0).then(span), badge: None, bg_color: None, border_color: None });
            let n = d.get_node_mut(f).unwrap();
            n.origin = Some(Point::new(x, y + 30.0 * j as f32));
            n.size = Some(Size::new(300.0, 30.0));
            d.get_node_mut(rec).unwrap().append_child(f);
        }
        let n = d.get_node_mut(rec).unwrap();
        n.origin = Some(Point::new(x, y));
        n.size = Some(Size::new(300.0, 30.0 * (rows + 1) as f32));
        d.body_mut().append_child(rec);
        ids.push(rec);
    }
    for (k, points) in routes.iter().enumerate() {
        let at = |i: usize| Point::new(20.0 * ((i + 1) / 2) as f32, 20.0 * (i / 2 + k) as f32);
        d.add_edge(EdgeData::new(ids[k % ids.len()], ids[(k + 1) % ids.len()], Some((0..*points).map(at).collect())));
    }
    d
}
/// A step whose work should be in proportion to the size.
fn proportional<A>(cx: &mut Ctx, what: &str, sizes: (usize, usize), make: &dyn Fn(usize) -> A, step: &dyn Fn(&A)) -> Res {
    let (small, big) = sizes;
    let (a, b) = (make(small), make(big));
    let cost = |x: &A| measure(|| step(x)).1;
    let (x, y) = (cost(&a), cost(&b));
    for (w, p, q) in [("allocations", x.calls, y.calls), ("bytes", x.bytes, y.bytes), ("bytes at once", x.peak, y.peak)] {
        // some of each are free
        let (p, q) = (per(p + 100 * small as u64, small), per(q, big));
        ensure!(q <= p * READ_GROWTH, "{} takes {:.1} {} apiece with {} of them and {:.1} with {}", what, p, w, small, q, big);
    }
    let ok = |x: &Cost, y: &Cost| y.cpu / big as f64 <= (x.cpu / small as f64).max(1e-6) * READ_CPU_GROWTH;
    if !ok(&x, &y) {
        let (x, y) = (best(3, || cost(&a)), best(3, || cost(&b)));
        ensure!(ok(&x, &y), "{} takes {:.1} CPU microseconds apiece with {} of them and {:.1} with {}", what, x.cpu * 1e6 / small as f64, small, y.cpu * 1e6 / big as f64, big);
    }
    cx.max("CPU nanoseconds per part of a document", (y.cpu * 1e9 / big as f64) as u64);
    Ok(())
}

fn c31(cx: &mut Ctx) -> Res {
    let mut i = cx.idx;
    if i < TEXTS.len() {
        let (name, f) = TEXTS[i];
        // longest first, so that a stack that is used up shows
        let big = cx.tier.n(200_000, 1_600_000);
        reading(cx, name, &f, 4000, 64000, false)?;
        reading(cx, name, &f, big / 16, big, true)?;
        cx.nontrivial(name.as_bytes());
        return Ok(());
    }
    i -= TEXTS.len();
    if i < DRAWINGS.len() {
        let (name, f) = DRAWINGS[i];
        let sizes: &[usize] = if cx.tier == Tier::Thorough { &[8, 16, 32, 64, 128, 256, 512] } else { &[8, 16, 32, 64, 128, 256] };
        drawing(cx, name, &f, sizes)?;
        cx.nontrivial(name.as_bytes());
        return Ok(());
    }
    i -= DRAWINGS.len();
    let sizes = (256, cx.tier.n(4096, 32768));
    if i < DRAWINGS.len() {
        let (name, f) = DRAWINGS[i];
        let make = |n: usize| seiren::parser::parse(&f(n)).0.expect("harness: no module");
        proportional(cx, &format!("building a diagram of {}", name), sizes, &make, &|m| {
            let _ = m.into_mir();
        })?;
        proportional(cx, &format!("printing a module of {}", name), sizes, &make, &|m| {
            let _ = m.to_string();
        })?;
        cx.add("steps in proportion", 2);
        cx.nontrivial(format!("building {}", name).as_bytes());
        return Ok(());
    }
    i -= DRAWINGS.len();
    if i < DOCUMENTS.len() {
        let (name, f) = DOCUMENTS[i];
        proportional(cx, &format!("writing a drawing with many {}", name), sizes, &f, &|d| {
            let _ = render(d, None).expect("harness: not drawn");
        })?;
        cx.add("steps in proportion", 1);
        cx.nontrivial(format!("drawing {}", name).as_bytes());
        return Ok(());
    }
    i -= DOCUMENTS.len();
    if i % 10 == 0 {
        // dozens of tables with random relations, in full
        let nd = cx.rng.range(36, 72);
        let m = module(&mut cx.rng, &Shape { defs: (nd, nd), fields: (1, 10), rels: (nd / 2, 2 * nd), names: 0, unique: true, dangling: false, ordered: true });
        let src = emit(&mut cx.rng, &m, 1);
        let c = draw_cost(&src);
        let t: f64 = c.iter().map(|c| c.cpu).sum();
        ensure!(t < 10.0, "a diagram of {} tables and {} relations takes {:.1} CPU seconds\nsource: {}", nd, m.rels().len(), t, brief(&src));
        cx.add("diagrams of dozens of tables", 1);
        cx.max("CPU milliseconds for dozens of tables", (t * 1e3) as u64);
        cx.nontrivial(src.as_bytes());
        return Ok(());
    }
    let (mut head, mut unit, mut tail) = pump(&mut cx.rng);
    let k = unit.chars().count();
    let text = |h: &str, u: &str, t: &str, n: usize| format!("{}{}{}", h, u.repeat(n / k + 1), t);
    let src = text(&head, &unit, &tail, 3 * k);
    if src.contains('`') && !seiren::parser::parse(&src).1.is_empty() {
        // Where reading resumes after an ill-formed quoted name is a matter of
        // recovery, and so is how often the rest is looked at. The families
        // above have such names; here they are left out.
        for s in [&mut head, &mut unit, &mut tail] {
            *s = s.replace('`', "q");
        }
        cx.add("random parts without their ill-formed names", 1);
    }
    let f = |n: usize| text(&head, &unit, &tail, n);
    reading(cx, &format!("random part {:?} repeated", unit), &f, 2000, 24000, false)?;
    cx.add("random parts repeated", 1);
    cx.nontrivial(f(0).as_bytes());
    cx.sample(|| brief(&f(3 * k)));
    Ok(())
}
pub const C31: Check = Check {
    id: "C31",
    level: "exploration",
    cases: |t: Tier| TEXTS.len() + 2 * DRAWINGS.len() + DOCUMENTS.len() + t.n(600, 20000),
    run: c31,
    rule: "families of texts (one part repeated: every token, mistake, blank, name and comment kind) and random texts with a random part repeated, read at two sizes a factor 12 to 16 apart: allocations, allocated bytes, peak and CPU time per character compared; families of diagrams doubled from 8 to 256 (thorough 512) relations or tables; building, printing and writing modules and documents of many tables, rows, relations, route points and name characters at 256 and 4096 (thorough 32768); random diagrams of 36 to 72 tables; distinct by family or text",
    assumptions: &["work per character may grow threefold (CPU time sixfold) over a factor of 12 to 16 in size, and work twelvefold when a diagram doubles, before that counts as growing too fast", "CPU time is measured again before it counts"],
    need: &[("texts read", 1100), ("texts timed", 80), ("random parts repeated", 450), ("doublings of diagrams", 130), ("steps in proportion", 30), ("diagrams of dozens of tables", 50)],
    exhaustive: false,
    workers: 8,
};

pub fn scale() {
    for (name, f) in TEXTS {
        for n in [1000, 2000, 4000, 8000, 16000, 32000] {
            let s = f(n);
            let c = read_cost(&s);
            println!("{:28} {:7} calls {:6.2}/ch bytes {:9.2}/ch peak {:8.2}/ch kept {} cpu {:8.5} {:.2}us/ch", name, s.len(), c.calls as f64 / n as f64, c.bytes as f64 / n as f64, c.peak as f64 / n as f64, c.kept, c.cpu, c.cpu * 1e6 / n as f64);
        }
    }
    for (name, f) in DRAWINGS {
        for n in [8, 16, 32, 64, 128, 256] {
            let s = f(n);
            let c = draw_cost(&s);
            println!("{:24} {:4} mir {} {:.5} layout {} {} {:.4} render {} {:.5}", name, n, c[0].bytes, c[0].cpu, c[1].calls, c[1].bytes, c[1].cpu, c[2].bytes, c[2].cpu);
            if c[1].cpu > 20.0 {
                break;
            }
        }
    }
}
