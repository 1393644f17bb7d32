//! C27 - C29: geometry and colours.
use super::draw;
use crate::pipe::guard;
use crate::rng::Rng;
use crate::{ensure, Check, Ctx, Res, Tier};
use seiren::color::{NamedColor, RGBColor, WebColor};
use seiren::geometry::{Orientation, Path, PathCommand, Point, Rect, Size};

// ------------------------------------------------------------------ C27

/// Exact fractions with positive denominators.
#[derive(Clone, Copy, Debug)]
struct F(i128, i128);
impl F {
    fn new(n: i128, d: i128) -> F {
        if d < 0 {
            F(-n, -d)
        } else {
            F(n, d)
        }
    }
    fn le(self, o: F) -> bool {
        self.0 * o.1 <= o.0 * self.1
    }
    fn max(self, o: F) -> F {
        if self.le(o) {
            o
        } else {
            self
        }
    }
    fn min(self, o: F) -> F {
        if self.le(o) {
            self
        } else {
            o
        }
    }
    fn f(self) -> f64 {
        self.0 as f64 / self.1 as f64
    }
}
/// The common part of the line a-b and the rectangle x0..x1, y0..y1, as
/// parameters along a-b.
fn common(a: (i64, i64), b: (i64, i64), r: [i64; 4]) -> Option<(F, F)> {
    let (mut lo, mut hi) = (F(0, 1), F(1, 1));
    for (p, d, l, h) in [(a.0, b.0 - a.0, r[0], r[2]), (a.1, b.1 - a.1, r[1], r[3])] {
        if d == 0 {
            if p < l || p > h {
                return None;
            }
        } else {
            let (t0, t1) = (F::new((l - p) as i128, d as i128), F::new((h - p) as i128, d as i128));
            lo = lo.max(t0.min(t1));
            hi = hi.min(t0.max(t1));
        }
    }
    lo.le(hi).then_some((lo, hi))
}

/// Coordinates are whole numbers of `unit`.
fn judge(cx: &mut Ctx, a: (i64, i64), b: (i64, i64), r: [i64; 4], unit: f32) -> Res {
    let f = |v: i64| v as f32 * unit;
    let (p, q) = (Point::new(f(a.0), f(a.1)), Point::new(f(b.0), f(b.1)));
    let rect = Rect::new(Point::new(f(r[0]), f(r[1])), Size::new(f(r[2] - r[0]), f(r[3] - r[1])));
    let inside = |p: (i64, i64)| p.0 > r[0] && p.0 < r[2] && p.1 > r[1] && p.1 < r[3];
    let within = inside(a) && inside(b);
    let want = if within { None } else { common(a, b, r) };
    let why = |m: String| format!("line {:?} - {:?}, {:?}: {}", p, q, rect, m);
    for (s, t, rev) in [(p, q, false), (q, p, true)] {
        let hit = rect.intersects_line(&s, &t);
        ensure!(hit == want.is_some(), "{}", why(format!("reported {}, named {}", if hit { "as intersecting" } else { "as not intersecting" }, if rev { "backwards" } else { "forwards" })));
        let piece = rect.intersected_line(&s, &t);
        ensure!(piece.is_some() == want.is_some(), "{}", why(format!("the reported piece is {:?}", piece)));
        if let (Some((u, v)), Some((lo, hi))) = (piece, want) {
            let at = |t: F| ((a.0 as f64 + (b.0 - a.0) as f64 * t.f()) * unit as f64, (a.1 as f64 + (b.1 - a.1) as f64 * t.f()) * unit as f64);
            let (e, g) = (at(lo), at(hi));
            let tol = 1e-5 * (1.0 + [a.0, a.1, b.0, b.1, r[0], r[1], r[2], r[3]].iter().map(|v| v.abs()).max().unwrap() as f64 * unit as f64);
            let eq = |p: Point, q: (f64, f64)| (p.x as f64 - q.0).abs() <= tol && (p.y as f64 - q.1).abs() <= tol;
            ensure!(eq(u, e) && eq(v, g) || eq(u, g) && eq(v, e), "{}", why(format!("the reported piece is {:?} - {:?}, the common part {:?} - {:?}", u, v, e, g)));
        }
    }
    let kind = match want {
        None if within => "inside",
        None => "apart",
        Some((l, h)) if h.le(l) => "touching in a point",
        Some(_) => "crossing",
    };
    cx.add(kind, 1);
    if a == b {
        cx.add("degenerate lines", 1);
    }
    if r[0] == r[2] || r[1] == r[3] {
        cx.add("degenerate rectangles", 1);
    }
    if b.0 != a.0 && b.1 != a.1 {
        cx.add("slanted lines", 1);
    }
    Ok(())
}

/// Side of the enumerated grid.
const SIDE: i64 = 6;
const GRID: usize = (SIDE * SIDE) as usize;
fn c27(cx: &mut Ctx) -> Res {
    if cx.idx < GRID {
        let a = (cx.idx as i64 % SIDE, cx.idx as i64 / SIDE);
        for bx in 0..SIDE {
            for by in 0..SIDE {
                for x0 in 0..SIDE {
                    for x1 in x0..SIDE {
                        for y0 in 0..SIDE {
                            for y1 in y0..SIDE {
                                judge(cx, a, (bx, by), [x0, y0, x1, y1], 1.0)?;
                                cx.add("placements enumerated", 1);
                            }
                        }
                    }
                }
            }
        }
        cx.nontrivial(&cx.idx.to_le_bytes());
        return Ok(());
    }
    let (span, unit) = *cx.rng.pick(&[(1000i64, 1.0f32), (1000, 0.25), (40, 0.5), (12, 35.0), (400, 2.5), (1000, 1.0 / 1024.0), (1000, 1.0 / 8192.0)]);
    if cx.rng.chance(1, 8) {
        // level and upright lines a hair beside the edges of rectangles of
        // ordinary size: exact in f32, however close
        for _ in 0..200 {
            let r = &mut cx.rng;
            let v = |r: &mut Rng| (r.below(2001) as i64 - 1000) * 4096 + if r.chance(1, 4) { r.range(0, 40) as i64 - 20 } else { 0 };
            let (x0, x1, y0, y1) = (v(r), v(r), v(r), v(r));
            let rc = [x0.min(x1), y0.min(y1), x0.max(x1), y0.max(y1)];
            let c = |r: &mut Rng, l: i64, h: i64| {
                let hair = *r.pick(&[0, 1, -1, 2, -2, 4, -4, 8, -8, 30, -30, 400, -400]);
                match r.below(4) {
                    0 => l + hair,
                    1 => h + hair,
                    2 => l + (h - l) / 2,
                    _ => v(r),
                }
            };
            let a = (c(r, rc[0], rc[2]), c(r, rc[1], rc[3]));
            let b = if r.chance(1, 2) { (a.0, c(r, rc[1], rc[3])) } else { (c(r, rc[0], rc[2]), a.1) };
            judge(cx, a, b, rc, 1.0 / 4096.0)?;
            cx.add("lines a hair beside an edge", 1);
            cx.nontrivial(format!("{:?}{:?}{:?}", a, b, rc).as_bytes());
        }
        return Ok(());
    }
    for _ in 0..200 {
        let r = &mut cx.rng;
        let v = |r: &mut Rng| r.below(2 * span as usize + 1) as i64 - span;
        let (x0, x1, y0, y1) = (v(r), v(r), v(r), v(r));
        let rc = [x0.min(x1), y0.min(y1), x0.max(x1), y0.max(y1)];
        // ends near the rectangle's edges and corners are the interesting ones
        let end = |r: &mut Rng| {
            let c = |r: &mut Rng, l: i64, h: i64| match r.below(7) {
                0 => l,
                1 => h,
                2 => l - 1,
                3 => h + 1,
                4 => l + (h - l) / 2,
                _ => v(r),
            };
            (c(r, rc[0], rc[2]), c(r, rc[1], rc[3]))
        };
        let a = end(r);
        let mut b = end(r);
        match r.below(6) {
            0 => b.0 = a.0,
            1 => b.1 = a.1,
            2 => b = a,
            3 => {
                // through a corner
                let c = (*r.pick(&[rc[0], rc[2]]), *r.pick(&[rc[1], rc[3]]));
                let k = r.range(1, 3) as i64;
                b = (c.0 + (c.0 - a.0) * k, c.1 + (c.1 - a.1) * k);
                if b.0.abs() > span || b.1.abs() > span {
                    b = c;
                }
            }
            _ => {}
        }
        judge(cx, a, b, rc, unit)?;
        cx.nontrivial(format!("{:?}{:?}{:?}{}", a, b, rc, unit).as_bytes());
        cx.sample(|| format!("line {:?} {:?}, rectangle {:?}, unit {}", a, b, rc, unit));
    }
    Ok(())
}
pub const C27: Check = Check {
    id: "C27",
    level: "exploration",
    cases: |t: Tier| t.n(GRID + 80000, GRID + 400000),
    run: c27,
    rule: "every line between two points and every rectangle of a 6 by 6 grid, both ways round, and random placements with up to 2001 values per coordinate and ends on or beside edges and corners, against exact fractions, and level and upright lines a few 4096ths of a unit beside edges; distinct by placement",
    assumptions: &["coordinates are whole multiples of a unit up to 1000 units, so that f32 keeps distinct fractions distinct"],
    need: &[
        ("placements enumerated", 571_536),
        ("inside", 20000),
        ("apart", 100000),
        ("touching in a point", 50000),
        ("crossing", 100000),
        ("slanted lines", 100000),
        ("lines a hair beside an edge", 100000),
        ("degenerate lines", 10000),
        ("degenerate rectangles", 10000),
    ],
    exhaustive: false,
    workers: 8,
};

// ------------------------------------------------------------------ C28

fn c28(cx: &mut Ctx) -> Res {
    for _ in 0..50 {
        let r = &mut cx.rng;
        // multiples of a quarter of a power of two, so that sums are exact
        let small = r.chance(1, 2);
        let unit = if r.chance(1, 2) { 1.0f32 } else { 2f32.powi(r.below(61) as i32 - 40) };
        // what can still be added to any of them
        let fine = unit * if small { 2f32.powi(-14) } else { 2f32.powi(-8) };
        let q = |r: &mut Rng| {
            let m = if small { 16 } else { 40000 };
            (r.below(2 * m + 1) as f32 - m as f32) / 4.0 * unit
        };
        let (a, b) = (Point::new(q(r), q(r)), Point::new(q(r), q(r)));
        let d = (a.x as f64 - b.x as f64).hypot(a.y as f64 - b.y as f64);
        let (g, h) = (a.distance(&b), b.distance(&a));
        ensure!(g == h && (g as f64 - d).abs() <= 1e-5 * d && g >= 0.0, "distance of {:?} and {:?} is {} and {}, should be {}", a, b, g, h, d);
        ensure!(a.distance(&a) == 0.0, "distance of {:?} to itself is {}", a, a.distance(&a));
        // any magnitude that squares without overflow
        let e = |r: &mut Rng| (r.below(2_000_001) as f32 - 1e6) * 10f32.powi(r.below(13) as i32 - 6);
        let (c, f) = (Point::new(e(r), e(r)), Point::new(e(r), e(r)));
        let d = (c.x as f64 - f.x as f64).hypot(c.y as f64 - f.y as f64);
        let (g, h) = (c.distance(&f), f.distance(&c));
        let tol = 1e-5 * d + 1e-6 * [c.x, c.y, f.x, f.y].iter().fold(0.0f32, |m, v| m.max(v.abs())) as f64;
        ensure!(g == h && (g as f64 - d).abs() <= tol, "distance of {:?} and {:?} is {} and {}, should be {}", c, f, g, h, d);
        // directions
        let l = if r.chance(1, 2) { (r.range(1, 4000) as f32) / 4.0 * unit } else { fine * r.range(1, 4) as f32 };
        for (to, o) in [
            (Point::new(a.x, a.y - l), Orientation::Up),
            (Point::new(a.x, a.y + l), Orientation::Down),
            (Point::new(a.x - l, a.y), Orientation::Left),
            (Point::new(a.x + l, a.y), Orientation::Right),
        ] {
            ensure!(a.orthogonal_direction(&to) == o, "direction from {:?} to {:?} is {:?}", a, to, a.orthogonal_direction(&to));
        }
        // rectangles
        let s = Size::new(r.below(4000) as f32 / 4.0 * unit, if r.chance(1, 10) { 0.0 } else { r.below(4000) as f32 / 4.0 * unit });
        let rc = Rect::new(a, s);
        let got = [rc.min_x(), rc.mid_x(), rc.max_x(), rc.min_y(), rc.mid_y(), rc.max_y(), rc.width(), rc.height(), rc.center().x, rc.center().y, rc.origin().x, rc.origin().y, rc.size().width, rc.size().height];
        let mid = (a.x + s.width / 2.0, a.y + s.height / 2.0);
        let want = [a.x, mid.0, a.x + s.width, a.y, mid.1, a.y + s.height, s.width, s.height, mid.0, mid.1, a.x, a.y, s.width, s.height];
        ensure!(got == want, "measures of {:?} are {:?}, should be {:?}", rc, got, want);
        ensure!(rc == Rect::new(rc.origin, rc.size), "a rectangle does not equal itself");
        // containment, on and beside every edge
        let n = if r.chance(1, 2) { fine } else { unit / 4.0 };
        let xs = [a.x - n, a.x, a.x + n, mid.0, a.x + s.width - n, a.x + s.width, a.x + s.width + n, b.x];
        let ys = [a.y - n, a.y, a.y + n, mid.1, a.y + s.height - n, a.y + s.height, a.y + s.height + n, b.y];
        for x in xs {
            for y in ys {
                let want = x >= a.x && x <= a.x + s.width && y >= a.y && y <= a.y + s.height;
                let p = Point::new(x, y);
                ensure!(rc.contains_point(&p) == want, "{:?} contains {:?}: {}", rc, p, !want);
            }
        }
        // insets
        let (dx, dy) = (q(r), q(r));
        let i = rc.inset_by(dx, dy);
        let want = Rect::new(Point::new(a.x + dx, a.y + dy), Size::new((s.width - 2.0 * dx).max(0.0), (s.height - 2.0 * dy).max(0.0)));
        ensure!(i == want, "{:?} inset by {} {} is {:?}, should be {:?}", rc, dx, dy, i, want);
        if s.width >= 2.0 * dx && s.height >= 2.0 * dy {
            ensure!(i.center() == rc.center(), "insetting {:?} by {} {} moved its centre", rc, dx, dy);
            cx.add("insets that keep the centre", 1);
        } else {
            cx.add("insets larger than the rectangle", 1);
        }
        cx.add("rectangles", 1);
    }
    // paths
    let r = &mut cx.rng;
    let pt = |r: &mut Rng| Point::new(r.below(100) as f32 / 4.0, r.below(100) as f32 / 4.0);
    let first = pt(r);
    let mut path = Path::new(first);
    let mut model: Vec<String> = vec![format!("{:?}", PathCommand::MoveTo(first))];
    let mut last = first;
    for _ in 0..r.below(40) {
        let p = pt(r);
        match r.below(3) {
            0 => {
                path.move_to(p);
                model.push(format!("{:?}", PathCommand::MoveTo(p)));
            }
            1 => {
                path.line_to(p);
                model.push(format!("{:?}", PathCommand::LineTo(p)));
            }
            _ => {
                let c = pt(r);
                path.quad_to(c, p);
                model.push(format!("{:?}", PathCommand::QuadTo(c, p)));
            }
        }
        last = p;
        let got: Vec<String> = path.commands().map(|c| format!("{:?}", c)).collect();
        ensure!(got == model && path.commands().len() == model.len(), "path is {:?}, should be {:?}", got, model);
        let (s, e) = guard(|| (*path.start_point(), *path.end_point())).map_err(|p| format!("panic: {}", p))?;
        ensure!(s == first && e == last, "path {:?} goes from {:?} to {:?}", model, s, e);
        cx.stats.counts.entry("path commands".into()).and_modify(|n| *n += 1).or_insert(1);
    }
    ensure!(*path.start_point() == first && *path.end_point() == last, "ends of path {:?}", model);
    cx.nontrivial(format!("{:?}", model).as_bytes());
    cx.sample(|| format!("{:?}", model));
    Ok(())
}
pub const C28: Check = Check {
    id: "C28",
    level: "exploration",
    cases: |t: Tier| t.n(24000, 200000),
    run: c28,
    rule: "reference arithmetic on multiples of 1/4 (where f32 is exact) and, for distances, on numbers from 1e-6 to 1e12; points on and beside every edge; path histories against a list; distinct by path",
    assumptions: &["numbers are finite and their squares do not overflow"],
    need: &[("rectangles", 50000), ("insets that keep the centre", 10000), ("insets larger than the rectangle", 1000), ("path commands", 20000)],
    exhaustive: false,
    workers: 8,
};

// ------------------------------------------------------------------ C29

fn c29(cx: &mut Ctx) -> Res {
    if cx.idx < 256 {
        const HEX: &[u8] = b"0123456789ABCDEF";
        let red = cx.idx as u8;
        let mut want = *b"#000000";
        let put = |w: &mut [u8; 7], at: usize, v: u8| {
            w[at] = HEX[(v >> 4) as usize];
            w[at + 1] = HEX[(v & 15) as usize];
        };
        put(&mut want, 1, red);
        for green in 0..=255u8 {
            put(&mut want, 3, green);
            for blue in 0..=255u8 {
                put(&mut want, 5, blue);
                let c = RGBColor::new(red, green, blue);
                ensure!((c.red, c.green, c.blue) == (red, green, blue), "RGBColor::new({}, {}, {}) holds {:?}", red, green, blue, c);
                let s = c.to_string();
                ensure!(s.as_bytes() == want, "colour {} {} {} is written {:?}", red, green, blue, s);
                if blue % 16 == 0 {
                    let w = WebColor::RGB(c).to_string();
                    ensure!(w == s, "as a web colour {:?} is written {:?}", s, w);
                }
            }
        }
        cx.add("colours", 65536);
        cx.nontrivial(&[red]);
        for (c, s) in [(NamedColor::White, "white"), (NamedColor::Black, "black")] {
            ensure!(c.to_string() == s && WebColor::Named(c).to_string() == s, "{:?} is written {:?}", c, c.to_string());
        }
        return Ok(());
    }
    // colours in drawings
    let doc = draw::free_document(&mut cx.rng);
    let svg = draw::draw(&doc, None, None)?;
    let wrap = |e: String| format!("{}\n{}", e, crate::pipe::dump(&doc));
    let root = draw::read(&svg).map_err(&wrap)?;
    draw::tables(&root, &doc, None, cx).map_err(&wrap)?;
    cx.add("coloured drawings", 1);
    cx.nontrivial(svg.as_bytes());
    cx.sample(|| svg.clone());
    Ok(())
}
pub const C29: Check = Check {
    id: "C29",
    level: "exploration",
    cases: |t: Tier| t.n(256 + 12000, 256 + 100000),
    run: c29,
    rule: "all 16777216 colours written out, and drawings of documents with random colours compared shape by shape; distinct by red value or drawing",
    assumptions: &[],
    need: &[("colours", 16_777_216), ("coloured drawings", 2000), ("rows compared", 10000)],
    exhaustive: false,
    workers: 8,
};
