//! C30: everything again, under sanitizers.
use super::{draw, geom, lang, layout, model, run};
use crate::alloc::measure;
use crate::gen::*;
use crate::pipe::*;
use crate::rng::Rng;
use crate::{ensure, Check, Ctx, Res, Tier};
use seiren::layout::SimpleLayoutEngine;
use seiren::renderer::{Renderer, SVGRenderer};
use std::io::Write;
use std::process::{Command, Stdio};

/// Every byte of a string makes sense, or something undefined made it.
fn sound(what: &str, bytes: &[u8]) {
    if let Err(e) = std::str::from_utf8(std::hint::black_box(bytes)) {
        panic!("unsafe precondition: {} is no UTF-8 at byte {}", what, e.valid_up_to());
    }
}
/// Read, print, lay out and draw a text in every way the library offers.
fn everything(src: &str) -> u64 {
    let (ast, lx, pr) = seiren::parser::parse(src);
    let mut sink = std::io::sink();
    for e in &lx {
        let _ = write!(sink, "{} {:?} {:?}", e, e, e.span());
    }
    for e in &pr {
        let _ = write!(sink, "{} {:?} {:?}", e, e, e.span());
    }
    let Some(m) = ast else { return 0 };
    for (n, f) in crate::refl::RModule::from_api(&m).defs() {
        sound("a name", n.as_bytes());
        f.iter().for_each(|f| sound("a name", f.name.as_bytes()));
    }
    sound("a name", m.name().unwrap_or("").as_bytes());
    sound("a printed module", m.to_string().as_bytes());
    let _ = write!(sink, "{:?}", m);
    let mut doc = m.into_mir();
    let mut engine = SimpleLayoutEngine::new();
    let vb = crate::pipe::layout(&mut engine, &mut doc);
    let _ = write!(sink, "{:?}", doc);
    let _ = crate::pipe::layout(&mut engine, &mut doc);
    let mut out = vec![];
    let mut r = SVGRenderer::new();
    r.view_box = vb;
    let _ = r.render(&doc, &mut out);
    r.edge_route_graph = Some(engine.edge_route_graph());
    let _ = r.render(&doc, &mut out);
    let _ = seiren::evcxr::draw_erd(&doc, vb);
    sound("a drawing", &out);
    out.len() as u64
}
/// A name with an escape that denotes a character, or none.
fn escaped(r: &mut Rng) -> String {
    let code = match r.below(4) {
        0 => 0xD800 + r.below(0x800),
        1 => *r.pick(&[0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xD7FF, 0xE000, 0xFFFE, 0xFFFF, 0, 0x7F, 0x80]),
        _ => r.below(0x10000),
    };
    let more = if r.chance(1, 4) { format!("\\u{:04x}", 0xDC00 + r.below(0x400)) } else { String::new() };
    let name = format!("`{}\\u{:04x}{}`", r.pick(&["", "x", "é"]), code, more);
    match r.below(3) {
        0 => format!("erd{}{{}}", name),
        1 => format!("erd{{{}{{x int}}}}", name),
        _ => format!("erd{{a{{{} int}}}}", name),
    }
}
fn any_text(cx: &mut Ctx) -> String {
    match cx.rng.below(9) {
        0 | 1 => lang::hostile(cx),
        8 => escaped(&mut cx.rng),
        2 | 3 => {
            let m = layout::routed(&mut cx.rng);
            emit(&mut cx.rng, &m, 2)
        }
        _ => {
            let m = lang::any_module(&mut cx.rng);
            emit(&mut cx.rng, &m, 2)
        }
    }
}

/// Panics that stand for arithmetic overflow or memory misuse.
fn bad_panic(p: &str) -> bool {
    p.contains("attempt to") || p.contains("unsafe precondition") || p.contains("misaligned") || p.contains("null pointer")
}

/// `mon small SEED COUNT`: a workload light enough for an interpreter, which
/// reports undefined behaviour itself. Reading costs it seconds per word, so
/// texts are short and the modules to draw are built directly.
pub fn small(seed: u64, count: usize) {
    let mut r = Rng::new(seed);
    let mut bytes = 0;
    for i in 0..count {
        let names = r.below(2) as u8;
        let done = if i % 2 == 0 {
            let s = Shape { defs: (1, 2), fields: (0, 2), rels: (1, 2), names, unique: false, dangling: false, ordered: false };
            let mut m = module(&mut r, &s);
            for e in &mut m.entries {
                if let crate::refl::REntry::Def(n, f) = e {
                    *n = n.chars().take(4).collect();
                    f.iter_mut().for_each(|f| f.name = f.name.chars().take(4).collect());
                }
            }
            guard(|| {
                let mut doc = m.to_api().into_mir();
                let mut engine = SimpleLayoutEngine::new();
                let vb = crate::pipe::layout(&mut engine, &mut doc);
                let mut out = vec![];
                let mut r = SVGRenderer::new();
                r.view_box = vb;
                r.edge_route_graph = Some(engine.edge_route_graph());
                let _ = r.render(&doc, &mut out);
                out.len() as u64
            })
        } else {
            let src = match if i == 1 { 3 } else { r.below(4) } {
                0 => soup(&mut r),
                1 => noise(&mut r),
                2 => "erd{a{`\\u00e9`int PK}a o--o a}".to_string(),
                _ if i == 1 => "erd`\\ud800`{}".to_string(),
                _ if r.chance(1, 2) => escaped(&mut r),
                _ => {
                    let s = Shape { defs: (1, 1), fields: (1, 1), rels: (0, 1), names, unique: false, dangling: false, ordered: false };
                    let m = module(&mut r, &s);
                    let t = emit(&mut r, &m, 0);
                    if r.chance(1, 2) {
                        mutate(&mut r, &t)
                    } else {
                        t
                    }
                }
            };
            let src: String = src.chars().take(30).collect();
            guard(|| {
                let (ast, lx, pr) = seiren::parser::parse(&src);
                (format!("{:?} {:?}", lx, pr).len() + ast.map_or(0, |m| m.to_string().len())) as u64
            })
        };
        match done {
            Ok(n) => bytes += n,
            Err(p) => {
                if bad_panic(&p) {
                    eprintln!("overflow: {}", p);
                    std::process::exit(1);
                }
            }
        }
    }
    println!("small: {} steps, {} bytes made", count, bytes);
}

/// `mon memory SEED COUNT`: texts and documents of every size; built with
/// MemorySanitizer, which reports any use of memory never written.
pub fn memory(seed: u64, count: usize) {
    let mut r = Rng::new(seed);
    let (mut bytes, mut longest) = (0, 0);
    for i in 0..count {
        let name = |r: &mut Rng, n: usize| -> String {
            let unit = match r.below(3) {
                0 => any_name(r),
                1 => r.pick(&["&", "<b>", "é", "日", "🦀", "a", " ", "\u{1}", "\\", "\r"]).to_string(),
                _ => format!("{}{}", any_name(r), any_name(r)),
            };
            let k = unit.chars().count().max(1);
            unit.repeat(n / k + 1).chars().take(n).collect()
        };
        let mut m = match i % 3 {
            0 => layout::routed(&mut r),
            _ => lang::any_module(&mut r),
        };
        for e in &mut m.entries {
            if let crate::refl::REntry::Def(n, f) = e {
                for s in std::iter::once(n).chain(f.iter_mut().map(|f| &mut f.name)) {
                    if r.chance(1, 6) {
                        // lengths around those of buffers
                        let k = *r.pick(&[7usize, 8, 15, 16, 17, 22, 23, 24, 31, 32, 33, 63, 64, 65, 100, 127, 128, 255, 256, 300, 511, 513, 1100, 4100]);
                        *s = name(&mut r, k);
                        longest = longest.max(k);
                    }
                }
            }
        }
        let done = if i % 4 == 3 {
            let doc = if i % 8 == 3 { draw::free_document(&mut r) } else { draw::vast(&mut r, i / 8 % draw::KINDS_OF_MUCH, [20, 140, 300][i / 32 % 3]) };
            guard(|| draw::draw(&doc, None, None).map_or(0, |s| s.len() as u64))
        } else {
            let t = emit(&mut r, &m, 2);
            let src = match r.below(5) {
                0 => mutate(&mut r, &t),
                1 => soup(&mut r),
                _ => t,
            };
            guard(|| everything(&src))
        };
        match done {
            Ok(n) => bytes += n,
            Err(p) => {
                if bad_panic(&p) {
                    eprintln!("overflow: {}", p);
                    std::process::exit(1);
                }
            }
        }
    }
    println!("memory: {} texts and documents, names of up to {} characters, {} bytes made", count, longest, bytes);
}

/// `mon threads SEED COUNT`: several threads read, lay out, draw and display
/// at the same time; built with ThreadSanitizer, which reports data races. Each
/// must also come to what it comes to alone.
pub fn threads(seed: u64, count: usize) {
    let mut r = Rng::new(seed);
    let mut done = 0;
    for _ in 0..count {
        let n = *r.pick(&[2, 3, 4, 6]);
        let same = r.chance(1, 3);
        let mut texts: Vec<String> = vec![];
        for i in 0..n {
            if i > 0 && same {
                texts.push(texts[0].clone());
                continue;
            }
            texts.push(match r.below(4) {
                0 => soup(&mut r),
                1 => {
                    let m = layout::routed(&mut r);
                    emit(&mut r, &m, 1)
                }
                _ => {
                    let s = Shape { defs: (1, 4), fields: (0, 4), rels: (0, 4), names: 1, unique: false, dangling: true, ordered: false };
                    let m = module(&mut r, &s);
                    let t = emit(&mut r, &m, 2);
                    if r.chance(1, 4) {
                        mutate(&mut r, &t)
                    } else {
                        t
                    }
                }
            });
        }
        // One document drawn by all of them at once, too.
        let m = layout::routed(&mut r);
        let mut doc = m.to_api().into_mir();
        let mut engine = SimpleLayoutEngine::new();
        let vb = crate::pipe::layout(&mut engine, &mut doc);
        let (doc, engine) = (&doc, &engine);
        let shared = |overlay: bool| {
            guard(|| {
                let mut out = vec![];
                let mut r = SVGRenderer::new();
                r.view_box = vb;
                r.edge_route_graph = overlay.then(|| engine.edge_route_graph());
                r.render(doc, &mut out).map(|_| out).map_err(|e| e.to_string())
            })
        };
        let alone = shared(true);
        let gate = std::sync::Barrier::new(n);
        let work: Vec<u64> = std::thread::scope(|s| {
            let hs: Vec<_> = texts
                .iter()
                .map(|t| {
                    let (gate, shared, alone) = (&gate, &shared, &alone);
                    s.spawn(move || {
                        gate.wait();
                        let a = guard(|| everything(t)).unwrap_or(0);
                        let b = shared(true);
                        if b != *alone {
                            eprintln!("another drawing: a document drawn by several threads at once");
                            std::process::exit(1);
                        }
                        let _ = guard(|| crate::checks::run::outcome(t).is_ok());
                        a
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        for (t, w) in texts.iter().zip(work) {
            if guard(|| everything(t)).unwrap_or(0) != w {
                eprintln!("another drawing: {}", brief(t));
                std::process::exit(1);
            }
        }
        done += n;
    }
    println!("threads: {} threads, no race", done);
}

/// Checks whose workloads run again here. Their own verdicts are not this
/// property's; only the sanitizer's is, and that of the overflow checks.
const OTHERS: &[&Check] = &[
    &lang::C01, &lang::C02, &lang::C03, &lang::C05, &lang::C06, &model::C07, &model::C08, &layout::C09, &layout::C10, &layout::C11, &layout::C13,
    &layout::C15, &layout::C16, &draw::C14, &draw::C17, &draw::C18, &draw::C19, &draw::C20, &draw::C21, &run::C23, &geom::C27, &geom::C28, &draw::C32,
];

fn interpreted(t: Tier) -> usize {
    if std::env::var_os("MON_MIRI").is_some() {
        t.n(6, 96)
    } else {
        0
    }
}
fn raced(t: Tier) -> usize {
    if std::env::var_os("MON_TSAN").is_some() {
        t.n(24, 400)
    } else {
        0
    }
}
fn initialised(t: Tier) -> usize {
    if std::env::var_os("MON_MSAN").is_some() {
        t.n(16, 400)
    } else {
        0
    }
}
/// The large cases of other checks.
const LARGE: &[(&Check, &[usize])] = &[
    (&lang::C01, &[125]),
    (&lang::C02, &[200, 700]),
    (&lang::C05, &[400]),
    (&model::C07, &[0, 1, 3]),
    (&model::C08, &[0, 1, 2, 3, 4]),
    (&layout::C09, &[363, 364, 365, 366, 367, 368, 369, 370, 371, 372, 373, 374, 375, 376]),
    (&draw::C18, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15]),
    (&draw::C20, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11]),
    (&draw::C32, &[0, 1, 2, 3, 4, 5, 6, 7]),
];
fn large_case(k: usize) -> Option<(&'static Check, usize)> {
    LARGE.iter().flat_map(|(c, v)| v.iter().map(move |i| (*c, *i))).nth(k)
}
fn other(cx: &mut Ctx, c: &Check, case: usize) -> Res {
    let idx = cx.idx;
    cx.idx = case;
    let before = std::mem::take(&mut cx.stats);
    let r = guard(|| (c.run)(cx));
    cx.idx = idx;
    cx.stats = before;
    match r {
        Err(p) => ensure!(!bad_panic(&p), "in the workload of {}: {}", c.id, p),
        Ok(Err(m)) => ensure!(!(m.contains("panicked") && bad_panic(&m)), "in the workload of {}: {}", c.id, m),
        Ok(Ok(())) => {}
    }
    Ok(())
}
fn c30(cx: &mut Ctx) -> Res {
    let from = interpreted(cx.tier) + raced(cx.tier);
    if cx.idx >= from && cx.idx < from + initialised(cx.tier) {
        let count = cx.tier.n(40, 160).to_string();
        let seed = cx.rng.next().to_string();
        let o = Command::new(std::env::var("MON_MSAN").unwrap()).args(["memory", &seed, &count]).stdin(Stdio::null()).output().unwrap();
        let err = String::from_utf8_lossy(&o.stderr).into_owned();
        ensure!(!err.contains("MemorySanitizer: ") && !err.contains("overflow: "), "memory that was never written is used:\n{}", brief(&err));
        if !o.status.success() {
            cx.add("MemorySanitizer runs that failed to start or finish", 1);
            eprintln!("{}", err);
            return Ok(());
        }
        cx.add("texts and documents under MemorySanitizer", count.parse().unwrap());
        cx.nontrivial(seed.as_bytes());
        return Ok(());
    }
    let from = from + initialised(cx.tier);
    if let Some((c, k)) = cx.idx.checked_sub(from).and_then(large_case) {
        other(cx, c, k)?;
        cx.add("large cases of other checks", 1);
        #[cfg(mon_asan)]
        cx.add("cases under AddressSanitizer", 1);
        cx.nontrivial(format!("{} {}", c.id, k).as_bytes());
        return Ok(());
    }
    let n = interpreted(cx.tier);
    if cx.idx >= n && cx.idx < n + raced(cx.tier) {
        let count = cx.tier.n(12, 40).to_string();
        let seed = cx.rng.next().to_string();
        let o = Command::new(std::env::var("MON_TSAN").unwrap()).args(["threads", &seed, &count]).stdin(Stdio::null()).output().unwrap();
        let err = String::from_utf8_lossy(&o.stderr).into_owned();
        ensure!(!err.contains("WARNING: ThreadSanitizer") && !err.contains("another drawing: "), "threads at work at the same time:\n{}", brief(&err));
        if !o.status.success() {
            cx.add("thread runs that failed to start or finish", 1);
            eprintln!("{}", err);
            return Ok(());
        }
        let out = String::from_utf8_lossy(&o.stdout).into_owned();
        let k: u64 = out.lines().filter_map(|l| l.strip_prefix("threads: ")?.split(' ').next()?.parse::<u64>().ok()).sum();
        cx.add("threads under ThreadSanitizer", k);
        cx.nontrivial(seed.as_bytes());
        return Ok(());
    }
    if cx.idx < n {
        let bin = std::env::var("MON_MIRI").unwrap();
        let count = cx.tier.n(4, 16).to_string();
        let seed = cx.rng.next().to_string();
        let o = Command::new("sh").args([&bin, &seed, &count]).stdin(Stdio::null()).output().unwrap();
        let err = String::from_utf8_lossy(&o.stderr).into_owned();
        ensure!(!err.contains("Undefined Behavior") && !err.contains("memory leaked") && !err.contains("overflow: "), "the interpreter reports\n{}", brief(&err));
        if !o.status.success() {
            // nothing was observed
            cx.add("interpreter runs that failed to start or finish", 1);
            eprintln!("{}", err);
            return Ok(());
        }
        cx.add("interpreted steps", count.parse().unwrap());
        cx.nontrivial(seed.as_bytes());
        return Ok(());
    }
    if cx.idx % 40 == 9 {
        return balance(cx);
    }
    if cx.idx % 3 > 0 {
        let src = if cx.idx % 120 == 7 {
            let (_, f) = *cx.rng.pick(super::cost::TEXTS);
            f(cx.rng.range(200, 3000))
        } else {
            any_text(cx)
        };
        match guard(|| everything(&src)) {
            Ok(n) => cx.max("bytes drawn", n),
            Err(p) => ensure!(!bad_panic(&p), "{}\nsource: {}", p, brief(&src)),
        }
        cx.add("texts through everything", 1);
        cx.nontrivial(src.as_bytes());
        cx.sample(|| brief(&src));
    } else {
        let c = OTHERS[cx.rng.below(OTHERS.len())];
        let case = cx.rng.below((c.cases)(Tier::Quick));
        other(cx, c, case)?;
        cx.add("cases of other checks", 1);
        cx.add(&format!("cases of {}", c.id), 1);
    }
    #[cfg(mon_asan)]
    cx.add("cases under AddressSanitizer", 1);
    Ok(())
}
/// Nothing is held after the results are gone: in a long series of texts the
/// memory in use stays level.
fn balance(cx: &mut Ctx) -> Res {
    let texts: Vec<String> = (0..40).map(|_| any_text(cx).chars().take(1500).collect()).collect();
    let mut grown = vec![];
    for (i, t) in texts.iter().enumerate() {
        let (r, c) = measure(|| guard(|| everything(t)).is_ok());
        if !r {
            return Ok(());
        }
        if i >= 20 && c.kept > 0 {
            grown.push(c.kept);
        }
    }
    ensure!(grown.len() < 15, "memory grows: of 20 texts read and drawn after 20 others, {} leave memory in use behind: {:?} bytes\nthe last: {}", grown.len(), grown, brief(&texts[39]));
    cx.add("series with level memory use", 1);
    #[cfg(mon_asan)]
    cx.add("cases under AddressSanitizer", 1);
    Ok(())
}
pub const C30: Check = Check {
    id: "C30",
    level: "exploration",
    cases: |t: Tier| interpreted(t) + raced(t) + initialised(t) + LARGE.iter().map(|l| l.1.len()).sum::<usize>() + t.n(2400, 100000),
    run: c30,
    rule: "built with AddressSanitizer, debug assertions and overflow checks: programs, hostile and long texts read, printed, laid out twice, drawn with and without the overlay and for the notebook; the large cases of other checks (up to 70 000 tables, rows, relations or points), and their workloads at random; series of 40 texts with memory in use compared; short texts and small modules in the Miri interpreter; several threads reading, drawing and displaying at once in a build with ThreadSanitizer; texts with names of every length, and documents, in a build with MemorySanitizer; distinct by text",
    assumptions: &["only executed code is judged", "running for long is no violation of this property", "the standard library is not instrumented by AddressSanitizer (its allocations and copies are intercepted); Miri interprets it too"],
    need: &[("texts through everything", 500), ("cases of other checks", 250), ("large cases of other checks", 62), ("cases under AddressSanitizer", 800), ("series with level memory use", 20)],
    exhaustive: false,
    workers: 8,
};
