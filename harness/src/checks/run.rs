//! C22 - C26: whole runs, in process and as the program.
use super::draw::{bulky, draw, free_document, read, text_of, vast, KINDS_OF_MUCH, MUCH};
use super::lang::{any_module, hostile, parse};
use super::layout::routed;
use crate::gen::*;
use crate::pipe::*;
use crate::proc;
use crate::refl::*;
use crate::rng::Rng;
use crate::xml::{xml_char, El};
use crate::{ensure, Check, Ctx, Res, Tier};
use seiren::evcxr::CustomDisplay;
use seiren::layout::SimpleLayoutEngine;
use std::os::unix::process::CommandExt;
use std::process::{Command, Stdio};
use std::sync::{Arc, Barrier};

type R<A> = Result<A, String>;

/// One diagnostic: its span, what was found and expected, and why.
#[derive(Debug, Clone, PartialEq)]
pub struct Diag {
    start: usize,
    end: usize,
    text: String,
}
/// What the library makes of a text: the drawing and the diagnostics.
#[derive(Debug, Clone, PartialEq)]
pub struct Outcome {
    pub svg: Option<String>,
    pub lex: Vec<Diag>,
    pub par: Vec<Diag>,
}
fn sorted(mut v: Vec<String>) -> String {
    v.sort();
    v.join(" ")
}
pub fn outcome(src: &str) -> R<Outcome> {
    let (ast, lx, pr) = parse(src)?;
    let lex = lx
        .iter()
        .map(|e| Diag {
            start: e.span().start,
            end: e.span().end,
            text: format!("{:?} {:?} {:?} [{}]", e.reason(), e.label(), e.found(), sorted(e.expected().map(|x| format!("{:?}", x)).collect())),
        })
        .collect();
    let par = pr
        .iter()
        .map(|e| Diag {
            start: e.span().start,
            end: e.span().end,
            text: format!("{:?} {:?} {:?} [{}]", e.reason(), e.label(), e.found(), sorted(e.expected().map(|x| format!("{:?}", x)).collect())),
        })
        .collect();
    let svg = match ast {
        None => None,
        Some(m) => Some(picture(&m, src)?),
    };
    Ok(Outcome { svg, lex, par })
}
fn picture(m: &seiren::erd::Module, what: &str) -> R<String> {
    guard(|| {
        let mut doc = m.into_mir();
        let mut engine = SimpleLayoutEngine::new();
        let vb = layout(&mut engine, &mut doc);
        render(&doc, vb)
    })
    .map_err(|p| format!("drawing panicked: {}\nsource: {}", p, brief(what)))?
}

/// A text: a program as often as not.
fn text(cx: &mut Ctx) -> String {
    if cx.rng.chance(1, 150) {
        let m = bulky(&mut cx.rng);
        return emit(&mut cx.rng, &m, 2);
    }
    match cx.rng.below(6) {
        0 | 1 => loop {
            let s = hostile(cx);
            if s.len() < 20000 {
                break s;
            }
        },
        2 | 3 => {
            let m = routed(&mut cx.rng);
            emit(&mut cx.rng, &m, 2)
        }
        _ => {
            let m = any_module(&mut cx.rng);
            emit(&mut cx.rng, &m, 2)
        }
    }
}
fn differ(a: &Outcome, b: &Outcome) -> String {
    if a.svg != b.svg {
        let (x, y) = (a.svg.clone().unwrap_or_default(), b.svg.clone().unwrap_or_default());
        let k = x.bytes().zip(y.bytes()).take_while(|(p, q)| p == q).count();
        let cut = |s: &str| String::from_utf8_lossy(&s.as_bytes()[k.saturating_sub(40)..(k + 80).min(s.len())]).into_owned();
        format!("drawings differ at byte {}: {:?} / {:?}", k, cut(&x), cut(&y))
    } else {
        format!("diagnostics differ: {:?} {:?} / {:?} {:?}", a.lex, a.par, b.lex, b.par)
    }
}

// ------------------------------------------------------------------ C22

const ENVS: &[&[(&str, &str)]] = &[
    &[],
    &[("NO_COLOR", "1"), ("TERM", "dumb")],
    &[("LANG", "de_DE.UTF-8"), ("LC_ALL", "de_DE.UTF-8"), ("TZ", "Pacific/Kiritimati")],
    &[("LANG", "C"), ("LC_ALL", "C"), ("TERM", "xterm-256color"), ("COLUMNS", "20"), ("LINES", "3")],
    &[("CLICOLOR_FORCE", "1"), ("FORCE_COLOR", "1"), ("COLORTERM", "truecolor"), ("SOURCE_DATE_EPOCH", "1")],
    &[("RUST_LOG", "trace"), ("RUST_MIN_STACK", "1000000"), ("DEBUG", "1"), ("SEIREN_DEBUG", "1"), ("USER", "nobody")],
];
/// What a variable that is looked up might be set to.
const SETTINGS: &[&str] = &["", "0", "1", "2", "7", "40", "true", "false", "never", "always", "dumb", "trace", "de_DE.UTF-8", "/", "x"];
/// The module with one thing exchanged for another of the same size: whatever
/// is remembered under a digest, a length or some counts meets its like.
fn lookalike(r: &mut Rng, m: &RModule) -> RModule {
    let mut m = m.clone();
    let n = m.entries.len();
    if n == 0 {
        return m;
    }
    let rename = |r: &mut Rng, s: &mut String| {
        let mut c: Vec<char> = s.chars().collect();
        if c.is_empty() {
            return;
        }
        match r.below(3) {
            0 => c.reverse(),
            1 => {
                let k = r.below(c.len());
                c.rotate_left(k);
            }
            _ => {
                let k = *r.pick(&[0, c.len() - 1, c.len() / 2]);
                c[k] = match c[k] {
                    'a' => 'b',
                    'A' => 'B',
                    _ => 'a',
                };
            }
        }
        let t: String = c.into_iter().collect();
        if t.starts_with(|c: char| !c.is_ascii_digit()) && !KEYWORDS.contains(&t.as_str()) {
            *s = t;
        }
    };
    for _ in 0..r.range(1, 2) {
        let i = r.below(n);
        let j = r.below(n);
        if r.chance(1, 4) {
            m.entries.swap(i, j);
            continue;
        }
        match &mut m.entries[i] {
            REntry::Rel(a, b) => match r.below(3) {
                0 => std::mem::swap(a, b),
                1 => std::mem::swap(&mut a.1, &mut b.1),
                _ => rename(r, &mut a.0),
            },
            REntry::Def(name, fs) if fs.is_empty() || r.chance(1, 4) => rename(r, name),
            REntry::Def(_, fs) => {
                let k = r.below(fs.len());
                let l = r.below(fs.len());
                match r.below(4) {
                    0 => fs.swap(k, l),
                    1 => {
                        let t = fs[k].ty;
                        fs[k].ty = fs[l].ty;
                        fs[l].ty = t;
                    }
                    2 => {
                        fs[k].key = fs[k].key.map(|x| match x {
                            Key::Pk => Key::Fk,
                            Key::Fk => Key::Pk,
                        })
                    }
                    _ => rename(r, &mut fs[k].name),
                }
            }
        }
    }
    m
}
/// Texts of the same kind and size, and some mistakes in them.
fn family(cx: &mut Ctx) -> Vec<String> {
    let mut v = vec![];
    for _ in 0..4 {
        let m = if cx.rng.chance(1, 2) { routed(&mut cx.rng) } else { any_module(&mut cx.rng) };
        let r = &mut cx.rng;
        let style = r.below(2) as u8;
        let seed = r.next();
        let mut like = m;
        for k in 0..6 {
            // the same random choices of spelling for all of them
            let t = emit(&mut Rng::new(seed), &like, style);
            if k == 4 {
                v.push(mutate(r, &t));
            }
            if k == 5 {
                // tables moved from one to another: rows and counts agree
                if let Some(REntry::Def(_, fs)) = like.entries.iter_mut().find(|e| matches!(e, REntry::Def(_, f) if f.len() > 1)) {
                    let f = fs.pop().unwrap();
                    if let Some(REntry::Def(_, gs)) = like.entries.iter_mut().rev().find(|e| matches!(e, REntry::Def(..))) {
                        gs.push(f);
                    }
                }
                v.push(emit(&mut Rng::new(seed), &like, style));
            }
            v.push(t);
            like = lookalike(r, &like);
        }
    }
    v.retain(|t| t.len() < 20000);
    v
}
fn digest(o: &Outcome) -> u64 {
    crate::rng::hash_bytes(format!("{:?}", o).as_bytes())
}
/// `mon outcomes FILE`: what each text of the file comes to, in order.
pub fn outcomes(file: &str) {
    let all = std::fs::read_to_string(file).unwrap();
    for t in all.split('\u{10fffd}') {
        match outcome(t) {
            Ok(o) => println!("{:016x}", digest(&o)),
            Err(_) => println!("panic"),
        }
    }
}
/// Fresh processes work through the same texts in different orders.
fn orders(cx: &mut Ctx) -> Res {
    let mut texts = family(cx);
    texts.retain(|t| !t.contains('\u{10fffd}'));
    if texts.is_empty() {
        return Ok(());
    }
    let n = texts.len();
    let there: Vec<usize> = (0..n).collect();
    let back: Vec<usize> = (0..n).rev().collect();
    let mut mixed = there.clone();
    for i in (1..n).rev() {
        mixed.swap(i, cx.rng.below(i + 1));
    }
    let file = cx.dir.join("texts");
    let mut first: Vec<String> = vec![];
    for order in [there, back, mixed] {
        let all: Vec<&str> = order.iter().map(|i| texts[*i].as_str()).collect();
        std::fs::write(&file, all.join("\u{10fffd}")).unwrap();
        let o = Command::new(std::env::current_exe().unwrap()).arg("outcomes").arg(&file).stdin(Stdio::null()).output().unwrap();
        let out = String::from_utf8_lossy(&o.stdout).into_owned();
        let got: Vec<&str> = out.lines().collect();
        ensure!(got.len() == n, "a process that reads {} texts one after the other ended with {:?} after {}", n, o.status, got.len());
        if first.is_empty() {
            first = got.iter().map(|s| s.to_string()).collect();
            continue;
        }
        for (k, i) in order.iter().enumerate() {
            ensure!(got[k] == first[*i], "a text comes to something else after other texts of its kind\nthe text: {}\nafter: {}\nor after: {}", brief(&texts[*i]), if *i > 0 { brief(&texts[*i - 1]) } else { "(nothing)".into() }, if k > 0 { brief(&texts[order[k - 1]]) } else { "(nothing)".into() });
        }
        cx.add("texts read in another order", n as u64);
    }
    Ok(())
}
fn c22(cx: &mut Ctx) -> Res {
    if cx.idx % 6 == 5 {
        orders(cx)?;
    }
    let src = text(cx);
    let (first, names) = crate::sys::watch_env(None, || outcome(&src));
    let first = first?;
    cx.add("runs watched for environment lookups", 1);
    for n in names.iter().take(20) {
        cx.add(&format!("looked up {}", n), 1);
        for v in SETTINGS {
            let (o, _) = crate::sys::watch_env(Some((n, v)), || outcome(&src));
            let o = o?;
            ensure!(o == first, "with {}={:?} in the environment: {}\nsource: {}", n, v, differ(&first, &o), brief(&src));
        }
    }
    let wrap = |w: &str, o: &Outcome| format!("{}: {}\nsource: {}", w, differ(&first, o), brief(&src));
    for _ in 0..3 {
        let o = outcome(&src)?;
        ensure!(o == first, "{}", wrap("the same text again", &o));
        cx.add("repeated runs", 1);
    }
    let other = text(cx);
    let _ = outcome(&other)?;
    let o = outcome(&src)?;
    ensure!(o == first, "{}", wrap("the same text after another", &o));
    // one module drawn again and again, and its copies
    if let Some(m) = parse(&src)?.0 {
        let a = picture(&m, &src)?;
        let b = picture(&m, &src)?;
        let copy = RModule::from_api(&m).to_api();
        let c = picture(&copy, &src)?;
        ensure!(Some(&a) == first.svg.as_ref() && a == b && a == c, "one module was drawn in two ways\nsource: {}", brief(&src));
        cx.add("modules drawn again", 1);
    }
    if cx.idx % 8 == 0 {
        // several texts at once, in threads with different orders
        let mut texts = vec![src.clone(), other];
        for _ in 0..4 {
            texts.push(text(cx));
        }
        texts.retain(|t| t.len() < 20000);
        let want: Vec<Outcome> = texts.iter().map(|t| outcome(t)).collect::<R<_>>()?;
        let n = 6;
        let all = Arc::new((texts, want, Barrier::new(n)));
        let threads: Vec<_> = (0..n)
            .map(|k| {
                let all = all.clone();
                std::thread::Builder::new()
                    .stack_size(32 << 20)
                    .spawn(move || -> Res {
                        all.2.wait();
                        for round in 0..3 {
                            for i in 0..all.0.len() {
                                let i = (i * (1 + 4 * (k % 2)) + k + round) % all.0.len();
                                let o = outcome(&all.0[i])?;
                                ensure!(o == all.1[i], "in a thread among others: {}\nsource: {}", differ(&all.1[i], &o), brief(&all.0[i]));
                            }
                        }
                        Ok(())
                    })
                    .unwrap()
            })
            .collect();
        for t in threads {
            t.join().map_err(|_| "a thread panicked".to_string())??;
            cx.add("concurrent runs", 18);
        }
    }
    if cx.idx % 10 == 0 && src.len() < 100_000 {
        let file = cx.dir.join("in.erd");
        std::fs::write(&file, &src).unwrap();
        let mut want: Option<proc::Out> = None;
        for (k, env) in ENVS.iter().enumerate() {
            let mut c = proc::command();
            match k % 3 {
                0 => {
                    c.current_dir("/");
                }
                1 => {
                    c.current_dir(&cx.dir);
                }
                _ => {}
            }
            if k == 4 {
                c.env_clear();
            }
            c.envs(env.iter().copied());
            // a different address for everything on the stack
            c.env("PADDING", "x".repeat(k * 777));
            let o = proc::run(c, src.as_bytes())?;
            ensure!(o.code.is_some(), "the program was killed: {:?}\nsource: {}", o.status, brief(&src));
            if let Some(w) = &want {
                ensure!(w.out == o.out, "two processes print different drawings under {:?}\nsource: {}", env, brief(&src));
                // colours may depend on the environment
                let (x, y) = (plain(&w.err_text()), plain(&o.err_text()));
                ensure!(x == y, "two processes print different messages under {:?}\n{}\n{}\nsource: {}", env, brief(&x), brief(&y), brief(&src));
                ensure!(w.code == o.code, "two processes end with {:?} and {:?}\nsource: {}", w.code, o.code, brief(&src));
            } else {
                ensure!(String::from_utf8_lossy(&o.out) == first.svg.clone().unwrap_or_default(), "the program's drawing differs from the library's\nsource: {}", brief(&src));
                want = Some(o);
            }
            cx.add("processes", 1);
        }
        // every variable the program looks up, and another time of day
        let w = want.as_ref().unwrap();
        let log = cx.dir.join("log");
        let o = proc::run(proc::shimmed(&log, &[]), src.as_bytes())?;
        let names = proc::looked_up(&log);
        let mut runs: Vec<(String, String)> = vec![("MON_CLOCK".into(), "12345678".into()), ("MON_CLOCK".into(), "-999999999".into())];
        ensure!(o.out == w.out && plain(&o.err_text()) == plain(&w.err_text()) && o.code == w.code, "harness: the program behaves differently under the shim\nsource: {}", brief(&src));
        for n in names.iter().take(12) {
            cx.add(&format!("program looked up {}", n), 1);
            runs.extend(SETTINGS.iter().map(|v| (n.clone(), v.to_string())));
        }
        for (n, v) in runs {
            let o = proc::run(proc::shimmed(&log, &[(&n, v.clone())]), src.as_bytes())?;
            ensure!(o.out == w.out, "the program prints another drawing with {}={:?}\nsource: {}", n, v, brief(&src));
            ensure!(o.code == w.code && plain(&o.err_text()) == plain(&w.err_text()), "the program prints other messages with {}={:?}\n{}\n{}\nsource: {}", n, v, brief(&w.err_text()), brief(&o.err_text()), brief(&src));
            cx.add("processes with chosen settings", 1);
        }
        let mut c = proc::command();
        c.arg(&file);
        let o = proc::run(c, b"")?;
        ensure!(want.map(|w| w.out) == Some(o.out), "reading from a file prints a different drawing\nsource: {}", brief(&src));
    }
    if !first.lex.is_empty() || !first.par.is_empty() {
        cx.add("texts with diagnostics", 1);
    }
    if first.svg.as_ref().map_or(false, |s| s.contains("<path")) {
        cx.add("drawings with relations", 1);
    }
    cx.nontrivial(src.as_bytes());
    cx.sample(|| brief(&src));
    Ok(())
}
pub const C22: Check = Check {
    id: "C22",
    level: "exploration",
    cases: |t: Tier| t.n(1500, 40000),
    run: c22,
    rule: "programs and hostile texts (see C02), each run five times in one process with others in between; one in 8 in six threads at once with five other texts; each environment variable looked up meanwhile set to 15 values; one in 10 in six fresh processes with different environments and directories and from a file, with every variable the program looks up set in turn and with the clock moved; one in 6: families of texts of equal size and characters read by fresh processes in three orders; distinct by text",
    assumptions: &["diagnostics are compared as location, reason, found and the set of what was expected (the library offers that as an unordered set)", "escape sequences for colours are not compared between environments"],
    need: &[("repeated runs", 4000), ("texts read in another order", 5000), ("concurrent runs", 15000), ("processes", 800), ("processes with chosen settings", 250), ("runs watched for environment lookups", 1400), ("texts with diagnostics", 200), ("drawings with relations", 300), ("modules drawn again", 700)],
    exhaustive: false,
    workers: 8,
};

/// Without escape sequences for colours.
fn plain(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\u{1b}' && it.peek() == Some(&'[') {
            it.next();
            let mut seq = String::new();
            while let Some(d) = it.peek() {
                if d.is_ascii_digit() || *d == ';' {
                    seq.push(*d);
                    it.next();
                } else {
                    break;
                }
            }
            if it.peek() == Some(&'m') {
                it.next();
            } else {
                o.push_str("\u{1b}[");
                o.push_str(&seq);
            }
        } else {
            o.push(c);
        }
    }
    o
}

// ------------------------------------------------------------------ C23

/// Every element in order, with its depth.
fn flat<'a>(e: &'a El, depth: usize, o: &mut Vec<(usize, &'a El)>) {
    o.push((depth, e));
    for k in e.els() {
        flat(k, depth + 1, o);
    }
}
fn elements(root: &El) -> Vec<(usize, &El)> {
    let mut v = vec![];
    flat(root, 0, &mut v);
    v
}
fn shown(s: &str) -> String {
    s.chars().map(|c| if xml_char(c) { c } else { '\u{fffd}' }).collect()
}
struct Pic {
    svg: String,
    root: El,
    edges: usize,
    model: RModule,
}
fn pic(m: &RModule, r: &mut Rng) -> R<Pic> {
    let src = emit(r, m, 2);
    let api = parse_ok(&src)?;
    let svg = picture(&api, &src)?;
    let edges = api.into_mir().edges().count();
    let root = read(&svg)?;
    Ok(Pic { svg, root, edges, model: m.clone() })
}
fn both(what: &str, a: &Pic, b: &Pic) -> String {
    format!("{}\nfirst: {}\nsecond: {}", what, show(&a.model), show(&b.model))
}
/// Elements of the tables, relations left out.
fn table_part(p: &Pic) -> R<Vec<&El>> {
    let v: Vec<&El> = p.root.els().collect();
    ensure!(v.len() >= 3 * p.edges, "fewer elements than the relations need");
    Ok(v[..v.len() - 3 * p.edges].to_vec())
}
fn relation_part(p: &Pic) -> R<Vec<&El>> {
    let v: Vec<&El> = p.root.els().collect();
    ensure!(v.len() >= 3 * p.edges, "fewer elements than the relations need");
    Ok(v[v.len() - 3 * p.edges..].to_vec())
}

const TYPE_WORDS: [&str; 4] = ["int", "uuid", "text", "timestamp"];

fn c23(cx: &mut Ctx) -> Res {
    let m = match cx.rng.below(3) {
        _ if cx.rng.chance(1, 250) => bulky(&mut cx.rng),
        0 => any_module(&mut cx.rng),
        1 => routed(&mut cx.rng),
        _ => module(&mut cx.rng, &Shape { defs: (1, 9), fields: (0, 6), rels: (0, 9), names: 1, unique: true, dangling: true, ordered: false }),
    };
    let a = pic(&m, &mut cx.rng)?;

    // spelling
    for _ in 0..2 {
        let b = pic(&m, &mut cx.rng)?;
        ensure!(a.svg == b.svg, "{}", both("another spelling of one program is drawn differently", &a, &b));
        cx.add("other spellings", 1);
    }
    let min = emit(&mut cx.rng, &m, 0);
    ensure!(picture(&parse_ok(&min)?, &min)? == a.svg, "a minimal spelling is drawn differently\nsource: {}", brief(&min));

    // the module's own name is not drawn
    {
        let mut n = m.clone();
        n.name = match &m.name {
            None => Some(any_name(&mut cx.rng)),
            Some(_) => None,
        };
        let b = pic(&n, &mut cx.rng)?;
        let x: Vec<_> = a.root.els().collect();
        let y: Vec<_> = b.root.els().collect();
        ensure!(x == y, "{}", both("the name of the module changes the drawing", &a, &b));
    }

    renamed(cx, &a)?;
    retyped(cx, &a)?;
    relations(cx, &a)?;
    cx.nontrivial(a.svg.as_bytes());
    cx.sample(|| show(&m));
    Ok(())
}
/// Consistent renaming changes texts only.
fn renamed(cx: &mut Ctx, a: &Pic) -> Res {
    let m = &a.model;
    let mut names: Vec<String> = vec![];
    let mut note = |s: &String| {
        if !names.contains(s) {
            names.push(s.clone());
        }
    };
    for e in &m.entries {
        match e {
            REntry::Def(n, f) => {
                note(n);
                f.iter().for_each(|f| note(&f.name));
            }
            REntry::Rel(p, q) => {
                for p in [p, q] {
                    note(&p.0);
                    p.1.iter().for_each(&mut note);
                }
            }
        }
    }
    // each name gets a new one that nothing had before
    let mut taken: Vec<String> = names.clone();
    let mut map = std::collections::HashMap::new();
    let style = cx.rng.below(3);
    for (i, n) in names.iter().enumerate() {
        let mut new = match style {
            0 => format!("n{}", i),
            1 => format!("{}{}", "wide name ".repeat(cx.rng.below(4)), i),
            _ => any_name(&mut cx.rng),
        };
        while taken.contains(&new) {
            new = format!("{}'{}", new, i);
        }
        taken.push(new.clone());
        map.insert(n.clone(), new);
    }
    let mut n = m.clone();
    for e in &mut n.entries {
        match e {
            REntry::Def(n, f) => {
                *n = map[n].clone();
                f.iter_mut().for_each(|f| f.name = map[&f.name].clone());
            }
            REntry::Rel(p, q) => {
                for p in [p, q] {
                    p.0 = map[&p.0].clone();
                    p.1.iter_mut().for_each(|f| *f = map[f].clone());
                }
            }
        }
    }
    let pairs: std::collections::HashSet<(String, String)> = map.iter().map(|(k, v)| (shown(k), shown(v))).collect();
    let b = pic(&n, &mut cx.rng)?;
    let (x, y) = (elements(&a.root), elements(&b.root));
    ensure!(x.len() == y.len(), "{}", both("renaming changes the number of elements", a, &b));
    for ((d, e), (f, g)) in x.iter().zip(&y) {
        ensure!(d == f && e.name == g.name && e.attrs == g.attrs, "{}", both(&format!("renaming changes <{}> {:?} into <{}> {:?}", e.name, e.attrs, g.name, g.attrs), a, &b));
        if e.name == "text" {
            let (p, q) = (text_of(e), text_of(g));
            let fixed = |s: &str| TYPE_WORDS.contains(&s) || s == "PK" || s == "FK";
            ensure!(pairs.contains(&(p.clone(), q.clone())) || (p == q && fixed(&p)), "{}", both(&format!("renaming changes the text {:?} into {:?}", p, q), a, &b));
            cx.add("renamed texts", (p != q) as u64);
        }
    }
    cx.add("renamed programs", 1);
    Ok(())
}
/// Types and keys change types' texts and colours and badges only.
fn retyped(cx: &mut Ctx, a: &Pic) -> Res {
    // reserved words as names would hide which text is a type
    let odd = |s: &str| TYPE_WORDS.contains(&s) || s == "PK" || s == "FK";
    for (n, f) in a.model.defs() {
        if odd(n) || f.iter().any(|f| odd(&f.name)) {
            return Ok(());
        }
    }
    let mut n = a.model.clone();
    for e in &mut n.entries {
        if let REntry::Def(_, f) = e {
            for f in f {
                if cx.rng.chance(2, 3) {
                    f.ty = *cx.rng.pick(&TYS);
                }
                if cx.rng.chance(2, 3) {
                    f.key = *cx.rng.pick(&[None, Some(Key::Pk), Some(Key::Fk)]);
                }
            }
        }
    }
    let b = pic(&n, &mut cx.rng)?;
    fn strip(p: &Pic) -> R<Vec<El>> {
        let v = table_part(p)?;
        let badge = |e: &El| e.name == "text" && matches!(text_of(e).as_str(), "PK" | "FK");
        let mut o = vec![];
        for (i, e) in v.iter().enumerate() {
            if badge(e) {
                continue;
            }
            if e.name == "circle" && (v.get(i + 1).map_or(false, |n| badge(n)) || (i > 0 && badge(v[i - 1]))) {
                continue;
            }
            let mut e = (*e).clone();
            if e.name == "text" && TYPE_WORDS.contains(&text_of(&e).as_str()) {
                e.kids.clear();
                e.attrs.retain(|x| x.0 != "fill");
            }
            o.push(e);
        }
        Ok(o)
    }
    let (x, y) = (strip(a)?, strip(&b)?);
    if x != y {
        let d = x.iter().zip(&y).find(|(p, q)| p != q);
        return Err(both(&format!("types and keys change more than types and badges: {:?}", d), a, &b));
    }
    ensure!(relation_part(a)? == relation_part(&b)?, "{}", both("types and keys change a relation", a, &b));
    ensure!(a.root.attrs == b.root.attrs, "{}", both("types and keys change the picture's size", a, &b));
    cx.add("retyped programs", 1);
    Ok(())
}
/// Relations move no table, and may stand anywhere.
fn relations(cx: &mut Ctx, a: &Pic) -> Res {
    let m = &a.model;
    let defs: Vec<REntry> = m.entries.iter().filter(|e| matches!(e, REntry::Def(..))).cloned().collect();
    let rels: Vec<REntry> = m.entries.iter().filter(|e| matches!(e, REntry::Rel(..))).cloned().collect();
    let weave = |r: &mut Rng, rels: &[REntry]| -> RModule {
        let style = r.below(3);
        let mut at: Vec<usize> = rels
            .iter()
            .map(|_| match style {
                0 => 0,
                1 => defs.len(),
                _ => r.below(defs.len() + 1),
            })
            .collect();
        at.sort();
        let mut entries = vec![];
        let mut k = 0;
        for i in 0..=defs.len() {
            while k < rels.len() && at[k] == i {
                entries.push(rels[k].clone());
                k += 1;
            }
            if i < defs.len() {
                entries.push(defs[i].clone());
            }
        }
        RModule { name: m.name.clone(), entries }
    };
    if !rels.is_empty() {
        for _ in 0..3 {
            let n = weave(&mut cx.rng, &rels);
            let b = pic(&n, &mut cx.rng)?;
            ensure!(a.svg == b.svg, "{}", both("moving relations among the entities changes the drawing", a, &b));
            cx.add("relations moved among entities", 1);
        }
        // relations with an undefined end leave no trace
        let kept: Vec<REntry> = rels
            .iter()
            .filter(|e| match e {
                REntry::Rel(p, q) => m.resolves(p) && m.resolves(q),
                _ => true,
            })
            .cloned()
            .collect();
        if kept.len() < rels.len() {
            let n = weave(&mut cx.rng, &kept);
            let b = pic(&n, &mut cx.rng)?;
            ensure!(a.svg == b.svg, "{}", both("a relation with an undefined end changes the drawing", a, &b));
            cx.add("undefined relations removed", 1);
        }
    }
    // fewer, more, and other relations
    let mut other = rels.clone();
    cx.rng.shuffle(&mut other);
    match cx.rng.below(3) {
        0 => other.clear(),
        1 => {
            let k = cx.rng.below(other.len() + 1);
            other.truncate(k);
        }
        _ => {}
    }
    if !defs.is_empty() && cx.rng.chance(1, 2) {
        for _ in 0..cx.rng.range(1, 4) {
            let mut end = || {
                let REntry::Def(n, f) = cx.rng.pick(&defs).clone() else { unreachable!() };
                let f = if f.is_empty() || cx.rng.chance(1, 3) { None } else { Some(cx.rng.pick(&f).name.clone()) };
                (n, f)
            };
            let (p, q) = (end(), end());
            other.push(REntry::Rel(p, q));
        }
    }
    let n = weave(&mut cx.rng, &other);
    let b = pic(&n, &mut cx.rng)?;
    ensure!(table_part(a)? == table_part(&b)?, "{}", both("relations change the tables' drawing", a, &b));
    ensure!(a.root.attrs == b.root.attrs, "{}", both("relations change the picture's size", a, &b));
    cx.add("programs with other relations", 1);
    Ok(())
}
pub const C23: Check = Check {
    id: "C23",
    level: "exploration",
    cases: |t: Tier| t.n(2500, 80000),
    run: c23,
    rule: "each program is drawn together with variants: three other spellings, the module's name added or removed, every name replaced by a fresh one, other types and keys, its relations moved among the entities, its undefined relations left out, other relations altogether; distinct by drawing",
    assumptions: &[],
    need: &[
        ("other spellings", 3000),
        ("renamed texts", 20000),
        ("renamed programs", 2000),
        ("retyped programs", 700),
        ("relations moved among entities", 3000),
        ("undefined relations removed", 300),
        ("programs with other relations", 2000),
    ],
    exhaustive: false,
    workers: 8,
};

// ------------------------------------------------------------------ C24

/// Line and column of a character, both from 1. At the end of a text that ends
/// with a line break two answers are possible.
fn places(src: &str, at: usize) -> Vec<(usize, usize)> {
    let cs: Vec<char> = src.chars().collect();
    let of = |at: usize| {
        let before = &cs[..at.min(cs.len())];
        let line = before.iter().filter(|c| **c == '\n').count() + 1;
        let col = before.iter().rev().take_while(|c| **c != '\n').count() + 1 + at.saturating_sub(cs.len());
        (line, col)
    };
    let mut v = vec![of(at)];
    if at >= cs.len() {
        v.push(of(cs.len()));
        if cs.last() == Some(&'\n') {
            let (l, c) = of(cs.len() - 1);
            v.push((l, c + 1));
            v.push((l, c + 2));
        }
    }
    v
}
/// Every `[name:line:col]` in the messages.
fn located(err: &str, name: &str) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut rest = err;
    let head = format!("{}:", name);
    while let Some(i) = rest.find(&head) {
        rest = &rest[i + head.len()..];
        let digits = |s: &str| s.bytes().take_while(|b| b.is_ascii_digit()).count();
        let n = digits(rest);
        if n > 0 && rest[n..].starts_with(':') {
            let k = digits(&rest[n + 1..]);
            if k > 0 {
                v.push((rest[..n].parse().unwrap_or(0), rest[n + 1..n + 1 + k].parse().unwrap_or(0)));
            }
        }
    }
    v
}
fn judge_run(cx: &mut Ctx, src: &str, o: &proc::Out, name: &str, want: &Outcome) -> Res {
    let wrap = |m: String| format!("{}\nstatus {:?}\nstderr {}\nsource: {}", m, o.status, brief(&o.err_text()), brief(src));
    let svg = want.svg.clone().unwrap_or_default();
    ensure!(o.out == svg.as_bytes(), "{}", wrap(format!("standard output ({}) is not the library's drawing ({})", brief(&String::from_utf8_lossy(&o.out)), brief(&svg))));
    let errs: Vec<&Diag> = want.lex.iter().chain(&want.par).collect();
    let err = plain(&o.err_text());
    ensure!(!err.contains("panicked at"), "{}", wrap("the program panicked".into()));
    ensure!(o.code.is_some(), "{}", wrap("the program was killed".into()));
    if errs.is_empty() {
        ensure!(o.code == Some(0), "{}", wrap("a program without mistakes gives a failing status".into()));
        ensure!(o.err.is_empty(), "{}", wrap("a program without mistakes gives messages".into()));
        cx.add("programs without mistakes", 1);
        return Ok(());
    }
    ensure!(!err.trim().is_empty(), "{}", wrap("no message for a text with mistakes".into()));
    cx.add("texts with mistakes", 1);
    // A report may quote the text; where that could look like a location, or
    // lines end otherwise, only the number is compared.
    let lone = src.replace("\r\n", "\n");
    let odd = lone.chars().any(|c| matches!(c, '\r' | '\u{b}' | '\u{c}' | '\u{85}' | '\u{2028}' | '\u{2029}'));
    if src.contains(name) || src.contains('\u{1b}') {
        return Ok(());
    }
    let mut got = located(&err, name);
    ensure!(got.len() == errs.len(), "{}", wrap(format!("{} located messages for {} diagnostics {:?}", got.len(), errs.len(), errs)));
    cx.add("located messages", got.len() as u64);
    if odd {
        return Ok(());
    }
    for d in errs {
        let p = places(src, d.start);
        let Some(i) = got.iter().position(|g| p.contains(g)) else {
            return Err(wrap(format!("no message names {:?}, the place of {:?}; messages name {:?}", p, d, got)));
        };
        got.remove(i);
        cx.add("places compared", 1);
    }
    Ok(())
}
fn c24(cx: &mut Ctx) -> Res {
    match cx.idx {
        0 => return unreadable(cx),
        1 => {
            for s in ["", "\n", " ", "\n\n", "\r\n", "erd", "erd {", "erd {}", "erd {}\n", "erd {}\n\n", "erd {\n", "{", "}", "@", "é", "\u{feff}erd {}", "// c", "erd {\n  a {\n    id int PK\n  }\n  a.id o--o\n}\n"] {
                one_text(cx, s)?;
            }
            return Ok(());
        }
        _ => {}
    }
    let mut src = text(cx);
    if cx.idx % 500 == 3 {
        // longer than any buffer on the way
        let m = bulky(&mut cx.rng);
        let style = cx.rng.below(3) as u8;
        src = emit(&mut cx.rng, &m, style);
        let least = *cx.rng.pick(&[70_000, 140_000, 300_000]);
        if src.len() < least {
            let line = "// something to fill the text with, as a long comment would\n";
            let fill = line.repeat((least - src.len()) / line.len() + 1);
            src = if cx.rng.chance(1, 2) { format!("{}{}", fill, src) } else { format!("{}\n{}", src, fill) };
        }
        cx.add("texts longer than 64 KiB", 1);
    }
    if cx.idx % 150 == 2 {
        // a long one
        let m = module(&mut cx.rng, &Shape { defs: (20, 40), fields: (5, 40), rels: (0, 10), names: 1, unique: false, dangling: true, ordered: false });
        src = emit(&mut cx.rng, &m, 2);
    }
    one_text(cx, &src)
}
fn one_text(cx: &mut Ctx, src: &str) -> Res {
    let want = outcome(src)?;
    let o = proc::cli_stdin(src)?;
    judge_run(cx, src, &o, "(stdin)", &want)?;
    cx.add("texts on standard input", 1);
    if cx.rng.chance(1, 4) {
        // short and interrupted reads change nothing
        let chunk = *cx.rng.pick(&[1usize, 2, 3, 5, 16, 100, 1000]);
        let mut vars = vec![("MON_READ_CHUNK", chunk.max(src.len() / 2000).to_string())];
        if cx.rng.chance(1, 2) {
            vars.push(("MON_READ_EINTR", cx.rng.range(2, 5).to_string()));
        }
        let log = cx.dir.join("log");
        let o = proc::run(proc::shimmed(&log, &vars), src.as_bytes())?;
        let _ = proc::looked_up(&log);
        judge_run(cx, src, &o, "(stdin)", &want).map_err(|e| format!("standard input read in pieces {:?}: {}", vars, e))?;
        cx.add("texts read in pieces", 1);
        // a read that fails
        let k = match cx.rng.below(4) {
            0 => 0,
            1 => src.len(),
            _ => cx.rng.below(src.len() + 1),
        };
        let errno = *cx.rng.pick(&[5, 12, 21, 11, 103]);
        let vars = [("MON_READ_FAIL", k.to_string()), ("MON_READ_ERRNO", errno.to_string())];
        let path = cx.dir.join("failing.erd");
        std::fs::write(&path, src).unwrap();
        let mut c = proc::shimmed(&log, &vars);
        let from_file = cx.rng.chance(1, 2);
        if from_file {
            c.arg(&path);
        }
        let o = proc::run(c, if from_file { b"" } else { src.as_bytes() })?;
        let wrap = |m: &str| format!("{} (reading fails after {} bytes with error {}, status {:?}, stderr {})\nsource: {}", m, k, errno, o.status, brief(&o.err_text()), brief(src));
        ensure!(o.code.map_or(false, |c| c != 0), "{}", wrap("the program did not fail"));
        ensure!(o.out.is_empty(), "{}", wrap("something was drawn"));
        ensure!(!o.err_text().trim().is_empty() && !o.err_text().contains("panicked at"), "{}", wrap("no message, or a panic"));
        cx.add("failing reads", 1);
    }
    use std::os::unix::ffi::OsStringExt;
    let name: std::ffi::OsString = match cx.rng.below(8) {
        0 => std::ffi::OsString::from_vec(b"na\xff\xfeme.erd".to_vec()),
        1 => format!("{}.erd", "long".repeat(50)).into(),
        _ => (*cx.rng.pick(&["in.erd", "a b.erd", "x", "ü.erd", "-.erd", "-", "--", "--help", "-V", "--debug", "$HOME", "*.erd", "a=b", "%s{}.erd", ".erd", "'q\".erd", "🦀 \u{301}.ERD", "in.svg", "~", "\\n", "(stdin)", "0"])).into(),
    };
    let path = cx.dir.join(&name);
    std::fs::write(&path, src).unwrap();
    let shown;
    let o = match cx.rng.below(8) {
        0..=2 => {
            shown = path.to_string_lossy().into_owned();
            proc::cli_file(&path)?
        }
        3 => {
            // a link to it
            let link = cx.dir.join("link.erd");
            let _ = std::fs::remove_file(&link);
            std::os::unix::fs::symlink(&path, &link).unwrap();
            shown = link.to_string_lossy().into_owned();
            proc::cli_file(&link)?
        }
        4 => {
            // a pipe with a name: its size is not known beforehand
            let pipe = cx.dir.join("pipe.erd");
            let _ = std::fs::remove_file(&pipe);
            let made = Command::new("mkfifo").arg(&pipe).status().map_or(false, |s| s.success());
            ensure!(made, "harness: mkfifo");
            shown = pipe.to_string_lossy().into_owned();
            let mut c = proc::command();
            c.arg(&pipe);
            let (data, at) = (src.as_bytes().to_vec(), pipe.clone());
            let feed = std::thread::spawn(move || {
                use std::io::Write;
                // opened for reading too, so that nobody waits for a program that never opens it
                if let Ok(mut f) = std::fs::OpenOptions::new().write(true).open(&at) {
                    for part in data.chunks((data.len() / 3).max(1)) {
                        let _ = f.write_all(part);
                    }
                }
            });
            let o = proc::run(c, b"erd { not read }")?;
            if !feed.is_finished() {
                // the program never read it
                std::thread::sleep(std::time::Duration::from_millis(50));
                if !feed.is_finished() {
                    let _ = std::fs::OpenOptions::new().read(true).write(true).open(&pipe);
                }
            }
            let _ = feed.join();
            cx.add("texts through named pipes", 1);
            o
        }
        _ => {
            shown = name.to_string_lossy().into_owned();
            let mut c = proc::command();
            c.current_dir(&cx.dir).arg(&name);
            proc::run(c, b"erd { not read }")?
        }
    };
    judge_run(cx, src, &o, &shown, &want).map_err(|e| format!("file {:?}: {}", shown, e))?;
    cx.add("texts in files", 1);
    let back = std::fs::read(&path).unwrap();
    ensure!(back == src.as_bytes(), "the program changed its input file");
    let _ = std::fs::remove_file(&path);
    if want.svg.is_some() {
        cx.add("drawings compared", 1);
    }
    cx.nontrivial(src.as_bytes());
    cx.sample(|| brief(src));
    Ok(())
}
fn unreadable(cx: &mut Ctx) -> Res {
    let bad: Vec<Vec<u8>> = vec![
        b"\xff".to_vec(),
        b"erd {}\xff".to_vec(),
        b"\xfferd {}".to_vec(),
        b"erd { `\xc3` {} }".to_vec(),
        b"erd { // \xe9\n }".to_vec(),
        b"erd {}\n\xf0\x9f\xa6".to_vec(),
        b"erd { a\xc0\x80 {} }".to_vec(),
        b"erd { `\xed\xa0\x80` {} }".to_vec(),
        b"\xfe\xff\0e\0r\0d".to_vec(),
        b"\xff\xfee\0r\0d\0".to_vec(),
        [b"erd {".to_vec(), b"a {} ".repeat(3000), b"\x80}".to_vec()].concat(),
    ];
    let judge = |what: String, o: proc::Out| -> Res {
        ensure!(o.code.map_or(false, |c| c != 0), "{}: the program ended with {:?}", what, o.status);
        ensure!(o.out.is_empty(), "{}: something was drawn: {}", what, brief(&String::from_utf8_lossy(&o.out)));
        ensure!(!o.err_text().trim().is_empty(), "{}: no message", what);
        ensure!(!o.err_text().contains("panicked at"), "{}: the program panicked: {}", what, brief(&o.err_text()));
        Ok(())
    };
    for (i, b) in bad.iter().enumerate() {
        judge(format!("standard input {:?}", String::from_utf8_lossy(b)), proc::run(proc::command(), b)?)?;
        let p = cx.dir.join(format!("bad{}", i));
        std::fs::write(&p, b).unwrap();
        judge(format!("file with {:?}", String::from_utf8_lossy(b)), proc::cli_file(&p)?)?;
        cx.add("inputs that are not UTF-8", 2);
    }
    let good = cx.dir.join("good.erd");
    std::fs::write(&good, "erd { a { id int } }").unwrap();
    for p in [cx.dir.join("missing.erd"), cx.dir.clone(), cx.dir.join("missing/in.erd"), good.join("in.erd"), "".into(), "x".repeat(5000).into()] {
        // a program on standard input must not be drawn instead
        let mut c = proc::command();
        c.arg(&p);
        judge(format!("file {:?}", p), proc::run(c, b"erd { a {} }")?)?;
        cx.add("unreadable files", 1);
    }
    // standard input that cannot be read
    let mut c = proc::command();
    c.stdin(std::fs::File::open(&cx.dir).unwrap()).stdout(Stdio::piped()).stderr(Stdio::piped());
    let o = c.output().unwrap();
    judge("a directory as standard input".into(), proc::Out { status: o.status, code: o.status.code(), out: o.stdout, err: o.stderr })?;
    cx.add("unreadable files", 1);
    Ok(())
}
pub const C24: Check = Check {
    id: "C24",
    level: "exploration",
    cases: |t: Tier| t.n(2500, 60000),
    run: c24,
    rule: "programs and hostile texts given to the built program on standard input and in a file, output compared with the library's in this process, messages matched one to one with the library's diagnostics; the file having any of 25 names, among them options, very long ones and ones that are not UTF-8, being linked to or a pipe; plus missing, unreadable and non-UTF-8 inputs, and input that arrives in pieces, with interruptions, or fails after any number of bytes; distinct by text",
    assumptions: &["at the end of a text that ends with a line break, both the end of that line and the start of the next count as the place", "in texts with line breaks other than LF and CRLF only the number of messages is compared; in texts containing the file's name or escape characters, only their presence", "the exit status for texts with mistakes is not judged"],
    need: &[("texts on standard input", 2000), ("texts in files", 2000), ("programs without mistakes", 1500), ("texts with mistakes", 800), ("places compared", 500), ("drawings compared", 1000), ("inputs that are not UTF-8", 20), ("unreadable files", 7), ("texts read in pieces", 400), ("failing reads", 400), ("texts through named pipes", 150)],
    exhaustive: false,
    workers: 8,
};

// ------------------------------------------------------------------ C25

/// Output to a file that may not grow past `limit` bytes.
fn limited(cx: &Ctx, src_file: &std::path::Path, limit: u64) -> R<(Option<i32>, Vec<u8>, String)> {
    let out = cx.dir.join("out.svg");
    let err = cx.dir.join("err.txt");
    let f = std::fs::File::create(&out).unwrap();
    let mut c = proc::command();
    c.arg(src_file).stdin(Stdio::null()).stdout(f);
    c.stderr(Stdio::piped());
    unsafe {
        c.pre_exec(move || {
            crate::sys::limit_fsize(limit);
            Ok(())
        });
    }
    let o = c.output().unwrap();
    let got = std::fs::read(&out).unwrap();
    let _ = std::fs::remove_file(&out);
    let _ = std::fs::remove_file(&err);
    Ok((o.status.code(), got, String::from_utf8_lossy(&o.stderr).into_owned()))
}
const PARTS: usize = 64;
fn c25(cx: &mut Ctx) -> Res {
    // one fixed drawing in PARTS cases, every byte; then others, some bytes
    let fixed = cx.idx < PARTS;
    let src = if fixed {
        "erd { users { id int PK\n name text }\n posts { id int PK\n `by & <of>` int FK }\n posts.`by & <of>` o--o users.id }".to_string()
    } else {
        let mut m = routed(&mut cx.rng);
        if cx.rng.chance(1, 6) {
            m.entries.clear();
        }
        if cx.idx % 15 == 5 {
            // drawings of some hundred thousand to some million bytes
            let k = *cx.rng.pick(&[10, 40, 90, 130]);
            m = module(&mut cx.rng, &Shape { defs: (k, k), fields: (15, 25), rels: (0, 0), names: 0, unique: true, dangling: false, ordered: true });
            cx.add("large drawings", 1);
        }
        emit(&mut cx.rng, &m, 1)
    };
    let full = outcome(&src)?.svg.ok_or("harness: no drawing")?.into_bytes();
    let file = cx.dir.join("in.erd");
    std::fs::write(&file, &src).unwrap();
    let n = full.len() as u64;
    let mut limits: Vec<u64> = vec![];
    if fixed {
        limits.extend((0..=n + 1).filter(|k| *k as usize % PARTS == cx.idx));
    } else {
        limits.extend([0, 1, n / 2, n - 1, n, n + 1]);
        for b in [1023u64, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 65537, 1 << 17, 1 << 18, 1 << 20, (1 << 20) + 1, 1 << 21] {
            if b < n {
                limits.push(b);
            }
        }
        for back in [1024, 4096, 8192] {
            if back < n {
                limits.push(n - back);
            }
        }
        // where lines end, since output may be buffered by line
        let ends: Vec<u64> = full.iter().enumerate().filter(|x| *x.1 == b'\n').map(|x| x.0 as u64).collect();
        for _ in 0..4 {
            if !ends.is_empty() {
                let e = *cx.rng.pick(&ends);
                limits.extend([e, e + 1]);
            }
            limits.push(cx.rng.below(full.len() + 1) as u64);
        }
        if let Some(e) = ends.last() {
            limits.extend([*e, e + 1]);
        }
    }
    for l in limits {
        let (code, got, err) = limited(cx, &file, l)?;
        let wrap = |m: &str| format!("{} (limit {} of {} bytes, {} written, status {:?}, stderr {})\nsource: {}", m, l, n, got.len(), code, brief(&err), brief(&src));
        ensure!(full.starts_with(&got), "{}", wrap("what was written is not the start of the drawing"));
        if code == Some(0) {
            ensure!(got == full, "{}", wrap("success was claimed for a truncated drawing"));
        }
        if l >= n {
            ensure!(code == Some(0), "{}", wrap("the program failed although the drawing fits"));
        } else {
            cx.add("truncated outputs", 1);
        }
        cx.nontrivial(&[&cx.idx.to_le_bytes()[..], &l.to_le_bytes()[..]].concat());
    }
    if fixed {
        cx.sample(|| brief(&src));
    }
    for round in 0..if fixed { 8 } else { 4 } {
        // writes that are short, interrupted, or fail, once or for good
        let mut vars: Vec<(&str, String)> = vec![];
        if cx.rng.chance(2, 3) {
            vars.push(("MON_WRITE_CHUNK", (*cx.rng.pick(&[1u64, 2, 7, 64, 1000]).max(&(n / 3000))).to_string()));
        }
        if cx.rng.chance(1, 2) {
            vars.push(("MON_WRITE_EINTR", cx.rng.range(2, 6).to_string()));
        }
        let fail = round % 2 == 1;
        let mut once = false;
        if fail {
            let at = if cx.rng.chance(1, 3) { full.len() - 1 - cx.rng.below(full.len().min(9000)) } else { cx.rng.below(full.len()) };
            vars.push(("MON_WRITE_FAIL", at.to_string()));
            // EIO, EAGAIN, ENOSPC, EPIPE, EDQUOT, and nothing written at all
            vars.push(("MON_WRITE_ERRNO", cx.rng.pick(&[5, 11, 28, 32, 122, 0]).to_string()));
            once = cx.rng.chance(1, 2);
            if once {
                vars.push(("MON_WRITE_ONCE", "1".into()));
            }
        }
        let log = cx.dir.join("log");
        let mut c = proc::shimmed(&log, &vars);
        c.arg(&file);
        let o = proc::run(c, b"")?;
        let _ = proc::looked_up(&log);
        let wrap = |m: &str| format!("{} (writes {:?}, {} of {} bytes written, status {:?}, stderr {})\nsource: {}", m, vars, o.out.len(), n, o.status, brief(&o.err_text()), brief(&src));
        if o.code == Some(0) {
            ensure!(o.out == full, "{}", wrap("success was claimed for something other than the drawing"));
        }
        if !fail {
            ensure!(o.code == Some(0), "{}", wrap("the program failed although every byte was taken"));
            cx.add("outputs taken in pieces", 1);
        } else {
            ensure!(once || full.starts_with(&o.out), "{}", wrap("what was written is not the start of the drawing"));
            cx.add("failing writes", 1);
        }
    }
    if !fixed || cx.idx == 0 {
        // a full device
        let mut c = proc::command();
        c.arg(&file).stdin(Stdio::null()).stdout(std::fs::OpenOptions::new().write(true).open("/dev/full").unwrap()).stderr(Stdio::piped());
        let o = c.output().unwrap();
        ensure!(o.status.code().map_or(false, |c| c != 0), "status {:?} although the device is full\nsource: {}", o.status, brief(&src));
        cx.add("full devices", 1);
        // a pipe nobody reads
        let (rd, wr) = std::io::pipe().unwrap();
        drop(rd);
        let mut c = proc::command();
        c.arg(&file).stdin(Stdio::null()).stdout(wr).stderr(Stdio::piped());
        let o = c.output().unwrap();
        ensure!(o.status.code() != Some(0), "success although nobody reads the pipe\nsource: {}", brief(&src));
        cx.add("closed pipes", 1);
    }
    if cx.idx % 10 == 9 {
        // a reader that goes away in the middle of a large drawing
        let m = module(&mut cx.rng, &Shape { defs: (40, 60), fields: (30, 40), rels: (0, 0), names: 0, unique: true, dangling: false, ordered: true });
        let src = emit(&mut cx.rng, &m, 1);
        std::fs::write(&file, &src).unwrap();
        let mut c = proc::command();
        c.arg(&file).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null());
        let mut ch = c.spawn().unwrap();
        let mut rd = ch.stdout.take().unwrap();
        let mut b = vec![0u8; cx.rng.range(1, 5000)];
        use std::io::Read;
        let k = rd.read(&mut b).unwrap();
        drop(rd);
        let st = ch.wait().unwrap();
        // far more than the pipe holds was still to come
        ensure!(k > 0 && st.code() != Some(0), "success although the reader went away after {} bytes: {:?}", k, st);
        cx.add("readers gone away", 1);
    }
    Ok(())
}
pub const C25: Check = Check {
    id: "C25",
    level: "fault_enumeration",
    cases: |t: Tier| PARTS + t.n(150, 4000),
    run: c25,
    rule: "the program's output cut off at every byte of one drawing and at chosen and random bytes of others, some of more than a million bytes (file size limit), plus writes that are short, interrupted or fail once or for good, full devices, pipes without reader and readers that go away; exit status and bytes written observed; distinct by drawing and place",
    assumptions: &["failures appear to the program as write errors; a closed descriptor 1 is not judged, since the Rust runtime replaces it"],
    need: &[("truncated outputs", 4000), ("outputs taken in pieces", 400), ("failing writes", 400), ("full devices", 100), ("closed pipes", 100), ("readers gone away", 15), ("large drawings", 10)],
    exhaustive: false,
    workers: 8,
};

// ------------------------------------------------------------------ C26

fn documents(seed: u64) -> R<Vec<(seiren::mir::Document, Option<seiren::geometry::Rect>)>> {
    let mut r = Rng::new(seed);
    let n = r.range(1, 5);
    let mut v = vec![];
    for _ in 0..n {
        v.push(match r.below(3) {
            _ if r.chance(1, 80) => {
                let (kind, n) = (r.below(KINDS_OF_MUCH), MUCH[r.below(3)]);
                (vast(&mut r, kind, n), None)
            }
            0 => {
                let vb = match r.below(3) {
                    0 => None,
                    _ => {
                        let mut q = || r.range(1, 4000) as f32 / 4.0;
                        Some(seiren::geometry::Rect::new(seiren::geometry::Point::new(q(), -q()), seiren::geometry::Size::new(q(), q())))
                    }
                };
                (free_document(&mut r), vb)
            }
            1 => {
                let w = world(&routed(&mut r))?;
                (w.doc, w.view_box)
            }
            _ => {
                let w = world(&any_module(&mut r))?;
                (w.doc, w.view_box)
            }
        });
    }
    Ok(v)
}
/// How a process displays its documents: one after another; all made first,
/// then displayed from the last to the first, each twice; or each several
/// times by threads of their own at the same time.
fn manner(seed: u64) -> u64 {
    seed % 3
}
const ROUNDS: usize = 4;
/// `mon evcxr SEED`: display the documents of that seed.
pub fn evcxr(seed: u64) {
    let docs = documents(seed).expect("documents");
    match manner(seed) {
        0 => {
            for (doc, vb) in docs {
                seiren::evcxr::draw_erd(&doc, vb).evcxr_display();
            }
        }
        1 => {
            let outs: Vec<_> = docs.iter().map(|(doc, vb)| seiren::evcxr::draw_erd(doc, *vb)).collect();
            for o in outs.iter().rev() {
                o.evcxr_display();
                o.evcxr_display();
            }
        }
        _ => {
            let gate = Barrier::new(docs.len());
            std::thread::scope(|s| {
                for (doc, vb) in &docs {
                    let gate = &gate;
                    s.spawn(move || {
                        let o = seiren::evcxr::draw_erd(doc, *vb);
                        gate.wait();
                        for _ in 0..ROUNDS {
                            o.evcxr_display();
                        }
                    });
                }
            });
        }
    }
}
fn c26(cx: &mut Ctx) -> Res {
    let seed = cx.rng.next();
    let docs = documents(seed)?;
    let mut frames: Vec<Vec<u8>> = vec![];
    for (d, vb) in &docs {
        let svg = draw(d, *vb, None)?;
        frames.push(format!("EVCXR_BEGIN_CONTENT image/svg+xml\n{}\nEVCXR_END_CONTENT\n", svg).into_bytes());
        cx.nontrivial(svg.as_bytes());
    }
    let o = Command::new(std::env::current_exe().unwrap()).args(["evcxr", &seed.to_string()]).stdin(Stdio::null()).output().unwrap();
    let what = || format!("documents: {}", docs.iter().map(|d| dump(&d.0)).collect::<Vec<_>>().join("\n"));
    ensure!(o.status.success(), "displaying failed: {:?} {}\n{}", o.status, String::from_utf8_lossy(&o.stderr), what());
    let want: Vec<u8> = match manner(seed) {
        0 => frames.concat(),
        1 => frames.iter().rev().flat_map(|f| [f.clone(), f.clone()].concat()).collect(),
        _ => {
            // whole frames in any order that keeps each thread's own
            let mut left: Vec<(Vec<u8>, usize)> = frames.iter().map(|f| (f.clone(), ROUNDS)).collect();
            left.sort_by_key(|f| std::cmp::Reverse(f.0.len()));
            let mut at = 0;
            let mut turns = 0;
            let mut last = usize::MAX;
            while at < o.stdout.len() {
                let Some(k) = left.iter().position(|(f, n)| *n > 0 && o.stdout[at..].starts_with(f)) else {
                    let cut = String::from_utf8_lossy(&o.stdout[at..(at + 200).min(o.stdout.len())]).into_owned();
                    return Err(format!("{} threads displaying at the same time: at byte {} no whole frame of theirs follows: {:?}\n{}", docs.len(), at, cut, what()));
                };
                left[k].1 -= 1;
                at += left[k].0.len();
                turns += (k != last) as u64;
                last = k;
            }
            ensure!(left.iter().all(|f| f.1 == 0), "{} threads displaying at the same time: frames are missing: {:?} left\n{}", docs.len(), left.iter().map(|f| f.1).collect::<Vec<_>>(), what());
            if docs.len() > 1 {
                cx.add("displays by several threads at once", 1);
                cx.add("changes of thread between frames", turns);
            }
            o.stdout.clone()
        }
    };
    if o.stdout != want {
        let k = o.stdout.iter().zip(&want).take_while(|(a, b)| a == b).count();
        let cut = |s: &[u8]| String::from_utf8_lossy(&s[k.saturating_sub(60).min(s.len())..(k + 60).min(s.len())]).into_owned();
        return Err(format!("{} bytes displayed, {} expected; they differ at byte {}: {:?}, expected {:?}\n{}", o.stdout.len(), want.len(), k, cut(&o.stdout), cut(&want), what()));
    }
    cx.add("documents displayed", docs.len() as u64);
    cx.sample(|| String::from_utf8_lossy(&want).into_owned());
    Ok(())
}
pub const C26: Check = Check {
    id: "C26",
    level: "exploration",
    cases: |t: Tier| t.n(2500, 60000),
    run: c26,
    rule: "one to five documents (laid out from modules, or built freely with and without a view box) displayed one after another, all made first and then displayed twice each in reverse, or by a thread each at the same time, by a process whose standard output is captured and compared byte for byte with the renderer's output in this process; distinct by drawing",
    assumptions: &[],
    need: &[("documents displayed", 4000), ("displays by several threads at once", 300)],
    exhaustive: false,
    workers: 8,
};
