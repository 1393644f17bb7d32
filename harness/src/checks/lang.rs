//! C01-C06: the language front end.
use crate::gen::*;
use crate::pipe::*;
use crate::refl::*;
use crate::rng::Rng;
use crate::{ensure, Check, Ctx, Res, Tier};

const ANY: Shape = Shape {
    defs: (0, 6),
    fields: (0, 7),
    rels: (0, 6),
    names: 1,
    unique: false,
    dangling: true,
    ordered: false,
};

/// Modules of every size and shape the language can spell.
pub fn any_module(r: &mut Rng) -> RModule {
    let mut s = ANY;
    match r.below(12) {
        0 => s.names = 0,
        1 => s.defs = (0, 0),
        2 => s.fields = (0, 0),
        3 => {
            s.defs = (20, 60);
            s.rels = (0, 60);
            s.fields = (0, 3);
        }
        4 => {
            s.defs = (1, 2);
            s.fields = (30, 150);
        }
        5 | 6 => s.names = 0,
        _ => {}
    }
    module(r, &s)
}

/// Parse, never expecting a panic.
pub fn parse(src: &str) -> Result<seiren::parser::ParseResult, String> {
    guard(|| seiren::parser::parse(src)).map_err(|p| format!("parse panicked: {}\nsource: {}", p, brief(src)))
}

// ------------------------------------------------------------------ C01

/// Programs of a given size in one respect.
const SIZED: usize = 12;
fn sized(kind: usize, n: usize) -> String {
    let f = |i: usize| format!("f{} {} {}", i, TYS[i % 4].word(), ["", "PK", "FK"][i % 3]);
    let t = "t { f0 int }";
    let all = |g: &dyn Fn(usize) -> String, sep: &str| (0..n).map(g).collect::<Vec<_>>().join(sep);
    match kind {
        0 => format!("erd {{ t {{ {} }}; {} }}", all(&f, "\n"), t),
        1 => format!("erd {{ {} }}", all(&|i| format!("e{} {{ {} }}", i, f(i)), "\n")),
        2 => format!("erd {{ {} {} }}", all(&|i| format!("e{} o--o t.f{};", i, i), " "), t),
        3 => format!("erd {{ //{}\n{} }}", "c".repeat(n), t),
        4 => format!("erd{}{{{}{}{}}}{}", " ".repeat(n), "\t".repeat(n), t, " ".repeat(n), " ".repeat(n)),
        5 => format!("{}erd {{{}{}{}}}{}", "\n".repeat(n), "\r\n".repeat(n), t, "\n".repeat(n), "\n".repeat(n)),
        6 => format!("{}erd {{ {} }}", "// c\n".repeat(n), t),
        7 => {
            let w = "w".repeat(n + 1);
            format!("erd {} {{ {}; {}.{} o--o {}; {} {{ {} int }} }}", w, t, w, w, w, w, w)
        }
        8 => {
            let q = format!("`{}`", "\\\\\\`é".repeat(n));
            format!("erd {} {{ {}; {}.{} o--o {}; {} {{ {} int }} }}", q, t, q, q, q, q, q)
        }
        9 => format!("erd {{ u {{ f0 int PK{}f1 int{} }};{}{} }}", "\n".repeat(n + 1), "\n".repeat(n), "\n".repeat(n), t),
        10 => format!("erd{{{}}}", all(&|i| format!("e{}{{}}", i), ";")),
        _ => format!("erd {{ {}; t{}o--o{}t.f0 }}", t, " ".repeat(n + 1), " \t".repeat(n + 1)),
    }
}

fn c01(cx: &mut Ctx) -> Res {
    let rungs = ladder();
    if cx.idx < SIZED * rungs.len() {
        let src = sized(cx.idx % SIZED, rungs[cx.idx / SIZED]);
        match judge(&src) {
            Verdict::In(j) => {
                let got = RModule::from_api(&parse_ok(&src)?);
                ensure!(got == j, "parsed into something else\nexpected {:.3000}\ngot      {:.3000}\nsource: {}", format!("{:?}", j), format!("{:?}", got), brief(&src));
            }
            _ => panic!("harness: the reference refuses {}", brief(&src)),
        }
        cx.add("programs of every size", 1);
        cx.add("programs accepted", 1);
        cx.max("source chars", src.chars().count() as u64);
        cx.nontrivial(src.as_bytes());
        return Ok(());
    }
    if cx.idx % 250 == 125 {
        let src = stretched(&mut cx.rng, false, false);
        if let Verdict::In(j) = judge(&src) {
            let got = RModule::from_api(&parse_ok(&src)?);
            ensure!(got == j, "parsed into something else\nexpected {:.3000}\ngot      {:.3000}\nsource: {}", format!("{:?}", j), format!("{:?}", got), brief(&src));
            cx.add("programs with a stretch of 33 thousand to a million characters", 1);
            cx.max("source chars", src.chars().count() as u64);
            cx.nontrivial(src.as_bytes());
        }
        return Ok(());
    }
    let m = if cx.rng.chance(1, 150) { big_module(&mut cx.rng, false) } else { any_module(&mut cx.rng) };
    let style = *cx.rng.pick(&[0, 1, 2, 2, 2, 2]);
    let src = emit(&mut cx.rng, &m, style);
    match judge(&src) {
        Verdict::In(j) if j == m => {}
        v => panic!("harness: generator and reference disagree: {:?} {}", v, brief(&src)),
    }
    let got = RModule::from_api(&parse_ok(&src)?);
    ensure!(got == m, "parsed into something else\nexpected {:?}\ngot      {:?}\nsource: {}", m, got, brief(&src));
    cx.add("programs accepted", 1);
    cx.add("entities", m.defs().len() as u64);
    cx.add("relations", m.rels().len() as u64);
    cx.add("fields", m.defs().iter().map(|d| d.1.len() as u64).sum());
    cx.max("source chars", src.chars().count() as u64);
    if !m.entries.is_empty() {
        cx.nontrivial(src.as_bytes());
    }
    cx.sample(|| brief(&src));
    Ok(())
}
pub const C01: Check = Check {
    id: "C01",
    level: "exploration",
    cases: |t: Tier| SIZED * ladder().len() + t.n(20000, 600000),
    run: c01,
    rule: "programs of every size on a ladder around the powers of two up to 5000 (fields, entities, relations, comments, blank and newline runs, names), then random modules spelled out by a generator that follows the documented grammar (minimal, tidy and wild spacing, comments, CRLF, quoted and escaped names); a case is non-trivial if the module has at least one entry; distinct by source text",
    assumptions: &["the reference grammar is the EBNF in the parser documentation plus // comments"],
    need: &[("programs accepted", 2000), ("relations", 1000), ("programs of every size", 100)],
    exhaustive: false,
    workers: 8,
};

// ------------------------------------------------------------------ C02

/// Edit a program on the level of its tokens: the mistakes that leave every
/// word intact.
fn token_edit(r: &mut Rng, src: &str) -> String {
    let cs: Vec<char> = src.chars().collect();
    let Ok(toks) = lex(&cs) else { return src.into() };
    if toks.is_empty() {
        return src.into();
    }
    // pieces: gap, token, gap, token, ..., gap
    let mut gaps: Vec<String> = vec![];
    let mut words: Vec<String> = vec![];
    let mut at = 0;
    for t in &toks {
        gaps.push(cs[at..t.s].iter().collect());
        words.push(cs[t.s..t.e].iter().collect());
        at = t.e;
    }
    let tail: String = cs[at..].iter().collect();
    const W: &[&str] = &["{", "}", ";", ".", "\n", "o--o", "erd", "int", "uuid", "text", "timestamp", "PK", "FK", "a", "b", "`q`"];
    for _ in 0..*r.pick(&[1, 1, 1, 2, 4]) {
        if words.is_empty() {
            break;
        }
        let i = r.below(words.len());
        match r.below(6) {
            0 => {
                words.remove(i);
                gaps.remove(i);
            }
            1 => {
                words.insert(i, words[i].clone());
                gaps.insert(i, " ".into());
            }
            2 => {
                let j = r.below(words.len());
                words.swap(i, j);
            }
            3 => words[i] = r.pick(W).to_string(),
            4 => {
                words.insert(i, r.pick(W).to_string());
                gaps.insert(i, " ".into());
            }
            _ => {
                if i + 1 < words.len() {
                    words.swap(i, i + 1);
                }
            }
        }
    }
    let mut o = String::new();
    for (i, (g, w)) in gaps.iter().zip(&words).enumerate() {
        o.push_str(g);
        if i > 0 && g.is_empty() {
            o.push(' ');
        }
        o.push_str(w);
    }
    if tail.is_empty() {
        o.push(' ');
    }
    o.push_str(&tail);
    o
}

pub fn hostile(cx: &mut Ctx) -> String {
    let r = &mut cx.rng;
    let small = |r: &mut Rng| {
        let s = Shape { defs: (0, 3), fields: (0, 3), rels: (0, 3), names: r.below(2) as u8, unique: false, dangling: true, ordered: false };
        module(r, &s)
    };
    if r.chance(1, 400) {
        let m = big_module(r, false);
        let st = r.below(3) as u8;
        let src = emit(r, &m, st);
        return if r.chance(1, 2) { token_edit(r, &src) } else { mutate(r, &src) };
    }
    match r.below(12) {
        0..=1 => soup(r),
        2 => noise(r),
        3 => {
            let m = any_module(r);
            let src = emit(r, &m, 2);
            let k = r.below(src.chars().count() + 1);
            src.chars().take(k).collect()
        }
        4..=7 => {
            let m = small(r);
            let st = r.below(3) as u8;
            let src = emit(r, &m, st);
            token_edit(r, &src)
        }
        _ => {
            let m = small(r);
            let st = r.below(3) as u8;
            let src = emit(r, &m, st);
            mutate(r, &src)
        }
    }
}

fn c02_one(cx: &mut Ctx, src: &str) -> Res {
    let (ast, lex, par) = parse(src)?;
    let clean = lex.is_empty() && par.is_empty();
    match judge(src) {
        Verdict::In(m) => {
            ensure!(clean, "a documented program was rejected: {:?} {:?}\nsource: {}", lex, par, brief(src));
            let got = ast.as_ref().map(RModule::from_api);
            ensure!(got.as_ref() == Some(&m), "parsed into something else\nexpected {:?}\ngot      {:?}\nsource: {}", m, got, brief(src));
            cx.add("inside the language", 1);
        }
        Verdict::Out => {
            ensure!(!clean, "text outside the language passed without a diagnostic, as {:?}\nsource: {}", ast.as_ref().map(|m| m.to_string()), brief(src));
            cx.add("outside the language", 1);
            cx.nontrivial(src.as_bytes());
            if ast.is_some() {
                cx.add("outside, recovered into a module", 1);
            }
        }
        Verdict::Open(m) => {
            // accepted or not, it must not be taken for something else
            if clean {
                let got = ast.as_ref().map(RModule::from_api);
                ensure!(got.as_ref() == Some(&m), "parsed into something else\nexpected {:?}\ngot      {:?}\nsource: {}", m, got, brief(src));
            }
            cx.add("left open by the documentation", 1)
        }
    }
    Ok(())
}
fn c02(cx: &mut Ctx) -> Res {
    if cx.idx % 800 == 0 {
        // every prefix and every single deletion of one small program
        let s = Shape { defs: (1, 2), fields: (0, 2), rels: (1, 1), names: 1, unique: false, dangling: false, ordered: false };
        let m = module(&mut cx.rng, &s);
        let src = emit(&mut cx.rng, &m, 2);
        let cs: Vec<char> = src.chars().take(400).collect();
        for k in 0..cs.len() {
            let p: String = cs[..k].iter().collect();
            c02_one(cx, &p)?;
            let d: String = cs[..k].iter().chain(&cs[k + 1..]).collect();
            c02_one(cx, &d)?;
        }
        cx.add("programs cut at every place", 1);
        return Ok(());
    }
    if cx.idx % 800 == 400 {
        // every single mistake on the level of tokens in one small program
        let s = Shape { defs: (1, 2), fields: (0, 2), rels: (1, 1), names: 1, unique: false, dangling: false, ordered: false };
        let m = module(&mut cx.rng, &s);
        let style = cx.rng.below(3) as u8;
        let src = emit(&mut cx.rng, &m, style);
        for t in token_mistakes(&src) {
            c02_one(cx, &t)?;
        }
        cx.add("programs with every single token mistake", 1);
        return Ok(());
    }
    if cx.idx % 800 == 600 {
        // something foreign at every place of one small program
        let s = Shape { defs: (1, 1), fields: (0, 2), rels: (1, 1), names: 1, unique: false, dangling: false, ordered: false };
        let m = module(&mut cx.rng, &s);
        let style = cx.rng.below(2) as u8;
        let src = emit(&mut cx.rng, &m, style);
        let cs: Vec<char> = src.chars().take(160).collect();
        for k in 0..=cs.len() {
            for f in FOREIGN {
                let t: String = cs[..k].iter().copied().chain(f.chars()).chain(cs[k..].iter().copied()).collect();
                c02_one(cx, &t)?;
            }
        }
        cx.add("programs with foreign text at every place", 1);
        return Ok(());
    }
    if cx.idx % 800 == 100 || cx.idx % 800 == 500 {
        // what other languages say at every place between and instead of the
        // words of one small program
        let all: Vec<&str> = ALIEN.lines().flat_map(|l| l.split("  ")).map(str::trim).filter(|w| !w.is_empty()).collect();
        let turn = cx.idx / 400;
        let s = Shape { defs: (1, 2), fields: (1, 2), rels: (1, 1), names: 1, unique: false, dangling: false, ordered: false };
        let m = module(&mut cx.rng, &s);
        let style = cx.rng.below(2) as u8;
        let src = emit(&mut cx.rng, &m, style);
        let cs: Vec<char> = src.chars().collect();
        let Ok(toks) = lex(&cs) else { return Ok(()) };
        let words: Vec<String> = toks.iter().map(|t| cs[t.s..t.e].iter().collect()).collect();
        if words.len() > 60 {
            return Ok(());
        }
        for k in 0..10 {
            let x = all[(turn * 10 + k) % all.len()].replace("\\n", "\n");
            for i in 0..=words.len() {
                let mut w = words.clone();
                w.insert(i, x.clone());
                c02_one(cx, &(w.join(" ") + " "))?;
                if i < words.len() {
                    let mut w = words.clone();
                    w[i] = x.clone();
                    c02_one(cx, &(w.join(" ") + " "))?;
                }
            }
        }
        cx.add("phrases of other languages at every place", 10);
        return Ok(());
    }
    if cx.idx % 800 == 200 || cx.idx % 800 == 700 {
        // a mistake before or after a very long stretch
        let src = stretched(&mut cx.rng, true, false);
        c02_one(cx, &src)?;
        cx.add("programs with a very long stretch and a mistake", 1);
        return Ok(());
    }
    if cx.idx % 40 == 20 {
        // a name with one escape that may be wrong, the rest of the program right
        let k = (cx.idx / 40) as u32;
        for code in [0xD800 + k % 0x400, 0xDC00 + k % 0x400, 0xD800 + (k * 67) % 0x800] {
            let r = &mut cx.rng;
            let esc = if r.chance(1, 2) { format!("\\u{:04x}", code) } else { format!("\\u{:04X}", code) };
            let esc = match r.below(4) {
                // a pair of halves names no character here either
                0 => format!("{}\\u{:04x}", esc, 0xDC00 + r.below(0x400)),
                _ => esc,
            };
            let (a, b) = (*r.pick(&["", "x", "\\n", "\\u0041"]), *r.pick(&["", "y", "\\t", "\\u0042", "0"]));
            let src = match r.below(4) {
                0 => format!("erd {{ `{a}{esc}{b}` {{ }} }}"),
                1 => format!("erd {{ t {{ `{a}{esc}{b}` int }} }}"),
                2 => format!("erd {{ `{a}{esc}{b}` o--o t }}"),
                _ => format!("erd {{ t.`{a}{esc}{b}` o--o t }}"),
            };
            c02_one(cx, &src)?;
        }
        cx.add("surrogate escapes", 3);
        for _ in 0..4 {
            let r = &mut cx.rng;
            let digits: String = (0..r.below(5)).map(|_| *r.pick(&['0', '1', '9', 'a', 'f', 'A', 'F'])).collect();
            let stop = *r.pick(&["g", "G", " ", "`", "+", "-", ".", "_", "x", "\\", "{", "}", "\n", "é", "１", "u", "'", "\"", "/", ":", "@"]);
            let lead = *r.pick(&["u", "U", "x", "u{", "u+", "u ", "u0x"]);
            let src = format!("erd {{ `a\\{lead}{digits}{stop}` {{ }} }}");
            c02_one(cx, &src)?;
        }
        return Ok(());
    }
    let src = hostile(cx);
    c02_one(cx, &src)?;
    cx.sample(|| brief(&src));
    Ok(())
}
/// Words, signs and phrases of similar languages, two spaces apart.
const ALIEN: &str = "
/* c */  /* c  */  # c\\n  -- c\\n  % c\\n  ' c\\n  <!-- c -->  (* c *)  \"\"\" c \"\"\"  ///  //\\n,  ;;  ,  , a  :  ::  =  :=  =>  ->  <-  <->
'a'  \"a\"  [a]  <a>  (a)  @a  $a  #a  :a  *a  +a  -a  ~a  !a  ?a  ?  !  *  +  ~  &  |  ^  %  a-b  a$  a?  a!  a:  a::b  a.b.c  a .b  a. b  a/b  1a  1  -1  1.5  0x1  é
bool  boolean  integer  bigint  smallint  tinyint  serial  bigserial  number  numeric  decimal  float  double  real  char  string  str  varchar  varchar(255)  int(11)  int[]  int?  int!  int = 0
date  time  datetime  timestamptz  interval  json  jsonb  xml  blob  bytes  bytea  binary  guid  enum  money  inet  any  int8  int16  int32  int64  i32  u64
UUID  INT  Text  TIMESTAMP  Timestamp  Uuid  Int  TEXT  ERD  Erd  pk  fk  Pk  Fk  pK  fK  UK  AK  CK  uk  PFK  PK FK  FK PK  PK, FK  PK,FK  PK PK  PK;FK  (PK)  [PK]  <PK>  PK1
key  primary  primary key  foreign key  unique  index  null  NULL  not null  NOT NULL  nullable  default 0  auto_increment  references a(b)  as a  AS a  \"comment\"
--  -->  <--  ==>  o-->o  o->o  o-o  o---o  o----o  o--  --o  o==o  o..o  x--x  o--x  x--o  O--O  0--0  *--*  1--*  1--1  >--<  |--|  ||--||  ||--o{  }o--o{  }|--|{  }--{  o--|  |--o  o--o{  }o--o  o--o:  o--o \"l\"  o -- o  o- -o  o --o  o-- o  o—o  o──o  o--o--o  o--oo--o
: l  : \"l\"  [l]  { }  {}  ( )  ()  { a }  {{  }}  begin  end  do  entity  entity a  table  table a  relation  rel  ref  Ref:  module  module a  graph  digraph  er  erDiagram  database  schema  namespace  package  import a  include a  use a  export  extends a  type a  let a  a = b
a o--o b o--o c  o--o a o--o  a, b o--o c  a.* o--o b  a.(b, c) o--o d  a:b o--o c  a->b o--o c  *  a.b.c o--o d  .a o--o b  a. o--o b  a..b o--o c  \\  \\\\n  `a` `b`  ``a``  `a  a`  `a`b  `a`.  .`a`  \\`a`  '`a`'
";
/// What is no part of the language, though a reader might be lenient about it.
const FOREIGN: &[&str] = &[
    "\u{feff}", "\u{a0}", "\u{c}", "\u{b}", "\r", "\u{85}", "\u{2028}", "\u{3000}", "\u{200b}", "\0", "\u{1a}", "#", "/*", "*/", "/", "--", "-", ",", ":", "(", ")", "[", "]",
    "'", "\"", "\\", "$", "é", "0", "７", "o-o", "o---o", "o--", "--o", "O--O", "o–o", "=", "|",
];

/// A small program with one stretch that is very long: blanks, comments, lines
/// or a name; what is `wrong` with it, if anything, lies anywhere.
fn stretched(r: &mut Rng, wrong: bool, lines: bool) -> String {
    let s = Shape { defs: (1, 3), fields: (0, 3), rels: (0, 2), names: r.below(2) as u8, unique: false, dangling: true, ordered: false };
    let m = module(r, &s);
    let style = r.below(2) as u8;
    let src = emit(r, &m, style);
    let cs: Vec<char> = src.chars().collect();
    let Ok(toks) = lex(&cs) else { return src };
    let mut words: Vec<String> = toks.iter().map(|t| cs[t.s..t.e].iter().collect()).collect();
    let n = *r.pick(&[33_000, 66_000, 66_000, 132_000, 132_000, 263_000, 530_000, 1_060_000]) + r.below(900);
    let few = n.min(66_000 + n % 900);
    // beside a line end any of them is harmless
    let ends: Vec<usize> = (0..words.len()).filter(|i| words[*i] == "\n").collect();
    let at = if ends.is_empty() || r.chance(1, 4) { r.below(words.len() + 1) } else { *r.pick(&ends) };
    let pad = match if lines { 3 + r.below(2) } else { r.below(7) } {
        0 => " ".repeat(n),
        1 => "\t ".repeat(n / 2),
        2 => format!("//{}\n", "c".repeat(n)),
        3 => "// c\n".repeat(few),
        4 => "\n".repeat(few),
        5 => format!("//{}\n", "日".repeat(n / 3)),
        _ => {
            let w = if r.chance(1, 2) { "w".repeat(n) } else { format!("`{}`", "\\`é".repeat(n / 3)) };
            let k = r.below(words.len());
            if words[k].starts_with(|c: char| c == '`' || c.is_alphabetic()) {
                words[k] = w;
            }
            String::new()
        }
    };
    words.insert(at, pad);
    if wrong {
        let k = if r.chance(3, 4) { r.range(at, words.len()) } else { r.below(words.len()) };
        let x = |r: &mut Rng| r.pick(&["{", "}", ";", ".", "\n", "o--o", "erd", "int", "PK", "a", "`q`"]).to_string();
        match r.below(6) {
            0 => words.insert(k, r.pick(FOREIGN).to_string()),
            1 => {
                let mut w = x(r);
                w.push_str(r.pick(FOREIGN));
                words.insert(k, w);
            }
            2 => words.truncate(k),
            3 if k < words.len() => {
                words.remove(k);
            }
            4 => words.push(x(r)),
            _ => {
                let w = x(r);
                words.insert(k, w);
            }
        }
    }
    let mut o = words.join(" ");
    o.push(' ');
    o
}

/// Every text one token mistake away: a token left out, doubled, swapped
/// with the next, replaced, or put in front.
fn token_mistakes(src: &str) -> Vec<String> {
    let cs: Vec<char> = src.chars().collect();
    let Ok(toks) = lex(&cs) else { return vec![] };
    let words: Vec<String> = toks.iter().map(|t| cs[t.s..t.e].iter().collect()).collect();
    if words.len() > 60 {
        return vec![];
    }
    const W: &[&str] = &["{", "}", ";", ".", "\n", "o--o", "erd", "int", "PK", "a", "`q`"];
    let join = |ws: &[String]| {
        let mut o = ws.join(" ");
        o.push(' ');
        o
    };
    let mut out = vec![];
    for i in 0..words.len() {
        let mut w = words.clone();
        w.remove(i);
        out.push(join(&w));
        w = words.clone();
        w.insert(i, words[i].clone());
        out.push(join(&w));
        if i + 1 < words.len() {
            w = words.clone();
            w.swap(i, i + 1);
            out.push(join(&w));
        }
        for x in W {
            w = words.clone();
            w[i] = x.to_string();
            out.push(join(&w));
            w = words.clone();
            w.insert(i, x.to_string());
            out.push(join(&w));
        }
    }
    for x in W {
        let mut w = words.clone();
        w.push(x.to_string());
        out.push(join(&w));
    }
    out
}
pub const C02: Check = Check {
    id: "C02",
    level: "exploration",
    cases: |t: Tier| t.n(80000, 1500000),
    run: c02,
    rule: "programs with character and token edits, programs cut and pruned at every place, programs with every single token mistake, programs with foreign text at every place, words and phrases of similar languages at every place of a program and instead of each of its words, names with every surrogate escape or a broken one, fragments of the language in random order, random characters; each is judged by an independent recogniser as inside, outside or left open; a case is non-trivial if it is outside the language; distinct by text",
    assumptions: &["`;` used as a blank is left open by the documentation: such a text may be rejected"],
    need: &[("outside the language", 5000), ("inside the language", 500), ("programs cut at every place", 10), ("phrases of other languages at every place", 1000)],
    exhaustive: false,
    workers: 8,
};

// ------------------------------------------------------------------ C03

const BLOCK: usize = 256;
const PLANES: usize = 0x110000 / BLOCK; // 4352
const BMP: usize = 0x10000 / BLOCK; // 256
const POSITIONS: [(&str, &str); 7] = [
    ("erd ", " {}"),
    ("erd { ", " {} }"),
    ("erd { t { ", " int } }"),
    ("erd { t { a ", " } }"),
    ("erd { t { a int ", " } }"),
    ("erd { ", " o--o b.c }"),
    ("erd { a.", " o--o b }"),
];

/// A program naming one entity, one field and one relation end per name.
fn names_program(names: &[(String, String)]) -> (String, RModule) {
    let mut src = String::from("erd {\n");
    let mut m = RModule::default();
    for (i, (spelling, name)) in names.iter().enumerate() {
        match i % 3 {
            0 => {
                src.push_str(&format!("{} {{ x int }}\n", spelling));
                m.entries.push(REntry::Def(name.clone(), vec![RField { name: "x".into(), ty: Ty::Int, key: None }]));
            }
            1 => {
                src.push_str(&format!("t {{ {} uuid FK }}\n", spelling));
                m.entries.push(REntry::Def("t".into(), vec![RField { name: name.clone(), ty: Ty::Uuid, key: Some(Key::Fk) }]));
            }
            _ => {
                src.push_str(&format!("a.{} o--o {}.b\n", spelling, spelling));
                m.entries.push(REntry::Rel(("a".into(), Some(name.clone())), (name.clone(), Some("b".into()))));
            }
        }
    }
    src.push('}');
    (src, m)
}
fn expect_names(cx: &mut Ctx, names: &[(String, String)], what: &str) -> Res {
    let (src, m) = names_program(names);
    let whole = parse_ok(&src).map(|p| RModule::from_api(&p));
    if whole.as_ref().ok() == Some(&m) {
        cx.add(what, names.len() as u64);
        return Ok(());
    }
    // find the culprit
    for n in names {
        let one = vec![n.clone(), n.clone(), n.clone()];
        let (src, m) = names_program(&one);
        let got = RModule::from_api(&parse_ok(&src)?);
        ensure!(got == m, "{:?} should denote the name {:?}\nexpected {:?}\ngot      {:?}\nsource: {}", n.0, n.1, m, got, brief(&src));
    }
    let got = RModule::from_api(&parse_ok(&src)?);
    Err(format!("expected {:?}\ngot      {:?}\nsource: {}", m, got, brief(&src)))
}
/// `spelling` in every name position must be diagnosed.
fn expect_bad(cx: &mut Ctx, spelling: &str, positions: &[usize], what: &str) -> Res {
    for p in positions {
        let (a, b) = POSITIONS[*p];
        let src = format!("{}{}{}", a, spelling, b);
        let (_, lx, par) = parse(&src)?;
        ensure!(!(lx.is_empty() && par.is_empty()), "{} passed without a diagnostic\nsource: {}", what, brief(&src));
        cx.add(what, 1);
    }
    Ok(())
}

fn name_ladder() -> Vec<usize> {
    let mut v = ladder();
    v.retain(|n| *n > 0);
    v.extend([8191, 8192, 8193, 10000, 10001, 16384, 16385, 32767, 32768, 65535, 65536, 65537, 100000, 131073]);
    v
}
fn c03(cx: &mut Ctx) -> Res {
    let mut i = cx.idx;
    cx.nontrivial(&(i as u64).to_le_bytes());
    // A: every scalar, raw, inside quotes
    if i < PLANES {
        let mut names = vec![];
        for v in (i * BLOCK) as u32..((i + 1) * BLOCK) as u32 {
            let Some(c) = char::from_u32(v) else { continue };
            if c == '`' || c == '\\' {
                continue;
            }
            let n = match v % 5 {
                0 => format!("{}", c),
                1 => format!("a{}", c),
                2 => format!("{}b", c),
                3 => format!("a{}{}b", c, c),
                _ => format!("{} {}", c, c),
            };
            names.push((format!("`{}`", n), n));
        }
        if names.is_empty() {
            return Ok(());
        }
        return expect_names(cx, &names, "characters quoted");
    }
    i -= PLANES;
    // B: every \uXXXX, three spellings
    if i < BMP {
        for style in 0..3 {
            let mut names = vec![];
            for v in (i * BLOCK) as u32..((i + 1) * BLOCK) as u32 {
                let h = match style {
                    0 => format!("{:04x}", v),
                    1 => format!("{:04X}", v),
                    _ => format!("{:04x}", v).chars().enumerate().map(|(k, c)| if (v as usize + k) % 2 == 0 { c.to_ascii_uppercase() } else { c }).collect(),
                };
                match char::from_u32(v) {
                    Some(c) => names.push(match v % 3 {
                        0 => (format!("`\\u{}`", h), format!("{}", c)),
                        1 => (format!("`\\u{}0`", h), format!("{}0", c)),
                        _ => (format!("`x\\u{}\\u{}`", h, h), format!("x{}{}", c, c)),
                    }),
                    None => expect_bad(cx, &format!("`a\\u{}b`", h), &[0, 1, 2, 5, 6], "surrogate escapes refused")?,
                }
            }
            if !names.is_empty() {
                expect_names(cx, &names, "unicode escapes")?;
            }
        }
        return Ok(());
    }
    i -= BMP;
    // C: every character after a backslash
    if i < PLANES {
        let known = [('\\', '\\'), ('/', '/'), ('"', '"'), ('`', '`'), ('b', '\u{8}'), ('f', '\u{c}'), ('n', '\n'), ('r', '\r'), ('t', '\t')];
        let mut good = vec![];
        let all = cx.tier == Tier::Thorough || i < 16;
        for v in (i * BLOCK) as u32..((i + 1) * BLOCK) as u32 {
            let Some(c) = char::from_u32(v) else { continue };
            if let Some((_, d)) = known.iter().find(|k| k.0 == c) {
                for k in 0..3 {
                    good.push((format!("`{}\\{}z`", "a".repeat(k), c), format!("{}{}z", "a".repeat(k), d)));
                    good.push((format!("`\\{}\\{}`", c, c), format!("{}{}", d, d)));
                }
                continue;
            }
            if all || cx.rng.chance(1, 40) {
                let p = if i == 0 { vec![0, 1, 2, 5, 6] } else { vec![v as usize % 3] };
                expect_bad(cx, &format!("`a\\{}b`", c), &p, "unknown escapes refused")?;
            }
        }
        if !good.is_empty() {
            expect_names(cx, &good, "named escapes")?;
        }
        return Ok(());
    }
    i -= PLANES;
    // D: every character in a bare word; reserved words and their relatives:
    // the reference recogniser decides
    if i < PLANES {
        let all = cx.tier == Tier::Thorough || i < 16;
        for v in (i * BLOCK) as u32..((i + 1) * BLOCK) as u32 {
            let Some(c) = char::from_u32(v) else { continue };
            if all || cx.rng.chance(1, 40) {
                for w in [format!("{}", c), format!("a{}", c), format!("{}a", c), format!("a{}b", c)] {
                    let p = if i == 0 { vec![0, 1, 2, 5, 6] } else { vec![v as usize % 3] };
                    for p in p {
                        let (a, b) = POSITIONS[p];
                        c02_one(cx, &format!("{}{}{}", a, w, b))?;
                    }
                }
                cx.add("characters in bare words", 1);
            }
        }
        return Ok(());
    }
    i -= PLANES;
    if i < KEYWORDS.len() {
        let k = KEYWORDS[i];
        let n = k.len();
        let mut words: Vec<String> = vec![];
        for bits in 0..1u32 << n {
            words.push(k.chars().enumerate().map(|(j, c)| if bits >> j & 1 == 1 { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect());
        }
        for c in "abcxyzABCXYZ0189_".chars() {
            words.push(format!("{}{}", k, c));
            words.push(format!("{}{}", c, k));
            words.push(format!("{}_{}", k, c));
        }
        for j in 0..n {
            words.push(k[..j].to_string());
            words.push(k[j..].to_string());
            let mut cut = k.to_string();
            cut.remove(j);
            words.push(cut);
        }
        for o in KEYWORDS {
            words.push(format!("{}{}", k, o));
            words.push(format!("{}_{}", k, o));
        }
        words.push("o".into());
        words.push("o_".into());
        words.push("oo".into());
        for w in &words {
            for (a, b) in POSITIONS {
                c02_one(cx, &format!("{}{}{}", a, w, b))?;
                c02_one(cx, &format!("{}`{}`{}", a, w, b))?;
                c02_one(cx, &format!("{}{}{}", a.trim_end(), w, b.trim_start()))?;
                cx.add("reserved words and their relatives", 1);
            }
        }
        let quoted: Vec<_> = words.iter().map(|w| (format!("`{}`", w), w.clone())).collect();
        return expect_names(cx, &quoted, "reserved words quoted");
    }
    i -= KEYWORDS.len();
    if i == 0 {
        // incomplete escapes and quotes
        for bad in ["`", "`a", "`\\`", "`\\", "`\\u`", "`\\u0`", "`\\u00`", "`\\u004`", "`\\u004g`", "`\\u00 1`", "`\\u-041`", "`\\u+041`", "`\\U0041`", "`\\x41`", "`\\0`", "`\\'`", "`\\u{41}`", "`a``", "```"] {
            expect_bad(cx, bad, &[0, 1, 2, 5, 6], "broken quotes refused")?;
        }
        for pos in 0..4 {
            for c in (0..0x250u32).filter_map(char::from_u32).chain(['０', 'Ａ', '٠', '\u{1D7D8}']) {
                if c.is_ascii_hexdigit() {
                    continue;
                }
                let mut h: Vec<char> = "0041".chars().collect();
                h[pos] = c;
                let h: String = h.into_iter().collect();
                if c == '`' {
                    continue;
                }
                expect_bad(cx, &format!("`\\u{}`", h), &[0, 1, 2], "bad digits refused")?;
            }
        }
        return Ok(());
    }
    i -= 1;
    // every numeral of every script as a digit of an escape
    if i < PLANES {
        let all = cx.tier == Tier::Thorough;
        for v in (i * BLOCK) as u32..((i + 1) * BLOCK) as u32 {
            let Some(c) = char::from_u32(v) else { continue };
            if c.is_ascii_hexdigit() || c == '`' || !(c.is_numeric() || v < 0x250 || (c.is_alphanumeric() && (all || cx.rng.chance(1, 100)))) {
                continue;
            }
            for pos in 0..4 {
                for base in ["0041", "FFFF"] {
                    let mut h: Vec<char> = base.chars().collect();
                    h[pos] = c;
                    let h: String = h.into_iter().collect();
                    expect_bad(cx, &format!("`\\u{}`", h), &[pos % 3], "bad digits refused")?;
                }
            }
            // and throughout
            expect_bad(cx, &format!("`\\u{}`", c.to_string().repeat(4)), &[v as usize % 3], "bad digits refused")?;
        }
        return Ok(());
    }
    i -= PLANES;
    // names of every length
    let rungs = name_ladder();
    if i < rungs.len() {
        let n = rungs[i];
        let mixed: String = ('a'..='z').chain('0'..='9').chain(['_', 'Z']).cycle().take(n).collect();
        let wide: String = "日🦀é a".chars().cycle().take(n).collect();
        let mut names = vec![(mixed.clone(), mixed.clone()), (format!("`{}`", mixed), mixed), (format!("`{}`", wide), wide)];
        names.push((format!("`{}`", "\\t\\u00e9".repeat(n / 2)), "\té".repeat(n / 2)));
        for k in 0..3 {
            names.rotate_left(1);
            expect_names(cx, &names, "names of every length")?;
            if k == 0 {
                // as the name of the module
                for (q, w) in &names {
                    let src = format!("erd {} {{ }}", q);
                    let got = RModule::from_api(&parse_ok(&src)?).name;
                    ensure!(got.as_ref() == Some(w), "a module's name of {} characters came back with {:?}\nsource: {}", w.chars().count(), got.map(|g| g.chars().count()), brief(&src));
                }
            }
        }
        cx.max("longest name", n as u64);
        return Ok(());
    }
    // longer names
    let mut names = vec![];
    for _ in 0..30 {
        let n = any_name(&mut cx.rng);
        let q = quote(&mut cx.rng, &n);
        names.push((q, n));
    }
    for _ in 0..10 {
        let n = plain_name(&mut cx.rng);
        names.push((n.clone(), n));
    }
    cx.rng.shuffle(&mut names);
    cx.sample(|| format!("{:?}", names.iter().map(|n| &n.0).take(12).collect::<Vec<_>>()));
    expect_names(cx, &names, "random names")
}
pub const C03: Check = Check {
    id: "C03",
    level: "exploration",
    cases: |t: Tier| PLANES + BMP + PLANES + PLANES + KEYWORDS.len() + 1 + PLANES + name_ladder().len() + t.n(1500, 60000),
    run: c03,
    rule: "enumerated: every scalar raw inside quotes; all 65536 \\u escapes in three spellings; every character after a backslash and inside a bare word (quick: the first 4096 and one in 40 of the rest); every case variant, extension and truncation of the reserved words in seven positions, bare and quoted; every numeral of every script (and one in 100 of the other letters) as a digit of a \\u escape; names of every length on a ladder around the powers of two up to 131073, bare, quoted and escaped; then random long names; every case is a different block of that list or a different random name set",
    assumptions: &[],
    need: &[("characters quoted", 1112060), ("unicode escapes", 190464), ("surrogate escapes refused", 20000), ("unknown escapes refused", 4000), ("named escapes", 50), ("reserved words and their relatives", 5000), ("bad digits refused", 15000), ("names of every length", 300), ("random names", 10000)],
    exhaustive: false,
    workers: 8,
};

// ------------------------------------------------------------------ C04

/// Texts that are large in one way.
fn big(r: &mut Rng, scale: usize) -> String {
    let n = r.range(scale / 4, scale);
    match r.below(22) {
        0 => "{".repeat(n),
        1 => "}".repeat(n),
        2 => format!("erd {{ {}", "a {".repeat(n)),
        3 => format!("erd {{{}}}", "\n".repeat(n)),
        4 => format!("erd {{{}}}", ";".repeat(n)),
        5 => format!("erd {} {{}}", "a".repeat(n)),
        6 => format!("erd `{}` {{}}", "x".repeat(n)),
        7 => format!("erd `{}", "\\u0041".repeat(n / 4)),
        8 => format!("//{}", "c".repeat(n)),
        9 => "//\n".repeat(n),
        10 => format!("erd {{{}}}", "a.b o--o c.d;".repeat(n / 8)),
        11 => format!("erd {{ t {{ {} }} }}", "a int PK;".repeat(n / 8)),
        12 => format!("erd {{ t {{ {} }} }}", "a int PK ".repeat(n / 8)),
        13 => "@".repeat(n),
        14 => "erd ".repeat(n),
        15 => ".".repeat(n),
        16 => "o--o".repeat(n / 2),
        17 => "`".repeat(n),
        18 => " ".repeat(n),
        19 => "\\".repeat(n),
        20 => format!("erd {{ {} }}", "a @ {} ".repeat(n / 8)),
        _ => "🦀".repeat(n),
    }
}

/// The same text with what is quoted or commented in characters of several
/// bytes, so that places counted in bytes and in characters differ much.
fn widen(r: &mut Rng, src: &str) -> String {
    let wide = *r.pick(&['é', '日', '🦀', '\u{300}', '\u{feff}', 'ß']);
    let (some, bare) = (r.chance(1, 2), r.chance(1, 3));
    let (mut quoted, mut comment, mut esc, mut prev) = (false, false, 0, ' ');
    let mut out = String::new();
    for c in src.chars() {
        let mut put = c;
        if comment {
            if c == '\n' || c == '\r' {
                comment = false;
            } else {
                put = wide;
            }
        } else if quoted {
            if c == '`' && esc == 0 {
                quoted = false;
            } else if esc > 0 {
                esc = if c == 'u' && esc == 1 { 5 } else { esc - 1 };
                if esc == 1 {
                    esc = 0;
                }
            } else if c == '\\' {
                esc = 1;
            } else if !some || r.chance(1, 2) {
                put = wide;
            }
        } else if c == '`' {
            quoted = true;
        } else if c == '/' && prev == '/' {
            comment = true;
        } else if bare && c.is_ascii_digit() {
            put = wide;
        }
        prev = c;
        out.push(put);
    }
    out
}

/// Reads a text and judges what comes back; the number of diagnostics.
fn c04_text(cx: &mut Ctx, src: &str) -> Result<usize, String> {
    let (ast, lx, par) = parse(src)?;
    let n = src.chars().count();
    ensure!(ast.is_some() || !lx.is_empty() || !par.is_empty(), "neither a module nor a diagnostic\nsource: {}", brief(src));
    for s in lx.iter().map(|e| e.span()).chain(par.iter().map(|e| e.span())) {
        ensure!(s.start <= s.end && s.start <= n && s.end <= n + 1, "span {:?} is not in a text of {} characters: {:?} {:?}\nsource: {}", s, n, lx, par, brief(src));
        cx.add("diagnostics", 1);
    }
    if let Some(m) = &ast {
        // walking the whole module must be possible too
        let _ = RModule::from_api(m);
        cx.add("modules", 1);
    }
    Ok(lx.len() + par.len())
}

/// Every character and every escape, where a text can hold one.
fn c04_characters(cx: &mut Ctx) -> Res {
    let all = cx.tier == Tier::Thorough;
    for v in (cx.idx * BLOCK) as u32..((cx.idx + 1) * BLOCK) as u32 {
        let mut texts: Vec<String> = vec![];
        if v < 0x10000 {
            texts.push(format!("erd {{ `a\\u{:04x}b` {{}} }}", v));
            texts.push(format!("erd `\\u{:04X}", v));
        }
        if let Some(c) = char::from_u32(v) {
            if c.is_numeric() || v < 0x250 || ((all || v < 0x3000 || cx.rng.chance(1, 40)) && c.is_alphanumeric()) {
                for pos in 0..4 {
                    for base in ["0041", "D8FF"] {
                        let mut h: Vec<char> = base.chars().collect();
                        h[pos] = c;
                        let h: String = h.into_iter().collect();
                        texts.push(format!("erd {{ `\\u{}` {{}} }}", h));
                    }
                }
                texts.push(format!("erd {{ `\\u{}` {{}} }}", c.to_string().repeat(4)));
            }
            if all || v < 0x3000 || cx.rng.chance(1, 40) {
                texts.push(format!("erd {{ a{} {{ b int }} }}", c));
                texts.push(format!("erd `{}", c));
                texts.push(format!("erd {{ `\\{}` {{}} }}", c));
                texts.push(format!("{}", c));
            }
        }
        for src in texts {
            c04_text(cx, &src)?;
            cx.add("characters and escapes", 1);
        }
    }
    cx.nontrivial(&(cx.idx as u64).to_le_bytes());
    Ok(())
}

fn c04(cx: &mut Ctx) -> Res {
    if cx.idx < PLANES {
        return c04_characters(cx);
    }
    let src = if cx.idx % 40 == 7 {
        let scale = cx.tier.n(20000, 120000);
        big(&mut cx.rng, scale)
    } else if cx.idx % 300 == 150 {
        cx.add("texts with a very long stretch", 1);
        let lines = cx.idx % 600 == 150;
        stretched(&mut cx.rng, true, lines)
    } else {
        match cx.rng.below(8) {
            0 => {
                let m = any_module(&mut cx.rng);
                emit(&mut cx.rng, &m, 2)
            }
            _ => hostile(cx),
        }
    };
    let src = if cx.rng.chance(1, 4) { widen(&mut cx.rng, &src) } else { src };
    let n = src.chars().count();
    let errs = c04_text(cx, &src)?;
    if errs > 0 {
        cx.nontrivial(src.as_bytes());
    }
    cx.max("text chars", n as u64);
    cx.max("diagnostics for one text", errs as u64);
    if cx.idx % 6 == 0 && (n < 30_000 || n < 420_000 && errs < 8) {
        let o = crate::proc::cli_stdin(&src)?;
        ensure!(o.code == Some(0) || o.code == Some(1), "the program ended with {:?}\nstderr {}\nsource: {}", o.status, brief(&o.err_text()), brief(&src));
        ensure!(!o.err_text().contains("panicked at"), "the program panicked: {}\nsource: {}", brief(&o.err_text()), brief(&src));
        cx.add("texts through the program", 1);
        if errs > 0 && src.chars().any(|c| !c.is_ascii()) {
            cx.add("diagnostics of texts with wide characters, printed", errs as u64);
        }
    }
    cx.sample(|| brief(&src));
    Ok(())
}
pub const C04: Check = Check {
    id: "C04",
    level: "exploration",
    cases: |t: Tier| PLANES + t.n(24000, 800000),
    run: c04,
    rule: "enumerated: all 65536 \\u escapes in a quoted name, closed and cut off, every numeral and letter as a digit of an escape, and every character bare, in a word, quoted and after a backslash (quick: the first 12288 and one in 40 of the rest); then hostile texts (see C02), programs, and texts that are very long in one way (brackets, blanks, names, quotes, comments, fields, bad characters); one in four with its words and quoted names in characters of two to four bytes; one in six also goes through the built program; non-trivial if a diagnostic was returned; distinct by text",
    assumptions: &["a case counts as not terminating after 60 CPU seconds", "memory is limited to 6 GB of address space"],
    need: &[("characters and escapes", 131072), ("diagnostics", 5000), ("modules", 1000), ("texts through the program", 2500), ("diagnostics of texts with wide characters, printed", 400)],
    exhaustive: false,
    workers: 8,
};

// ------------------------------------------------------------------ C05

/// Where a text with a character that forms no token goes wrong: (the earliest
/// place, the latest, whether a token before that already does not fit). The
/// latest is the character that the token begun there cannot go on with.
fn lexical_stop(cs: &[char]) -> Option<(usize, usize, bool)> {
    let mut t = vec![];
    let Err((mut s, i)) = lex_into(cs, &mut t) else { return None };
    if let Some(w) = t.last() {
        // a word right before it might have become another token
        if w.e == s && matches!(w.t, T::Ident(_) | T::Kw(_)) && is_cont(cs[w.e - 1]) {
            s = w.s;
            t.pop();
        }
    }
    let stop = |r: Result<RModule, usize>| r.err().filter(|k| *k < t.len());
    let first = [true, false].iter().filter_map(|b| stop(parse_tokens(&t, *b))).min();
    Some((first.map_or(s, |k| t[k].s), i, first.is_some()))
}

fn c05(cx: &mut Ctx) -> Res {
    let src = if cx.idx % 800 == 400 { stretched(&mut cx.rng, true, false) } else { hostile(cx) };
    let cs: Vec<char> = src.chars().collect();
    let Verdict::Out = judge(&src) else { return Ok(()) };
    let (_, lx, par) = parse(&src)?;
    match lex(&cs) {
        Ok(t) => {
            let (Err(k), Err(j)) = (parse_tokens(&t, true), parse_tokens(&t, false)) else { return Ok(()) };
            if k != j {
                // depends on whether `;` is a blank
                return Ok(());
            }
            let want = if k < t.len() { t[k].s } else { cs.len() };
            let got = lx.iter().map(|e| e.span().start).chain(par.iter().map(|e| e.span().start)).min();
            ensure!(got == Some(want), "the first diagnostic starts at {:?}, but the text goes wrong at character {}: {:?} {:?}\nsource: {}", got, want, lx, par, brief(&src));
            cx.add(if k < t.len() { "wrong tokens located" } else { "early ends located" }, 1);
            cx.nontrivial(src.as_bytes());
        }
        Err(_) => {
            let Some((s, e, early)) = lexical_stop(&cs) else { return Ok(()) };
            let got: Vec<usize> = lx.iter().map(|e| e.span().start).chain(par.iter().map(|e| e.span().start)).collect();
            ensure!(got.iter().any(|g| s <= *g && *g <= e), "no diagnostic in {}..={}: {:?} {:?}\nsource: {}", s, e, lx, par, brief(&src));
            cx.add(if early { "mistakes before characters that form no token" } else { "characters that form no token located" }, 1);
            cx.nontrivial(src.as_bytes());
        }
    }
    cx.sample(|| brief(&src));
    Ok(())
}
pub const C05: Check = Check {
    id: "C05",
    level: "exploration",
    cases: |t: Tier| t.n(80000, 1500000),
    run: c05,
    rule: "hostile texts (see C02) outside the language; the place where each goes wrong is computed by an independent viable-prefix recogniser; non-trivial if the place was compared; distinct by text",
    assumptions: &["texts in which the place depends on `;` being a blank are not judged"],
    need: &[("wrong tokens located", 4000), ("early ends located", 500), ("characters that form no token located", 1000)],
    exhaustive: false,
    workers: 8,
};

// ------------------------------------------------------------------ C06

fn c06(cx: &mut Ctx) -> Res {
    let mut s = ANY;
    s.names = 0;
    match cx.rng.below(6) {
        0 => s.defs = (0, 1),
        1 => s.fields = (0, 0),
        2 => s.defs = (5, 30),
        _ => {}
    }
    let m = if cx.rng.chance(1, 300) { big_module(&mut cx.rng, true) } else { module(&mut cx.rng, &s) };
    let built = m.to_api();
    let text = built.to_string();
    let back = parse_ok(&text)?;
    let got = RModule::from_api(&back);
    ensure!(got == m, "printed module reads back differently\nexpected {:?}\ngot      {:?}\nprinted: {}", m, got, brief(&text));
    ensure!(back.to_string() == text, "printing again gives another text\n{}\n{}", brief(&text), brief(&back.to_string()));
    // the printed form of a parsed spelling is the same
    let src = emit(&mut cx.rng, &m, 2);
    let p = parse_ok(&src)?;
    ensure!(p.to_string() == text, "parsed and built modules print differently\n{}\n{}", brief(&text), brief(&p.to_string()));
    for k in [Key::Pk, Key::Fk] {
        ensure!(k.api().to_keyword() == k.word(), "the keyword of {:?} is {:?}", k, k.api().to_keyword());
    }
    // and so is that of the parts
    for (e, q) in built.entries().zip(p.entries()) {
        ensure!(e.to_string() == q.to_string(), "entries print differently");
        ensure!(text.contains(&e.to_string()), "an entry is not printed in the module\n{}\n{}", e, brief(&text));
    }
    cx.add("round trips", 1);
    cx.add("relations", m.rels().len() as u64);
    if !m.entries.is_empty() {
        cx.nontrivial(text.as_bytes());
    }
    cx.sample(|| text.clone());
    Ok(())
}
pub const C06: Check = Check {
    id: "C06",
    level: "exploration",
    cases: |t: Tier| t.n(48000, 500000),
    run: c06,
    rule: "random modules with bare names, built through the API and also parsed from a wild spelling; printed, parsed, compared, printed again; non-trivial if the module has entries; distinct by printed text",
    assumptions: &["names that need quoting are outside the property"],
    need: &[("round trips", 2000), ("relations", 1000)],
    exhaustive: false,
    workers: 8,
};
