//! Workload generators: names, modules, source text, hostile text.
use crate::refl::*;
use crate::rng::Rng;

pub const NASTY: &[&str] = &[
    "", " ", "  ", "a b", " a", "a ", "a.b", "a.b.c", ".", "..", "int", "erd", "uuid", "text",
    "timestamp", "PK", "FK", "Int", "ERD", "pk", "o--o", "o", "O", "//", "// c", "{", "}", "{}", ";",
    "<", ">", "&", "<x>", "</text>", "<x>&", "&amp;", "&lt;", "&#65;", "&#0;", "]]>", "<![CDATA[", "<!--",
    "-->", "\"", "'", "\"'", "`", "``", "\\", "\\\\", "\\n", "\\u0041", "\n", "\r", "\r\n", "\t", "\u{8}",
    "\u{c}", "\u{0}", "\u{1}", "\u{b}", "\u{1b}[31m", "\u{7f}", "\u{85}", "\u{a0}", "\u{200b}", "\u{200d}",
    "\u{202e}", "\u{2028}", "\u{2029}", "\u{feff}", "\u{fffd}", "\u{fffe}", "\u{ffff}", "é", "e\u{301}",
    "ß", "İ", "日本語", "テーブル", "🦀", "👨‍👩‍👧", "\u{10ffff}", "0", "1a", "-", "a-b", "%", "%s", "{0}",
    "$", "$HOME", "url(#record-clip-path-0)", "javascript:alert(1)", "null", "NaN", "users", "id", "Users", "ID",
];
pub const PLAIN: &[&str] = &[
    "users", "posts", "id", "a", "b", "c", "A", "B", "_", "__", "_1", "a1", "x_y", "Users", "ID", "Id", "integer",
    "erdx", "Erd", "ERD", "inta", "int_", "int1", "texts", "timestamps", "PKs", "pk", "fk", "FK_", "uuid4", "o",
    "oo", "o_", "u", "u0041", "n", "created_by", "about_html", "name",
];

pub fn is_plain(s: &str) -> bool {
    let mut cs = s.chars();
    matches!(cs.next(), Some(c) if is_start(c)) && cs.all(is_cont) && !KEYWORDS.contains(&s)
}

pub fn rand_char(r: &mut Rng) -> char {
    loop {
        let v = match r.below(10) {
            0..=3 => r.range(0x20, 0x7e) as u32,
            4 => r.range(0, 0x1f) as u32,
            5 => r.range(0x80, 0x7ff) as u32,
            6 => r.range(0x800, 0xffff) as u32,
            7 => r.range(0x10000, 0x10ffff) as u32,
            8 => *r.pick(&[0x60, 0x5c, 0x22, 0x2f, 0x3c, 0x3e, 0x26, 0x27, 0x2e, 0x3b, 0x0a, 0x0d]),
            _ => r.range(0x61, 0x7a) as u32,
        };
        if let Some(c) = char::from_u32(v) {
            return c;
        }
    }
}
pub fn plain_name(r: &mut Rng) -> String {
    if r.chance(1, 2) {
        return r.pick(PLAIN).to_string();
    }
    loop {
        let n = match r.below(20) {
            0 => r.range(20, 80),
            1 => r.range(200, 400),
            2 if r.chance(1, 100) => r.range(1000, 9000),
            _ => r.range(1, 9),
        };
        let first = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_";
        let rest = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789";
        let mut s = String::new();
        s.push(*r.pick(first) as char);
        for _ in 1..n {
            s.push(*r.pick(rest) as char);
        }
        if is_plain(&s) {
            return s;
        }
    }
}
pub fn any_name(r: &mut Rng) -> String {
    match r.below(10) {
        0..=2 => plain_name(r),
        3..=6 => r.pick(NASTY).to_string(),
        7 => format!("{}{}", r.pick(NASTY), r.pick(NASTY)),
        8 => {
            let n = r.range(0, 12);
            (0..n).map(|_| rand_char(r)).collect()
        }
        _ => {
            if r.chance(1, 200) {
                let n = r.range(3000, 12000);
                (0..n).map(|_| rand_char(r)).collect()
            } else if r.chance(1, 12) {
                let n = r.range(300, 3000);
                (0..n).map(|_| rand_char(r)).collect()
            } else {
                let n = r.range(1, 4);
                (0..n).map(|_| *r.pick(&['a', 'b', '.', ' ', '`', '\\', '<', '&', '\n', 'é'])).collect()
            }
        }
    }
}

#[derive(Clone, Copy)]
pub struct Shape {
    pub defs: (usize, usize),
    pub fields: (usize, usize),
    pub rels: (usize, usize),
    /// names: 0 plain only, 1 anything
    pub names: u8,
    /// entity and field names are unique
    pub unique: bool,
    /// relations may name things that do not exist
    pub dangling: bool,
    /// relations come after the definitions they use
    pub ordered: bool,
}

/// The sizes at which something may start to go wrong: beside powers of two.
pub fn ladder() -> Vec<usize> {
    let mut v: Vec<usize> = (0..=8).flat_map(|k| [(1usize << k) - 1, 1 << k, (1 << k) + 1]).collect();
    v.extend([300, 511, 512, 513, 1000, 1001, 1023, 1024, 1025, 2048, 2049, 4096, 4097, 5000]);
    v.sort();
    v.dedup();
    v
}
/// A module that is large in one way.
pub fn big_module(r: &mut Rng, bare: bool) -> RModule {
    let s = |d, f, l| Shape { defs: (d, d), fields: f, rels: (l, l), names: 0, unique: false, dangling: true, ordered: false };
    match r.below(5) {
        0 => {
            let n = r.range(400, 4500);
            module(r, &s(1, (n, n), 2))
        }
        1 => {
            let n = r.range(300, 1500);
            module(r, &s(n, (0, 3), 3))
        }
        2 => {
            let n = r.range(300, 3000);
            module(r, &s(2, (1, 4), n))
        }
        3 => {
            let n = r.range(300, 800);
            module(r, &s(n, (0, 2), n))
        }
        _ => {
            let n = r.range(4000, 70000);
            let mut m = module(r, &s(2, (2, 3), 2));
            let name: String = if bare || r.chance(1, 2) { "n".repeat(n) } else { (0..n).map(|_| rand_char(r)).collect() };
            match (r.below(4), &mut m.entries[0]) {
                (0, REntry::Def(d, _)) => *d = name,
                (1, REntry::Def(_, f)) => f[0].name = name,
                (2, REntry::Rel(p, _)) => p.0 = name,
                (3, REntry::Rel(_, p)) => p.1 = Some(name),
                _ => m.name = Some(name),
            }
            m
        }
    }
}

pub fn module(r: &mut Rng, s: &Shape) -> RModule {
    let nd = r.range(s.defs.0, s.defs.1);
    let mut defs: Vec<(String, Vec<RField>)> = vec![];
    let name = |r: &mut Rng| if s.names == 0 { plain_name(r) } else { any_name(r) };
    // occasionally give all tables a similar size so that rows line up
    let uniform = r.chance(1, 4).then(|| r.range(s.fields.0, s.fields.1));
    // every key/type mix, but sometimes a single one throughout
    let fixed_ty = r.chance(1, 10).then(|| *r.pick(&TYS));
    let mut serial = 0;
    for _ in 0..nd {
        let mut n = name(r);
        if s.unique {
            while defs.iter().any(|d| d.0 == n) {
                serial += 1;
                n = format!("{}_{}", name(r), serial);
                if s.names == 0 && !is_plain(&n) {
                    n = format!("t{}", serial);
                }
            }
        }
        let nf = match uniform {
            Some(u) if r.chance(9, 10) => u,
            _ => r.range(s.fields.0, s.fields.1),
        };
        let mut fs: Vec<RField> = vec![];
        for _ in 0..nf {
            let mut fname = name(r);
            if s.unique {
                while fs.iter().any(|f| f.name == fname) {
                    serial += 1;
                    fname = format!("f{}", serial);
                }
            }
            fs.push(RField {
                name: fname,
                ty: fixed_ty.unwrap_or(*r.pick(&TYS)),
                key: *r.pick(&[None, None, Some(Key::Pk), Some(Key::Fk)]),
            });
        }
        defs.push((n, fs));
    }
    let nr = r.range(s.rels.0, s.rels.1);
    let mut rels = vec![];
    for _ in 0..nr {
        let end = |r: &mut Rng| -> RPath {
            if defs.is_empty() || (s.dangling && r.chance(1, 8)) {
                return (any_or(r, s.names), r.chance(1, 2).then(|| any_or(r, s.names)));
            }
            let d = r.pick(&defs);
            if d.1.is_empty() || r.chance(1, 4) {
                return (d.0.clone(), None);
            }
            if s.dangling && r.chance(1, 12) {
                // a field of some other table
                let o = r.pick(&defs);
                if !o.1.is_empty() {
                    return (d.0.clone(), Some(r.pick(&o.1).name.clone()));
                }
            }
            (d.0.clone(), Some(r.pick(&d.1).name.clone()))
        };
        let a = end(r);
        let b = match r.below(12) {
            0 => a.clone(),
            1 => (a.0.clone(), None),
            _ => end(r),
        };
        rels.push(REntry::Rel(a, b));
        if r.chance(1, 12) {
            let REntry::Rel(x, y) = rels.last().unwrap().clone() else { unreachable!() };
            rels.push(if r.chance(1, 2) { REntry::Rel(x, y) } else { REntry::Rel(y, x) });
        }
    }
    let mut entries: Vec<REntry> = defs.into_iter().map(|(n, f)| REntry::Def(n, f)).collect();
    if s.dangling && !entries.is_empty() && r.chance(1, 4) {
        // a relation may mention something defined twice
        let d = r.pick(&entries).clone();
        if !s.unique {
            entries.push(d);
        }
    }
    if s.ordered {
        entries.extend(rels);
    } else {
        for e in rels {
            let at = if r.chance(2, 3) { entries.len() } else { r.below(entries.len() + 1) };
            entries.insert(at, e);
        }
    }
    RModule {
        name: r.chance(1, 2).then(|| any_or(r, s.names)),
        entries,
    }
}
fn any_or(r: &mut Rng, names: u8) -> String {
    if names == 0 {
        plain_name(r)
    } else {
        any_name(r)
    }
}

// ------------------------------------------------------------ source text

#[derive(Clone, Copy, PartialEq)]
enum W {
    Word,
    Quote,
    Punct,
    Edge,
}

pub struct Emit<'a> {
    r: &'a mut Rng,
    out: String,
    last: W,
    /// 0 minimal, 1 tidy, 2 wild
    pub style: u8,
}

impl<'a> Emit<'a> {
    fn inline(&mut self) {
        let n = match self.style {
            0 => 0,
            1 => 1,
            _ => *self.r.pick(&[0, 0, 1, 1, 2, 5]),
        };
        let n = if self.style == 2 && self.r.chance(1, 20000) { self.r.range(200, 5000) } else { n };
        for _ in 0..n {
            let c = if self.style == 2 && self.r.chance(1, 3) { '\t' } else { ' ' };
            self.out.push(c);
        }
    }
    fn comment(&mut self) {
        self.out.push_str("//");
        if self.r.chance(1, 1500) {
            let n = self.r.range(30, 1500);
            for _ in 0..n {
                self.out.push_str(*self.r.pick(&[" word", " // ", "`", " 日本", "}"]));
            }
        }
        match self.r.below(6) {
            0 => {}
            1 => self.out.push_str(" `unclosed } { ; o--o \\ \" erd"),
            2 => self.out.push_str("// / comment // twice \t "),
            3 => {
                let n = self.r.range(0, 20);
                for _ in 0..n {
                    let c = rand_char(self.r);
                    if c != '\n' {
                        self.out.push(c);
                    }
                }
            }
            4 => self.out.push_str(" 日本語 🦀 \r"),
            _ => self.out.push_str(" id int PK"),
        }
    }
    fn newline(&mut self) {
        if self.style == 2 && self.r.chance(1, 4) {
            self.comment();
            if self.out.ends_with('\r') {
                self.out.push('x');
            }
        }
        if self.style == 2 && self.r.chance(1, 5) {
            self.out.push_str("\r\n");
        } else {
            self.out.push('\n');
        }
        self.inline();
    }
    /// PAD: any mix of blanks and newlines. `need`: at least one blank.
    fn pad(&mut self, need: bool) {
        let at = self.out.len();
        self.inline();
        let n = match self.style {
            0 | 1 => 0,
            _ => *self.r.pick(&[0, 0, 0, 1, 2, 3]),
        };
        let n = if self.style == 2 && self.r.chance(1, 20000) { self.r.range(200, 5000) } else { n };
        for _ in 0..n {
            self.newline();
        }
        if need && self.out.len() == at {
            self.out.push(' ');
        }
    }
    fn sep(&mut self) {
        self.inline();
        if self.style == 0 || self.r.chance(1, 3) {
            self.out.push(';');
        } else {
            self.newline();
        }
        self.pad(false);
    }
    fn must_gap(&self, next: W) -> bool {
        matches!(
            (self.last, next),
            (W::Word, W::Word) | (W::Word, W::Edge) | (W::Edge, W::Word)
        )
    }
    /// Blanks only (no newline) before the next token.
    fn gap(&mut self, next: W) {
        let at = self.out.len();
        self.inline();
        if self.must_gap(next) && self.out.len() == at {
            self.out.push(if self.style == 2 && self.r.chance(1, 3) { '\t' } else { ' ' });
        }
    }
    fn gap_pad(&mut self, next: W) {
        let need = self.must_gap(next);
        self.pad(need);
    }
    fn word(&mut self, w: &str) {
        self.out.push_str(w);
        self.last = W::Word;
    }
    fn punct(&mut self, c: char) {
        self.out.push(c);
        self.last = W::Punct;
    }
    fn ident_kind(&mut self, s: &str) -> W {
        if is_plain(s) && (self.style == 0 || !self.r.chance(1, 6)) {
            W::Word
        } else {
            W::Quote
        }
    }
    fn ident(&mut self, s: &str, k: W) {
        if k == W::Word {
            self.out.push_str(s);
        } else {
            let q = quote(self.r, s);
            self.out.push_str(&q);
        }
        self.last = k;
    }
    fn path(&mut self, p: &RPath, k: W) {
        self.ident(&p.0, k);
        if let Some(f) = &p.1 {
            self.gap(W::Punct);
            self.punct('.');
            let k = self.ident_kind(f);
            self.gap(k);
            self.ident(f, k);
        }
    }
    fn module(&mut self, m: &RModule) {
        self.pad(false);
        if self.style == 2 && self.r.chance(1, 4) {
            self.newline();
        }
        self.word("erd");
        if let Some(n) = &m.name {
            let k = self.ident_kind(n);
            self.gap_pad(k);
            self.ident(n, k);
        }
        self.pad(false);
        self.punct('{');
        self.pad(false);
        for (i, e) in m.entries.iter().enumerate() {
            if i > 0 {
                self.sep();
                self.last = W::Punct;
            }
            match e {
                REntry::Def(n, fs) => {
                    let k = self.ident_kind(n);
                    self.ident(n, k);
                    self.pad(false);
                    self.punct('{');
                    self.pad(false);
                    for (j, f) in fs.iter().enumerate() {
                        if j > 0 {
                            self.sep();
                            self.last = W::Punct;
                        }
                        let k = self.ident_kind(&f.name);
                        self.ident(&f.name, k);
                        self.gap(W::Word);
                        self.word(f.ty.word());
                        if let Some(k) = f.key {
                            self.gap(W::Word);
                            self.word(k.word());
                        }
                    }
                    self.pad(false);
                    self.punct('}');
                }
                REntry::Rel(a, b) => {
                    let k = self.ident_kind(&a.0);
                    self.path(a, k);
                    self.gap_pad(W::Edge);
                    self.out.push_str("o--o");
                    self.last = W::Edge;
                    let k = self.ident_kind(&b.0);
                    self.gap_pad(k);
                    self.path(b, k);
                }
            }
        }
        self.pad(false);
        self.punct('}');
        self.pad(false);
        if self.style == 2 && self.r.chance(1, 4) {
            self.comment();
        }
    }
}

pub fn quote(r: &mut Rng, s: &str) -> String {
    let mut o = String::from("`");
    let eager = r.chance(1, 4);
    for c in s.chars() {
        let must = c == '`' || c == '\\';
        if must || r.chance(if eager { 1 } else { 0 }, 2) || r.chance(1, 15) {
            let named = match c {
                '\\' => Some("\\\\"),
                '`' => Some("\\`"),
                '/' => Some("\\/"),
                '"' => Some("\\\""),
                '\u{8}' => Some("\\b"),
                '\u{c}' => Some("\\f"),
                '\n' => Some("\\n"),
                '\r' => Some("\\r"),
                '\t' => Some("\\t"),
                _ => None,
            };
            let v = c as u32;
            match named {
                Some(n) if v > 0xffff || r.chance(2, 3) => o.push_str(n),
                _ if v <= 0xffff => {
                    let h = if r.chance(1, 2) { format!("{:04x}", v) } else { format!("{:04X}", v) };
                    o.push_str("\\u");
                    // mixed case digits too
                    for d in h.chars() {
                        o.push(if r.chance(1, 8) { flip(d) } else { d });
                    }
                }
                _ => o.push(c),
            }
        } else {
            o.push(c);
        }
    }
    o.push('`');
    o
}
fn flip(c: char) -> char {
    if c.is_ascii_lowercase() {
        c.to_ascii_uppercase()
    } else {
        c.to_ascii_lowercase()
    }
}

/// Spell a module out as source text. style 0: minimal blanks, 1: tidy, 2: wild.
pub fn emit(r: &mut Rng, m: &RModule, style: u8) -> String {
    let mut e = Emit { r, out: String::new(), last: W::Punct, style };
    e.module(m);
    e.out
}

// ------------------------------------------------------------ hostile text

const FRAGS: &[&str] = &[
    "erd", "erd ", " ", "\n", "\r\n", "\t", ";", "{", "}", ".", "o--o", "`a`", "a", "b", "id int", "id int PK",
    "users", "int", "uuid", "text", "timestamp", "PK", "FK", "//", "// c\n", "`", "\\", "`\\u0041`", "`\\ud800`",
    "`\\u00", "`\\x`", "`\\`", "\"", "'", "o--", "--o", "o-o", "-", "/", "@", "é", "日本", "🦀", "\u{0}", "\r",
    "\u{a0}", "\u{feff}", "a { id int }", "a.id o--o a.id", "a {}", "a o--o b", "1", "1a", "``", "a.b.c", "..",
    "erd {", "erd g {", "} }", "{ {", ";;", "id int PK FK", "id PK", "id int int", "erd { a { id int PK } }",
];

/// Text made of fragments of the language, in no particular order.
pub fn soup(r: &mut Rng) -> String {
    let n = match r.below(8) {
        0 => r.range(0, 3),
        7 => r.range(20, 200),
        _ => r.range(1, 25),
    };
    let mut s = String::new();
    if r.chance(1, 2) {
        s.push_str("erd {");
    }
    for _ in 0..n {
        s.push_str(*r.pick(FRAGS));
        if r.chance(1, 3) {
            s.push(' ');
        }
        if r.chance(1, 40) {
            s.push(rand_char(r));
        }
    }
    s
}

/// Random scalar values, mostly noise.
pub fn noise(r: &mut Rng) -> String {
    let n = match r.below(6) {
        0 => r.range(0, 4),
        5 => r.range(100, 2000),
        _ => r.range(1, 60),
    };
    (0..n).map(|_| rand_char(r)).collect()
}

/// A small edit of some text: what a typing mistake does.
pub fn mutate(r: &mut Rng, src: &str) -> String {
    let mut c: Vec<char> = src.chars().collect();
    let most = if r.chance(1, 4) { 6 } else { 1 };
    for _ in 0..r.range(1, most) {
        let n = c.len();
        match r.below(9) {
            0 if n > 0 => {
                c.remove(r.below(n));
            }
            1 => c.insert(r.below(n + 1), rand_char(r)),
            2 => {
                let f: Vec<char> = r.pick(FRAGS).chars().collect();
                let at = r.below(n + 1);
                c.splice(at..at, f);
            }
            3 if n > 0 => {
                let a = r.below(n);
                let b = (a + r.range(1, 12)).min(n);
                c.drain(a..b);
            }
            4 if n > 0 => c.truncate(r.below(n)),
            5 if n > 1 => {
                let a = r.below(n);
                let b = r.below(n);
                c.swap(a, b);
            }
            6 if n > 0 => {
                let a = r.below(n);
                let b = (a + r.range(1, 20)).min(n);
                let part: Vec<char> = c[a..b].to_vec();
                let at = r.below(n + 1);
                c.splice(at..at, part);
            }
            7 if n > 0 => {
                let at = r.below(n);
                c[at] = rand_char(r);
            }
            8 => {
                // something after the end
                let f = r.pick(FRAGS);
                c.extend(f.chars());
            }
            _ => {}
        }
    }
    c.into_iter().collect()
}
