//! Reference model of the language, written from the grammar in the
//! documentation and independent of the code under test: a lexer, a
//! recursive-descent recogniser and the module value they denote.
use seiren::erd;

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Ty {
    Int,
    Uuid,
    Text,
    Timestamp,
}
pub const TYS: [Ty; 4] = [Ty::Int, Ty::Uuid, Ty::Text, Ty::Timestamp];
impl Ty {
    pub fn word(self) -> &'static str {
        match self {
            Ty::Int => "int",
            Ty::Uuid => "uuid",
            Ty::Text => "text",
            Ty::Timestamp => "timestamp",
        }
    }
    pub fn api(self) -> erd::EntityFieldType {
        match self {
            Ty::Int => erd::EntityFieldType::Int,
            Ty::Uuid => erd::EntityFieldType::Uuid,
            Ty::Text => erd::EntityFieldType::Text,
            Ty::Timestamp => erd::EntityFieldType::Timestamp,
        }
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Key {
    Pk,
    Fk,
}
impl Key {
    pub fn word(self) -> &'static str {
        match self {
            Key::Pk => "PK",
            Key::Fk => "FK",
        }
    }
    pub fn api(self) -> erd::EntityFieldKey {
        match self {
            Key::Pk => erd::EntityFieldKey::PrimaryKey,
            Key::Fk => erd::EntityFieldKey::ForeginKey,
        }
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct RField {
    pub name: String,
    pub ty: Ty,
    pub key: Option<Key>,
}
pub type RPath = (String, Option<String>);
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum REntry {
    Def(String, Vec<RField>),
    Rel(RPath, RPath),
}
#[derive(Debug, Clone, PartialEq, Eq, Hash, Default)]
pub struct RModule {
    pub name: Option<String>,
    pub entries: Vec<REntry>,
}

impl RModule {
    pub fn defs(&self) -> Vec<(&String, &Vec<RField>)> {
        self.entries
            .iter()
            .filter_map(|e| match e {
                REntry::Def(n, f) => Some((n, f)),
                _ => None,
            })
            .collect()
    }
    pub fn rels(&self) -> Vec<(&RPath, &RPath)> {
        self.entries
            .iter()
            .filter_map(|e| match e {
                REntry::Rel(a, b) => Some((a, b)),
                _ => None,
            })
            .collect()
    }
    /// Does the path name something the module defines?
    pub fn resolves(&self, p: &RPath) -> bool {
        self.defs().iter().any(|(n, fs)| {
            **n == p.0
                && match &p.1 {
                    None => true,
                    Some(f) => fs.iter().any(|x| x.name == *f),
                }
        })
    }

    /// Build the same module through the library's constructors.
    pub fn to_api(&self) -> erd::Module {
        let mut m = erd::Module::new(self.name.clone());
        for (i, e) in self.entries.iter().enumerate() {
            match e {
                REntry::Def(n, fs) => {
                    let mut d = erd::EntityDefinition::new(n.clone());
                    for f in fs {
                        d.add_field(erd::EntityField::new(
                            f.name.clone(),
                            f.ty.api(),
                            f.key.map(|k| k.api()),
                        ));
                    }
                    if i % 2 == 0 {
                        m.add_entity_definition(d)
                    } else {
                        m.add_entry(erd::ModuleEntry::EntityDefinition(d))
                    }
                }
                REntry::Rel(a, b) => {
                    let p = |x: &RPath| match &x.1 {
                        None => erd::EntityPath::Entity(x.0.clone()),
                        Some(f) => erd::EntityPath::Field(x.0.clone(), f.clone()),
                    };
                    let r = erd::EntityRelation::new(p(a), p(b));
                    if i % 2 == 0 {
                        m.add_entity_relation(r)
                    } else {
                        m.add_entry(erd::ModuleEntry::EntityRelation(r))
                    }
                }
            }
        }
        m
    }

    /// Read a module back through the library's accessors.
    pub fn from_api(m: &erd::Module) -> RModule {
        let p = |x: &erd::EntityPath| match x {
            erd::EntityPath::Entity(e) => (e.clone(), None),
            erd::EntityPath::Field(e, f) => (e.clone(), Some(f.clone())),
        };
        RModule {
            name: m.name().map(|s| s.to_string()),
            entries: m
                .entries()
                .map(|e| match e {
                    erd::ModuleEntry::EntityDefinition(d) => REntry::Def(
                        d.name().to_string(),
                        d.fields()
                            .map(|f| RField {
                                name: f.name().to_string(),
                                ty: match f.field_type() {
                                    erd::EntityFieldType::Int => Ty::Int,
                                    erd::EntityFieldType::Uuid => Ty::Uuid,
                                    erd::EntityFieldType::Text => Ty::Text,
                                    erd::EntityFieldType::Timestamp => Ty::Timestamp,
                                },
                                key: f.field_key().map(|k| match k {
                                    erd::EntityFieldKey::PrimaryKey => Key::Pk,
                                    erd::EntityFieldKey::ForeginKey => Key::Fk,
                                }),
                            })
                            .collect(),
                    ),
                    erd::ModuleEntry::EntityRelation(r) => {
                        REntry::Rel(p(r.start_path()), p(r.end_path()))
                    }
                })
                .collect(),
        }
    }
}

// ---------------------------------------------------------------- lexer

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum T {
    Edge,
    Ident(String),
    Kw(&'static str),
    Ctrl(char),
    Nl,
}
#[derive(Debug, Clone)]
pub struct Tok {
    pub t: T,
    /// Span in characters.
    pub s: usize,
    pub e: usize,
}
pub const KEYWORDS: [&str; 7] = ["erd", "int", "uuid", "text", "timestamp", "PK", "FK"];

pub fn is_start(c: char) -> bool {
    c == '_' || c.is_ascii_alphabetic()
}
pub fn is_cont(c: char) -> bool {
    c == '_' || c.is_ascii_alphanumeric()
}

/// Only space, tab, LF and CRLF separate tokens.
/// Err(i): no text goes on from the first i characters with the next one.
pub fn lex(src: &[char]) -> Result<Vec<Tok>, usize> {
    let mut out = vec![];
    lex_into(src, &mut out).map(|_| out).map_err(|(_, i)| i)
}

/// Err((s, i)): the tokens in `out` end at s or before, and i as above.
pub fn lex_into(src: &[char], out: &mut Vec<Tok>) -> Result<(), (usize, usize)> {
    let mut i = 0;
    let n = src.len();
    while i < n {
        let c = src[i];
        let from = i;
        if c == ' ' || c == '\t' {
            i += 1;
        } else if c == '\n' {
            out.push(Tok { t: T::Nl, s: i, e: i + 1 });
            i += 1;
        } else if c == '\r' && i + 1 < n && src[i + 1] == '\n' {
            out.push(Tok { t: T::Nl, s: i, e: i + 2 });
            i += 2;
        } else if c == '/' && i + 1 < n && src[i + 1] == '/' {
            while i < n && src[i] != '\n' {
                i += 1;
            }
        } else if c == 'o' && src[i..].starts_with(&['o', '-', '-', 'o']) {
            out.push(Tok { t: T::Edge, s: i, e: i + 4 });
            i += 4;
        } else if is_start(c) {
            let s = i;
            while i < n && is_cont(src[i]) {
                i += 1;
            }
            let w: String = src[s..i].iter().collect();
            let t = match KEYWORDS.iter().find(|k| **k == w) {
                Some(k) => T::Kw(k),
                None => T::Ident(w),
            };
            out.push(Tok { t, s, e: i });
        } else if c == '`' {
            let s = i;
            i += 1;
            let mut w = String::new();
            loop {
                if i >= n {
                    return Err((from, n));
                }
                match src[i] {
                    '`' => {
                        i += 1;
                        break;
                    }
                    '\\' => {
                        i += 1;
                        if i >= n {
                            return Err((from, n));
                        }
                        let e = src[i];
                        i += 1;
                        match e {
                            '\\' | '/' | '"' | '`' => w.push(e),
                            'b' => w.push('\u{8}'),
                            'f' => w.push('\u{c}'),
                            'n' => w.push('\n'),
                            'r' => w.push('\r'),
                            't' => w.push('\t'),
                            'u' => {
                                let mut v = 0;
                                let at = i;
                                for _ in 0..4 {
                                    if i >= n {
                                        return Err((from, n));
                                    }
                                    match src[i].to_digit(16) {
                                        Some(d) => v = v * 16 + d,
                                        None => return Err((from, i)),
                                    }
                                    i += 1;
                                }
                                match char::from_u32(v) {
                                    Some(c) => w.push(c),
                                    None => return Err((from, at)),
                                }
                            }
                            _ => return Err((from, i - 1)),
                        }
                    }
                    c => {
                        w.push(c);
                        i += 1;
                    }
                }
            }
            out.push(Tok { t: T::Ident(w), s, e: i });
        } else if "{};.".contains(c) {
            out.push(Tok { t: T::Ctrl(c), s: i, e: i + 1 });
            i += 1;
        } else {
            // A token that was begun here goes wrong one or more later.
            let begun = c == '\r' || c == '/';
            let edge = c == '-' && matches!(out.last(), Some(t) if t.e == i && t.s + 1 == i && t.t == T::Ident("o".into()));
            return Err((from, match () {
                _ if begun => i + 1,
                _ if edge && src.get(i + 1) == Some(&'-') => i + 2,
                _ if edge => i + 1,
                _ => i,
            }));
        }
    }
    Ok(())
}

// --------------------------------------------------------------- parser

struct P<'a> {
    t: &'a [Tok],
    i: usize,
    /// furthest token index at which something else was expected
    far: usize,
    /// `;` counts as blank wherever a newline does
    loose: bool,
}
type R<A> = Result<A, ()>;
impl P<'_> {
    fn peek(&mut self) -> Option<&T> {
        self.far = self.far.max(self.i);
        self.t.get(self.i).map(|t| &t.t)
    }
    fn pad(&mut self) {
        loop {
            let loose = self.loose;
            match self.peek() {
                Some(T::Nl) => self.i += 1,
                Some(T::Ctrl(';')) if loose => self.i += 1,
                _ => break,
            }
        }
    }
    fn ctrl(&mut self, c: char) -> R<()> {
        if self.peek() == Some(&T::Ctrl(c)) {
            self.i += 1;
            Ok(())
        } else {
            Err(())
        }
    }
    fn ident(&mut self) -> R<String> {
        match self.peek() {
            Some(T::Ident(s)) => {
                let s = s.clone();
                self.i += 1;
                Ok(s)
            }
            _ => Err(()),
        }
    }
    /// Separator: newline or `;`, then padding. Restores the position if absent.
    fn sep(&mut self) -> bool {
        match self.peek() {
            Some(T::Nl) | Some(T::Ctrl(';')) => {
                self.i += 1;
                self.pad();
                true
            }
            _ => false,
        }
    }
    fn field(&mut self) -> R<RField> {
        let name = self.ident()?;
        let ty = match self.peek() {
            Some(T::Kw("int")) => Ty::Int,
            Some(T::Kw("uuid")) => Ty::Uuid,
            Some(T::Kw("text")) => Ty::Text,
            Some(T::Kw("timestamp")) => Ty::Timestamp,
            _ => return Err(()),
        };
        self.i += 1;
        let key = match self.peek() {
            Some(T::Kw("PK")) => Some(Key::Pk),
            Some(T::Kw("FK")) => Some(Key::Fk),
            _ => None,
        };
        if key.is_some() {
            self.i += 1;
        }
        Ok(RField { name, ty, key })
    }
    fn path_tail(&mut self, e: String) -> R<RPath> {
        if self.ctrl('.').is_ok() {
            Ok((e, Some(self.ident()?)))
        } else {
            Ok((e, None))
        }
    }
    fn entry(&mut self) -> R<REntry> {
        let n = self.ident()?;
        let at = self.i;
        self.pad();
        if self.peek() == Some(&T::Ctrl('{')) {
            self.i += 1;
            let mut fs = vec![];
            self.pad();
            if let Some(T::Ident(_)) = self.peek() {
                fs.push(self.field()?);
                loop {
                    let save = self.i;
                    if !self.sep() {
                        break;
                    }
                    if let Some(T::Ident(_)) = self.peek() {
                        fs.push(self.field()?);
                    } else {
                        self.i = save;
                        break;
                    }
                }
            }
            // Trailing padding. In the strict reading a `;` may separate
            // fields but not follow the last one.
            self.pad();
            self.ctrl('}')?;
            return Ok(REntry::Def(n, fs));
        }
        self.i = at;
        let a = self.path_tail(n)?;
        self.pad();
        if self.peek() != Some(&T::Edge) {
            return Err(());
        }
        self.i += 1;
        self.pad();
        let e = self.ident()?;
        let b = self.path_tail(e)?;
        Ok(REntry::Rel(a, b))
    }
    fn module(&mut self) -> R<RModule> {
        self.pad();
        if self.peek() != Some(&T::Kw("erd")) {
            return Err(());
        }
        self.i += 1;
        self.pad();
        let name = self.ident().ok();
        self.pad();
        self.ctrl('{')?;
        self.pad();
        let mut entries = vec![];
        if let Some(T::Ident(_)) = self.peek() {
            entries.push(self.entry()?);
            loop {
                let save = self.i;
                if !self.sep() {
                    break;
                }
                if let Some(T::Ident(_)) = self.peek() {
                    entries.push(self.entry()?);
                } else {
                    self.i = save;
                    break;
                }
            }
        }
        self.pad();
        self.ctrl('}')?;
        self.pad();
        if self.i < self.t.len() {
            self.far = self.far.max(self.i);
            return Err(());
        }
        Ok(RModule { name, entries })
    }
}

/// Err(k): index of the first token that no program has after the tokens
/// before it (k == tokens.len(): the text ends too early).
pub fn parse_tokens(t: &[Tok], loose: bool) -> Result<RModule, usize> {
    let mut p = P { t, i: 0, far: 0, loose };
    match p.module() {
        Ok(m) => Ok(m),
        Err(()) => Err(p.far),
    }
}

#[derive(Debug, Clone)]
pub enum Verdict {
    /// In the documented language; denotes this module.
    In(RModule),
    /// Outside it even when read generously (`;` is allowed wherever a newline
    /// is).
    Out,
    /// Depends on what the documentation leaves open: `;` used as a blank. Read
    /// so, it denotes this module.
    Open(RModule),
}

pub fn judge(src: &str) -> Verdict {
    let cs: Vec<char> = src.chars().collect();
    let Ok(t) = lex(&cs) else { return Verdict::Out };
    if let Ok(m) = parse_tokens(&t, false) {
        return Verdict::In(m);
    }
    match parse_tokens(&t, true) {
        Ok(m) => Verdict::Open(m),
        Err(_) => Verdict::Out,
    }
}
