//! A strict reader for the XML subset SVG output may use. Anything XML 1.0
//! forbids is an error.
#[derive(Debug, Clone, PartialEq)]
pub enum Node {
    El(El),
    Text(String),
}
#[derive(Debug, Clone, PartialEq)]
pub struct El {
    pub name: String,
    pub attrs: Vec<(String, String)>,
    pub kids: Vec<Node>,
}
impl El {
    pub fn get(&self, k: &str) -> Option<&str> {
        self.attrs.iter().find(|(n, _)| n == k).map(|(_, v)| v.as_str())
    }
    pub fn els(&self) -> impl Iterator<Item = &El> {
        self.kids.iter().filter_map(|k| match k {
            Node::El(e) => Some(e),
            _ => None,
        })
    }
    pub fn text(&self) -> String {
        self.kids
            .iter()
            .map(|k| match k {
                Node::Text(t) => t.clone(),
                Node::El(e) => e.text(),
            })
            .collect()
    }
}

pub fn xml_char(c: char) -> bool {
    matches!(c, '\t' | '\n' | '\r' | '\u{20}'..='\u{D7FF}' | '\u{E000}'..='\u{FFFD}' | '\u{10000}'..='\u{10FFFF}')
}

struct X {
    c: Vec<char>,
    i: usize,
}
type R<A> = Result<A, String>;
fn name_start(c: char) -> bool {
    c.is_ascii_alphabetic() || c == '_' || c == ':'
}
fn name_char(c: char) -> bool {
    name_start(c) || c.is_ascii_digit() || c == '-' || c == '.'
}
impl X {
    fn err<A>(&self, m: &str) -> R<A> {
        let a = self.i.saturating_sub(30);
        let b = (self.i + 30).min(self.c.len());
        let near: String = self.c[a..b].iter().collect();
        Err(format!("{} at char {} near {:?}", m, self.i, near))
    }
    fn peek(&self) -> Option<char> {
        self.c.get(self.i).copied()
    }
    fn starts(&self, s: &str) -> bool {
        s.chars().enumerate().all(|(k, ch)| self.c.get(self.i + k) == Some(&ch))
    }
    fn ws(&mut self) -> bool {
        let s = self.i;
        while matches!(self.peek(), Some(' ' | '\t' | '\n' | '\r')) {
            self.i += 1;
        }
        self.i > s
    }
    fn name(&mut self) -> R<String> {
        let s = self.i;
        match self.peek() {
            Some(c) if name_start(c) => self.i += 1,
            _ => return self.err("name expected"),
        }
        while matches!(self.peek(), Some(c) if name_char(c)) {
            self.i += 1;
        }
        Ok(self.c[s..self.i].iter().collect())
    }
    fn reference(&mut self) -> R<char> {
        self.i += 1; // &
        let s = self.i;
        while matches!(self.peek(), Some(c) if c.is_ascii_alphanumeric() || c == '#') {
            self.i += 1;
        }
        let body: String = self.c[s..self.i].iter().collect();
        if self.peek() != Some(';') {
            return self.err("bare '&'");
        }
        self.i += 1;
        let ch = match body.as_str() {
            "lt" => '<',
            "gt" => '>',
            "amp" => '&',
            "quot" => '"',
            "apos" => '\'',
            b => {
                let v = if let Some(h) = b.strip_prefix("#x") {
                    u32::from_str_radix(h, 16).ok()
                } else if let Some(d) = b.strip_prefix('#') {
                    d.parse().ok()
                } else {
                    None
                };
                match v.and_then(char::from_u32) {
                    Some(c) if xml_char(c) => c,
                    _ => return self.err("bad reference"),
                }
            }
        };
        Ok(ch)
    }
    fn element(&mut self, depth: usize) -> R<El> {
        if depth > 64 {
            return self.err("nested too deep");
        }
        if self.peek() != Some('<') {
            return self.err("'<' expected");
        }
        self.i += 1;
        let name = self.name()?;
        let mut attrs: Vec<(String, String)> = vec![];
        loop {
            let sp = self.ws();
            match self.peek() {
                Some('>') => {
                    self.i += 1;
                    break;
                }
                Some('/') => {
                    self.i += 1;
                    if self.peek() != Some('>') {
                        return self.err("'>' expected");
                    }
                    self.i += 1;
                    return Ok(El { name, attrs, kids: vec![] });
                }
                None => return self.err("unterminated tag"),
                _ => {
                    if !sp {
                        return self.err("space expected before attribute");
                    }
                    let an = self.name()?;
                    if self.peek() != Some('=') {
                        return self.err("'=' expected");
                    }
                    self.i += 1;
                    let q = match self.peek() {
                        Some(q @ ('"' | '\'')) => q,
                        _ => return self.err("quote expected"),
                    };
                    self.i += 1;
                    let mut v = String::new();
                    loop {
                        match self.peek() {
                            None => return self.err("unterminated attribute"),
                            Some(c) if c == q => {
                                self.i += 1;
                                break;
                            }
                            Some('<') => return self.err("'<' in attribute"),
                            Some('&') => v.push(self.reference()?),
                            Some(c) if xml_char(c) => {
                                v.push(if matches!(c, '\t' | '\n' | '\r') { ' ' } else { c });
                                self.i += 1;
                            }
                            _ => return self.err("forbidden character"),
                        }
                    }
                    if attrs.iter().any(|(n, _)| *n == an) {
                        return self.err("duplicate attribute");
                    }
                    attrs.push((an, v));
                }
            }
        }
        let mut kids = vec![];
        let mut buf = String::new();
        loop {
            match self.peek() {
                None => return self.err("unterminated element"),
                Some('<') => {
                    if self.starts("</") {
                        if !buf.is_empty() {
                            kids.push(Node::Text(std::mem::take(&mut buf)));
                        }
                        self.i += 2;
                        let en = self.name()?;
                        if en != name {
                            return self.err("mismatched end tag");
                        }
                        self.ws();
                        if self.peek() != Some('>') {
                            return self.err("'>' expected");
                        }
                        self.i += 1;
                        return Ok(El { name, attrs, kids });
                    }
                    if !buf.is_empty() {
                        kids.push(Node::Text(std::mem::take(&mut buf)));
                    }
                    if self.starts("<!--") {
                        self.comment()?;
                    } else {
                        kids.push(Node::El(self.element(depth + 1)?));
                    }
                }
                Some('&') => buf.push(self.reference()?),
                Some(']') if self.starts("]]>") => return self.err("']]>' in text"),
                Some('\r') => {
                    // end-of-line normalisation
                    self.i += 1;
                    if self.peek() == Some('\n') {
                        self.i += 1;
                    }
                    buf.push('\n');
                }
                Some(c) if xml_char(c) => {
                    buf.push(c);
                    self.i += 1;
                }
                _ => return self.err("forbidden character"),
            }
        }
    }
    fn comment(&mut self) -> R<()> {
        self.i += 4;
        while !self.starts("--") {
            match self.peek() {
                Some(c) if xml_char(c) => self.i += 1,
                _ => return self.err("bad comment"),
            }
        }
        if !self.starts("-->") {
            return self.err("'--' in comment");
        }
        self.i += 3;
        Ok(())
    }
}

pub fn parse(s: &str) -> Result<El, String> {
    let mut x = X { c: s.chars().collect(), i: 0 };
    if x.starts("<?xml ") {
        while !x.starts("?>") {
            if x.peek().is_none() {
                return x.err("unterminated declaration");
            }
            x.i += 1;
        }
        x.i += 2;
    }
    loop {
        x.ws();
        if x.starts("<!--") {
            x.comment()?;
        } else {
            break;
        }
    }
    let root = x.element(0)?;
    loop {
        x.ws();
        if x.starts("<!--") {
            x.comment()?;
        } else {
            break;
        }
    }
    if x.i < x.c.len() {
        return x.err("content after the root element");
    }
    Ok(root)
}
