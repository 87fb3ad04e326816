//! Independent minimal XML 1.0 tree parser and serialiser (no DTD, no namespaces beyond prefix-as-name).

thread_local! {
    /// literal tabs met inside attribute values (an XML reader would see spaces)
    pub static ATTR_TABS: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}

#[derive(Clone, Debug, PartialEq)]
pub struct El {
    pub name: String,
    pub attrs: Vec<(String, String)>,
    pub kids: Vec<Node>,
    /// Writer only: the text of this element is secret plain bytes to be enciphered at serialisation time.
    pub secret: Option<Vec<u8>>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Node {
    El(El),
    Text(String),
    /// Writer only: emitted verbatim.
    Raw(String),
}

pub fn is_xml_char(c: char) -> bool {
    matches!(c as u32, 0x9 | 0xA | 0xD | 0x20..=0xD7FF | 0xE000..=0xFFFD | 0x10000..=0x10FFFF)
}

impl El {
    pub fn new(name: &str) -> El {
        El { name: name.to_string(), attrs: vec![], kids: vec![], secret: None }
    }
    pub fn text(name: &str, t: &str) -> El {
        let mut e = El::new(name);
        if !t.is_empty() {
            e.kids.push(Node::Text(t.to_string()));
        }
        e
    }
    pub fn attr(mut self, k: &str, v: &str) -> El {
        self.attrs.push((k.into(), v.into()));
        self
    }
    pub fn push(&mut self, e: El) {
        self.kids.push(Node::El(e));
    }
    pub fn get_attr(&self, k: &str) -> Option<&str> {
        self.attrs.iter().find(|a| a.0 == k).map(|a| a.1.as_str())
    }
    pub fn els(&self) -> impl Iterator<Item = &El> {
        self.kids.iter().filter_map(|n| match n {
            Node::El(e) => Some(e),
            _ => None,
        })
    }
    pub fn child(&self, n: &str) -> Option<&El> {
        self.els().find(|e| e.name == n)
    }
    /// Text content; error if there are child elements.
    pub fn content(&self) -> Result<String, String> {
        let mut s = String::new();
        for k in &self.kids {
            match k {
                Node::Text(t) => s.push_str(t),
                Node::El(e) => return Err(format!("<{}> has child element <{}>", self.name, e.name)),
                Node::Raw(_) => {}
            }
        }
        Ok(s)
    }
}

struct P<'a> {
    c: &'a [char],
    i: usize,
}

type R<T> = Result<T, String>;

impl<'a> P<'a> {
    fn peek(&self) -> Option<char> {
        self.c.get(self.i).copied()
    }
    fn at(&self, s: &str) -> bool {
        let mut j = self.i;
        for ch in s.chars() {
            if self.c.get(j) != Some(&ch) {
                return false;
            }
            j += 1;
        }
        true
    }
    fn eat(&mut self, s: &str) -> bool {
        if self.at(s) {
            self.i += s.chars().count();
            true
        } else {
            false
        }
    }
    fn ws(&mut self) -> bool {
        let s = self.i;
        while matches!(self.peek(), Some(' ') | Some('\t') | Some('\n') | Some('\r')) {
            self.i += 1;
        }
        self.i > s
    }
    fn until(&mut self, end: &str) -> R<String> {
        let mut s = String::new();
        loop {
            if self.eat(end) {
                return Ok(s);
            }
            match self.peek() {
                Some(c) => {
                    s.push(c);
                    self.i += 1;
                }
                None => return Err(format!("eof before {}", end)),
            }
        }
    }
    fn name(&mut self) -> R<String> {
        let mut s = String::new();
        while let Some(c) = self.peek() {
            let start = c.is_alphabetic() || c == '_' || c == ':';
            if start || (!s.is_empty() && (c.is_ascii_digit() || c == '-' || c == '.')) {
                s.push(c);
                self.i += 1;
            } else {
                break;
            }
        }
        if s.is_empty() {
            Err(format!("name expected at {}", self.i))
        } else {
            Ok(s)
        }
    }
    fn reference(&mut self) -> R<char> {
        // after '&'
        let body = self.until(";")?;
        let c = match body.as_str() {
            "lt" => '<',
            "gt" => '>',
            "amp" => '&',
            "quot" => '"',
            "apos" => '\'',
            b if b.starts_with("#x") => {
                char::from_u32(u32::from_str_radix(&b[2..], 16).map_err(|_| "charref")?).ok_or("charref")?
            }
            b if b.starts_with('#') => char::from_u32(b[1..].parse::<u32>().map_err(|_| "charref")?).ok_or("charref")?,
            b => return Err(format!("entity {}", b)),
        };
        if !is_xml_char(c) {
            return Err(format!("character reference to non-XML char U+{:04X}", c as u32));
        }
        Ok(c)
    }
    fn misc(&mut self) -> R<()> {
        loop {
            self.ws();
            if self.eat("<!--") {
                self.until("-->")?;
            } else if self.eat("<?") {
                self.until("?>")?;
            } else {
                return Ok(());
            }
        }
    }
    /// Iterative element parser (depth-safe).
    fn element(&mut self) -> R<El> {
        let mut stack: Vec<El> = vec![];
        loop {
            // expects to be at content position (or at the very first tag)
            match self.peek() {
                None => return Err("eof in element".into()),
                Some('<') => {
                    if self.eat("</") {
                        let n = self.name()?;
                        self.ws();
                        if !self.eat(">") {
                            return Err("bad end tag".into());
                        }
                        let e = stack.pop().ok_or("unbalanced end tag")?;
                        if e.name != n {
                            return Err(format!("end tag {} for {}", n, e.name));
                        }
                        match stack.last_mut() {
                            Some(p) => p.kids.push(Node::El(e)),
                            None => return Ok(e),
                        }
                    } else if self.eat("<!--") {
                        self.until("-->")?;
                    } else if self.eat("<![CDATA[") {
                        let t = self.until("]]>")?;
                        push_text(stack.last_mut().ok_or("cdata at top")?, &t);
                    } else if self.eat("<?") {
                        self.until("?>")?;
                    } else {
                        self.i += 1;
                        let mut e = El::new(&self.name()?);
                        loop {
                            let w = self.ws();
                            if self.eat("/>") {
                                match stack.last_mut() {
                                    Some(p) => p.kids.push(Node::El(e)),
                                    None => return Ok(e),
                                }
                                break;
                            }
                            if self.eat(">") {
                                stack.push(e);
                                break;
                            }
                            if !w {
                                return Err("attribute without space".into());
                            }
                            let k = self.name()?;
                            self.ws();
                            if !self.eat("=") {
                                return Err("attribute =".into());
                            }
                            self.ws();
                            let q = match self.peek() {
                                Some(q @ ('"' | '\'')) => q,
                                _ => return Err("attribute quote".into()),
                            };
                            self.i += 1;
                            let mut v = String::new();
                            loop {
                                match self.peek() {
                                    None => return Err("eof in attribute".into()),
                                    Some(c) if c == q => {
                                        self.i += 1;
                                        break;
                                    }
                                    Some('<') => return Err("< in attribute".into()),
                                    Some('&') => {
                                        self.i += 1;
                                        v.push(self.reference()?);
                                    }
                                    // XML turns these into spaces; a literal tab is kept and counted
                                    Some('\t') => {
                                        self.i += 1;
                                        ATTR_TABS.with(|t| t.set(t.get() + 1));
                                        v.push('\t');
                                    }
                                    Some('\n') | Some('\r') => {
                                        self.i += 1;
                                        v.push(' ');
                                    }
                                    Some(c) => {
                                        self.i += 1;
                                        v.push(c);
                                    }
                                }
                            }
                            if e.attrs.iter().any(|a| a.0 == k) {
                                return Err("duplicate attribute".into());
                            }
                            e.attrs.push((k, v));
                        }
                    }
                }
                Some('&') => {
                    self.i += 1;
                    let c = self.reference()?;
                    push_text(stack.last_mut().ok_or("text at top")?, &c.to_string());
                }
                Some(_) => {
                    let mut t = String::new();
                    while let Some(c) = self.peek() {
                        if c == '<' || c == '&' {
                            break;
                        }
                        if c == ']' && self.at("]]>") {
                            return Err("]]> in text".into());
                        }
                        t.push(c);
                        self.i += 1;
                    }
                    push_text(stack.last_mut().ok_or("text at top")?, &t);
                }
            }
        }
    }
}

fn push_text(e: &mut El, t: &str) {
    if let Some(Node::Text(p)) = e.kids.last_mut() {
        p.push_str(t);
    } else if !t.is_empty() {
        e.kids.push(Node::Text(t.to_string()));
    }
}

pub fn parse(bytes: &[u8]) -> Result<El, String> {
    let s = std::str::from_utf8(bytes).map_err(|e| format!("not utf-8: {}", e))?;
    let s = s.strip_prefix('\u{feff}').unwrap_or(s);
    if let Some(c) = s.chars().find(|&c| !is_xml_char(c)) {
        return Err(format!("non-XML character U+{:04X}", c as u32));
    }
    // line-end normalisation of literal characters
    let s = s.replace("\r\n", "\n").replace('\r', "\n");
    let c: Vec<char> = s.chars().collect();
    let mut p = P { c: &c, i: 0 };
    if p.at("<?xml") {
        p.until("?>")?;
    }
    p.misc()?;
    if p.peek() != Some('<') {
        return Err("no root element".into());
    }
    let e = p.element()?;
    p.misc()?;
    if p.i != c.len() {
        return Err("content after root element".into());
    }
    Ok(e)
}

#[derive(Clone, Debug, Default)]
pub struct Style {
    pub decl: bool,
    pub bom: bool,
    pub indent: Option<String>,
    pub crlf: bool,
    /// 0 plain escapes, 1 decimal references for non-ASCII and specials, 2 hex references, 3 CDATA for text,
    /// 4 pieces of text, CDATA and references in one value, 5 comments and processing instructions inside values
    pub text: u8,
    pub self_close: bool,
    pub single_quotes: bool,
    pub comments: bool,
    /// behind the document
    pub trailing: String,
}

fn esc_char(out: &mut String, c: char, style: u8, attr: bool, quote: char) {
    match c {
        '<' => out.push_str("&lt;"),
        '>' => out.push_str("&gt;"),
        '&' => out.push_str("&amp;"),
        '\r' => out.push_str("&#13;"),
        '\n' | '\t' if attr => out.push_str(&format!("&#{};", c as u32)),
        c if attr && c == quote => out.push_str(if quote == '"' { "&quot;" } else { "&apos;" }),
        c if style == 1 && (c as u32 > 126) => out.push_str(&format!("&#{};", c as u32)),
        c if style == 2 && (c as u32 > 126) => out.push_str(&format!("&#x{:X};", c as u32)),
        c => out.push(c),
    }
}
fn cdata(out: &mut String, t: &str) -> bool {
    if t.contains("]]>") || t.contains('\r') || t.is_empty() {
        return false;
    }
    out.push_str("<![CDATA[");
    out.push_str(t);
    out.push_str("]]>");
    true
}
fn esc(out: &mut String, t: &str, style: u8, attr: bool, quote: char) {
    if style == 3 && !attr && cdata(out, t) {
        return;
    }
    if style >= 4 && !attr {
        // the way a value is cut into pieces depends on the value only
        let c: Vec<char> = t.chars().collect();
        let mut h = c.iter().fold(c.len() as u64, |h, &x| h.wrapping_mul(31).wrapping_add(x as u64));
        let mut i = 0;
        while i < c.len() {
            h = crate::rng::mix(h);
            let n = 1 + (h % 7) as usize;
            let piece = &c[i..(i + n).min(c.len())];
            i += piece.len();
            match (style, (h >> 8) % 4) {
                (4, 0) | (4, 1) => {
                    let p: String = piece.iter().collect();
                    if cdata(out, &p) {
                        continue;
                    }
                }
                (4, 2) => {
                    for x in piece {
                        out.push_str(&format!("&#{};", *x as u32));
                    }
                    continue;
                }
                (_, 0) => out.push_str("<!-- & < comment -->"),
                (_, 1) => out.push_str("<?pi & < data?>"),
                _ => {}
            }
            for x in piece {
                esc_char(out, *x, style, attr, quote);
            }
        }
        return;
    }
    for c in t.chars() {
        esc_char(out, c, style, attr, quote);
    }
}
fn esc_text(out: &mut String, t: &str, st: &Style) {
    if st.crlf && t.contains('\n') {
        let mut s = String::new();
        esc(&mut s, t, st.text, false, '"');
        out.push_str(&s.replace('\n', "\r\n"));
    } else {
        esc(out, t, st.text, false, '"');
    }
}

/// Serialises the tree; `cipher` turns secret bytes into the base64 text, called in document order.
pub fn serialise(root: &El, st: &Style, cipher: &mut dyn FnMut(&[u8]) -> String) -> Vec<u8> {
    let mut o = String::new();
    if st.bom {
        o.push('\u{feff}');
    }
    let nl = if st.crlf { "\r\n" } else { "\n" };
    if st.decl {
        o.push_str("<?xml version=\"1.0\" encoding=\"utf-8\" standalone=\"yes\"?>");
        o.push_str(nl);
    }
    enum W<'a> {
        Open(&'a El, usize),
        Close(&'a El, usize, bool),
        Node(&'a Node, usize),
    }
    let mut st_stack = vec![W::Open(root, 0)];
    let q = if st.single_quotes { '\'' } else { '"' };
    let ind = |o: &mut String, d: usize| {
        if let Some(i) = &st.indent {
            o.push_str(nl);
            for _ in 0..d {
                o.push_str(i);
            }
        }
    };
    while let Some(w) = st_stack.pop() {
        match w {
            W::Node(Node::Text(t), _) => esc_text(&mut o, t, st),
            W::Node(Node::Raw(t), _) => o.push_str(t),
            W::Node(Node::El(e), d) => {
                ind(&mut o, d);
                st_stack.push(W::Open(e, d));
            }
            W::Open(e, d) => {
                if st.comments && d > 0 && d < 4 {
                    o.push_str("<!-- c -->");
                }
                o.push('<');
                o.push_str(&e.name);
                for (k, v) in &e.attrs {
                    o.push(' ');
                    o.push_str(k);
                    o.push('=');
                    o.push(q);
                    esc(&mut o, v, st.text, true, q);
                    o.push(q);
                }
                if e.kids.is_empty() && e.secret.as_ref().map_or(true, |s| s.is_empty()) {
                    if st.self_close {
                        o.push_str(" />");
                    } else {
                        o.push_str("></");
                        o.push_str(&e.name);
                        o.push('>');
                    }
                    continue;
                }
                o.push('>');
                if let Some(s) = &e.secret {
                    esc_text(&mut o, &cipher(s), st);
                }
                let has_el = e.kids.iter().any(|k| matches!(k, Node::El(_)));
                st_stack.push(W::Close(e, d, has_el));
                for k in e.kids.iter().rev() {
                    st_stack.push(W::Node(k, d + 1));
                }
            }
            W::Close(e, d, has_el) => {
                if has_el {
                    ind(&mut o, d);
                }
                o.push_str("</");
                o.push_str(&e.name);
                o.push('>');
            }
        }
    }
    o.push_str(&st.trailing);
    o.into_bytes()
}

impl Style {
    pub fn random(r: &mut crate::rng::Rng) -> Style {
        Style {
            decl: r.chance(3, 4),
            bom: r.chance(1, 6),
            indent: r.pick(&[None, Some("\t"), Some("  "), Some("")]).map(|s| s.to_string()),
            crlf: r.chance(1, 3),
            text: r.below(6) as u8,
            self_close: r.bool(),
            single_quotes: r.chance(1, 3),
            comments: r.chance(1, 3),
            trailing: r.pick(&["", "", "\n", " \r\n\t\n"]).to_string(),
        }
    }
}
/// What the styles made of a document is what the independent reader makes of it.
pub fn same_text(a: &El, b: &El) -> bool {
    a.name == b.name
        && a.attrs == b.attrs
        && a.els().count() == b.els().count()
        && (a.els().count() > 0 || a.secret.is_some() || a.content().ok() == b.content().ok())
        && a.els().zip(b.els()).all(|(x, y)| same_text(x, y))
}
