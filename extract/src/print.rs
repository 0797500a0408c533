use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

pub fn plain(t: TokenStream) -> String {
    let mut p = P { lines: vec![], cur: String::new(), line: 0, glue: false, multiline: false };
    p.ts(t);
    p.flush();
    p.lines.into_iter().map(|x| x.0).collect::<Vec<_>>().join(" ")
}
/// Printed lines with the source line each one starts at (0: synthetic).
pub fn lines(t: TokenStream) -> Vec<(String, usize)> {
    let mut p = P { lines: vec![], cur: String::new(), line: 0, glue: false, multiline: true };
    p.ts(t);
    p.flush();
    p.lines
}
struct P { lines: Vec<(String, usize)>, cur: String, line: usize, glue: bool, multiline: bool }
impl P {
    fn flush(&mut self) {
        let s = std::mem::take(&mut self.cur);
        if !s.trim().is_empty() { self.lines.push((s.trim().to_string(), self.line)); }
        self.line = 0;
    }
    fn put(&mut self, s: &str, span: proc_macro2::Span) {
        if !self.glue && !self.cur.is_empty() { self.cur.push(' '); }
        self.glue = false;
        self.cur.push_str(s);
        let st = span.start();
        if self.line == 0 && !(st.line == 1 && st.column == 0) && st.line > 0 { self.line = st.line; }
    }
    fn ts(&mut self, t: TokenStream) {
        for tt in t {
            match tt {
                TokenTree::Ident(i) => { let s = i.to_string(); self.put(&s, i.span()) }
                TokenTree::Literal(l) => { let s = l.to_string(); self.put(&s, l.span()) }
                TokenTree::Punct(p) => {
                    let s = p.as_char().to_string();
                    self.put(&s, p.span());
                    if p.spacing() == Spacing::Joint || p.as_char() == '\'' { self.glue = true; }
                    if p.as_char() == ';' && self.multiline { self.flush(); }
                }
                TokenTree::Group(g) => {
                    let (a, b) = match g.delimiter() {
                        Delimiter::Parenthesis => ("(", ")"),
                        Delimiter::Bracket => ("[", "]"),
                        Delimiter::Brace => ("{", "}"),
                        Delimiter::None => ("", ""),
                    };
                    if a.is_empty() { self.ts(g.stream()); continue; }
                    self.put(a, g.span_open());
                    if a == "{" && self.multiline { self.flush(); }
                    self.ts(g.stream());
                    if b == "}" && self.multiline { self.flush(); }
                    self.put(b, g.span_close());
                    if b == "}" && self.multiline { self.flush(); }
                }
            }
        }
    }
}

#[derive(Clone)]
pub struct Json { pub s: String, first: Vec<bool>, after_key: bool }
impl Json {
    pub fn new() -> Self { Json { s: String::new(), first: vec![], after_key: false } }
    fn sep(&mut self) {
        if self.after_key { self.after_key = false; return; }
        if let Some(f) = self.first.last_mut() {
            if *f { *f = false } else { self.s.push(',') }
        }
    }
    pub fn obj(&mut self) { self.sep(); self.s.push('{'); self.first.push(true); }
    pub fn end_obj(&mut self) { self.s.push_str("}\n"); self.first.pop(); }
    pub fn arr(&mut self) { self.sep(); self.s.push('['); self.first.push(true); }
    pub fn end_arr(&mut self) { self.s.push(']'); self.first.pop(); }
    pub fn key(&mut self, k: &str) { self.sep(); self.raw(k); self.s.push(':'); self.after_key = true; }
    pub fn str(&mut self, k: &str) { self.sep(); self.raw(k); }
    pub fn bool(&mut self, b: bool) { self.sep(); self.s.push_str(if b { "true" } else { "false" }); }
    pub fn num(&mut self, n: usize) { self.sep(); self.s.push_str(&n.to_string()); }
    pub fn null(&mut self) { self.sep(); self.s.push_str("null"); }
    fn raw(&mut self, k: &str) {
        self.s.push('"');
        for c in k.chars() {
            match c {
                '"' => self.s.push_str("\\\""),
                '\\' => self.s.push_str("\\\\"),
                '\n' => self.s.push_str("\\n"),
                c if (c as u32) < 0x20 => self.s.push_str(&format!("\\u{:04x}", c as u32)),
                c => self.s.push(c),
            }
        }
        self.s.push('"');
    }
}
