//! Token accounting: is this text an interleaving of exactly the parts of this
//! stylesheet, their delimiters, white space and comments?
use std::fmt::Write;
use stylist_core::ast::*;

pub struct M<'a> {
    s: &'a str,
}
impl<'a> M<'a> {
    /// removes one white-space character or comment
    fn trivia(&mut self) -> bool {
        let c = match self.s.chars().next() {
            Some(c) => c,
            None => return false,
        };
        if c.is_whitespace() {
            self.s = &self.s[c.len_utf8()..];
            return true;
        }
        if self.s.starts_with("/*") {
            if let Some(i) = self.s[2..].find("*/") {
                self.s = &self.s[i + 4..];
                return true;
            }
        }
        false
    }
    fn lit(&mut self, t: &str) -> bool {
        loop {
            if let Some(r) = self.s.strip_prefix(t) {
                self.s = r;
                return true;
            }
            if !self.trivia() {
                return false;
            }
        }
    }
    fn opt(&mut self, t: &str) {
        let save = self.s;
        if !self.lit(t) {
            self.s = save;
        }
    }
    fn frags(&mut self, f: &[StringFragment], bad: &[u8]) -> bool {
        f.iter().all(|f| clean(&f.inner, bad) && self.lit(&f.inner))
    }
    fn attr(&mut self, a: &StyleAttribute, must: bool) -> bool {
        if !(self.lit(&a.key) && self.lit(":") && self.frags(&a.value, b"{};")) {
            return false;
        }
        if must {
            return self.lit(";");
        }
        self.opt(";");
        true
    }
    fn content(&mut self, c: &[RuleBlockContent], dangling: bool) -> bool {
        c.iter().all(|x| match x {
            RuleBlockContent::StyleAttr(a) => self.attr(a, dangling),
            RuleBlockContent::Rule(r) => self.rule(r),
            RuleBlockContent::Block(b) => self.block(b),
        })
    }
    fn block(&mut self, b: &Block) -> bool {
        if b.condition.is_empty() {
            return self.content(&b.content, true);
        }
        for (i, s) in b.condition.iter().enumerate() {
            if i > 0 && !self.lit(",") {
                return false;
            }
            if !self.frags(&s.fragments, b"{},;") {
                return false;
            }
        }
        self.opt(",");
        self.lit("{") && self.content(&b.content, false) && self.lit("}")
    }
    fn rule(&mut self, r: &Rule) -> bool {
        self.frags(&r.condition, b"{}") && self.lit("{") && self.content(&r.content, false) && self.lit("}")
    }
    pub fn sheet(text: &str, s: &Sheet) -> bool {
        let mut m = M { s: text };
        for c in s.iter() {
            let ok = match c {
                ScopeContent::Block(b) => m.block(b),
                ScopeContent::Rule(r) => m.rule(r),
            };
            if !ok {
                return false;
            }
        }
        while m.trivia() {}
        m.s.is_empty()
    }
}
/// no delimiter outside double-quoted strings and placeholders: no
/// part swallowed a neighbour
fn clean(t: &str, bad: &[u8]) -> bool {
    let b = t.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'"' {
            i += 1;
            while i < b.len() && b[i] != b'"' {
                if b[i] == b'\\' {
                    i += 1;
                }
                i += 1;
            }
        } else if b[i] == b'$' && b.get(i + 1) == Some(&b'{') {
            while i < b.len() && b[i] != b'}' {
                i += 1;
            }
        } else {
            for x in bad {
                if b[i] == *x {
                    return false;
                }
            }
        }
        i += 1;
    }
    true
}
pub fn debug(s: &Sheet) -> String {
    let mut o = String::new();
    let _ = write!(o, "{s:?}");
    o
}

/// An unambiguous encoding of a stylesheet's contents (not its representation).
pub fn dump(s: &[ScopeContent]) -> Vec<u8> {
    let mut o = vec![];
    list(&mut o, s, |o, c| match c {
        ScopeContent::Block(b) => d_block(o, b),
        ScopeContent::Rule(r) => d_rule(o, r),
    });
    o
}
fn list<T>(o: &mut Vec<u8>, l: &[T], f: impl Fn(&mut Vec<u8>, &T)) {
    o.push(b'(');
    o.push(l.len() as u8);
    for x in l {
        f(o, x);
    }
    o.push(b')');
}
fn text(o: &mut Vec<u8>, s: &str) {
    o.push(b'<');
    o.push(s.len() as u8);
    o.extend_from_slice(s.as_bytes());
}
fn d_frags(o: &mut Vec<u8>, f: &[StringFragment]) {
    list(o, f, |o, f| text(o, &f.inner));
}
fn d_block(o: &mut Vec<u8>, b: &Block) {
    o.push(b'B');
    list(o, &b.condition, |o, s| d_frags(o, &s.fragments));
    d_content(o, &b.content);
}
fn d_rule(o: &mut Vec<u8>, r: &Rule) {
    o.push(b'R');
    d_frags(o, &r.condition);
    d_content(o, &r.content);
}
fn d_content(o: &mut Vec<u8>, c: &[RuleBlockContent]) {
    list(o, c, |o, c| match c {
        RuleBlockContent::StyleAttr(a) => {
            o.push(b'A');
            text(o, &a.key);
            d_frags(o, &a.value);
        }
        RuleBlockContent::Rule(r) => d_rule(o, r),
        RuleBlockContent::Block(b) => d_block(o, b),
    });
}
