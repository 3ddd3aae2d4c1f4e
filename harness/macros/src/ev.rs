//! Evaluates the tokens a style macro emits to the stylesheet they build.
use crate::rt;
use proc_macro2::{Delimiter, Literal, TokenStream, TokenTree};
use stylist_core::ast::*;

/// A stylesheet with the fragments of every text joined.
#[derive(Clone, Debug, PartialEq)]
pub enum T {
    Attr(String, String),
    Block(Vec<String>, Vec<T>),
    Rule(String, Vec<T>),
}
fn join(f: &[StringFragment]) -> String {
    let mut s = String::new();
    for x in f {
        s.push_str(&x.inner);
    }
    s
}
fn t_inner(v: &[RuleBlockContent]) -> Vec<T> {
    v.iter()
        .map(|c| match c {
            RuleBlockContent::Rule(r) => T::Rule(join(&r.condition), t_inner(&r.content)),
            RuleBlockContent::Block(b) => t_block(b),
            RuleBlockContent::StyleAttr(a) => T::Attr(a.key.to_string(), join(&a.value)),
        })
        .collect()
}
fn t_block(b: &Block) -> T {
    T::Block(b.condition.iter().map(|s| join(&s.fragments)).collect(), t_inner(&b.content))
}
pub fn of_sheet(s: &Sheet) -> Vec<T> {
    s.iter()
        .map(|c| match c {
            ScopeContent::Rule(r) => T::Rule(join(&r.condition), t_inner(&r.content)),
            ScopeContent::Block(b) => t_block(b),
        })
        .collect()
}
pub fn map(v: &[T], f: &dyn Fn(&str) -> String) -> Vec<T> {
    v.iter()
        .map(|t| match t {
            T::Attr(k, v) => T::Attr(k.clone(), f(v)),
            T::Block(s, c) => T::Block(s.iter().map(|x| f(x)).collect(), map(c, f)),
            T::Rule(s, c) => T::Rule(f(s), map(c, f)),
        })
        .collect()
}

#[derive(Clone, Debug)]
pub enum V {
    Str(String),
    List(Vec<V>),
    Struct(Vec<(String, V)>),
    Var(String, Box<V>),
}

pub struct Ev<'a> {
    pub env: &'a [(&'a str, String)],
    locals: Vec<(String, V)>,
    in_static: u32,
    /// `static` items seen
    pub statics: u32,
    /// run-time expressions evaluated
    pub dynamic: u32,
    /// run-time expressions inside a static or const
    pub frozen: bool,
    /// constructors applied to the sheet
    pub wrap: Vec<String>,
    rejected: bool,
}

fn unsupported(m: &str) -> ! {
    rt::fail(&format!("UNSUPPORTED emitted tokens: {m}"))
}
/// value of a string literal token
pub fn str_value(l: &Literal) -> Option<String> {
    let s = l.to_string();
    let b = s.as_bytes();
    if b[0] == b'r' {
        let h = b[1..].iter().take_while(|c| **c == b'#').count();
        return Some(s[2 + h..s.len() - 1 - h].to_string());
    }
    if b[0] != b'"' {
        return None;
    }
    let mut out: Vec<u8> = vec![];
    let mut i = 1;
    while i + 1 < b.len() {
        if b[i] != b'\\' {
            out.push(b[i]);
            i += 1;
            continue;
        }
        match b[i + 1] {
            b'n' => out.push(b'\n'),
            b'r' => out.push(b'\r'),
            b't' => out.push(b'\t'),
            b'0' => out.push(0),
            b'u' => {
                let mut n = 0u32;
                i += 3;
                while b[i] != b'}' {
                    let d = b[i];
                    n = n * 16 + (if d <= b'9' { d - b'0' } else { (d | 32) - b'a' + 10 }) as u32;
                    i += 1;
                }
                let mut buf = [0u8; 4];
                out.extend_from_slice(char::from_u32(n).unwrap().encode_utf8(&mut buf).as_bytes());
                i += 1;
                continue;
            }
            b'x' => {
                let h = |d: u8| if d <= b'9' { d - b'0' } else { (d | 32) - b'a' + 10 };
                out.push(h(b[i + 2]) * 16 + h(b[i + 3]));
                i += 4;
                continue;
            }
            c => out.push(c),
        }
        i += 2;
    }
    Some(unsafe { String::from_utf8_unchecked(out) })
}

struct P {
    t: Vec<TokenTree>,
    i: usize,
}
impl P {
    fn new(t: TokenStream) -> P {
        P { t: t.into_iter().collect(), i: 0 }
    }
    fn punct(&self, k: usize) -> Option<char> {
        match self.t.get(self.i + k) {
            Some(TokenTree::Punct(p)) => Some(p.as_char()),
            _ => None,
        }
    }
    fn ident(&self, k: usize) -> Option<String> {
        match self.t.get(self.i + k) {
            Some(TokenTree::Ident(p)) => Some(p.to_string()),
            _ => None,
        }
    }
    fn group(&self, d: Delimiter) -> Option<TokenStream> {
        match self.t.get(self.i) {
            Some(TokenTree::Group(g)) if g.delimiter() == d => Some(g.stream()),
            _ => None,
        }
    }
    fn end(&self) -> bool {
        self.i >= self.t.len()
    }
    /// skips to the next `c` on this level, past it
    fn skip_past(&mut self, c: char) {
        while !self.end() && self.punct(0) != Some(c) {
            self.i += 1;
        }
        self.i += 1;
    }
    fn path(&mut self) -> Vec<String> {
        let mut v = vec![];
        loop {
            if self.punct(0) == Some(':') {
                self.i += 1;
            } else if self.punct(0) == Some('<') {
                let mut d = 0;
                loop {
                    match self.punct(0) {
                        Some('<') => d += 1,
                        Some('>') => d -= 1,
                        _ => {}
                    }
                    self.i += 1;
                    if d == 0 {
                        break;
                    }
                }
            } else if let Some(s) = self.ident(0) {
                // an identifier continues the path only after `::`
                if !v.is_empty() && self.i > 0 && !matches!(&self.t[self.i - 1], TokenTree::Punct(p) if p.as_char() == ':') {
                    return v;
                }
                v.push(s);
                self.i += 1;
            } else {
                return v;
            }
        }
    }
}

/// what a literal displays
pub fn constant(v: &[TokenTree]) -> Option<String> {
    match v {
        [TokenTree::Ident(i)] if *i == "true" || *i == "false" => Some(i.to_string()),
        [TokenTree::Punct(p), TokenTree::Literal(_)] if p.as_char() == '-' => constant(&v[1..]).map(|x| format!("-{x}")),
        [TokenTree::Literal(l)] => match syn::Lit::new(l.clone()) {
            syn::Lit::Str(s) => Some(s.value()),
            syn::Lit::Char(c) => Some(c.value().to_string()),
            syn::Lit::Byte(b) => Some(b.value().to_string()),
            syn::Lit::Int(i) => Some(i.base10_digits().to_string()),
            syn::Lit::Float(f) => {
                let d = f.base10_digits();
                if d.contains(['e', 'E']) {
                    return None;
                }
                let d = d.trim_end_matches('0').trim_end_matches('.');
                Some(d.to_string())
            }
            _ => None,
        },
        _ => None,
    }
}
/// text of a displayed expression: a variable's value, or an opaque text for other expressions
pub fn opaque(e: TokenStream, env: &[(&str, String)]) -> String {
    let v: Vec<TokenTree> = e.into_iter().collect();
    if let Some(s) = constant(&v) {
        return s;
    }
    if v.len() == 1 {
        match &v[0] {
            TokenTree::Ident(i) => {
                let i = i.to_string();
                for (n, x) in env {
                    if *n == i {
                        return x.clone();
                    }
                }
            }
            TokenTree::Group(g) if matches!(g.delimiter(), Delimiter::None | Delimiter::Parenthesis) => {
                return opaque(g.stream(), env);
            }
            _ => {}
        }
    }
    let mut s = String::from("<");
    raw(&v, &mut s);
    s.push('>');
    s
}
fn raw(v: &[TokenTree], s: &mut String) {
    for t in v {
        match t {
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::None => ("", ""),
                };
                s.push_str(a);
                raw(&g.stream().into_iter().collect::<Vec<_>>(), s);
                s.push_str(b);
            }
            TokenTree::Punct(p) => s.push(p.as_char()),
            t => {
                s.push_str(&t.to_string());
                s.push(' ');
            }
        }
    }
}

impl<'a> Ev<'a> {
    pub fn new(env: &'a [(&'a str, String)]) -> Ev<'a> {
        Ev { env, locals: vec![], in_static: 0, statics: 0, dynamic: 0, frozen: false, wrap: vec![], rejected: false }
    }
    pub fn run(&mut self, t: TokenStream) -> V {
        let mut p = P::new(t);
        let v = self.expr(&mut p);
        if !p.end() {
            unsupported("trailing tokens");
        }
        v
    }
    fn list(&mut self, t: TokenStream) -> Vec<V> {
        let mut p = P::new(t);
        let mut v = vec![];
        while !p.end() {
            v.push(self.expr(&mut p));
            if !p.end() {
                if p.punct(0) != Some(',') {
                    unsupported("list");
                }
                p.i += 1;
            }
        }
        v
    }
    fn block(&mut self, t: TokenStream) -> V {
        let mut p = P::new(t);
        let n = self.locals.len();
        loop {
            match p.ident(0).as_deref() {
                Some("use") => p.skip_past(';'),
                Some(k @ ("const" | "static" | "let")) => {
                    let k = k.to_string();
                    p.i += 1;
                    if p.ident(0).as_deref() == Some("mut") {
                        p.i += 1;
                    }
                    let name = p.ident(0).unwrap_or_else(|| unsupported("item name"));
                    p.skip_past('=');
                    if k == "static" {
                        self.statics += 1;
                    }
                    if k != "let" {
                        self.in_static += 1;
                    }
                    let v = self.expr(&mut p);
                    if k != "let" {
                        self.in_static -= 1;
                    }
                    if p.punct(0) != Some(';') {
                        unsupported("item");
                    }
                    p.i += 1;
                    self.locals.push((name, v));
                }
                _ => break,
            }
        }
        let v = self.expr(&mut p);
        if !p.end() {
            unsupported("block");
        }
        self.locals.truncate(n);
        v
    }
    /// text of `&(EXPR) as &dyn Display`, of EXPR, or of `&EXPR`
    fn displayed(&mut self, t: TokenStream) -> V {
        let mut p = P::new(t);
        // `format!("{}", EXPR)`
        if let (Some(TokenTree::Literal(l)), Some(',')) = (p.t.first(), p.punct(1)) {
            if str_value(l).as_deref() != Some("{}") {
                unsupported("format string");
            }
            p.i += 2;
        }
        while p.punct(0) == Some('&') {
            p.i += 1;
        }
        let e = match p.group(Delimiter::Parenthesis) {
            Some(g) if p.t.len() == p.i + 1 || p.ident(1).as_deref() == Some("as") => g,
            _ => p.t[p.i..].iter().cloned().collect(),
        };
        self.dynamic += 1;
        if self.in_static > 0 {
            self.frozen = true;
        }
        V::Str(opaque(e, self.env))
    }
    fn expr(&mut self, p: &mut P) -> V {
        let mut v = self.primary(p);
        loop {
            if p.punct(0) == Some('.') {
                p.i += 1;
                match p.ident(0).as_deref() {
                    Some("clone" | "into" | "to_string" | "to_owned" | "as_ref" | "into_boxed_slice" | "get_or_init" | "as_str" | "deref") => {}
                    m => unsupported(&format!("method {m:?}")),
                }
                let init = p.ident(0).as_deref() == Some("get_or_init");
                p.i += 1;
                let args = match p.group(Delimiter::Parenthesis) {
                    Some(g) => {
                        if init {
                            self.in_static += 1;
                        }
                        let a = self.list(g);
                        if init {
                            self.in_static -= 1;
                        }
                        a
                    }
                    None => unsupported("method call"),
                };
                p.i += 1;
                if init {
                    v = args.into_iter().next().unwrap_or_else(|| unsupported("init"));
                }
            } else if p.ident(0).as_deref() == Some("as") {
                while !p.end() && p.punct(0) != Some(',') && p.punct(0) != Some(';') {
                    p.i += 1;
                }
            } else {
                return v;
            }
        }
    }
    fn primary(&mut self, p: &mut P) -> V {
        while matches!(p.punct(0), Some('&' | '*')) {
            p.i += 1;
        }
        if p.ident(0).as_deref() == Some("move") {
            p.i += 1;
        }
        if p.punct(0) == Some('|') {
            p.i += 1;
            p.skip_past('|');
            return self.expr(p);
        }
        if let Some(g) = p.group(Delimiter::Brace) {
            p.i += 1;
            return self.block(g);
        }
        if let Some(g) = p.group(Delimiter::Parenthesis).or_else(|| p.group(Delimiter::None)) {
            p.i += 1;
            let mut q = P::new(g);
            let v = self.expr(&mut q);
            if !q.end() {
                unsupported("parenthesis");
            }
            return v;
        }
        if let Some(g) = p.group(Delimiter::Bracket) {
            p.i += 1;
            return V::List(self.list(g));
        }
        if let Some(TokenTree::Literal(l)) = p.t.get(p.i) {
            p.i += 1;
            return V::Str(str_value(l).unwrap_or_else(|| l.to_string()));
        }
        let path = p.path();
        let last = match path.last() {
            Some(l) => l.clone(),
            None => unsupported("expression"),
        };
        if let Some(g) = p.group(Delimiter::Parenthesis) {
            p.i += 1;
            let owner = if path.len() > 1 { path[path.len() - 2].as_str() } else { "" };
            if last == "to_string" || last == "format" {
                return self.displayed(g);
            }
            let mut args = self.list(g);
            if owner == "Vec" && last == "new" {
                return V::List(vec![]);
            }
            if matches!(owner, "OnceLock" | "OnceCell") {
                return V::List(vec![]);
            }
            if args.is_empty() {
                unsupported(&format!("call of {last}"));
            }
            let a = args.swap_remove(0);
            return match last.as_str() {
                "Rule" | "Block" | "StyleAttr" => V::Var(last, Box::new(a)),
                "new" | "from" | "Borrowed" | "Owned" | "Boxed" | "into" | "to_string" | "clone" | "to_owned" | "to_vec" => {
                    if matches!(owner, "Style" | "GlobalStyle" | "StyleSource" | "Sheet") {
                        self.wrap.push(format!("{owner}::{last}"));
                    }
                    a
                }
                "use_style" => {
                    self.wrap.push("use_style".to_string());
                    a
                }
                _ => unsupported(&format!("call of {last}")),
            };
        }
        if p.punct(0) == Some('!') {
            p.i += 1;
            if last == "css" {
                let g = match p.t.get(p.i) {
                    Some(TokenTree::Group(g)) => g.stream(),
                    _ => unsupported("macro"),
                };
                p.i += 1;
                return match std::panic::catch_unwind(move || crate::css(g)) {
                    Ok(t) if !is_rejected(&t) => self.run(t),
                    _ => {
                        self.rejected = true;
                        V::List(vec![])
                    }
                };
            }
            let g = match p.group(Delimiter::Bracket).or_else(|| p.group(Delimiter::Parenthesis)) {
                Some(g) if last == "vec" => g,
                _ => unsupported("macro"),
            };
            p.i += 1;
            return V::List(self.list(g));
        }
        if path.len() > 1 || last.as_bytes()[0].is_ascii_uppercase() {
            if let Some(g) = p.group(Delimiter::Brace) {
                p.i += 1;
                let mut q = P::new(g);
                let mut f = vec![];
                while !q.end() {
                    let n = q.ident(0).unwrap_or_else(|| unsupported("field"));
                    q.i += 1;
                    if q.punct(0) != Some(':') {
                        unsupported("field");
                    }
                    q.i += 1;
                    f.push((n, self.expr(&mut q)));
                    if q.punct(0) == Some(',') {
                        q.i += 1;
                    }
                }
                return V::Struct(f);
            }
        }
        if path.len() == 1 {
            for (n, v) in self.locals.iter().rev() {
                if *n == last {
                    return v.clone();
                }
            }
            for (n, v) in self.env {
                if *n == last {
                    self.dynamic += 1;
                    if self.in_static > 0 {
                        self.frozen = true;
                    }
                    return V::Str(v.clone());
                }
            }
        }
        unsupported(&format!("variable {last}"))
    }
}

fn s(v: &V) -> String {
    match v {
        V::Str(s) => s.clone(),
        V::List(l) => l.iter().map(s).collect(),
        V::Struct(_) => s(field(v, "inner")),
        _ => unsupported("text"),
    }
}
fn field<'v>(v: &'v V, n: &str) -> &'v V {
    if let V::Struct(f) = v {
        if let Some(x) = f.iter().find(|x| x.0 == n) {
            return &x.1;
        }
    }
    unsupported(n)
}
fn items(v: &V) -> &[V] {
    match v {
        V::List(l) => l,
        _ => unsupported("items"),
    }
}
fn node(v: &V) -> T {
    match v {
        V::Var(k, x) => match k.as_str() {
            "Rule" => T::Rule(s(field(x, "condition")), items(field(x, "content")).iter().map(node).collect()),
            "Block" => T::Block(
                items(field(x, "condition")).iter().map(|m| s(field(m, "fragments"))).collect(),
                items(field(x, "content")).iter().map(node).collect(),
            ),
            _ => T::Attr(s(field(x, "key")), s(field(x, "value"))),
        },
        _ => unsupported("node"),
    }
}
pub fn is_rejected(t: &TokenStream) -> bool {
    t.clone().into_iter().any(|x| match x {
        TokenTree::Ident(i) => i.to_string() == "compile_error",
        TokenTree::Group(g) => is_rejected(&g.stream()),
        _ => false,
    })
}

pub struct Out {
    pub sheet: Vec<T>,
    pub statics: u32,
    pub dynamic: u32,
    pub frozen: bool,
    pub wrap: Vec<String>,
}
/// Expands `mac` on `input`; None if it is a compile error.
pub fn expand(mac: fn(TokenStream) -> TokenStream, input: TokenStream, env: &[(&str, String)]) -> Option<Out> {
    let r = std::panic::catch_unwind(move || mac(input));
    let t = match r {
        Ok(t) => t,
        Err(_) => return None,
    };
    if is_rejected(&t) {
        return None;
    }
    let (o, rejected) = eval(t, env);
    if rejected { None } else { Some(o) }
}
pub fn evaluate(t: TokenStream, env: &[(&str, String)]) -> Out {
    eval(t, env).0
}
fn eval(t: TokenStream, env: &[(&str, String)]) -> (Out, bool) {
    let mut e = Ev::new(env);
    let v = e.run(t);
    let sheet = items(&v).iter().map(node).collect();
    (Out { sheet, statics: e.statics, dynamic: e.dynamic, frozen: e.frozen, wrap: e.wrap }, e.rejected)
}
