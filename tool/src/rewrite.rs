//! Mechanical rewrites from Rust to the Verus dialect.  Every rule preserves meaning; each application is
//! recorded and reported in the evidence.
use crate::source::{line_starts, range};
use crate::R;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

#[derive(Default, Clone)]
pub struct Env {
    /// closure-typed generic params: name -> (kind, arity), kind in {mut, once, ref}
    pub closures: Vec<(String, String, usize)>,
    /// struct fields whose type is a closure param: field -> (kind, arity)
    pub fields: Vec<(String, String, usize)>,
    /// free functions known in the file/prelude (calls to these are not closure calls)
    pub panic_allow: bool,
    pub breakreturn: bool,
    pub kinds: Vec<String>,
    pub kind_pos: usize,
    /// helper functions of the same file that have no contract: inlined at call sites
    pub helpers: Vec<Helper>,
    pub locals_closure: Vec<(String, String)>,
    pub substs: Vec<(String, String)>,
    pub dropguards: Vec<String>,
    pub postsubsts: Vec<(String, String)>,
    pub nowhilelet: bool,
    pub tracked: Vec<(String, String)>,
    /// methods whose result is a guard: its drop is made explicit (method, token)
    pub guards: Vec<(String, String)>,
    /// fields of heap nodes reached through raw pointers: `(*p).f` as a contracted access (field, token)
    pub heap: Vec<(String, String)>,
    /// `p as usize` becomes a contracted call (the operand may be a raw pointer)
    pub vcast: bool,
    /// `c[k]` becomes a contracted call with this token
    pub indexall: Option<String>,
    /// return type text of the function being rewritten
    pub ret: String,
    pub tries: Vec<String>,
    pub try_pos: usize,
    /// macro_rules! of the same file with one rule `($x:expr $(,)?) => { body }`: (name, x, body)
    pub macros: Vec<(String, String, String)>,
}

#[derive(Clone)]
pub struct Helper {
    pub name: String,
    pub text: String,
    pub method: bool,
}

pub struct Edit {
    pub start: usize,
    pub end: usize,
    pub text: String,
    pub rule: String,
}

const PREFIXES: &[&str] = &[
    "core::sync::atomic::", "std::sync::atomic::", "core::pin::", "core::task::", "core::future::", "std::pin::", "std::task::", "futures_core::stream::",
    "futures_core::future::", "futures_core::task::", "futures_sink::", "futures_io::", "core::marker::",
    "core::option::", "core::result::", "core::mem::replace|mem::replace", "std::mem::replace|mem::replace", "core::mem::take|mem::take", "core::mem::swap|mem::swap", "core::mem::ManuallyDrop|ManuallyDrop", "mem::ManuallyDrop|ManuallyDrop", "alloc::boxed::", "alloc::vec::", "alloc::collections::", "std::io::",
    "super::super::", "super::", "crate::stream::", "crate::future::", "crate::sink::", "crate::io::", "crate::fns::", "crate::",
];

/// strip well-known module prefixes from paths (`core::pin::Pin` -> `Pin`)
pub fn simplify_types(s: &str) -> String {
    let mut o = s.to_string();
    for p in PREFIXES {
        if let Some((a, b)) = p.split_once('|') {
            o = o.replace(a, b);
        } else {
            o = replace_path_prefix(&o, p);
        }
    }
    if let Some(i) = o.find("Pin<Box<[") {
        if let Some(j) = o[i..].find("]>>") {
            o = format!("{}PinBoxSlice<{}>{}", &o[..i], &o[i + 9..i + j], &o[i + j + 3..]);
        }
    }
    o = raw_ptrs(&o);
    // PhantomData<fn(A) -> B>: a marker without runtime content
    if let Some(i) = o.find("PhantomData<fn(") {
        if let Ok(j) = match_close(&o, i + 14) {
            let args = o[i + 15..j].to_string();
            let rest = o[j + 1..].trim_start();
            if let Some(r) = rest.strip_prefix("->") {
                if let Some(k) = r.rfind('>') {
                    o = format!("{}PhantomData<({}, {})>{}", &o[..i], args, r[..k].trim(), &r[k + 1..]);
                }
            } else if let Some(r) = rest.strip_prefix('>') {
                o = format!("{}PhantomData<({},)>{}", &o[..i], args, r);
            }
        }
    }
    o
}

fn replace_path_prefix(s: &str, p: &str) -> String {
    let mut out = String::new();
    let mut i = 0;
    while i < s.len() {
        if s[i..].starts_with(p) {
            let prev = s[..i].chars().last();
            let ok = match prev {
                Some(c) => !(c.is_alphanumeric() || c == '_' || c == ':'),
                None => true,
            };
            if ok {
                i += p.len();
                continue;
            }
        }
        let c = s[i..].chars().next().unwrap();
        out.push(c);
        i += c.len_utf8();
    }
    out
}

/// rewrite `FnMut(A) -> R` bounds to `FnMut1<A, Output = R>`; returns new text and the closure params
pub fn fn_bounds(text: &str) -> R<String> {
    let mut cur = text.to_string();
    for _ in 0..50 {
        let mut found = None;
        for kw in ["FnMut", "FnOnce", "Fn"] {
            let mut from = 0;
            while let Some(p) = cur[from..].find(kw) {
                let i = from + p;
                let before = cur[..i].chars().last();
                let after = cur[i + kw.len()..].chars().next();
                let okb = before.map(|c| !(c.is_alphanumeric() || c == '_')).unwrap_or(true);
                if okb && after == Some('(') {
                    found = Some((i, kw));
                    break;
                }
                if okb && after == Some(' ') && cur[i + kw.len()..].trim_start().starts_with('(') {
                    found = Some((i, kw));
                    break;
                }
                from = i + kw.len();
            }
            if found.is_some() {
                break;
            }
        }
        let (i, kw) = match found {
            Some(x) => x,
            None => return Ok(cur),
        };
        let open = i + kw.len() + cur[i + kw.len()..].find('(').unwrap();
        let close = match_close(&cur, open)?;
        let args = cur[open + 1..close].trim().trim_end_matches(',').to_string();
        let mut j = close + 1;
        let rest = &cur[j..];
        let t = rest.trim_start();
        let mut outp = "()".to_string();
        if t.starts_with("->") {
            let st = j + (rest.len() - t.len()) + 2;
            // type until a top-level , + { or end or " where"
            let mut depth = 0i32;
            let mut k = st;
            let b: Vec<(usize, char)> = cur[st..].char_indices().collect();
            let mut prev = ' ';
            for (off, c) in b {
                k = st + off;
                match c {
                    '<' | '(' | '[' => depth += 1,
                    '>' if prev == '-' => {}
                    '>' | ')' | ']' => {
                        if depth == 0 {
                            break;
                        }
                        depth -= 1;
                    }
                    ',' | '+' | '{' | ';' if depth == 0 => break,
                    _ => {}
                }
                prev = c;
                k = st + off + c.len_utf8();
            }
            let mut ty = cur[st..k].to_string();
            if let Some(w) = ty.find("\nwhere") {
                k = st + w;
                ty.truncate(w);
            } else if let Some(w) = ty.find(" where ") {
                k = st + w;
                ty.truncate(w);
            }
            outp = ty.trim().to_string();
            j = k;
        }
        let parts = split_top(&args);
        let n = parts.len();
        let mut nargs = vec![];
        let mut hr = false;
        for p in parts {
            let p = p.trim().to_string();
            if p.starts_with('&') && !p.starts_with("&'") {
                hr = true;
                nargs.push(format!("&'fa {}", p[1..].trim()));
            } else {
                nargs.push(p);
            }
        }
        let mut rep = String::new();
        if hr {
            rep.push_str("for<'fa> ");
        }
        rep.push_str(&format!("{}{}<{}{}Output = {}>", kw, n, nargs.join(", "), if n > 0 { ", " } else { "" }, outp));
        cur = format!("{}{}{}", &cur[..i], rep, &cur[j..]);
    }
    Err("too many closure bounds".into())
}

pub fn split_top(s: &str) -> Vec<String> {
    let mut v = vec![];
    let mut depth = 0i32;
    let mut cur = String::new();
    let mut prev = ' ';
    for c in s.chars() {
        match c {
            '<' | '(' | '[' | '{' => depth += 1,
            '>' if prev == '-' || prev == '=' => {}
            '>' | ')' | ']' | '}' => depth -= 1,
            _ => {}
        }
        if c == ',' && depth == 0 {
            v.push(cur.clone());
            cur.clear();
        } else {
            cur.push(c);
        }
        prev = c;
    }
    if !cur.trim().is_empty() {
        v.push(cur);
    }
    v
}

pub fn match_close(s: &str, open: usize) -> R<usize> {
    let mut depth = 0i32;
    for (i, c) in s[open..].char_indices() {
        match c {
            '(' => depth += 1,
            ')' => {
                depth -= 1;
                if depth == 0 {
                    return Ok(open + i);
                }
            }
            _ => {}
        }
    }
    Err("unbalanced parens".into())
}

/// scan generics text for closure params "F: FnMut(..)" before rewriting
pub fn closure_params(gen_text: &str) -> Vec<(String, String, usize)> {
    let mut v = vec![];
    let t: String = gen_text.replace('\n', " ");
    for (kw, kind) in [("FnMut", "mut"), ("FnOnce", "once"), ("Fn", "ref")] {
        let mut from = 0;
        while let Some(p) = t[from..].find(kw) {
            let i = from + p;
            from = i + kw.len();
            let after = t[i + kw.len()..].chars().next().unwrap_or(' ');
            let before = t[..i].chars().last().unwrap_or(' ');
            if before.is_alphanumeric() || before == '_' {
                continue;
            }
            let (arity, ok) = if after == '(' {
                let o = i + kw.len();
                match match_close(&t, o) {
                    Ok(c) => (split_top(&t[o + 1..c]).len(), true),
                    _ => (0, false),
                }
            } else if after.is_ascii_digit() {
                (after.to_digit(10).unwrap() as usize, true)
            } else {
                (0, false)
            };
            if !ok {
                continue;
            }
            // find preceding "IDENT :" possibly with "for<'a>" between
            let head = t[..i].trim_end();
            let head = if head.ends_with('>') {
                match head.rfind("for<") {
                    Some(x) => head[..x].trim_end(),
                    None => head,
                }
            } else {
                head
            };
            let head = head.trim_end();
            if let Some(h) = head.strip_suffix(':') {
                let id: String = h.trim_end().chars().rev().take_while(|c| c.is_alphanumeric() || *c == '_').collect::<String>().chars().rev().collect();
                v.push((id, kind.to_string(), arity));
            } else if head.ends_with('+') {
                let seg = head.rfind(':').unwrap_or(0);
                let id: String = head[..seg].trim_end().chars().rev().take_while(|c| c.is_alphanumeric() || *c == '_').collect::<String>().chars().rev().collect();
                v.push((id, kind.to_string(), arity));
            }
        }
    }
    v
}

struct Finder<'a> {
    text: &'a str,
    ls: &'a [usize],
    env: &'a mut Env,
    edit: Option<Edit>,
    err: Option<String>,
    counter: usize,
}

impl<'a> Finder<'a> {
    fn tx<T: Spanned>(&self, t: &T) -> String {
        let (a, b) = range(self.text, self.ls, t.span());
        self.text[a..b].to_string()
    }
    fn set<T: Spanned>(&mut self, t: &T, text: String, rule: &str) {
        if self.edit.is_none() {
            let (a, b) = range(self.text, self.ls, t.span());
            self.edit = Some(Edit { start: a, end: b, text, rule: rule.to_string() });
        }
    }
    fn next_kind(&mut self, default: &str) -> String {
        let k = self.env.kinds.get(self.env.kind_pos).cloned().unwrap_or(default.to_string());
        self.env.kind_pos += 1;
        if k == "-" {
            default.to_string()
        } else {
            k
        }
    }
}

struct BreakFinder {
    label: Option<String>,
    depth: usize,
    vals: Vec<(proc_macro2::Span, proc_macro2::Span)>, // (break expr span, value span)
}
impl<'ast> Visit<'ast> for BreakFinder {
    fn visit_expr_break(&mut self, b: &'ast syn::ExprBreak) {
        let targets = match (&b.label, &self.label) {
            (Some(l), Some(m)) => l.ident.to_string() == *m,
            (Some(_), None) => false,
            (None, _) => self.depth == 0,
        };
        if targets {
            if let Some(e) = &b.expr {
                self.vals.push((b.span(), e.span()));
            }
        }
        visit::visit_expr_break(self, b);
    }
    fn visit_expr_loop(&mut self, l: &'ast syn::ExprLoop) {
        self.depth += 1;
        visit::visit_expr_loop(self, l);
        self.depth -= 1;
    }
    fn visit_expr_while(&mut self, l: &'ast syn::ExprWhile) {
        self.depth += 1;
        visit::visit_expr_while(self, l);
        self.depth -= 1;
    }
    fn visit_expr_for_loop(&mut self, l: &'ast syn::ExprForLoop) {
        self.depth += 1;
        visit::visit_expr_for_loop(self, l);
        self.depth -= 1;
    }
    fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
}

struct HasReturn(bool);
impl<'ast> Visit<'ast> for HasReturn {
    fn visit_expr_return(&mut self, _: &'ast syn::ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, _: &'ast syn::ExprTry) {
        self.0 = true;
    }
    fn visit_macro(&mut self, m: &'ast syn::Macro) {
        let n = m.path.segments.last().unwrap().ident.to_string();
        if n == "ready" || n == "try" {
            self.0 = true;
        }
    }
    fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
}
pub fn has_return(e: &syn::Block) -> bool {
    let mut h = HasReturn(false);
    h.visit_block(e);
    h.0
}

fn closure_parts(f: &Finder, a: &syn::Expr) -> Option<(Vec<String>, String, bool)> {
    match a {
        syn::Expr::Closure(c) => {
            let ps = c
                .inputs
                .iter()
                .map(|p| match p {
                    syn::Pat::Type(t) => f.tx(&t.pat),
                    p => f.tx(p),
                })
                .collect();
            let mut h = HasReturn(false);
            h.visit_expr(&c.body);
            Some((ps, f.tx(&c.body), h.0))
        }
        syn::Expr::Path(p) => {
            let t = f.tx(p);
            if t == "drop" {
                return Some((vec!["_x".into()], "()".into(), false));
            }
            Some((vec!["__x".into()], format!("{}(__x)", t), false))
        }
        _ => None,
    }
}

impl<'a, 'ast> Visit<'ast> for Finder<'a> {
    fn visit_block(&mut self, b: &'ast syn::Block) {
        if self.edit.is_some() {
            return;
        }
        visit::visit_block(self, b);
        if self.edit.is_some() || self.env.guards.is_empty() {
            return;
        }
        // innermost (last) guard first
        for (k, st) in b.stmts.iter().enumerate().rev() {
            if let syn::Stmt::Local(l) = st {
                if let (syn::Pat::Ident(id), Some(init)) = (&l.pat, &l.init) {
                    let g = id.ident.to_string();
                    if g.contains("__g") || g.contains("__p") {
                        continue;
                    }
                    if let Some(tok) = self.guard_call(&init.expr) {
                        let (_, se) = range(self.text, self.ls, st.span());
                        let (_, be) = range(self.text, self.ls, b.span());
                        let rest = format!("{{{}}}", &self.text[se..be - 1]);
                        let _ = k;
                        match guard_block(&rest, &g, &tok, self.counter) {
                            Ok(t) => {
                                let (sa, _) = range(self.text, self.ls, st.span());
                                let t = format!("let {}__p{} = {}; {} ", g, self.counter, self.tx(&init.expr), t);
                                self.edit = Some(Edit { start: sa, end: be - 1, text: t, rule: "drop of a lock guard made explicit at every exit of its scope".into() });
                            }
                            Err(x) => self.err = Some(x),
                        }
                        return;
                    }
                }
            }
        }
    }

    fn visit_stmt(&mut self, s: &'ast syn::Stmt) {
        if self.edit.is_some() {
            return;
        }
        visit::visit_stmt(self, s);
        if self.edit.is_some() {
            return;
        }
        if let syn::Stmt::Macro(m) = s {
            if let Some((t, r)) = self.mac(&m.mac) {
                let full = format!("{};", t);
                self.set(s, full, &r);
            }
        }
        if let syn::Stmt::Item(syn::Item::Fn(f)) = s {
            let t = self.tx(f);
            self.env.helpers.retain(|h| h.name != f.sig.ident.to_string());
            self.env.helpers.push(Helper { name: f.sig.ident.to_string(), text: t, method: false });
            self.set(s, String::new(), "nested fn without contract inlined at its call sites");
        }
        if let syn::Stmt::Item(syn::Item::Trait(_)) | syn::Stmt::Item(syn::Item::Impl(_)) | syn::Stmt::Item(syn::Item::Use(_)) | syn::Stmt::Item(syn::Item::Struct(_)) = s {
            self.set(s, String::new(), "nested trait/impl/use/struct item moved out (emitted on its own where it has a contract)");
        }
        if let syn::Stmt::Local(l) = s {
            if let (syn::Pat::Ident(id), Some(init)) = (&l.pat, &l.init) {
                if let syn::Expr::Reference(r) = &*init.expr {
                    if let syn::Expr::Unary(u) = &*r.expr {
                        if r.mutability.is_some() && matches!(u.op, syn::UnOp::Deref(_)) && self.guard_call(&u.expr).is_some() {
                            let t = format!("let mut {0}_guard = {1}; let {0} = &mut *{0}_guard;", id.ident, self.tx(&u.expr));
                            self.set(s, t, "lock guard as an extended temporary: named");
                            return;
                        }
                    }
                }
            }
            if let Some(a) = l.attrs.first() {
                self.set(a, String::new(), "attribute dropped");
            }
        }
    }

    fn visit_expr(&mut self, e: &'ast syn::Expr) {
        if self.edit.is_some() {
            return;
        }
        if let (true, syn::Expr::Call(c)) = (self.env.breakreturn, e) {
            if let (Some(syn::Expr::Loop(l)), 1) = (c.args.first(), c.args.len()) {
                let (a, b) = range(self.text, self.ls, e.span());
                let mut bf = BreakFinder { label: l.label.as_ref().map(|x| x.name.ident.to_string()), depth: 0, vals: vec![] };
                bf.visit_block(&l.body);
                if !bf.vals.is_empty() && self.text[b..].chars().all(|c| c == '}' || c.is_whitespace()) && self.tx(&c.func).starts_with("Poll::") {
                    let (la, lb) = range(self.text, self.ls, l.span());
                    let f = self.tx(&c.func);
                    let mut t = self.text[la..lb].to_string();
                    let mut reps: Vec<(usize, usize, String)> = vec![];
                    for (bs, vs) in &bf.vals {
                        let (x, y) = range(self.text, self.ls, *bs);
                        let (vx, vy) = range(self.text, self.ls, *vs);
                        reps.push((x - la, y - la, format!("return {}({})", f, &self.text[vx..vy])));
                    }
                    reps.sort_by_key(|r| std::cmp::Reverse(r.0));
                    for (x, y, r) in reps {
                        t.replace_range(x..y, &r);
                    }
                    let _ = a;
                    self.set(e, t, "break-value: tail `C(loop { .. break v .. })` as `loop { .. return C(v) .. }`");
                    return;
                }
            }
        }
        visit::visit_expr(self, e);
        if self.edit.is_some() {
            return;
        }
        match e {
            syn::Expr::Macro(m) => {
                if let Some((t, r)) = self.mac(&m.mac) {
                    self.set(e, t, &r);
                }
            }
            syn::Expr::Loop(l) => {
                let mut bf = BreakFinder { label: l.label.as_ref().map(|x| x.name.ident.to_string()), depth: 0, vals: vec![] };
                bf.visit_block(&l.body);
                if !bf.vals.is_empty() {
                    let (a, b) = range(self.text, self.ls, e.span());
                    let id = self.counter;
                    let mut t = self.text[a..b].to_string();
                    let mut reps: Vec<(usize, usize, String)> = vec![];
                    for (bs, vs) in &bf.vals {
                        let (x, y) = range(self.text, self.ls, *bs);
                        let (vx, vy) = range(self.text, self.ls, *vs);
                        let lab = l.label.as_ref().map(|x| format!(" '{}", x.name.ident)).unwrap_or_default();
                        let labt = if self.text[x..vx].contains('\'') { lab } else { String::new() };
                        reps.push((x - a, y - a, format!("{{ __brk{} = {}; break{}; }}", id, &self.text[vx..vy], labt)));
                    }
                    reps.sort_by_key(|r| std::cmp::Reverse(r.0));
                    for (x, y, r) in reps {
                        t.replace_range(x..y, &r);
                    }
                    let (pre, post) = (format!("{{ let __brk{};\n", id), format!("\n__brk{} }}", id));
                    self.set(e, format!("{}{}{}", pre, t, post), "break-value: `loop { .. break v .. }` as assignment + break");
                }
            }
            syn::Expr::While(w) => {
                if let syn::Expr::Let(l) = &*w.cond {
                    if !self.env.nowhilelet {
                        let lab = w.label.as_ref().map(|x| format!("'{}: ", x.name.ident)).unwrap_or_default();
                        let t = format!("{}loop {{ if let {} = {} {} else {{ break; }} }}", lab, self.tx(&l.pat), self.tx(&l.expr), self.tx(&w.body));
                        self.set(e, t, "while-let: as loop + if-let + break");
                    }
                }
            }
            syn::Expr::Call(c) => {
                let args: Vec<String> = c.args.iter().map(|a| self.tx(a)).collect();
                match &*c.func {
                    syn::Expr::Paren(p) => {
                        let inner = match &*p.expr {
                            syn::Expr::Reference(r) => strip(&r.expr),
                            x => x,
                        };
                        if let syn::Expr::Field(fl) = inner {
                            let name = self.tx(&fl.member);
                            let kind = self.env.fields.iter().find(|x| x.0 == name).map(|x| x.1.clone());
                            let kind = kind.or_else(|| {
                                if self.env.closures.len() == 1 {
                                    Some(self.env.closures[0].1.clone())
                                } else {
                                    None
                                }
                            });
                            match kind {
                                Some(k) => {
                                    let m = call_name(&k);
                                    self.set(e, format!("{}.{}({})", self.tx(fl), m, args.join(", ")), "closure call `(x.f)(..)` as FnMut/FnOnce method call");
                                }
                                None => self.err = Some(format!("unsupported: call through field {}", name)),
                            }
                        }
                    }
                    syn::Expr::Path(p) => {
                        let t = self.tx(p);
                        if let Some((_, k)) = self.env.locals_closure.iter().find(|x| x.0 == t).cloned() {
                            self.set(e, format!("{}.{}({})", t, call_name(&k), args.join(", ")), "closure call as FnMut/FnOnce method call");
                        } else if !self.env.heap.is_empty() && args.len() == 2 && (t == "ptr::eq" || t.ends_with("::ptr::eq")) {
                            self.set(e, format!("(({}) == ({}))", args[0], args[1]), "ptr::eq as pointer equality");
                        } else if t == "usize::from" {
                            self.set(e, format!("vusize_from({})", args.join(", ")), "`usize::from(bool)` as a contracted helper");
                        } else if let Some((_, tok)) = self.env.tracked.iter().find(|x| x.0.contains("::") && (x.0 == t || x.0 == no_turbofish(&t) || x.0 == format!("::{}", no_turbofish(&t)))).cloned() {
                            if !args.iter().any(|a| a.starts_with("Tracked(") || a.starts_with("Ghost(")) {
                                let mut a2 = args.clone();
                                a2.push(tok);
                                self.set(e, format!("{}({})", t, a2.join(", ")), "ghost token argument added to an atomic/cell/heap operation");
                            }
                        } else if let Some(h) = self.env.helpers.iter().find(|h| !h.method && h.name != "iter_pin_mut" && (h.name == t || format!("Self::{}", h.name) == t)).cloned() {
                            self.inline(e, &h, None, &args);
                        }
                    }
                    _ => {}
                }
            }
            syn::Expr::Cast(c) if self.env.vcast && self.tx(&c.ty) == "usize" => {
                let inner = self.tx(&c.expr);
                self.set(e, format!("vaddr({})", inner), "`as usize` on a pointer as a contracted call");
            }
            syn::Expr::Cast(c) if !self.env.heap.is_empty() && (matches!(&*c.ty, syn::Type::Ptr(_)) || self.tx(&c.ty).starts_with("RawPtr<")) => {
                let inner = self.tx(&c.expr);
                self.set(e, format!("({})", inner), "cast between raw pointer types dropped (one pointer type)");
            }
            syn::Expr::Index(ix) if self.env.indexall.is_some() => {
                let (c, k) = (self.tx(&ix.expr), self.tx(&ix.index));
                let tok = self.env.indexall.clone().unwrap();
                self.set(e, format!("(*{}.vindex_mut({}, {}))", c, k, tok), "indexing as a contracted call");
            }
            syn::Expr::Field(fl) => {
                let name = self.tx(&fl.member);
                if let Some((_, tok)) = self.env.heap.iter().find(|x| x.0 == name).cloned() {
                    if let syn::Expr::Unary(u) = strip(&fl.base) {
                        let inner = self.tx(&u.expr);
                        if matches!(u.op, syn::UnOp::Deref(_)) && !inner.contains(".vf_") {
                            self.set(e, format!("(*({}).vf_{}({}))", inner, name, tok), "access through a raw pointer as a contracted heap access");
                        }
                    }
                }
            }
            syn::Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let recv = self.tx(&m.receiver);
                if recv == "self" {
                    if let Some(h) = self.env.helpers.iter().find(|h| h.method && h.name == name).cloned() {
                        let args: Vec<String> = m.args.iter().map(|a| self.tx(a)).collect();
                        self.inline(e, &h, Some("self"), &args);
                        return;
                    }
                }
                if let syn::Expr::MethodCall(r) = strip(&m.receiver) {
                    if (r.method == "unwrap" || r.method == "expect") && name != "unwrap" && name != "expect" {
                        if let Some(tok) = self.guard_call(&m.receiver) {
                            let id = self.counter;
                            let args: Vec<String> = m.args.iter().map(|a| self.tx(a)).collect();
                            self.set(e, format!("({{ let mut tmp__g{id} = {recv}; let __ret = tmp__g{id}.{name}({args}); tmp__g{id}.vunlock({tok}); __ret }})", id = id, recv = recv, name = name, args = args.join(", "), tok = tok), "temporary lock guard: released at the end of its statement");
                            return;
                        }
                    }
                }
                if (name == "fetch_update" || name == "try_update") && m.args.len() == 3 {
                    if let syn::Expr::Closure(c) = &m.args[2] {
                        if c.inputs.len() == 1 {
                            let id = self.counter;
                            let (ord, pat, body) = (format!("{}, {}", self.tx(&m.args[0]), self.tx(&m.args[1])), self.tx(&c.inputs[0]), self.tx(&c.body));
                            self.set(e, format!("({{ let __o{id} = {recv}.vfu_read({ord}); let __n{id} = {{ let {pat} = __o{id}; {body} }}; {recv}.vfu_commit(__o{id}, __n{id}) }})"), "fetch_update: the closure's last call, on the value that is replaced");
                            return;
                        }
                    }
                }
                if name == "expect" && m.args.len() == 1 {
                    self.set(e, format!("{}.unwrap()", recv), "`.expect(msg)` as `.unwrap()`");
                    return;
                }
                if name == "extend_from_slice" && m.args.len() == 1 {
                    self.set(e, format!("{}.vextend({})", recv, self.tx(&m.args[0])), "`extend_from_slice` as a contracted call");
                    return;
                }
                if name == "split_at" && m.args.len() == 1 {
                    self.set(e, format!("{}.vsplit_at({})", recv, self.tx(&m.args[0])), "`split_at` as a contracted call");
                    return;
                }
                if name == "split_at_mut" && m.args.len() == 1 {
                    self.set(e, format!("vsplit_at_mut({}, {})", recv, self.tx(&m.args[0])), "`split_at_mut` as a contracted call");
                    return;
                }
                if name == "copy_from_slice" && m.args.len() == 1 {
                    let r = match strip(&m.receiver) {
                        syn::Expr::Index(ix) => match strip(&ix.index) {
                            syn::Expr::Range(rg) => {
                                let base = self.tx(&ix.expr);
                                let st = rg.start.as_ref().map(|x| self.tx(x)).unwrap_or("0".into());
                                let en = match (&rg.limits, rg.end.as_ref().map(|x| self.tx(x))) {
                                    (syn::RangeLimits::Closed(_), Some(x)) => Some(format!("({}) + 1", x)),
                                    (_, x) => x,
                                };
                                Some(match en {
                                    Some(en) => format!("{}.vsub_mut({}, {})", base, st, en),
                                    None => format!("{}.vsub_from_mut({})", base, st),
                                })
                            }
                            _ => None,
                        },
                        _ => None,
                    };
                    let r = r.unwrap_or(recv);
                    self.set(e, format!("vcopy_from({}, {})", r, self.tx(&m.args[0])), "`copy_from_slice` as a contracted call");
                    return;
                }
                if name == "unwrap_or_default" && m.args.is_empty() {
                    self.set(e, format!("(match {} {{ Some(__x) => __x, None => VDefault::vdefault() }})", recv), "`.unwrap_or_default()` as match");
                    return;
                }
                let qual = |x: &str| match x.split_once('.') { Some((f, n)) => n == name && (recv.ends_with(&format!(".{}", f)) || recv.contains(&format!(".vf_{}(", f))), None => false };
                if let Some((_, tok)) = self.env.tracked.iter().find(|x| qual(&x.0)).or_else(|| self.env.tracked.iter().find(|x| x.0 == name)).cloned() {
                    let args: Vec<String> = m.args.iter().map(|a| self.tx(a)).collect();
                    if !args.iter().any(|a| a.starts_with("Tracked(") || a.starts_with("Ghost(")) {
                        let mut a2 = args.clone();
                        a2.push(tok);
                        self.set(e, format!("{}.{}({})", recv, name, a2.join(", ")), "ghost token argument added to an atomic/cell operation");
                    }
                    return;
                }
                if name == "collect" {
                    if let syn::Expr::MethodCall(mm) = strip(&m.receiver) {
                        if mm.method == "map" && mm.args.len() == 1 {
                            if let (Some((base, pinned)), Some((ps, body, false))) = (self.mut_iter(&mm.receiver), closure_parts(self, &mm.args[0])) {

                                let el = if pinned { format!("Pin::new_unchecked(&mut {}.v[__i])", base) } else { format!("&mut {}[__i]", base) };
                                let t = format!("({{ let mut __c = Vec::new(); let mut __i: usize = 0; while __i < {base}{v}.len() {{ let {pat} = {el}; __i = __i + 1; let __x = {body}; __c.push(__x); }} __c }})", base = base, v = if pinned { ".v" } else { "" }, pat = ps[0], el = el, body = body);
                                self.set(e, t, "`iter.map(..).collect()` over &mut elements as an index loop pushing into a Vec");
                                return;
                            }
                        }
                    }
                }
                if name == "find_map" && m.args.len() == 1 {
                    if let syn::Expr::MethodCall(mm) = strip(&m.receiver) {
                        if mm.method == "enumerate" {
                            if let (Some((base, false)), syn::Expr::Closure(c)) = (self.mut_iter(&mm.receiver), &m.args[0]) {
                                let pat = self.tx(&c.inputs[0]);
                                let body = self.tx(&c.body);

                                let t = format!("({{ let mut __r = None; let mut __i: usize = 0; while __i < {base}.len() {{ let {pat} = (__i, &mut {base}[__i]); __i = __i + 1; let __x = {body}; if __x.is_some() {{ __r = __x; break; }} }} __r }})", base = base, pat = pat, body = body);
                                self.set(e, t, "`iter_mut().enumerate().find_map(..)` as an index loop");
                                return;
                            }
                        }
                    }
                }
                let nargs = m.args.len();
                // closures handed to find_map/collect chains are rewritten as a whole
                let known = ["map", "map_err", "and_then", "unwrap_or_else", "map_or", "is_some_and", "ok_or_else", "or_else", "map_ok", "filter", "get_or_insert_with", "then", "is_none_or", "map_or_else", "map_unchecked_mut"];
                if known.contains(&name.as_str()) && nargs >= 1 && self.mut_iter(&m.receiver).is_none() {
                    let last = m.args.last().unwrap();
                    if let Some((ps, body, ret)) = closure_parts(self, last) {
                        if ret {
                            self.err = Some(format!("unsupported: return/? inside a closure passed to .{}()", name));
                            return;
                        }
                        let p = ps.get(0).cloned().unwrap_or("_".into());
                        let rule = format!("closure inlined: `.{}(|..| ..)` as match", name);
                        let out = match name.as_str() {
                            "map" => match self.next_kind(if recv_is_poll(&m.receiver) { "poll" } else { "option" }).as_str() {
                                "option" => format!("match {} {{ Some({}) => Some({}), None => None }}", recv, p, body),
                                "poll" => format!("match {} {{ Poll::Ready({}) => Poll::Ready({}), Poll::Pending => Poll::Pending }}", recv, p, body),
                                "result" => format!("match {} {{ Ok({}) => Ok({}), Err(__e) => Err(__e) }}", recv, p, body),
                                "skip" => return,
                                _ => return,
                            },
                            "map_err" => match self.next_kind("result").as_str() {
                                "result" => format!("match {} {{ Ok(__v) => Ok(__v), Err({}) => Err({}) }}", recv, p, body),
                                "pollresult" => format!("match {} {{ Poll::Ready(Ok(__v)) => Poll::Ready(Ok(__v)), Poll::Ready(Err({})) => Poll::Ready(Err({})), Poll::Pending => Poll::Pending }}", recv, p, body),
                                _ => return,
                            },
                            "map_ok" => match self.next_kind("pollresult").as_str() {
                                "pollresult" => format!("match {} {{ Poll::Ready(Ok({})) => Poll::Ready(Ok({})), Poll::Ready(Err(__e)) => Poll::Ready(Err(__e)), Poll::Pending => Poll::Pending }}", recv, p, body),
                                _ => return,
                            },
                            "and_then" => match self.next_kind("option").as_str() {
                                "option" => format!("match {} {{ Some({}) => {}, None => None }}", recv, p, body),
                                "result" => format!("match {} {{ Ok({}) => {}, Err(__e) => Err(__e) }}", recv, p, body),
                                _ => return,
                            },
                            "or_else" => match self.next_kind(if ps.is_empty() { "option" } else { "result" }).as_str() {
                                "option" => format!("match {} {{ Some(__v) => Some(__v), None => {} }}", recv, body),
                                "result" => format!("match {} {{ Ok(__v) => Ok(__v), Err({}) => {} }}", recv, p, body),
                                _ => return,
                            },
                            "unwrap_or_else" => match self.next_kind(if ps.is_empty() { "option" } else { "result" }).as_str() {
                                "option" => format!("match {} {{ Some(__v) => __v, None => {} }}", recv, body),
                                "result" => format!("match {} {{ Ok(__v) => __v, Err({}) => {} }}", recv, p, body),
                                _ => return,
                            },
                            "ok_or_else" => format!("match {} {{ Some(__v) => Ok(__v), None => Err({}) }}", recv, body),
                            "map_or" => {
                                let d = self.tx(&m.args[0]);
                                match self.next_kind("option").as_str() {
                                    "option" => format!("match {} {{ Some({}) => {}, None => {} }}", recv, p, body, d),
                                    "result" => format!("match {} {{ Ok({}) => {}, Err(_) => {} }}", recv, p, body, d),
                                    _ => return,
                                }
                            }
                            "is_some_and" => format!("match {} {{ Some({}) => {}, None => false }}", recv, p, body),
                            "is_none_or" => format!("match {} {{ Some({}) => {}, None => true }}", recv, p, body),
                            "get_or_insert_with" if matches!(strip(&m.receiver), syn::Expr::Path(_)) => format!("{{ if {}.is_none() {{ {} = Some({}); }} vopt_mut(&mut {}) }}", recv, recv, body, recv),
                            "map_unchecked_mut" if body.starts_with("&mut ") => format!("{{ let {} = ({}).get_unchecked_mut(); Pin::new_unchecked({}) }}", p, recv, body),
                            "then" => format!("if {} {{ Some({}) }} else {{ None }}", recv, body),
                            _ => return,
                        };
                        self.set(e, format!("({})", out), &rule);
                    }
                }
            }
            syn::Expr::If(i) => {
                if let syn::Expr::Let(l) = &*i.cond {
                    if let (Some(tok), Some(g)) = (self.guard_call(&l.expr), some_ident(&l.pat)) {
                        let body = self.tx(&i.then_branch);
                        if !guarded(&body) {
                            match guard_block(&body, &g, &tok, self.counter) {
                                Ok(b) => {
                                    let (ea, eb) = range(self.text, self.ls, e.span());
                                    let (pa, pb) = range(self.text, self.ls, l.pat.span());
                                    let (ta, tb) = range(self.text, self.ls, i.then_branch.span());
                                    let pat = replace_ident(&self.text[pa..pb], &g, &format!("{}__p{}", g, self.counter));
                                    let t = format!("{}{}{}{}{}", &self.text[ea..pa], pat, &self.text[pb..ta], b, &self.text[tb..eb]);
                                    self.set(e, t, "drop of a lock guard made explicit at every exit of its scope");
                                }
                                Err(x) => self.err = Some(x),
                            }
                        }
                    }
                }
            }
            syn::Expr::Match(m) if self.guard_call(&m.expr).is_some() && m.arms.iter().any(|a| some_ident(&a.pat).map_or(false, |_| !guarded(&self.tx(&a.body)))) => {
                let tok = self.guard_call(&m.expr).unwrap();
                for a in &m.arms {
                    if let Some(g) = some_ident(&a.pat) {
                        let body = self.tx(&a.body);
                        if guarded(&body) {
                            continue;
                        }
                        let body = if let syn::Expr::Block(b) = &*a.body { if b.label.is_none() { body } else { format!("{{ {} }}", body) } } else { format!("{{ {} }}", body) };
                        match guard_block(&body, &g, &tok, self.counter) {
                            Ok(b) => {
                                let pat = replace_ident(&self.tx(&a.pat), &g, &format!("{}__p{}", g, self.counter));
                                let gd = a.guard.as_ref().map(|x| format!(" if {}", self.tx(&x.1))).unwrap_or_default();
                                let cm = if a.comma.is_some() || m.arms.len() > 1 { "," } else { "" };
                                self.set(a, format!("{}{} => {}{}", pat, gd, b, cm), "drop of a lock guard made explicit at every exit of its scope");
                            }
                            Err(e) => self.err = Some(e),
                        }
                        return;
                    }
                }
            }
            syn::Expr::ForLoop(fl) => {
                let lab = fl.label.as_ref().map(|x| format!("'{}: ", x.name.ident)).unwrap_or_default();
                let body = self.tx(&fl.body);
                let pat = self.tx(&fl.pat);

                if let Some((base, pinned)) = self.mut_iter(&fl.expr) {
                    let el = if pinned { format!("Pin::new_unchecked(&mut {}.v[__i])", base) } else { format!("&mut {}[__i]", base) };
                    let t = format!("{{ let mut __i: usize = 0; {lab}while __i < {base}{v}.len() {{ let {pat} = {el}; __i = __i + 1; {body} }} }}", lab = lab, base = base, v = if pinned { ".v" } else { "" }, pat = pat, el = el, body = body);
                    self.set(e, t, "iteration over &mut elements as an index loop");
                } else if matches!(&*fl.pat, syn::Pat::Wild(_)) && matches!(&*fl.expr, syn::Expr::Range(_)) {
                    let it = self.tx(&fl.expr);
                    self.set(e, format!("{}for __i in {} {}", lab, it, body), "name for an unused loop counter");
                }
            }
            syn::Expr::Try(t) => {
                let inner = strip(&t.expr);
                let guess = match inner {
                    syn::Expr::MethodCall(m) => {
                        let n = m.method.to_string();
                        if n.contains("poll_next") {
                            "pollopt"
                        } else if n.starts_with("poll") || n.starts_with("try_poll") {
                            "poll"
                        } else if n == "ok" && m.args.is_empty() {
                            "option"
                        } else {
                            "result"
                        }
                    }
                    _ => "result",
                };
                let k = self.env.tries.get(self.env.try_pos).cloned().unwrap_or(guess.to_string());
                self.env.try_pos += 1;
                let conv = k.ends_with("-from");
                let k = k.trim_end_matches("-from").to_string();
                let ret = if self.env.ret.contains("Poll<Option<") {
                    "return Poll::Ready(Some(Err(__e)))"
                } else if self.env.ret.contains("Poll<") {
                    "return Poll::Ready(Err(__e))"
                } else if self.env.ret.contains("Option<") && k == "option" {
                    "return None"
                } else {
                    "return Err(__e)"
                };
                let ret_owned = if conv { ret.replace("Err(__e)", "Err(VFrom::vfrom(__e))") } else { ret.to_string() };
                let ret = ret_owned.as_str();
                let x = self.tx(&t.expr);
                let out = match k.as_str() {
                    "poll" => format!("(match {} {{ Poll::Ready(Ok(__v)) => Poll::Ready(__v), Poll::Ready(Err(__e)) => {}, Poll::Pending => Poll::Pending }})", x, ret),
                    "pollopt" => format!("(match {} {{ Poll::Ready(Some(Ok(__v))) => Poll::Ready(Some(__v)), Poll::Ready(Some(Err(__e))) => {}, Poll::Ready(None) => Poll::Ready(None), Poll::Pending => Poll::Pending }})", x, ret),
                    "option" => format!("(match {} {{ Some(__v) => __v, None => return None }})", x),
                    _ => format!("(match {} {{ Ok(__v) => __v, Err(__e) => {} }})", x, ret),
                };
                self.set(e, out, if conv { "`?` expanded (error converted by From, modelled as a pure function)" } else { "`?` expanded (error conversion is the identity)" });
            }
            syn::Expr::Match(m) if m.arms.len() == 2 && m.arms.iter().all(|a| a.guard.is_none()) && matches!(&m.arms[0].pat, syn::Pat::Slice(p) if p.elems.is_empty()) => {
                if let syn::Pat::Ident(_) | syn::Pat::Wild(_) = &m.arms[1].pat {
                    let t = format!("{{ let __s = {}; if __s.len() == 0 {{ {} }} else {{ let {} = __s; {} }} }}", self.tx(&m.expr), self.tx(&m.arms[0].body), self.tx(&m.arms[1].pat), self.tx(&m.arms[1].body));
                    self.set(e, t, "match on the empty slice pattern as a length test");
                }
            }
            syn::Expr::Match(m) if m.arms.len() == 2 && m.arms[0].guard.is_some() && m.arms[1].guard.is_none() && matches!(&m.arms[0].pat, syn::Pat::Lit(_)) && matches!(&m.arms[1].pat, syn::Pat::Ident(_) | syn::Pat::Wild(_)) => {
                let g = self.tx(&m.arms[0].guard.as_ref().unwrap().1);
                let t = format!("{{ let __m = {}; if __m == {} && ({}) {{ {} }} else {{ let {} = __m; {} }} }}", self.tx(&m.expr), self.tx(&m.arms[0].pat), g, self.tx(&m.arms[0].body), self.tx(&m.arms[1].pat), self.tx(&m.arms[1].body));
                self.set(e, t, "match on a guarded literal as if/else");
            }
            // match PLACE { P(ref a) if g => A, ref mut slot => B }
            syn::Expr::Match(m) if m.arms.len() == 2 && m.arms[0].guard.is_some() && m.arms[1].guard.is_none() && matches!(&m.arms[1].pat, syn::Pat::Ident(i) if i.by_ref.is_some() && i.mutability.is_some()) && !matches!(&*m.expr, syn::Expr::Reference(_)) => {
                let slot = if let syn::Pat::Ident(i) = &m.arms[1].pat { i.ident.to_string() } else { return };
                let g = self.tx(&m.arms[0].guard.as_ref().unwrap().1);
                let pat = self.tx(&m.arms[0].pat).replace("ref ", "");
                let t = format!("{{ let {slot} = &mut {}; if (match &*{slot} {{ {} => {}, _ => false }}) {} else {{ {} }} }}", self.tx(&m.expr), pat, g, self.tx(&m.arms[0].body), self.tx(&m.arms[1].body));
                self.set(e, t, "match on a place with ref bindings and a guard as a test on a shared reference");
            }
            syn::Expr::Match(m) if m.arms.len() == 2 && m.arms[0].guard.is_some() && m.arms[1].guard.is_none() && self.tx(&m.expr) == "self" && matches!(&m.arms[1].pat, syn::Pat::Wild(_)) && matches!(strip(&m.arms[0].body), syn::Expr::Block(b) if b.block.stmts.is_empty()) => {
                let g = self.tx(&m.arms[0].guard.as_ref().unwrap().1);
                let t = format!("{{ if !(match &*self {{ {} => {}, _ => false }}) {{ {} }} }}", self.tx(&m.arms[0].pat), g, self.tx(&m.arms[1].body));
                self.set(e, t, "match with a guard on a mutable reference as a test on a shared one");
            }
            syn::Expr::Match(m) if m.arms.iter().any(|a| has_const(&a.pat)) && m.arms.iter().all(|a| has_const(&a.pat) || matches!(&a.pat, syn::Pat::Ident(i) if i.subpat.is_none()) || matches!(&a.pat, syn::Pat::Wild(_))) => {
                let id = self.counter;
                let mut t = format!("{{ let __m{} = {}; ", id, self.tx(&m.expr));
                let mut closers = 0;
                let mut total = false;
                for a in &m.arms {
                    if total {
                        break;
                    }
                    let body = self.tx(&a.body);
                    let g = a.guard.as_ref().map(|g| self.tx(&g.1));
                    if has_const(&a.pat) {
                        let alts: Vec<&syn::Pat> = match &a.pat {
                            syn::Pat::Or(o) => o.cases.iter().collect(),
                            p => vec![p],
                        };
                        let c: Vec<String> = alts.iter().map(|p| format!("__m{} == {}", id, self.tx(*p))).collect();
                        let c = match g {
                            Some(g) => format!("({}) && ({})", c.join(" || "), g),
                            None => c.join(" || "),
                        };
                        t.push_str(&format!("if {} {{ {} }} else {{ ", c, body));
                        closers += 1;
                    } else {
                        let bind = match &a.pat {
                            syn::Pat::Wild(_) => String::new(),
                            p => format!("let {} = __m{}; ", self.tx(p), id),
                        };
                        match g {
                            Some(g) => {
                                t.push_str(&format!("{}if {} {{ {} }} else {{ ", bind, g, body));
                                closers += 1;
                            }
                            None => {
                                t.push_str(&format!("{}{}", bind, body));
                                total = true;
                            }
                        }
                    }
                }
                if !total {
                    t.push_str("vpanic()");
                }
                for _ in 0..closers {
                    t.push_str(" }");
                }
                t.push_str(" }");
                self.set(e, t, "match on named constants as an if/else chain");
            }
            syn::Expr::Reference(r) => {
                if let syn::Expr::Index(ix) = strip(&r.expr) {
                    if let syn::Expr::Range(rg) = strip(&ix.index) {
                        let base = self.tx(&ix.expr);
                        let m = if r.mutability.is_some() { "_mut" } else { "" };
                        let st = rg.start.as_ref().map(|x| self.tx(x));
                        let en = rg.end.as_ref().map(|x| self.tx(x));
                        let en = match (&rg.limits, en) {
                            (syn::RangeLimits::Closed(_), Some(x)) => Some(format!("({}) + 1", x)),
                            (_, x) => x,
                        };
                        let t = match (st, en) {
                            (Some(a), Some(b)) => format!("{}.vsub{}({}, {})", base, m, a, b),
                            (Some(a), None) => format!("{}.vsub_from{}({})", base, m, a),
                            (None, Some(b)) => format!("{}.vsub{}(0, {})", base, m, b),
                            (None, None) => format!("{}.vsub_from{}(0)", base, m),
                        };
                        self.set(e, t, "slice range indexing as a contracted call (bounds become an obligation)");
                    }
                }
            }
            syn::Expr::Binary(b) => {
                if let syn::BinOp::BitAndAssign(_) | syn::BinOp::BitOrAssign(_) = b.op {
                    let l = self.tx(&b.left);
                    let cmp = match strip(&b.right) {
                        syn::Expr::Binary(r) => matches!(r.op, syn::BinOp::Eq(_) | syn::BinOp::Ne(_) | syn::BinOp::Lt(_) | syn::BinOp::Le(_) | syn::BinOp::Gt(_) | syn::BinOp::Ge(_) | syn::BinOp::And(_) | syn::BinOp::Or(_)),
                        _ => false,
                    };
                    if cmp || self.text.contains(&format!("let mut {} = true", l)) || self.text.contains(&format!("let mut {} = false", l)) {
                        let op = if let syn::BinOp::BitAndAssign(_) = b.op { "&&" } else { "||" };
                        self.set(e, format!("{{ let __t = {}; {} = {} {} __t; }}", self.tx(&b.right), l, l, op), "boolean `&=`/`|=` as evaluate, then assign");
                    }
                }
            }
            _ => {}
        }
    }
}

// a pattern made of ALL_CAPS constants
fn has_const(p: &syn::Pat) -> bool {
    let caps = |s: String| s.len() > 1 && s.chars().all(|c| c.is_ascii_uppercase() || c.is_ascii_digit() || c == '_');
    match p {
        syn::Pat::Ident(i) => i.subpat.is_none() && caps(i.ident.to_string()),
        syn::Pat::Path(q) => caps(q.path.segments.last().unwrap().ident.to_string()),
        syn::Pat::Or(o) => o.cases.iter().all(has_const),
        _ => false,
    }
}

fn recv_is_poll(e: &syn::Expr) -> bool {
    match strip(e) {
        syn::Expr::MethodCall(m) => {
            let n = m.method.to_string();
            n.starts_with("poll") || n.starts_with("try_poll")
        }
        _ => false,
    }
}

fn strip(e: &syn::Expr) -> &syn::Expr {
    match e {
        syn::Expr::Paren(p) => strip(&p.expr),
        e => e,
    }
}

fn call_name(kind: &str) -> &'static str {
    match kind {
        "once" => "call_once",
        "ref" => "call",
        _ => "call_mut",
    }
}

impl<'a> Finder<'a> {
    /// `iter_pin_mut(X.as_mut())` / `X.iter_mut()` / `&mut X`: (X, pinned)
    fn mut_iter(&self, e: &syn::Expr) -> Option<(String, bool)> {
        match strip(e) {
            syn::Expr::Call(c) => {
                let f = self.tx(&c.func);
                if f.ends_with("iter_pin_mut") && c.args.len() == 1 {
                    if let syn::Expr::MethodCall(m) = strip(&c.args[0]) {
                        if m.method == "as_mut" {
                            return Some((self.tx(&m.receiver), true));
                        }
                    }
                }
                None
            }
            syn::Expr::MethodCall(m) if m.method == "iter_mut" => Some((self.tx(&m.receiver), false)),
            _ => None,
        }
    }

    // the expression is a call of a guard-returning method: its token
    fn guard_call(&self, e: &syn::Expr) -> Option<String> {
        if let syn::Expr::MethodCall(m) = strip(e) {
            let n = m.method.to_string();
            if n == "unwrap" || n == "expect" {
                return self.guard_call(&m.receiver);
            }
            return self.env.guards.iter().find(|x| x.0 == n).map(|x| x.1.clone());
        }
        None
    }

    fn mac(&mut self, m: &syn::Macro) -> Option<(String, String)> {
        let n = m.path.segments.last().unwrap().ident.to_string();
        let toks = {
            let sp = m.tokens.span();
            if m.tokens.is_empty() {
                String::new()
            } else {
                let (a, b) = range(self.text, self.ls, sp);
                self.text[a..b].to_string()
            }
        };
        // arguments, split as expressions
        let mut parts: Vec<String> = vec![];
        if n.contains("assert") {
            if let Ok(ps) = m.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated) {
                parts = ps.iter().map(|x| self.tx(x)).collect();
            }
        }
        if parts.is_empty() {
            parts = split_top(&toks);
        }
        match n.as_str() {
            "panic" | "unreachable" | "unimplemented" | "todo" => {
                Some((if self.env.panic_allow { "vpanics()".into() } else { "vpanic()".into() }, "panic!/unreachable! as a call that must be proved unreachable".into()))
            }
            "assert" | "debug_assert" => {
                let c = parts[0].trim().to_string();
                Some((format!("{}({})", if self.env.panic_allow { "vmayassert" } else { "vassert" }, c), "assert! as a contracted call".into()))
            }
            "assert_eq" | "debug_assert_eq" => {
                let p = parts;
                Some((format!("{}(({}) == ({}))", if self.env.panic_allow { "vmayassert" } else { "vassert" }, p[0].trim(), p[1].trim()), "assert! as a contracted call".into()))
            }
            "assert_ne" | "debug_assert_ne" => {
                let p = parts;
                Some((format!("{}(({}) != ({}))", if self.env.panic_allow { "vmayassert" } else { "vassert" }, p[0].trim(), p[1].trim()), "assert! as a contracted call".into()))
            }
            "ready" | "try_ready" => {
                // expand, so that nested rewrites see the argument
                Some((
                    format!("(match {} {{ Poll::Ready(__t) => __t, Poll::Pending => return Poll::Pending }})", toks),
                    "ready! expanded".into(),
                ))
            }
            _ => match self.env.macros.iter().find(|x| x.0 == n) {
                Some((_, x, body)) => {
                    let arg = toks.trim().trim_end_matches(',').to_string();
                    Some((format!("({})", body.replace(&format!("${}", x), &arg)), format!("{}! of the same file expanded", n)))
                }
                None => None,
            },
        }
    }

    /// the expression is what the function returns
    fn is_tail(&self, e: &syn::Expr) -> bool {
        fn tails(e: &syn::Expr, out: &mut Vec<proc_macro2::Span>) {
            out.push(e.span());
            match e {
                syn::Expr::Paren(p) => tails(&p.expr, out),
                syn::Expr::Block(b) if b.label.is_none() => block(&b.block, out),
                syn::Expr::Unsafe(b) => block(&b.block, out),
                syn::Expr::If(i) => {
                    block(&i.then_branch, out);
                    if let Some((_, x)) = &i.else_branch {
                        tails(x, out);
                    }
                }
                syn::Expr::Match(m) => m.arms.iter().for_each(|a| tails(&a.body, out)),
                _ => {}
            }
        }
        fn block(b: &syn::Block, out: &mut Vec<proc_macro2::Span>) {
            if let Some(syn::Stmt::Expr(e, None)) = b.stmts.last() {
                tails(e, out);
            }
        }
        let Ok(f) = syn::parse_str::<syn::ImplItemFn>(self.text) else { return false };
        let mut v = vec![];
        block(&f.block, &mut v);
        let r = range(self.text, self.ls, e.span());
        v.into_iter().any(|s| range(self.text, self.ls, s) == r)
    }

    fn inline(&mut self, e: &syn::Expr, h: &Helper, recv: Option<&str>, args: &[String]) {
        // h.text is a full fn item; parse it
        let f: syn::ImplItemFn = match syn::parse_str(&h.text) {
            Ok(f) => f,
            Err(_) => {
                self.err = Some(format!("unsupported: cannot inline helper {}", h.name));
                return;
            }
        };
        // in tail position a return of the helper is a return of the caller
        if has_return(&f.block) && !self.is_tail(e) {
            self.err = Some(format!("unsupported: helper {} has early returns", h.name));
            return;
        }
        let ls = line_starts(&h.text);
        let mut lets = String::new();
        let mut closures: Vec<(String, syn::ExprClosure, String)> = vec![];
        let mut ai = 0;
        for inp in &f.sig.inputs {
            match inp {
                syn::FnArg::Receiver(_) => {
                    if recv.is_none() {
                        // Self::helper(self, ..): receiver is the first argument
                        if args.get(ai).map(|s| s.trim().to_string()) != Some("self".into()) {
                            self.err = Some(format!("unsupported: helper {} called with another receiver", h.name));
                            return;
                        }
                        ai += 1;
                    }
                }
                syn::FnArg::Typed(t) => {
                    let pat = crate::source::text_of(&h.text, &ls, &t.pat).to_string();
                    let a = match args.get(ai) {
                        Some(a) => a.clone(),
                        None => {
                            self.err = Some(format!("unsupported: helper {} arity", h.name));
                            return;
                        }
                    };
                    ai += 1;
                    if pat.trim() == a.trim() {
                        continue;
                    }
                    if let Ok(syn::Expr::Closure(c)) = syn::parse_str::<syn::Expr>(&a) {
                        closures.push((pat.trim().to_string(), c, a.clone()));
                        continue;
                    }
                    lets.push_str(&format!("let {} = {}; ", pat, a));
                }
            }
        }
        let (a, b) = range(&h.text, &ls, f.block.span());
        let mut body = h.text[a..b].to_string();
        if !closures.is_empty() {
            // a closure literal passed to the helper: its body in place of the calls
            struct Calls<'x>(Vec<(proc_macro2::Span, usize, Vec<proc_macro2::Span>)>, &'x [(String, syn::ExprClosure, String)]);
            impl<'ast, 'x> Visit<'ast> for Calls<'x> {
                fn visit_expr_call(&mut self, c: &'ast syn::ExprCall) {
                    if let syn::Expr::Path(p) = &*c.func {
                        if let Some(i) = self.1.iter().position(|x| p.path.is_ident(&x.0)) {
                            self.0.push((c.span(), i, c.args.iter().map(|a| a.span()).collect()));
                            return;
                        }
                    }
                    syn::visit::visit_expr_call(self, c);
                }
            }
            let mut v = Calls(vec![], &closures);
            v.visit_block(&f.block);
            // no name of the helper may capture one of the closure's body
            struct Pats(Vec<String>);
            impl<'ast> Visit<'ast> for Pats {
                fn visit_pat_ident(&mut self, p: &'ast syn::PatIdent) {
                    self.0.push(p.ident.to_string());
                    syn::visit::visit_pat_ident(self, p);
                }
            }
            struct Uses(Vec<String>);
            impl<'ast> Visit<'ast> for Uses {
                fn visit_expr_path(&mut self, p: &'ast syn::ExprPath) {
                    if let Some(i) = p.path.get_ident() {
                        self.0.push(i.to_string());
                    }
                }
                fn visit_macro(&mut self, m: &'ast syn::Macro) {
                    fn go(t: proc_macro2::TokenStream, o: &mut Vec<String>) {
                        for x in t {
                            match x {
                                proc_macro2::TokenTree::Ident(i) => o.push(i.to_string()),
                                proc_macro2::TokenTree::Group(g) => go(g.stream(), o),
                                _ => {}
                            }
                        }
                    }
                    go(m.tokens.clone(), &mut self.0);
                }
            }
            let mut bound = Pats(vec![]);
            bound.visit_block(&f.block);
            for (_, c, _) in &closures {
                let mut own = Pats(vec![]);
                c.inputs.iter().for_each(|p| own.visit_pat(p));
                let mut uses = Uses(vec![]);
                uses.visit_expr(&c.body);
                if uses.0.iter().any(|u| !own.0.contains(u) && bound.0.contains(u)) {
                    self.err = Some(format!("unsupported: closure passed to helper {}", h.name));
                    return;
                }
            }
            let mut edits = vec![];
            for (sp, i, args) in &v.0 {
                let (_, c, ct) = &closures[*i];
                let cls = line_starts(ct);
                if args.len() != c.inputs.len() || has_return(&syn::Block { brace_token: Default::default(), stmts: vec![syn::Stmt::Expr((*c.body).clone(), None)] }) {
                    self.err = Some(format!("unsupported: closure passed to helper {}", h.name));
                    return;
                }
                let mut t = String::from("({ ");
                for (p, x) in c.inputs.iter().zip(args) {
                    let (x0, x1) = range(&h.text, &ls, *x);
                    let pt = crate::source::text_of(ct, &cls, p).to_string();
                    if pt.trim() != h.text[x0..x1].trim() {
                        t.push_str(&format!("let {} = {}; ", pt, &h.text[x0..x1]));
                    }
                }
                t.push_str(&format!("{} }})", crate::source::text_of(ct, &cls, &c.body)));
                let (x0, x1) = range(&h.text, &ls, *sp);
                edits.push((x0 - a, x1 - a, t));
            }
            edits.sort();
            for (x0, x1, t) in edits.into_iter().rev() {
                body.replace_range(x0..x1, &t);
            }
        }
        self.set(e, format!("({{ {}{} }})", lets, body), &format!("helper `{}` without contract inlined", h.name));
    }
}

/// rewrite one function item given as text; returns the rewritten text and the applied rules
pub fn rewrite_fn(text: &str, env: &mut Env) -> R<(String, Vec<String>)> {
    let mut cur = simplify_types(text);
    let mut rules = vec![];
    for (a, b) in &env.substs.clone() {
        if cur.contains(a.as_str()) {
            cur = cur.replace(a.as_str(), b);
            rules.push(format!("unit-specific substitution `{}` => `{}`", a, b));
        }
    }
    cur = cur.replace("Box::pin([])", "PinBoxSlice::empty()");
    cur = fn_bounds(&cur)?;
    loop {
        let f: syn::ImplItemFn = syn::parse_str(&cur).map_err(|e| format!("internal: rewritten text does not parse: {} in\n{}", e, cur))?;
        let ls = line_starts(&cur);
        let mut hit = None;
        for (k, a) in f.sig.inputs.iter().enumerate() {
            if let syn::FnArg::Typed(t) = a {
                if let syn::Pat::Wild(w) = &*t.pat {
                    hit = Some((range(&cur, &ls, w.span()), k));
                }
            }
        }
        match hit {
            Some(((a, b), k)) => cur.replace_range(a..b, if k == 1 { "cx".to_string() } else { format!("__p{}", k) }.as_str()),
            None => break,
        }
    }
    {
        let f: syn::ImplItemFn = syn::parse_str(&cur).map_err(|e| format!("internal: {}", e))?;
        let ls = line_starts(&cur);
        if let Some(syn::FnArg::Receiver(r)) = f.sig.inputs.first() {
            if r.mutability.is_some() && r.reference.is_none() && r.colon_token.is_none() {
                let (a, b) = range(&cur, &ls, f.block.span());
                let (ra, rb) = range(&cur, &ls, r.span());
                let body = replace_ident(&cur[a..b], "self", "__self");
                cur = format!("{}self{}{{ let mut __self = self; {}{}", &cur[..ra], &cur[rb..a], &body[1..], &cur[b..]);
                rules.push("`mut self` parameter as a mutable local".into());
            }
        }
    }
    {
        let f: syn::ImplItemFn = syn::parse_str(&cur).map_err(|e| format!("internal: {}", e))?;
        let ls = line_starts(&cur);
        let (a, b) = range(&cur, &ls, f.sig.output.span());
        env.ret = cur[a..b].replace("io::Result", "Result").split_whitespace().collect::<Vec<_>>().join("");
    }
    for n in 0..400 {
        let f: syn::ImplItemFn = syn::parse_str(&cur).map_err(|e| format!("internal: rewritten text does not parse: {} in\n{}", e, cur))?;
        let ls = line_starts(&cur);
        let mut fd = Finder { text: &cur, ls: &ls, env, edit: None, err: None, counter: n };
        fd.visit_block(&f.block);
        if let Some(e) = fd.err.take() {
            return Err(e);
        }
        match fd.edit.take() {
            None => {
                for (a, b) in &env.postsubsts {
                    cur = cur.replace(a.as_str(), b);
                }
                for g in &env.dropguards.clone() {
                    cur = drop_guard(&cur, g)?;
                    rules.push(format!("drop of local `{}` made explicit at every exit (calls the extracted Drop::drop)", g));
                }
                return Ok((cur, rules));
            }
            Some(ed) => {
                if !rules.contains(&ed.rule) {
                    rules.push(ed.rule.clone());
                }
                let mut t = cur.clone();
                t.replace_range(ed.start..ed.end, &ed.text);
                cur = t;
            }
        }
    }
    Err("rewriting did not terminate".into())
}

// `let [mut] NAME = ..` owns a value whose Drop impl matters: call it explicitly at every exit of its block after the declaration
fn drop_guard(cur: &str, spec: &str) -> Result<String, String> {
    let (name, tok) = match spec.split_once("=>") {
        Some((a, b)) => (a.trim(), b.trim()),
        None => (spec.trim(), ""),
    };
    struct F<'a> { name: &'a str, found: Option<(syn::Block, usize)> }
    impl<'ast> syn::visit::Visit<'ast> for F<'_> {
        fn visit_block(&mut self, b: &'ast syn::Block) {
            for (k, st) in b.stmts.iter().enumerate() {
                if let syn::Stmt::Local(l) = st {
                    if let syn::Pat::Ident(i) = &l.pat {
                        if i.ident == self.name && self.found.is_none() {
                            self.found = Some((b.clone(), k));
                        }
                    }
                }
            }
            syn::visit::visit_block(self, b);
        }
    }
    struct V<'a> { ls: &'a [usize], text: &'a str, depth: usize, edits: Vec<(usize, usize, String)>, drop: String, bad: bool }
    impl<'ast> syn::visit::Visit<'ast> for V<'_> {
        fn visit_expr_return(&mut self, r: &'ast syn::ExprReturn) {
            let (a, b) = range(self.text, self.ls, r.span());
            match &r.expr {
                Some(x) => {
                    let (p, _) = range(self.text, self.ls, x.span());
                    self.edits.push((a, p, "{ let __ret = ".into()));
                    self.edits.push((b, b, format!("; {} return __ret; }}", self.drop)));
                }
                None => self.edits.push((a, b, format!("{{ {} return; }}", self.drop))),
            }
            syn::visit::visit_expr_return(self, r);
        }
        fn visit_expr_continue(&mut self, c: &'ast syn::ExprContinue) {
            self.bad |= c.label.is_some();
            if self.depth == 0 {
                let (a, b) = range(self.text, self.ls, c.span());
                self.edits.push((a, b, format!("{{ {} continue; }}", self.drop)));
            }
        }
        fn visit_expr_break(&mut self, c: &'ast syn::ExprBreak) {
            self.bad |= c.label.is_some() || c.expr.is_some();
            if self.depth == 0 {
                let (a, b) = range(self.text, self.ls, c.span());
                self.edits.push((a, b, format!("{{ {} break; }}", self.drop)));
            }
        }
        fn visit_expr_loop(&mut self, l: &'ast syn::ExprLoop) { self.depth += 1; syn::visit::visit_expr_loop(self, l); self.depth -= 1; }
        fn visit_expr_while(&mut self, l: &'ast syn::ExprWhile) { self.depth += 1; syn::visit::visit_expr_while(self, l); self.depth -= 1; }
        fn visit_expr_for_loop(&mut self, l: &'ast syn::ExprForLoop) { self.depth += 1; syn::visit::visit_expr_for_loop(self, l); self.depth -= 1; }
        fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
    }
    let f: syn::ImplItemFn = syn::parse_str(cur).map_err(|e| format!("internal: {}", e))?;
    let ls = line_starts(cur);
    let mut fd = F { name, found: None };
    syn::visit::Visit::visit_block(&mut fd, &f.block);
    let (block, k) = fd.found.ok_or(format!("lost anchor: local {} with a drop", name))?;
    let drop = format!("{}.vdrop({});", name, tok);
    let mut v = V { ls: &ls, text: cur, depth: 0, edits: vec![], drop: drop.clone(), bad: false };
    for st in &block.stmts[k + 1..] {
        syn::visit::Visit::visit_stmt(&mut v, st);
    }
    if v.bad {
        return Err("drop guard: labelled break/continue in its scope".into());
    }
    let mut edits = v.edits;
    match block.stmts.last() {
        Some(syn::Stmt::Expr(syn::Expr::Loop(_), _)) | Some(syn::Stmt::Expr(syn::Expr::Return(_), _)) => {}
        // every arm leaves the block
        Some(syn::Stmt::Expr(e, _)) if diverges(e) => {}
        Some(syn::Stmt::Expr(e, None)) => {
            let (a, b) = range(cur, &ls, e.span());
            edits.push((a, a, "{ let __ret = ".into()));
            edits.push((b, b, format!("; {} __ret }}", drop)));
        }
        _ => {
            let (a, _) = range(cur, &ls, block.brace_token.span.close());
            edits.push((a, a, format!("{} ", drop)));
        }
    }
    edits.sort_by_key(|x| (x.0, x.1));
    let mut t = cur.to_string();
    for (a, b, x) in edits.into_iter().rev() {
        t.replace_range(a..b, &x);
    }
    Ok(t)
}

// an expression after which control does not go on
fn diverges(e: &syn::Expr) -> bool {
    match e {
        syn::Expr::Return(_) | syn::Expr::Continue(_) | syn::Expr::Break(_) => true,
        syn::Expr::Match(m) => m.arms.iter().all(|a| diverges(&a.body)),
        syn::Expr::If(i) => diverges_block(&i.then_branch) && i.else_branch.as_ref().map_or(false, |x| diverges(&x.1)),
        syn::Expr::Block(b) => diverges_block(&b.block),
        syn::Expr::Unsafe(b) => diverges_block(&b.block),
        _ => false,
    }
}
fn diverges_block(b: &syn::Block) -> bool {
    b.stmts.iter().any(|s| matches!(s, syn::Stmt::Expr(e, _) if diverges(e)))
}

// `Some(x)` / `Some(mut x)` / `Ok(x)` / `x`
fn some_ident(p: &syn::Pat) -> Option<String> {
    match p {
        syn::Pat::TupleStruct(t) if t.elems.len() == 1 => {
            let n = t.path.segments.last().unwrap().ident.to_string();
            if n != "Some" && n != "Ok" && n != "Ready" {
                return None;
            }
            match &t.elems[0] {
                syn::Pat::Ident(i) => Some(i.ident.to_string()),
                _ => None,
            }
        }
        _ => None,
    }
}

fn guarded(body: &str) -> bool {
    body.trim_start().strip_prefix("{ let mut ").and_then(|r| r.split(' ').next().map(|w| w.contains("__g"))).unwrap_or(false)
}

// `{ .. }` in which the guard `name` is live: release it explicitly at every exit, and at drop(name)
fn guard_block(block: &str, oname: &str, tok: &str, id: usize) -> Result<String, String> {
    let nname = format!("{}__g{}", oname, id);
    let name = nname.as_str();
    let block = &replace_ident(block, oname, name);
    struct V<'a> { ls: &'a [usize], text: &'a str, edits: Vec<(usize, usize, String)>, rel: String, name: &'a str, bad: bool, depth: usize }
    impl<'ast> syn::visit::Visit<'ast> for V<'_> {
        fn visit_expr_return(&mut self, r: &'ast syn::ExprReturn) {
            let (a, b) = range(self.text, self.ls, r.span());
            let v = r.expr.as_ref().map(|x| { let (p, q) = range(self.text, self.ls, x.span()); self.text[p..q].to_string() }).unwrap_or("()".into());
            if v.contains("return") || v.contains(&format!("drop({})", self.name)) {
                self.bad = true;
            }
            self.edits.push((a, b, format!("{{ let __ret = {}; {} return __ret; }}", v, self.rel)));
        }
        fn visit_expr_call(&mut self, c: &'ast syn::ExprCall) {
            let (a, b) = range(self.text, self.ls, c.span());
            let t: String = self.text[a..b].chars().filter(|x| !x.is_whitespace()).collect();
            if t == format!("drop({})", self.name) || t == format!("mem::drop({})", self.name) {
                self.edits.push((a, b, self.rel.trim_end_matches(';').to_string()));
                return;
            }
            syn::visit::visit_expr_call(self, c);
        }
        // leaving a loop inside the block does not leave the block
        fn visit_expr_break(&mut self, b: &'ast syn::ExprBreak) { self.bad |= self.depth == 0 || b.label.is_some(); }
        fn visit_expr_continue(&mut self, b: &'ast syn::ExprContinue) { self.bad |= self.depth == 0 || b.label.is_some(); }
        fn visit_expr_loop(&mut self, l: &'ast syn::ExprLoop) { self.depth += 1; syn::visit::visit_expr_loop(self, l); self.depth -= 1; }
        fn visit_expr_while(&mut self, l: &'ast syn::ExprWhile) { self.depth += 1; syn::visit::visit_expr_while(self, l); self.depth -= 1; }
        fn visit_expr_for_loop(&mut self, l: &'ast syn::ExprForLoop) { self.depth += 1; syn::visit::visit_expr_for_loop(self, l); self.depth -= 1; }
        fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
    }
    let f: syn::Block = syn::parse_str(block).map_err(|e| format!("internal: {}", e))?;
    let ls = line_starts(block);
    let rel = format!("{}.vunlock({});", name, tok);
    let mut v = V { ls: &ls, text: block, edits: vec![], rel: rel.clone(), name, bad: false, depth: 0 };
    syn::visit::Visit::visit_block(&mut v, &f);
    if v.bad {
        return Err("unsupported: control flow under a lock guard".into());
    }
    let mut edits = v.edits;
    match f.stmts.last() {
        Some(syn::Stmt::Expr(syn::Expr::Return(_), _)) => {}
        Some(syn::Stmt::Expr(e, None)) => {
            let (a, b) = range(block, &ls, e.span());
            // nested edits inside the tail expression stay valid: insert before and after it
            edits.push((a, a, "let __ret = ".to_string()));
            edits.push((b, b, format!("; {} __ret", rel)));
        }
        _ => {
            let b = block.rfind('}').unwrap();
            edits.push((b, b, format!("{} ", rel)));
        }
    }
    let o = block.find('{').unwrap() + 1;
    edits.push((o, o, format!(" let mut {} = {}__p{}; ", name, oname, id)));
    edits.sort_by_key(|x| (x.0, x.1));
    let mut t = block.to_string();
    for (a, b, x) in edits.into_iter().rev() {
        t.replace_range(a..b, &x);
    }
    Ok(t)
}

fn replace_ident(s: &str, from: &str, to: &str) -> String {
    let mut out = String::new();
    let mut word = String::new();
    for c in s.chars().chain(std::iter::once('\0')) {
        if c.is_alphanumeric() || c == '_' {
            word.push(c);
            continue;
        }
        out.push_str(if word == from && !field_dot(&out) { to } else { &word });
        word.clear();
        if c != '\0' {
            out.push(c);
        }
    }
    out
}

// `x.name`: a field or method name, not a variable (`a..name` is a range)
fn field_dot(before: &str) -> bool {
    let t = before;
    t.ends_with('.') && !t.ends_with("..")
}

/// `*mut T` / `*const T` as `RawPtr<T>`
fn raw_ptrs(s: &str) -> String {
    let mut o = s.to_string();
    for kw in ["*mut ", "*const "] {
        while let Some(i) = o.find(kw) {
            let st = i + kw.len();
            let mut depth = 0i32;
            let mut end = o.len();
            for (k, c) in o[st..].char_indices() {
                match c {
                    '<' | '(' | '[' => depth += 1,
                    '>' | ')' | ']' if depth == 0 => {
                        end = st + k;
                        break;
                    }
                    '>' | ')' | ']' => depth -= 1,
                    ',' | ';' | '=' | '{' | ' ' | '\n' if depth == 0 => {
                        end = st + k;
                        break;
                    }
                    _ => {}
                }
            }
            o = format!("{}RawPtr<{}>{}", &o[..i], &o[st..end], &o[end..]);
        }
    }
    o
}

/// `A::<T>::f::<U>` as `A::f`
fn no_turbofish(t: &str) -> String {
    let mut out = String::new();
    let mut depth = 0;
    for c in t.chars() {
        match c {
            '<' => {
                if depth == 0 && out.ends_with("::") {
                    out.truncate(out.len() - 2);
                }
                depth += 1;
            }
            '>' => depth -= 1,
            _ if depth == 0 => out.push(c),
            _ => {}
        }
    }
    out
}
