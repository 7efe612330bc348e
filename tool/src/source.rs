use crate::{Ctx, R};
use proc_macro2::{LineColumn, Span};
use std::rc::Rc;
use syn::spanned::Spanned;

pub struct SrcFile {
    pub path: String,
    pub text: String,
    pub line_starts: Vec<usize>,
    pub ast: syn::File,
}

/// text with char offsets (proc-macro2 columns are in chars)
pub fn line_starts(text: &str) -> Vec<usize> {
    let mut v = vec![0];
    for (i, b) in text.bytes().enumerate() {
        if b == b'\n' {
            v.push(i + 1);
        }
    }
    v
}

pub fn offset(text: &str, ls: &[usize], lc: LineColumn) -> usize {
    let start = ls[lc.line - 1];
    let rest = &text[start..];
    let mut it = rest.char_indices();
    match it.nth(lc.column) {
        Some((i, _)) => start + i,
        None => text.len(),
    }
}

pub fn range(text: &str, ls: &[usize], sp: Span) -> (usize, usize) {
    (offset(text, ls, sp.start()), offset(text, ls, sp.end()))
}

pub fn text_of<'a, T: Spanned>(text: &'a str, ls: &[usize], t: &T) -> &'a str {
    let (a, b) = range(text, ls, t.span());
    &text[a..b]
}

/// `exec` is a keyword of the verifier's dialect: an identifier of that name becomes `exec_`
fn rename_keyword(text: &str) -> String {
    let b = text.as_bytes();
    let word = |c: u8| c.is_ascii_alphanumeric() || c == b'_';
    let mut o = String::with_capacity(text.len());
    let mut i = 0;
    while let Some(k) = text[i..].find("exec") {
        let (a, e) = (i + k, i + k + 4);
        o.push_str(&text[i..e]);
        if (a == 0 || !word(b[a - 1])) && (e == b.len() || !word(b[e])) {
            o.push('_');
        }
        i = e;
    }
    o.push_str(&text[i..]);
    o
}

impl SrcFile {
    pub fn parse(path: &str, text: String) -> R<SrcFile> {
        let text = rename_keyword(&text);
        let ast = syn::parse_file(&text).map_err(|e| format!("{}: cannot parse: {}", path, e))?;
        let text = strip_cfg(&ast, text);
        let ast = syn::parse_file(&text).map_err(|e| format!("{}: cannot parse: {}", path, e))?;
        let ls = line_starts(&text);
        Ok(SrcFile { path: path.to_string(), text, line_starts: ls, ast })
    }
    pub fn t<T: Spanned>(&self, t: &T) -> &str {
        text_of(&self.text, &self.line_starts, t)
    }
    pub fn r<T: Spanned>(&self, t: &T) -> (usize, usize) {
        range(&self.text, &self.line_starts, t.span())
    }
    pub fn line(&self, off: usize) -> usize {
        match self.line_starts.binary_search(&off) {
            Ok(i) => i + 1,
            Err(i) => i,
        }
    }
}

impl Ctx {
    pub fn file(&mut self, path: &str) -> R<Rc<SrcFile>> {
        if let Some(f) = self.files.get(path) {
            return Ok(f.clone());
        }
        let p = self.repo.join(path);
        let text = std::fs::read_to_string(&p).map_err(|e| format!("lost anchor: file {}: {}", path, e))?;
        let f = Rc::new(SrcFile::parse(path, text)?);
        self.files.insert(path.to_string(), f.clone());
        Ok(f)
    }
}

/// Statements under `#[cfg(feature = "std")]` are kept, those under `#[cfg(not(feature = "std"))]` blanked (as in the default build).
fn strip_cfg(ast: &syn::File, text: String) -> String {
    struct V<'a> {
        text: &'a str,
        ls: Vec<usize>,
        cut: Vec<(usize, usize)>,
    }
    impl<'ast> syn::visit::Visit<'ast> for V<'_> {
        fn visit_stmt(&mut self, s: &'ast syn::Stmt) {
            let (a, b) = range(self.text, &self.ls, s.span());
            if self.text[a..b].starts_with("#[cfg(feature = \"std\")]") {
                self.cut.push((a, a + "#[cfg(feature = \"std\")]".len()));
            } else if self.text[a..b].starts_with("#[cfg(not(feature = \"std\"))]") {
                self.cut.push((a, b));
                return;
            }
            syn::visit::visit_stmt(self, s);
        }
    }
    let mut v = V { text: &text, ls: line_starts(&text), cut: vec![] };
    syn::visit::Visit::visit_file(&mut v, ast);
    let cut = v.cut;
    let mut by = text.into_bytes();
    for (a, b) in cut {
        for x in &mut by[a..b] {
            if *x != b'\n' {
                *x = b' ';
            }
        }
    }
    String::from_utf8(by).expect("blanking keeps utf-8")
}

/// Structs and impls declared inside function bodies.
fn nested(it: &syn::Item, out: &mut Vec<syn::Item>) {
    struct V<'a>(&'a mut Vec<syn::Item>);
    impl<'ast> syn::visit::Visit<'ast> for V<'_> {
        fn visit_stmt(&mut self, s: &'ast syn::Stmt) {
            if let syn::Stmt::Item(i @ (syn::Item::Struct(_) | syn::Item::Impl(_))) = s {
                self.0.push(i.clone());
            }
            syn::visit::visit_stmt(self, s);
        }
    }
    syn::visit::Visit::visit_item(&mut V(out), it);
}

/// All items of a file, flattened through inline modules (tests excluded) and simple item macros.
pub fn items(f: &syn::File) -> Vec<syn::Item> {
    let mut out = vec![];
    fn go(v: &[syn::Item], out: &mut Vec<syn::Item>) {
        for it in v {
            match it {
                syn::Item::Mod(m) => {
                    if let Some((_, its)) = &m.content {
                        if m.ident != "tests" && m.ident != "test" {
                            go(its, out);
                        }
                    }
                }
                syn::Item::Macro(m) => {
                    let n = m.mac.path.segments.last().unwrap().ident.to_string();
                    if n == "pin_project" || n == "cfg_target_has_atomic" {
                        if let Ok(file) = syn::parse2::<syn::File>(m.mac.tokens.clone()) {
                            if n == "pin_project" {
                                out.push(it.clone());
                            } else {
                                go(&file.items, out);
                            }
                            continue;
                        }
                    }
                    out.push(it.clone());
                }
                _ => out.push(it.clone()),
            }
        }
    }
    go(&f.items, &mut out);
    let mut inner = vec![];
    for it in &out {
        if let syn::Item::Fn(_) | syn::Item::Impl(_) = it {
            nested(it, &mut inner);
        }
    }
    out.extend(inner);
    out
}

pub fn type_name(t: &syn::Type) -> Option<String> {
    match t {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()),
        syn::Type::Reference(r) => type_name(&r.elem).map(|n| format!("&{}", n)),
        syn::Type::Tuple(t) if t.elems.is_empty() => Some("()".into()),
        _ => None,
    }
}
