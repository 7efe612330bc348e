use quote::ToTokens;
use crate::rewrite::{self, Env, Helper};
use crate::source::{items, line_starts, range, type_name, SrcFile};
use crate::{structs, Ctx, FnMeta, R};
use std::collections::BTreeMap;
use std::rc::Rc;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

pub const HEAD: &str = "#![feature(arbitrary_self_types)]\n#![allow(non_snake_case, unused_imports, unused_macros, unused_variables, unused_mut, dead_code, unused_parens, unused_braces, unused_assignments, unreachable_code, non_camel_case_types, path_statements, unused_must_use, unused_labels, unused_unsafe, unreachable_patterns, private_interfaces, irrefutable_let_patterns)]\n";
pub const TAIL: &str = "\nfn main() {}\n";

#[derive(Default, Clone)]
pub struct FnSpec {
    pub name: String,
    pub ret: Option<String>,
    pub attrs: Vec<String>,
    pub sections: BTreeMap<String, String>,
    pub anchors: Vec<(bool, String, String)>, // (after?, pattern, text)
    pub panic_allow: bool,
    pub breakreturn: bool,
    pub kinds: Vec<String>,
    pub tries: Vec<String>,
    pub substs: Vec<(String, String)>,
    pub dropguards: Vec<String>,
    pub postsubsts: Vec<(String, String)>,
    pub noauto: bool,
    pub tracked: Vec<(String, String)>,
    pub guards: Vec<(String, String)>,
    pub emit_as: Option<String>,
    pub extra_params: Option<String>,
    pub locals: Vec<(String, String)>,
    pub nowhilelet: bool,
    pub closurearg: Option<String>, // CALLEE => (PARAMS) -> RET: the contract is on the closure this function passes to CALLEE
}

struct ImplSpec {
    header: String, // "Stream for Filter" | "Filter"
    raw: String,
    fns: Vec<FnSpec>,
    drop_bounds: Vec<String>,
    header_override: Option<String>,
    noassoc: bool,
}

pub fn process(cx: &mut Ctx, unit: &str) -> R<()> {
    if !cx.included.insert(unit.to_string()) {
        return Ok(());
    }
    let p = cx.specs.join(format!("{}.rs", unit));
    let text = std::fs::read_to_string(&p).map_err(|e| format!("spec {}: {}", p.display(), e))?;
    let mut file: Option<Rc<SrcFile>> = None;
    let lines: Vec<&str> = text.lines().collect();
    let mut i = 0;
    // names under contract in this unit (helpers not listed are inlined)
    let mut listed: Vec<String> = vec![];
    let mut curf = String::new();
    for l in &lines {
        if let Some(d) = directive(l) {
            if let Some(r) = d.strip_prefix("file ") {
                curf = r.trim().to_string();
            }
            if let Some(r) = d.strip_prefix("fn ") {
                let n = r.split_whitespace().next().unwrap().to_string();
                cx.listed.insert((curf.clone(), n.clone()));
                listed.push(n);
            }
        }
    }
    while i < lines.len() {
        let l = lines[i];
        if let Some(d) = directive(l) {
            let (cmd, arg) = match d.split_once(' ') {
                Some((a, b)) => (a, b.trim()),
                None => (d, ""),
            };
            match cmd {
                "include" => process(cx, arg)?,
                "bcast" => cx.bcast = if arg.is_empty() { None } else { Some(arg.to_string()) },
                // `trackall a b c => TOKEN`: the named methods take the ghost token; `guardall`: and return a guard
                "trackall" | "guardall" => {
                    let (a, b) = arg.split_once("=>").ok_or("trackall needs =>")?;
                    for n in a.split_whitespace() {
                        cx.tracked.push((n.to_string(), b.trim().to_string()));
                        if cmd == "guardall" {
                            cx.guards.push((n.to_string(), b.trim().to_string()));
                        }
                    }
                }
                "heap" => {
                    let (a, b) = arg.split_once("=>").ok_or("heap needs =>")?;
                    for n in a.split_whitespace() {
                        cx.heap.push((n.to_string(), b.trim().to_string()));
                    }
                }
                "substall" => {
                    let (a, b) = arg.split_once("=>>").ok_or("substall needs =>>")?;
                    cx.substs.push((a.trim().to_string(), b.trim().to_string()));
                }
                "vcast" => cx.vcast = true,
                "indexall" => cx.indexall = Some(arg.trim_start_matches("=>").trim().to_string()),
                "untrack" => {
                    cx.substs.clear();
                    cx.vcast = false;
                    cx.indexall = None;
                    cx.heap.clear();
                    cx.tracked.clear();
                    cx.guards.clear();
                }
                "file" => file = Some(cx.file(arg)?),
                "struct" => {
                    let mut it = arg.split_whitespace().map(|s| s.to_string());
                    let name = it.next().unwrap();
                    let opts: Vec<String> = it.collect();
                    let f = file.clone().ok_or("no //@ file")?;
                    structs::emit(cx, &f, &name, &opts)?;
                }
                "const" => {
                    let f = file.clone().ok_or("no //@ file")?;
                    emit_const(cx, &f, arg)?;
                }
                "fn" => {
                    let f = file.clone().ok_or("no //@ file")?;
                    let (spec, ni) = parse_fn(&lines, i)?;
                    i = ni;
                    emit_free_fn(cx, &f, &spec, &listed)?;
                }
                "impl" => {
                    let f = file.clone().ok_or("no //@ file")?;
                    let (spec, ni) = parse_impl(&lines, i)?;
                    i = ni;
                    emit_impl(cx, &f, &spec, &listed)?;
                }
                "note" => cx.notes.push(format!("{}: {}", unit, arg)),
                _ => return Err(format!("{}: bad directive {}", unit, d)),
            }
        } else {
            cx.out.push_str(l);
            cx.out.push('\n');
        }
        i += 1;
    }
    Ok(())
}

fn directive(l: &str) -> Option<&str> {
    l.trim_start().strip_prefix("//@ ").map(|s| s.trim()).or_else(|| l.trim_start().strip_prefix("//@").map(|s| s.trim()))
}

fn parse_fn(lines: &[&str], start: usize) -> R<(FnSpec, usize)> {
    let d = directive(lines[start]).unwrap();
    let mut it = d.split_whitespace();
    it.next();
    let mut s = FnSpec { name: it.next().unwrap().to_string(), ..Default::default() };
    let rest: Vec<&str> = it.collect();
    if rest.get(0) == Some(&"->") {
        s.ret = rest.get(1).map(|x| x.to_string());
    }
    let mut sec = "clauses".to_string();
    let mut anchor: Option<(bool, String, String)> = None;
    let mut i = start + 1;
    while i < lines.len() {
        if let Some(d) = directive(lines[i]) {
            if let Some(a) = anchor.take() {
                s.anchors.push(a);
            }
            let (cmd, arg) = match d.split_once(' ') {
                Some((a, b)) => (a, b.trim()),
                None => (d, ""),
            };
            match cmd {
                "endfn" => return Ok((s, i)),
                "attr" => s.attrs.push(arg.to_string()),
                "entry" => sec = "entry".into(),
                "tail" => sec = "tail".into(),
                "clauses" => sec = "clauses".into(),
                "loop" => sec = format!("loop {}", arg),
                "loopentry" => sec = format!("loopentry {}", arg),
                "loopend" => sec = format!("loopend {}", arg),
                "afterloop" => sec = format!("afterloop {}", arg),
                "beforeloop" => sec = format!("beforeloop {}", arg),
                "after" => anchor = Some((true, squash(arg), String::new())),
                "before" => anchor = Some((false, squash(arg), String::new())),
                "panics" => s.panic_allow = true,
                "breakreturn" => s.breakreturn = true,
                "kinds" => s.kinds = arg.split(',').map(|x| x.trim().to_string()).collect(),
                "tries" => s.tries = arg.split(',').map(|x| x.trim().to_string()).collect(),
                "noauto" => s.noauto = true,
                "dropguard" => s.dropguards.push(arg.to_string()),
                "nowhilelet" => s.nowhilelet = true,
                "closurearg" => s.closurearg = Some(arg.to_string()),
                "emit_as" => s.emit_as = Some(arg.to_string()),
                "params" => s.extra_params = Some(arg.to_string()),
                "closure" => {
                    let (a, b) = arg.split_once(' ').ok_or("closure NAME KIND")?;
                    s.locals.push((a.to_string(), b.trim().to_string()));
                }
                "tracked" => {
                    let (a, b) = arg.split_once("=>").ok_or("tracked needs =>")?;
                    s.tracked.push((a.trim().to_string(), b.trim().to_string()));
                }
                "guard" => {
                    let (a, b) = arg.split_once("=>").ok_or("guard needs =>")?;
                    s.guards.push((a.trim().to_string(), b.trim().to_string()));
                    s.tracked.push((a.trim().to_string(), b.trim().to_string()));
                }
                "postsubst" => {
                    let (a, b) = arg.split_once("=>>").ok_or("postsubst needs =>>")?;
                    s.postsubsts.push((a.trim().to_string(), b.trim().to_string()));
                }
                "subst" => {
                    let (a, b) = arg.split_once("=>>").ok_or("subst needs =>>")?;
                    s.substs.push((a.trim().to_string(), b.trim().to_string()));
                }
                _ => return Err(format!("bad fn directive {}", d)),
            }
        } else if let Some(a) = &mut anchor {
            a.2.push_str(lines[i]);
            a.2.push('\n');
        } else {
            let e = s.sections.entry(sec.clone()).or_default();
            e.push_str(lines[i]);
            e.push('\n');
        }
        i += 1;
    }
    Err(format!("fn {} not closed by endfn", s.name))
}

fn parse_impl(lines: &[&str], start: usize) -> R<(ImplSpec, usize)> {
    let d = directive(lines[start]).unwrap();
    let mut s = ImplSpec { header: d["impl".len()..].trim().to_string(), raw: String::new(), fns: vec![], drop_bounds: vec![], header_override: None, noassoc: false };
    let mut i = start + 1;
    while i < lines.len() {
        if let Some(d) = directive(lines[i]) {
            if d == "endimpl" {
                return Ok((s, i));
            } else if d.starts_with("fn ") {
                let (f, ni) = parse_fn(lines, i)?;
                s.fns.push(f);
                i = ni;
            } else if let Some(r) = d.strip_prefix("dropbound ") {
                s.drop_bounds.push(r.trim().to_string());
            } else if let Some(r) = d.strip_prefix("header ") {
                s.header_override = Some(r.trim().to_string());
            } else if d == "noassoc" {
                s.noassoc = true;
            } else {
                return Err(format!("bad impl directive {}", d));
            }
        } else {
            s.raw.push_str(lines[i]);
            s.raw.push('\n');
        }
        i += 1;
    }
    Err("impl not closed".into())
}

pub fn squash(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

fn emit_const(cx: &mut Ctx, f: &Rc<SrcFile>, name: &str) -> R<()> {
    for it in items(&f.ast) {
        if let syn::Item::Const(c) = it {
            if c.ident == name {
                let t = f.t(&c);
                let k = t.find("const").unwrap();
                cx.out.push_str(&format!("pub {}\n", rewrite::simplify_types(&t[k..])));
                return Ok(());
            }
        }
    }
    Err(format!("lost anchor: const {} in {}", name, f.path))
}

/// expand `name!(args)` inside an impl using the macro_rules definition found in futures-util/src/lib.rs
fn expand_impl_macro(cx: &mut Ctx, f: &Rc<SrcFile>, m: &syn::ImplItemMacro) -> R<Option<(String, usize)>> {
    let name = m.mac.path.segments.last().unwrap().ident.to_string();
    let crate_dir = f.path.split('/').next().unwrap().to_string();
    let mut cands: Vec<Rc<SrcFile>> = vec![f.clone()];
    if let Ok(l) = cx.file(&format!("{}/src/lib.rs", crate_dir)) {
        cands.push(l);
    }
    for lf in cands {
        for it in items(&lf.ast) {
            if let syn::Item::Macro(mm) = &it {
                if mm.ident.as_ref().map(|x| x == &name).unwrap_or(false) {
                    // first arm: (pattern) => { body }
                    let mut toks = mm.mac.tokens.clone().into_iter();
                    let pat = match toks.next() {
                        Some(proc_macro2::TokenTree::Group(g)) => g,
                        _ => return Ok(None),
                    };
                    toks.next();
                    toks.next();
                    let body = match toks.next() {
                        Some(proc_macro2::TokenTree::Group(g)) => g,
                        _ => return Ok(None),
                    };
                    let (a, b) = lf.r(&body);
                    let btext = lf.text[a + 1..b - 1].to_string();
                    let ptext = pat.to_string();
                    let params: Vec<String> = rewrite::split_top(ptext.trim().trim_start_matches('(').trim_end_matches(')'))
                        .iter()
                        .map(|p| p.trim().trim_start_matches('$').split(':').next().unwrap().trim().to_string())
                        .collect();
                    let atext = if m.mac.tokens.is_empty() {
                        String::new()
                    } else {
                        let (x, y) = range(&f.text, &f.line_starts, m.mac.tokens.span());
                        f.text[x..y].to_string()
                    };
                    let args = rewrite::split_top(&atext);
                    let mut t = btext;
                    for (p, a) in params.iter().zip(args.iter()) {
                        t = t.replace(&format!("${}", p), a.trim());
                    }
                    return Ok(Some((t, f.line(f.r(m).0))));
                }
            }
        }
    }
    Ok(None)
}

fn strip_leading_attrs(f: &SrcFile, attrs: &[syn::Attribute], start: usize) -> usize {
    let mut s = start;
    for a in attrs {
        let (_, e) = f.r(a);
        if e > s {
            s = e;
        }
    }
    s
}

fn fn_text(f: &SrcFile, it: &syn::ImplItemFn) -> (String, usize) {
    let (a, b) = f.r(it);
    let s = strip_leading_attrs(f, &it.attrs, a);
    let t = f.text[s..b].trim_start();
    let off = b - t.len();
    (t.to_string(), f.line(off))
}

fn all_fn_helpers(cx: &mut Ctx, f: &Rc<SrcFile>, listed: &[String], self_name: Option<&str>) -> Vec<Helper> {
    let mut v = vec![];
    for it in items(&f.ast) {
        match it {
            syn::Item::Fn(x) => {
                let n = x.sig.ident.to_string();
                if !listed.contains(&n) && !cx.listed.contains(&(f.path.clone(), n.clone())) {
                    let (a, b) = f.r(&x);
                    let s = strip_leading_attrs(f, &x.attrs, a);
                    v.push(Helper { name: n, text: rewrite::simplify_types(f.text[s..b].trim_start()), method: false });
                }
            }
            syn::Item::Impl(im) => {
                if im.trait_.is_none() && type_name(&im.self_ty).as_deref() == self_name && self_name.is_some() {
                    for ii in &im.items {
                        if let syn::ImplItem::Fn(x) = ii {
                            let n = x.sig.ident.to_string();
                            if !listed.contains(&n) && !cx.listed.contains(&(f.path.clone(), n.clone())) {
                                let (t, _) = fn_text(f, x);
                                v.push(Helper { name: n, text: rewrite::simplify_types(&t), method: x.sig.receiver().is_some() });
                            }
                        }
                    }
                }
            }
            _ => {}
        }
    }
    v
}

fn field_closures(f: &SrcFile, closures: &[(String, String, usize)]) -> Vec<(String, String, usize)> {
    let mut v = vec![];
    let mut add = |fs: &syn::Fields| {
        for fl in fs.iter() {
            if let (Some(id), Some(tn)) = (&fl.ident, type_name(&fl.ty)) {
                if let Some(c) = closures.iter().find(|c| c.0 == tn) {
                    v.push((id.to_string(), c.1.clone(), c.2));
                }
            }
        }
    };
    for it in items(&f.ast) {
        match it {
            syn::Item::Struct(s) => add(&s.fields),
            syn::Item::Macro(m) => {
                if let Ok(file) = syn::parse2::<syn::File>(m.mac.tokens.clone()) {
                    for it in file.items {
                        if let syn::Item::Struct(s) = it {
                            add(&s.fields);
                        }
                    }
                }
            }
            _ => {}
        }
    }
    v
}

fn emit_impl(cx: &mut Ctx, f: &Rc<SrcFile>, spec: &ImplSpec, listed: &[String]) -> R<()> {
    let (tr, ty) = match spec.header.split_once(" for ") {
        Some((a, b)) => (Some(a.trim().to_string()), b.trim().to_string()),
        None => (None, spec.header.trim().to_string()),
    };
    // candidates
    let mut cands = vec![];
    for it in items(&f.ast) {
        if let syn::Item::Impl(im) = it {
            // `impl Tr for Box<S>`: the full type, written out
            let full = ty.contains('<') || ty.contains('[') || ty.starts_with("&mut ");
            let nosp = |x: String| x.split_whitespace().collect::<String>();
            if full && nosp(im.self_ty.to_token_stream().to_string()) != nosp(ty.clone()) {
                continue;
            }
            if !full && type_name(&im.self_ty).as_deref() != Some(&ty) {
                continue;
            }
            let t = im.trait_.as_ref().map(|x| x.1.segments.last().unwrap().ident.to_string());
            if t == tr {
                cands.push(im);
            }
        }
    }
    if cands.is_empty() {
        return Err(format!("lost anchor: impl {} in {}", spec.header, f.path));
    }
    let mut done_raw = false;
    let mut remaining: Vec<FnSpec> = spec.fns.clone();
    let ncand = cands.len();
    for (ci, im) in cands.iter().enumerate() {
        // expanded macro items
        let mut expanded: Vec<(String, usize, syn::ImplItemFn)> = vec![];
        for ii in &im.items {
            match ii {
                syn::ImplItem::Fn(x) => {
                    let (t, l) = fn_text(f, x);
                    expanded.push((t, l, x.clone()));
                }
                syn::ImplItem::Macro(m) => {
                    if let Some((t, l)) = expand_impl_macro(cx, f, m)? {
                        let wrapped = format!("impl X {{ {} }}", t);
                        if let Ok(sf) = SrcFile::parse(&f.path, wrapped) {
                            if let syn::Item::Impl(i2) = &sf.ast.items[0] {
                                for jj in &i2.items {
                                    if let syn::ImplItem::Fn(x) = jj {
                                        let (t, _) = fn_text(&sf, x);
                                        expanded.push((t, l, x.clone()));
                                    }
                                }
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        let here: Vec<(FnSpec, String, usize)> = remaining
            .iter()
            .filter_map(|s| expanded.iter().find(|e| e.2.sig.ident == s.name).map(|e| (s.clone(), e.0.clone(), e.1)))
            .collect();
        let is_last = ci + 1 == ncand;
        if here.is_empty() && !(spec.fns.is_empty() && !done_raw) && !(tr.is_some() && !done_raw && is_last) {
            continue;
        }
        remaining.retain(|s| !here.iter().any(|h| h.0.name == s.name));
        // header
        let (ia, _) = f.r(im);
        let s0 = strip_leading_attrs(f, &im.attrs, ia);
        let bo = range(&f.text, &f.line_starts, im.brace_token.span.open()).0;
        let mut head = f.text[s0..bo].trim().to_string();
        let closures = rewrite::closure_params(&head);
        head = rewrite::fn_bounds(&rewrite::simplify_types(&head))?;
        for d in &spec.drop_bounds {
            if let Some((a, b)) = d.split_once("=>>") {
                head = head.replace(a.trim(), b.trim());
            } else {
                head = head.replace(d.as_str(), "");
            }
        }
        if let Some(h) = &spec.header_override {
            head = h.clone();
        }
        cx.out.push_str(&format!("// extracted from {}:{}\n{} {{\n", f.path, f.line(s0), head));
        for ii in &im.items {
            if let syn::ImplItem::Type(t) = ii {
                if !spec.noassoc {
                    cx.out.push_str(&format!("    {}\n", rewrite::simplify_types(f.t(t))));
                }
            }
        }
        if !done_raw {
            cx.out.push_str(&spec.raw);
            done_raw = true;
        }
        let helpers = all_fn_helpers(cx, f, listed, Some(&ty));
        let generic_header = f.text[s0..bo].to_string();
        let _ = generic_header;
        for (s, mut t, line) in here {
            if spec.noassoc {
                // the impl header was replaced by an inherent one: associated types are spelled out
                for ii in &im.items {
                    if let syn::ImplItem::Type(ty) = ii {
                        let k = format!("Self::{}", ty.ident);
                        if t.contains(&k) && !s.substs.iter().any(|x| x.0.contains(&k)) {
                            t = t.replace(&k, &rewrite::simplify_types(f.t(&ty.ty)));
                        }
                    }
                }
            }
            let mut env = Env { closures: closures.clone(), ..Default::default() };
            env.fields = field_closures(f, &closures);
            env.helpers = helpers.clone();
            let inherent = tr.is_none() || spec.header_override.as_ref().map(|h| !h.contains(" for ")).unwrap_or(false);
            emit_fn(cx, f, &s, &t, line, env, inherent, &spec.header)?;
        }
        cx.out.push_str("}\n");
        if remaining.is_empty() {
            break;
        }
    }
    if let Some(r) = remaining.first() {
        return Err(format!("lost anchor: fn {} in impl {} of {}", r.name, spec.header, f.path));
    }
    Ok(())
}

fn emit_free_fn(cx: &mut Ctx, f: &Rc<SrcFile>, spec: &FnSpec, listed: &[String]) -> R<()> {
    for it in items(&f.ast) {
        if let syn::Item::Fn(x) = it {
            if x.sig.ident == spec.name {
                let (a, b) = f.r(&x);
                let s = strip_leading_attrs(f, &x.attrs, a);
                let t = f.text[s..b].trim_start().to_string();
                let mut env = Env::default();
                env.helpers = all_fn_helpers(cx, f, listed, None);
                env.helpers.retain(|h| h.name != spec.name);
                let line = f.line(s + (f.text[s..b].len() - t.len()));
                return emit_fn(cx, f, spec, &t, line, env, true, "");
            }
        }
    }
    Err(format!("lost anchor: fn {} in {}", spec.name, f.path))
}

struct LoopIns {
    ins: Vec<(usize, usize, String)>, // (pos, order, text)
    n: usize,
    text: String,
    ls: Vec<usize>,
    sections: BTreeMap<String, String>,
    auto: Vec<String>,
    scope: Vec<String>,
    anchors: Vec<(bool, String, String, bool)>,
    noauto: bool,
    projn: usize,
}

impl LoopIns {
    fn off<T: Spanned>(&self, t: &T) -> (usize, usize) {
        range(&self.text, &self.ls, t.span())
    }
    fn do_loop(&mut self, whole: (usize, usize), body: &syn::Block) -> usize {
        let k = self.n;
        self.n += 1;
        let open = range(&self.text, &self.ls, body.brace_token.span.open());
        let close = range(&self.text, &self.ls, body.brace_token.span.close());
        let mut inv = String::new();
        let user = self.sections.get(&format!("loop {}", k)).cloned().unwrap_or_default();
        if !self.noauto && (!self.auto.is_empty() || !self.scope.is_empty()) {
            let mut a: Vec<String> = self.auto.clone();
            a.extend(self.scope.iter().cloned());
            if user.trim_start().starts_with("invariant_except_break") {
                let p = user.find("\n    invariant\n").expect("invariant after invariant_except_break");
                inv = format!("\n{}\n    invariant\n        {},\n{}", &user[..p], a.join(",\n        "), &user[p + "\n    invariant\n".len()..]);
            } else if user.trim_start().starts_with("invariant") {
                let u = user.trim_start()["invariant".len()..].to_string();
                inv = format!("\n    invariant\n        {},\n{}", a.join(",\n        "), u);
            } else {
                inv = format!("\n    invariant\n        {},\n{}", a.join(",\n        "), user);
            }
        } else if !user.is_empty() {
            inv = format!("\n{}", user);
        }
        self.ins.push((open.0, 0, inv));
        if let Some(s) = self.sections.get(&format!("loopentry {}", k)) {
            self.ins.push((open.1, 1, format!("\n{}", s)));
        }
        if let Some(s) = self.sections.get(&format!("loopend {}", k)) {
            self.ins.push((close.0, 2, format!("\n{}", s)));
        }
        if let Some(s) = self.sections.get(&format!("beforeloop {}", k)) {
            self.ins.push((whole.0, 1, format!("{{}}\n{}", s).replacen("{}", "", 1)));
        }
        if let Some(s) = self.sections.get(&format!("afterloop {}", k)) {
            self.ins.push((whole.1, 1, format!("\n{}", s)));
        }
        k
    }
}

impl<'ast> Visit<'ast> for LoopIns {
    fn visit_block(&mut self, b: &'ast syn::Block) {
        let depth = self.scope.len();
        visit::visit_block(self, b);
        self.scope.truncate(depth);
    }
    fn visit_stmt(&mut self, s: &'ast syn::Stmt) {
        let (a, b) = self.off(s);
        let st = squash(&self.text[a..b]);
        visit::visit_stmt(self, s);
        // anchors: innermost statement that contains the pattern wins; only simple statements
        let simple = !st.contains('{') || matches!(s, syn::Stmt::Local(_));
        for an in self.anchors.iter_mut() {
            if !an.3 && simple && st.contains(&an.1) {
                an.3 = true;
                if an.0 {
                    self.ins.push((b, 5, format!("\n{}", an.2)));
                } else {
                    self.ins.push((a, 5, format!("{}\n", an.2)));
                }
            }
        }
        if let syn::Stmt::Local(l) = s {
            if let (syn::Pat::Ident(id), Some(init)) = (&l.pat, &l.init) {
                let (x, y) = self.off(&init.expr);
                let it = squash(&self.text[x..y]);
                if it == "&mut*self" || it == "self.get_mut()" || it == "self.as_mut().get_mut()" || it == "Pin::get_mut(self)" {
                    // a reborrow of the receiver: what it finally holds is fixed by the reborrow
                    let v = id.ident.to_string();
                    let g = format!("__{}{}", v, self.projn);
                    self.projn += 1;
                    self.ins.push((b, 0, format!(" let ghost {} = {};", g, v)));
                    self.scope.push(format!("*final({}) == *final({})", v, g));
                    self.auto.retain(|a| !a.contains("self.ptr"));
                }
                if it.ends_with(".project()") {
                    let v = id.ident.to_string();
                    let g = format!("__{}{}", v, self.projn);
                    self.projn += 1;
                    self.ins.push((b, 0, format!(" let ghost {} = {};", g, v)));
                    self.scope.push(format!("{}.__ff(&{})", v, g));
                    if it.starts_with("self.as_mut()") {
                        // `self` is mutably borrowed while the projection lives: invariants cannot mention it
                        self.auto.retain(|a| !a.contains("self.ptr"));
                    }
                }
            }
        }
    }
    fn visit_expr_loop(&mut self, l: &'ast syn::ExprLoop) {
        let w = self.off(l);
        self.do_loop(w, &l.body);
        visit::visit_expr_loop(self, l);
    }
    fn visit_expr_while(&mut self, l: &'ast syn::ExprWhile) {
        let w = self.off(l);
        self.do_loop(w, &l.body);
        visit::visit_expr_while(self, l);
    }
    fn visit_expr_for_loop(&mut self, l: &'ast syn::ExprForLoop) {
        let w = self.off(l);
        self.do_loop(w, &l.body);
        visit::visit_expr_for_loop(self, l);
    }
}

/// `CALLEE(|..| BODY)` as the whole of a function (after `let x = pin!(x);` statements): the closure as a function of its own
fn closure_arg(text: &str, name: &str, arg: &str) -> R<String> {
    let (callee, sig) = arg.split_once("=>").ok_or("closurearg needs =>")?;
    let f0: syn::ImplItemFn = syn::parse_str(text).map_err(|e| format!("fn {} does not parse: {}", name, e))?;
    let bad = || format!("lost anchor: fn {} does not consist of a call of {} with a closure", name, callee.trim());
    let n = f0.block.stmts.len();
    for (i, st) in f0.block.stmts.iter().enumerate() {
        if i + 1 < n {
            match st {
                syn::Stmt::Local(l) => match l.init.as_ref().map(|x| &*x.expr) {
                    Some(syn::Expr::Macro(m)) if m.mac.path.is_ident("pin") => {}
                    _ => return Err(bad()),
                },
                _ => return Err(bad()),
            }
        } else if let syn::Stmt::Expr(syn::Expr::Call(c), _) = st {
            let ls = line_starts(text);
            let (a, b) = range(text, &ls, c.func.span());
            if text[a..b].trim() != callee.trim() || c.args.len() != 1 {
                return Err(bad());
            }
            if let syn::Expr::Closure(cl) = &c.args[0] {
                let (a, b) = range(text, &ls, cl.body.span());
                let body = &text[a..b];
                let pad = "\n".repeat(text[..a].matches('\n').count());
                let body = if matches!(&*cl.body, syn::Expr::Block(_)) { body.to_string() } else { format!("{{ {} }}", body) };
                return Ok(format!("pub fn {}{}{}{}", name, sig.trim(), pad, body));
            }
        }
    }
    Err(bad())
}

/// `STATIC.with(|x| BODY)` of a thread-local as the tail of a function, or without return: `{ let x = vtls_STATIC(); BODY }`
fn tls_with(text: &str, name: &str) -> R<String> {
    struct V(Vec<(proc_macro2::Span, String, String, proc_macro2::Span)>, Option<proc_macro2::Span>, Option<String>);
    impl<'ast> Visit<'ast> for V {
        fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
            if m.method == "with" && m.args.len() == 1 {
                if let (syn::Expr::Path(p), syn::Expr::Closure(c)) = (&*m.receiver, &m.args[0]) {
                    let st = p.path.segments.last().map(|x| x.ident.to_string()).unwrap_or_default();
                    if st.chars().all(|c| c.is_ascii_uppercase() || c == '_') && c.inputs.len() == 1 {
                        if let syn::Pat::Ident(id) = &c.inputs[0] {
                            self.0.push((m.span(), st, id.ident.to_string(), c.body.span()));
                            return;
                        }
                    }
                }
            }
            visit::visit_expr_method_call(self, m);
        }
    }
    if !text.contains(".with(") {
        return Ok(text.to_string());
    }
    let f0: syn::ImplItemFn = syn::parse_str(text).map_err(|e| format!("fn {} does not parse: {}", name, e))?;
    let mut v = V(vec![], None, None);
    v.visit_block(&f0.block);
    let ls = line_starts(text);
    let tail = f0.block.stmts.last().map(|s| range(text, &ls, s.span()));
    let mut t = text.to_string();
    for (sp, st, id, body) in v.0.iter().rev() {
        let (a, b) = range(text, &ls, *sp);
        let (x, y) = range(text, &ls, *body);
        let is_tail = tail.map_or(false, |r| r.0 == a);
        if !is_tail && text[x..y].contains("return") {
            return Err(format!("unsupported: return inside the closure of {}.with", st));
        }
        t = format!("{}{{ let {} = vtls_{}(); {} }}{}", &t[..a], id, st, &text[x..y], &t[b..]);
    }
    Ok(t)
}

/// macro_rules! of a file that have the single rule `($x:expr $(,)?) => { body }`
fn local_macros(f: &SrcFile) -> Vec<(String, String, String)> {
    use proc_macro2::TokenTree as T;
    let mut out = vec![];
    for it in &f.ast.items {
        let syn::Item::Macro(m) = it else { continue };
        let Some(id) = &m.ident else { continue };
        if !m.mac.path.is_ident("macro_rules") {
            continue;
        }
        let ts: Vec<T> = m.mac.tokens.clone().into_iter().collect();
        // ( matcher ) = > { body } [;]
        if ts.len() < 4 || ts.len() > 5 {
            continue;
        }
        let (T::Group(pat), T::Group(body)) = (&ts[0], &ts[3]) else { continue };
        let p: String = pat.stream().to_string().split_whitespace().collect();
        let Some(rest) = p.strip_prefix('$') else { continue };
        let Some((x, tail)) = rest.split_once(':') else { continue };
        if tail != "expr" && tail != "expr$(,)?" {
            continue;
        }
        let b = body.stream().to_string().replace("$ ", "$").replace("$crate :: task :: Poll", "Poll").replace("$crate::task::Poll", "Poll");
        out.push((id.to_string(), x.to_string(), b));
    }
    out
}

fn emit_fn(cx: &mut Ctx, f: &Rc<SrcFile>, spec: &FnSpec, text: &str, line: usize, mut env: Env, make_pub: bool, owner: &str) -> R<()> {
    let lifted;
    let text = match &spec.closurearg {
        Some(c) => {
            lifted = closure_arg(text, &spec.name, c)?;
            cx.notes.push(format!("{}::{}: the contract is on the closure it passes on", owner, spec.name));
            lifted.as_str()
        }
        None => {
            lifted = tls_with(text, &spec.name)?;
            lifted.as_str()
        }
    };
    env.panic_allow = spec.panic_allow;
    env.breakreturn = spec.breakreturn;
    env.kinds = spec.kinds.clone();
    env.tries = spec.tries.clone();
    env.substs = spec.substs.clone();
    env.substs.extend(cx.substs.iter().cloned());
    env.vcast = cx.vcast;
    env.indexall = cx.indexall.clone();
    env.dropguards = spec.dropguards.clone();
    env.postsubsts = spec.postsubsts.clone();
    env.tracked = spec.tracked.clone();
    env.tracked.extend(cx.tracked.iter().cloned());
    env.heap = cx.heap.clone();
    env.guards = spec.guards.clone();
    env.guards.extend(cx.guards.iter().cloned());
    env.nowhilelet = spec.nowhilelet;
    env.macros = local_macros(f);
    // a function is never inlined into itself
    env.helpers.retain(|h| h.name != spec.name);
    let own = rewrite::closure_params(text);
    for c in own {
        env.closures.push(c);
    }
    env.locals_closure = spec.locals.clone();
    // params typed by closure params are closure locals
    {
        let f0: syn::ImplItemFn = syn::parse_str(text).map_err(|e| format!("fn {} does not parse: {}", spec.name, e))?;
        for a in &f0.sig.inputs {
            if let syn::FnArg::Typed(t) = a {
                if let (syn::Pat::Ident(id), Some(tn)) = (&*t.pat, type_name(&t.ty)) {
                    let tn = tn.trim_start_matches('&').to_string();
                    if let Some(c) = env.closures.iter().find(|c| c.0 == tn) {
                        env.locals_closure.push((id.ident.to_string(), c.1.clone()));
                    }
                }
            }
        }
    }
    let (t, rules) = rewrite::rewrite_fn(text, &mut env)?;
    cx.kind_pos += env.kind_pos;
    let fi: syn::ImplItemFn = syn::parse_str(&t).map_err(|e| format!("internal: {}", e))?;
    let ls = line_starts(&t);
    let mut ins: Vec<(usize, usize, String)> = vec![];
    // signature
    let body = range(&t, &ls, fi.block.brace_token.span.open());
    if let syn::ReturnType::Type(_, ty) = &fi.sig.output {
        if let Some(r) = &spec.ret {
            let (a, b) = range(&t, &ls, ty.span());
            ins.push((a, 0, format!("({}: ", r)));
            ins.push((b, 0, ")".into()));
        }
    }
    if let Some(p) = &spec.extra_params {
        let (_, b) = range(&t, &ls, fi.sig.paren_token.span.close());
        ins.push((b - 1, 0, format!("{}{}", if fi.sig.inputs.is_empty() || fi.sig.inputs.trailing_punct() { "" } else { ", " }, p)));
    }
    if let Some(c) = spec.sections.get("clauses") {
        ins.push((body.0, 0, format!("\n{}", c)));
    }
    if let Some(c) = spec.sections.get("entry") {
        ins.push((body.1, 3, format!("\n{}", c)));
    }
    let mut auto = vec![];
    let mut entry_auto = String::new();
    for a in &fi.sig.inputs {
        match a {
            syn::FnArg::Typed(p) => {
                let (x, y) = range(&t, &ls, p.span());
                let s = squash(&t[x..y]);
                if s.starts_with("cx:&mutContext") {
                    auto.push("*cx == *old(cx)".to_string());
                } else if let Some((n, ty)) = s.split_once(':') {
                    if let (Some(n), true) = (n.strip_prefix("mut"), ty.starts_with("Pin<&")) {
                        entry_auto.push_str(&format!(" let ghost __{}0 = {};", n, n));
                        auto.push(format!("*final({}.ptr) == *final(__{}0.ptr)", n, n));
                    }
                }
            }
            syn::FnArg::Receiver(r) => {
                let (x, y) = range(&t, &ls, r.span());
                let s = squash(&t[x..y]);
                if s.starts_with("mutself:Pin<&mutSelf>") || s.starts_with("mutself:Pin<&'amutSelf>") {
                    entry_auto.push_str(" let ghost __self0 = self;");
                    auto.push("*final(self.ptr) == *final(__self0.ptr)".to_string());
                }
            }
        }
    }
    if cx.vacuity {
        ins.push((body.1, 9, " proof { assert(false); }".into()));
    }
    if let Some(g) = &cx.bcast {
        ins.push((body.1, 0, format!(" broadcast use {};", g)));
    }
    if !entry_auto.is_empty() {
        ins.push((body.1, 0, entry_auto));
    }
    let mut li = LoopIns {
        ins: vec![],
        n: 0,
        text: t.clone(),
        ls: ls.clone(),
        sections: spec.sections.clone(),
        auto,
        scope: vec![],
        anchors: spec.anchors.iter().map(|a| (a.0, a.1.clone(), a.2.clone(), false)).collect(),
        noauto: spec.noauto,
        projn: 0,
    };
    li.visit_block(&fi.block);
    if let Some(c) = spec.sections.get("tail") {
        let mut last = fi.block.stmts.last();
        // the tail of a function whose body is one unsafe block is the tail of that block
        while let Some(syn::Stmt::Expr(syn::Expr::Unsafe(u), None)) = last {
            last = u.block.stmts.last();
        }
        if let Some(last) = last {
            let (a, _) = range(&t, &ls, last.span());
            ins.push((a, 4, format!("{}\n", c)));
        }
    }
    let nloops = li.n;
    for (k, _) in &spec.sections {
        if let Some(n) = k.strip_prefix("loop ") {
            let n: usize = n.trim().parse().unwrap_or(0);
            if n >= nloops {
                cx.notes.push(format!("{}::{}: loop {} of the contract has no counterpart", owner, spec.name, n));
            }
        }
    }
    for a in &li.anchors {
        if !a.3 {
            cx.notes.push(format!("{}::{}: anchor `{}` of the contract has no counterpart", owner, spec.name, a.1));
        }
    }
    let nsec = spec.sections.keys().filter(|k| k.starts_with("loop ")).count();
    if nsec > 0 && nloops > nsec {
        cx.notes.push(format!("{}::{}: the code has {} loops, the contract {} - a loop has no counterpart", owner, spec.name, nloops, nsec));
    }
    ins.extend(li.ins);
    ins.sort_by(|a, b| (a.0, a.1).cmp(&(b.0, b.1)));
    let mut o = String::new();
    let mut pos = 0;
    for (p, _, s) in ins {
        o.push_str(&t[pos..p]);
        o.push_str(&s);
        pos = p;
    }
    o.push_str(&t[pos..]);
    // visibility: drop, then pub for inherent
    let mut o2 = strip_vis(&o);
    if make_pub {
        o2 = format!("pub {}", o2);
    }
    if let Some(n) = &spec.emit_as {
        o2 = o2.replacen(&format!("fn {}", spec.name), &format!("fn {}", n), 1);
    }
    let mut pre = String::new();
    pre.push_str(&format!("    // {}:{}\n", f.path, line));
    for a in &spec.attrs {
        pre.push_str(&format!("    {}\n", a));
    }
    if nloops > 0 {
        if !spec.attrs.iter().any(|a| a.contains("loop_isolation")) {
            pre.push_str("    #[verifier::loop_isolation(false)]\n");
        }
        if !spec.attrs.iter().any(|a| a.contains("decreases")) && !spec.sections.iter().any(|(k, v)| k.starts_with("loop ") && v.contains("decreases")) {
            pre.push_str("    #[verifier::exec_allows_no_decreases_clause]\n");
        }
    }
    cx.out.push_str(&pre);
    let first = cx.out.matches('\n').count() + 1;
    cx.out.push_str("    ");
    cx.out.push_str(&o2);
    cx.out.push('\n');
    let last = cx.out.matches('\n').count();
    cx.fns.push(FnMeta {
        name: if owner.is_empty() { spec.name.clone() } else { format!("<{}>::{}", owner, spec.name) },
        file: f.path.clone(),
        line,
        out_first: first,
        out_last: last,
        rewrites: rules,
    });
    Ok(())
}

fn strip_vis(s: &str) -> String {
    let t = s.trim_start();
    if let Some(r) = t.strip_prefix("pub(") {
        let c = r.find(')').unwrap();
        return r[c + 1..].trim_start().to_string();
    }
    if let Some(r) = t.strip_prefix("pub ") {
        return r.trim_start().to_string();
    }
    t.to_string()
}
