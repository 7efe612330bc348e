use crate::source::{items, SrcFile};
use crate::{Ctx, R};
use quote::ToTokens;
use std::rc::Rc;

pub enum Def {
    S(syn::ItemStruct),
    E(syn::ItemEnum),
}

pub struct Found {
    pub def: Def,
    pub pinned: bool,
}

/// find struct/enum NAME in the file, also inside pin_project!
pub fn find(f: &SrcFile, name: &str) -> R<Found> {
    for it in items(&f.ast) {
        match it {
            syn::Item::Struct(s) if s.ident == name => return Ok(Found { def: Def::S(s), pinned: has_pinproject(&[]) }),
            syn::Item::Enum(e) if e.ident == name => return Ok(Found { def: Def::E(e), pinned: false }),
            syn::Item::Macro(m) => {
                if m.mac.path.segments.last().unwrap().ident == "pin_project" {
                    if let Ok(file) = syn::parse2::<syn::File>(m.mac.tokens.clone()) {
                        for it in file.items {
                            match it {
                                syn::Item::Struct(s) if s.ident == name => return Ok(Found { def: Def::S(s), pinned: true }),
                                syn::Item::Enum(e) if e.ident == name => return Ok(Found { def: Def::E(e), pinned: true }),
                                _ => {}
                            }
                        }
                    }
                }
            }
            _ => {}
        }
    }
    Err(format!("lost anchor: type {} in {}", name, f.path))
}

fn has_pinproject(_a: &[syn::Attribute]) -> bool {
    false
}

fn is_pin(a: &[syn::Attribute]) -> bool {
    a.iter().any(|x| x.path().is_ident("pin"))
}

fn attr_name(attrs: &[syn::Attribute], key: &str) -> Option<String> {
    for a in attrs {
        if a.path().is_ident(key) {
            if let syn::Meta::NameValue(nv) = &a.meta {
                return Some(nv.value.to_token_stream().to_string());
            }
        }
    }
    None
}

pub struct Gen {
    pub decl: String,  // "St, Fut, F" with bounds (no angle brackets)
    pub args: String,  // "St, Fut, F"
    pub wher: String,  // "where ..." or ""
}

pub fn generics(f: &SrcFile, g: &syn::Generics) -> Gen {
    let mut d = vec![];
    let mut a = vec![];
    for p in &g.params {
        match p {
            syn::GenericParam::Type(t) => {
                let mut t2 = t.clone();
                t2.attrs.clear();
                t2.default = None;
                t2.eq_token = None;
                d.push(t2.to_token_stream().to_string());
                a.push(t.ident.to_string());
            }
            syn::GenericParam::Lifetime(l) => {
                d.push(l.to_token_stream().to_string());
                a.push(l.lifetime.to_string());
            }
            syn::GenericParam::Const(c) => {
                d.push(c.to_token_stream().to_string());
                a.push(c.ident.to_string());
            }
        }
    }
    let w = match &g.where_clause {
        Some(w) => f.t(w).to_string(),
        None => String::new(),
    };
    Gen { decl: d.join(", "), args: a.join(", "), wher: w }
}

fn br(s: &str) -> String {
    if s.is_empty() {
        String::new()
    } else {
        format!("<{}>", s)
    }
}
fn with_lt(s: &str) -> String {
    // lifetimes first: '__pin goes before everything
    if s.is_empty() {
        "<'__pin>".into()
    } else {
        format!("<'__pin, {}>", s)
    }
}

struct Fld {
    name: String, // field name or index
    ty: String,
    pin: bool,
}

fn fields(f: &SrcFile, fs: &syn::Fields) -> (bool, Vec<Fld>) {
    let mut v = vec![];
    let named = matches!(fs, syn::Fields::Named(_));
    for (i, fl) in fs.iter().enumerate() {
        let ty = crate::rewrite::simplify_types(&f.t(&fl.ty).to_string());
        v.push(Fld { name: fl.ident.as_ref().map(|x| x.to_string()).unwrap_or(i.to_string()), ty, pin: is_pin(&fl.attrs) });
    }
    (named, v)
}

pub fn emit(cx: &mut Ctx, f: &Rc<SrcFile>, name: &str, opts: &[String]) -> R<()> {
    let found = find(f, name)?;
    let noproj = opts.iter().any(|o| o == "noproj");
    let mut o = String::new();
    match &found.def {
        Def::S(s) => {
            let mut g = generics(f, &s.generics);
            g.wher = crate::rewrite::simplify_types(&g.wher);
            g.decl = crate::rewrite::simplify_types(&g.decl);
            if opts.iter().any(|o| o == "sized") {
                g.decl = g.decl.replace(": ? Sized", "").replace(": ?Sized", "");
            }
            if opts.iter().any(|o| o == "nobounds") {
                g.decl = g.args.clone();
                g.wher = String::new();
            }
            let (named, mut fl) = fields(f, &s.fields);
            for op in opts {
                if let Some(r) = op.strip_prefix("type:") {
                    // the field keeps its name; its type becomes the contracted type that plays this role
                    let (n, t) = r.split_once('=').ok_or("type:NAME=T")?;
                    let x = fl.iter_mut().find(|x| x.name == n).ok_or(format!("lost anchor: field {} of {}", n, name))?;
                    x.ty = t.to_string();
                }
            }
            o.push_str(&format!("// extracted from {}:{}\n", f.path, f.line(f.r(&s.ident).0)));
            if named {
                o.push_str(&format!("pub struct {}{} {} {{\n", name, br(&g.decl), g.wher));
                for x in &fl {
                    o.push_str(&format!("    pub {}: {},\n", x.name, x.ty));
                }
                o.push_str("}\n");
            } else if fl.is_empty() {
                o.push_str(&format!("pub struct {}{} {};\n", name, br(&g.decl), g.wher));
            } else {
                o.push_str(&format!(
                    "pub struct {}{}({}) {};\n",
                    name,
                    br(&g.decl),
                    fl.iter().map(|x| format!("pub {}", x.ty)).collect::<Vec<_>>().join(", "),
                    g.wher
                ));
            }
            if found.pinned && named && !noproj {
                let pname = attr_name(&s.attrs, "project").unwrap_or(format!("__{}Proj", name));
                o.push_str(&format!("pub struct {}{} {} {{\n", pname, with_lt(&g.decl), g.wher));
                for x in &fl {
                    if x.pin {
                        o.push_str(&format!("    pub {}: Pin<&'__pin mut ({})>,\n", x.name, x.ty));
                    } else {
                        o.push_str(&format!("    pub {}: &'__pin mut ({}),\n", x.name, x.ty));
                    }
                }
                o.push_str("}\n");
                // final-frame predicate
                o.push_str(&format!("impl{} {}{} {} {{\n", with_lt(&g.decl), pname, with_lt(&g.args), g.wher));
                o.push_str("    #[verifier::prophetic]\n    pub open spec fn __ff(&self, o: &Self) -> bool {\n");
                for x in &fl {
                    let p = if x.pin { ".ptr" } else { "" };
                    o.push_str(&format!("        &&& *final(self.{}{}) == *final(o.{}{})\n", x.name, p, x.name, p));
                }
                if fl.is_empty() {
                    o.push_str("true");
                }
                o.push_str("    }\n}\n");
                o.push_str(&format!("impl{} Pin<&'__pin mut {}{}> {} {{\n", with_lt(&g.decl), name, br(&g.args), g.wher));
                o.push_str(&format!("    pub fn project(self) -> (r: {}{})\n        ensures\n", pname, with_lt(&g.args)));
                for x in &fl {
                    let p = if x.pin { ".ptr" } else { "" };
                    o.push_str(&format!("            *r.{0}{1} == old(self.ptr).{0}, final(self.ptr).{0} == *final(r.{0}{1}),\n", x.name, p));
                }
                o.push_str("    {\n        let __p = self.ptr;\n");
                o.push_str(&format!("        {} {{\n", pname));
                for x in &fl {
                    if x.pin {
                        o.push_str(&format!("            {0}: Pin {{ ptr: &mut __p.{0} }},\n", x.name));
                    } else {
                        o.push_str(&format!("            {0}: &mut __p.{0},\n", x.name));
                    }
                }
                o.push_str("        }\n    }\n}\n");
            }
        }
        Def::E(e) => {
            let mut g = generics(f, &e.generics);
            g.wher = crate::rewrite::simplify_types(&g.wher);
            g.decl = crate::rewrite::simplify_types(&g.decl);
            o.push_str(&format!("// extracted from {}:{}\n", f.path, f.line(f.r(&e.ident).0)));
            o.push_str(&format!("pub enum {}{} {} {{\n", name, br(&g.decl), g.wher));
            let mut vs = vec![];
            for v in &e.variants {
                let (named, fl) = fields(f, &v.fields);
                let vn = v.ident.to_string();
                if fl.is_empty() {
                    o.push_str(&format!("    {},\n", vn));
                } else if named {
                    o.push_str(&format!("    {} {{ {} }},\n", vn, fl.iter().map(|x| format!("{}: {}", x.name, x.ty)).collect::<Vec<_>>().join(", ")));
                } else {
                    o.push_str(&format!("    {}({}),\n", vn, fl.iter().map(|x| x.ty.clone()).collect::<Vec<_>>().join(", ")));
                }
                vs.push((vn, named, fl));
            }
            o.push_str("}\n");
            if found.pinned && !noproj {
                let pname = attr_name(&e.attrs, "project").unwrap_or(format!("__{}Proj", name));
                o.push_str(&format!("pub enum {}{} {} {{\n", pname, with_lt(&g.decl), g.wher));
                for (vn, named, fl) in &vs {
                    if fl.is_empty() {
                        o.push_str(&format!("    {},\n", vn));
                        continue;
                    }
                    let tys: Vec<String> = fl
                        .iter()
                        .map(|x| {
                            let t = if x.pin { format!("Pin<&'__pin mut ({})>", x.ty) } else { format!("&'__pin mut ({})", x.ty) };
                            if *named {
                                format!("{}: {}", x.name, t)
                            } else {
                                t
                            }
                        })
                        .collect();
                    if *named {
                        o.push_str(&format!("    {} {{ {} }},\n", vn, tys.join(", ")));
                    } else {
                        o.push_str(&format!("    {}({}),\n", vn, tys.join(", ")));
                    }
                }
                o.push_str("}\n");
                let pat = |en: &str, vn: &str, named: bool, fl: &Vec<Fld>, pre: &str| -> String {
                    if fl.is_empty() {
                        format!("{}::{}", en, vn)
                    } else if named {
                        format!("{}::{} {{ {} }}", en, vn, fl.iter().map(|x| format!("{}: {}{}", x.name, pre, x.name)).collect::<Vec<_>>().join(", "))
                    } else {
                        format!("{}::{}({})", en, vn, fl.iter().map(|x| format!("{}{}", pre, x.name)).collect::<Vec<_>>().join(", "))
                    }
                };
                let con = |en: &str, vn: &str, named: bool, fl: &Vec<Fld>, fx: &dyn Fn(&Fld) -> String| -> String {
                    if fl.is_empty() {
                        format!("{}::{}", en, vn)
                    } else if named {
                        format!("{}::{} {{ {} }}", en, vn, fl.iter().map(|x| format!("{}: {}", x.name, fx(x))).collect::<Vec<_>>().join(", "))
                    } else {
                        format!("{}::{}({})", en, vn, fl.iter().map(|x| fx(x)).collect::<Vec<_>>().join(", "))
                    }
                };
                o.push_str(&format!("impl{} Pin<&'__pin mut {}{}> {} {{\n", with_lt(&g.decl), name, br(&g.args), g.wher));
                o.push_str(&format!("    pub fn project(self) -> (r: {}{})\n        ensures match *old(self.ptr) {{\n", pname, with_lt(&g.args)));
                for (vn, named, fl) in &vs {
                    let mut conj: Vec<String> = fl.iter().map(|x| if x.pin { format!("*r_{0}.ptr == o_{0}", x.name) } else { format!("*r_{0} == o_{0}", x.name) }).collect();
                    conj.push(format!(
                        "*final(self.ptr) == ({})",
                        con(name, vn, *named, fl, &|x: &Fld| if x.pin { format!("*final(r_{}.ptr)", x.name) } else { format!("*final(r_{})", x.name) })
                    ));
                    o.push_str(&format!(
                        "            {} => match r {{ {} => {}, _ => false }},\n",
                        pat(name, vn, *named, fl, "o_"),
                        pat(&pname, vn, *named, fl, "r_"),
                        conj.join(" && ")
                    ));
                }
                o.push_str("        },\n    {\n        match self.ptr {\n");
                for (vn, named, fl) in &vs {
                    o.push_str(&format!(
                        "            {} => {},\n",
                        pat(name, vn, *named, fl, "b_"),
                        con(&pname, vn, *named, fl, &|x: &Fld| if x.pin { format!("Pin {{ ptr: b_{} }}", x.name) } else { format!("b_{}", x.name) })
                    ));
                }
                o.push_str("        }\n    }\n");
                if let Some(rn) = attr_name(&e.attrs, "project_replace") {
                    o.push_str(&format!("    pub fn project_replace(self, v: {0}{1}) -> (r: {2}{1})\n        ensures *final(self.ptr) == v, match *old(self.ptr) {{\n", name, br(&g.args), rn));
                    for (vn, named, fl) in &vs {
                        let mut conj: Vec<String> = fl.iter().filter(|x| !x.pin).map(|x| format!("r_{0} == o_{0}", x.name)).collect();
                        conj.push("true".into());
                        o.push_str(&format!(
                            "            {} => match r {{ {} => {}, _ => false }},\n",
                            pat(name, vn, *named, fl, "o_"),
                            pat(&rn, vn, *named, fl, "r_"),
                            conj.join(" && ")
                        ));
                    }
                    o.push_str("        },\n    {\n        match mem::replace(self.ptr, v) {\n");
                    for (vn, named, fl) in &vs {
                        o.push_str(&format!(
                            "            {} => {},\n",
                            pat(name, vn, *named, fl, "b_"),
                            con(&rn, vn, *named, fl, &|x: &Fld| if x.pin { format!("PhantomData") } else { format!("b_{}", x.name) })
                        ));
                    }
                    o.push_str("        }\n    }\n}\n");
                    o.push_str(&format!("pub enum {}{} {} {{\n", rn, br(&g.decl), g.wher));
                    for (vn, named, fl) in &vs {
                        if fl.is_empty() {
                            o.push_str(&format!("    {},\n", vn));
                            continue;
                        }
                        let tys: Vec<String> = fl
                            .iter()
                            .map(|x| {
                                let t = if x.pin { format!("PhantomData<{}>", x.ty) } else { x.ty.clone() };
                                if *named {
                                    format!("{}: {}", x.name, t)
                                } else {
                                    t
                                }
                            })
                            .collect();
                        if *named {
                            o.push_str(&format!("    {} {{ {} }},\n", vn, tys.join(", ")));
                        } else {
                            o.push_str(&format!("    {}({}),\n", vn, tys.join(", ")));
                        }
                    }
                    o.push_str("}\n");
                } else {
                    o.push_str("}\n");
                }
            }
        }
    }
    cx.out.push_str(&o);
    Ok(())
}
