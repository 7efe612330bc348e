//! vx: mechanical extraction of functions of /repo into Verus input.
//! usage: vx emit UNIT --repo DIR --specs DIR --out FILE --meta FILE [--kinds a,b,..]
//! Exit 0: emitted.  Exit 3: extraction lost an anchor / met an unsupported construct (message on stderr).
mod rewrite;
mod source;
mod structs;
mod template;

use std::collections::{BTreeMap, BTreeSet};
use std::path::PathBuf;

pub struct Ctx {
    pub repo: PathBuf,
    pub specs: PathBuf,
    pub included: BTreeSet<String>,
    pub files: BTreeMap<String, std::rc::Rc<source::SrcFile>>,
    pub out: String,
    pub fns: Vec<FnMeta>,
    pub kinds: Vec<String>,
    pub kind_pos: usize,
    pub notes: Vec<String>,
    pub listed: BTreeSet<(String, String)>,
    pub bcast: Option<String>,
    pub tracked: Vec<(String, String)>,
    pub heap: Vec<(String, String)>,
    pub substs: Vec<(String, String)>,
    pub vcast: bool,
    pub indexall: Option<String>,
    pub guards: Vec<(String, String)>,
    pub vacuity: bool,
}

pub struct FnMeta {
    pub name: String,
    pub file: String,
    pub line: usize,
    pub out_first: usize,
    pub out_last: usize,
    pub rewrites: Vec<String>,
}

pub type R<T> = Result<T, String>;

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut unit = String::new();
    let mut m: BTreeMap<String, String> = BTreeMap::new();
    let mut i = 2;
    while i < args.len() {
        if let Some(k) = args[i].strip_prefix("--") {
            m.insert(k.to_string(), args.get(i + 1).cloned().unwrap_or_default());
            i += 2;
        } else {
            unit = args[i].clone();
            i += 1;
        }
    }
    let mut cx = Ctx {
        repo: m.get("repo").cloned().unwrap_or("/repo".into()).into(),
        specs: m.get("specs").cloned().unwrap_or("/verif/specs".into()).into(),
        included: Default::default(),
        files: Default::default(),
        out: String::new(),
        fns: vec![],
        kinds: m.get("kinds").map(|s| s.split(',').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect()).unwrap_or_default(),
        kind_pos: 0,
        notes: vec![],
        listed: BTreeSet::new(),
        bcast: None,
        tracked: vec![],
        heap: vec![],
        substs: vec![],
        vcast: false,
        indexall: None,
        guards: vec![],
        vacuity: m.contains_key("vacuity"),
    };
    cx.out.push_str(template::HEAD);
    let r = template::process(&mut cx, &unit);
    if let Err(e) = r {
        eprintln!("vx: {}: {}", unit, e);
        std::process::exit(3);
    }
    cx.out.push_str(template::TAIL);
    // line numbers for each emitted fn were recorded while emitting
    let outp = m.get("out").cloned().unwrap_or("/dev/stdout".into());
    std::fs::write(&outp, &cx.out).unwrap();
    if let Some(mp) = m.get("meta") {
        let mut s = String::from("{\"unit\":");
        s.push_str(&json_str(&unit));
        s.push_str(",\"map_sites\":");
        s.push_str(&cx.kind_pos.to_string());
        s.push_str(",\"functions\":[");
        for (i, f) in cx.fns.iter().enumerate() {
            if i > 0 {
                s.push(',');
            }
            s.push_str(&format!(
                "{{\"name\":{},\"file\":{},\"line\":{},\"out_first\":{},\"out_last\":{},\"rewrites\":[{}]}}",
                json_str(&f.name),
                json_str(&f.file),
                f.line,
                f.out_first,
                f.out_last,
                f.rewrites.iter().map(|x| json_str(x)).collect::<Vec<_>>().join(",")
            ));
        }
        s.push_str("],\"notes\":[");
        s.push_str(&cx.notes.iter().map(|x| json_str(x)).collect::<Vec<_>>().join(","));
        s.push_str("]}\n");
        std::fs::write(mp, s).unwrap();
    }
}
