mod conc;
mod exec;
mod locks;
mod handles;
mod core;
mod futs;
mod io;
mod merge;
mod sinks;
mod streams;
mod task;
mod ptr;
mod tries;
use crate::core::*;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let fam = a[1].clone();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let thorough = get("--tier").as_deref() == Some("thorough");
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let out = get("--out").unwrap_or("/dev/stdout".into());
    let budget = get("--budget").and_then(|s| s.parse().ok()).unwrap_or(if thorough { 3_000_000 } else { 60_000 });
    let o = Opts { thorough, seed, budget };
    std::panic::set_hook(Box::new(|_| {}));
    watchdog(out.clone());
    let mut rep = Report { evaluations: 0, nontrivial: 0, violations: vec![], samples: vec![], exhausted: vec![], rules: vec![] };
    let only = get("--only");
    let mut hit = false;
    for (name, scs) in families() {
        if name == fam || fam == "all" {
            hit = true;
            let scs: Vec<Scenario> = scs.into_iter().filter(|s| only.as_ref().map(|o| s.0 == o).unwrap_or(true)).collect();
            explore(&mut rep, &o, name, &scs);
        }
    }
    if !hit {
        eprintln!("unknown family {}", fam);
        std::process::exit(2);
    }
    let v: Vec<String> = rep
        .violations
        .iter()
        .map(|v| format!("{{\"tag\":{},\"key\":{},\"what\":{},\"input\":{}}}", js(v.tag), js(&v.key), js(&v.what), js(&v.input)))
        .collect();
    let s: Vec<String> = rep.samples.iter().map(|s| js(s)).collect();
    let rule = format!(
        "family {}: every scenario enumerates its choices (child scripts, Pending points, closure results, wake order, spurious polls) depth-first up to {} executions, then {} random executions with longer scripts; a case is non-trivial if some choice is not the default; scenarios enumerated completely: {}",
        fam, budget, budget, rep.exhausted.join(" ")
    );
    let j = format!(
        "{{\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"samples\":[{}],\"violations\":[{}]}}\n",
        rep.evaluations, rep.nontrivial, js(&rule), s.join(","), v.join(",")
    );
    std::fs::write(&out, j).unwrap();
    std::process::exit(if rep.violations.is_empty() { 0 } else { 1 });
}

fn families() -> Vec<(&'static str, Vec<Scenario>)> {
    let mut v = vec![];
    v.extend(streams::families());
    v.extend(exec::families());
    v.extend(ptr::families());
    v.extend(task::families());
    v.extend(tries::families());
    v.extend(futs::families());
    v.extend(io::families());
    v.extend(merge::families());
    v.extend(sinks::families());
    v.extend(conc::families());
    v.extend(locks::families());
    v.extend(handles::families());
    v
}
