#![feature(rustc_private)]
#![allow(dead_code, unused_imports)]
extern crate rustc_attr_ir;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate rustc_span;
extern crate rustc_trait_selection;

mod checks;
mod effects;
mod interp;
mod misc;
mod msrv;
mod oracle;
mod rules;
mod sample;
mod terms;
mod writers;

use rustc_public::CrateDef;
use std::fmt::Write as _;
use std::process::{exit, Command};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn jl(v: impl IntoIterator<Item = String>) -> String {
    format!("[{}]", v.into_iter().collect::<Vec<_>>().join(","))
}

fn analyse(tcx: rustc_middle::ty::TyCtxt<'_>, groups: &[String], out: &str) {
    use oracle::*;
    let t0 = std::time::Instant::now();
    // some errors (privacy, for one) do not end the compilation before this point: no report then
    if tcx.dcx().has_errors().is_some() {
        return;
    }
    let mut cx = rules::Ctx::new(tcx);
    cx.thorough = std::env::var("CREVICE_VERIF_TIER").as_deref() == Ok("thorough");
    cx.ip.strict = std::env::var("CREVICE_VERIF_STRICT").is_ok();
    if let Ok(s) = std::env::var("CREVICE_VERIF_SHARD") {
        let (k, n) = s.split_once('/').expect("k/n");
        cx.shard = (k.parse().expect("k"), n.parse().expect("n"));
    }
    let mut subs = cx.subjects();
    if std::env::var("CREVICE_VERIF_ONLY").as_deref() == Ok("derived") {
        subs.retain(|s| s.origin == rules::Origin::Derived);
    }
    let has = |g: &str| groups.iter().any(|x| x == g || x == "all");
    let dy = cx.dyn_subjects(&subs);
    let mut all = subs.clone();
    all.extend(dy.iter().cloned());
    let pick = |names: &[&str]| -> Vec<rustc_public::ty::Ty> {
        let mut v = vec![];
        for n in names {
            if let Some(s) = subs.iter().find(|s| s.ty.to_string() == *n) {
                v.push(s.ty);
            }
        }
        for s in dy.iter().take(2) {
            v.push(s.ty);
        }
        for s in subs.iter().filter(|s| s.origin == rules::Origin::Derived).take(3) {
            v.push(s.ty);
        }
        v
    };
    let some = pick(&["f32", "f64", "bool", "mint::Vector2<f32>", "mint::Vector3<f32>", "mint::Vector3<f64>", "mint::ColumnMatrix3<f32>"]);
    cx.reps = some.clone();
    let by_hand = cx.table("hand::converted");
    let few = pick(&["f32", "mint::Vector3<f32>", "mint::ColumnMatrix2<f64>"]);
    let mut times = vec![];
    macro_rules! group {
        ($name:literal, $e:expr) => {
            if has($name) {
                let t = std::time::Instant::now();
                // conversions hardly branch; do not enumerate the paths of one that does
                cx.ip.max_paths = if ["to", "from", "rt", "dynamic"].contains(&$name) { 1000 } else { 100_000 };
                $e;
                times.push(format!("{}: {:.1}s", $name, t.elapsed().as_secs_f64()));
            }
        };
    }
    group!("coverage", cx.rule_coverage(&subs));
    group!("layout", cx.rule_layout(&subs));
    group!("align", cx.rule_align(&all));
    group!("to", cx.rule_to(&subs));
    group!("from", cx.rule_from(&subs));
    group!("rt", cx.rule_rt(&subs));
    group!("dynamic", {
        cx.rule_dyn(&dy);
        cx.rule_layout(&dy);
        cx.rule_to(&dy);
        cx.rule_from(&dy);
        cx.rule_rt(&dy);
    });
    group!("names", cx.rule_names(&subs));
    group!("definitions", cx.rule_definitions(&subs));
    group!("pod", cx.rule_pod(&all));
    group!("bytes", cx.rule_bytes(&all));
    let wsubs: Vec<_> = subs.iter().chain(dy.iter().step_by(40)).cloned().collect();
    group!("write", cx.rule_write(&wsubs));
    group!("slice", {
        let n = if cx.thorough { 64 } else { 16 };
        cx.rule_slices(&wsubs, &few, n);
        cx.rule_slices_hand();
        cx.rule_slices_same()
    });
    group!("fault", {
        let dev = if cx.ip.strict { 1 } else if cx.thorough { 3 } else { 2 };
        let lens: &[usize] = if cx.thorough { &[0, 1, 2, 3, 4, 5] } else { &[0, 1, 2, 3] };
        let (mut some, mut few) = (some.clone(), few.clone());
        some.extend(by_hand.iter().take(2));
        few.extend(by_hand.iter().take(1));
        cx.rule_fault(&some, &few, lens, dev);
        cx.rule_kinds(&some)
    });
    group!("life", {
        let lens: &[usize] = if cx.thorough { &[0, 1, 2, 3, 4, 5, 8, 16] } else { &[0, 1, 2, 3, 5] };
        cx.rule_life(&wsubs.iter().map(|s| s.ty).collect::<Vec<_>>(), lens, if cx.thorough { 2 } else { 1 })
    });
    group!("sizer", {
        let mut seqs = vec![];
        for a in &some {
            for b in &some {
                if !cx.thorough {
                    seqs.push(vec![*a, *b, *b, *a, *b]);
                    continue;
                }
                for c in &some {
                    seqs.push(vec![*a, *b, *c, *a, *b]);
                }
            }
        }
        cx.rule_sizer(&wsubs, &seqs)
    });
    group!("sizerabs", cx.rule_sizer_abs(&subs));
    group!("effects_lib", cx.rule_effects("lib"));
    group!("effects_derive", cx.rule_effects("derive"));
    group!("effects_derived", cx.rule_effects("derived"));
    group!("msrv_lib", cx.rule_msrv("lib"));
    group!("msrv_derived", cx.rule_msrv("derived"));
    group!("linked", cx.rule_linked());
    group!("sizes", {
        let mut hand = cx.table("hand::writables");
        hand.extend(cx.table("hand::converted"));
        let mut lens: Vec<usize> = if cx.thorough { (0..40).collect() } else { (0..12).collect() };
        for e in 4..=if cx.thorough { 10 } else { 7 } {
            lens.extend([(1 << e) - 1, 1 << e, (1 << e) + 1]);
        }
        cx.rule_sizes(&all, &hand, &some, &lens)
    });
    group!("stride", cx.rule_stride(&subs));

    let rules = jl(cx.rules.iter().map(|(k, r)| {
        format!(
            "{{\"rule\":{},\"obligations\":{},\"discharged\":{},\"paths\":{},\"samples\":{}}}",
            js(k),
            r.obligations,
            r.discharged,
            r.paths,
            jl(r.samples.iter().map(|s| js(s)))
        )
    }));
    let viol = jl(cx.violations.iter().map(|v| {
        format!(
            "{{\"rule\":{},\"key\":{},\"what\":{},\"at\":{},\"undecided\":{},\"ub\":{}}}",
            js(&v.rule),
            js(&v.key),
            js(&v.what),
            js(&v.at),
            v.undecided,
            v.ub
        )
    }));
    let crates = jl(rustc_public::external_crates().iter().map(|c| js(&c.name)));
    let s = &cx.ip.stats;
    let text = format!(
        "{{\"crate\":{},\"subjects\":{},\"rules\":{},\"violations\":{},\"functions\":{},\"crevice_functions\":{},\"paths\":{},\"steps\":{},\"splits\":{},\"crates\":{},\"notes\":{},\"times\":{},\"seconds\":{:.2}}}\n",
        js(&rustc_public::local_crate().name),
        subs.len(),
        rules,
        viol,
        s.functions.len(),
        jl(s.crevice_functions.iter().map(|x| js(x))),
        s.paths,
        s.steps,
        s.splits,
        crates,
        jl(cx.notes.iter().map(|x| js(x))),
        jl(times.iter().map(|x| js(x))),
        t0.elapsed().as_secs_f64()
    );
    std::fs::write(out, text).expect("write report");
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    // RUSTC_WRAPPER protocol: argv[1] is the real rustc
    let rest: Vec<String> = args[1..].to_vec();
    let target_crate = std::env::var("CREVICE_VERIF_CRATE").unwrap_or_default();
    let name = rest.iter().position(|a| a == "--crate-name").and_then(|i| rest.get(i + 1)).cloned();
    if !target_crate.is_empty() && name.as_deref() == Some(&target_crate) {
        let groups: Vec<String> = std::env::var("CREVICE_VERIF_GROUPS").unwrap_or("all".into()).split(',').map(|s| s.to_string()).collect();
        let out = std::env::var("CREVICE_VERIF_OUT").unwrap_or_default();
        let _ = std::fs::remove_file(&out);
        // planning: say how cargo would compile the crate, and stop
        if let Ok(p) = std::env::var("CREVICE_VERIF_RECORD") {
            let env = jl(std::env::vars().filter(|(k, _)| k.starts_with("CARGO") || k == "OUT_DIR").map(|(k, v)| format!("[{},{}]", js(&k), js(&v))));
            let cwd = std::env::current_dir().expect("cwd");
            let text = format!("{{\"args\":{},\"cwd\":{},\"env\":{}}}\n", jl(rest.iter().map(|a| js(a))), js(&cwd.to_string_lossy()), env);
            std::fs::write(p, text).expect("write plan");
            exit(1);
        }
        let _ = rustc_public::run_with_tcx!(&rest, |tcx| {
            analyse(tcx, &groups, &out);
            ControlFlow::<(), ()>::Break(())
        });
        let code = if std::path::Path::new(&out).exists() { 0 } else { 1 };
        exit(code);
    }
    let st = Command::new(&rest[0]).args(&rest[1..]).status().expect("rustc");
    exit(st.code().unwrap_or(1));
}
