#![allow(clippy::all)]
use report::{install_hook, Ctx};
#[cfg(feature = "marsh")]
pub mod gen_catalog;
#[cfg(feature = "grow")]
pub mod grow;
#[cfg(feature = "marsh")]
pub mod marsh;
#[cfg(feature = "conc")]
pub mod conc;
#[cfg(feature = "conc")]
pub mod lin;
#[cfg(feature = "mem")]
pub mod mem;
#[cfg(feature = "mgr")]
pub mod mgr;
#[cfg(feature = "world")]
pub mod monrt;
#[cfg(feature = "marsh")]
pub mod offck;
pub mod report;
pub mod rng;
pub mod shape;
#[cfg(feature = "marsh")]
pub mod types;
#[cfg(feature = "world")]
pub mod world;

pub fn run(ctx: &mut report::Ctx) {
    match ctx.prop.as_str() {
        #[cfg(feature = "marsh")]
        "M01" | "M02" | "M03" | "M04" | "M05" | "M07" | "H01" => marsh::run(ctx),
        #[cfg(feature = "grow")]
        "M08" => grow::run_grow(ctx),
        #[cfg(feature = "marsh")]
        "M10" => marsh::run_handles(ctx),
        #[cfg(feature = "world")]
        "A01" | "A02" | "A03" | "A04" | "A05" | "A07" | "A08" | "A09" | "A10" | "A11" | "A14" | "A15" | "H05" => world::run(ctx),
        #[cfg(feature = "mgr")]
        "A06" | "A12" | "A13" | "H02" => mgr::run(ctx),
        #[cfg(feature = "conc")]
        "C01" | "C02" | "C03" | "C04" | "C05" | "C06" | "H04" => conc::run(ctx),
        #[cfg(feature = "conc")]
        "H03" => conc::run_cpu(ctx),
        #[cfg(feature = "mem")]
        "A16" => mem::run(ctx),
        #[cfg(feature = "conc")]
        "C08" => lin::run(ctx),
        "none" => {}
        p => ctx.errors.push(format!("unknown property {p}")),
    }
}

/// Run `f` as asked for on the command line.
pub fn cli(f: impl FnOnce(&mut Ctx)) {
    let mut prop = String::new();
    let mut seed: u64 = 1;
    let mut thorough = false;
    let mut only = None;
    let mut out = None;
    let mut known = None;
    let mut crumb: Option<String> = None;
    let mut budget = None;
    let (mut report_as, mut scale) = (None, 1);
    let mut a = std::env::args().skip(1);
    while let Some(x) = a.next() {
        let mut v = || a.next().expect("value");
        match x.as_str() {
            "--seed" => seed = v().parse().unwrap(),
            "--tier" => thorough = v() == "thorough",
            "--only" => only = Some(v().parse().unwrap()),
            "--out" => out = Some(v()),
            "--crumb" => crumb = Some(v()),
            "--known" => known = Some(v()),
            "--as" => report_as = Some(v()),
            "--scale" => scale = v().parse().unwrap(),
            "--budget" => budget = Some(v().parse().unwrap()),
            p => prop = p.to_string(),
        }
    }
    if cfg!(miri) {
        // vary with Miri's seed
        use std::hash::{BuildHasher, Hasher};
        seed ^= std::collections::hash_map::RandomState::new().build_hasher().finish();
    }
    install_hook();
    report::install_logger();
    let mut ctx = Ctx::new(&prop, seed, thorough);
    ctx.only = only;
    ctx.report_as = report_as;
    ctx.scale = scale;
    if let Some(c) = &crumb {
        ctx.crumbs(c);
    }
    if !cfg!(miri) {
        report::watchdog();
    }
    if let Some(b) = budget {
        ctx.budget = std::time::Duration::from_secs(b);
    }
    if let Some(k) = known {
        for l in std::fs::read_to_string(k).unwrap_or_default().lines() {
            ctx.known.insert(l.to_string());
        }
    }
    f(&mut ctx);
    let n = report::logged();
    if n > 0 {
        ctx.stat("log messages formatted", n);
    }
    let j = ctx.to_json();
    match out {
        Some(o) => std::fs::write(o, &j).unwrap(),
        None => println!("{j}"),
    }
    if cfg!(miri) && !ctx.bad() && ctx.errors.is_empty() {
        // so that leaks are looked for
        return;
    }
    std::process::exit(if !ctx.errors.is_empty() {
        2
    } else if ctx.bad() {
        1
    } else {
        0
    });
}
