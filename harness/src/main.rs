mod arena;
#[cfg(target_pointer_width = "64")]
mod big;
#[cfg(feature = "capi")]
mod capi;
mod case;
mod checks;
#[cfg(target_pointer_width = "64")]
mod conc;
#[cfg(target_pointer_width = "64")]
mod cpu;
mod fault;
mod fmt;
mod forks;
mod gen;
#[cfg(target_pointer_width = "64")]
mod hist;
#[cfg(feature = "capi")]
mod ledger;
mod model;
mod rng;
mod run;
#[cfg(target_pointer_width = "64")]
mod step;
#[cfg(all(target_arch = "x86_64", feature = "capi"))]
mod trace;
#[cfg(target_arch = "x86_64")]
mod vg;

use std::collections::BTreeMap;
use std::time::Instant;

fn main() {
    let argv: Vec<String> = std::env::args().collect();
    let mut a: BTreeMap<String, String> = BTreeMap::new();
    let mut i = 2;
    while i < argv.len() {
        let k = argv[i].trim_start_matches("--").to_string();
        let v = argv.get(i + 1).cloned().unwrap_or_default();
        a.insert(k, v);
        i += 2;
    }
    let num = |k: &str, d: f64| a.get(k).and_then(|x| x.parse::<f64>().ok()).unwrap_or(d);
    fault::init(a.get("crash").map(|x| &x[..]), num("handlers", 1.0) != 0.0);
    fault::register();
    arena::ANYWHERE.store(num("handlers", 1.0) != 0.0, std::sync::atomic::Ordering::Relaxed);
    case::install_panic_monitor();
    let mut o = run::Opts {
        seed: a.get("seed").and_then(|x| x.parse().ok()).unwrap_or(1),
        scale: num("scale", 1.0),
        threads: num("threads", 8.0) as usize,
        max_secs: num("max-secs", 1e9),
        only: a.get("only").map(|s| {
            let mut p = s.split(':').map(|x| x.parse().unwrap());
            (p.next().unwrap(), p.next().unwrap())
        }),
        describe: false,
        heap: num("heap", 0.0) != 0.0,
        start: Instant::now(),
        // these need a process in which nothing was detected or initialised yet
        sets: if matches!(&argv[1][..], "c13" | "c14" | "c16" | "c21") { vec![0] } else { case::available_sets() },
        args: a.clone(),
    };
    case::VERBOSE.store(o.only.is_some() && num("quiet", 0.0) == 0.0, std::sync::atomic::Ordering::Relaxed);
    if let Some(s) = a.get("sets") {
        let want: Vec<usize> = s.split(',').map(|x| case::SETS.iter().position(|y| *y == x.replace("default", "")).unwrap()).collect();
        o.sets.retain(|x| want.contains(x));
        if o.sets.len() == 1 {
            case::pin_set(o.sets[0]);
        }
    }
    let mut rep = run::Report::new();
    match &argv[1][..] {
        "c01" => checks::c01(&o, &mut rep),
        "c02" => checks::c02(&o, &mut rep),
        "c03" => checks::c03(&o, &mut rep),
        "c04" => checks::c04(&o, &mut rep),
        "c05" => checks::c05(&o, &mut rep),
        "c06" => checks::c06(&o, &mut rep),
        "c07" => checks::c07(&o, &mut rep),
        "c08" => checks::c08(&o, &mut rep),
        "c09" => checks::c09(&o, &mut rep),
        "c10" => checks::c10(&o, &mut rep),
        "c11" => checks::c11(&o, &mut rep),
        #[cfg(feature = "capi")]
        "c12" => capi::c12(&o, &mut rep),
        #[cfg(target_pointer_width = "64")]
        "c13" => conc::c13(&o, &mut rep),
        #[cfg(target_pointer_width = "64")]
        "c14" => hist::c14(&o, &mut rep),
        #[cfg(target_pointer_width = "64")]
        "c15" => big::c15(&o, &mut rep),
        #[cfg(target_pointer_width = "64")]
        "c16" => cpu::c16(&o, &mut rep),
        "c17" => checks::c17(&o, &mut rep),
        "c18" => checks::c18(&o, &mut rep),
        "c19" => checks::c19(&o, &mut rep),
        "c20" => checks::c20(&o, &mut rep),
        "c22" => checks::c22(&o, &mut rep),
        #[cfg(all(target_arch = "x86_64", feature = "capi"))]
        "c21" => trace::c21(&o, &mut rep),
        #[cfg(target_arch = "x86_64")]
        "vg" => vg::vg(&o, &mut rep),
        x => {
            eprintln!("unknown command {x}");
            std::process::exit(2);
        }
    }
    let sets: Vec<&str> = o.sets.iter().map(|s| if *s == 0 { "default" } else { case::SETS[*s] }).collect();
    rep.notes.push(format!("instruction sets: {}", sets.join(",")));
    rep.notes.push(format!("seconds: {:.1}", o.start.elapsed().as_secs_f64()));
    let j = rep.json();
    match a.get("out") {
        Some(p) => std::fs::write(p, j).unwrap(),
        None => println!("{j}"),
    }
    std::process::exit(i32::from(!rep.violations.is_empty()));
}
