//! The harness as a WebAssembly module: sequential, no signals, no protected memory.
#![allow(dead_code)]
#[path = "src/arena.rs"]
mod arena;
#[path = "src/case.rs"]
mod case;
#[path = "src/checks.rs"]
mod checks;
mod fault;
#[path = "src/fmt.rs"]
mod fmt;
#[path = "src/gen.rs"]
mod gen;
#[path = "src/model.rs"]
mod model;
#[path = "src/rng.rs"]
mod rng;
#[path = "src/run.rs"]
mod run;

pub mod host {
    #[link(wasm_import_module = "host")]
    extern "C" {
        fn now() -> f64;
        fn log(p: *const u8, n: usize);
    }
    #[derive(Clone, Copy)]
    pub struct Instant(f64);
    impl Instant {
        pub fn now() -> Instant {
            Instant(unsafe { now() })
        }
        pub fn elapsed(&self) -> std::time::Duration {
            std::time::Duration::from_secs_f64((unsafe { now() } - self.0).max(0.0) / 1000.0)
        }
    }
    pub fn print(s: &str) {
        unsafe { log(s.as_ptr(), s.len()) }
    }
}

/// Memory for the arguments
#[no_mangle]
pub extern "C" fn memory_for(n: usize) -> *mut u8 {
    Box::leak(vec![0u8; n].into_boxed_slice()).as_mut_ptr()
}

static REPORT: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
#[no_mangle]
pub extern "C" fn report() -> *const u8 {
    REPORT.lock().unwrap().as_ptr()
}
#[no_mangle]
pub extern "C" fn report_size() -> usize {
    REPORT.lock().unwrap().len()
}

/// Arguments separated by line ends; the status to exit with
///
/// # Safety
/// `p` points to `n` bytes
#[no_mangle]
pub unsafe extern "C" fn run(p: *const u8, n: usize) -> i32 {
    let text = String::from_utf8(std::slice::from_raw_parts(p, n).to_vec()).unwrap();
    let argv: Vec<&str> = text.split('\n').collect();
    let mut a = std::collections::BTreeMap::new();
    for kv in argv[1..].chunks(2) {
        a.insert(kv[0].trim_start_matches("--").to_string(), kv.get(1).copied().unwrap_or_default().to_string());
    }
    std::panic::set_hook(Box::new(|i| host::print(&format!("panic: {i}"))));
    let num = |k: &str, d: f64| a.get(k).and_then(|x| x.parse::<f64>().ok()).unwrap_or(d);
    let o = run::Opts {
        seed: a.get("seed").and_then(|x| x.parse().ok()).unwrap_or(1),
        scale: num("scale", 1.0),
        threads: 1,
        max_secs: num("max-secs", 1e9),
        only: a.get("only").map(|s| {
            let (p, i) = s.split_once(':').unwrap();
            (p.parse().unwrap(), i.parse().unwrap())
        }),
        describe: false,
        heap: false,
        start: host::Instant::now(),
        sets: case::available_sets(),
        args: a.clone(),
    };
    let mut rep = run::Report::new();
    match argv[0] {
        "c02" => checks::c02(&o, &mut rep),
        "c03" => checks::c03(&o, &mut rep),
        "c04" => checks::c04(&o, &mut rep),
        "c05" => checks::c05(&o, &mut rep),
        "c06" => checks::c06(&o, &mut rep),
        "c07" => checks::c07(&o, &mut rep),
        "c08" => checks::c08(&o, &mut rep),
        "c09" => checks::c09(&o, &mut rep),
        "c10" => checks::c10(&o, &mut rep),
        "c11" => checks::c11(&o, &mut rep),
        "c17" => checks::c17(&o, &mut rep),
        "c18" => checks::c18(&o, &mut rep),
        "c19" => checks::c19(&o, &mut rep),
        "c20" => checks::c20(&o, &mut rep),
        "c22" => checks::c22(&o, &mut rep),
        _ => return 2,
    }
    let sets: Vec<&str> = o.sets.iter().map(|s| if *s == 0 { "default" } else { case::SETS[*s] }).collect();
    rep.notes.push(format!("WebAssembly; instruction sets: {}; {}", sets.join(","), dcv_color_primitives::describe_acceleration()));
    *REPORT.lock().unwrap() = rep.json();
    i32::from(!rep.violations.is_empty())
}
