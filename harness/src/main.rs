mod dev;
mod img;
mod model;
mod props_a;
mod props_b;
mod props_c;
mod rng;

use rng::Rng;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub type R = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}

pub type Case = fn(&mut Rng) -> R;

fn table() -> Vec<(&'static str, Case)> {
    use props_a::*;
    use props_b::*;
    use props_c::*;
    vec![
        ("C01", c01 as Case), ("C02", c02), ("C03", c03), ("C04", c04), ("C05", c05), ("C06", c06), ("C07", c07), ("C08", c08),
        ("C09", c09), ("C10", c10), ("C11", c11), ("C12", c12), ("C13", c13), ("C14", c14), ("C15", c15), ("C16", c16),
        ("C17", c17), ("C18", c18), ("C19", c19), ("C20", c20), ("C21", c21), ("C22", c22), ("C23", c23), ("C24", c24), ("C25", c25),
    ]
}

thread_local! { static LAST: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }

fn run_one(f: Case, seed: u64, prop: &str, case: u64) -> R {
    let r = std::panic::catch_unwind(|| {
        let mut rng = Rng::new(seed, prop, case);
        f(&mut rng)
    });
    match r {
        // the generator couldn't place something; nothing was checked
        Ok(Err(e)) if e == "layout" => Ok(()),
        Ok(x) => x,
        Err(_) => Err(format!("panicked: {}", LAST.with(|l| l.borrow().clone()))),
    }
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str, d: u64| -> u64 {
        args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).and_then(|v| v.parse().ok()).unwrap_or(d)
    };
    let prop = args.iter().position(|a| a == "--prop").and_then(|i| args.get(i + 1)).cloned().unwrap_or_default();
    std::panic::set_hook(Box::new(|i| {
        let m = format!("{i}");
        LAST.with(|l| *l.borrow_mut() = m);
    }));
    let t = table();
    let f = match t.iter().find(|x| x.0 == prop) {
        Some(x) => x.1,
        None => {
            eprintln!("unknown property");
            std::process::exit(2);
        }
    };
    let seed = get("--seed", 1);
    if args[1] == "replay" {
        let case = get("--case", 0);
        match run_one(f, seed, &prop, case) {
            Ok(()) => println!("held"),
            Err(e) => {
                println!("violated: {e}");
                std::process::exit(1);
            }
        }
        return;
    }
    let cases = get("--cases", 10000);
    let limit = Duration::from_secs(get("--time", 20));
    let hang = Duration::from_secs(get("--hang", 40));
    let threads = get("--threads", 8) as usize;
    let next = Arc::new(AtomicU64::new(0));
    let done = Arc::new(AtomicU64::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    let found: Arc<Mutex<Vec<(u64, String)>>> = Arc::new(Mutex::new(vec![]));
    let current: Arc<Vec<(AtomicU64, AtomicU64)>> = Arc::new((0..threads).map(|_| (AtomicU64::new(u64::MAX), AtomicU64::new(0))).collect());
    let start = Instant::now();
    let mut hs = vec![];
    for w in 0..threads {
        let (next, done, stop, found, current, prop) = (next.clone(), done.clone(), stop.clone(), found.clone(), current.clone(), prop.clone());
        hs.push(std::thread::spawn(move || loop {
            if stop.load(Ordering::Relaxed) || start.elapsed() > limit {
                break;
            }
            let c = next.fetch_add(1, Ordering::Relaxed);
            if c >= cases {
                break;
            }
            current[w].1.store(start.elapsed().as_millis() as u64, Ordering::Relaxed);
            current[w].0.store(c, Ordering::Relaxed);
            let r = run_one(f, seed, &prop, c);
            current[w].0.store(u64::MAX, Ordering::Relaxed);
            done.fetch_add(1, Ordering::Relaxed);
            if let Err(e) = r {
                let mut g = found.lock().unwrap();
                g.push((c, e));
                stop.store(true, Ordering::Relaxed);
            }
        }));
    }
    loop {
        std::thread::sleep(Duration::from_millis(20));
        if hs.iter().all(|h| h.is_finished()) {
            break;
        }
        let now = start.elapsed().as_millis() as u64;
        for w in current.iter() {
            let c = w.0.load(Ordering::Relaxed);
            if c != u64::MAX && now.saturating_sub(w.1.load(Ordering::Relaxed)) > hang.as_millis() as u64 {
                found.lock().unwrap().push((c, format!("no answer within {} s", hang.as_secs())));
                stop.store(true, Ordering::Relaxed);
            }
        }
        if !found.lock().unwrap().is_empty() && start.elapsed() > Duration::from_millis(200) {
            // give the others a moment, then report
            std::thread::sleep(Duration::from_millis(100));
            break;
        }
    }
    let mut g = found.lock().unwrap().clone();
    g.sort();
    let viol: Vec<String> = g.iter().take(5).map(|(c, e)| format!("{{\"case\":{},\"message\":\"{}\"}}", c, esc(e))).collect();
    println!(
        "{{\"prop\":\"{}\",\"seed\":{},\"cases\":{},\"wall_s\":{:.3},\"violations\":[{}]}}",
        prop, seed, done.load(Ordering::Relaxed), start.elapsed().as_secs_f64(), viol.join(",")
    );
    std::process::exit(if g.is_empty() { 0 } else { 1 });
}
