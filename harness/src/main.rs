//! Dynamic conformance of the public API against the contracts: failing-input search and bounded stand-in.
//!   harness PROP --secs N --seed S --dict FILE --out FILE
mod gen;
mod nat;
mod props;
use gen::{Arg, G};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub type R = Result<(), String>;
pub type Case = (&'static str, fn(&mut G) -> R);

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o
}

thread_local! { pub static PANIC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()); }

pub fn caught<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| PANIC.with(|p| p.borrow().clone()))
}

struct Slot { start: AtomicU64, name: Mutex<&'static str>, state: Mutex<String>, log: Arc<Mutex<Vec<Arg>>> }

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1).cloned());
    let prop = args[1].clone();
    let secs: f64 = get("--secs").and_then(|s| s.parse().ok()).unwrap_or(10.0);
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let threads: usize = get("--threads").and_then(|s| s.parse().ok()).unwrap_or(8);
    let only = get("--case");
    let rd = |n: &str| -> Vec<u128> { get(n).and_then(|p| std::fs::read_to_string(p).ok()).map(|t| t.lines().filter_map(|l| l.trim().parse().ok()).collect()).unwrap_or_default() };
    let dict = Arc::new(rd("--dict"));
    let hot = Arc::new(rd("--hot"));
    let cases: Vec<Case> = props::cases(&prop).into_iter().filter(|c| only.as_ref().map_or(true, |o| c.0.contains(o.as_str()))).collect();
    if cases.is_empty() { eprintln!("no cases for {}", prop); println!("{{\"prop\":\"{}\",\"cases\":{{}},\"iterations\":0,\"failures\":[]}}", prop); return; }
    std::panic::set_hook(Box::new(|i| {
        let m = format!("{}", i);
        PANIC.with(|p| *p.borrow_mut() = m);
    }));
    if let Some(st) = get("--state") {
        // replay of one recorded case: --case NAME --state S0,S1,ITER
        let v: Vec<u64> = st.split(',').filter_map(|x| x.parse().ok()).collect();
        let c = cases.iter().find(|c| Some(c.0) == only.as_deref()).expect("case");
        let log = Arc::new(Mutex::new(vec![]));
        let mut g = G::new(0, log.clone(), dict, hot);
        g.set_state([v[0], v[1]], v[2]);
        let r = caught(|| c.1(&mut g));
        println!("inputs {:?}\nresult {:?}", log.lock().unwrap(), r);
        std::process::exit(if matches!(r, Ok(Ok(()))) { 0 } else { 1 });
    }
    let t0 = Instant::now();
    let stop = Arc::new(AtomicBool::new(false));
    let fails: Arc<Mutex<Vec<(String, String, String, String)>>> = Arc::new(Mutex::new(vec![]));
    let counts: Arc<Vec<AtomicU64>> = Arc::new(cases.iter().map(|_| AtomicU64::new(0)).collect());
    let slots: Arc<Vec<Slot>> = Arc::new((0..threads).map(|_| Slot { start: AtomicU64::new(0), name: Mutex::new(""), state: Mutex::new(String::new()), log: Arc::new(Mutex::new(vec![])) }).collect());
    let cases = Arc::new(cases);
    for t in 0..threads {
        let (stop, fails, counts, slots, cases, dict, hot) = (stop.clone(), fails.clone(), counts.clone(), slots.clone(), cases.clone(), dict.clone(), hot.clone());
        std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
            let slot = &slots[t];
            let mut g = G::new(seed.wrapping_mul(1000003).wrapping_add(t as u64 * 7919 + 1), slot.log.clone(), dict, hot);
            let mut spent = vec![0u128; cases.len()];
            let mut k = 0u64;
            while !stop.load(Ordering::Relaxed) {
                // the case that has had the least time so far
                let i = if k < cases.len() as u64 { (k as usize + t) % cases.len() } else { (0..cases.len()).min_by_key(|i| spent[*i]).unwrap() };
                k += 1;
                g.iter = k;
                slot.log.lock().unwrap().clear();
                *slot.name.lock().unwrap() = cases[i].0;
                let s = t0.elapsed();
                slot.start.store(s.as_millis() as u64 + 1, Ordering::Relaxed);
                g.big = 12;
                let state = g.state();
                *slot.state.lock().unwrap() = state.clone();
                let r = caught(|| cases[i].1(&mut g));
                slot.start.store(0, Ordering::Relaxed);
                spent[i] += (t0.elapsed() - s).as_nanos();
                counts[i].fetch_add(1, Ordering::Relaxed);
                let msg = match r { Ok(Ok(())) => continue, Ok(Err(m)) => m, Err(p) => format!("panicked: {}", p) };
                let inp = format!("{:?}", slot.log.lock().unwrap());
                let mut f = fails.lock().unwrap();
                if f.iter().filter(|x| x.0 == cases[i].0).count() < 3 { f.push((cases[i].0.to_string(), inp, msg, state)); }
                if f.len() >= 12 { stop.store(true, Ordering::Relaxed); }
            }
        }).unwrap();
    }
    let hang = Duration::from_secs(get("--hang").and_then(|s| s.parse().ok()).unwrap_or(60));
    let keep = args.iter().any(|a| a == "--keep-going");
    let mut hung = false;
    loop {
        std::thread::sleep(Duration::from_millis(50));
        let now = t0.elapsed();
        for s in slots.iter() {
            let st = s.start.load(Ordering::Relaxed);
            if st > 0 && now.as_millis() as u64 > st + hang.as_millis() as u64 {
                let inp = format!("{:?}", s.log.lock().unwrap());
                fails.lock().unwrap().push((s.name.lock().unwrap().to_string(), inp, format!("did not return within {} s", hang.as_secs()), s.state.lock().unwrap().clone()));
                hung = true;
            }
        }
        let found = !fails.lock().unwrap().is_empty();
        if hung || stop.load(Ordering::Relaxed) || (found && !keep && now.as_secs_f64() > 1.5) { break; }
        if now.as_secs_f64() > secs && (!slots.iter().any(|s| { let st = s.start.load(Ordering::Relaxed); st > 0 && now.as_millis() as u64 > st + 2000 })) { break; }
    }
    stop.store(true, Ordering::Relaxed);
    let f = fails.lock().unwrap();
    let mut o = format!("{{\"prop\":\"{}\",\"seed\":{},\"iterations\":{},\"cases\":{{", prop, seed, counts.iter().map(|c| c.load(Ordering::Relaxed)).sum::<u64>());
    o.push_str(&cases.iter().zip(counts.iter()).map(|(c, n)| format!("\"{}\":{}", c.0, n.load(Ordering::Relaxed))).collect::<Vec<_>>().join(","));
    o.push_str("},\"failures\":[");
    o.push_str(&f.iter().map(|(a, b, c, st)| format!("{{\"case\":\"{}\",\"inputs\":\"{}\",\"what\":\"{}\",\"state\":\"{}\"}}", esc(a), esc(&b.chars().take(4000).collect::<String>()), esc(&c.chars().take(4000).collect::<String>()), st)).collect::<Vec<_>>().join(","));
    o.push_str("]}");
    if let Some(p) = get("--out") { std::fs::write(p, &o).unwrap(); } else { println!("{}", o); }
    std::process::exit(if f.is_empty() { 0 } else { 1 });
}
