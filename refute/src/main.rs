//! Looks for an input on which the code under /repo breaks a property.
//!   refute run <property> <seed> <seconds> <dictionary file> <file for the failing case>
//!   refute replay <file>
//!   refute trust      (compares what the proofs assume of the standard library with it)
//! exit 0: none found / the case passes; 1: found / fails; 2: usage
mod src;
mod protos;
mod huffman;
mod hpack;
mod trust;
use src::*;
use std::panic;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub type R = Result<(), String>;
pub type F = fn(&mut Src) -> R;
pub struct Prop { pub id: &'static str, pub random: F, pub small: Option<F> }

fn props() -> Vec<Prop> {
    let mut v = protos::props();
    v.extend(huffman::props());
    v.extend(hpack::props());
    v
}

static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

fn attempt(f: F, s: &mut Src) -> R {
    match panic::catch_unwind(panic::AssertUnwindSafe(|| f(s))) {
        Ok(r) => r,
        Err(_) => Err(format!("panicked: {}", LAST_PANIC.lock().unwrap())),
    }
}

struct Case { kind: &'static str, choices: Vec<u64>, why: String }

fn shrink(f: F, mut c: Vec<u64>, mut why: String) -> (Vec<u64>, String) {
    let t0 = Instant::now();
    let fails = |c: &Vec<u64>| -> Option<(Vec<u64>, String)> {
        let mut s = Src::replay(c.clone());
        match attempt(f, &mut s) { Err(e) => Some((s.used(), e)), Ok(()) => None }
    };
    if let Some((c2, w)) = fails(&c) { c = c2; why = w; } else { return (c, why); }
    let mut again = true;
    while again && t0.elapsed() < Duration::from_secs(8) {
        again = false;
        let mut n = c.len();
        while n >= 1 && t0.elapsed() < Duration::from_secs(8) {
            let mut i = 0;
            while i + n <= c.len() && t0.elapsed() < Duration::from_secs(8) {
                let mut d = c.clone();
                d.drain(i..i + n);
                match fails(&d) {
                    Some((c2, w)) if c2.len() < c.len() || (c2.len() == c.len() && c2 < c) => { c = c2; why = w; again = true; }
                    _ => i += n,
                }
            }
            n /= 2;
        }
        for i in 0..c.len() {
            if i >= c.len() { break; }
            for v in [0, c[i] / 2, c[i].saturating_sub(1)] {
                if i < c.len() && v < c[i] {
                    let mut d = c.clone();
                    d[i] = v;
                    if let Some((c2, w)) = fails(&d) {
                        if c2.len() < c.len() || (c2.len() == c.len() && c2 < c) { c = c2; why = w; again = true; }
                    }
                }
            }
        }
    }
    (c, why)
}

fn save(path: &str, id: &str, case: &Case, notes: &[String]) {
    let mut t = String::new();
    t += &format!("property {}\nkind {}\nchoices {}\n", id, case.kind, case.choices.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
    t += &format!("what fails: {}\n", case.why.replace('\n', " | "));
    for n in notes { t += &format!("  {}\n", n); }
    t += "replay with: sh /verif/tools/replay.sh <this file>\n";
    std::fs::write(path, t).unwrap();
}

fn describe(f: F, c: &[u64]) -> Vec<String> {
    let mut s = Src::replay(c.to_vec());
    s.verbose = true;
    let _ = attempt(f, &mut s);
    s.notes
}

fn main() {
    panic::set_hook(Box::new(|i| { *LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = i.to_string().replace('\n', " "); }));
    let a: Vec<String> = std::env::args().collect();
    if a.len() == 3 && a[1] == "replay" { std::process::exit(replay(&a[2])); }
    if a.len() == 2 && a[1] == "trust" {
        match trust::all() { Ok(n) => { println!("ASSUMED {}", n); std::process::exit(0) } Err(e) => { println!("NOT AS ASSUMED {}", e); std::process::exit(1) } }
    }
    if a.len() != 7 || a[1] != "run" { eprintln!("usage"); std::process::exit(2); }
    let seed: u64 = a[3].parse().unwrap();
    let secs: f64 = a[4].parse().unwrap();
    load_dict(&a[5]);
    let ps = props();
    let p = match ps.iter().find(|p| p.id == a[2]) { Some(p) => p, None => { eprintln!("no such property"); std::process::exit(2) } };
    let (random, small) = (p.random, p.small);
    let id = p.id;
    let out = a[6].clone();
    let found: Mutex<Option<Case>> = Mutex::new(None);
    let stop = AtomicBool::new(false);
    let n_random = AtomicU64::new(0);
    let n_small = AtomicU64::new(0);
    let distinct: Mutex<std::collections::HashSet<u64>> = Mutex::new(Default::default());
    let small_done = AtomicBool::new(false);
    let t0 = Instant::now();
    let nt = 8u64;
    // what each thread is working on, for the case that it never comes back
    let slots: Vec<Mutex<(Instant, &'static str, Vec<u64>, u64)>> = (0..nt).map(|_| Mutex::new((Instant::now(), "idle", vec![], 0))).collect();
    let sample: Mutex<Vec<String>> = Mutex::new(vec![]);
    std::thread::scope(|sc| {
        for t in 0..nt {
            let (found, stop, n_random, n_small, small_done, slots, distinct, sample) = (&found, &stop, &n_random, &n_small, &small_done, &slots, &distinct, &sample);
            std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(sc, move || {
                if t == 0 {
                    if let Some(f) = small {
                        let mut prefix = Some(vec![]);
                        while let Some(p) = prefix {
                            if stop.load(SeqCst) || t0.elapsed().as_secs_f64() > secs { break; }
                            *slots[0].lock().unwrap() = (Instant::now(), "small", p.iter().map(|x: &(u64, u64)| x.0).collect(), 0);
                            let mut s = Src::dfs(p);
                            let r = attempt(f, &mut s);
                            n_small.fetch_add(1, SeqCst);
                            if let Err(e) = r {
                                let c = s.used();
                                stop.store(true, SeqCst);
                                found.lock().unwrap().get_or_insert(Case { kind: "small", choices: c, why: e });
                                break;
                            }
                            prefix = Src::next_prefix(s.log);
                            if prefix.is_none() { small_done.store(true, SeqCst); }
                        }
                    } else { small_done.store(true, SeqCst); }
                }
                let mut k = 0u64;
                let mut mine = std::collections::HashSet::new();
                while !stop.load(SeqCst) && t0.elapsed().as_secs_f64() < secs {
                    let sd = seed.wrapping_mul(0x2545f4914f6cdd1d).wrapping_add((t << 48) + k).wrapping_mul(0xd1342543de82ef95);
                    *slots[t as usize].lock().unwrap() = (Instant::now(), "random", vec![], sd);
                    let mut s = Src::random(sd);
                    let r = attempt(random, &mut s);
                    n_random.fetch_add(1, SeqCst);
                    if mine.len() < 200_000 && s.log.len() > 2 {
                        let mut h = 0xcbf29ce484222325u64;
                        for (c, _) in &s.log { h = (h ^ c).wrapping_mul(0x100000001b3).rotate_left(7); }
                        mine.insert(h);
                    }
                    if k == 3 && t < 3 {
                        let d = describe(random, &s.used());
                        sample.lock().unwrap().push(d.join("; ").chars().take(400).collect());
                    }
                    if let Err(e) = r {
                        stop.store(true, SeqCst);
                        found.lock().unwrap().get_or_insert(Case { kind: "random", choices: s.used(), why: e });
                        break;
                    }
                    k += 1;
                }
                *slots[t as usize].lock().unwrap() = (Instant::now(), "idle", vec![], 0);
                distinct.lock().unwrap().extend(mine);
            }).unwrap();
        }
        // watchdog
        let (slots, out, stop) = (&slots, &out, &stop);
        sc.spawn(move || loop {
            std::thread::sleep(Duration::from_millis(100));
            let mut idle = 0;
            for s in slots {
                let g = s.lock().unwrap();
                if g.1 == "idle" { idle += 1; continue; }
                if g.0.elapsed() > Duration::from_secs(30) {
                    let why = "does not come back within 30 s".to_string();
                    let case = if g.1 == "random" { Case { kind: "seed", choices: vec![g.3], why } } else { Case { kind: "small", choices: g.2.clone(), why } };
                    save(out, id, &case, &[]);
                    println!("FOUND {}", case.why);
                    std::process::exit(1);
                }
            }
            if idle == slots.len() && (stop.load(SeqCst) || t0.elapsed().as_secs_f64() > secs) { break; }
        });
    });
    println!("RANDOM {}", n_random.load(SeqCst));
    println!("SMALL {} {}", n_small.load(SeqCst), if small_done.load(SeqCst) { "complete" } else { "cut" });
    println!("DISTINCT {}", distinct.lock().unwrap().len());
    for s in sample.lock().unwrap().iter() { println!("SAMPLE {}", s.replace('\n', " ")); }
    let case = found.lock().unwrap().take();
    if let Some(c) = case {
        let f = if c.kind == "small" { small.unwrap() } else { random };
        let (choices, why) = shrink(f, c.choices, c.why);
        let notes = describe(f, &choices);
        let c = Case { kind: c.kind, choices, why };
        save(&out, id, &c, &notes);
        println!("FOUND {}", c.why.replace('\n', " | "));
        std::process::exit(1);
    }
}

fn load_dict(path: &str) {
    let mut d = Dict { ints: vec![], strs: vec![] };
    if let Ok(t) = std::fs::read_to_string(path) {
        for l in t.lines() {
            if let Some(x) = l.strip_prefix("i ") { if let Ok(v) = x.parse() { d.ints.push(v); } }
            if let Some(x) = l.strip_prefix("s ") {
                d.strs.push((0..x.len() / 2).map(|i| u8::from_str_radix(&x[2 * i..2 * i + 2], 16).unwrap_or(0)).collect());
            }
        }
    }
    let _ = DICT.set(d);
}

fn replay(path: &str) -> i32 {
    let t = std::fs::read_to_string(path).expect("replay file");
    let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(k)).map(|s| s.to_string());
    let (id, kind, ch) = match (get("property "), get("kind "), get("choices ")) {
        (Some(a), Some(b), Some(c)) => (a, b, c),
        _ => { println!("no failing input recorded in this file"); return 2; }
    };
    if let Some(d) = get("dictionary ") { load_dict(&d); }
    let choices: Vec<u64> = ch.split_whitespace().map(|x| x.parse().unwrap()).collect();
    let ps = props();
    let p = ps.iter().find(|p| p.id == id).expect("property");
    let f = if kind == "small" { p.small.unwrap() } else { p.random };
    let mut s = if kind == "seed" { Src::random(choices[0]) } else { Src::replay(choices) };
    s.verbose = true;
    let r = attempt(f, &mut s);
    for n in &s.notes { println!("  {}", n); }
    match r { Ok(()) => { println!("passes"); 0 } Err(e) => { println!("fails: {}", e); 1 } }
}
