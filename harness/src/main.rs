//! Runs the real layered-nlp library.
//!   lnverif gen PROP SEED COUNT OUT      random programs of a property, executed and recorded as traces
//!   lnverif sweep SEED STRIDE OUT        texts with every character, executed and recorded as traces
//!   lnverif record IN OUT                programs (one per line), executed and recorded as traces
//!   lnverif replay CASES OUT             cases of the model: executed and compared with the model's results
//!   lnverif words WORD...                dictionary facts
mod exec;
mod programs;
mod matcher;
mod types;
use serde_json::{json, Value};
use std::fs;
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

const THREADS: usize = 8;
/// seconds a program may take
fn limit() -> u64 {
    std::env::var("LNVERIF_LIMIT").ok().and_then(|x| x.parse().ok()).unwrap_or(20)
}

/// what each worker is doing, for the watchdog and for crash reports
struct Jobs {
    started: Vec<AtomicU64>,
    what: Vec<Mutex<Value>>,
    t0: Instant,
    /// where to note each worker's program before it starts, to find the one that ends the process
    journal: Option<String>,
}
impl Jobs {
    fn new() -> Self {
        Jobs {
            started: (0..THREADS).map(|_| AtomicU64::new(0)).collect(),
            what: (0..THREADS).map(|_| Mutex::new(Value::Null)).collect(),
            t0: Instant::now(),
            journal: std::env::var("LNVERIF_JOURNAL").ok(),
        }
    }
    fn begin(&self, w: usize, v: &Value) {
        if let Some(j) = &self.journal {
            let _ = fs::write(format!("{j}.{w}"), v.to_string());
        }
        *self.what[w].lock().unwrap() = v.clone();
        self.started[w].store(self.t0.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
    }
    fn end(&self, w: usize) {
        self.started[w].store(0, Ordering::SeqCst);
    }
}
fn rss_mb() -> u64 {
    fs::read_to_string("/proc/self/statm").ok().and_then(|s| s.split(' ').nth(1).and_then(|x| x.parse::<u64>().ok())).unwrap_or(0) * 4 / 1024
}

/// Runs `f` over `items` on all threads; a program that does not end is written to `OUT.hang` and ends the process
/// with status 3.
fn parallel(items: Vec<Value>, out: &str, f: impl Fn(usize, Value, &Jobs) -> Option<Value> + Sync) -> Vec<Value> {
    let (jobs, limit) = (Jobs::new(), limit());
    let next = AtomicUsize::new(0);
    let done = AtomicUsize::new(0);
    let n = items.len();
    let items: Vec<Mutex<Option<Value>>> = items.into_iter().map(|v| Mutex::new(Some(v))).collect();
    let results: Vec<Mutex<Option<Value>>> = (0..n).map(|_| Mutex::new(None)).collect();
    std::thread::scope(|sc| {
        for w in 0..THREADS {
            let (jobs, next, items, results, f, done) = (&jobs, &next, &items, &results, &f, &done);
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(sc, move || {
                    loop {
                        let k = next.fetch_add(1, Ordering::SeqCst);
                        if k >= n {
                            break;
                        }
                        let v = items[k].lock().unwrap().take().unwrap();
                        *results[k].lock().unwrap() = f(w, v, jobs);
                        jobs.end(w);
                    }
                    done.fetch_add(1, Ordering::SeqCst);
                })
                .unwrap();
        }
        while done.load(Ordering::SeqCst) < THREADS {
            std::thread::sleep(Duration::from_millis(20));
            let now = jobs.t0.elapsed().as_millis() as u64;
            let big = rss_mb() > 6000;
            for w in 0..THREADS {
                let s = jobs.started[w].load(Ordering::SeqCst);
                if s > 0 && (now > s + limit * 1000 || (big && now > s + 1500)) {
                    let v = jobs.what[w].lock().unwrap().clone();
                    let _ = fs::write(format!("{out}.hang"), v.to_string());
                    std::process::exit(3);
                }
            }
        }
    });
    results.into_iter().filter_map(|r| r.into_inner().unwrap()).collect()
}

fn read(path: &str) -> Vec<Value> {
    BufReader::new(fs::File::open(path).unwrap())
        .lines()
        .map(|l| l.unwrap())
        // TLC prints a case as a string among its own messages
        .filter(|l| l.starts_with('{') || l.starts_with("\"{"))
        .map(|l| match serde_json::from_str(&l).unwrap() {
            Value::String(s) => serde_json::from_str(&s).unwrap(),
            v => v,
        })
        .collect()
}
fn write(path: &str, vs: &[Value]) {
    let mut w = BufWriter::new(fs::File::create(path).unwrap());
    for v in vs {
        writeln!(w, "{v}").unwrap();
    }
    w.flush().unwrap();
}

/// tokens with neighbouring texts joined: what "nothing lost, nothing invented" compares
fn joined(toks: &Value) -> Value {
    let mut out: Vec<Value> = Vec::new();
    for t in toks.as_array().unwrap() {
        if t[0] == json!(1) {
            if t[2].as_array().unwrap().is_empty() {
                return json!("empty text token");
            }
            if let Some(l) = out.last_mut().filter(|l| l[0] == json!(1)) {
                l[1].as_array_mut().unwrap().extend(t[2].as_array().unwrap().clone());
                continue;
            }
            out.push(json!([1, t[2]]));
        } else {
            out.push(json!([0, []]));
        }
    }
    json!(out)
}

/// Compares one case of the model with the real code.
/// `own`: which parts the property is about ("joined", "toks", "create", "run:KIND", "calls", "ops"); a difference in
/// another part makes the case inconclusive, since the real line is then not in the model's state.
fn compare(c: &Value) -> Value {
    exec::fresh();
    let got = exec::exec(&c["prog"]);
    let exp = &c["exp"];
    let own = |w: &str| c["own"].as_array().unwrap().iter().any(|x| x == w);
    let verdict = |mine: bool, at: String, e: &Value, g: &Value| {
        if mine {
            json!({"v": "violation", "at": at, "expected": e, "got": g, "case": c})
        } else {
            json!({"v": "inconclusive", "at": at, "expected": e, "got": g, "case": c})
        }
    };
    let (ec, gc) = (&exp["cr"], &got["cr"]);
    if own("joined") {
        if ec["p"] != gc["p"] {
            return verdict(true, "creation".into(), ec, gc);
        }
        if joined(&ec["toks"]) != joined(&gc["toks"]) {
            return verdict(true, "tokens joined".into(), &ec["toks"], &gc["toks"]);
        }
        return json!({"v": "ok"});
    }
    if ec["p"] != gc["p"] {
        return verdict(own("create") || own("toks"), "creation".into(), ec, gc);
    }
    if ec["p"] != json!(0) {
        return json!({"v": "ok"});
    }
    if ec["toks"] != gc["toks"] {
        return verdict(own("toks"), "tokens".into(), &ec["toks"], &gc["toks"]);
    }
    if ec["st"] != gc["st"] {
        return verdict(own("create"), "attributes after creation".into(), &ec["st"], &gc["st"]);
    }
    let (er, gr) = (exp["rs"].as_array().unwrap(), got["rs"].as_array().unwrap());
    for (k, e) in er.iter().enumerate() {
        match gr.get(k) {
            None => return json!({"v": "inconclusive"}),
            Some(g) => {
                if g["skip"] != json!(0) {
                    return json!({"v": "inconclusive"});
                }
                let mine = own(&format!("run:{}", c["prog"]["runs"][k]["r"].as_str().unwrap()));
                let called = mine && own("calls") && e["calls"] != g["calls"];
                if g["p"] != json!(0) || e["st"] != g["st"] || g["same"] != json!(1) || called {
                    return verdict(mine, format!("run {}", k + 1), e, g);
                }
            }
        }
    }
    let (es, gs) = (exp["res"].as_array().unwrap(), got["res"].as_array().unwrap());
    let mut nobase = 0;
    for (k, e) in es.iter().enumerate() {
        let g = &gs[k];
        if g["p"] == json!(3) {
            nobase += 1;
        } else if e != g {
            return verdict(own("ops"), format!("operation {}", c["prog"]["ops"][k]), e, g);
        }
    }
    json!({"v": "ok", "ops": es.len(), "nobase": nobase})
}

fn main() {
    if std::env::var("LNVERIF_LOUD").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        "gen" => {
            let (prop, seed, count, out) = (a[2].clone(), a[3].parse::<u64>().unwrap(), a[4].parse::<usize>().unwrap(), &a[5]);
            let items = (0..count).map(|k| json!(k)).collect();
            let res = parallel(items, out, |w, k, jobs| {
                let k = k.as_u64().unwrap();
                let mut r = programs::Rng::new(seed, k);
                jobs.begin(w, &json!({"seed": seed, "k": k, "prop": prop, "generating": 1}));
                let ps = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| programs::programs(&prop, &mut r, k as usize))).unwrap_or_else(|_| {
                    eprintln!("the generator failed: {prop} seed {seed} number {k}");
                    std::process::exit(4)
                });
                jobs.begin(w, &json!({"lines": ps}));
                exec::fresh();
                Some(json!({"lines": ps.into_iter().map(programs::record).collect::<Vec<_>>()}))
            });
            write(out, &res);
        }
        // every character, alone and in context: all of the varied blocks, every STRIDE-th of the uniform ones
        "sweep" => {
            let (seed, stride, out) = (a[2].parse::<u32>().unwrap(), a[3].parse::<u32>().unwrap(), &a[4]);
            let res = parallel(programs::sweep(seed, stride), out, |w, p, jobs| {
                jobs.begin(w, &json!({"lines": [p]}));
                exec::fresh();
                Some(json!({"lines": [programs::record(p)]}))
            });
            write(out, &res);
        }
        "record" => {
            let out = &a[3];
            let res = parallel(read(&a[2]), out, |w, t, jobs| {
                jobs.begin(w, &t);
                exec::fresh();
                Some(json!({"lines": t["lines"].as_array().unwrap().iter().map(|p| programs::record(p.clone())).collect::<Vec<_>>()}))
            });
            write(out, &res);
        }
        "replay" => {
            let out = &a[3];
            let cases = read(&a[2]);
            let n = cases.len();
            let res = parallel(cases, out, |w, c, jobs| {
                jobs.begin(w, &c);
                Some(compare(&c))
            });
            let count = |v: &str| res.iter().filter(|r| r["v"] == v).count();
            let sum = |f: &str| res.iter().filter_map(|r| r[f].as_u64()).sum::<u64>();
            let bad: Vec<Value> = res.iter().filter(|r| r["v"] == "violation").take(20).cloned().collect();
            write(out, &bad);
            let odd: Vec<Value> = res.iter().filter(|r| r["v"] == "inconclusive").take(5).cloned().collect();
            write(&format!("{out}.inconclusive"), &odd);
            println!(
                "{}",
                json!({"cases": n, "violations": count("violation"), "inconclusive": count("inconclusive"), "ops": sum("ops"), "nobase": sum("nobase")})
            );
        }
        "words" => {
            for w in &a[2..] {
                let f = exec::facts(&[json!([1, 5, exec::cps(w)])]);
                println!("{w}\t{}\t{}", json!(exec::cps(w)), f["dict"][0]);
            }
        }
        c => panic!("command {c}"),
    }
}
