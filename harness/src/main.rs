mod conc;
mod sched;
mod seq;
mod trace;
use std::collections::HashMap;
use std::io::Write;
use std::time::Instant;

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let suite = args[1].clone();
    let mut o: HashMap<String, String> = HashMap::new();
    for a in &args[2..] { if let Some((k, v)) = a.split_once('=') { o.insert(k.to_string(), v.to_string()); } }
    let get = |k: &str, d: &str| o.get(k).cloned().unwrap_or(d.to_string());
    let thorough = get("tier", "quick") == "thorough";
    let f = std::fs::File::create(get("out", "/dev/null")).unwrap();
    let num = |k: &str, d: &str| get(k, d).parse::<f64>().unwrap();
    let budget = trace::Budget { dfs: num("dfs", "600") as u64, bound: num("bound", "2") as u32, rand: num("rand", "60") as u64, stale: num("stale", "60") as u64, secs: num("secs", "4") };
    let sh = get("shard", "0/1");
    let (a, b) = sh.split_once('/').unwrap();
    let mut run = trace::Run {
        out: trace::Out { file: std::io::BufWriter::new(f), n: 0, execs: 0, steps: 0, stats: vec![], samples: 0 },
        seed: num("seed", "1") as u64, budget, shard: (a.parse().unwrap(), b.parse().unwrap()), counter: 0, start: Instant::now(), limit: num("limit", "30"), only: o.get("only").cloned(),
    };
    sched::install();
    trace::watchdog();
    if !sched::HOOKED { trace::WAKER_POINTS.store(false, std::sync::atomic::Ordering::Relaxed) }
    match suite.as_str() {
        "oneshot" => conc::chan::oneshot(&mut run, thorough),
        "mpsc" => conc::chan::mpsc(&mut run, thorough, ""),
        "aw" => conc::sync::aw(&mut run, thorough),
        "mutex" => conc::sync::mutex(&mut run, thorough),
        "bilock" => conc::sync::bilock(&mut run, thorough),
        "shared" => conc::fut::shared(&mut run, thorough),
        "abort" => conc::fut::abort(&mut run, thorough),
        "remote" => conc::fut::remote(&mut run, thorough),
        "fu" => conc::fut::fu(&mut run, thorough),
        "flat" => conc::fut::flat(&mut run, thorough),
        "local" => conc::exec::local(&mut run, thorough),
        "pool" => conc::exec::pool(&mut run, thorough),
        "split" => conc::sync::split(&mut run, thorough),
        "futs" => seq::suite(&mut run, seq::futs::kinds()),
        "sinks" => seq::suite(&mut run, seq::sinks::kinds()),
        "io" => seq::suite(&mut run, seq::io::kinds()),
        "st" => seq::suite(&mut run, seq::st::kinds()),
        "merge" => seq::suite(&mut run, seq::merge::kinds()),
        "tasks" => seq::suite(&mut run, seq::tasks::kinds()),
        "tst" => seq::suite(&mut run, seq::tst::kinds()),
        s => { eprintln!("no suite {}", s); std::process::exit(2) }
    }
    run.out.file.flush().unwrap();
    if let Some(p) = o.get("stats") {
        let s = format!("{{\"traces\":{},\"execs\":{},\"steps\":{},\"hooked\":{},\"secs\":{:.2},\"scenarios\":[{}]}}", run.out.n, run.out.execs, run.out.steps, sched::HOOKED, run.start.elapsed().as_secs_f64(), run.out.stats.join(","));
        std::fs::write(p, s).unwrap();
    }
    // Leaked threads of abandoned executions must not keep the process alive.
    std::process::exit(0);
}
