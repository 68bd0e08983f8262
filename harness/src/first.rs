//! The very first calls of a process, made by many threads at the same time.

use crate::driver::*;
use crate::gen::*;
use norm::fzf::FzfParser;
use norm::Metric;
use std::collections::BTreeSet;
use std::ops::Range;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::time::{Duration, Instant};

const THREADS: usize = 8;

/// Whose answers there are ways to work out beforehand, for all to use.
fn job(r: &mut Rng) -> (Cfg, String, bool, String, bool) {
    let cfg = Cfg {
        algo: 1 + r.below(2) as u8,
        case: *r.pick(&[0, 0, 1, 2]),
        norm: r.chance(1, 3),
        scheme: r.below(3) as u8,
    };
    let q = *r.pick(&[
        "~", "a", "z", "b", "ab", "Ab", "'ab", "^ab", "ab$", "^ab$", "!ab", "é", "'é", "É", "~b", "a b", "ab | é", "a\\ b", "7", "a/b",
        "_z", "!~", "'zz", "|", "c:",
    ]);
    let long: String = "z".repeat(300);
    let c = match r.below(12) {
        0 => format!("é{long}"),
        1 => long,
        2 => "xAB_é".into(),
        3 => "éab".into(),
        4 => "/ab c".into(),
        5 => "ÀÉab".into(),
        6 => "fooAb a~b 7:c".into(),
        7 => "éÉfooAb a~b 7:c".into(),
        8 => format!("éa{}b", "_".repeat(150)),
        9 => format!("a{}b", "/".repeat(150)),
        10 => " ab ".into(),
        _ => "|a\u{3000}b".into(),
    };
    (cfg, q.into(), r.chance(4, 5), c, r.chance(1, 2))
}

fn jobs(seed: u64) -> Vec<u64> {
    let mut r = Rng::new(seed);
    let same = r.chance(1, 2);
    let first = r.below(1200) as u64;
    (0..THREADS).map(|_| if same { first } else { r.below(1200) as u64 }).collect()
}

/// What one of the threads observed.
fn events(n: u64, done: Option<(Option<Option<i64>>, Vec<Range<usize>>)>) -> String {
    let (cfg, q, ext, c, ranges) = job(&mut Rng::new(n));
    let (r, buf) = match done {
        None => ("[3,0]".into(), vec![]),
        Some((None, _)) => ("[2,0]".into(), vec![]),
        Some((Some(None), b)) => ("[0,0]".to_string(), b),
        Some((Some(Some(s)), b)) => (format!("[1,{s}]"), b),
    };
    let call = if ranges {
        format!("{{\"o\":\"x\",\"s\":1,\"p\":1,\"c\":{},\"r\":{r},\"b\":{}}}", cps(&c), ranges_json(&buf))
    } else {
        format!("{{\"o\":\"d\",\"s\":1,\"p\":1,\"c\":{},\"r\":{r}}}", cps(&c))
    };
    let parse = if ext { "parse" } else { "raw" };
    format!(
        "{},{{\"o\":\"{parse}\",\"p\":1,\"q\":{},\"r\":[1,0]}},{call}",
        cfg_event(0, cfg),
        cps(&q)
    )
}

/// The threads of a process, which write what they observe.
pub fn child(seed: u64) {
    let jobs = jobs(seed);
    let ready = AtomicUsize::new(0);
    let out: Vec<String> = std::thread::scope(|s| {
        let ts: Vec<_> = jobs
            .iter()
            .map(|&n| {
                let ready = &ready;
                s.spawn(move || {
                    let (cfg, q, ext, c, ranges) = job(&mut Rng::new(n));
                    let mut buf = vec![];
                    ready.fetch_add(1, SeqCst);
                    let mut spins = 0u32;
                    while ready.load(SeqCst) < THREADS {
                        spins += 1;
                        // There may be fewer processors.
                        if spins % 4096 == 0 {
                            std::thread::yield_now();
                        }
                        std::hint::spin_loop();
                    }
                    let r = guarded(|| {
                        let mut m = any_of(cfg);
                        let mut p = FzfParser::new();
                        let q = if ext { p.parse(&q) } else { p.parse_not_extended(&q) };
                        let d = match (&mut m, ranges) {
                            (Any::V1(m), false) => m.distance(q, &c),
                            (Any::V2(m), false) => m.distance(q, &c),
                            (Any::V1(m), true) => m.distance_and_ranges(q, &c, &mut buf),
                            (Any::V2(m), true) => m.distance_and_ranges(q, &c, &mut buf),
                        };
                        d.map(|d| d.into_score())
                    });
                    events(n, Some((r, buf)))
                })
            })
            .collect();
        ts.into_iter().map(|t| t.join().unwrap()).collect()
    });
    println!("{}", out.join("\n"));
}

/// How long a process has been running for, not counting the time it waited for
/// its turn.
pub fn cpu(pid: &str) -> Duration {
    let stat = std::fs::read_to_string(format!("/proc/{pid}/stat")).unwrap_or_default();
    let after = stat.rsplit(") ").next().unwrap_or("");
    let ticks: u64 = after.split(' ').skip(11).take(2).filter_map(|x| x.parse::<u64>().ok()).sum();
    Duration::from_millis(10 * ticks)
}

/// Whether what has been running since `began`, and busy for `cpu` of that, is
/// over its time.  Should it wait for something which never happens it isn't
/// busy, and then it has to have done so for long.
pub fn stuck(began: Instant, cpu: Duration, limit: u64) -> bool {
    let limit = Duration::from_secs(limit);
    let t = began.elapsed();
    t > limit && (cpu > limit.mul_f64(0.8) || t > 9 * limit)
}

/// Starts processes for so long, and writes everything any thread of them
/// observed, once.
pub fn first(seed: u64, time: Duration, mut write: impl FnMut(&str)) -> usize {
    let me = std::env::current_exe().expect("myself");
    let end = Instant::now() + time;
    let mut seen = BTreeSet::new();
    let mut n = 0;
    while Instant::now() < end {
        n += 1;
        let s = seed.wrapping_mul(1_000_003).wrapping_add(n as u64);
        let mut c = Command::new(&me)
            .args(["child", "--out", "/dev/null", "--seed", &s.to_string()])
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("a process");
        // What is written fits in the pipe.
        let began = Instant::now();
        let ok = loop {
            match c.try_wait().expect("wait") {
                Some(st) => break st.success(),
                None if stuck(began, cpu(&c.id().to_string()), 10) => {
                    let _ = c.kill();
                    let _ = c.wait();
                    break false;
                },
                None => std::thread::sleep(Duration::from_micros(100)),
            }
        };
        let mut text = String::new();
        if ok {
            use std::io::Read;
            let _ = c.stdout.take().unwrap().read_to_string(&mut text);
        } else {
            // It was brought down, or never ended.
            text = jobs(s).into_iter().map(|n| events(n, None)).collect::<Vec<_>>().join("\n");
        }
        for l in text.lines() {
            if seen.insert(l.to_string()) && seen.len() < 20_000 {
                write(l);
            }
        }
        if !ok {
            break;
        }
    }
    n
}
