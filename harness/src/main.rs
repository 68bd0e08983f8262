mod driver;
mod first;
mod gen;
mod json;
mod mirror;
mod work;

use std::io::Write;
use std::sync::atomic::Ordering;
use std::time::{Duration, Instant};

use driver::*;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let cmd = args.get(1).cloned().unwrap_or_default();
    let out = get("--out").expect("--out");
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = get("--tier").is_some_and(|t| t == "thorough");

    // A panic of the code under test is data; one of this program isn't.
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if !QUIET.with(|q| q.get()) {
            default(info);
        }
    }));

    if cmd == "child" {
        return first::child(seed);
    }

    *OUT.lock().unwrap() =
        Some(std::io::BufWriter::with_capacity(1 << 20, std::fs::File::create(&out).expect("create")));

    // The watchdog: a call which makes no progress for ten seconds never ends.
    // What is large is given more time; and what is very large could merely take
    // long, which nothing is said about.  Neither is of a machine which is busy
    // with something else.
    std::thread::spawn(|| {
        let mut seen = (0, Instant::now(), Duration::ZERO);
        loop {
            std::thread::sleep(Duration::from_millis(250));
            let p = PROGRESS.load(Ordering::SeqCst);
            let size = SIZE.load(Ordering::SeqCst);
            let limit = if size > 5000 { 60 } else { 10 };
            if p != seen.0 {
                seen = (p, Instant::now(), first::cpu("self"));
            } else if BUSY.load(Ordering::SeqCst) > 0 && first::stuck(seen.1, first::cpu("self").saturating_sub(seen.2), limit) {
                let asking = IS_ASKING.load(Ordering::SeqCst);
                let slow = size > 100_000;
                let mut pend = if asking { ASKING.lock().unwrap().events() } else { PENDING.lock().unwrap().clone() };
                if slow {
                    pend.truncate(if asking { 0 } else { BEFORE.load(Ordering::SeqCst) as usize });
                }
                let mut o = OUT.lock().unwrap();
                if let Some(w) = o.as_mut() {
                    if !pend.is_empty() {
                        let _ = writeln!(w, "{{\"ev\":[{pend}]}}");
                    }
                    let _ = w.flush();
                }
                println!("{{\"{}\":true}}", if slow { "slow" } else { "hang" });
                std::process::exit(0);
            }
        }
    });

    if cmd == "first" {
        let secs: f64 = get("--secs").and_then(|s| s.parse().ok()).expect("--secs");
        let (mut kept, mut bytes) = (0, 0);
        let n = first::first(seed, Duration::from_secs_f64(secs), |ev| {
            if let Some(w) = OUT.lock().unwrap().as_mut() {
                let _ = writeln!(w, "{{\"ev\":[{ev}]}}");
                kept += 1;
                bytes += ev.len();
            }
        });
        OUT.lock().unwrap().as_mut().unwrap().flush().unwrap();
        return println!("{{\"calls\":{},\"sessions\":{n},\"kept\":{kept},\"bytes\":{bytes}}}", 8 * n);
    }
    if let Some(spec) = get("--spec") {
        mirror::load(&spec);
    }
    // A deep stack isn't needed by the code under test; give this a normal one.
    let mut d = Driver::new();
    match cmd.as_str() {
        "gen" => {
            let prop = get("--prop").expect("--prop");
            work::run(&mut d, &prop, seed, thorough);
        },
        "sift" => {
            let prop = get("--prop").expect("--prop");
            let secs: f64 = get("--secs").and_then(|s| s.parse().ok()).expect("--secs");
            // When looking for the call which brings the process down, it takes
            // longer to get there.
            let secs = if std::env::var("CONF_CAREFUL").is_ok() { secs * 20.0 } else { secs };
            d.sift = Some(Sift::of(&prop));
            work::deep(&mut d, &prop, seed, Duration::from_secs_f64(secs));
        },
        "replay" => {
            let input = get("--in").expect("--in");
            work::replay(&mut d, &input);
        },
        _ => panic!("unknown command"),
    }
    d.end();
    if let Some(w) = OUT.lock().unwrap().as_mut() {
        w.flush().unwrap();
    }
    println!(
        "{{\"sessions\":{},\"events\":{},\"calls\":{},\"matched\":{},\"panics\":{},\"odd\":{},\"kept\":{},\"spent\":{:.1},\"skipped\":{}}}",
        d.sessions, d.total, d.calls, d.matched, d.panics, d.odds, d.kept, d.spent.get(), d.skipped.get()
    );
}
