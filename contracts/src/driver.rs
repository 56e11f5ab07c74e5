use narrow_contracts::nd;
use std::cell::RefCell;
use std::panic;
use std::time::{Duration, Instant};

thread_local! { static MSG: RefCell<String> = const { RefCell::new(String::new()) }; }

enum Out {
    Pass,
    Skip,
    Fail(String),
}

fn once(ob: &nd::Ob) -> Out {
    MSG.with(|m| m.borrow_mut().clear());
    narrow_contracts::store::grants::set(usize::MAX);
    match panic::catch_unwind(panic::AssertUnwindSafe(ob.f)) {
        Ok(()) => Out::Pass,
        Err(e) => {
            if e.is::<nd::AssumeFailed>() {
                return Out::Skip;
            }
            let m = MSG.with(|m| m.borrow().clone());
            if ob.kind.ends_with("_mp") && !m.contains("OB: ") { Out::Pass } else { Out::Fail(m) }
        }
    }
}

fn hex(v: &[Vec<u8>]) -> String {
    v.iter().map(|b| b.iter().map(|x| format!("{x:02x}")).collect::<String>()).collect::<Vec<_>>().join(",")
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o
}

fn campaign(ob: &nd::Ob, seed: u64, ms: u64, max: u64) -> String {
    let t = Instant::now();
    // every obligation draws its own stream
    let seed = ob.name.bytes().fold(seed, |h, b| h.wrapping_mul(31).wrapping_add(b.into()));
    let (mut run, mut pass, mut fails) = (0u64, 0u64, Vec::new());
    while run < max && t.elapsed() < Duration::from_millis(ms) {
        nd::seed(seed.wrapping_mul(1_000_003).wrapping_add(run));
        run += 1;
        match once(ob) {
            Out::Pass => pass += 1,
            Out::Skip => {}
            Out::Fail(m) => {
                fails.push((m, hex(&nd::take_log())));
                if fails.len() >= 3 {
                    break;
                }
            }
        }
    }
    let f = fails.iter().map(|(m, h)| format!("{{\"msg\":\"{}\",\"vals\":\"{h}\"}}", esc(m))).collect::<Vec<_>>().join(",");
    format!("{{\"name\":\"{}\",\"prop\":\"{}\",\"kind\":\"{}\",\"note\":\"{}\",\"cases\":{run},\"judged\":{pass},\"fails\":[{f}]}}", ob.name, ob.prop, ob.kind, esc(ob.note))
}

/// Runs a campaign in its own process: an abnormal end of that process (the
/// allocator refusing an infallible request) is inconclusive, not a failure.
fn isolated(ob: &nd::Ob, seed: u64, ms: u64) -> String {
    let exe = std::env::current_exe().unwrap();
    let (mut run, mut pass) = (0u64, 0u64);
    for k in 0..4 {
        let o = std::process::Command::new(&exe).args(["search", ob.name, &(seed + 1000 * k).to_string(), &(ms / 4).to_string()]).stderr(std::process::Stdio::null()).output();
        let Ok(o) = o else { continue };
        let text = String::from_utf8_lossy(&o.stdout).trim().to_string();
        if !o.status.success() || !text.starts_with('{') {
            continue;
        }
        if !text.ends_with("\"fails\":[]}") {
            return text;
        }
        let num = |key: &str| text.split(key).nth(1).and_then(|t| t.split(|c: char| !c.is_ascii_digit()).next()).and_then(|t| t.parse::<u64>().ok()).unwrap_or(0);
        run += num("\"cases\":");
        pass += num("\"judged\":");
    }
    format!("{{\"name\":\"{}\",\"prop\":\"{}\",\"kind\":\"{}\",\"note\":\"{}\",\"cases\":{run},\"judged\":{pass},\"fails\":[]}}", ob.name, ob.prop, ob.kind, esc(ob.note))
}

fn main() {
    panic::set_hook(Box::new(|i| {
        let p = i.payload();
        let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        MSG.with(|x| {
            let mut x = x.borrow_mut();
            if !m.is_empty() && (x.is_empty() || m.starts_with("OB:")) {
                *x = format!("{m} [{loc}]");
            }
        });
    }));
    let a: Vec<String> = std::env::args().collect();
    let reg = narrow_contracts::registry();
    match a.get(1).map(String::as_str) {
        Some("list") => {
            for o in reg {
                println!("{{\"name\":\"{}\",\"prop\":\"{}\",\"kind\":\"{}\",\"note\":\"{}\"}}", o.name, o.prop, o.kind, esc(o.note));
            }
        }
        Some("run") => {
            let (prop, seed, ms): (&str, u64, u64) = (&a[2], a[3].parse().unwrap(), a[4].parse().unwrap());
            let obs: Vec<_> = reg.into_iter().filter(|o| o.prop == prop).collect();
            let next = std::sync::atomic::AtomicUsize::new(0);
            let out = std::sync::Mutex::new(Vec::new());
            std::thread::scope(|s| {
                for _ in 0..8 {
                    s.spawn(|| {
                        loop {
                            let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                            let Some(o) = obs.get(i) else { break };
                            // verifier obligations are only smoke-tested natively
                            let (ms, max) = if o.kind == "run" { (ms, 50_000_000) } else { (ms / 4, 5_000) };
                            let r = if o.name.ends_with("_iso") { isolated(o, seed, ms) } else { campaign(o, seed, ms, max) };
                            out.lock().unwrap().push((i, r));
                        }
                    });
                }
            });
            let mut out = out.into_inner().unwrap();
            out.sort();
            for (_, r) in out {
                println!("{r}");
            }
        }
        Some("search") => {
            let o = reg.into_iter().find(|o| o.name == a[2]).expect("no such obligation");
            println!("{}", campaign(o, a[3].parse().unwrap(), a[4].parse().unwrap(), 200_000));
        }
        Some("replay") => {
            let o = reg.into_iter().find(|o| o.name == a[2]).expect("no such obligation");
            let vals = a.get(3).map(String::as_str).unwrap_or("");
            let vals = vals.split(',').filter(|s| !s.is_empty()).map(|s| (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()).collect();
            nd::replay(vals);
            match once(o) {
                Out::Pass => println!("obligation {} holds on this input", o.name),
                Out::Skip => println!("inconclusive: the input is outside the precondition (or cannot be built natively)"),
                Out::Fail(m) => {
                    println!("obligation {} FAILS: {m}", o.name);
                    std::process::exit(1);
                }
            }
        }
        _ => {
            eprintln!("usage: contracts list|run|search|replay");
            std::process::exit(2);
        }
    }
}
