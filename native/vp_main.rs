//! vp <harness> replay <hex> <seed> | vp <harness> search <millis> <seed>
use std::panic;
use zune_jpeg::vp_shim::{Reject, Src, SRC};

fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
fn once(f: fn(), src: Src) -> (Result<bool, String>, Vec<u8>) {
    SRC.with(|s| *s.borrow_mut() = src);
    let r = panic::catch_unwind(f);
    let log = SRC.with(|s| match &*s.borrow() { Src::Bytes(v, _) => v.clone(), Src::Rng(_, l) => l.clone() });
    match r {
        Ok(()) => (Ok(true), log),
        Err(e) => {
            if e.downcast_ref::<Reject>().is_some() { return (Ok(false), log); }
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into());
            (Err(m), log)
        }
    }
}
fn esc(s: &str) -> String { s.replace('\\', "\\\\").replace('"', "'").replace('\n', " ").chars().filter(|c| !c.is_control()).take(1500).collect() }
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let last = std::sync::Arc::new(std::sync::Mutex::new(String::new()));
    let l2 = last.clone();
    panic::set_hook(Box::new(move |i| { if let Some(l) = i.location() { *l2.lock().unwrap() = format!("{}:{}", l.file(), l.line()); } }));
    let t = zune_jpeg::vp_tables();
    let f = match t.iter().find(|(n, _)| *n == a[1]) { Some(x) => x.1, None => { println!("VPRESULT {{\"status\":\"nosuch\"}}"); return; } };
    let seed: u64 = a[4].parse().unwrap_or(1);
    match a[2].as_str() {
        "replay" => {
            let b: Vec<u8> = (0..a[3].len() / 2).map(|i| u8::from_str_radix(&a[3][2 * i..2 * i + 2], 16).unwrap()).collect();
            match once(f, Src::Bytes(b, 0)).0 {
                Ok(true) => println!("VPRESULT {{\"status\":\"pass\"}}"),
                Ok(false) => println!("VPRESULT {{\"status\":\"reject\"}}"),
                Err(m) => println!("VPRESULT {{\"status\":\"fail\",\"message\":\"{}\",\"at\":\"{}\"}}", esc(&m), esc(&last.lock().unwrap())),
            }
        }
        _ => {
            let ms: u128 = a[3].parse().unwrap();
            let t0 = std::time::Instant::now();
            let (mut n, mut ok) = (0u64, 0u64);
            // a run that does not come to an end is a failure of its own
            static RUN: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
            std::thread::spawn(move || {
                let (mut last, mut since) = (0, std::time::Instant::now());
                loop {
                    std::thread::sleep(std::time::Duration::from_millis(500));
                    let r = RUN.load(std::sync::atomic::Ordering::Relaxed);
                    if r != last { last = r; since = std::time::Instant::now(); }
                    if r == last && since.elapsed().as_secs() >= 100 {
                        println!("VPRESULT {{\"status\":\"fail\",\"runs\":{},\"message\":\"no result after 100 s\",\"at\":\"\",\"seed\":{}}}", r, seed);
                        std::process::exit(0);
                    }
                }
            });
            while t0.elapsed().as_millis() < ms {
                n += 1;
                RUN.store(n, std::sync::atomic::Ordering::Relaxed);
                let (r, log) = once(f, Src::Rng(seed.wrapping_mul(0x1234_5678_9ABC_DEF1).wrapping_add(n.wrapping_mul(0xA24B_AED4_963E_E407)), vec![]));
                match r {
                    Ok(true) => ok += 1,
                    Ok(false) => {}
                    Err(m) => {
                        println!("VPRESULT {{\"status\":\"fail\",\"runs\":{},\"message\":\"{}\",\"at\":\"{}\",\"bytes\":\"{}\"}}", n, esc(&m), esc(&last.lock().unwrap()), hex(&log[..log.len().min(20000)]));
                        return;
                    }
                }
            }
            println!("VPRESULT {{\"status\":\"pass\",\"runs\":{},\"accepted\":{}}}", n, ok);
        }
    }
}
