// Positive examples for the rules that expect to find nothing in the repository.
pub fn raw(p: *const u8) -> u8 { unsafe { *p } }
pub fn prints(x: u8) { println!("{}", x); }
pub fn eprints(x: u8) { eprintln!("{}", x); }
pub fn dbgs(x: u8) -> u8 { dbg!(x) }
pub fn file(p: &str) -> bool { std::fs::write(p, b"x").is_ok() }
pub fn env() -> bool { std::env::var("X").is_ok() }
pub fn exits() { std::process::exit(3) }
pub fn spawns() { std::thread::spawn(|| 1); }
pub fn nets() -> bool { std::net::TcpStream::connect("127.0.0.1:1").is_ok() }
pub static mut COUNTER: u64 = 0;
pub static SHARED: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
pub fn bumps() -> u64 { SHARED.fetch_add(1, std::sync::atomic::Ordering::SeqCst) }
pub fn timed(n: usize) -> usize { let t = std::time::Instant::now(); if t.elapsed().as_micros() > 5 { n } else { 0 } }
pub fn untimed(n: usize) -> usize { let _t = std::time::Instant::now(); n + 1 }
pub fn hashed(v: &[u8]) -> Vec<u8> { let s: std::collections::HashSet<u8> = v.iter().copied().collect(); s.into_iter().collect() }
pub fn address(v: &[u8]) -> usize { v.as_ptr() as usize }
