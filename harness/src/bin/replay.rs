//! Runs one harness natively on the values of one case.
//! usage: replay HARNESS VALUES-FILE TIER
//! The values file holds one number per sym_*/sym_fork call, in call order.
//! Exit status: 0 returned, 42 property violated, 43 panicked, 44 assumption
//! false, 45 values missing, otherwise what the code under test exited with.
use std::cell::RefCell;
use std::io::Write;

struct St {
    vals: Vec<u64>,
    next: usize,
    tier: u64,
    props: u64,
}
thread_local! { static S: RefCell<St> = const { RefCell::new(St { vals: vec![], next: 0, tier: 0, props: 0 }) }; }

fn say(s: &str) {
    let mut o = std::io::stdout().lock();
    let _ = writeln!(o, "{}", s);
    let _ = o.flush();
}
fn leave(code: i32) -> ! {
    cli::clean();
    std::process::exit(code)
}
fn next() -> u64 {
    let v = S.with(|s| {
        let mut s = s.borrow_mut();
        let i = s.next;
        s.next += 1;
        s.vals.get(i).copied()
    });
    match v {
        Some(v) => v,
        None => {
            say("RESULT out-of-values");
            leave(45)
        }
    }
}
#[no_mangle]
extern "C" fn sym_u8() -> u8 {
    next() as u8
}
#[no_mangle]
extern "C" fn sym_in(lo: u8, hi: u8) -> u8 {
    let v = next() as u8;
    if v < lo || v > hi {
        say("RESULT assume byte out of range");
        leave(44)
    }
    v
}
#[no_mangle]
extern "C" fn sym_u16() -> u16 {
    next() as u16
}
#[no_mangle]
extern "C" fn sym_u32() -> u32 {
    next() as u32
}
#[no_mangle]
extern "C" fn sym_u64() -> u64 {
    next()
}
#[no_mangle]
extern "C" fn sym_fork(n: u64) -> u64 {
    let v = next();
    if v >= n {
        say("RESULT assume fork choice out of range");
        leave(44)
    }
    v
}
#[no_mangle]
extern "C" fn sym_concretize(v: u64) -> u64 {
    v
}
#[no_mangle]
extern "C" fn sym_assume(c: bool) {
    if !c {
        say("RESULT assume");
        leave(44)
    }
}
#[no_mangle]
unsafe extern "C" fn sym_prop(c: bool, p: *const u8, n: usize) {
    S.with(|s| s.borrow_mut().props += 1);
    if !c {
        let m = std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n));
        say(&format!("RESULT prop {}", m));
        leave(42)
    }
}
#[no_mangle]
extern "C" fn sym_reach(id: u64) {
    say(&format!("REACH {}", id));
}
#[no_mangle]
extern "C" fn sym_obs(v: u64) {
    say(&format!("OBS {}", v));
}
#[no_mangle]
extern "C" fn sym_hash(_: u64) {}
#[no_mangle]
extern "C" fn sym_fmt(_: u64) {}
#[no_mangle]
extern "C" fn sym_exit_policy(p: u64) {
    say(&format!("POLICY exit {}", p));
}
#[no_mangle]
extern "C" fn sym_panic_policy(p: u64) {
    say(&format!("POLICY panic {}", p));
}
#[no_mangle]
extern "C" fn sym_tier() -> u64 {
    S.with(|s| s.borrow().tier)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let f = harness::ALL.iter().find(|(n, _)| *n == a[1]).expect("harness").1;
    let vals: Vec<u64> = std::fs::read_to_string(&a[2])
        .expect("values")
        .lines()
        .filter(|l| !l.trim().is_empty() && !l.starts_with('#'))
        .map(|l| l.split_whitespace().next().unwrap().parse().unwrap())
        .collect();
    let tier = a.get(3).map(|x| x.parse().unwrap()).unwrap_or(0);
    S.with(|s| {
        let mut s = s.borrow_mut();
        s.vals = vals;
        s.tier = tier;
    });
    std::panic::set_hook(Box::new(|i| {
        let m = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        say(&format!("RESULT panic {} at {}", m.replace('\n', " "), loc));
        leave(43)
    }));
    f();
    say(&format!("PROPS {}", S.with(|s| s.borrow().props)));
    cli::clean();
    say("RESULT return");
}

/// the tool run for real, in a directory of its own
mod cli {
    use std::ffi::OsStr;
    use std::os::unix::ffi::OsStrExt;
    use std::os::unix::process::ExitStatusExt;
    use std::path::{Path, PathBuf};
    use std::sync::Mutex;

    struct W {
        dir: Option<PathBuf>,
        args: Vec<Vec<u8>>,
        faults: [u64; 6],
        said: bool,
        err: Vec<u8>,
    }
    static M: Mutex<W> = Mutex::new(W { dir: None, args: vec![], faults: [u64::MAX; 6], said: false, err: vec![] });

    fn dir() -> PathBuf {
        let mut w = M.lock().unwrap();
        if w.dir.is_none() {
            let d = std::env::current_dir().unwrap().join(format!("scratch-{}", std::process::id()));
            let _ = std::fs::remove_dir_all(&d);
            std::fs::create_dir(&d).unwrap();
            w.dir = Some(d);
        }
        w.dir.clone().unwrap()
    }
    pub fn clean() {
        if let Ok(w) = M.lock() {
            if let Some(d) = &w.dir {
                let _ = std::fs::remove_dir_all(d);
            }
        }
    }
    unsafe fn bytes<'a>(p: *const u8, n: usize) -> &'a [u8] {
        std::slice::from_raw_parts(p, n)
    }
    unsafe fn path(p: *const u8, n: usize) -> PathBuf {
        dir().join(OsStr::from_bytes(bytes(p, n)))
    }
    fn fresh(p: &Path) {
        if p.symlink_metadata().is_ok() {
            super::say("RESULT assume file exists");
            super::leave(44)
        }
    }
    #[no_mangle]
    unsafe extern "C" fn sym_file_put(p: *const u8, n: usize, d: *const u8, m: usize) {
        fresh(&path(p, n));
        std::fs::write(path(p, n), bytes(d, m)).unwrap()
    }
    #[no_mangle]
    unsafe extern "C" fn sym_file_dir(p: *const u8, n: usize) {
        fresh(&path(p, n));
        std::fs::create_dir(path(p, n)).unwrap()
    }
    #[no_mangle]
    unsafe extern "C" fn sym_file_len(p: *const u8, n: usize) -> i64 {
        match path(p, n).symlink_metadata() {
            Ok(m) if m.is_dir() => -2,
            Ok(m) => m.len() as i64,
            Err(_) => -1,
        }
    }
    #[no_mangle]
    unsafe extern "C" fn sym_file_read(p: *const u8, n: usize, d: *mut u8, m: usize) {
        let v = std::fs::read(path(p, n)).unwrap();
        let k = v.len().min(m);
        std::slice::from_raw_parts_mut(d, m)[..k].copy_from_slice(&v[..k]);
    }
    fn count(d: &Path) -> u64 {
        std::fs::read_dir(d).unwrap().map(|e| e.unwrap()).map(|e| if e.file_type().unwrap().is_dir() { 1 + count(&e.path()) } else { 1 }).sum()
    }
    #[no_mangle]
    extern "C" fn sym_file_count() -> u64 {
        count(&dir())
    }
    #[no_mangle]
    extern "C" fn sym_fault(k: u64, v: u64) {
        M.lock().unwrap().faults[k as usize] = v;
    }
    #[no_mangle]
    unsafe extern "C" fn sym_cli_args(p: *const u8, n: usize) {
        let b = bytes(p, n);
        M.lock().unwrap().args = if n == 0 { vec![] } else { b[..n - 1].split(|c| *c == 0).map(|x| x.to_vec()).collect() };
    }
    #[no_mangle]
    extern "C" fn sym_cli_run() -> i32 {
        let d = dir();
        let mut w = M.lock().unwrap();
        let me = std::env::current_exe().unwrap();
        let kind = me.file_name().unwrap().to_str().unwrap().rsplit('-').next().unwrap().to_string();
        let mut c = std::process::Command::new(me.with_file_name(format!("at-asm-{}", kind)));
        c.args(w.args.iter().map(|a| OsStr::from_bytes(a))).current_dir(&d).stdin(std::process::Stdio::null());
        c.env_remove("RUST_BACKTRACE");
        if w.faults.iter().any(|f| *f != u64::MAX) {
            c.env("LD_PRELOAD", me.with_file_name("faults.so"));
            c.env("VERIF_FAULTS", w.faults.map(|f| f.to_string()).join(","));
        }
        let o = c.output().expect("at-asm");
        w.said = !o.stderr.is_empty();
        w.err = o.stderr.clone();
        w.faults = [u64::MAX; 6];
        match o.status.code() {
            Some(c) => c,
            None => -o.status.signal().unwrap_or(0),
        }
    }
    #[no_mangle]
    extern "C" fn sym_err_keep(_: u64) {}
    #[no_mangle]
    extern "C" fn sym_err_text(_: *const u8, _: usize) {}
    #[no_mangle]
    extern "C" fn sym_err_len() -> u64 {
        M.lock().unwrap().err.len() as u64
    }
    #[no_mangle]
    unsafe extern "C" fn sym_err_read(d: *mut u8, m: usize) {
        let w = M.lock().unwrap();
        let k = w.err.len().min(m);
        std::slice::from_raw_parts_mut(d, m)[..k].copy_from_slice(&w.err[..k]);
    }
    #[no_mangle]
    extern "C" fn sym_cli_end() -> u64 {
        M.lock().unwrap().said as u64
    }
}
