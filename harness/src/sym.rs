//! Interface between a harness and whoever runs it: the symbolic executor
//! (which gives these functions a symbolic meaning) or the native replayer
//! (which feeds them the values of one concrete case).
extern "C" {
    fn sym_u8() -> u8;
    fn sym_in(lo: u8, hi: u8) -> u8;
    fn sym_u16() -> u16;
    fn sym_u32() -> u32;
    fn sym_u64() -> u64;
    fn sym_fork(n: u64) -> u64;
    fn sym_assume(c: bool);
    fn sym_prop(c: bool, p: *const u8, n: usize);
    fn sym_reach(id: u64);
    fn sym_obs(v: u64);
    fn sym_fmt(on: u64);
    fn sym_hash(k: u64);
    fn sym_exit_policy(p: u64);
    fn sym_panic_policy(p: u64);
    fn sym_tier() -> u64;
    fn sym_concretize(v: u64) -> u64;
}

/// any byte
pub fn u8() -> u8 {
    unsafe { sym_u8() }
}
pub fn u16() -> u16 {
    unsafe { sym_u16() }
}
pub fn u32() -> u32 {
    unsafe { sym_u32() }
}
pub fn u64() -> u64 {
    unsafe { sym_u64() }
}
pub fn i32() -> i32 {
    unsafe { sym_u32() as i32 }
}
pub fn flag() -> bool {
    byte_in(0, 1) == 1
}
/// any value in 0..n, kept symbolic
pub fn below(n: u8) -> u8 {
    byte_in(0, n - 1)
}
/// any byte in lo..=hi
pub fn byte_in(lo: u8, hi: u8) -> u8 {
    unsafe { sym_in(lo, hi) }
}
/// one explored path per value in 0..n
pub fn fork(n: usize) -> usize {
    unsafe { sym_fork(n as u64) as usize }
}
/// one of the entries, one path each
pub fn pick<T: Copy>(s: &[T]) -> T {
    s[fork(s.len())]
}
/// one of the entries, chosen by a symbolic index
pub fn any_of<T: Copy>(s: &[T]) -> T {
    let i = below(s.len() as u8);
    s[i as usize]
}
pub fn concretize(v: u64) -> u64 {
    unsafe { sym_concretize(v) }
}
pub fn assume(c: bool) {
    unsafe { sym_assume(c) }
}
/// the property: must hold for every value on every path
pub fn check(c: bool, msg: &'static str) {
    unsafe { sym_prop(c, msg.as_ptr(), msg.len()) }
}
/// marks a point that must be reached for the run to count (vacuity guard)
pub fn reach(id: u64) {
    unsafe { sym_reach(id) }
}
/// observation compared between the encoding and the real build
pub fn obs(v: u64) {
    unsafe { sym_obs(v) }
}
pub fn obs_bytes(b: &[u8]) {
    obs(b.len() as u64);
    // one word per 8 bytes
    for c in b.chunks(8) {
        let mut v = 0u64;
        for (i, x) in c.iter().enumerate() {
            v |= (*x as u64) << (8 * i);
        }
        obs(v);
    }
}
/// interpret formatting machinery instead of skipping it
/// hash tables hash for real, with one of several keys (otherwise any order will do)
pub fn hash(k: u64) {
    unsafe { sym_hash(k) }
}
pub fn fmt(on: bool) {
    unsafe { sym_fmt(on as u64) }
}
#[derive(Clone, Copy)]
pub enum Exit {
    /// leaving the process is a violation: the input must be accepted
    Violation = 0,
    /// leaving with a nonzero status after a diagnostic is fine
    Diagnosed = 1,
}
pub fn exit_policy(p: Exit) {
    unsafe { sym_exit_policy(p as u64) }
}
/// false: a panic is a violation; true: the API rejects by panicking
pub fn panics_allowed(on: bool) {
    unsafe { sym_panic_policy(on as u64) }
}
pub fn thorough() -> bool {
    unsafe { sym_tier() != 0 }
}
/// quick bound or thorough bound
pub fn bound(quick: usize, thorough_: usize) -> usize {
    if thorough() {
        thorough_
    } else {
        quick
    }
}

/// The command-line tool and the files it works on: an in-memory file system under the
/// symbolic executor, a scratch directory and the real program under the replayer.
pub mod cli {
    extern "C" {
        fn sym_file_put(p: *const u8, n: usize, d: *const u8, m: usize);
        fn sym_file_dir(p: *const u8, n: usize);
        fn sym_file_len(p: *const u8, n: usize) -> i64;
        fn sym_file_read(p: *const u8, n: usize, d: *mut u8, m: usize);
        fn sym_file_count() -> u64;
        fn sym_fault(kind: u64, v: u64);
        fn sym_cli_args(p: *const u8, n: usize);
        fn sym_cli_run() -> i32;
        fn sym_err_keep(on: u64);
        fn sym_err_text(p: *const u8, n: usize);
        fn sym_err_len() -> u64;
        fn sym_err_read(p: *mut u8, n: usize);
        fn sym_cli_end() -> u64;
    }
    /// what goes wrong with reads from and writes to files during the next run
    #[derive(Clone, Copy)]
    pub enum Fault {
        /// reads return at most this many bytes
        ReadPiece = 0,
        /// the n-th read is interrupted
        ReadInterrupted = 1,
        /// reads fail from this position on
        ReadFails = 2,
        /// writes take at most this many bytes
        WritePiece = 3,
        /// the n-th write is interrupted
        WriteInterrupted = 4,
        /// the device is full after this many bytes
        WriteFails = 5,
    }
    pub fn file(p: &[u8], d: &[u8]) {
        unsafe { sym_file_put(p.as_ptr(), p.len(), d.as_ptr(), d.len()) }
    }
    pub fn dir(p: &[u8]) {
        unsafe { sym_file_dir(p.as_ptr(), p.len()) }
    }
    pub fn is_dir(p: &[u8]) -> bool {
        unsafe { sym_file_len(p.as_ptr(), p.len()) == -2 }
    }
    pub fn get(p: &[u8]) -> Option<Vec<u8>> {
        let n = unsafe { sym_file_len(p.as_ptr(), p.len()) };
        if n < 0 {
            return None;
        }
        let mut v = vec![0u8; n as usize];
        unsafe { sym_file_read(p.as_ptr(), p.len(), v.as_mut_ptr(), v.len()) }
        Some(v)
    }
    /// files and directories there are
    pub fn count() -> u64 {
        unsafe { sym_file_count() }
    }
    pub fn fault(k: Fault, v: u64) {
        unsafe { sym_fault(k as u64, v) }
    }
    pub struct Ran {
        /// exit status; 101: it panicked
        pub status: i32,
        /// something was written to standard error
        pub said: bool,
    }
    pub fn eprint(a: std::fmt::Arguments<'_>) {
        let s = a.to_string();
        unsafe { sym_err_text(s.as_ptr(), s.len()) }
    }
    /// at-asm ARGS..., and what it wrote to standard error
    pub fn run_heard(args: &[&[u8]]) -> (Ran, Vec<u8>) {
        unsafe { sym_err_keep(1) }
        let r = run(args);
        let mut v = unsafe { vec![0u8; sym_err_len() as usize] };
        unsafe {
            sym_err_read(v.as_mut_ptr(), v.len());
            sym_err_keep(0);
        }
        (r, v)
    }
    /// at-asm ARGS...
    pub fn run(args: &[&[u8]]) -> Ran {
        let mut v = vec![];
        for a in args {
            v.extend_from_slice(a);
            v.push(0);
        }
        unsafe {
            sym_cli_args(v.as_ptr(), v.len());
            let status = sym_cli_run();
            let said = sym_cli_end() != 0;
            Ran { status, said }
        }
    }
}
