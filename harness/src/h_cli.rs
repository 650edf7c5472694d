//! The command-line tool: which files it reads and writes, judged against what
//! the library makes of the same source.
use crate::h_asm::{assemble, Src};
use crate::h_obj::eq;
use crate::sym::cli::{self, Fault};
use crate::sym::*;

/// a source that assembles, with arbitrary literals
fn good(k: usize) -> Vec<u8> {
    let mut s = Src::new();
    match k {
        0 => {}
        1 => {
            s.t("push 0x");
            s.v.push(byte_in(b'0', b'9'));
            s.t("\nret\n");
        }
        2 => {
            s.t("section .data\nd db ").dec(2);
            s.t(", \"").b(byte_in(b'#', b'~')).b(byte_in(b'#', b'~')).t("\"\nglobal main\nsection .text\nmain: \n mov rax, d\n");
        }
        _ => {
            s.t("; ").b(byte_in(b' ', b'~')).t("\nx:\n mov ecx, ").dec(1);
            s.t(" + ").dec(1);
            s.t("\nsyscall ; ").b(byte_in(b' ', b'~')).b(byte_in(b' ', b'~'));
        }
    }
    s.v
}

/// the file at `p` holds exactly `want`
fn holds(p: &[u8], want: &[u8], why: &'static str) {
    match cli::get(p) {
        None => check(false, why),
        Some(v) => {
            check(eq(&v, want), why);
        }
    }
}
fn worked(r: &cli::Ran) {
    check(r.status != 101, "the tool panics on a run that must succeed");
    check(r.status == 0, "the tool fails on a run that must succeed");
}
fn failed(r: &cli::Ran) {
    check(r.status != 0, "the tool reports success where it must fail");
    check(r.status > 0 && r.status != 101, "the tool crashes instead of reporting the failure");
    check(r.said, "the tool fails without any diagnostic");
}
fn untouched(p: &[u8], was: &Option<Vec<u8>>, why: &'static str) {
    match was {
        Some(b) => holds(p, b, why),
        None => check(cli::get(p).is_none() && !cli::is_dir(p), why),
    }
}
/// what the output holds before the run
fn before(p: &[u8]) -> Option<Vec<u8>> {
    match fork(3) {
        0 => None,
        1 => {
            let v = vec![u8(), u8()];
            cli::file(p, &v);
            Some(v)
        }
        _ => {
            let mut v = vec![0x5a; 600];
            v[599] = u8();
            cli::file(p, &v);
            Some(v)
        }
    }
}
/// a file nobody mentions
const OTHER: &[u8] = b"other.file";
const OTHER_IS: &[u8] = b"not yours";

/// an arbitrary file name of `n` bytes
fn name(n: usize) -> Vec<u8> {
    let mut v = vec![];
    let mut dots = true;
    // beyond two bytes, those above 127 come as one pair, first or last
    let high = if n <= 2 { n } else { [n, 0, n - 2][fork(3)] };
    for i in 0..n {
        let b = if n <= 2 {
            byte_in(1, 255)
        } else if i == high || i == high + 1 {
            byte_in(128, 255)
        } else {
            byte_in(1, 127)
        };
        assume(b != b'/');
        dots = dots & (b == b'.');
        v.push(b);
    }
    if n <= 2 {
        assume(!dots);
    }
    if n == 2 {
        assume(!((v[0] == b'-') & (v[1] == b'o')));
    }
    if n > 2 {
        // the standard library's with_extension makes `..` of `..x`
        assume(!((v[0] == b'.') & (v[1] == b'.')));
    }
    v
}
fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut r = true;
    for i in 0..a.len() {
        r = r & (a[i] == b[i]);
    }
    r
}
/// NAME without its extension, plus `.o`
fn default_output(dir: &[u8], n: &[u8]) -> Vec<u8> {
    let mut stem = n.len();
    for i in 1..n.len() {
        if n[i] == b'.' {
            stem = i;
        }
    }
    let mut v = dir.to_vec();
    v.extend_from_slice(&n[..stem]);
    v.extend_from_slice(b".o");
    v
}

// ---------------------------------------------------------------- C27
pub fn names() {
    let form = fork(3);
    let (d, din, dout): (usize, &[u8], &[u8]) = [(0usize, &b""[..], &b""[..]), (1, b"d/", b""), (1, b"d.s/", b"d.s/"), (0, b"./", b"")][fork(4)];
    let n = 1 + fork(bound(4, 6));
    let base = name(n);
    let mut input = din.to_vec();
    input.extend_from_slice(&base);
    if d == 1 {
        cli::dir(&din[..din.len() - 1]);
    }
    let mut output;
    if form == 0 {
        output = default_output(din, &base);
    } else {
        output = dout.to_vec();
        output.extend_from_slice(&name(1 + fork(bound(3, 4))));
    }
    // names without the leading ./
    let bare = |p: &[u8]| if din == b"./" && p.starts_with(b"./") { p[2..].to_vec() } else { p.to_vec() };
    let (fin, fout) = (bare(&input), bare(&output));
    assume(!same(&fin, &fout));
    assume(!same(&fout, b"d"));
    let src = good(1);
    cli::file(&fin, &src);
    cli::file(OTHER, OTHER_IS);
    let was = before(&fout);
    let files = cli::count();
    reach(1);
    let r = match form {
        0 => cli::run(&[&input]),
        1 => cli::run(&[&input, b"-o", &output]),
        _ => cli::run(&[b"-o", &output, &input]),
    };
    worked(&r);
    let want = assemble(&src);
    holds(&fout, &want, "the output file holds the object file of the source");
    holds(&fin, &src, "the source is left alone");
    holds(OTHER, OTHER_IS, "other files are left alone");
    check(cli::count() == files + was.is_none() as u64, "no other file appears or goes");
    output.clear();
}

pub fn sources() {
    let src = good(fork(4));
    cli::file(b"in.asm", &src);
    let out: &[u8] = [&b"in.o"[..], b"prog"][fork(2)];
    let was = before(out);
    let files = cli::count();
    reach(1);
    let r = if out == b"in.o" { cli::run(&[b"in.asm"]) } else { cli::run(&[b"in.asm", b"-o", out]) };
    worked(&r);
    let want = assemble(&src);
    for b in &want {
        obs(*b as u64);
    }
    holds(out, &want, "the output file holds the object file of the source");
    holds(b"in.asm", &src, "the source is left alone");
    check(cli::count() == files + was.is_none() as u64, "no other file appears or goes");
}

/// short and interrupted reads and writes change nothing
pub fn faults() {
    let src = good(2 + fork(2));
    cli::file(b"in.asm", &src);
    let was = before(b"in.o");
    match fork(4) {
        0 => cli::fault(Fault::ReadPiece, [1, 7, 30][fork(3)]),
        1 => cli::fault(Fault::ReadInterrupted, fork(4) as u64),
        2 => cli::fault(Fault::WritePiece, [1, 5, 100][fork(3)]),
        _ => {
            cli::fault(Fault::WriteInterrupted, fork(bound(4, 12)) as u64);
            cli::fault(Fault::WritePiece, 50);
        }
    }
    reach(1);
    let r = cli::run(&[b"in.asm"]);
    worked(&r);
    holds(b"in.o", &assemble(&src), "the output file holds the object file of the source");
    holds(b"in.asm", &src, "the source is left alone");
    let _ = was;
}

/// sources and object files longer than any buffer on the way
pub fn large() {
    let n = if thorough() { [8192, 8193, 20000, 65537][fork(4)] } else { [8192, 20000][fork(2)] };
    let mut s = Src::of("section .data\nd db \"");
    for i in 0..n {
        s.b(b'a' + (i % 23) as u8);
    }
    let k = s.v.len() - 1;
    s.v[k] = byte_in(b'#', b'~');
    s.v[k / 2] = byte_in(b'#', b'~');
    s.t("\"\nsection .text\nmov rax, d\npush ").dec(1);
    let src = s.v;
    cli::file(b"in.asm", &src);
    before(b"x");
    reach(1);
    let r = cli::run(&[b"-o", b"x", b"in.asm"]);
    worked(&r);
    holds(b"x", &assemble(&src), "the output file holds the object file of the source");
}

/// one run after another on the same files
pub fn history() {
    let (a, b) = (good(1 + fork(3)), good(fork(4)));
    cli::file(b"a.s", &a);
    cli::file(b"b.s", &b);
    let first: &[u8] = [&b"a.o"[..], b"b.o"][fork(2)];
    let r1 = cli::run(&[b"a.s", b"-o", first]);
    worked(&r1);
    let r2 = cli::run(&[b"b.s"]);
    worked(&r2);
    reach(1);
    let want_b = assemble(&b);
    holds(b"b.o", &want_b, "the second output holds the second object file");
    if first == b"a.o" {
        holds(first, &assemble(&a), "the first output is still there");
    }
}

// ---------------------------------------------------------------- C28
/// sources that must be refused
fn bad(k: usize) -> Vec<u8> {
    let mut s = Src::new();
    match k {
        0 => s.t("mov rax\n"),
        1 => s.t("ret\npush 0x").b(byte_in(b'g', b'z')).t("\n"),
        2 => s.t("a:\n mov rax, b").b(byte_in(b'a', b'z')).t("\n"),
        3 => s.t("db \"").b(byte_in(b' ', b'!')).t("\n\"").b(byte_in(0x80, 0xbf)),
        4 => s.t("section .bss\n db ").b(byte_in(b'0', b'9')),
        5 => s.t("push ").b(byte_in(b'0', b'9')).t("; fine\n").b(byte_in(0x80, 0xff)).t("\n"),
        _ => s.t("dd 0x1").b(byte_in(b'0', b'9')).t("00000000\nret\n"),
    };
    s.v
}

pub fn bad_source() {
    let src = bad(fork(7));
    cli::file(b"in.asm", &src);
    cli::file(OTHER, OTHER_IS);
    let was = before(b"in.o");
    let files = cli::count();
    reach(1);
    let r = if fork(2) == 0 { cli::run(&[b"in.asm"]) } else { cli::run(&[b"-o", b"in.o", b"in.asm"]) };
    failed(&r);
    untouched(b"in.o", &was, "a refused source leaves the output as it was");
    holds(b"in.asm", &src, "the source is left alone");
    holds(OTHER, OTHER_IS, "other files are left alone");
    check(cli::count() == files, "no file appears or goes");
}

/// any short source: assembled completely, or refused with the output as it was
pub fn any_source() {
    let mut s = Src::of(["", "ret\n", "push ", "db ", "x: mov rax, "][fork(5)]);
    for _ in 0..fork(bound(2, 3)) + 1 {
        s.b(u8());
    }
    let src = s.v;
    cli::file(b"in.asm", &src);
    let was = before(b"in.o");
    let r = cli::run(&[b"in.asm"]);
    if r.status == 0 {
        reach(1);
        holds(b"in.o", &assemble(&src), "the output file holds the object file of the source");
    } else {
        reach(2);
        failed(&r);
        untouched(b"in.o", &was, "a refused source leaves the output as it was");
    }
}

/// every argument vector over a few words
pub fn arguments() {
    let words: [&[u8]; 4] = [b"-o", b"a.s", b"b.s", b"out"];
    let n = fork(bound(5, 6));
    let mut v: Vec<&[u8]> = vec![];
    for _ in 0..n {
        v.push(words[fork(4)]);
    }
    // what the words mean: the value after -o is the output, one word is left
    let (mut outs, mut ins, mut i, mut bad) = (vec![], vec![], 0, false);
    while i < n {
        if v[i] == b"-o" {
            if i + 1 < n {
                // an output called -o: nobody can tell
                assume(v[i + 1] != b"-o");
                outs.push(v[i + 1]);
            } else {
                bad = true;
            }
            i += 2;
        } else {
            ins.push(v[i]);
            i += 1;
        }
    }
    let bad = bad || outs.len() > 1 || ins.len() != 1;
    let (a, b) = (good(1), good(0));
    cli::file(b"a.s", &a);
    cli::file(b"b.s", &b);
    let old: &[u8] = b"old";
    cli::file(b"a.o", old);
    let files = cli::count();
    if bad {
        reach(1);
        let r = cli::run(&v);
        failed(&r);
        holds(b"a.o", old, "a refused command leaves files alone");
    } else if ins[0] == b"out" {
        // there is no such source
        reach(2);
        let r = cli::run(&v);
        failed(&r);
        holds(b"a.o", old, "a run without source leaves files alone");
    } else {
        let out: &[u8] = if outs.len() == 1 {
            outs[0]
        } else if ins[0] == b"a.s" {
            b"a.o"
        } else {
            b"b.o"
        };
        assume(out != ins[0]);
        reach(3);
        let r = cli::run(&v);
        worked(&r);
        let src = if ins[0] == b"a.s" { &a } else { &b };
        holds(out, &assemble(src), "the output file holds the object file of the source");
        if out != b"a.o" {
            holds(b"a.o", old, "other files are left alone");
        }
        if out != b"a.s" {
            holds(b"a.s", &a, "sources are left alone");
        }
        if out != b"b.s" {
            holds(b"b.s", &b, "sources are left alone");
        }
        return;
    }
    holds(b"a.s", &a, "a refused command leaves files alone");
    holds(b"b.s", &b, "a refused command leaves files alone");
    check(cli::count() == files, "a refused command creates nothing");
}

/// the source is missing, a directory, or in a directory that is not there
pub fn unreadable() {
    let base = name(1 + fork(bound(3, 5)));
    let k = fork(4);
    let mut input: Vec<u8> = vec![];
    match k {
        1 => {
            cli::dir(&base);
        }
        2 => input.extend_from_slice(b"nodir/"),
        3 => {
            // a file where the directory should be
            cli::file(b"nodir", b"");
            input.extend_from_slice(b"nodir/");
        }
        _ => {}
    }
    input.extend_from_slice(&base);
    assume(!same(&base, b"out"));
    let was = before(b"out");
    let files = cli::count();
    reach(1);
    let r = cli::run(&[&input, b"-o", b"out"]);
    failed(&r);
    untouched(b"out", &was, "a run without source leaves the output as it was");
    check(cli::count() == files, "no file appears or goes");
}

/// the output would be the source itself
pub fn same_file() {
    let src = good(1);
    let base = name(1 + fork(bound(3, 5)));
    let join = |a: &[u8], b: &[u8], c: &[u8]| [a, b, c].concat();
    let how = fork(7);
    let at = match how {
        0 => join(b"", &base, b".o"),
        1 => join(b"d/", &base, b".o"),
        5 => join(b"d/", &base, b""),
        _ => base.clone(),
    };
    if how == 1 || how == 5 {
        cli::dir(b"d");
    }
    cli::file(&at, &src);
    let files = cli::count();
    let dot = join(b"./", &at, b"");
    reach(1);
    let r = match how {
        0 | 1 => cli::run(&[&at]),
        2 | 5 => cli::run(&[&at, b"-o", &at]),
        3 => cli::run(&[b"-o", &dot, &at]),
        4 => cli::run(&[&dot, b"-o", &at]),
        _ => cli::run(&[b"-o", &at, &at]),
    };
    failed(&r);
    holds(&at, &src, "the source is not overwritten with its own object file");
    check(cli::count() == files, "no file appears or goes");
}

/// the output cannot be opened
pub fn unwritable() {
    let src = good(1);
    cli::file(b"in.asm", &src);
    let base = name(1 + fork(bound(3, 5)));
    let mut output: Vec<u8> = vec![];
    match fork(3) {
        0 => cli::dir(&base),
        1 => output.extend_from_slice(b"nodir/"),
        _ => output.extend_from_slice(b"in.asm/"),
    }
    output.extend_from_slice(&base);
    let files = cli::count();
    reach(1);
    let r = cli::run(&[b"in.asm", b"-o", &output]);
    failed(&r);
    holds(b"in.asm", &src, "the source is left alone");
    check(cli::count() == files, "no file appears or goes");
}

/// reading the source breaks off
pub fn read_fails() {
    let src = good(2 + fork(2));
    cli::file(b"in.asm", &src);
    let was = before(b"in.o");
    let at = fork(src.len() + 1);
    cli::fault(Fault::ReadFails, at as u64);
    if fork(2) == 1 {
        cli::fault(Fault::ReadPiece, 9);
    }
    reach(1);
    let r = cli::run(&[b"in.asm"]);
    failed(&r);
    untouched(b"in.o", &was, "a source that cannot be read leaves the output as it was");
    holds(b"in.asm", &src, "the source is left alone");
}

/// the device fills up
pub fn write_fails() {
    let src = good(2);
    cli::file(b"in.asm", &src);
    let n = assemble(&src).len();
    before(b"in.o");
    let at = if thorough() { fork(n) } else { [0, 1, 32, n / 2, n - 1][fork(5)] };
    cli::fault(Fault::WriteFails, at as u64);
    if fork(2) == 1 {
        cli::fault(Fault::WritePiece, 60);
    }
    reach(1);
    let r = cli::run(&[b"in.asm"]);
    failed(&r);
    holds(b"in.asm", &src, "the source is left alone");
}

// ---------------------------------------------------------------- C30
/// a number in the text that stands by itself
fn mentions(t: &[u8], k: usize) -> bool {
    let mut i = 0;
    while i < t.len() {
        if !t[i].is_ascii_digit() {
            i += 1;
            continue;
        }
        let mut v = 0usize;
        while i < t.len() && t[i].is_ascii_digit() {
            v = (v * 10 + (t[i] - b'0') as usize) % 1_000_003;
            i += 1;
        }
        if v == k {
            return true;
        }
    }
    false
}
fn contains(t: &[u8], w: &[u8]) -> bool {
    let mut r = false;
    if w.len() <= t.len() {
        for i in 0..=t.len() - w.len() {
            r = r | same(&t[i..i + w.len()], w);
        }
    }
    r
}
const FINE: [&str; 12] = [
    "", "; note", "ret", "section .data", "section .text", "   \t", "push 1 ; x", "global main", "dd 3, \"a;b\"", "mov rax, 5 + 5\r", "syscall", "mov rbx, rsi",
];
/// lines that say something wrong, without a digit in them
fn wrong(s: &mut Src, k: usize) {
    match k {
        0 => s.t("mov rax"),
        1 => s.t("push ").b(byte_in(b'g', b'q')).t(" + +"),
        2 => s.t("db \"").b(byte_in(b'a', b'z')),
        3 => s.t("ret ").b(byte_in(b'a', b'z')),
        4 => s.t("section .").b(byte_in(b'u', b'z')),
        5 => s.t("x").b(byte_in(b'a', b'z')).t(": ret"),
        6 => s.t("global"),
        7 => s.t("db ").b(byte_in(b'g', b'z')),
        _ => s.t("MOV").b(byte_in(b'A', b'Z')).t(" eax"),
    };
}
/// a wrong line among fine ones: the diagnostic gives its number
pub fn diag_line() {
    let mut s = Src::new();
    let n = fork(bound(3, 4));
    for _ in 0..n {
        s.t(FINE[fork(12)]).t("\n");
    }
    wrong(&mut s, fork(9));
    let more = fork(3);
    if more > 0 {
        s.t("\nret\n");
    }
    if more > 1 {
        s.t("push\n");
    }
    cli::file(b"in.asm", &s.v);
    reach(1);
    let (r, t) = cli::run_heard(&[b"in.asm"]);
    failed(&r);
    check(mentions(&t, n + 1), "the diagnostic gives the number of the wrong line");
}
/// the same far down, and in a source that breaks off
pub fn diag_line_many() {
    let n = pick(if thorough() { &[9usize, 98, 99, 254, 255, 256, 257, 999, 4097] } else { &[9usize, 99, 255, 256, 257] });
    let mut s = Src::new();
    let mut unread = false;
    for i in 0..n {
        s.t(["push rbp\n", "\n", "mov rax, 7; seven\r\n", "; no\n"][i % 4]);
    }
    let k = s.v.len();
    match fork(4) {
        0 => wrong(&mut s, 7),
        1 => {
            // not UTF-8
            s.t("; ").b(byte_in(0x80, 0xbf)).t("\n");
        }
        2 => {
            s.t("ret\n");
            cli::fault(Fault::ReadFails, k as u64);
            unread = true;
        }
        _ => {
            // a repeated name
            s.t("a:");
            let mut p = Src::of("a:\n");
            p.v.extend_from_slice(&s.v);
            s = p;
            cli::file(b"in.asm", &s.v);
            reach(2);
            let (r, t) = cli::run_heard(&[b"in.asm"]);
            failed(&r);
            check(mentions(&t, n + 2), "the diagnostic gives the number of the second definition");
            check(contains(&t, b" a "), "the diagnostic names the symbol");
            return;
        }
    }
    cli::file(b"in.asm", &s.v);
    reach(1);
    let (r, t) = cli::run_heard(&[b"in.asm"]);
    failed(&r);
    if unread {
        check(mentions(&t, n + 1) | contains(&t, b"in.asm"), "the diagnostic gives the line that cannot be read, or the file");
    } else {
        check(mentions(&t, n + 1), "the diagnostic gives the number of the wrong line");
    }
}
/// an undefined symbol is named
pub fn diag_symbol() {
    let mut s = Src::of(["", "section .data\n", "good:\nmov rcx, good\n"][fork(3)]);
    let mut nm = vec![];
    for _ in 0..1 + fork(bound(3, 6)) {
        nm.push(byte_in(b'a', b'z'));
    }
    // no register is called q...
    nm.insert(0, b'q');
    s.t("mov rax, ");
    s.v.extend_from_slice(&nm);
    s.t("\n").t(["", "qqqqqqqqq:\n"][fork(2)]);
    cli::file(b"in.asm", &s.v);
    reach(1);
    let (r, t) = cli::run_heard(&[b"in.asm"]);
    failed(&r);
    check(contains(&t, &nm), "the diagnostic names the undefined symbol");
}
/// a file that cannot be used is named
pub fn diag_file() {
    let mut nm = vec![b'k'];
    for _ in 0..1 + fork(bound(3, 6)) {
        nm.push(byte_in(b'!', b'~'));
    }
    for b in &nm {
        assume(*b != b'/');
    }
    let (r, t) = match fork(4) {
        0 => cli::run_heard(&[&nm]),
        1 => {
            cli::file(b"in.asm", b"ret\n");
            cli::dir(&nm);
            cli::run_heard(&[b"in.asm", b"-o", &nm])
        }
        2 => {
            cli::file(b"in.asm", b"ret\n");
            cli::fault(Fault::WriteFails, 40);
            cli::run_heard(&[b"-o", &nm, b"in.asm"])
        }
        _ => {
            let mut p = nm.clone();
            p.extend_from_slice(b"/x.s");
            cli::run_heard(&[&p])
        }
    };
    reach(1);
    failed(&r);
    check(contains(&t, &nm), "the diagnostic names the file");
}
