//! at-asm: what the assembler does with a source text, judged by the object
//! file it writes, against a reading of the source written down here.
use crate::h_mac::{le16, le32, le64};
use crate::h_obj::{eq, Sink};
use crate::machoref::{parse, View};
use crate::sym::*;
use crate::x64ref::{decode, Inst, Kind};
use at_asm::Assembler;
use std::io::Read;

// ---------------------------------------------------------------- sources
/// a source text under construction
#[derive(Clone, Default)]
pub struct Src {
    pub v: Vec<u8>,
}
impl Src {
    pub fn new() -> Src {
        Src { v: Vec::new() }
    }
    pub fn of(s: &str) -> Src {
        let mut r = Src::new();
        r.t(s);
        r
    }
    pub fn t(&mut self, s: &str) -> &mut Src {
        self.v.extend_from_slice(s.as_bytes());
        self
    }
    pub fn b(&mut self, b: u8) -> &mut Src {
        self.v.push(b);
        self
    }
    /// `n` arbitrary decimal digits (up to 19: every value fits 64 bits)
    pub fn dec(&mut self, n: usize) -> Num {
        let mut v = 0u64;
        for _ in 0..n {
            let d = byte_in(b'0', b'9');
            self.v.push(d);
            v = v.wrapping_mul(10).wrapping_add((d - b'0') as u64);
        }
        Num { v, big: false }
    }
    /// the 20-digit decimal numbers that share all but the last `n` digits with 2^64
    pub fn dec_edge(&mut self, n: usize) -> Num {
        let top = &b"18446744073709551616"[..20 - n];
        let mut v = 0u128;
        for &d in top {
            self.v.push(d);
            v = v * 10 + (d - b'0') as u128;
        }
        for _ in 0..n {
            let d = byte_in(b'0', b'9');
            self.v.push(d);
            v = v * 10 + (d - b'0') as u128;
        }
        Num { v: v as u64, big: v > u64::MAX as u128 }
    }
    /// `0x` and `n` arbitrary hexadecimal digits of either case
    pub fn hex(&mut self, n: usize) -> Num {
        self.t("0x");
        let mut v = 0u64;
        let mut over = 0u8;
        for i in 0..n {
            let y = byte_in(0, 21);
            let (ten, up) = (((y >= 10) as u8).wrapping_neg(), ((y >= 16) as u8).wrapping_neg());
            // 0-9 a-f A-F
            self.v.push(b'0' + y + (ten & 39) - (up & 38));
            let x = y - (up & 6);
            if n - i > 16 {
                over |= x;
            }
            v = v << 4 | x as u64;
        }
        Num { v, big: over != 0 }
    }
    /// a literal in one of the forms
    pub fn num(&mut self, f: Form) -> Num {
        match f {
            Form::Dec(n) => self.dec(n),
            Form::Edge(n) => self.dec_edge(n),
            Form::Hex(n) => self.hex(n),
        }
    }
}
#[derive(Clone, Copy)]
pub struct Num {
    pub v: u64,
    /// does not fit 64 bits
    pub big: bool,
}
#[derive(Clone, Copy)]
pub enum Form {
    Dec(usize),
    Edge(usize),
    Hex(usize),
}
use Form::*;

pub fn assemble(src: &[u8]) -> Vec<u8> {
    let mut out = Vec::new();
    let mut a = Assembler::new();
    a.read_from(&mut &src[..]);
    a.write_into(&mut out);
    if out.len() > 4096 {
        obs(out.len() as u64);
        obs_bytes(&out[..512]);
        obs_bytes(&out[out.len() - 64..]);
    } else {
        obs_bytes(&out);
    }
    out
}
/// the source must be accepted
fn accepted(src: &[u8]) -> Vec<u8> {
    exit_policy(Exit::Violation);
    assemble(src)
}
/// the source must be refused with a diagnostic
fn refused(src: &[u8], why: &'static str) {
    reach(9);
    exit_policy(Exit::Diagnosed);
    assemble(src);
    check(false, why);
}
fn text<'a>(v: &View<'a>) -> &'a [u8] {
    match v.find("__TEXT", "__text") {
        Some((_, s)) => v.data(s),
        None => &[],
    }
}
fn data<'a>(v: &View<'a>) -> &'a [u8] {
    match v.find("__DATA", "__data") {
        Some((_, s)) => v.data(s),
        None => &[],
    }
}
fn one_inst(src: &[u8]) -> Option<Inst> {
    let out = accepted(src);
    let v = parse(&out)?;
    let t = text(&v);
    check(v.sects.len() == 1, "one section");
    let d = decode(t);
    check(d.is_some(), "the line assembles to a known instruction");
    let d = d?;
    check(d.len == t.len(), "the line assembles to exactly one instruction");
    Some(d)
}

const R64: [&str; 16] = [
    "rax", "rcx", "rdx", "rbx", "rsp", "rbp", "rsi", "rdi", "r8", "r9", "r10", "r11", "r12", "r13", "r14", "r15",
];
const R32: [&str; 16] = [
    "eax", "ecx", "edx", "ebx", "esp", "ebp", "esi", "edi", "r8d", "r9d", "r10d", "r11d", "r12d", "r13d", "r14d", "r15d",
];
const R16: [&str; 16] = [
    "ax", "cx", "dx", "bx", "sp", "bp", "si", "di", "r8w", "r9w", "r10w", "r11w", "r12w", "r13w", "r14w", "r15w",
];
fn reg(i: usize) -> (&'static str, u8, u8) {
    match i / 16 {
        0 => (R64[i % 16], 64, (i % 16) as u8),
        1 => (R32[i % 16], 32, (i % 16) as u8),
        _ => (R16[i % 16], 16, (i % 16) as u8),
    }
}

// ---------------------------------------------------------------- C16
const DIRS: [(&str, usize); 4] = [("db", 1), ("dw", 2), ("dd", 4), ("dq", 8)];

fn fits(n: &Num, bytes: usize) -> bool {
    !n.big && (bytes == 8 || n.v >> (8 * bytes as u32 & 63) == 0)
}
fn put_le(v: &mut Vec<u8>, x: u64, n: usize) {
    for i in 0..n {
        v.push((x >> (8 * i)) as u8);
    }
}
/// literal forms whose length straddles the directive's width
fn forms(w: usize) -> Form {
    let t = thorough();
    if fork(2) == 0 {
        Hex(match (w, t) {
            (1, _) => fork(4) + 1,
            (_, true) => fork(2 * w + 2) + 1,
            _ => pick(&[1, 2 * w - 1, 2 * w, 2 * w + 1]),
        })
    } else {
        let m = [0, 3, 5, 0, 10, 0, 0, 0, 19][w];
        let n = match (w, t) {
            (1, _) => fork(4) + 1,
            (_, true) => fork(m + 1) + 1,
            _ => pick(&[1, m - 1, m, m + 1]),
        };
        if n > 19 {
            Edge(if t { 6 } else { 3 })
        } else {
            Dec(n)
        }
    }
}
/// one literal of any width under each directive
pub fn data_num() {
    let (d, w) = DIRS[fork(4)];
    let mut s = Src::of("section .data\n");
    if fork(2) == 1 {
        s.t("x ");
    }
    s.t(d).t(" ");
    let f = forms(w);
    let n = s.num(f);
    s.t("\n");
    if fits(&n, w) {
        let out = accepted(&s.v);
        if let Some(v) = parse(&out) {
            let mut want = Vec::new();
            put_le(&mut want, n.v, w);
            check(eq(data(&v), &want), "a literal becomes its value in little-endian order");
            reach(1);
        }
    } else {
        refused(&s.v, "a literal too wide for its directive is refused");
    }
}
/// several literals in one directive, and directives in a row
pub fn data_list() {
    let mut s = Src::of("section .data\n");
    let mut want = Vec::new();
    let lines = 1 + fork(2);
    for l in 0..lines {
        let (d, w) = DIRS[fork(4)];
        s.t(d).t(" ");
        let k = if l == 0 { 1 + fork(3) } else { 1 };
        for i in 0..k {
            if i > 0 {
                let sep = [", ", ",", "  ", ",\t"][fork(bound(2, 4))];
                s.t(sep);
            }
            let f = if fork(2) == 0 { Hex(2 * w) } else { Dec(2) };
            let n = s.num(f);
            put_le(&mut want, n.v, w);
        }
        s.t("\n");
    }
    let out = accepted(&s.v);
    if let Some(v) = parse(&out) {
        check(eq(data(&v), &want), "the literals follow one another in source order");
        reach(1);
    }
}

impl Src {
    pub fn plain_dec(&mut self, mut k: usize) {
        let mut d = [0u8; 20];
        let mut n = 0;
        loop {
            d[n] = b'0' + (k % 10) as u8;
            n += 1;
            k /= 10;
            if k == 0 {
                break;
            }
        }
        while n > 0 {
            n -= 1;
            self.v.push(d[n]);
        }
    }
}
/// more items than a narrow count can hold, on one line or one line each
pub fn data_list_long() {
    let (d, w) = DIRS[fork(4)];
    let n = pick(if thorough() { &[127usize, 128, 255, 256, 257, 300, 2000] } else { &[255usize, 256, 257] });
    let lines = fork(2) == 1;
    let mut s = Src::of("section .data\n");
    let mut want = Vec::new();
    for i in 0..n {
        if i == 0 || lines {
            s.t(d).t(" ");
        } else {
            s.t(", ");
        }
        let x = if i < 2 || i == 254 || i == 255 || i + 1 == n {
            s.num(Hex(2 * w)).v
        } else {
            s.plain_dec(i % 251);
            (i % 251) as u64
        };
        put_le(&mut want, x, w);
        if lines {
            s.t("\n");
        }
    }
    let out = accepted(&s.v);
    if let Some(v) = parse(&out) {
        v.check_layout();
        check(eq(data(&v), &want), "the literals follow one another in source order");
        reach(1);
    }
}
/// leading zeros do not change a value, however many
pub fn data_zeros() {
    let (d, w) = DIRS[fork(4)];
    let mut s = Src::of("section .data\n");
    s.t(d).t(" ");
    let hex = fork(2) == 1;
    let z = pick(if thorough() { &[1usize, 2, 7, 16, 17, 18, 19, 20, 21, 64, 255, 256, 257, 300] } else { &[1usize, 3, 17, 20, 256, 257] });
    if hex {
        s.t("0x");
    }
    for _ in 0..z {
        s.b(b'0');
    }
    let mut v = 0;
    let k = if hex { 2 * w } else { 2 };
    for i in 0..k {
        if hex {
            let x = if i < 1 || i + 1 == k { below(16) } else { 7 };
            s.b(if x < 10 { b'0' + x } else { b'a' + x - 10 });
            v = v << 4 | x as u64;
        } else {
            let x = below(10);
            s.b(b'0' + x);
            v = v * 10 + x as u64;
        }
    }
    s.t("\n");
    let mut want = Vec::new();
    put_le(&mut want, v, w);
    let out = accepted(&s.v);
    if let Some(v) = parse(&out) {
        check(eq(data(&v), &want), "leading zeros do not change a literal's value");
        reach(1);
    }
}

// ---------------------------------------------------------------- C17
/// n arbitrary characters a string may contain (printable or tab, no quote)
fn chars(s: &mut Src, want: &mut Vec<u8>, n: usize) {
    for _ in 0..n {
        let c = u8();
        assume((c >= 0x20 && c <= 0x7e && c != b'"') || c == b'\t');
        s.b(c);
        want.push(c);
    }
}
fn pad(want: &mut Vec<u8>, n: usize, w: usize) {
    let mut n = n;
    while n % w != 0 {
        want.push(0);
        n += 1;
    }
}
/// one string of any printable characters
pub fn data_str() {
    let (d, w) = DIRS[fork(4)];
    let mut s = Src::of("section .data\n");
    if fork(2) == 1 {
        s.t("x ");
    }
    s.t(d).t(" \"");
    let n = fork(bound(5, 9)) * if thorough() { 1 } else { 1 };
    let extra = if w == 8 { fork(2) * 5 } else { 0 };
    let mut want = Vec::new();
    chars(&mut s, &mut want, n + extra);
    s.t("\"");
    s.t(["\n", " ; a \"comment\"\n", ""][fork(3)]);
    pad(&mut want, n + extra, w);
    let out = accepted(&s.v);
    if let Some(v) = parse(&out) {
        check(eq(data(&v), &want), "a string becomes its bytes, zero-padded to a multiple of the item size");
        reach(1);
    }
}
/// strings and numbers mixed in one directive
pub fn data_mixed() {
    let (d, w) = DIRS[fork(4)];
    let mut s = Src::of("section .data\n");
    s.t(d).t(" ");
    let mut want = Vec::new();
    let k = 2 + fork(bound(1, 2));
    for i in 0..k {
        if i > 0 {
            s.t([", ", ","][fork(2)]);
        }
        if fork(2) == 0 {
            let n = s.num(Hex(2 * w));
            put_le(&mut want, n.v, w);
        } else {
            let n = fork(4);
            s.t("\"");
            chars(&mut s, &mut want, n);
            s.t("\"");
            pad(&mut want, n, w);
        }
    }
    s.t("\n");
    let out = accepted(&s.v);
    if let Some(v) = parse(&out) {
        check(eq(data(&v), &want), "strings and numbers follow one another in source order");
        reach(1);
    }
}
/// printable text of a length, arbitrary in some places
fn long_text(n: usize, free: &[usize]) -> Vec<u8> {
    let mut v = Vec::with_capacity(n);
    let mut c = b'a';
    for _ in 0..n {
        v.push(c);
        c = if c == b'w' { b'a' } else { c + 1 };
    }
    for i in free {
        if *i < n {
            v[*i] = byte_in(0x23, 0x7e);
        }
    }
    v
}
/// strings longer than narrow counts and read buffers
pub fn data_str_long() {
    let (d, w) = DIRS[fork(4)];
    let n = pick(if thorough() {
        &[63usize, 64, 127, 128, 254, 255, 256, 257, 1023, 4095, 4096, 8190, 8191, 8192, 8193, 16384, 65534, 65535, 65536, 65537]
    } else {
        &[255usize, 256, 257, 8191, 8193, 65536, 65537]
    });
    let mut s = Src::of("section .data\n");
    s.t(d).t(" \"");
    let mut want = long_text(n, if n < 8191 { &[255, 256] } else { &[8191, 65535, 65536] });
    s.v.extend_from_slice(&want);
    s.t("\"");
    pad(&mut want, n, w);
    if fork(2) == 1 {
        s.t(", ");
        let x = s.num(Hex(2 * w));
        put_le(&mut want, x.v, w);
    }
    s.t("\n");
    let out = accepted(&s.v);
    if let Some(v) = parse(&out) {
        v.check_layout();
        check(eq(data(&v), &want), "a string becomes its bytes, zero-padded to a multiple of the item size");
        reach(1);
    }
}
/// characters of two and three UTF-8 bytes
pub fn data_utf8() {
    let (d, w) = DIRS[fork(4)];
    let mut s = Src::of("section .data\n");
    s.t(d).t(" \"");
    let mut want = Vec::new();
    if fork(2) == 1 {
        chars(&mut s, &mut want, 1);
    }
    let lead = if fork(2) == 0 { vec![byte_in(0xc2, 0xdf)] } else { vec![byte_in(0xe1, 0xec), byte_in(0x80, 0xbf)] };
    for b in lead {
        s.b(b);
        want.push(b);
    }
    let c = byte_in(0x80, 0xbf);
    s.b(c);
    want.push(c);
    s.t("\"\n");
    let n = want.len();
    pad(&mut want, n, w);
    let out = accepted(&s.v);
    if let Some(v) = parse(&out) {
        check(eq(data(&v), &want), "a string becomes its UTF-8 bytes, zero-padded");
        reach(1);
    }
}
/// a string that is never closed
pub fn data_unclosed() {
    let mut s = Src::of("section .data\n");
    let (d, _) = DIRS[fork(4)];
    s.t(d).t(" ");
    if fork(2) == 1 {
        s.t("1, ");
    }
    s.t("\"");
    let mut w = Vec::new();
    let n = fork(4);
    chars(&mut s, &mut w, n);
    s.t(["\n", ""][fork(2)]);
    reach(1);
    refused(&s.v, "an unclosed string is refused");
}

// ---------------------------------------------------------------- C18
/// every pair of register names
pub fn mov_regs() {
    let (a, asz, an) = reg(fork(48));
    let (b, bsz, bn) = reg(fork(48));
    let mut s = Src::new();
    s.t("mov ").t(a).t(", ").t(b).t("\n");
    if asz != bsz {
        refused(&s.v, "a move between registers of different size is refused");
        return;
    }
    if let Some(i) = one_inst(&s.v) {
        check(i.kind == Kind::MovRmReg && !i.is_mem, "a register move");
        check(i.size == asz, "operand size");
        check(i.rm_reg == an && i.reg == bn, "destination first, source second");
        reach(1);
    }
}
/// every register with a literal of any value
pub fn mov_imm() {
    let (r, sz, n) = reg(fork(48));
    let w = sz as usize / 8;
    let mut s = Src::new();
    s.t("mov ").t(r).t(", ");
    let f = forms(w);
    let x = s.num(f);
    s.t("\n");
    if fits(&x, w) {
        if let Some(i) = one_inst(&s.v) {
            check(i.kind == Kind::MovRegImm && i.size == sz, "an immediate move of the register's size");
            check(i.reg == n, "destination register");
            check(i.imm == x.v, "immediate value");
            reach(1);
        }
    } else {
        refused(&s.v, "an immediate too wide for the register is refused");
    }
}
/// operands that are no register names: every name but the 48 is refused as a
/// destination
pub fn mov_not_reg() {
    let n = 1 + fork(bound(3, 4));
    let mut nm = Vec::new();
    for _ in 0..n {
        let c = u8();
        assume((c >= b'a' && c <= b'z') || (c >= b'0' && c <= b'9'));
        nm.push(c);
    }
    for i in 0..48 {
        let r = reg(i).0.as_bytes();
        if r.len() == n {
            assume(!eq(r, &nm));
        }
    }
    let mut s = Src::of("mov ");
    s.v.extend_from_slice(&nm);
    s.t(", 1\n");
    reach(1);
    refused(&s.v, "an unknown register is refused");
}

// ---------------------------------------------------------------- C19
fn expr_forms() -> (usize, Form, Form) {
    let l: &[Form] = if thorough() {
        &[Dec(1), Dec(5), Dec(10), Dec(19), Edge(3), Hex(1), Hex(4), Hex(8), Hex(15), Hex(16)]
    } else {
        &[Dec(3), Dec(10), Edge(3), Hex(4), Hex(8), Hex(16)]
    };
    // one choice, so that it can be divided evenly
    let c = fork(3 * l.len() * l.len());
    (c % 3, l[c / 3 % l.len()], l[c / 3 / l.len()])
}
/// `mov reg, a + b` and `a - b`
pub fn expr() {
    let (c, fa, fb) = expr_forms();
    let (r, sz, n) = reg([3usize, 16 + 9, 32 + 5][c]);
    let mut s = Src::new();
    s.t("mov ").t(r).t([", ", ","][fork(2)]);
    let a = s.num(fa);
    let plus = fork(2) == 0;
    s.t(if plus { " + " } else { [" - ", "  -\t"][fork(2)] });
    let b = s.num(fb);
    s.t("\n");
    assume(!a.big && !b.big);
    // the mathematical value lies in 0..2^64, or wraps
    let v = if plus { a.v.wrapping_add(b.v) } else { a.v.wrapping_sub(b.v) };
    let exact = if plus { v >= a.v } else { a.v >= b.v };
    let w = sz as usize / 8;
    let fit = exact && fits(&Num { v, big: false }, w);
    if fit {
        if let Some(i) = one_inst(&s.v) {
            check(i.kind == Kind::MovRegImm && i.size == sz && i.reg == n, "an immediate move to the register");
            check(i.imm == v, "value of the expression");
            reach(1);
        }
    } else {
        // wraps to the register's size or is refused, never another value
        exit_policy(Exit::Diagnosed);
        let out = assemble(&s.v);
        if let Some(o) = parse(&out) {
            let d = decode(text(&o));
            check(d.is_some(), "the line assembles to a known instruction");
            if let Some(d) = d {
                let m = if sz == 64 { u64::MAX } else { (1u64 << (sz & 63)) - 1 };
                check(d.kind == Kind::MovRegImm && d.reg == n && d.size == sz, "an immediate move to the register");
                check(d.imm == v & m, "an expression out of range wraps to the operand size or is refused");
                // a non-negative value that does not fit is refused
                check(!exact, "a value too wide for the register is refused");
                reach(2);
            }
        }
    }
}
/// malformed expressions are refused
pub fn expr_bad() {
    let (r, _, _) = reg([0usize, 16 + 3, 32 + 9][fork(3)]);
    let mut s = Src::new();
    s.t("mov ").t(r).t(", ");
    let d = |s: &mut Src| {
        s.dec(1);
    };
    match fork(12) {
        0 => {
            s.t("+ ");
            d(&mut s);
        }
        1 => {
            s.t("- ");
            d(&mut s);
        }
        2 => {
            d(&mut s);
            s.t(" +");
        }
        3 => {
            d(&mut s);
            s.t(" - - ");
            d(&mut s);
        }
        4 => {
            d(&mut s);
            s.t(" ");
            d(&mut s);
        }
        5 => {
            d(&mut s);
            s.t(" + rax");
        }
        6 => {
            d(&mut s);
            s.t(" + ");
            d(&mut s);
            s.t(" ");
            d(&mut s);
        }
        7 => {
            d(&mut s);
            s.t(" + ");
            d(&mut s);
            s.t(" +");
        }
        8 => {
            d(&mut s);
            s.t(" * ");
            d(&mut s);
        }
        9 => {
            s.t("0x0x");
            d(&mut s);
        }
        10 => {
            d(&mut s);
            s.t(", ");
            d(&mut s);
        }
        _ => {
            s.t("0x");
        }
    }
    s.t("\n");
    reach(1);
    refused(&s.v, "a malformed expression is refused");
}

// ---------------------------------------------------------------- C20
pub fn push_imm() {
    let mut s = Src::of("push ");
    let f = match fork(3) {
        0 => Hex(1 + fork(bound(9, 17))),
        1 => Dec(1 + fork(bound(11, 19))),
        _ => Edge(3),
    };
    let n = s.num(f);
    s.t("\n");
    if !n.big && n.v < 1 << 31 {
        if let Some(i) = one_inst(&s.v) {
            check(i.kind == Kind::PushImm && i.size == 64, "pushes 64 bits");
            check(i.imm == n.v, "the value pushed is the literal");
            reach(1);
        }
    } else {
        // the processor can only sign-extend 32 bits
        exit_policy(Exit::Diagnosed);
        let out = assemble(&s.v);
        if let Some(o) = parse(&out) {
            let d = decode(text(&o));
            check(d.is_some(), "the line assembles to a known instruction");
            if let Some(d) = d {
                check(d.kind == Kind::PushImm && d.size == 64 && d.imm == n.v && !n.big, "the value pushed is the literal");
            }
        }
    }
}
pub fn push_reg() {
    let (r, sz, n) = reg(fork(48));
    let mut s = Src::of("push ");
    s.t(r).t("\n");
    if sz == 64 {
        if let Some(i) = one_inst(&s.v) {
            check(i.kind == Kind::PushReg && i.size == 64 && i.reg == n, "pushes the 64-bit register");
            reach(1);
        }
    } else {
        exit_policy(Exit::Diagnosed);
        let out = assemble(&s.v);
        if let Some(o) = parse(&out) {
            let d = decode(text(&o));
            check(
                d.is_some_and(|d| d.kind == Kind::PushReg && d.size == sz && d.reg == n),
                "a push of a narrower register pushes that register or is refused",
            );
        }
    }
}
pub fn plain() {
    let mut s = Src::new();
    let ret = fork(2) == 0;
    s.t(if ret { "ret" } else { "syscall" }).t(["\n", ""][fork(2)]);
    if let Some(i) = one_inst(&s.v) {
        check(i.kind == if ret { Kind::Ret } else { Kind::Syscall }, "the named instruction");
        reach(1);
    }
}
/// operands an instruction does not take
pub fn stray() {
    let mut s = Src::of(["ret", "syscall", "push rax", "push 1", "mov rax, rbx", "mov eax, 7", "mov ax, 7", "mov ax, bx", "mov rax, 1 + 2"][fork(9)]);
    s.t([" ", ", ", "\t"][fork(3)]);
    let n = 1 + fork(2);
    for i in 0..n {
        let c = u8();
        // any printable but the comment sign; the first is no blank, and no
        // operator that would continue an expression
        assume(c > 0x20 && c < 0x7f && c != b';');
        if i == 0 {
            assume(c != b'+' && c != b'-');
        }
        s.b(c);
    }
    s.t("\n");
    reach(1);
    refused(&s.v, "anything after a complete instruction is refused");
}
/// instructions without the operands they need, and unknown instructions
pub fn missing() {
    let s = Src::of(
        [
            "push", "push ", "mov", "mov ", "mov rax", "mov rax,", "mov rax, ", "mov ,rax", "mov , 1", "mov eax,", "mov ax,", "mov", "pop rax", "add rax, 1", "RET",
            "Mov rax, 1", "retq", "push rax,", "section", "section .rodata", "section .text x", "global", "global a b", "a: ret", "a: b:", "db", "x db", "x", "mov rax rbx",
            "mov 1, rax", "mov rax, [rbx]",
        ][fork(31)],
    );
    let mut s = s;
    s.t(["\n", ""][fork(2)]);
    reach(1);
    refused(&s.v, "an incomplete or unknown line is refused");
}

// ---------------------------------------------------------------- C21
/// one source line as tokens that blanks separate; `,` takes optional blanks
/// on its right (and left, where `l` says so)
struct Line {
    toks: Vec<Vec<u8>>,
}
fn lit(s: &str) -> Vec<u8> {
    s.as_bytes().to_vec()
}
fn some_line(k: usize, tag: u8) -> Line {
    let mut num = Src::new();
    let toks = match k {
        0 => vec![lit("section"), lit(".data")],
        1 => vec![lit("global"), lit("x")],
        2 => vec![vec![b'l', tag, b':']],
        3 => {
            num.dec(2);
            vec![lit("mov"), lit("rax,"), num.v]
        }
        4 => {
            num.dec(1);
            vec![lit("push"), num.v]
        }
        5 => vec![lit("ret")],
        6 => {
            num.hex(2);
            vec![vec![b'd', tag], lit("db"), num.v]
        }
        7 => vec![lit("db"), lit("\"; a,\t'\",")],
        8 => {
            num.dec(1);
            vec![lit("mov"), lit("ecx,"), num.v.clone(), lit("-"), num.v]
        }
        9 => vec![lit("mov"), lit("rbx,"), lit("x")],
        10 => vec![lit("syscall")],
        11 => vec![lit("mov"), lit("r9w,"), lit("ax")],
        _ => vec![lit("dw"), lit("1,"), lit("2")],
    };
    Line { toks }
}
fn blank() -> u8 {
    any_of(b" \t\x0b\x0c")
}
/// the plain spelling
fn plain_line(l: &Line, s: &mut Src) {
    for (i, t) in l.toks.iter().enumerate() {
        if i > 0 {
            s.b(b' ');
        }
        s.v.extend_from_slice(t);
    }
    s.b(b'\n');
}
fn comment(s: &mut Src, n: usize) {
    s.b(b';');
    for _ in 0..n {
        let c = u8();
        assume(c < 0x80 && c != b'\n');
        s.b(c);
    }
}
/// another spelling of the same line
fn fancy_line(l: &Line, s: &mut Src, how: usize, last: bool) {
    // blanks before
    for _ in 0..[0usize, 1, 2][how % 3] {
        let b = blank();
        s.b(b);
    }
    for (i, t) in l.toks.iter().enumerate() {
        if i > 0 {
            for _ in 0..1 + how % 2 {
                let b = blank();
                s.b(b);
            }
        }
        s.v.extend_from_slice(t);
    }
    // blanks and a comment after
    match how {
        0 => {}
        1 => {
            let b = blank();
            s.b(b);
        }
        2 => comment(s, 2),
        3 => {
            let b = blank();
            s.b(b);
            comment(s, 3);
        }
        4 => {
            s.b(b'\r');
        }
        _ => {
            s.b(b'\t');
            comment(s, 0);
        }
    }
    if !(last && fork(2) == 0) {
        s.b(b'\n');
    }
}
const PRE: &str = "x:\n";
/// how a line is spelled does not change the object file
pub fn spelling() {
    let k = fork(13);
    let l = some_line(k, b'0');
    let mut a = Src::of(PRE);
    plain_line(&l, &mut a);
    let mut b = Src::of(PRE);
    let h = fork(6);
    // an empty or comment line between
    match fork(4) {
        0 => {}
        1 => {
            b.t("\n");
        }
        2 => {
            let c = blank();
            b.b(c).t("\n\n");
        }
        _ => {
            comment(&mut b, 2);
            b.t("\r\n");
        }
    }
    fancy_line(&l, &mut b, h, true);
    let x = accepted(&a.v);
    let y = accepted(&b.v);
    check(eq(&x, &y), "blanks, comments, empty lines and line ends do not change the object file");
    reach(1);
}
/// the same for two lines in a row
pub fn spelling_pairs() {
    let (k1, k2) = (fork(13), fork(13));
    let (l1, l2) = (some_line(k1, b'0'), some_line(k2, b'1'));
    let mut a = Src::of(PRE);
    plain_line(&l1, &mut a);
    plain_line(&l2, &mut a);
    let mut b = Src::of(PRE);
    let h1 = 1 + fork(5);
    let h2 = fork(6);
    fancy_line(&l1, &mut b, h1, false);
    fancy_line(&l2, &mut b, h2, true);
    let x = accepted(&a.v);
    let y = accepted(&b.v);
    check(eq(&x, &y), "blanks, comments and line ends do not change the object file");
    reach(1);
}
/// runs of blanks, comments and empty lines longer than narrow counts, and comments
/// in any script
pub fn spelling_long() {
    let k = fork(13);
    let l = some_line(k, b'0');
    let mut a = Src::of(PRE);
    plain_line(&l, &mut a);
    a.t("ret\n");
    let mut b = Src::of(PRE);
    let n = pick(if thorough() { &[1usize, 63, 64, 127, 128, 254, 255, 256, 257, 1024, 4096, 8192, 65536] } else { &[1usize, 255, 256, 257, 4096, 8191, 65536] });
    let place = fork(6);
    let run = |b: &mut Src| {
        for _ in 1..n {
            b.b(b' ');
        }
        let c = blank();
        b.b(c);
    };
    match place {
        0 => run(&mut b),
        5 => {
            for _ in 0..n {
                b.b(b'\n');
            }
        }
        _ => {}
    }
    for (i, t) in l.toks.iter().enumerate() {
        if i > 0 {
            if place == 1 && i == 1 {
                run(&mut b);
            } else {
                b.b(b' ');
            }
        }
        b.v.extend_from_slice(t);
    }
    match place {
        2 => {
            run(&mut b);
            comment(&mut b, 1);
        }
        3 => {
            b.t(" ;");
            for _ in 0..n {
                b.b(b'-');
            }
            comment(&mut b, 1);
        }
        4 => {
            // two- and three-byte characters
            b.t(" ; ");
            for _ in 0..n.min(300) {
                b.t("\u{3042}");
            }
            let (x, y) = (byte_in(0xc2, 0xdf), byte_in(0x80, 0xbf));
            b.b(x).b(y).t("\"");
        }
        _ => {}
    }
    b.t("\nret\n");
    let x = accepted(&a.v);
    let y = accepted(&b.v);
    check(eq(&x, &y), "blanks, comments, empty lines and line ends do not change the object file");
    reach(1);
}
/// blanks around the comma of a two-operand instruction
pub fn commas() {
    let mut a = Src::new();
    let mut b = Src::new();
    let (r, _, _) = reg([1usize, 16 + 1, 32 + 1][fork(3)]);
    let mut n = Src::new();
    n.dec(2);
    a.t("mov ").t(r).t(", ");
    a.v.extend_from_slice(&n.v);
    b.t("mov");
    for _ in 0..1 + fork(2) {
        let c = blank();
        b.b(c);
    }
    b.t(r);
    for _ in 0..fork(3) {
        let c = blank();
        b.b(c);
    }
    b.t(",");
    for _ in 0..fork(3) {
        let c = blank();
        b.b(c);
    }
    b.v.extend_from_slice(&n.v);
    let x = accepted(&a.v);
    let y = accepted(&b.v);
    check(eq(&x, &y), "blanks around a comma do not change the object file");
    reach(1);
}
/// blanks around the commas of a data line
pub fn data_commas() {
    let mut a = Src::of("section .data\nx ");
    a.t(DIRS[fork(4)].0).t(" ");
    let mut b = Src::of("");
    b.v.extend_from_slice(&a.v);
    for i in 0..2 + fork(2) {
        let mut item = Src::new();
        match fork(3) {
            0 => {
                item.dec(2);
            }
            1 => {
                item.hex(1);
            }
            _ => {
                let c = byte_in(0x20, 0x7e);
                assume(c != b'"');
                item.t("\"").b(c).t(",\"");
            }
        };
        if i > 0 {
            a.t(", ");
            let s = fork(5);
            for _ in 0..[0, 1, 1, 2, 2][s] {
                let c = blank();
                b.b(c);
            }
            b.t(",");
            for _ in 0..[0, 0, 1, 2, 0][s] {
                let c = blank();
                b.b(c);
            }
        }
        a.v.extend_from_slice(&item.v);
        b.v.extend_from_slice(&item.v);
    }
    let x = accepted(&a.v);
    let y = accepted(&b.v);
    check(eq(&x, &y), "blanks around a comma do not change the object file");
    reach(1);
}

// ---------------------------------------------------------------- C22
#[derive(Clone, Copy, PartialEq)]
enum Sec {
    Text,
    Data,
    Bss,
}
struct Sy {
    name: String,
    sec: Sec,
    off: u64,
}
struct Rl {
    sec: Sec,
    off: usize,
    len: u8,
    name: String,
}
/// what a program means
struct Model {
    src: Src,
    cur: Sec,
    text: Vec<u8>,
    data: Vec<u8>,
    syms: Vec<Sy>,
    globals: Vec<String>,
    rels: Vec<Rl>,
    next: u8,
}
impl Model {
    fn new() -> Model {
        Model {
            src: Src::new(),
            cur: Sec::Text,
            text: vec![],
            data: vec![],
            syms: vec![],
            globals: vec![],
            rels: vec![],
            next: b'a',
        }
    }
    fn here(&self) -> u64 {
        match self.cur {
            Sec::Text => self.text.len() as u64,
            Sec::Data => self.data.len() as u64,
            Sec::Bss => 0,
        }
    }
    fn sect(&mut self, s: Sec) {
        self.src.t(match s {
            Sec::Text => "section .text\n",
            Sec::Data => "section .data\n",
            Sec::Bss => "section .bss\n",
        });
        self.cur = s;
    }
    fn fresh(&mut self) -> String {
        // names of different lengths, some with a common prefix
        let n = self.next;
        self.next += 1;
        match n {
            b'a' => "a".into(),
            b'b' => "ab".into(),
            b'c' => "b".into(),
            b'd' => "_a.b".into(),
            b'e' => "abc".into(),
            _ => "_start".into(),
        }
    }
    fn define(&mut self, name: &str) {
        let off = self.here();
        self.syms.push(Sy {
            name: name.into(),
            sec: self.cur,
            off,
        });
    }
    fn label(&mut self) {
        let n = self.fresh();
        self.src.t(&n).t(":\n");
        self.define(&n);
    }
    fn bytes(&mut self, b: &[u8]) {
        match self.cur {
            Sec::Text => self.text.extend_from_slice(b),
            Sec::Data => self.data.extend_from_slice(b),
            Sec::Bss => check(false, "model: nothing is written to bss"),
        }
    }
    fn db(&mut self, labelled: bool) {
        if labelled {
            let n = self.fresh();
            self.src.t(&n).t(" ");
            self.define(&n);
        }
        self.src.t("dw ");
        let x = self.src.hex(4);
        self.src.t("\n");
        let v = [x.v as u8, (x.v >> 8) as u8];
        self.bytes(&v);
    }
    fn ret(&mut self) {
        self.src.t("ret\n");
        self.bytes(&[0xc3]);
    }
    fn global(&mut self, n: &str) {
        self.src.t("global ").t(n).t("\n");
        self.globals.push(n.into());
    }
    /// mov r64/r32, name
    fn load(&mut self, r: usize, name: &str) {
        let (rn, sz, n) = reg(r);
        self.src.t("mov ").t(rn).t(", ").t(name).t("\n");
        let w = sz as usize / 8;
        let mut b = Vec::new();
        if sz == 64 {
            b.push(0x48 | n >> 3);
        } else if n > 7 {
            b.push(0x41);
        }
        b.push(0xb8 | (n & 7));
        let at = self.here() as usize + b.len();
        for _ in 0..w {
            b.push(0);
        }
        self.rels.push(Rl {
            sec: self.cur,
            off: at,
            len: if sz == 64 { 3 } else { 2 },
            name: name.into(),
        });
        self.bytes(&b);
    }
    fn check(&self, out: &[u8]) {
        let v = match parse(out) {
            Some(v) => v,
            None => return,
        };
        v.check_layout();
        check(eq(text(&v), &self.text), "contents of .text");
        check(eq(data(&v), &self.data), "contents of .data");
        let used = |s: Sec| self.syms.iter().any(|y| y.sec == s);
        check(
            v.find("__DATA", "__bss").map_or(!used(Sec::Bss), |(_, s)| s.size == 0 && s.zerofill()),
            "a .bss section exists when labels lie in it and reserves nothing",
        );
        check(v.nsyms as usize == self.syms.len(), "one symbol per label");
        if v.nsyms as usize != self.syms.len() {
            return;
        }
        let at = |s: Sec| match s {
            Sec::Text => v.find("__TEXT", "__text"),
            Sec::Data => v.find("__DATA", "__data"),
            Sec::Bss => v.find("__DATA", "__bss"),
        };
        for y in &self.syms {
            let mut hits = 0;
            for i in 0..v.nsyms {
                let n = v.nlist(i);
                if !eq(v.string(n.strx), y.name.as_bytes()) {
                    continue;
                }
                hits += 1;
                let ext = self.globals.iter().any(|g| *g == y.name);
                check(n.ty == 0x0e | ext as u8, "a label is external exactly when declared global");
                match at(y.sec) {
                    None => check(false, "the section of a label exists"),
                    Some((k, s)) => {
                        check(n.sect as usize == k + 1, "a label belongs to the section it stands in");
                        check(n.value == s.addr + y.off, "a label is the address of what follows it");
                    }
                }
            }
            check(hits == 1, "every label appears exactly once");
        }
        for sec in [Sec::Text, Sec::Data] {
            let want: Vec<&Rl> = self.rels.iter().filter(|r| r.sec == sec).collect();
            let s = match at(sec) {
                None => {
                    check(want.is_empty(), "a section with relocations exists");
                    continue;
                }
                Some((_, s)) => s,
            };
            check(s.nreloc as usize == want.len(), "one relocation per symbol operand");
            if s.nreloc as usize != want.len() {
                continue;
            }
            for w in want {
                let mut hits = 0;
                for i in 0..s.nreloc {
                    let r = v.reloc(s, i);
                    if r.addr as i64 != w.off as i64 {
                        continue;
                    }
                    hits += 1;
                    check(r.len == w.len, "a relocation covers the whole immediate");
                    check(r.ext && !r.pcrel && r.ty == 0, "an absolute external relocation");
                    check(r.sym < v.nsyms, "a relocation refers to an existing symbol");
                    if r.sym < v.nsyms {
                        check(eq(v.string(v.nlist(r.sym).strx), w.name.as_bytes()), "a relocation refers to the operand's symbol");
                    }
                }
                check(hits == 1, "a symbol operand is relocated exactly where its immediate lies");
            }
        }
        reach(1);
    }
}

/// label, data, section and instruction lines in any order
pub fn programs() {
    let mut m = Model::new();
    let n = bound(4, 5);
    for _ in 0..n {
        match fork(8) {
            0 => m.sect(Sec::Text),
            1 => m.sect(Sec::Data),
            2 => m.sect(Sec::Bss),
            3 | 7 if m.cur == Sec::Bss => m.label(),
            3 => m.label(),
            4 if m.cur != Sec::Bss => m.db(true),
            5 if m.cur != Sec::Bss => m.db(false),
            6 if m.cur != Sec::Bss => m.ret(),
            _ => {}
        }
    }
    // global declarations may come last
    if !m.syms.is_empty() {
        match fork(3) {
            0 => {}
            1 => m.global(&m.syms[0].name.clone()),
            _ => m.global(&m.syms[m.syms.len() - 1].name.clone()),
        }
    }
    let out = accepted(&m.src.v);
    m.check(&out);
}
/// declarations before and after the labels they name
pub fn globals() {
    let mut m = Model::new();
    let names = ["a", "ab", "b"];
    let pre = fork(8);
    for i in 0..3 {
        if pre >> i & 1 == 1 {
            m.global(names[i]);
        }
    }
    let k = fork(4);
    for i in 0..3 {
        if i == k {
            m.sect(Sec::Data);
        }
        m.label();
        m.db(false);
    }
    let post = fork(8);
    for i in (0..3).rev() {
        if post >> i & 1 == 1 {
            m.global(names[i]);
        }
    }
    // m.fresh hands out a, ab, b in this order
    let out = accepted(&m.src.v);
    m.check(&out);
}
/// label names of any printable characters
pub fn label_names() {
    let mut m = Model::new();
    let n = 1 + fork(bound(3, 4));
    let mut nm = Vec::new();
    for _ in 0..n {
        let c = byte_in(0x21, 0x7e);
        // no comment, string or label sign
        assume(c != b';' && c != b'"' && c != b':');
        nm.push(c);
    }
    let nm = String::from_utf8(nm).unwrap();
    let glob = fork(2) == 1;
    if glob && fork(2) == 1 {
        m.global(&nm);
    }
    m.ret();
    m.src.t(&nm).t(":\n");
    m.define(&nm);
    m.ret();
    if glob {
        m.global(&nm);
    }
    let out = accepted(&m.src.v);
    m.check(&out);
}
impl Model {
    /// a string of n bytes, in .data or .text
    fn blob(&mut self, n: usize) {
        let t = long_text(n, &[]);
        self.src.t("db \"");
        self.src.v.extend_from_slice(&t);
        self.src.t("\"\n");
        self.bytes(&t);
    }
    fn named(&mut self, n: &str) {
        self.src.t(n).t(":\n");
        self.define(n);
    }
}
fn numbered(k: usize) -> String {
    let mut s = Src::of("n");
    s.plain_dec(k);
    String::from_utf8(s.v).unwrap()
}
/// labels behind large contents
pub fn programs_long() {
    let mut m = Model::new();
    let n = pick(if thorough() { &[127usize, 128, 255, 256, 257, 4096, 32768, 65535, 65536, 70000] } else { &[255usize, 256, 65535, 65536] });
    let k = fork(4);
    if k & 1 == 1 {
        m.sect(Sec::Data);
        m.label();
        m.sect(Sec::Text);
    }
    if k & 2 == 2 {
        m.blob(n);
        m.label();
        m.ret();
        m.sect(Sec::Data);
    } else {
        m.ret();
        m.sect(Sec::Data);
        m.blob(n);
    }
    m.label();
    m.db(true);
    m.sect(Sec::Bss);
    m.label();
    m.global("a");
    let out = accepted(&m.src.v);
    m.check(&out);
}
/// many instructions, many labels, many declarations
pub fn programs_many() {
    let mut m = Model::new();
    let n = pick(if thorough() { &[127usize, 128, 254, 255, 256, 257, 300] } else { &[254usize, 255, 256, 257] });
    let lab = fork(5);
    for i in 0..n {
        if lab == 3 && i % 2 == 0 {
            m.global(&numbered(i));
        }
        if lab == 1 || lab >= 3 || i == 0 || i + 1 == n {
            m.named(&numbered(i));
        }
        if lab == 2 {
            m.global(&numbered(if i % 2 == 0 { 0 } else { n - 1 }));
        }
        if i % 3 == 0 {
            m.db(false);
        } else {
            m.ret();
        }
    }
    if lab == 1 {
        m.global(&numbered(n - 1));
        m.global(&numbered(n / 2));
    }
    if lab == 4 {
        for i in 1..n {
            m.global(&numbered(i));
        }
    }
    m.sect(Sec::Data);
    m.named("end");
    let out = accepted(&m.src.v);
    m.check(&out);
}
/// back and forth between the sections
pub fn programs_switching() {
    let mut m = Model::new();
    let n = pick(if thorough() { &[4usize, 7, 16, 31, 64, 100, 128, 255, 256, 257, 300] } else { &[4usize, 7, 31, 128, 257] });
    let step = 1 + fork(2);
    let lab = fork(3);
    if lab == 1 {
        m.global(&numbered(n - 1));
    }
    for i in 0..n {
        let k = i * step % 3;
        m.sect([Sec::Text, Sec::Data, Sec::Bss][k]);
        if lab < 2 || i % 4 == 0 {
            m.named(&numbered(i));
        }
        match k {
            0 => {
                if i % 2 == 0 {
                    m.load(i % 16, &numbered(if i % 3 == 0 { 0 } else { (n - 1) / 4 * 4 }));
                } else {
                    m.ret();
                }
            }
            1 => {
                if i == 1 || i + 3 >= n {
                    m.db(false);
                } else {
                    m.ret();
                }
            }
            _ => {}
        }
    }
    let out = accepted(&m.src.v);
    m.check(&out);
}
/// label names longer than narrow counts
pub fn label_names_long() {
    let mut m = Model::new();
    let n = pick(if thorough() { &[31usize, 32, 63, 64, 127, 128, 254, 255, 256, 257, 8192, 65535, 65536] } else { &[32usize, 255, 256, 257, 65536] });
    let mut nm = Vec::new();
    for i in 0..n {
        nm.push(b'a' + (i % 23) as u8);
    }
    let mut other = nm.clone();
    // names that differ in one place only
    let at = pick(&[0usize, 1, 2]) * (n - 1) / 2;
    nm[at] = byte_in(b'a', b'z');
    other[at] = byte_in(b'a', b'z');
    assume(nm[at] != other[at]);
    let (nm, other) = (String::from_utf8(nm).unwrap(), String::from_utf8(other).unwrap());
    m.named(&nm);
    m.load(0, &other);
    m.ret();
    m.named(&other);
    m.load(16, &nm);
    m.global(&other);
    let out = accepted(&m.src.v);
    m.check(&out);
}
/// nothing can be put into .bss
pub fn bss_data() {
    let mut s = Src::of("section .bss\n");
    s.t(["db 1\n", "x db 1\n", "dq \"ab\"\n", "ret\n", "mov rax, x\n", "mov rax, rax\n", "x:\nmov eax, x\n"][fork(7)]);
    reach(1);
    refused(&s.v, "data or code in .bss is refused");
}

// ---------------------------------------------------------------- C23
/// symbol operands anywhere relative to their labels
pub fn symbol_operands() {
    let mut m = Model::new();
    let r = |k: usize| [0usize, 12, 16 + 6, 16 + 15][k];
    // what precedes the first operand
    for _ in 0..fork(3) {
        m.ret();
    }
    let defs = fork(3);
    if defs == 0 {
        m.label();
    }
    let k = fork(4);
    m.load(r(k), "a");
    if fork(2) == 1 {
        m.db(false);
    }
    if defs == 1 {
        m.label();
    }
    if fork(2) == 1 {
        let k = fork(4);
        let which = fork(2);
        m.load(r(k), if which == 0 { "a" } else { "ab" });
    }
    if defs == 2 {
        m.sect(Sec::Data);
        m.label();
    }
    // the second symbol, in .data
    m.sect(Sec::Data);
    m.db(true);
    if fork(2) == 1 {
        let k = fork(4);
        let which = fork(2);
        m.load(r(k), if which == 0 { "a" } else { "ab" });
    }
    let out = accepted(&m.src.v);
    m.check(&out);
}
/// operands behind large contents
pub fn symbol_operands_long() {
    let mut m = Model::new();
    let n = pick(if thorough() { &[127usize, 128, 253, 254, 255, 256, 4096, 32766, 32767, 65533, 65534, 65535, 65536, 70000] } else { &[128usize, 254, 256, 65533, 65536] });
    m.load([0usize, 12, 16, 31][fork(4)], "a");
    m.blob(n);
    m.load([8usize, 16 + 3][fork(2)], "d");
    m.named("a");
    m.sect(Sec::Data);
    if fork(2) == 1 {
        m.blob(n);
        m.load(3, "a");
    }
    m.named("d");
    m.load(3, "d");
    let out = accepted(&m.src.v);
    m.check(&out);
}
/// many operands over many symbols
pub fn symbol_operands_many() {
    let mut m = Model::new();
    let (ns, nr) = pick(if thorough() { &[(2usize, 255usize), (2, 256), (2, 257), (255, 3), (256, 3), (257, 3), (300, 300)] } else { &[(2usize, 256usize), (257, 5), (258, 258)] });
    let pre = fork(2) == 1;
    if pre {
        for i in 0..ns {
            m.named(&numbered(i));
            m.ret();
        }
    }
    for i in 0..nr {
        m.load(if i % 2 == 0 { 2 } else { 16 + 9 }, &numbered(ns - 1 - i % ns));
    }
    m.sect(Sec::Data);
    m.load(7, &numbered(ns - 1));
    m.load(7, &numbered(0));
    if !pre {
        for i in 0..ns {
            m.named(&numbered(i));
        }
    }
    let out = accepted(&m.src.v);
    m.check(&out);
}
/// every register and symbol names of any letters
pub fn symbol_operand_names() {
    let r = fork(32);
    let n = 1 + fork(bound(2, 3));
    let mut nm = Vec::new();
    for i in 0..n {
        let c = u8();
        let l = c | 0x20;
        assume((l >= b'a' && l <= b'z' && c < 0x80) || c == b'_' || c == b'.' || (i > 0 && c >= b'0' && c <= b'9'));
        nm.push(c);
    }
    // a register name is a register
    let small: Vec<u8> = nm.iter().map(|c| c | (c & 0x40) >> 1).collect();
    for i in 0..48 {
        let r = reg(i).0.as_bytes();
        if r.len() == n {
            assume(!eq(r, &small));
        }
    }
    let nm = String::from_utf8(nm).unwrap();
    let mut m = Model::new();
    m.load(r, &nm);
    m.src.t(&nm).t(":\n");
    m.define(&nm);
    let out = accepted(&m.src.v);
    m.check(&out);
}
/// operands that name nothing
pub fn undefined_symbol() {
    let mut s = Src::new();
    s.t("a:\n");
    s.t("mov ").t(reg([0usize, 10, 16 + 2][fork(3)]).0).t(", ");
    let n = 1 + fork(bound(2, 3));
    let mut nm = Vec::new();
    for _ in 0..n {
        nm.push(byte_in(b'a', b'z'));
    }
    assume(!(n == 1 && nm[0] == b'a'));
    for i in 0..48 {
        let r = reg(i).0.as_bytes();
        if r.len() == n {
            assume(!eq(r, &nm));
        }
    }
    s.v.extend_from_slice(&nm);
    s.t("\n");
    reach(1);
    refused(&s.v, "an operand that names no label is refused");
}
/// one undefined name anywhere among operands that name labels
pub fn undefined_among() {
    let before = pick(if thorough() { &[0usize, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 127, 128, 255, 256, 257, 300] } else { &[0usize, 1, 2, 3, 4, 5, 8, 16, 33, 256] });
    let after = [0usize, 1, 6][fork(3)];
    let kind = fork(5);
    let mut nm = match kind {
        // `global` alone defines nothing
        0 => b"main".to_vec(),
        // a beginning of a label, a label and more, another label with other letters
        1 => b"lab".to_vec(),
        2 => b"labels".to_vec(),
        3 => b"Label".to_vec(),
        _ => vec![b'l', b'a', b'b', b'e', byte_in(b'a', b'z')],
    };
    if kind == 4 {
        assume(nm[4] != b'l');
    }
    let mut s = Src::of(["", "section .data\n"][fork(2)]);
    let first = fork(2) == 1;
    if first {
        s.t("label:\nother: \n");
    }
    s.t(["", "global main\n"][(kind == 0) as usize]);
    for i in 0..before {
        s.t("mov ").t(reg([0usize, 16 + 2][i % 2]).0).t([", label\n", ", other\n"][i / 2 % 2]);
    }
    s.t(["", "section .text\n", "section .data\n"][fork(3)]).t("mov rax, ");
    s.v.append(&mut nm);
    s.t("\n");
    for _ in 0..after {
        s.t("mov rcx, other\n");
    }
    if !first {
        s.t("section .bss\nlabel:\nother: \n");
    }
    reach(1);
    refused(&s.v, "an operand that names no label is refused");
}
/// 16-bit registers cannot hold an address
pub fn symbol_reg16() {
    let mut s = Src::of("lab:\nmov ");
    s.t(R16[fork(16)]).t(", lab\n");
    reach(1);
    refused(&s.v, "an address does not fit a 16-bit register");
}

// ---------------------------------------------------------------- C24
/// whatever the source: a diagnostic, or a well-formed object file
fn survives(src: &[u8]) {
    reach(1);
    exit_policy(Exit::Diagnosed);
    let out = assemble(src);
    if let Some(v) = parse(&out) {
        v.check_layout();
        for i in 0..v.nsyms {
            v.string(v.nlist(i).strx);
        }
        reach(2);
    }
}
pub fn any_bytes() {
    let n = fork(bound(4, 5));
    let mut s = Src::new();
    for _ in 0..n {
        let b = u8();
        s.b(b);
    }
    survives(&s.v);
}
const STEMS: [&str; 18] = [
    "mov ", "mov rax", "mov rax,", "mov eax, ", "mov ax,", "mov rax, 1", "mov rax, 1 ", "mov rax, 1 + ", "push ", "push 1", "db ", "db 1", "db \"", "x dw ", "section ",
    "section .bss\nx", "global ", "a",
];
/// arbitrary bytes after the beginning of a line
pub fn any_tail() {
    let mut s = Src::of(STEMS[fork(STEMS.len())]);
    let n = 1 + fork(bound(2, 3));
    for _ in 0..n {
        let b = u8();
        s.b(b);
    }
    survives(&s.v);
}
/// long lines and long programs with an arbitrary byte somewhere
pub fn any_long() {
    let mut s = Src::new();
    let n = pick(if thorough() { &[127usize, 255, 256, 257, 1000, 8190, 8191, 8192, 8193, 65536] } else { &[255usize, 256, 8192] });
    let fill = |s: &mut Src, c: u8| {
        for _ in 0..n {
            s.b(c);
        }
    };
    match fork(8) {
        0 => fill(&mut s, b'a'),
        1 => {
            s.t("mov rax, ");
            fill(&mut s, b'9');
        }
        2 => {
            s.t("db \"");
            fill(&mut s, b'x');
        }
        3 => {
            s.t("push 0x");
            fill(&mut s, b'0');
        }
        4 => {
            s.t("ret ;");
            fill(&mut s, b'-');
            s.t("\nmov rax, 1");
        }
        5 => {
            fill(&mut s, b'\n');
            s.t("ret");
        }
        6 => {
            s.t("mov rax, 1 +");
            fill(&mut s, b' ');
            s.t("1");
        }
        _ => {
            fill(&mut s, b' ');
            s.t("db 1,");
            fill(&mut s, b'\t');
            s.t("1");
        }
    }
    let at = fork(3) * (s.v.len() - 1) / 2;
    match fork(2) {
        0 => s.v[at] = u8(),
        _ => {
            let b = u8();
            s.b(b);
        }
    }
    s.t("\n");
    survives(&s.v);
}
/// sequences of line fragments
pub fn any_tokens() {
    const T: [&str; 16] = ["mov", "rax", "eax", ",", "1", "push", "db", "section", ".text", ".bss", "global", "a", "a:", "\"", "\n", "+"];
    let mut s = Src::new();
    let n = bound(4, 5);
    for i in 0..n {
        let k = fork(T.len() + 1);
        if k == T.len() {
            break;
        }
        if i > 0 {
            s.b(b' ');
        }
        s.t(T[k]);
    }
    survives(&s.v);
}

// ---------------------------------------------------------------- C26, C25
struct Pieces<'a> {
    b: &'a [u8],
    first: usize,
    then: usize,
    intr: usize,
    calls: usize,
    /// fails after the last byte instead of ending
    fail: bool,
}
impl<'a> Read for Pieces<'a> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let c = self.calls;
        self.calls += 1;
        if c == self.intr {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        if self.b.is_empty() && self.fail {
            return Err(std::io::ErrorKind::Other.into());
        }
        let lim = if self.first > 0 { self.first } else { self.then };
        let n = lim.min(buf.len()).min(self.b.len());
        if self.first > 0 {
            self.first -= n;
        }
        buf[..n].copy_from_slice(&self.b[..n]);
        self.b = &self.b[n..];
        Ok(n)
    }
}
fn sample() -> Src {
    let mut s = Src::of("global a\na:\nmov rax, ");
    s.hex(2);
    s.t(" ; x\nsection .data\nb db \"é;");
    let c = byte_in(0x23, 0x7e);
    s.b(c).t("\", ");
    s.dec(1);
    s.t("\r\nsection .text\nmov rbx, b\nret");
    s
}
pub fn source_pieces() {
    let s = sample();
    let want = accepted(&s.v);
    let first = fork(s.v.len());
    let mut p = Pieces {
        b: &s.v,
        first,
        then: pick(&[1usize, 5, 4096]),
        intr: pick(&[0usize, 1, 2, 100_000]),
        calls: 0,
        fail: false,
    };
    let mut a = Assembler::new();
    a.read_from(&mut p);
    let mut out = Vec::new();
    a.write_into(&mut out);
    check(eq(&out, &want), "how the source is delivered does not change the object file");
    reach(1);
}
/// a program whose lines lie across the ends of read buffers
pub fn source_buffers() {
    let s = sample();
    let want = accepted(&s.v);
    // a comment line before the program puts its k-th byte on the boundary
    let k = fork(s.v.len());
    let full = pick(if thorough() {
        &[256usize, 512, 1000, 1024, 2048, 4096, 8192, 16384, 32768, 65536][..]
    } else {
        &[256, 512, 1024, 2048, 4096, 8192, 16384][..]
    });
    let mut t = Src::of(";");
    while t.v.len() + 1 + k < full {
        t.b(b'.');
    }
    t.b(b'\n');
    t.v.extend_from_slice(&s.v);
    let mut p = Pieces {
        b: &t.v,
        first: 0,
        then: if thorough() || full == 4096 || full == 8192 { pick(&[full, full + 1, 100_000]) } else { 100_000 },
        intr: 100_000,
        calls: 0,
        fail: false,
    };
    let mut a = Assembler::new();
    a.read_from(&mut p);
    let mut out = Vec::new();
    a.write_into(&mut out);
    check(eq(&out, &want), "where the program lies in its source does not change the object file");
    reach(1);
}
/// a program given in several sources
pub fn source_split() {
    let s = sample();
    let want = accepted(&s.v);
    let mut at = Vec::new();
    for (i, b) in s.v.iter().enumerate() {
        if *b == b'\n' {
            at.push(i + 1);
        }
    }
    let k = at[fork(at.len())];
    let mut a = Assembler::new();
    a.read_from(&mut &s.v[..k]);
    a.read_from(&mut &s.v[k..]);
    let mut out = Vec::new();
    a.write_into(&mut out);
    check(eq(&out, &want), "a program split between lines assembles alike");
    reach(1);
}
/// a source that breaks off with an error
pub fn source_fails() {
    let s = sample();
    let k = fork(s.v.len() + 1);
    let mut p = Pieces {
        b: &s.v[..k],
        first: 0,
        then: pick(&[1usize, 4096]),
        intr: 100_000,
        calls: 0,
        fail: true,
    };
    reach(1);
    exit_policy(Exit::Diagnosed);
    panics_allowed(true);
    let mut a = Assembler::new();
    a.read_from(&mut p);
    let mut out = Vec::new();
    a.write_into(&mut out);
    check(false, "a source that could not be read completely is not assembled");
}
pub fn out_pieces() {
    let s = sample();
    let want = accepted(&s.v);
    let mut a = Assembler::new();
    a.read_from(&mut &s.v[..]);
    let mut k = Sink {
        got: Vec::new(),
        piece: pick(&[1usize, 3, 1000]),
        intr: fork(bound(24, 300)),
        calls: 0,
        room: 100_000,
        how: 0,
        broke: false,
    };
    a.write_into(&mut k);
    check(eq(&k.got, &want), "a sink that takes pieces or is interrupted gets the same file");
    reach(1);
}
/// files larger than write buffers
pub fn out_large() {
    let mut m = Model::new();
    let n = pick(if thorough() { &[255usize, 4096, 8191, 8192, 8193, 65536] } else { &[300usize, 8193, 65536] });
    m.blob(n);
    m.label();
    m.load(5, "a");
    let want = accepted(&m.src.v);
    let mut a = Assembler::new();
    a.read_from(&mut &m.src.v[..]);
    let fails = fork(2) == 1;
    let room = if fails { want.len() - pick(&[1usize, 2, 9, 60, 300]) } else { 1_000_000 };
    let mut k = Sink {
        got: Vec::new(),
        piece: pick(&[255usize, 4096, 8192, 1_000_000]),
        intr: pick(&[0usize, 7, 1000]),
        calls: 0,
        room,
        how: fork(2),
        broke: false,
    };
    if fails {
        panics_allowed(true);
        exit_policy(Exit::Diagnosed);
    }
    a.write_into(&mut k);
    check(!fails && eq(&k.got, &want), "a large file arrives complete or is not reported as written");
    reach(1);
}
pub fn out_fails() {
    let s = sample();
    let want = accepted(&s.v);
    let mut a = Assembler::new();
    a.read_from(&mut &s.v[..]);
    let mut k = Sink {
        got: Vec::new(),
        piece: 1000,
        intr: 100_000,
        calls: 0,
        room: fork(want.len()),
        how: fork(2),
        broke: false,
    };
    reach(1);
    panics_allowed(true);
    exit_policy(Exit::Diagnosed);
    a.write_into(&mut k);
    check(false, "a file that could not be written completely is never reported as written");
}
#[allow(dead_code)]
fn unused() {
    let _ = (le16(&[0, 0], 0), le32(&[0; 4], 0), le64(&[0; 8], 0));
}
// ---------------------------------------------------------------- C29
fn ident(n: usize) -> String {
    let mut v = Vec::new();
    // no directive, instruction or register begins with these
    let c = u8();
    assume((c & 0xdf) >= b'H' && (c & 0xdf) <= b'I' && c & 0x40 != 0 && c < 0x80);
    v.push(c);
    for _ in 1..n {
        v.push(ident_byte());
    }
    String::from_utf8(v).unwrap()
}
/// a letter of either case, a digit, or one of `_ . $ @`
fn ident_byte() -> u8 {
    let c = u8();
    let l = c | 0x20;
    assume(
        (l >= b'a') & (l <= b'z') & (c < 0x80) | (c >= b'0') & (c <= b'9') | (c == b'_') | (c == b'.') | (c == b'$') | (c == b'@'),
    );
    c
}
/// two names that differ somewhere: in length, a letter, or only in its case
fn apart(most: usize) -> (String, String) {
    let (a, b) = (ident(1 + fork(most)), ident(1 + fork(most)));
    if a.len() == b.len() {
        assume(!eq(a.as_bytes(), b.as_bytes()));
    }
    (a, b)
}
/// whatever refers to one name says nothing of the other
pub fn names_apart() {
    let (a, b) = apart(bound(2, 3));
    let mut m = Model::new();
    let glob = fork(3);
    if glob == 1 {
        m.global(&a);
    }
    let first = fork(2);
    if first == 1 {
        m.load(0, &a);
    }
    m.defined_by(&a, fork(5));
    m.sect(Sec::Text);
    m.load(16 + 2, &b);
    m.defined_by(&b, fork(5));
    if glob == 2 {
        m.global(&b);
    }
    if first == 0 {
        m.sect(Sec::Data);
        m.load(12, &a);
    }
    reach(1);
    let out = accepted(&m.src.v);
    m.check(&out);
}
/// a label of one name is none of another
pub fn names_apart_undefined() {
    let (a, b) = apart(bound(2, 3));
    let mut m = Model::new();
    m.defined_by(&a, fork(5));
    m.sect([Sec::Text, Sec::Data][fork(2)]);
    let reg = [0, 16 + 2][fork(2)];
    m.load(reg, &b);
    reach(1);
    refused(&m.src.v, "an operand that names no label is refused");
}
/// names that begin with, or are, what otherwise stands first on a line or as an operand
pub fn keyword_names() {
    let w = fork(KEYWORDS.len());
    let mut nm = KEYWORDS[w].as_bytes().to_vec();
    for _ in 0..1 + fork(2) {
        nm.push(ident_byte());
    }
    for i in 0..48 {
        let r = reg(i).0.as_bytes();
        if r.len() == nm.len() {
            assume(!eq(r, &nm));
        }
    }
    for r in ["r8b", "r9b", "r10b"] {
        if r.len() == nm.len() {
            assume(!eq(r.as_bytes(), &nm));
        }
    }
    let nm = String::from_utf8(nm).unwrap();
    let mut m = Model::new();
    let use_first = fork(2) == 1;
    if use_first {
        m.load(3, &nm);
    }
    m.ret();
    m.defined_by(&nm, fork(5));
    if !use_first {
        m.sect(Sec::Text);
        m.load(16 + 9, &nm);
    }
    if fork(2) == 1 {
        m.global(&nm);
    }
    reach(1);
    let out = accepted(&m.src.v);
    m.check(&out);
}
const KEYWORDS: [&str; 17] = [
    "ret", "syscall", "mov", "push", "pop", "section", "global", "db", "dw", "dd", "dq", ".text", ".data", "rax", "eax", "ax", "r8",
];
impl Model {
    /// defines `n` in one of four ways: a line of its own or on data, in .text or .data
    fn defined_by(&mut self, n: &str, how: usize) {
        self.sect([Sec::Text, Sec::Data, Sec::Text, Sec::Data, Sec::Bss][how]);
        if how < 2 || how == 4 {
            self.named(n);
        } else {
            self.src.t(n).t(" db 7\n");
            self.define(n);
            self.bytes(&[7]);
        }
    }
}
/// two definitions, of one name or of two, however and wherever they are made
pub fn twice() {
    let n = 1 + fork(bound(2, 5));
    let a = ident(n);
    let is_same = fork(2) == 0;
    let mut m = Model::new();
    let glob = fork(3);
    if glob == 1 {
        m.global(&a);
    }
    if fork(2) == 1 {
        m.ret();
    }
    m.defined_by(&a, fork(5));
    for i in 0..fork(3) {
        m.named(["other", "one.more"][i]);
        if m.cur != Sec::Bss {
            m.ret();
        }
    }
    let how = fork(5);
    if is_same {
        m.defined_by(&a, how);
        if glob == 2 {
            m.global(&a);
        }
        if m.cur != Sec::Bss && fork(2) == 1 {
            m.ret();
        }
        reach(1);
        refused(&m.src.v, "a name defined twice is refused");
    } else {
        let k = 1 + fork(bound(2, 5));
        let b = ident(k);
        let mut d = n != k;
        if !d {
            for i in 0..n {
                d = d | (a.as_bytes()[i] != b.as_bytes()[i]);
            }
        }
        assume(d);
        m.defined_by(&b, how);
        if glob == 2 {
            m.global(&b);
        }
        reach(2);
        let out = accepted(&m.src.v);
        m.check(&out);
    }
}
/// long names, and names anywhere among many definitions
pub fn twice_long() {
    let mut m = Model::new();
    if fork(2) == 0 {
        let n = pick(if thorough() { &[8usize, 15, 16, 17, 31, 32, 63, 64, 127, 128, 255, 256, 257, 4096, 65536] } else { &[16usize, 32, 64, 255, 256, 257, 4096] });
        let mut a = vec![b'k'; n];
        let at = pick(&[0usize, 1, 2]) * (n - 1) / 2;
        let mut b = a.clone();
        a[at] = byte_in(b'a', b'z');
        b[at] = byte_in(b'a', b'z');
        let same = fork(2) == 0;
        assume((a[at] == b[at]) == same);
        let (a, b) = (String::from_utf8(a).unwrap(), String::from_utf8(b).unwrap());
        let how = fork(5);
        m.defined_by(&a, how);
        m.defined_by(&b, (how + 2 * fork(2)) % 5);
        if same {
            reach(1);
            refused(&m.src.v, "a name defined twice is refused");
        } else {
            reach(2);
            let out = accepted(&m.src.v);
            m.check(&out);
        }
    } else {
        // cycling through the sections
        let n = pick(if thorough() { &[3usize, 9, 17, 33, 65, 127, 128, 129, 255, 256, 257, 300] } else { &[9usize, 33, 65, 257] });
        for i in 0..n {
            m.defined_by(&numbered(i), i % 5);
        }
        let which = fork(6);
        m.defined_by(&numbered([0, 1, n / 2, n - 3, n - 2, n - 1][which]), fork(5));
        reach(1);
        refused(&m.src.v, "a name defined twice is refused");
    }
}
/// the two definitions lie in different sources, or far apart
pub fn twice_sources() {
    let n = 1 + fork(3);
    let a = ident(n);
    let far = pick(if thorough() { &[0usize, 1, 100, 255, 256, 257, 300] } else { &[0usize, 100, 257] });
    let mut s = Src::new();
    s.t(["", "section .data\n"][fork(2)]).t(&a).t([":\n", " db 1\n"][fork(2)]);
    s.t(["", "section .bss\n"][fork(2)]);
    for i in 0..far {
        s.t(&numbered(i)).t(":\n");
    }
    let k = s.v.len();
    s.t(["", "section .data\n", "section .bss\n"][fork(3)]).t(&a).t(":\n");
    // names of letters only differ from n0, n1, ...
    reach(1);
    exit_policy(Exit::Diagnosed);
    reach(9);
    let mut as_ = Assembler::new();
    if fork(2) == 1 {
        as_.read_from(&mut &s.v[..k]);
        as_.read_from(&mut &s.v[k..]);
    } else {
        as_.read_from(&mut &s.v[..]);
    }
    let mut out = Vec::new();
    as_.write_into(&mut out);
    check(false, "a name defined twice is refused");
}

// ---------------------------------------------------------------- C31
/// programs with many names, so that any order other than the source's shows
fn varied(k: usize) -> Vec<u8> {
    let mut s = Src::new();
    match k {
        0 => {
            s.t("global n3\nglobal n7\nsection .data\n");
            for i in 0..6 {
                s.t(&numbered(i)).t(" db ").dec(1);
                s.t("\n");
            }
            s.t("section .bss\nn6:\nsection .text\n");
            for i in 0..6 {
                s.t("mov rax, ").t(&numbered(5 - i)).t("\n").t(&numbered(7 + i)).t(":\n");
            }
        }
        1 => {
            for i in 0..8 {
                s.t("global ").t(&numbered(i * 5 % 8)).t("\n").t(&numbered(i)).t(":\nmov rcx, ").t(&numbered(7 - i)).t("\n");
            }
            s.t("mov rdx, 0x").b(byte_in(b'0', b'9')).t(" + ").dec(1);
            s.t("\n");
        }
        2 => {
            s.t("section .data\nq dq \"").b(byte_in(b'#', b'~')).b(byte_in(b'#', b'~')).t("\", ").dec(2);
            s.t("\n dw ").dec(2);
            s.t("\nsection .text\npush ").dec(2);
            s.t("\nmov ax, ").dec(1);
            s.t("\n");
        }
        _ => {}
    }
    s.v
}
/// the same source again: the same file
pub fn again() {
    hash(1 + fork(3) as u64);
    let src = varied(fork(4));
    let mut a = Assembler::new();
    a.read_from(&mut &src[..]);
    let mut one = Vec::new();
    a.write_into(&mut one);
    let mut two = Vec::new();
    match fork(4) {
        // the same assembler writes once more
        0 => a.write_into(&mut two),
        1 => {
            let mut b = Assembler::new();
            b.read_from(&mut &src[..]).write_into(&mut two);
        }
        2 => {
            // after another program
            let other = varied(fork(3));
            let mut b = Assembler::new();
            b.read_from(&mut &other[..]).write_into(&mut Vec::new());
            let mut b = Assembler::new();
            b.read_from(&mut &src[..]).write_into(&mut two);
        }
        _ => {
            // two assemblers at work side by side
            let other = varied(fork(3));
            let mut b = Assembler::new();
            let mut c = Assembler::new();
            b.read_from(&mut &src[..]);
            c.read_from(&mut &other[..]);
            c.write_into(&mut Vec::new());
            b.write_into(&mut two);
        }
    }
    reach(1);
    for b in &one {
        obs(*b as u64);
    }
    check(eq(&one, &two), "the same source gives the same file again");
}

// ---------------------------------------------------------------- C32
/// an assembled program read back with at-mac's own readers
pub fn read_back() {
    let mut s = Src::new();
    let mut names: Vec<Vec<u8>> = Vec::new();
    for i in 0..3 {
        let mut n = Vec::new();
        for _ in 0..pick(if i == 0 { &[1usize, 2, 3] } else { &[2usize] }) {
            n.push(byte_in(b'g', b'q'));
        }
        for m in &names {
            assume(!eq(m, &n));
        }
        names.push(n);
    }
    let global = fork(3);
    s.t("global ");
    for &c in &names[global] {
        s.b(c);
    }
    s.t("\n");
    let mut sect = [0usize; 3];
    for i in 0..3 {
        sect[i] = fork(3);
        s.t(["section .text\n", "section .data\n", "section .bss\n"][sect[i]]);
        for &c in &names[i] {
            s.b(c);
        }
        match sect[i] {
            0 => {
                s.t(":\nmov rax, ");
                for &c in &names[(i + 1) % 3] {
                    s.b(c);
                }
                s.t("\n");
            }
            1 => {
                s.t(" dw 0x");
                for _ in 0..2 {
                    s.b(byte_in(b'0', b'9'));
                }
                s.t("\n");
            }
            _ => {
                s.t(":\n");
            }
        }
    }
    let mut out = Vec::new();
    Assembler::new().read_from(&mut &s.v[..]).write_into(&mut out);
    reach(1);
    for b in &out {
        obs(*b as u64);
    }
    let back = crate::h_obj::rewrite(&out);
    check(back.len() == 3, "as many symbols as the program has names");
    for i in 0..3 {
        let mut found = 0;
        for (n, e) in &back {
            if eq(n.as_bytes(), &names[i]) {
                found += 1;
                let ok = match e.n_type {
                    at_mac::nlist::NTypeField::Norm { n_pext, n_type, n_ext } => {
                        !n_pext && n_type == at_mac::nlist::NType::Sect && n_ext == (i == global)
                    }
                    _ => false,
                };
                check(ok, "every name is read back as a symbol of its binding");
            }
        }
        check(found == 1, "every name of the program is read back once");
    }
}

// ---------------------------------------------------------------- C34
/// a program handed over in two or three parts, perhaps with a file written in between
pub fn parts() {
    let mut m = Model::new();
    // ends of lines, and whether all symbol operands are defined so far
    let mut cuts: Vec<(usize, bool)> = vec![(0, true)];
    let kind = fork(6);
    let steps: &[u8] = match kind {
        0 => &[b'G', b'd', b'l', b'b', b'M', b'r'],
        1 => &[b'd', b'l', b'z', b'l', b'G', b't', b'M'],
        2 => &[b'G', b'r', b'l', b'M', b'd', b'b', b'H'],
        3 => &[b'l', b'H', b'z', b'l', b't', b'r', b'l', b'M'],
        4 => &[b'd', b'n', b'G', b'n', b'n', b't', b'M', b'M'],
        _ => &[b't', b'N', b'r', b'd', b'H', b'l', b'b', b'l'],
    };
    for &c in steps {
        match c {
            b'd' => m.sect(Sec::Data),
            b'z' => m.sect(Sec::Bss),
            b't' => m.sect(Sec::Text),
            b'l' => m.label(),
            b'b' => m.db(false),
            b'n' => m.db(true),
            b'r' => m.ret(),
            b'G' => m.global("a"),
            b'H' => m.global("ab"),
            b'M' => m.load(0, "a"),
            _ => m.load(9, "ab"),
        }
        let src = m.src.v.len();
        let ok = m.rels.iter().all(|r| m.syms.iter().any(|y| y.name == r.name));
        cuts.push((src, ok));
    }
    let n = steps.len();
    let i = fork(n + 1);
    let j = if thorough() { i + fork(n + 1 - i) } else { n - fork(2).min(n - i) };
    let bare = fork(2) == 1;
    let between = fork(2) == 1;
    exit_policy(Exit::Violation);
    let src = &m.src.v;
    let mut a = Assembler::new();
    let mut from = 0;
    for (k, &to) in [i, j, n].iter().enumerate() {
        let to_at = cuts[to].0;
        let part = &src[from..to_at];
        // the last line of a part needs no line end
        let part = if bare && !part.is_empty() { &part[..part.len() - 1] } else { part };
        a.read_from(&mut &part[..]);
        if between && k < 2 && cuts[to].1 {
            let mut early = Vec::new();
            a.write_into(&mut early);
            let want = assemble(&src[..to_at]);
            check(eq(&early, &want), "a file written between the parts is that of the parts so far");
        }
        from = to_at;
    }
    let mut out = Vec::new();
    a.write_into(&mut out);
    let whole = assemble(src);
    check(eq(&out, &whole), "a program read in parts gives the file of the whole");
    m.check(&out);
}
