//! at-x64: what the encoded bytes mean to the processor.
use crate::sym::*;
use crate::x64ref::{decode, Inst, Kind, Mem};
use at_x64::instruction::{Instruction, Lea, Mov, Pop, Push, Ret, Syscall};
use at_x64::mem::Mem64;
use at_x64::reg::{Reg, Reg16, Reg32, Reg64, Reg8};

pub const R64: [Reg64; 16] = {
    use Reg64::*;
    [RAX, RCX, RDX, RBX, RSP, RBP, RSI, RDI, R8, R9, R10, R11, R12, R13, R14, R15]
};
pub const R32: [Reg32; 16] = {
    use Reg32::*;
    [EAX, ECX, EDX, EBX, ESP, EBP, ESI, EDI, R8D, R9D, R10D, R11D, R12D, R13D, R14D, R15D]
};
pub const R16: [Reg16; 16] = {
    use Reg16::*;
    [AX, CX, DX, BX, SP, BP, SI, DI, R8W, R9W, R10W, R11W, R12W, R13W, R14W, R15W]
};
pub const R8: [Reg8; 16] = {
    use Reg8::*;
    [AL, CL, DL, BL, SPL, BPL, SIL, DIL, R8B, R9B, R10B, R11B, R12B, R13B, R14B, R15B]
};
// position in these tables = the hardware register number

fn one<T: Instruction>(i: &T) -> Option<Inst> {
    let b = i.bytecode();
    let b = b.as_ref();
    obs_bytes(b);
    check(!b.is_empty() && b.len() <= 15, "an instruction has 1 to 15 bytes");
    let d = decode(b);
    check(d.is_some(), "the bytes are one of the expected instructions");
    let d = d?;
    check(d.len == b.len(), "the bytes are exactly one instruction");
    Some(d)
}

macro_rules! mov_rr {
    ($name:ident, $tab:ident, $bits:expr) => {
        pub fn $name() {
            let (d, s) = (below(16), below(16));
            if let Some(i) = one(&Mov::new($tab[d as usize], $tab[s as usize])) {
                check(i.kind == Kind::MovRmReg && !i.is_mem, "register move decodes as mov r/m, r");
                check(i.size == $bits, "operand size of the registers");
                check(i.rm_reg == d, "destination register");
                check(i.reg == s, "source register");
                reach(1);
            }
        }
    };
}
mov_rr!(mov_r64_r64, R64, 64);
mov_rr!(mov_r32_r32, R32, 32);
mov_rr!(mov_r16_r16, R16, 16);

macro_rules! mov_ri {
    ($name:ident, $tab:ident, $bits:expr, $imm:ident) => {
        pub fn $name() {
            let d = below(16);
            let v = $imm();
            if let Some(i) = one(&Mov::new($tab[d as usize], v)) {
                check(i.kind == Kind::MovRegImm, "immediate move decodes as mov r, imm");
                check(i.size == $bits, "operand size of the register");
                check(i.reg == d, "destination register");
                check(i.imm == v as u64, "immediate value");
                reach(1);
            }
        }
    };
}
mov_ri!(mov_r64_imm, R64, 64, u64);
mov_ri!(mov_r32_imm, R32, 32, u32);
mov_ri!(mov_r16_imm, R16, 16, u16);

fn want_reg_offset(base: u8, disp: u32) -> Mem {
    Mem {
        rip: false,
        has_base: true,
        base,
        has_index: false,
        index: 0,
        scale: 0,
        disp: disp as i32 as i64,
    }
}

fn check_mem(i: &Inst, kind: Kind, reg: u8, want: &Mem) {
    check(i.kind == kind, "store decodes as mov m, r and address computation as lea");
    check(i.is_mem, "memory operand");
    check(i.size == 64, "64-bit operand size");
    check(i.reg == reg, "register operand");
    let m = &i.mem;
    check(m.rip == want.rip, "RIP-relative exactly when requested");
    check(m.has_base == want.has_base, "base register present exactly when requested");
    check(!want.has_base || m.base == want.base, "base register");
    check(m.has_index == want.has_index, "index register present exactly when requested");
    check(!want.has_index || (m.index == want.index && m.scale == want.scale), "index register and scale");
    check(m.disp == want.disp, "displacement");
    reach(1);
}

fn both(m: Mem64, want: &Mem) {
    let r = below(16);
    if fork(2) == 0 {
        if let Some(i) = one(&Mov::new(m, R64[r as usize])) {
            check_mem(&i, Kind::MovRmReg, r, want);
        }
    } else if let Some(i) = one(&Lea::new(R64[r as usize], m)) {
        check_mem(&i, Kind::Lea, r, want);
    }
}

pub fn mem_reg() {
    let b = fork(16);
    both(Mem64::reg(R64[b]), &want_reg_offset(b as u8, 0));
}

pub fn mem_reg_offset() {
    let b = fork(16);
    let d = u32();
    both(Mem64::reg_offset(R64[b], d), &want_reg_offset(b as u8, d));
}

pub fn mem_rip() {
    let d = u32();
    let want = Mem {
        rip: true,
        has_base: false,
        base: 0,
        has_index: false,
        index: 0,
        scale: 0,
        disp: d as i32 as i64,
    };
    both(Mem64::rip_offset(d), &want);
}

pub fn mem_sib() {
    let b = fork(17);
    let x = below(16);
    let s = below(4);
    let d = u32();
    let base = if b < 16 { Some(R64[b]) } else { None };
    let want = Mem {
        rip: false,
        has_base: b < 16,
        base: b as u8,
        // index = RSP is documented to mean "no index"
        has_index: x != 4,
        index: x,
        scale: s,
        disp: d as i32 as i64,
    };
    both(Mem64::sib(base, d, R64[x as usize], s), &want);
}

pub fn push_pop_reg() {
    let r = below(16);
    let ri = r as usize;
    let (i, kind, size) = match fork(4) {
        0 => (one(&Push::new(R64[ri])), Kind::PushReg, 64),
        1 => (one(&Push::new(R16[ri])), Kind::PushReg, 16),
        2 => (one(&Pop::new(R64[ri])), Kind::PopReg, 64),
        _ => (one(&Pop::new(R16[ri])), Kind::PopReg, 16),
    };
    if let Some(i) = i {
        check(i.kind == kind, "push is a push and pop is a pop");
        check(i.size == size, "operand size of the register");
        check(i.reg == r, "register operand");
        reach(1);
    }
}

pub fn push_imm() {
    let (i, v, size) = match fork(3) {
        0 => {
            let v = u8();
            (one(&Push::new(v)), v as i8 as i64 as u64, 64)
        }
        1 => {
            let v = u16();
            (one(&Push::new(v)), v as u64, 16)
        }
        _ => {
            let v = u32();
            (one(&Push::new(v)), v as i32 as i64 as u64, 64)
        }
    };
    if let Some(i) = i {
        check(i.kind == Kind::PushImm, "decodes as push imm");
        check(i.size == size, "operand size");
        check(i.imm == v, "value pushed, sign-extended by the processor");
        reach(1);
    }
}

pub fn ret_syscall() {
    let (i, k) = if fork(2) == 0 {
        (one(&Ret::new()), Kind::Ret)
    } else {
        (one(&Syscall::new()), Kind::Syscall)
    };
    if let Some(i) = i {
        check(i.kind == k, "near return / syscall");
        reach(1);
    }
}

pub fn imm_offset64() {
    let d = below(16);
    let v = u64();
    let m = Mov::new(R64[d as usize], v);
    let b = m.bytecode();
    let b = b.as_ref();
    let o = m.offset_to_imm_bytes() as usize;
    let o = concretize(o as u64) as usize;
    obs(o as u64);
    check(o + 8 == b.len(), "the immediate field reported ends the instruction");
    let mut got = 0u64;
    for i in 0..8 {
        got |= (b[o + i] as u64) << (8 * i);
    }
    check(got == v, "the immediate field reported holds the immediate");
    // patching those bytes changes the immediate and nothing else
    let mut patched = b.to_vec();
    let w = u64();
    for i in 0..8 {
        patched[o + i] = (w >> (8 * i)) as u8;
    }
    let p = decode(&patched);
    check(p.is_some(), "patched instruction still decodes");
    if let Some(p) = p {
        check(p.kind == Kind::MovRegImm && p.size == 64 && p.reg == d, "patching leaves the operation alone");
        check(p.imm == w && p.len == b.len(), "patching replaces the immediate");
        reach(1);
    }
}

pub fn imm_offset32() {
    let d = below(16);
    let v = u32();
    let m = Mov::new(R32[d as usize], v);
    let b = m.bytecode();
    let b = b.as_ref();
    let o = concretize(m.offset_to_imm_bytes() as u64) as usize;
    obs(o as u64);
    check(o + 4 == b.len(), "the immediate field reported ends the instruction");
    let mut patched = b.to_vec();
    let w = u32();
    for i in 0..4 {
        patched[o + i] = (w >> (8 * i)) as u8;
    }
    let p = decode(&patched);
    check(p.is_some(), "patched instruction still decodes");
    if let Some(p) = p {
        check(p.kind == Kind::MovRegImm && p.size == 32 && p.reg == d, "patching leaves the operation alone");
        check(p.imm == w as u64 && p.len == b.len(), "patching replaces the immediate");
        reach(1);
    }
}

const N64: [&str; 16] = [
    "rax", "rcx", "rdx", "rbx", "rsp", "rbp", "rsi", "rdi", "r8", "r9", "r10", "r11", "r12", "r13", "r14", "r15",
];
const N32: [&str; 16] = [
    "eax", "ecx", "edx", "ebx", "esp", "ebp", "esi", "edi", "r8d", "r9d", "r10d", "r11d", "r12d", "r13d", "r14d", "r15d",
];
const N16: [&str; 16] = [
    "ax", "cx", "dx", "bx", "sp", "bp", "si", "di", "r8w", "r9w", "r10w", "r11w", "r12w", "r13w", "r14w", "r15w",
];
const N8: [&str; 16] = [
    "al", "cl", "dl", "bl", "spl", "bpl", "sil", "dil", "r8b", "r9b", "r10b", "r11b", "r12b", "r13b", "r14b", "r15b",
];
pub fn names() -> [&'static [&'static str; 16]; 4] {
    [&N64, &N32, &N16, &N8]
}

/// names printed for registers
pub fn reg_names() {
    fmt(true);
    let size = fork(4);
    let r = fork(16);
    let s = match (size, fork(2)) {
        (0, 0) => R64[r].to_string(),
        (1, 0) => R32[r].to_string(),
        (2, 0) => R16[r].to_string(),
        (3, 0) => R8[r].to_string(),
        (0, _) => Reg::Reg64(R64[r]).to_string(),
        (1, _) => Reg::Reg32(R32[r]).to_string(),
        (2, _) => Reg::Reg16(R16[r]).to_string(),
        (_, _) => Reg::Reg8(R8[r]).to_string(),
    };
    obs_bytes(s.as_bytes());
    check(s == names()[size][r], "printed name");
    reach(1);
}

/// hardware numbers and sub-register relations
pub fn reg_codes() {
    let r = below(16);
    let i = r as usize;
    let full = |code: u8, ext: bool| code | (ext as u8) << 3;
    let (q, d, w) = (R64[i], R32[i], R16[i]);
    check(q.register_code() < 8 && d.register_code() < 8 && w.register_code() < 8, "register codes are 3 bits");
    check(full(q.register_code(), q.is_extended()) == r, "hardware number of a 64-bit register");
    check(full(d.register_code(), d.is_extended()) == r, "hardware number of a 32-bit register");
    check(full(w.register_code(), w.is_extended()) == r, "hardware number of a 16-bit register");
    check(full(q.reg_bits(), q.rex_r_bit()) == r, "reg field and its extension bit");
    check(full(q.rm_bits(), q.rex_b_bit()) == r, "r/m field and its extension bit");
    check(d.to_reg64() == q, "32-bit register is the low half of the 64-bit one");
    check(w.to_reg32() == d, "16-bit register is the low half of the 32-bit one");
    obs(q.register_code() as u64);
    reach(1);
}

// ---------------------------------------------------------------- C33
use at_x64::BytesAtMost;

fn buffer<const M: usize>(b: &BytesAtMost<M>, want: &[u8]) {
    check(b.len() == want.len() && b.as_ref().len() == want.len(), "as long as what it was made from");
    check(b.is_empty() == want.is_empty(), "empty exactly when there are no bytes");
    let mut same = true;
    for (i, x) in b.as_ref().iter().enumerate() {
        same = same & (*x == want[i]);
    }
    check(same, "the bytes it was made from");
    obs_bytes(b.as_ref());
}
fn some<const N: usize>() -> [u8; N] {
    let mut a = [0; N];
    for x in a.iter_mut() {
        *x = u8();
    }
    a
}
fn array<const N: usize, const M: usize>() {
    let a: [u8; N] = some();
    let b = BytesAtMost::<M>::from(a);
    buffer(&b, &a);
    // a copy is its own
    let mut c = b;
    if N > 0 {
        let i = fork(N);
        let x = u8();
        c.as_mut()[i] = x;
        let mut w = a;
        w[i] = x;
        buffer(&c, &w);
        buffer(&b, &a);
        check((c == b) == (x == a[i]), "equal exactly when the bytes are");
    }
    // the same bytes and a zero are another buffer
    if N < M {
        let mut d = BytesAtMost::<M>::with_len(N + 1);
        buffer(&d, &[0; 16][..N + 1]);
        d.as_mut()[..N].copy_from_slice(&a);
        check(d != b, "buffers of different lengths differ");
    }
}
/// buffers made from arrays
pub fn buffers() {
    match fork(15) {
        0 => array::<0, 1>(),
        1 => array::<1, 1>(),
        2 => array::<1, 3>(),
        3 => array::<2, 3>(),
        4 => array::<3, 3>(),
        5 => array::<3, 4>(),
        6 => array::<4, 4>(),
        7 => array::<4, 8>(),
        8 => array::<7, 8>(),
        9 => array::<8, 8>(),
        10 => array::<5, 15>(),
        11 => array::<9, 15>(),
        12 => array::<11, 15>(),
        13 => array::<14, 15>(),
        _ => array::<15, 15>(),
    }
    reach(1);
}
fn number<const M: usize>(size: usize, v: u64) -> BytesAtMost<M> {
    match size {
        1 => BytesAtMost::from(v as u8),
        2 => BytesAtMost::from(v as u16),
        4 => BytesAtMost::from(v as u32),
        _ => BytesAtMost::from(v),
    }
}
/// buffers made from numbers
pub fn buffer_numbers() {
    let size = [1usize, 2, 4, 8][fork(4)];
    let v = u64();
    let le = v.to_le_bytes();
    let want = &le[..size];
    match fork(4) {
        0 if size <= 1 => buffer(&number::<1>(size, v), want),
        1 if size <= 4 => buffer(&number::<4>(size, v), want),
        2 => buffer(&number::<8>(size, v), want),
        _ => buffer(&number::<15>(size, v), want),
    }
    reach(1);
}
/// what does not fit is refused
pub fn buffer_refuses() {
    panics_allowed(true);
    reach(1);
    match fork(10) {
        0 => drop(BytesAtMost::<3>::from([u8(); 4])),
        1 => drop(BytesAtMost::<1>::from([u8(); 2])),
        2 => drop(BytesAtMost::<8>::from([u8(); 9])),
        3 => drop(BytesAtMost::<15>::from([u8(); 16])),
        4 => drop(BytesAtMost::<1>::from(u64() as u16)),
        5 => drop(BytesAtMost::<3>::from(u64() as u32)),
        6 => drop(BytesAtMost::<4>::from(u64())),
        7 => drop(BytesAtMost::<7>::from(u64())),
        8 => {
            let n = u64() as usize;
            assume(n > 15);
            drop(BytesAtMost::<15>::with_len(n));
        }
        _ => drop(BytesAtMost::<0>::from(u8())),
    }
    check(false, "more bytes than the buffer holds are refused");
}
