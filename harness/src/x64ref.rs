//! Reference decoder for the subset of x86-64 the encoder can produce,
//! written from the instruction set reference (Intel SDM vol. 2, chapter 2 and
//! the opcode map), independent of the encoder's own tables.

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    /// mov r/m <- reg
    MovRmReg,
    /// mov reg <- imm
    MovRegImm,
    Lea,
    PushReg,
    PopReg,
    PushImm,
    Ret,
    Syscall,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Mem {
    pub rip: bool,
    pub has_base: bool,
    pub base: u8,
    pub has_index: bool,
    pub index: u8,
    pub scale: u8,
    /// sign-extended as the processor does
    pub disp: i64,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Inst {
    pub kind: Kind,
    /// operand size in bits
    pub size: u8,
    /// hardware number of the register operand
    pub reg: u8,
    /// hardware number of the r/m operand when it is a register
    pub rm_reg: u8,
    pub is_mem: bool,
    pub mem: Mem,
    pub imm: u64,
    pub imm_off: usize,
    pub imm_len: usize,
    pub len: usize,
}

const NOMEM: Mem = Mem {
    rip: false,
    has_base: false,
    base: 0,
    has_index: false,
    index: 0,
    scale: 0,
    disp: 0,
};

fn le(b: &[u8], at: usize, n: usize) -> Option<u64> {
    if at + n > b.len() {
        return None;
    }
    let mut v = 0u64;
    let mut i = 0;
    while i < n {
        v |= (b[at + i] as u64) << (8 * i);
        i += 1;
    }
    Some(v)
}

/// Decodes the instruction at the start of `b`.
pub fn decode(b: &[u8]) -> Option<Inst> {
    let mut p = 0;
    let mut opsize16 = false;
    if le(b, p, 1)? == 0x66 {
        opsize16 = true;
        p += 1;
    }
    let (mut w, mut r, mut x, mut bb) = (0u8, 0u8, 0u8, 0u8);
    let o = le(b, p, 1)? as u8;
    if o & 0xF0 == 0x40 {
        w = o >> 3 & 1;
        r = o >> 2 & 1;
        x = o >> 1 & 1;
        bb = o & 1;
        p += 1;
    }
    let op = le(b, p, 1)? as u8;
    p += 1;
    let size = if w == 1 {
        64
    } else if opsize16 {
        16
    } else {
        32
    };
    let mut i = Inst {
        kind: Kind::Ret,
        size,
        reg: 0,
        rm_reg: 0,
        is_mem: false,
        mem: NOMEM,
        imm: 0,
        imm_off: 0,
        imm_len: 0,
        len: 0,
    };
    // opcodes whose low three bits are a register
    if op & 0xF8 == 0xB8 {
        i.kind = Kind::MovRegImm;
        i.reg = (op & 7) | bb << 3;
        let n = size as usize / 8;
        i.imm = le(b, p, n)?;
        i.imm_off = p;
        i.imm_len = n;
        i.len = p + n;
        return Some(i);
    }
    if op & 0xF0 == 0x50 {
        i.kind = if op & 8 == 0 { Kind::PushReg } else { Kind::PopReg };
        // push/pop default to 64 bits; 66h selects 16 unless REX.W
        i.size = if opsize16 && w == 0 { 16 } else { 64 };
        i.reg = (op & 7) | bb << 3;
        i.len = p;
        return Some(i);
    }
    match op {
        0xC3 => {
            i.len = p;
            i.kind = Kind::Ret;
            Some(i)
        }
        0x0F => {
            if le(b, p, 1)? != 0x05 {
                return None;
            }
            i.kind = Kind::Syscall;
            i.len = p + 1;
            Some(i)
        }
        0x6A | 0x68 => {
            i.kind = Kind::PushImm;
            i.size = if opsize16 && w == 0 { 16 } else { 64 };
            let n = if op == 0x6A {
                1
            } else if i.size == 16 {
                2
            } else {
                4
            };
            let v = le(b, p, n)?;
            let sh = 64 - 8 * n as u32;
            // the processor sign-extends the immediate to the operand size
            i.imm = ((v << sh) as i64 >> sh) as u64;
            if i.size == 16 {
                i.imm &= 0xFFFF;
            }
            i.imm_off = p;
            i.imm_len = n;
            i.len = p + n;
            Some(i)
        }
        // mov r/m, imm
        0xC7 => {
            let modrm = le(b, p, 1)? as u8;
            p += 1;
            if modrm >> 3 != 0b11000 {
                return None;
            }
            let n = if size == 16 { 2 } else { 4 };
            let v = le(b, p, n)?;
            i.kind = Kind::MovRegImm;
            i.reg = (modrm & 7) | bb << 3;
            i.imm = if size == 64 { v as u32 as i32 as i64 as u64 } else { v };
            i.imm_off = p;
            i.imm_len = n;
            i.len = p + n;
            Some(i)
        }
        // mov reg, r/m between registers
        0x8B => {
            let modrm = le(b, p, 1)? as u8;
            p += 1;
            if modrm >> 6 != 3 {
                return None;
            }
            i.kind = Kind::MovRmReg;
            i.rm_reg = (modrm >> 3 & 7) | r << 3;
            i.reg = (modrm & 7) | bb << 3;
            i.len = p;
            Some(i)
        }
        0x89 | 0x8D => {
            i.kind = if op == 0x89 { Kind::MovRmReg } else { Kind::Lea };
            let modrm = le(b, p, 1)? as u8;
            p += 1;
            let (md, rm) = (modrm >> 6, modrm & 7);
            i.reg = (modrm >> 3 & 7) | r << 3;
            if md == 3 {
                if op == 0x8D {
                    return None;
                }
                i.rm_reg = rm | bb << 3;
                i.len = p;
                return Some(i);
            }
            i.is_mem = true;
            let mut m = NOMEM;
            let mut disp32 = md == 2;
            if rm == 4 {
                let sib = le(b, p, 1)? as u8;
                p += 1;
                let idx = (sib >> 3 & 7) | x << 3;
                m.scale = sib >> 6;
                if idx != 4 {
                    m.has_index = true;
                    m.index = idx;
                }
                if sib & 7 == 5 && md == 0 {
                    disp32 = true;
                } else {
                    m.has_base = true;
                    m.base = (sib & 7) | bb << 3;
                }
            } else if rm == 5 && md == 0 {
                m.rip = true;
                disp32 = true;
            } else {
                m.has_base = true;
                m.base = rm | bb << 3;
            }
            if disp32 {
                m.disp = le(b, p, 4)? as u32 as i32 as i64;
                p += 4;
            } else if md == 1 {
                m.disp = le(b, p, 1)? as u8 as i8 as i64;
                p += 1;
            }
            i.mem = m;
            i.len = p;
            Some(i)
        }
        _ => None,
    }
}
