//! Lazy parser for textual LLVM IR: functions are decoded when first executed.
use crate::expr::{mask, Bv};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, PartialEq, Debug)]
pub enum Ty {
    Void,
    Int(u16),
    Ptr,
    Arr(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Vect(u64, Rc<Ty>),
    Float(u16),
    Other,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = (*w as u64 + 7) / 8;
                b.next_power_of_two().min(16).max(1)
            }
            Ty::Ptr => 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            Ty::Vect(..) => self.size().next_power_of_two(),
            Ty::Float(w) => (*w as u64 / 8).max(1),
            _ => 1,
        }
    }
    /// bytes between consecutive array elements
    pub fn alloc_size(&self) -> u64 {
        let a = self.align();
        (self.size() + a - 1) / a * a
    }
    /// bytes read/written by a load/store
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            Ty::Ptr => 8,
            Ty::Arr(n, t) => n * t.alloc_size(),
            Ty::Struct(..) => self.layout().1,
            Ty::Vect(n, t) => match &**t {
                Ty::Int(w) => (n * *w as u64 + 7) / 8,
                t => n * t.size(),
            },
            Ty::Float(w) => *w as u64 / 8,
            _ => 0,
        }
    }
    /// (field offsets, total size)
    pub fn layout(&self) -> (Vec<u64>, u64) {
        match self {
            Ty::Struct(f, packed) => {
                let mut off = 0;
                let mut offs = vec![];
                for t in f.iter() {
                    if !packed {
                        let a = t.align();
                        off = (off + a - 1) / a * a;
                    }
                    offs.push(off);
                    off += t.alloc_size();
                }
                let a = self.align();
                (offs, (off + a - 1) / a * a)
            }
            _ => (vec![], 0),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    B(Bv),
    A(Rc<Vec<Val>>),
    Unset,
}

#[derive(Clone, Debug)]
pub enum Opd {
    Reg(u32),
    K(Val),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum CastK {
    Trunc,
    ZExt,
    SExt,
    PtrToInt,
    IntToPtr,
    Bitcast,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(Rc<str>),
    Indirect(Opd),
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin(BinOp, Opd, Opd),
    ICmp(Pred, Opd, Opd),
    Load(Ty, Opd),
    Store(Ty, Opd, Opd),
    Gep(Opd, u64, Vec<(Opd, u16, u64)>),
    Cast(CastK, Ty, Opd, Ty),
    Select(Opd, Opd, Opd),
    Call { callee: Callee, args: Vec<Opd>, ret: Ty, byval: bool },
    Extract(Opd, Vec<u32>),
    Insert(Opd, Opd, Vec<u32>),
    ExtractElem(Opd, Opd),
    InsertElem(Opd, Opd, Opd),
    Shuffle(Opd, Opd, Vec<u32>),
    Alloca(u64, Opd),
    Copy(Opd),
    AtomicRmw(Rc<str>, Ty, Opd, Opd),
    CmpXchg(Ty, Opd, Opd, Opd),
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(Opd, u32, Vec<(u128, u32)>),
    Ret(Option<Opd>),
    Unreachable,
    Nop,
    Unsupported(Rc<str>),
}

pub struct Ins {
    pub dst: Option<u32>,
    pub i: Inst,
    pub dbg: u32,
    /// normal successor for an invoke
    pub normal: Option<u32>,
}

pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Opd)>)>,
    pub ins: Vec<Ins>,
    pub gid: u32,
}

pub struct Func {
    pub name: Rc<str>,
    pub params: Vec<u32>,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub varargs: bool,
}

pub struct Global {
    pub name: String,
    pub line: (usize, usize),
    pub addr: u64,
    pub size: u64,
    pub constant: bool,
    pub ty: Ty,
    pub init_at: usize, // byte offset of initializer; 0 if external
}

pub struct Module {
    pub text: Vec<u8>,
    pub funcs: HashMap<Rc<str>, (usize, usize)>, // name -> body range
    pub decls: HashMap<Rc<str>, ()>,
    pub globals: Vec<Global>,
    pub gmap: HashMap<Rc<str>, u32>,
    pub faddr: HashMap<Rc<str>, u64>,
    pub addrf: HashMap<u64, Rc<str>>,
    pub gaddrs: Vec<(u64, u32)>,
    pub aliases: HashMap<Rc<str>, Rc<str>>,
    pub named: HashMap<String, Ty>,
    pub meta: HashMap<u32, (usize, usize)>,
    pub cache: RefCell<HashMap<Rc<str>, Rc<Func>>>,
    pub nblocks: std::cell::Cell<u32>,
}

pub struct P<'a> {
    pub s: &'a [u8],
    pub i: usize,
    pub m: &'a Module,
}

type R<T> = Result<T, String>;

fn is_ident(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\n') {
            self.i += 1;
        }
    }
    pub fn peek(&mut self) -> u8 {
        self.ws();
        if self.i < self.s.len() {
            self.s[self.i]
        } else {
            0
        }
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: u8) -> R<()> {
        if self.eat(c) {
            Ok(())
        } else {
            Err(format!("expected {:?} at {:?}", c as char, self.rest()))
        }
    }
    fn rest(&self) -> String {
        let e = (self.i + 80).min(self.s.len());
        String::from_utf8_lossy(&self.s[self.i.min(e)..e]).to_string()
    }
    fn word(&mut self) -> &'a str {
        self.ws();
        let st = self.i;
        while self.i < self.s.len() && is_ident(self.s[self.i]) {
            self.i += 1;
        }
        std::str::from_utf8(&self.s[st..self.i]).unwrap_or("")
    }
    fn peek_word(&mut self) -> &'a str {
        let s = self.i;
        let w = self.word();
        self.i = s;
        w
    }
    fn eat_word(&mut self, w: &str) -> bool {
        let s = self.i;
        if self.word() == w {
            true
        } else {
            self.i = s;
            false
        }
    }
    /// name after % or @ or a label
    fn name(&mut self) -> String {
        if self.i < self.s.len() && self.s[self.i] == b'"' {
            self.i += 1;
            let st = self.i;
            while self.s[self.i] != b'"' {
                self.i += 1;
            }
            let r = String::from_utf8_lossy(&self.s[st..self.i]).to_string();
            self.i += 1;
            r
        } else {
            let st = self.i;
            while self.i < self.s.len() && is_ident(self.s[self.i]) {
                self.i += 1;
            }
            String::from_utf8_lossy(&self.s[st..self.i]).to_string()
        }
    }
    fn balanced(&mut self) {
        // at an opening bracket
        let mut d = 0;
        loop {
            if self.i >= self.s.len() {
                return;
            }
            let c = self.s[self.i];
            self.i += 1;
            match c {
                b'(' | b'[' | b'{' => d += 1,
                b')' | b']' | b'}' => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                b'"' => {
                    while self.s[self.i] != b'"' {
                        self.i += 1;
                    }
                    self.i += 1;
                }
                _ => {}
            }
        }
    }
    fn number(&mut self) -> R<i128> {
        let w = self.word();
        w.parse::<i128>().map_err(|_| format!("number expected, got {:?} at {}", w, self.rest()))
    }

    pub fn ty(&mut self) -> R<Ty> {
        let c = self.peek();
        match c {
            b'[' => {
                self.i += 1;
                let n = self.number()? as u64;
                if self.word() != "x" {
                    return Err("array x".into());
                }
                let t = self.ty()?;
                self.expect(b']')?;
                Ok(Ty::Arr(n, Rc::new(t)))
            }
            b'{' => {
                self.i += 1;
                self.struct_ty(false)
            }
            b'<' => {
                self.i += 1;
                if self.eat(b'{') {
                    let t = self.struct_ty(true)?;
                    self.expect(b'>')?;
                    return Ok(t);
                }
                let n = self.number()? as u64;
                if self.word() != "x" {
                    return Err("vector x".into());
                }
                let t = self.ty()?;
                self.expect(b'>')?;
                Ok(Ty::Vect(n, Rc::new(t)))
            }
            b'%' => {
                self.i += 1;
                let n = self.name();
                self.m.named.get(&n).cloned().ok_or(format!("named type {}", n))
            }
            _ => {
                let w = self.word();
                match w {
                    "void" => Ok(Ty::Void),
                    "ptr" => {
                        if self.eat_word("addrspace") {
                            self.ws();
                            self.balanced();
                        }
                        Ok(Ty::Ptr)
                    }
                    "half" => Ok(Ty::Float(16)),
                    "float" => Ok(Ty::Float(32)),
                    "double" => Ok(Ty::Float(64)),
                    "x86_fp80" => Ok(Ty::Float(80)),
                    "fp128" => Ok(Ty::Float(128)),
                    "metadata" | "label" | "token" | "opaque" => Ok(Ty::Other),
                    _ => {
                        if let Some(n) = w.strip_prefix('i') {
                            if let Ok(n) = n.parse::<u16>() {
                                return Ok(Ty::Int(n));
                            }
                        }
                        Err(format!("type {:?} at {}", w, self.rest()))
                    }
                }
            }
        }
    }
    fn struct_ty(&mut self, packed: bool) -> R<Ty> {
        let mut f = vec![];
        if self.eat(b'}') {
            return Ok(Ty::Struct(Rc::new(f), packed));
        }
        loop {
            f.push(self.ty()?);
            if self.eat(b',') {
                continue;
            }
            self.expect(b'}')?;
            return Ok(Ty::Struct(Rc::new(f), packed));
        }
    }

    /// skip parameter / return attributes
    fn attrs(&mut self) -> bool {
        let mut byval = false;
        loop {
            let c = self.peek();
            if c == b'"' {
                // "k"="v"
                self.i += 1;
                while self.s[self.i] != b'"' {
                    self.i += 1;
                }
                self.i += 1;
                if self.i < self.s.len() && self.s[self.i] == b'=' {
                    self.i += 2;
                    while self.s[self.i] != b'"' {
                        self.i += 1;
                    }
                    self.i += 1;
                }
                continue;
            }
            if !c.is_ascii_alphabetic() {
                return byval;
            }
            let st = self.i;
            let w = self.word();
            if matches!(
                w,
                "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "inttoptr"
                    | "ptrtoint" | "trunc" | "sub" | "add" | "splat" | "c" | "bitcast" | "asm" | "none" | "xor"
                    | "mul" | "shl" | "dso_local_equivalent" | "no_cfi" | "void" | "ptr" | "half" | "float"
                    | "double" | "metadata" | "label" | "token" | "blockaddress" | "x86_fp80" | "fp128" | "ptrtoaddr"
            ) || (w.len() > 1 && w.starts_with('i') && w[1..].bytes().all(|b| b.is_ascii_digit()))
            {
                self.i = st;
                return byval;
            }
            if w == "byval" {
                byval = true;
            }
            if self.i < self.s.len() && self.s[self.i] == b'(' {
                self.balanced();
            } else if w == "align" {
                let _ = self.number();
            }
        }
    }

    pub fn zero(t: &Ty) -> Val {
        match t {
            Ty::Int(w) => Val::B(Bv::C { w: *w, v: 0 }),
            Ty::Ptr => Val::B(Bv::C { w: 64, v: 0 }),
            Ty::Float(w) => Val::B(Bv::C { w: *w, v: 0 }),
            Ty::Arr(n, t) | Ty::Vect(n, t) => Val::A(Rc::new(vec![Self::zero(t); *n as usize])),
            Ty::Struct(f, _) => Val::A(Rc::new(f.iter().map(Self::zero).collect())),
            _ => Val::Unset,
        }
    }

    fn kbv(&mut self, t: &Ty) -> R<(u16, u128)> {
        match self.konst(t)? {
            Val::B(Bv::C { w, v }) => Ok((w, v)),
            o => Err(format!("scalar constant expected {:?}", o)),
        }
    }

    pub fn addr_of(&self, n: &str) -> R<u64> {
        if let Some(&g) = self.m.gmap.get(n) {
            return Ok(self.m.globals[g as usize].addr);
        }
        if let Some(&a) = self.m.faddr.get(n) {
            return Ok(a);
        }
        if let Some(t) = self.m.aliases.get(n) {
            return self.addr_of(&t.clone());
        }
        Err(format!("unknown global @{}", n))
    }

    /// constant of type t
    pub fn konst(&mut self, t: &Ty) -> R<Val> {
        let c = self.peek();
        match c {
            b'@' => {
                self.i += 1;
                let n = self.name();
                Ok(Val::B(Bv::C { w: 64, v: self.addr_of(&n)? as u128 }))
            }
            b'[' | b'{' => {
                self.i += 1;
                self.agg(if c == b'[' { b']' } else { b'}' })
            }
            b'<' => {
                self.i += 1;
                if self.eat(b'{') {
                    let v = self.agg(b'}')?;
                    self.expect(b'>')?;
                    Ok(v)
                } else {
                    self.agg(b'>')
                }
            }
            _ => {
                if c == b'c' && self.s.get(self.i + 1) == Some(&b'"') {
                    self.i += 2;
                    let mut v = vec![];
                    loop {
                        let b = self.s[self.i];
                        self.i += 1;
                        if b == b'"' {
                            break;
                        }
                        if b == b'\\' {
                            if self.s[self.i] == b'\\' {
                                v.push(b'\\');
                                self.i += 1;
                            } else {
                                let h = std::str::from_utf8(&self.s[self.i..self.i + 2]).unwrap();
                                v.push(u8::from_str_radix(h, 16).unwrap());
                                self.i += 2;
                            }
                        } else {
                            v.push(b);
                        }
                    }
                    return Ok(Val::A(Rc::new(v.into_iter().map(|b| Val::B(Bv::C { w: 8, v: b as u128 })).collect())));
                }
                let w = self.word();
                match w {
                    "true" => Ok(Val::B(Bv::C { w: 1, v: 1 })),
                    "false" => Ok(Val::B(Bv::C { w: 1, v: 0 })),
                    "null" | "zeroinitializer" | "undef" | "poison" | "none" => Ok(Self::zero(t)),
                    "splat" => {
                        self.expect(b'(')?;
                        let et = self.ty()?;
                        let v = self.konst(&et)?;
                        self.expect(b')')?;
                        match t {
                            Ty::Vect(n, _) => Ok(Val::A(Rc::new(vec![v; *n as usize]))),
                            _ => Err("splat of non-vector".into()),
                        }
                    }
                    "getelementptr" => {
                        while self.peek() != b'(' {
                            self.word();
                            if self.peek() == b'(' {
                                // inrange(...) or the operand list: operand list starts with a type
                                let s = self.i;
                                self.i += 1;
                                let pw = self.peek();
                                if pw.is_ascii_digit() || pw == b'-' {
                                    self.i = s;
                                    self.balanced();
                                } else {
                                    self.i = s;
                                    break;
                                }
                            }
                        }
                        self.expect(b'(')?;
                        let bt = self.ty()?;
                        self.expect(b',')?;
                        let pt = self.ty()?;
                        let (_, base) = self.kbv(&pt)?;
                        let mut addr = base as u64;
                        let mut cur = bt.clone();
                        let mut first = true;
                        while self.eat(b',') {
                            let it = self.ty()?;
                            let (iw, iv) = self.kbv(&it)?;
                            let iv = crate::expr::sext128(iv, iw) as i64;
                            if first {
                                addr = addr.wrapping_add((iv as u64).wrapping_mul(bt.alloc_size()));
                                first = false;
                            } else {
                                let (o, n) = step(&cur, iv)?;
                                addr = addr.wrapping_add(o);
                                cur = n;
                            }
                        }
                        self.expect(b')')?;
                        Ok(Val::B(Bv::C { w: 64, v: addr as u128 }))
                    }
                    "inttoptr" | "ptrtoint" | "trunc" | "bitcast" | "ptrtoaddr" => {
                        while self.peek() != b'(' {
                            self.word();
                        }
                        self.expect(b'(')?;
                        let ft = self.ty()?;
                        let v = self.konst(&ft)?;
                        if self.word() != "to" {
                            return Err("to".into());
                        }
                        let tt = self.ty()?;
                        self.expect(b')')?;
                        let tw = match tt {
                            Ty::Int(w) => w,
                            Ty::Ptr => 64,
                            _ => return Ok(v),
                        };
                        match v {
                            Val::B(Bv::C { v, .. }) => Ok(Val::B(Bv::C { w: tw, v: v & mask(tw) })),
                            o => Ok(o),
                        }
                    }
                    "sub" | "add" | "xor" | "mul" | "shl" => {
                        while self.peek() != b'(' {
                            self.word();
                        }
                        self.expect(b'(')?;
                        let t1 = self.ty()?;
                        let (aw, a) = self.kbv(&t1)?;
                        self.expect(b',')?;
                        let t2 = self.ty()?;
                        let (_, b) = self.kbv(&t2)?;
                        self.expect(b')')?;
                        let r = match w {
                            "sub" => a.wrapping_sub(b),
                            "add" => a.wrapping_add(b),
                            "mul" => a.wrapping_mul(b),
                            "shl" => a << b,
                            _ => a ^ b,
                        };
                        Ok(Val::B(Bv::C { w: aw, v: r & mask(aw) }))
                    }
                    _ => {
                        if let Ty::Int(tw) = t {
                            let n = w.parse::<i128>().ok().map(|x| x as u128).or_else(|| w.parse::<u128>().ok());
                            if let Some(n) = n {
                                return Ok(Val::B(Bv::C { w: *tw, v: n & mask(*tw) }));
                            }
                        }
                        if let Ty::Float(fw) = t {
                            // value unused unless float instructions execute (unsupported)
                            while self.i < self.s.len() && (is_ident(self.s[self.i]) || self.s[self.i] == b'+') {
                                self.i += 1;
                            }
                            return Ok(Val::B(Bv::C { w: *fw, v: 0 }));
                        }
                        Err(format!("constant {:?} of {:?} at {}", w, t, self.rest()))
                    }
                }
            }
        }
    }
    fn agg(&mut self, close: u8) -> R<Val> {
        let mut v = vec![];
        if self.eat(close) {
            return Ok(Val::A(Rc::new(v)));
        }
        loop {
            let t = self.ty()?;
            v.push(self.konst(&t)?);
            if self.eat(b',') {
                continue;
            }
            self.expect(close)?;
            return Ok(Val::A(Rc::new(v)));
        }
    }
}

/// descend into aggregate type by index
pub fn step(t: &Ty, i: i64) -> R<(u64, Ty)> {
    match t {
        Ty::Arr(_, e) | Ty::Vect(_, e) => Ok(((i as u64).wrapping_mul(e.alloc_size()), (**e).clone())),
        Ty::Struct(f, _) => {
            let (offs, _) = t.layout();
            Ok((offs[i as usize], f[i as usize].clone()))
        }
        _ => Err("gep into scalar".into()),
    }
}

struct FnParser<'a> {
    p: P<'a>,
    regs: HashMap<String, u32>,
    labels: HashMap<String, u32>,
}

impl<'a> FnParser<'a> {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.regs.get(n) {
            return r;
        }
        let r = self.regs.len() as u32;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn opd(&mut self, t: &Ty) -> R<Opd> {
        if self.p.peek() == b'%' {
            self.p.i += 1;
            let n = self.p.name();
            return Ok(Opd::Reg(self.reg(&n)));
        }
        Ok(Opd::K(self.p.konst(t)?))
    }
    fn label(&mut self) -> R<u32> {
        // "label %x"
        if !self.p.eat_word("label") {
            return Err(format!("label expected at {}", self.p.rest()));
        }
        self.p.expect(b'%')?;
        let n = self.p.name();
        self.labels.get(&n).copied().ok_or(format!("unknown label {}", n))
    }
    fn tyopd(&mut self) -> R<(Ty, Opd)> {
        let t = self.p.ty()?;
        let o = self.opd(&t)?;
        Ok((t, o))
    }

    fn call(&mut self) -> R<Inst> {
        // after `call`/`invoke`
        loop {
            let w = self.p.peek_word();
            if matches!(
                w,
                "fastcc" | "coldcc" | "ccc" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "fast"
                    | "preserve_mostcc" | "preserve_allcc" | "cold" | "tailcc" | "x86_64_sysvcc"
            ) {
                self.p.word();
            } else {
                break;
            }
        }
        self.p.attrs();
        let ret = self.p.ty()?;
        if self.p.peek() == b'(' {
            self.p.balanced();
        }
        let callee = match self.p.peek() {
            b'@' => {
                self.p.i += 1;
                let n = self.p.name();
                let mut n: Rc<str> = Rc::from(n.as_str());
                while let Some(a) = self.p.m.aliases.get(&n) {
                    n = a.clone();
                }
                Callee::Direct(n)
            }
            b'%' => {
                self.p.i += 1;
                let n = self.p.name();
                Callee::Indirect(Opd::Reg(self.reg(&n)))
            }
            _ => {
                if self.p.peek_word() == "asm" {
                    let rest = self.p.rest();
                    if rest.contains("\"\", ") && ret == Ty::Void {
                        return Ok(Inst::Nop); // empty inline asm barrier
                    }
                    return Ok(Inst::Unsupported(Rc::from(format!("inline asm {}", rest))));
                }
                if self.p.peek_word() == "inttoptr" {
                    return Ok(Inst::Unsupported(Rc::from("call through constant")));
                }
                return Err(format!("callee at {}", self.p.rest()));
            }
        };
        if let Callee::Direct(n) = &callee {
            if n.starts_with("llvm.lifetime")
                || n.starts_with("llvm.experimental.noalias")
                || n.starts_with("llvm.assume")
                || n.starts_with("llvm.dbg")
                || n.starts_with("llvm.donothing")
                || n.starts_with("llvm.prefetch")
                || n.starts_with("llvm.x86.sse2.pause")
                || n.starts_with("llvm.invariant")
            {
                return Ok(Inst::Nop);
            }
        }
        self.p.expect(b'(')?;
        let mut args = vec![];
        let mut byval = false;
        if !self.p.eat(b')') {
            loop {
                let t = self.p.ty()?;
                byval |= self.p.attrs();
                if t == Ty::Other {
                    return Ok(Inst::Unsupported(Rc::from("metadata argument")));
                }
                args.push(self.opd(&t)?);
                if self.p.eat(b',') {
                    continue;
                }
                self.p.expect(b')')?;
                break;
            }
        }
        Ok(Inst::Call { callee, args, ret, byval })
    }

    fn skip_flags(&mut self, flags: &[&str]) {
        loop {
            let s = self.p.i;
            let w = self.p.word();
            if flags.contains(&w) {
                if self.p.i < self.p.s.len() && self.p.s[self.p.i] == b'(' {
                    self.p.balanced();
                }
                continue;
            }
            self.p.i = s;
            return;
        }
    }

    fn inst(&mut self) -> R<(Inst, Option<u32>)> {
        let op = self.p.word();
        let bop = match op {
            "add" => Some(BinOp::Add),
            "sub" => Some(BinOp::Sub),
            "mul" => Some(BinOp::Mul),
            "udiv" => Some(BinOp::UDiv),
            "sdiv" => Some(BinOp::SDiv),
            "urem" => Some(BinOp::URem),
            "srem" => Some(BinOp::SRem),
            "and" => Some(BinOp::And),
            "or" => Some(BinOp::Or),
            "xor" => Some(BinOp::Xor),
            "shl" => Some(BinOp::Shl),
            "lshr" => Some(BinOp::LShr),
            "ashr" => Some(BinOp::AShr),
            _ => None,
        };
        if let Some(b) = bop {
            self.skip_flags(&["nuw", "nsw", "exact", "disjoint"]);
            let t = self.p.ty()?;
            let x = self.opd(&t)?;
            self.p.expect(b',')?;
            let y = self.opd(&t)?;
            return Ok((Inst::Bin(b, x, y), None));
        }
        let ck = match op {
            "trunc" => Some(CastK::Trunc),
            "zext" => Some(CastK::ZExt),
            "sext" => Some(CastK::SExt),
            "ptrtoint" | "ptrtoaddr" => Some(CastK::PtrToInt),
            "inttoptr" => Some(CastK::IntToPtr),
            "bitcast" => Some(CastK::Bitcast),
            _ => None,
        };
        if let Some(k) = ck {
            self.skip_flags(&["nuw", "nsw", "nneg"]);
            let (ft, v) = self.tyopd()?;
            if !self.p.eat_word("to") {
                return Err("cast to".into());
            }
            let tt = self.p.ty()?;
            return Ok((Inst::Cast(k, ft, v, tt), None));
        }
        match op {
            "icmp" => {
                self.skip_flags(&["samesign"]);
                let p = match self.p.word() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    o => return Err(format!("pred {}", o)),
                };
                let t = self.p.ty()?;
                let x = self.opd(&t)?;
                self.p.expect(b',')?;
                let y = self.opd(&t)?;
                Ok((Inst::ICmp(p, x, y), None))
            }
            "load" => {
                self.skip_flags(&["atomic", "volatile"]);
                let t = self.p.ty()?;
                self.p.expect(b',')?;
                let (_, p) = self.tyopd()?;
                Ok((Inst::Load(t, p), None))
            }
            "store" => {
                self.skip_flags(&["atomic", "volatile"]);
                let (t, v) = self.tyopd()?;
                self.p.expect(b',')?;
                let (_, p) = self.tyopd()?;
                Ok((Inst::Store(t, v, p), None))
            }
            "getelementptr" => {
                self.skip_flags(&["inbounds", "nuw", "nusw", "inrange"]);
                let bt = self.p.ty()?;
                self.p.expect(b',')?;
                let pt = self.p.ty()?;
                if pt != Ty::Ptr {
                    return Ok((Inst::Unsupported(Rc::from("vector gep")), None));
                }
                let base = self.opd(&Ty::Ptr)?;
                let mut off = 0u64;
                let mut terms = vec![];
                let mut cur = bt.clone();
                let mut first = true;
                while self.p.peek() == b',' {
                    let s = self.p.i;
                    self.p.i += 1;
                    if self.p.peek() == b'!' {
                        self.p.i = s;
                        break;
                    }
                    let it = self.p.ty()?;
                    let iw = match it {
                        Ty::Int(w) => w,
                        _ => return Ok((Inst::Unsupported(Rc::from("vector gep")), None)),
                    };
                    let o = self.opd(&it)?;
                    match o {
                        Opd::K(Val::B(Bv::C { w, v })) => {
                            let iv = crate::expr::sext128(v, w) as i64;
                            if first {
                                off = off.wrapping_add((iv as u64).wrapping_mul(bt.alloc_size()));
                            } else {
                                let (d, n) = step(&cur, iv)?;
                                off = off.wrapping_add(d);
                                cur = n;
                            }
                        }
                        o => {
                            if first {
                                terms.push((o, iw, bt.alloc_size()));
                            } else {
                                let (d, n) = step(&cur, 1)?;
                                terms.push((o, iw, d));
                                cur = n;
                            }
                        }
                    }
                    first = false;
                }
                Ok((Inst::Gep(base, off, terms), None))
            }
            "select" => {
                let (_, c) = self.tyopd()?;
                self.p.expect(b',')?;
                let (_, x) = self.tyopd()?;
                self.p.expect(b',')?;
                let (_, y) = self.tyopd()?;
                Ok((Inst::Select(c, x, y), None))
            }
            "tail" | "musttail" | "notail" => {
                if !self.p.eat_word("call") {
                    return Err("tail call".into());
                }
                Ok((self.call()?, None))
            }
            "call" => Ok((self.call()?, None)),
            "invoke" => {
                let c = self.call()?;
                // find " to label %x"
                let rest = &self.p.s[self.p.i..];
                let txt = String::from_utf8_lossy(rest).to_string();
                let k = txt.find("to label %").ok_or("invoke without label")?;
                self.p.i += k + 3;
                let l = self.label()?;
                Ok((c, Some(l)))
            }
            "extractvalue" => {
                let (_, a) = self.tyopd()?;
                let mut ix = vec![];
                while self.p.eat(b',') {
                    if self.p.peek() == b'!' {
                        break;
                    }
                    ix.push(self.p.number()? as u32);
                }
                Ok((Inst::Extract(a, ix), None))
            }
            "insertvalue" => {
                let (_, a) = self.tyopd()?;
                self.p.expect(b',')?;
                let (_, v) = self.tyopd()?;
                let mut ix = vec![];
                while self.p.eat(b',') {
                    if self.p.peek() == b'!' {
                        break;
                    }
                    ix.push(self.p.number()? as u32);
                }
                Ok((Inst::Insert(a, v, ix), None))
            }
            "extractelement" => {
                let (_, a) = self.tyopd()?;
                self.p.expect(b',')?;
                let (_, i) = self.tyopd()?;
                Ok((Inst::ExtractElem(a, i), None))
            }
            "insertelement" => {
                let (_, a) = self.tyopd()?;
                self.p.expect(b',')?;
                let (_, v) = self.tyopd()?;
                self.p.expect(b',')?;
                let (_, i) = self.tyopd()?;
                Ok((Inst::InsertElem(a, v, i), None))
            }
            "shufflevector" => {
                let (_, a) = self.tyopd()?;
                self.p.expect(b',')?;
                let (_, b) = self.tyopd()?;
                self.p.expect(b',')?;
                let (_, m) = self.tyopd()?;
                let m = match m {
                    Opd::K(Val::A(v)) => v
                        .iter()
                        .map(|x| match x {
                            Val::B(Bv::C { v, .. }) => *v as u32,
                            _ => 0,
                        })
                        .collect(),
                    _ => return Err("shuffle mask".into()),
                };
                Ok((Inst::Shuffle(a, b, m), None))
            }
            "alloca" => {
                self.skip_flags(&["inalloca"]);
                let t = self.p.ty()?;
                let mut n = Opd::K(Val::B(Bv::C { w: 64, v: 1 }));
                let s = self.p.i;
                if self.p.eat(b',') {
                    let w = self.p.peek_word();
                    if w.starts_with('i') && w != "inalloca" {
                        n = self.tyopd()?.1;
                    } else {
                        self.p.i = s;
                    }
                }
                Ok((Inst::Alloca(t.alloc_size(), n), None))
            }
            "freeze" => {
                let (_, v) = self.tyopd()?;
                Ok((Inst::Copy(v), None))
            }
            "fence" => Ok((Inst::Nop, None)),
            "atomicrmw" => {
                self.skip_flags(&["volatile"]);
                let k = self.p.word().to_string();
                let (_, p) = self.tyopd()?;
                self.p.expect(b',')?;
                let (t, v) = self.tyopd()?;
                Ok((Inst::AtomicRmw(Rc::from(k), t, p, v), None))
            }
            "cmpxchg" => {
                self.skip_flags(&["weak", "volatile"]);
                let (_, p) = self.tyopd()?;
                self.p.expect(b',')?;
                let (t, e) = self.tyopd()?;
                self.p.expect(b',')?;
                let (_, n) = self.tyopd()?;
                Ok((Inst::CmpXchg(t, p, e, n), None))
            }
            "br" => {
                if self.p.peek_word() == "label" {
                    let l = self.label()?;
                    return Ok((Inst::Br(l), None));
                }
                let (_, c) = self.tyopd()?;
                self.p.expect(b',')?;
                let t = self.label()?;
                self.p.expect(b',')?;
                let f = self.label()?;
                Ok((Inst::CondBr(c, t, f), None))
            }
            "switch" => {
                let (t, v) = self.tyopd()?;
                self.p.expect(b',')?;
                let d = self.label()?;
                self.p.expect(b'[')?;
                let mut cases = vec![];
                while self.p.peek() != b']' {
                    let ct = self.p.ty()?;
                    let (_, k) = self.p.kbv(&ct)?;
                    self.p.expect(b',')?;
                    let l = self.label()?;
                    cases.push((k, l));
                }
                let _ = t;
                Ok((Inst::Switch(v, d, cases), None))
            }
            "ret" => {
                let t = self.p.ty()?;
                if t == Ty::Void {
                    return Ok((Inst::Ret(None), None));
                }
                Ok((Inst::Ret(Some(self.opd(&t)?)), None))
            }
            "unreachable" => Ok((Inst::Unreachable, None)),
            o => Ok((Inst::Unsupported(Rc::from(o)), None)),
        }
    }
}

impl Module {
    pub fn load(path: &str) -> R<Module> {
        let text = std::fs::read(path).map_err(|e| format!("{}: {}", path, e))?;
        let mut m = Module {
            text,
            funcs: HashMap::new(),
            decls: HashMap::new(),
            globals: vec![],
            gmap: HashMap::new(),
            faddr: HashMap::new(),
            addrf: HashMap::new(),
            gaddrs: vec![],
            aliases: HashMap::new(),
            named: HashMap::new(),
            meta: HashMap::new(),
            cache: RefCell::new(HashMap::new()),
            nblocks: std::cell::Cell::new(0),
        };
        let text = std::mem::take(&mut m.text);
        let mut pos = 0;
        let n = text.len();
        let mut glines: Vec<(usize, usize)> = vec![];
        let mut fnames: Vec<Rc<str>> = vec![];
        let mut types: Vec<(String, usize, usize)> = vec![];
        while pos < n {
            let e = memchr(&text, pos, b'\n');
            let line = &text[pos..e];
            let mut next = e + 1;
            if line.is_empty() {
            } else if line.starts_with(b"define ") {
                let name = fn_name(line).ok_or("define without name")?;
                // body until a line "}"
                let st = pos;
                let mut q = e + 1;
                loop {
                    if q >= n {
                        break;
                    }
                    let qe = memchr(&text, q, b'\n');
                    if &text[q..qe] == b"}" {
                        next = qe + 1;
                        break;
                    }
                    q = qe + 1;
                }
                let name: Rc<str> = Rc::from(name.as_str());
                m.funcs.insert(name.clone(), (st, next));
                fnames.push(name);
            } else if line.starts_with(b"declare ") {
                let name = fn_name(line).ok_or("declare without name")?;
                let name: Rc<str> = Rc::from(name.as_str());
                m.decls.insert(name.clone(), ());
                fnames.push(name);
            } else if line[0] == b'@' {
                glines.push((pos, e));
            } else if line[0] == b'%' {
                let s = String::from_utf8_lossy(line).to_string();
                if let Some(k) = s.find(" = type ") {
                    let nm = s[1..k].trim_matches('"').to_string();
                    types.push((nm, pos + k + 8, e));
                }
            } else if line[0] == b'!' {
                let mut k = 1;
                let mut v = 0u32;
                while k < line.len() && line[k].is_ascii_digit() {
                    v = v * 10 + (line[k] - b'0') as u32;
                    k += 1;
                }
                if k > 1 {
                    m.meta.insert(v, (pos, e));
                }
            }
            pos = next;
        }
        for (nm, s, e) in types {
            let t = {
                let mut p = P { s: &text[s..e], i: 0, m: &m };
                p.ty().unwrap_or(Ty::Other)
            };
            m.named.insert(nm, t);
        }
        let mut addr = 0x10000u64;
        for f in fnames {
            m.faddr.insert(f.clone(), addr);
            m.addrf.insert(addr, f);
            addr += 16;
        }
        addr = (addr + 0xffff) & !0xfff;
        for (s, e) in glines {
            let line = &text[s..e];
            let mut p = P { s: line, i: 1, m: &m };
            let name = p.name();
            p.expect(b'=')?;
            let mut external = false;
            let mut alias = false;
            let constant;
            loop {
                let w = p.word();
                match w {
                    "constant" => {
                        constant = true;
                        break;
                    }
                    "global" => {
                        constant = false;
                        break;
                    }
                    "alias" | "ifunc" => {
                        alias = true;
                        constant = true;
                        break;
                    }
                    "external" | "extern_weak" => external = true,
                    "" => return Err(format!("global {}", p.rest())),
                    _ => {
                        if p.i < line.len() && line[p.i] == b'(' {
                            p.balanced();
                        }
                    }
                }
            }
            let ty = match p.ty() {
                Ok(t) => t,
                Err(e) => return Err(format!("global {}: {}", name, e)),
            };
            if alias {
                // alias T, ptr @target
                let s = String::from_utf8_lossy(&line[p.i..]).to_string();
                if let Some(k) = s.find('@') {
                    let tgt: String = s[k + 1..]
                        .trim_matches('"')
                        .chars()
                        .take_while(|c| is_ident(*c as u8))
                        .collect();
                    m.aliases.insert(Rc::from(name.as_str()), Rc::from(tgt.as_str()));
                }
                continue;
            }
            let init_at = if external { 0 } else { s + p.i };
            let size = ty.alloc_size();
            let al = 16u64;
            addr = (addr + al - 1) / al * al;
            let gi = m.globals.len() as u32;
            m.gmap.insert(Rc::from(name.as_str()), gi);
            m.gaddrs.push((addr, gi));
            m.globals.push(Global { name, line: (s, e), addr, size, constant, ty, init_at });
            addr += size + 16;
        }
        if addr >= 0x7fff_0000 {
            return Err("globals too large".into());
        }
        m.text = text;
        Ok(m)
    }

    pub fn global_init(&self, gi: u32) -> R<Val> {
        let g = &self.globals[gi as usize];
        if g.init_at == 0 {
            return Err(format!("external global @{}", g.name));
        }
        let mut p = P { s: &self.text[g.init_at..g.line.1], i: 0, m: self };
        p.konst(&g.ty)
    }

    pub fn func(&self, name: &str) -> R<Rc<Func>> {
        if let Some(f) = self.cache.borrow().get(name) {
            return Ok(f.clone());
        }
        let (&(s, e), key) = match self.funcs.get_key_value(name) {
            Some((k, v)) => (v, k.clone()),
            None => return Err(format!("no definition of {}", name)),
        };
        let f = Rc::new(self.decode(&key, s, e).map_err(|x| format!("in {}: {}", name, x))?);
        self.cache.borrow_mut().insert(key, f.clone());
        Ok(f)
    }

    fn decode(&self, name: &Rc<str>, s: usize, e: usize) -> R<Func> {
        let text = &self.text[s..e];
        let hdr_end = memchr(text, 0, b'\n');
        let mut fp = FnParser { p: P { s: &text[..hdr_end], i: 0, m: self }, regs: HashMap::new(), labels: HashMap::new() };
        // header: find "@name("
        let at = {
            let mut k = 0;
            while fp.p.s[k] != b'@' {
                k += 1;
            }
            k
        };
        fp.p.i = at + 1;
        fp.p.name();
        fp.p.expect(b'(')?;
        let mut params = vec![];
        let mut unnamed = 0;
        let mut varargs = false;
        if !fp.p.eat(b')') {
            loop {
                if fp.p.peek() == b'.' {
                    varargs = true;
                    fp.p.i += 3;
                    fp.p.expect(b')')?;
                    break;
                }
                let _t = fp.p.ty()?;
                fp.p.attrs();
                if fp.p.eat(b'%') {
                    let n = fp.p.name();
                    if n.bytes().all(|b| b.is_ascii_digit()) {
                        unnamed += 1;
                    }
                    let r = fp.reg(&n);
                    params.push(r);
                } else {
                    let n = unnamed.to_string();
                    unnamed += 1;
                    let r = fp.reg(&n);
                    params.push(r);
                }
                if fp.p.eat(b',') {
                    continue;
                }
                fp.p.expect(b')')?;
                break;
            }
        }
        // collect logical lines per block
        let mut blocks: Vec<(String, Vec<(usize, usize)>)> = vec![];
        let mut pos = hdr_end + 1;
        let mut first = true;
        while pos < text.len() {
            let le = memchr(text, pos, b'\n');
            let line = &text[pos..le];
            let st = pos;
            pos = le + 1;
            if line == b"}" {
                break;
            }
            if line.is_empty() || line[0] == b';' {
                continue;
            }
            if line[0] != b' ' {
                // label
                let mut p = P { s: line, i: 0, m: self };
                let n = p.name();
                blocks.push((n, vec![]));
                first = false;
                continue;
            }
            if first {
                blocks.push((unnamed.to_string(), vec![]));
                first = false;
            }
            let trimmed_at = line.iter().position(|&c| c != b' ').unwrap_or(0);
            if line[trimmed_at] == b'#' || line[trimmed_at] == b';' {
                continue;
            }
            let b = blocks.last_mut().unwrap();
            if trimmed_at > 2 || line[trimmed_at] == b']' {
                // continuation
                b.1.last_mut().unwrap().1 = le;
            } else {
                b.1.push((st, le));
            }
        }
        for (i, b) in blocks.iter().enumerate() {
            fp.labels.insert(b.0.clone(), i as u32);
        }
        let mut out = vec![];
        for (_, lines) in &blocks {
            let mut phis = vec![];
            let mut ins = vec![];
            for &(a, b) in lines {
                let line = &text[a..b];
                fp.p = P { s: line, i: 0, m: self };
                let mut dst = None;
                if fp.p.peek() == b'%' {
                    fp.p.i += 1;
                    let n = fp.p.name();
                    fp.p.expect(b'=')?;
                    dst = Some(fp.reg(&n));
                }
                let dbg = find_dbg(line);
                if fp.p.peek_word() == "phi" {
                    fp.p.word();
                    fp.skip_flags(&["nnan", "ninf", "nsz", "fast"]);
                    let t = fp.p.ty()?;
                    let mut inc = vec![];
                    loop {
                        if !fp.p.eat(b'[') {
                            break;
                        }
                        let o = fp.opd(&t)?;
                        fp.p.expect(b',')?;
                        fp.p.expect(b'%')?;
                        let n = fp.p.name();
                        let l = *fp.labels.get(&n).ok_or(format!("phi label {}", n))?;
                        inc.push((l, o));
                        fp.p.expect(b']')?;
                        if !fp.p.eat(b',') {
                            break;
                        }
                    }
                    phis.push((dst.unwrap(), inc));
                    continue;
                }
                match fp.inst() {
                    Ok((i, normal)) => {
                        if let Inst::Nop = i {
                            if normal.is_none() {
                                continue;
                            }
                        }
                        ins.push(Ins { dst, i, dbg, normal })
                    }
                    Err(err) => ins.push(Ins {
                        dst,
                        i: Inst::Unsupported(Rc::from(format!("{} in `{}`", err, String::from_utf8_lossy(&line[..line.len().min(200)])))),
                        dbg,
                        normal: None,
                    }),
                }
            }
            let gid = self.nblocks.get();
            self.nblocks.set(gid + 1);
            out.push(Block { phis, ins, gid });
        }
        Ok(Func { name: name.clone(), params, nregs: fp.regs.len() as u32, blocks: out, varargs })
    }

    // ---- debug info -------------------------------------------------
    fn meta_line(&self, id: u32) -> Option<&str> {
        let &(s, e) = self.meta.get(&id)?;
        std::str::from_utf8(&self.text[s..e]).ok()
    }
    fn field<'b>(line: &'b str, k: &str) -> Option<&'b str> {
        let pat = format!("{}: ", k);
        let mut from = 0;
        loop {
            let at = line[from..].find(&pat)? + from;
            let before = line.as_bytes()[at - 1];
            if before == b'(' || before == b' ' {
                let v = &line[at + pat.len()..];
                if let Some(r) = v.strip_prefix('"') {
                    return Some(&r[..r.find('"')?]);
                }
                let e = v.find(|c| c == ',' || c == ')')?;
                return Some(&v[..e]);
            }
            from = at + 1;
        }
    }
    fn mref(v: Option<&str>) -> Option<u32> {
        v?.strip_prefix('!')?.parse().ok()
    }
    /// (file, function name, line) of a DILocation
    pub fn locate(&self, dbg: u32) -> Option<(String, String, u32)> {
        let l = self.meta_line(dbg)?;
        let line: u32 = Self::field(l, "line").and_then(|x| x.parse().ok()).unwrap_or(0);
        let mut sc = Self::mref(Self::field(l, "scope"))?;
        for _ in 0..64 {
            let s = self.meta_line(sc)?;
            if s.contains("DISubprogram(") {
                let name = Self::field(s, "linkageName").or(Self::field(s, "name")).unwrap_or("?").to_string();
                let f = Self::mref(Self::field(s, "file"))?;
                let fl = self.meta_line(f)?;
                let fname = Self::field(fl, "filename").unwrap_or("?");
                let dir = Self::field(fl, "directory").unwrap_or("");
                let full = if fname.starts_with('/') { fname.to_string() } else { format!("{}/{}", dir, fname) };
                return Some((full, name, line));
            }
            sc = Self::mref(Self::field(s, "scope"))?;
        }
        None
    }
}

fn find_dbg(line: &[u8]) -> u32 {
    // ", !dbg !123"
    let pat = b"!dbg !";
    if line.len() < pat.len() {
        return 0;
    }
    let mut i = line.len() - pat.len();
    loop {
        if &line[i..i + pat.len()] == pat {
            let mut v = 0u32;
            let mut k = i + pat.len();
            while k < line.len() && line[k].is_ascii_digit() {
                v = v * 10 + (line[k] - b'0') as u32;
                k += 1;
            }
            return v;
        }
        if i == 0 {
            return 0;
        }
        i -= 1;
    }
}

fn memchr(t: &[u8], from: usize, c: u8) -> usize {
    let mut i = from;
    while i < t.len() && t[i] != c {
        i += 1;
    }
    i
}

fn fn_name(line: &[u8]) -> Option<String> {
    let mut k = 0;
    while k < line.len() && line[k] != b'@' {
        k += 1;
    }
    if k >= line.len() {
        return None;
    }
    k += 1;
    if line[k] == b'"' {
        let mut j = k + 1;
        while line[j] != b'"' {
            j += 1;
        }
        return Some(String::from_utf8_lossy(&line[k + 1..j]).to_string());
    }
    let mut j = k;
    while j < line.len() && is_ident(line[j]) {
        j += 1;
    }
    Some(String::from_utf8_lossy(&line[k..j]).to_string())
}
