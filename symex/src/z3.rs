//! Minimal FFI to the z3 C API plus translation of expression nodes.
use crate::expr::{mask, Ctx, Id, Op};
use crate::lin::Exact;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};

type P = *mut c_void;

#[allow(non_snake_case)]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_int_sort(c: P) -> P;
    fn Z3_mk_add(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_mul(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_le(c: P, a: P, b: P) -> P;
    fn Z3_mk_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, e: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, complete: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_get_full_version() -> *const c_char;
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sat {
    Sat,
    Unsat,
    Unknown,
}

pub struct Z3 {
    c: P,
    s: P,
    bv: HashMap<Id, P>,
    bl: HashMap<Id, P>,
    sorts: HashMap<u16, P>,
    pub n: u64,
    pub time: f64,
    pub unknown: u64,
    pub n_int: u64,
    si: P,
    checks: u32,
    timeout_ms: u32,
}

extern "C" fn on_err(_: P, e: c_int) {
    panic!("z3 API error {}", e);
}

pub fn version() -> String {
    unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().to_string() }
}

impl Z3 {
    pub fn new(timeout_ms: u32) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let mut z = Z3 {
                c,
                s: std::ptr::null_mut(),
                bv: HashMap::new(),
                bl: HashMap::new(),
                sorts: HashMap::new(),
                n: 0,
                time: 0.0,
                unknown: 0,
                n_int: 0,
                si: std::ptr::null_mut(),
                checks: 0,
                timeout_ms,
            };
            z.fresh();
            z
        }
    }

    fn fresh(&mut self) {
        unsafe {
            if !self.s.is_null() {
                Z3_solver_dec_ref(self.c, self.s);
            }
            let l = CString::new("QF_BV").unwrap();
            let sy = Z3_mk_string_symbol(self.c, l.as_ptr());
            self.s = Z3_mk_solver_for_logic(self.c, sy);
            Z3_solver_inc_ref(self.c, self.s);
            let p = Z3_mk_params(self.c);
            Z3_params_inc_ref(self.c, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, k.as_ptr()), self.timeout_ms);
            Z3_solver_set_params(self.c, self.s, p);
            self.checks = 0;
        }
    }

    fn sort(&mut self, w: u16) -> P {
        let c = self.c;
        *self.sorts.entry(w).or_insert_with(|| unsafe { Z3_mk_bv_sort(c, w as c_uint) })
    }

    fn num(&mut self, w: u16, v: u128) -> P {
        let s = self.sort(w);
        unsafe {
            if v <= u64::MAX as u128 {
                Z3_mk_unsigned_int64(self.c, v as u64, s)
            } else {
                let t = CString::new(v.to_string()).unwrap();
                Z3_mk_numeral(self.c, t.as_ptr(), s)
            }
        }
    }

    fn is_bool_op(op: Op) -> bool {
        matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle)
    }

    /// make sure every node below `root` has a bit-vector AST (and 1-bit ones a Boolean AST)
    fn build(&mut self, ctx: &Ctx, root: Id) {
        let mut st = vec![root];
        while let Some(&t) = st.last() {
            if self.bv.contains_key(&t) {
                st.pop();
                continue;
            }
            let n = ctx.nodes[t as usize];
            let mut miss = vec![];
            match n.op {
                Op::Sym | Op::Const => {}
                Op::Extract | Op::ZExt | Op::SExt => miss.push(n.a),
                Op::Ite => {
                    miss.push(n.a);
                    miss.push(n.b);
                    miss.push(n.c);
                }
                _ => {
                    miss.push(n.a);
                    miss.push(n.b);
                }
            }
            miss.retain(|k| !self.bv.contains_key(k));
            if !miss.is_empty() {
                st.extend(miss);
                continue;
            }
            st.pop();
            unsafe {
                let c = self.c;
                let one = self.num(1, 1);
                let zero = self.num(1, 0);
                if n.w == 1 {
                    // boolean form, then bv form
                    let b: P = match n.op {
                        Op::Const => {
                            if n.k != 0 {
                                Z3_mk_true(c)
                            } else {
                                Z3_mk_false(c)
                            }
                        }
                        Op::And => Z3_mk_and(c, 2, [self.bl[&n.a], self.bl[&n.b]].as_ptr()),
                        Op::Or => Z3_mk_or(c, 2, [self.bl[&n.a], self.bl[&n.b]].as_ptr()),
                        Op::Xor | Op::Add | Op::Sub => {
                            let e = Z3_mk_eq(c, self.bl[&n.a], self.bl[&n.b]);
                            Z3_mk_not(c, e)
                        }
                        Op::Eq => {
                            let aw = ctx.nodes[n.a as usize].w;
                            if aw == 1 {
                                Z3_mk_eq(c, self.bl[&n.a], self.bl[&n.b])
                            } else {
                                Z3_mk_eq(c, self.bv[&n.a], self.bv[&n.b])
                            }
                        }
                        Op::Ult => Z3_mk_bvult(c, self.bv[&n.a], self.bv[&n.b]),
                        Op::Ule => Z3_mk_bvule(c, self.bv[&n.a], self.bv[&n.b]),
                        Op::Slt => Z3_mk_bvslt(c, self.bv[&n.a], self.bv[&n.b]),
                        Op::Sle => Z3_mk_bvsle(c, self.bv[&n.a], self.bv[&n.b]),
                        Op::Ite => Z3_mk_ite(c, self.bl[&n.a], self.bl[&n.b], self.bl[&n.c]),
                        _ => {
                            let v = self.mk(ctx, t);
                            Z3_mk_eq(c, v, one)
                        }
                    };
                    self.bl.insert(t, b);
                    let v = if Self::is_bool_op(n.op) || matches!(n.op, Op::And | Op::Or | Op::Xor | Op::Ite | Op::Const | Op::Add | Op::Sub)
                    {
                        Z3_mk_ite(c, b, one, zero)
                    } else {
                        self.mk(ctx, t)
                    };
                    self.bv.insert(t, v);
                } else {
                    let v = self.mk(ctx, t);
                    self.bv.insert(t, v);
                }
            }
        }
    }

    unsafe fn mk(&mut self, ctx: &Ctx, t: Id) -> P {
        let n = ctx.nodes[t as usize];
        let c = self.c;
        let g = |m: &HashMap<Id, P>, i: Id| m[&i];
        match n.op {
            Op::Const => self.num(n.w, n.k),
            Op::Sym => {
                let nm = CString::new(format!("s{}", n.k)).unwrap();
                let sy = Z3_mk_string_symbol(c, nm.as_ptr());
                let so = self.sort(n.w);
                Z3_mk_const(c, sy, so)
            }
            Op::Add => Z3_mk_bvadd(c, g(&self.bv, n.a), g(&self.bv, n.b)),
            Op::Sub => Z3_mk_bvsub(c, g(&self.bv, n.a), g(&self.bv, n.b)),
            Op::Mul => Z3_mk_bvmul(c, g(&self.bv, n.a), g(&self.bv, n.b)),
            Op::UDiv => Z3_mk_bvudiv(c, g(&self.bv, n.a), g(&self.bv, n.b)),
            Op::SDiv => Z3_mk_bvsdiv(c, g(&self.bv, n.a), g(&self.bv, n.b)),
            Op::URem => Z3_mk_bvurem(c, g(&self.bv, n.a), g(&self.bv, n.b)),
            Op::SRem => Z3_mk_bvsrem(c, g(&self.bv, n.a), g(&self.bv, n.b)),
            Op::And => Z3_mk_bvand(c, g(&self.bv, n.a), g(&self.bv, n.b)),
            Op::Or => Z3_mk_bvor(c, g(&self.bv, n.a), g(&self.bv, n.b)),
            Op::Xor => Z3_mk_bvxor(c, g(&self.bv, n.a), g(&self.bv, n.b)),
            Op::Shl => Z3_mk_bvshl(c, g(&self.bv, n.a), g(&self.bv, n.b)),
            Op::LShr => Z3_mk_bvlshr(c, g(&self.bv, n.a), g(&self.bv, n.b)),
            Op::AShr => Z3_mk_bvashr(c, g(&self.bv, n.a), g(&self.bv, n.b)),
            Op::Concat => Z3_mk_concat(c, g(&self.bv, n.a), g(&self.bv, n.b)),
            Op::Extract => {
                let lo = n.k as c_uint;
                Z3_mk_extract(c, lo + n.w as c_uint - 1, lo, g(&self.bv, n.a))
            }
            Op::ZExt => {
                let aw = ctx.nodes[n.a as usize].w;
                Z3_mk_zero_ext(c, (n.w - aw) as c_uint, g(&self.bv, n.a))
            }
            Op::SExt => {
                let aw = ctx.nodes[n.a as usize].w;
                Z3_mk_sign_ext(c, (n.w - aw) as c_uint, g(&self.bv, n.a))
            }
            Op::Ite => Z3_mk_ite(c, self.bl[&n.a], g(&self.bv, n.b), g(&self.bv, n.c)),
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => unreachable!(),
        }
    }

    /// Check the conjunction of width-1 nodes; on Sat also return values of `syms`.
    pub fn check(&mut self, ctx: &Ctx, cs: &[Id], syms: &[u32], dump: Option<&mut String>) -> (Sat, HashMap<u32, u128>) {
        let t0 = std::time::Instant::now();
        for &k in cs {
            self.build(ctx, k);
        }
        self.n += 1;
        self.checks += 1;
        if self.checks > 2000 {
            self.fresh();
        }
        let mut vals = HashMap::new();
        unsafe {
            Z3_solver_push(self.c, self.s);
            for k in cs {
                Z3_solver_assert(self.c, self.s, self.bl[k]);
            }
            if let Some(d) = dump {
                *d = CStr::from_ptr(Z3_solver_to_string(self.c, self.s)).to_string_lossy().to_string();
            }
            let r = Z3_solver_check(self.c, self.s);
            let r = match r {
                1 => Sat::Sat,
                -1 => Sat::Unsat,
                _ => Sat::Unknown,
            };
            if r == Sat::Sat {
                let m = Z3_solver_get_model(self.c, self.s);
                Z3_model_inc_ref(self.c, m);
                for &s in syms {
                    let w = ctx.syms[s as usize].w;
                    let nm = CString::new(format!("s{}", s)).unwrap();
                    let sy = Z3_mk_string_symbol(self.c, nm.as_ptr());
                    let so = self.sort(w);
                    let k = Z3_mk_const(self.c, sy, so);
                    let mut o: P = std::ptr::null_mut();
                    if Z3_model_eval(self.c, m, k, true, &mut o) {
                        let t = CStr::from_ptr(Z3_get_numeral_string(self.c, o)).to_str().unwrap_or("0");
                        vals.insert(s, t.parse::<u128>().unwrap_or(0));
                    }
                }
                Z3_model_dec_ref(self.c, m);
            }
            if r == Sat::Unknown {
                self.unknown += 1;
            }
            if t0.elapsed().as_millis() > 2000 {
                if let Ok(p) = std::env::var("SYMEX_SLOW") {
                    let d = CStr::from_ptr(Z3_solver_to_string(self.c, self.s)).to_string_lossy().to_string();
                    let _ = std::fs::write(format!("{}/slow{}-{:?}-{}ms.smt2", p, self.n, r, t0.elapsed().as_millis()), d);
                }
            }
            Z3_solver_pop(self.c, self.s, 1);
            self.time += t0.elapsed().as_secs_f64();
            (r, vals)
        }
    }

    // ------------------------------------------------------------ integers
    /// The same conjunction over the integers, when every constraint has an exact linear
    /// reading; decided by z3's arithmetic solver instead of bit-blasting.
    pub fn check_int(&mut self, ctx: &Ctx, cs: &[Id], syms: &[u32]) -> Option<(Sat, HashMap<u32, u128>)> {
        let t0 = std::time::Instant::now();
        let mut tr = Ints { z: self, ctx, vars: HashMap::new(), side: vec![], loose: false };
        let mut fs = vec![];
        for &k in cs {
            fs.push(tr.cond(k, 0)?);
        }
        let (side, vars, loose) = (tr.side, tr.vars, tr.loose);
        fs.extend(side);
        self.n += 1;
        self.n_int += 1;
        unsafe {
            if self.si.is_null() {
                let l = CString::new("QF_LIA").unwrap();
                let sy = Z3_mk_string_symbol(self.c, l.as_ptr());
                self.si = Z3_mk_solver_for_logic(self.c, sy);
                Z3_solver_inc_ref(self.c, self.si);
                let p = Z3_mk_params(self.c);
                Z3_params_inc_ref(self.c, p);
                let k = CString::new("timeout").unwrap();
                Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, k.as_ptr()), self.timeout_ms / 2);
                Z3_solver_set_params(self.c, self.si, p);
            }
            Z3_solver_push(self.c, self.si);
            for f in &fs {
                Z3_solver_assert(self.c, self.si, *f);
            }
            let r = Z3_solver_check(self.c, self.si);
            let mut vals = HashMap::new();
            if r == 1 {
                let m = Z3_solver_get_model(self.c, self.si);
                Z3_model_inc_ref(self.c, m);
                for &s in syms {
                    // every symbol of the query has a variable unless it does not matter
                    let v = match vars.get(&(true, s)) {
                        Some(&k) => {
                            let mut o: P = std::ptr::null_mut();
                            if !Z3_model_eval(self.c, m, k, true, &mut o) {
                                continue;
                            }
                            CStr::from_ptr(Z3_get_numeral_string(self.c, o)).to_str().unwrap_or("0").parse::<u128>().unwrap_or(0)
                        }
                        None => continue,
                    };
                    vals.insert(s, v);
                }
                Z3_model_dec_ref(self.c, m);
            }
            if t0.elapsed().as_millis() > 2000 {
                if let Ok(p) = std::env::var("SYMEX_SLOW") {
                    let d = CStr::from_ptr(Z3_solver_to_string(self.c, self.si)).to_string_lossy().to_string();
                    let _ = std::fs::write(format!("{}/int{}-{}-{}ms.smt2", p, self.n, r, t0.elapsed().as_millis()), d);
                }
            }
            Z3_solver_pop(self.c, self.si, 1);
            self.time += t0.elapsed().as_secs_f64();
            match r {
                -1 => Some((Sat::Unsat, vals)),
                1 if !loose => Some((Sat::Sat, vals)),
                _ => None,
            }
        }
    }
}

struct Ints<'a> {
    z: &'a mut Z3,
    ctx: &'a Ctx,
    /// (true, symbol) or (false, node) -> integer variable
    vars: HashMap<(bool, u32), P>,
    side: Vec<P>,
    /// some variable stands for more values than the node has
    loose: bool,
}
impl Ints<'_> {
    fn lit(&self, v: i128) -> P {
        unsafe {
            let t = CString::new(v.to_string()).unwrap();
            Z3_mk_numeral(self.z.c, t.as_ptr(), Z3_mk_int_sort(self.z.c))
        }
    }
    fn var(&self, name: &str) -> P {
        unsafe {
            let t = CString::new(name).unwrap();
            Z3_mk_const(self.z.c, Z3_mk_string_symbol(self.z.c, t.as_ptr()), Z3_mk_int_sort(self.z.c))
        }
    }
    fn within(&mut self, v: P, lo: i128, hi: i128) -> P {
        unsafe {
            let (l, h) = (self.lit(lo), self.lit(hi));
            Z3_mk_and(self.z.c, 2, [Z3_mk_le(self.z.c, l, v), Z3_mk_le(self.z.c, v, h)].as_ptr())
        }
    }
    fn sym(&mut self, s: u32) -> P {
        if let Some(&v) = self.vars.get(&(true, s)) {
            return v;
        }
        let v = self.var(&format!("i{}", s));
        let y = &self.ctx.syms[s as usize];
        let (lo, hi) = (y.lo as i128, y.hi as i128);
        let f = self.within(v, lo, hi);
        self.side.push(f);
        self.vars.insert((true, s), v);
        v
    }
    fn unary(&self, i: Id) -> Option<u32> {
        self.ctx.unary(i)
    }
    /// runs of the byte values for which f holds
    fn runs(f: &dyn Fn(usize) -> bool, n: usize) -> Vec<(i128, i128)> {
        let mut r = vec![];
        let mut x = 0;
        while x < n {
            if f(x) {
                let mut y = x;
                while y + 1 < n && f(y + 1) {
                    y += 1;
                }
                r.push((x as i128, y as i128));
                x = y;
            }
            x += 1;
        }
        r
    }
    fn any(&self, fs: &[P]) -> P {
        unsafe {
            if fs.is_empty() {
                Z3_mk_false(self.z.c)
            } else {
                Z3_mk_or(self.z.c, fs.len() as c_uint, fs.as_ptr())
            }
        }
    }
    fn atom(&mut self, i: Id, d: u32) -> Option<P> {
        let n = self.ctx.nodes[i as usize];
        if n.op == Op::Sym {
            return Some(self.sym(n.k as u32));
        }
        if let Some(&v) = self.vars.get(&(false, i)) {
            return Some(v);
        }
        if let Some(s) = self.unary(i) {
            if let Some(t) = self.ctx.table(i) {
                let sv = self.sym(s);
                let v = self.var(&format!("a{}", i));
                let lim = self.ctx.syms[s as usize].hi as usize + 1;
                // pieces on which the table is the argument plus a constant
                let mut x = self.ctx.syms[s as usize].lo as usize;
                let mut alts = vec![];
                while x < lim {
                    let off = t[x] as i128 - x as i128;
                    let mut y = x;
                    while y + 1 < lim && t[y + 1] as i128 - (y + 1) as i128 == off {
                        y += 1;
                    }
                    let dom = self.within(sv, x as i128, y as i128);
                    unsafe {
                        let o = self.lit(off);
                        let sum = Z3_mk_add(self.z.c, 2, [sv, o].as_ptr());
                        let e = Z3_mk_eq(self.z.c, v, sum);
                        alts.push(Z3_mk_and(self.z.c, 2, [dom, e].as_ptr()));
                    }
                    if alts.len() > 40 {
                        return None;
                    }
                    x = y + 1;
                }
                let f = self.any(&alts);
                self.side.push(f);
                self.vars.insert((false, i), v);
                return Some(v);
            }
        }
        if n.op != Op::Ite {
            if let Some((e, lo, hi)) = self.ctx.congruent(i) {
                // sum = v + 2^w * q
                let x = self.sum(&e, d + 1)?;
                let v = self.var(&format!("a{}", i));
                let q = self.var(&format!("q{}", i));
                let p = 1i128 << n.w;
                let f = self.within(v, 0, p - 1);
                self.side.push(f);
                let f = self.within(q, lo.div_euclid(p), hi.div_euclid(p));
                self.side.push(f);
                unsafe {
                    let pq = self.lit(p);
                    let t = Z3_mk_mul(self.z.c, 2, [pq, q].as_ptr());
                    let s = Z3_mk_add(self.z.c, 2, [v, t].as_ptr());
                    self.side.push(Z3_mk_eq(self.z.c, x, s));
                }
                self.vars.insert((false, i), v);
                return Some(v);
            }
        }
        match n.op {
            Op::Ite => {
                let c = self.cond(n.a, d + 1)?;
                let x = self.int(n.b, d + 1)?;
                let y = self.int(n.c, d + 1)?;
                let v = unsafe { Z3_mk_ite(self.z.c, c, x, y) };
                self.vars.insert((false, i), v);
                Some(v)
            }
            Op::SExt => {
                let aw = self.ctx.nodes[n.a as usize].w;
                if n.w > 64 {
                    return None;
                }
                let x = self.int(n.a, d + 1)?;
                let (h, o) = (self.lit(1i128 << (aw - 1)), self.lit((1i128 << n.w) - (1i128 << aw)));
                let v = unsafe {
                    let y = Z3_mk_add(self.z.c, 2, [x, o].as_ptr());
                    Z3_mk_ite(self.z.c, Z3_mk_lt(self.z.c, x, h), x, y)
                };
                self.vars.insert((false, i), v);
                Some(v)
            }
            Op::Extract => {
                // a = (q * 2^w + v) * 2^k + r
                let x = self.int(n.a, d + 1)?;
                let v = self.var(&format!("a{}", i));
                let (k, w) = (n.k as u32, n.w as u32);
                if k + w > 100 {
                    return None;
                }
                let mut terms = vec![];
                unsafe {
                    let pk = self.lit(1i128 << k);
                    terms.push(Z3_mk_mul(self.z.c, 2, [pk, v].as_ptr()));
                    if k > 0 {
                        let r = self.var(&format!("r{}", i));
                        let f = self.within(r, 0, (1i128 << k) - 1);
                        self.side.push(f);
                        terms.push(r);
                    }
                    let aw = self.ctx.nodes[n.a as usize].w as u32;
                    if k + w < aw && self.ctx.range(self.ctx.of(n.a)).1 >> (k + w) != 0 {
                        let q = self.var(&format!("q{}", i));
                        let z = self.lit(0);
                        self.side.push(Z3_mk_le(self.z.c, z, q));
                        let pq = self.lit(1i128 << (k + w));
                        terms.push(Z3_mk_mul(self.z.c, 2, [pq, q].as_ptr()));
                    }
                    let s = Z3_mk_add(self.z.c, terms.len() as c_uint, terms.as_ptr());
                    self.side.push(Z3_mk_eq(self.z.c, x, s));
                }
                let f = self.within(v, 0, mask(n.w) as i128);
                self.side.push(f);
                self.vars.insert((false, i), v);
                Some(v)
            }
            _ => None,
        }
    }
    fn sum(&mut self, e: &Exact, d: u32) -> Option<P> {
        let mut ts = vec![self.lit(e.k)];
        for &(a, c) in &e.t {
            let v = self.atom(a, d)?;
            unsafe {
                let cc = self.lit(c);
                ts.push(Z3_mk_mul(self.z.c, 2, [cc, v].as_ptr()));
            }
        }
        Some(unsafe { Z3_mk_add(self.z.c, ts.len() as c_uint, ts.as_ptr()) })
    }
    fn int(&mut self, i: Id, d: u32) -> Option<P> {
        if d > 60 {
            return None;
        }
        let n = self.ctx.nodes[i as usize];
        if n.op == Op::Const {
            return (n.k >> 100 == 0).then(|| self.lit(n.k as i128));
        }
        match self.ctx.exact(i, 0) {
            Some(e) if !(e.t.len() == 1 && e.t[0].0 == i) => self.sum(&e, d),
            _ => self.atom(i, d),
        }
    }
    fn cond(&mut self, i: Id, d: u32) -> Option<P> {
        if d > 60 {
            return None;
        }
        let c = self.z.c;
        let n = self.ctx.nodes[i as usize];
        if n.op == Op::Const {
            return Some(unsafe { if n.k != 0 { Z3_mk_true(c) } else { Z3_mk_false(c) } });
        }
        if let Some(s) = self.unary(i) {
            let t = self.ctx.table(i)?;
            let lim = 1usize << self.ctx.syms[s as usize].w;
            let v = self.sym(s);
            let rs = Self::runs(&|x| t[x] != 0, lim);
            let fs: Vec<P> = rs.iter().map(|&(a, b)| self.within(v, a, b)).collect();
            return Some(self.any(&fs));
        }
        match n.op {
            Op::And | Op::Or | Op::Xor => {
                let x = self.cond(n.a, d + 1)?;
                if n.op == Op::Xor && self.ctx.nodes[n.b as usize].op == Op::Const {
                    return Some(unsafe { if self.ctx.nodes[n.b as usize].k != 0 { Z3_mk_not(c, x) } else { x } });
                }
                let y = self.cond(n.b, d + 1)?;
                Some(unsafe {
                    match n.op {
                        Op::And => Z3_mk_and(c, 2, [x, y].as_ptr()),
                        Op::Or => Z3_mk_or(c, 2, [x, y].as_ptr()),
                        _ => Z3_mk_not(c, Z3_mk_eq(c, x, y)),
                    }
                })
            }
            Op::Ite => {
                let q = self.cond(n.a, d + 1)?;
                let x = self.cond(n.b, d + 1)?;
                let y = self.cond(n.c, d + 1)?;
                Some(unsafe { Z3_mk_ite(c, q, x, y) })
            }
            Op::Eq | Op::Ult | Op::Ule => {
                let aw = self.ctx.nodes[n.a as usize].w;
                if aw == 1 {
                    if n.op != Op::Eq {
                        return None;
                    }
                    let x = self.cond(n.a, d + 1)?;
                    let y = self.cond(n.b, d + 1)?;
                    return Some(unsafe { Z3_mk_eq(c, x, y) });
                }
                // carry out of a sum: the sum is below one of its terms
                for (s, t, strict) in [(n.a, n.b, true), (n.b, n.a, false)] {
                    let sn = self.ctx.nodes[s as usize];
                    let wraps = sn.op == Op::Add && (sn.a == t || sn.b == t) && self.ctx.exact(s, 0).is_none();
                    if wraps && aw < 100 {
                        // Ult(sum, term): carry; Ule(term, sum): no carry
                        if (strict && n.op == Op::Ult) || (!strict && n.op == Op::Ule) {
                            let x = self.int(sn.a, d + 1)?;
                            let y = self.int(sn.b, d + 1)?;
                            unsafe {
                                let t = Z3_mk_add(c, 2, [x, y].as_ptr());
                                let p = self.lit(1i128 << aw);
                                return Some(if strict { Z3_mk_le(c, p, t) } else { Z3_mk_lt(c, t, p) });
                            }
                        }
                    }
                }
                let x = self.int(n.a, d + 1)?;
                let y = self.int(n.b, d + 1)?;
                Some(unsafe {
                    match n.op {
                        Op::Eq => Z3_mk_eq(c, x, y),
                        Op::Ult => Z3_mk_lt(c, x, y),
                        _ => Z3_mk_le(c, x, y),
                    }
                })
            }
            Op::Extract => {
                // one bit
                let v = self.atom(i, d + 1)?;
                let o = self.lit(1);
                Some(unsafe { Z3_mk_eq(c, v, o) })
            }
            _ => None,
        }
    }
}
