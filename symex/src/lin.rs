//! Linear forms of nodes: sums of opaque terms times constants, modulo 2^w, and
//! their exact (unbounded integer) reading where intervals show nothing wraps.
use crate::expr::{mask, Ctx, Id, Op};
use std::rc::Rc;

/// value = sum of coef * (unsigned value of the term) + k, modulo 2^w
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Lin {
    pub t: Vec<(Id, u128)>,
    pub k: u128,
}

const MAX_TERMS: usize = 40;

impl Lin {
    fn atom(i: Id) -> Lin {
        Lin { t: vec![(i, 1)], k: 0 }
    }
    fn scale(&self, f: u128, m: u128) -> Lin {
        let mut t: Vec<(Id, u128)> = self.t.iter().map(|&(i, c)| (i, c.wrapping_mul(f) & m)).collect();
        t.retain(|x| x.1 != 0);
        Lin { t, k: self.k.wrapping_mul(f) & m }
    }
    fn add(&self, o: &Lin, m: u128) -> Lin {
        let mut t = Vec::with_capacity(self.t.len() + o.t.len());
        let (mut i, mut j) = (0, 0);
        while i < self.t.len() || j < o.t.len() {
            if j >= o.t.len() || (i < self.t.len() && self.t[i].0 < o.t[j].0) {
                t.push((self.t[i].0, self.t[i].1 & m));
                i += 1;
            } else if i >= self.t.len() || o.t[j].0 < self.t[i].0 {
                t.push((o.t[j].0, o.t[j].1 & m));
                j += 1;
            } else {
                let c = self.t[i].1.wrapping_add(o.t[j].1) & m;
                if c != 0 {
                    t.push((self.t[i].0, c));
                }
                i += 1;
                j += 1;
            }
        }
        t.retain(|x| x.1 != 0);
        Lin { t, k: self.k.wrapping_add(o.k) & m }
    }
}

/// integer sum of coef * term + k
#[derive(Clone, Debug)]
pub struct Exact {
    pub t: Vec<(Id, i128)>,
    pub k: i128,
}

fn signed(v: u128, w: u16) -> i128 {
    if w >= 128 {
        v as i128
    } else if v >> (w - 1) != 0 {
        v as i128 - (1i128 << w)
    } else {
        v as i128
    }
}

impl Ctx {
    pub fn lin(&self, i: Id, depth: u32) -> Rc<Lin> {
        if let Some(l) = self.lins.borrow().get(&i) {
            return l.clone();
        }
        let n = self.nodes[i as usize];
        let m = mask(n.w);
        let d = depth + 1;
        if n.w <= 64 && n.op != Op::Const {
            if let Some(l) = self.unary_lin(i) {
                let l = Rc::new(l);
                self.lins.borrow_mut().insert(i, l.clone());
                return l;
            }
        }
        let r: Option<Lin> = if depth > 300 {
            return Rc::new(Lin::atom(i));
        } else {
            match n.op {
                Op::Const => Some(Lin { t: vec![], k: n.k }),
                Op::Add => Some(self.lin(n.a, d).add(&self.lin(n.b, d), m)),
                Op::Sub => Some(self.lin(n.a, d).add(&self.lin(n.b, d).scale(m, m), m)),
                Op::Mul if self.nodes[n.b as usize].op == Op::Const => Some(self.lin(n.a, d).scale(self.nodes[n.b as usize].k, m)),
                Op::Shl if self.nodes[n.b as usize].op == Op::Const && self.nodes[n.b as usize].k < n.w as u128 => {
                    Some(self.lin(n.a, d).scale(1u128 << self.nodes[n.b as usize].k, m))
                }
                Op::ZExt => Some(self.widened(n.a, m, d)),
                Op::SExt => {
                    let aw = self.nodes[n.a as usize].w;
                    if self.interval_of(n.a).1 >> (aw - 1) == 0 {
                        Some(self.widened(n.a, m, d))
                    } else {
                        None
                    }
                }
                Op::Extract if n.k == 0 => {
                    let l = self.lin(n.a, d);
                    Some(l.scale(1, m))
                }
                Op::Extract => {
                    let l = self.lin(n.a, d).scale(1, mask(n.k as u16 + n.w));
                    let r = *self.xreps.borrow_mut().entry((l, n.k as u16, n.w)).or_insert(i);
                    Some(Lin::atom(r))
                }
                Op::Concat => {
                    let h = self.nodes[n.a as usize];
                    let lw = self.nodes[n.b as usize].w;
                    // the two pieces of one value
                    let mut whole = None;
                    if h.op == Op::Extract && h.k == lw as u128 {
                        let lx = self.lin(h.a, d);
                        let lm = mask(lw);
                        let x = self.nodes[h.a as usize];
                        let low = if x.op == Op::SExt && self.nodes[x.a as usize].w >= lw { self.lin(x.a, d) } else { lx.clone() };
                        if low.scale(1, lm) == *self.lin(n.b, d) {
                            whole = Some(lx.scale(1, m));
                        }
                    }
                    match whole {
                        Some(x) => Some(x),
                        None => {
                            let hi = self.widened(n.a, m, d);
                            let lo = self.widened(n.b, m, d);
                            Some(hi.scale(1u128 << lw, m).add(&lo, m))
                        }
                    }
                }
                _ => None,
            }
        };
        let r = match r {
            Some(l) if l.t.len() <= MAX_TERMS => l,
            _ => Lin::atom(i),
        };
        let r = Rc::new(r);
        self.lins.borrow_mut().insert(i, r.clone());
        r
    }

    /// a function of one byte: the byte plus a constant, or a term shared by all nodes with
    /// the same table
    fn unary_lin(&self, i: Id) -> Option<Lin> {
        let s = self.unary(i)?;
        let y = &self.syms[s as usize];
        let (lo, hi) = (y.lo as usize, y.hi as usize);
        let t = self.table(i)?;
        let t = &t[lo..=hi];
        let m = mask(self.nodes[i as usize].w);
        if hi > lo {
            let c = (t[1] as u128).wrapping_sub(t[0] as u128) & m;
            let off = (t[0] as u128).wrapping_sub(c.wrapping_mul(lo as u128)) & m;
            if t.iter().enumerate().all(|(k, &v)| v as u128 == c.wrapping_mul((lo + k) as u128).wrapping_add(off) & m) {
                let sid = self.sym_ids[s as usize];
                let t = if c == 0 { vec![] } else { vec![(sid, c)] };
                return Some(Lin { t, k: off });
            }
        }
        let r = *self.reps.borrow_mut().entry((s, t.to_vec())).or_insert(i);
        Some(Lin::atom(r))
    }

    /// form of the value of `a` seen modulo a larger power of two
    fn widened(&self, a: Id, m: u128, d: u32) -> Lin {
        match self.exact(a, d) {
            Some(e) => {
                let mut t: Vec<(Id, u128)> = e.t.iter().map(|&(i, c)| (i, c as u128 & m)).collect();
                t.retain(|x| x.1 != 0);
                Lin { t, k: e.k as u128 & m }
            }
            None => Lin::atom(a),
        }
    }

    /// the node's unsigned value as an integer sum, when intervals show the sum stays in range
    pub fn exact(&self, i: Id, depth: u32) -> Option<Exact> {
        let w = self.nodes[i as usize].w;
        if w > 100 {
            // wide nodes: only what plainly fits
            if self.nodes[i as usize].op != Op::Const && self.interval_of(i).1 >> 100 != 0 {
                return None;
            }
        }
        let l = self.lin(i, depth);
        let (mut lo, mut hi) = (0i128, 0i128);
        let mut t: Vec<(Id, i128)> = Vec::with_capacity(l.t.len());
        let k = signed(l.k, w);
        lo = lo.checked_add(k)?;
        hi = hi.checked_add(k)?;
        for &(a, c) in &l.t {
            let c = signed(c, w);
            let (al, ah) = self.interval_of(a);
            if ah >> 100 != 0 {
                return None;
            }
            let (x, y) = (c.checked_mul(al as i128)?, c.checked_mul(ah as i128)?);
            lo = lo.checked_add(x.min(y))?;
            hi = hi.checked_add(x.max(y))?;
            t.push((a, c));
        }
        // the multiple of 2^w that brings the sum into range
        if w < 100 {
            let p = 1i128 << w;
            let sh = -lo.div_euclid(p) * p;
            lo += sh;
            hi += sh;
            if lo >= 0 && hi < p {
                return Some(Exact { t, k: k + sh });
            }
        } else if lo >= 0 && hi as u128 <= mask(w) {
            return Some(Exact { t, k });
        }
        // an unsigned reading of the constants may fit where the signed one does not
        let (mut lo, mut hi) = (l.k, l.k);
        let mut t = Vec::with_capacity(l.t.len());
        for &(a, c) in &l.t {
            if c >> 100 != 0 {
                return None;
            }
            let (al, ah) = self.interval_of(a);
            lo = lo.checked_add(c.checked_mul(al)?)?;
            hi = hi.checked_add(c.checked_mul(ah)?)?;
            t.push((a, c as i128));
        }
        if hi <= mask(w) && l.k >> 100 == 0 {
            return Some(Exact { t, k: l.k as i128 });
        }
        None
    }

    /// the sum the node's value is congruent to modulo 2^w, with the sum's bounds
    pub fn congruent(&self, i: Id) -> Option<(Exact, i128, i128)> {
        let w = self.nodes[i as usize].w;
        let l = self.lin(i, 0);
        if w > 64 || (l.t.len() == 1 && l.t[0].0 == i) {
            return None;
        }
        let k = signed(l.k, w);
        let (mut lo, mut hi) = (k, k);
        let mut t = vec![];
        for &(a, c) in &l.t {
            let c = signed(c, w);
            let (al, ah) = self.interval_of(a);
            if ah >> 64 != 0 {
                return None;
            }
            let (x, y) = (c.checked_mul(al as i128)?, c.checked_mul(ah as i128)?);
            lo = lo.checked_add(x.min(y))?;
            hi = hi.checked_add(x.max(y))?;
            t.push((a, c));
        }
        Some((Exact { t, k }, lo, hi))
    }

    fn interval_of(&self, i: Id) -> (u128, u128) {
        self.range(self.of(i))
    }

    /// equal for every assignment, as far as linear forms tell
    pub fn lin_equal(&self, a: Id, b: Id) -> Option<bool> {
        let (x, y) = (self.lin(a, 0), self.lin(b, 0));
        if x.t == y.t {
            return Some(x.k == y.k);
        }
        None
    }
}
