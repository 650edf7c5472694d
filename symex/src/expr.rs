//! Hash-consed bit-vector expressions with local simplification.
use std::collections::HashMap;

pub type Id = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Sym,
    Const,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Concat,
    Extract,
    ZExt,
    SExt,
    Ite,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: Id,
    pub b: Id,
    pub c: Id,
    pub k: u128,
}

/// A bit-vector value: concrete or symbolic.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Bv {
    C { w: u16, v: u128 },
    S(Id),
}

pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

pub fn sext128(v: u128, w: u16) -> i128 {
    if w >= 128 {
        return v as i128;
    }
    let sh = 128 - w as u32;
    ((v << sh) as i128) >> sh
}

pub struct SymInfo {
    pub name: String,
    pub w: u16,
    /// declared bounds; every path that has the symbol also has them as a constraint
    pub lo: u128,
    pub hi: u128,
}

pub struct Ctx {
    pub nodes: Vec<Node>,
    map: HashMap<Node, Id>,
    pub syms: Vec<SymInfo>,
    /// node of each symbol
    pub sym_ids: Vec<Id>,
    /// sorted symbol indices each node depends on
    pub deps: Vec<std::rc::Rc<Vec<u32>>>,
    no_deps: std::rc::Rc<Vec<u32>>,
    /// unsigned interval containing every value of the node
    rng: Vec<(u128, u128)>,
    tzs: Vec<u16>,
    /// a multiplication by something other than a power of two lies below the node
    pub has_mul: Vec<bool>,
    tables: std::cell::RefCell<HashMap<Id, std::rc::Rc<[u64; 256]>>>,
    /// representatives of terms that are equal without looking alike
    pub reps: std::cell::RefCell<HashMap<(u32, Vec<u64>), Id>>,
    pub xreps: std::cell::RefCell<HashMap<(crate::lin::Lin, u16, u16), Id>>,
    pub lins: std::cell::RefCell<HashMap<Id, std::rc::Rc<crate::lin::Lin>>>,
}

pub fn fold(op: Op, w: u16, aw: u16, x: u128, y: u128) -> u128 {
    let m = mask(w);
    match op {
        Op::Add => x.wrapping_add(y) & m,
        Op::Sub => x.wrapping_sub(y) & m,
        Op::Mul => x.wrapping_mul(y) & m,
        Op::UDiv => {
            if y == 0 {
                m
            } else {
                x / y
            }
        }
        Op::URem => {
            if y == 0 {
                x
            } else {
                x % y
            }
        }
        Op::SDiv => {
            let (a, b) = (sext128(x, w), sext128(y, w));
            if b == 0 {
                if a < 0 {
                    1
                } else {
                    m
                }
            } else {
                (a.wrapping_div(b) as u128) & m
            }
        }
        Op::SRem => {
            let (a, b) = (sext128(x, w), sext128(y, w));
            if b == 0 {
                x
            } else {
                (a.wrapping_rem(b) as u128) & m
            }
        }
        Op::And => x & y,
        Op::Or => x | y,
        Op::Xor => x ^ y,
        Op::Shl => {
            if y >= w as u128 {
                0
            } else {
                (x << y) & m
            }
        }
        Op::LShr => {
            if y >= w as u128 {
                0
            } else {
                x >> y
            }
        }
        Op::AShr => {
            let s = sext128(x, w);
            let sh = if y >= w as u128 { w as u32 - 1 } else { y as u32 };
            ((s >> sh) as u128) & m
        }
        Op::Eq => (x == y) as u128,
        Op::Ult => (x < y) as u128,
        Op::Ule => (x <= y) as u128,
        Op::Slt => (sext128(x, aw) < sext128(y, aw)) as u128,
        Op::Sle => (sext128(x, aw) <= sext128(y, aw)) as u128,
        _ => unreachable!(),
    }
}

impl Ctx {
    pub fn new() -> Self {
        Ctx {
            nodes: vec![],
            map: HashMap::new(),
            syms: vec![],
            sym_ids: vec![],
            deps: vec![],
            no_deps: std::rc::Rc::new(vec![]),
            rng: vec![],
            tzs: vec![],
            has_mul: vec![],
            tables: Default::default(),
            reps: Default::default(),
            xreps: Default::default(),
            lins: Default::default(),
        }
    }

    fn intern(&mut self, n: Node) -> Id {
        if let Some(&i) = self.map.get(&n) {
            return i;
        }
        let i = self.nodes.len() as Id;
        let d = match n.op {
            Op::Const => self.no_deps.clone(),
            Op::Sym => std::rc::Rc::new(vec![n.k as u32]),
            Op::Extract | Op::ZExt | Op::SExt => self.deps[n.a as usize].clone(),
            Op::Ite => {
                let d1 = self.merge_deps(n.a, n.b);
                let d2 = self.deps[n.c as usize].clone();
                Self::merge2(&d1, &d2)
            }
            _ => self.merge_deps(n.a, n.b),
        };
        let r = self.interval(&n);
        self.rng.push(r);
        let t = self.node_tz(&n);
        self.tzs.push(t);
        let h = |i: Id| self.has_mul[i as usize];
        let hm = match n.op {
            Op::Const | Op::Sym => false,
            Op::Mul => true,
            Op::Extract | Op::ZExt | Op::SExt => h(n.a),
            Op::Ite => h(n.a) || h(n.b) || h(n.c),
            _ => h(n.a) || h(n.b),
        };
        self.has_mul.push(hm);
        self.nodes.push(n);
        self.deps.push(d);
        self.map.insert(n, i);
        if matches!(n.op, Op::Ite | Op::Add | Op::Sub | Op::And | Op::Or | Op::Xor) && n.w > 1 && n.w <= 64 {
            if let Some(s) = self.unary(i) {
                let y = &self.syms[s as usize];
                let (lo, hi) = (y.lo as usize, y.hi as usize);
                if hi - lo < 255 {
                    if let Some(t) = self.table(i) {
                        let t = &t[lo..=hi];
                        let r = (*t.iter().min().unwrap() as u128, *t.iter().max().unwrap() as u128);
                        self.rng[i as usize] = r;
                    }
                }
            }
        }
        i
    }

    /// the symbol a node depends on, when that is one symbol of at most 8 bits
    pub fn unary(&self, i: Id) -> Option<u32> {
        let d = &self.deps[i as usize];
        if d.len() == 1 && self.syms[d[0] as usize].w <= 8 {
            Some(d[0])
        } else {
            None
        }
    }

    fn merge_deps(&self, a: Id, b: Id) -> std::rc::Rc<Vec<u32>> {
        let x = &self.deps[a as usize];
        let y = &self.deps[b as usize];
        Self::merge2(x, y)
    }

    fn merge2(x: &std::rc::Rc<Vec<u32>>, y: &std::rc::Rc<Vec<u32>>) -> std::rc::Rc<Vec<u32>> {
        if y.is_empty() || std::rc::Rc::ptr_eq(x, y) || x == y {
            return x.clone();
        }
        if x.is_empty() {
            return y.clone();
        }
        let mut v: Vec<u32> = x.iter().chain(y.iter()).copied().collect();
        v.sort_unstable();
        v.dedup();
        if v.len() == x.len() {
            return x.clone();
        }
        if v.len() == y.len() {
            return y.clone();
        }
        std::rc::Rc::new(v)
    }

    /// value of a node depending on one symbol of at most 8 bits, by that symbol
    pub fn table(&self, i: Id) -> Option<std::rc::Rc<[u64; 256]>> {
        let mut vecs = self.tables.borrow_mut();
        if let Some(v) = vecs.get(&i) {
            return Some(v.clone());
        }
        let mut st = vec![i];
        while let Some(&t) = st.last() {
            if vecs.contains_key(&t) {
                st.pop();
                continue;
            }
            let n = self.nodes[t as usize];
            if n.w > 64 {
                return None;
            }
            let kids: Vec<Id> = match n.op {
                Op::Const | Op::Sym => vec![],
                Op::Extract | Op::ZExt | Op::SExt => vec![n.a],
                Op::Ite => vec![n.a, n.b, n.c],
                _ => vec![n.a, n.b],
            };
            let miss: Vec<Id> = kids.iter().copied().filter(|k| !vecs.contains_key(k)).collect();
            if !miss.is_empty() {
                st.extend(miss);
                continue;
            }
            st.pop();
            let mut out = [0u64; 256];
            match n.op {
                Op::Const => out = [n.k as u64; 256],
                Op::Sym => {
                    for (x, o) in out.iter_mut().enumerate() {
                        *o = x as u64 & mask(n.w) as u64;
                    }
                }
                Op::Extract => {
                    let a = &vecs[&n.a];
                    for x in 0..256 {
                        out[x] = ((a[x] as u128 >> n.k) & mask(n.w)) as u64;
                    }
                }
                Op::ZExt => out = *vecs[&n.a].clone(),
                Op::SExt => {
                    let aw = self.nodes[n.a as usize].w;
                    let a = &vecs[&n.a];
                    for x in 0..256 {
                        out[x] = ((sext128(a[x] as u128, aw) as u128) & mask(n.w)) as u64;
                    }
                }
                Op::Ite => {
                    let (c, a, b) = (&vecs[&n.a], &vecs[&n.b], &vecs[&n.c]);
                    for x in 0..256 {
                        out[x] = if c[x] != 0 { a[x] } else { b[x] };
                    }
                }
                _ => {
                    let aw = self.nodes[n.a as usize].w;
                    let bw = self.nodes[n.b as usize].w;
                    let (a, b) = (&vecs[&n.a], &vecs[&n.b]);
                    for x in 0..256 {
                        out[x] = if n.op == Op::Concat {
                            (((a[x] as u128) << bw) | b[x] as u128) as u64
                        } else {
                            fold(n.op, n.w, aw, a[x] as u128, b[x] as u128) as u64
                        };
                    }
                }
            }
            vecs.insert(t, std::rc::Rc::new(out));
        }
        Some(vecs[&i].clone())
    }

    /// unsigned interval of a node from those of its operands
    fn interval(&self, n: &Node) -> (u128, u128) {
        let m = mask(n.w);
        let full = (0, m);
        match n.op {
            Op::Const => return (n.k, n.k),
            Op::Sym => {
                let y = &self.syms[n.k as usize];
                return (y.lo, y.hi);
            }
            _ => {}
        }
        let (la, ha) = self.rng[n.a as usize];
        match n.op {
            Op::ZExt => return (la, ha),
            Op::SExt => {
                let aw = self.nodes[n.a as usize].w;
                return if ha >> (aw - 1) == 0 { (la, ha) } else { full };
            }
            Op::Extract => {
                let (l, h) = (la >> n.k, ha >> n.k);
                return if h <= m { (l, h) } else { full };
            }
            Op::Ite => {
                let ((l1, h1), (l2, h2)) = (self.rng[n.b as usize], self.rng[n.c as usize]);
                return (l1.min(l2), h1.max(h2));
            }
            _ => {}
        }
        let (lb, hb) = self.rng[n.b as usize];
        let ones = |x: u128| if x == 0 { 0 } else { u128::MAX >> x.leading_zeros() };
        match n.op {
            Op::Add if n.w <= 64 => {
                let (l, h) = (la + lb, ha + hb);
                if h <= m {
                    (l, h)
                } else if l > m {
                    (l - m - 1, h - m - 1)
                } else {
                    full
                }
            }
            Op::Sub if la >= hb => (la - hb, ha - lb),
            Op::Mul => match ha.checked_mul(hb) {
                Some(h) if h <= m => (la * lb, h),
                _ => full,
            },
            Op::UDiv if lb > 0 => (la / hb, ha / lb),
            Op::URem if lb > 0 => {
                if ha < lb {
                    (la, ha)
                } else {
                    (0, ha.min(hb - 1))
                }
            }
            Op::And => (0, ha.min(hb)),
            Op::Or => (la.max(lb), ones(ha | hb)),
            Op::Xor => (0, ones(ha | hb)),
            Op::Shl if lb == hb && lb < n.w as u128 && ha.leading_zeros() as u128 >= lb && ha << lb <= m => (la << lb, ha << lb),
            Op::LShr if lb == hb => {
                if lb < n.w as u128 {
                    (la >> lb, ha >> lb)
                } else {
                    (0, 0)
                }
            }
            Op::Concat => {
                let lw = self.nodes[n.b as usize].w;
                ((la << lw) | lb, (ha << lw) | hb)
            }
            _ => full,
        }
    }

    pub fn range(&self, b: Bv) -> (u128, u128) {
        match b {
            Bv::C { v, .. } => (v, v),
            Bv::S(i) => self.rng[i as usize],
        }
    }

    /// declares bounds of a fresh symbol (its constraint must already be built)
    pub fn bound_sym(&mut self, i: Id, lo: u128, hi: u128) {
        let k = self.nodes[i as usize].k as usize;
        self.syms[k].lo = lo;
        self.syms[k].hi = hi;
        self.rng[i as usize] = (lo, hi);
    }

    pub fn set_range(&mut self, i: Id, lo: u128, hi: u128) {
        self.rng[i as usize] = (lo, hi);
    }

    pub fn new_sym(&mut self, name: String, w: u16) -> Bv {
        let k = self.syms.len() as u128;
        self.syms.push(SymInfo { name, w, lo: 0, hi: mask(w) });
        let i = self.intern(Node { op: Op::Sym, w, a: 0, b: 0, c: 0, k });
        self.sym_ids.push(i);
        Bv::S(i)
    }

    pub fn width(&self, b: Bv) -> u16 {
        match b {
            Bv::C { w, .. } => w,
            Bv::S(i) => self.nodes[i as usize].w,
        }
    }

    pub fn id(&mut self, b: Bv) -> Id {
        match b {
            Bv::C { w, v } => self.intern(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: v }),
            Bv::S(i) => i,
        }
    }

    pub fn c(w: u16, v: u128) -> Bv {
        Bv::C { w, v: v & mask(w) }
    }

    pub fn of(&self, i: Id) -> Bv {
        let n = &self.nodes[i as usize];
        if n.op == Op::Const {
            Bv::C { w: n.w, v: n.k }
        } else {
            Bv::S(i)
        }
    }

    fn node(&self, b: Bv) -> Option<Node> {
        match b {
            Bv::C { .. } => None,
            Bv::S(i) => Some(self.nodes[i as usize]),
        }
    }

    fn raw(&mut self, op: Op, w: u16, a: Bv, b: Bv) -> Bv {
        let a = self.id(a);
        let b = self.id(b);
        Bv::S(self.intern(Node { op, w, a, b, c: 0, k: 0 }))
    }

    pub fn not1(&mut self, a: Bv) -> Bv {
        // boolean negation, width 1
        self.bin(Op::Xor, a, Bv::C { w: 1, v: 1 })
    }

    /// is `b` the boolean negation of something?
    pub fn strip_not(&self, b: Bv) -> Option<Bv> {
        if let Some(n) = self.node(b) {
            if n.op == Op::Xor && n.w == 1 {
                if let Bv::C { v: 1, .. } = self.of(n.b) {
                    return Some(self.of(n.a));
                }
            }
        }
        None
    }

    fn is_commutative(op: Op) -> bool {
        matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq)
    }

    /// ite whose leaves are all constants (bounded depth)
    fn const_ite_leaves(&self, b: Bv, depth: u32) -> bool {
        match b {
            Bv::C { .. } => true,
            Bv::S(i) => {
                let n = self.nodes[i as usize];
                depth > 0
                    && n.op == Op::Ite
                    && self.const_ite_leaves(self.of(n.b), depth - 1)
                    && self.const_ite_leaves(self.of(n.c), depth - 1)
            }
        }
    }

    fn map_ite(&mut self, b: Bv, f: &mut dyn FnMut(&mut Ctx, Bv) -> Bv) -> Bv {
        if let Some(n) = self.node(b) {
            if n.op == Op::Ite {
                let x = self.of(n.b);
                let x = self.map_ite(x, f);
                let y = self.of(n.c);
                let y = self.map_ite(y, f);
                let c = self.of(n.a);
                return self.ite(c, x, y);
            }
        }
        f(self, b)
    }

    pub fn bin(&mut self, op: Op, a: Bv, b: Bv) -> Bv {
        let aw = self.width(a);
        let is_cmp = matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle);
        let w = if is_cmp { 1 } else { aw };
        if let (Bv::C { v: x, .. }, Bv::C { v: y, .. }) = (a, b) {
            return Bv::C { w, v: fold(op, w, aw, x, y) };
        }
        // constants to the right
        if Self::is_commutative(op) {
            if let Bv::C { .. } = a {
                return self.bin(op, b, a);
            }
        }
        let m = mask(aw);
        // identical operands
        if a == b {
            match op {
                Op::Sub | Op::Xor => return Bv::C { w, v: 0 },
                Op::And | Op::Or => return a,
                Op::Eq | Op::Ule | Op::Sle => return Bv::C { w: 1, v: 1 },
                Op::Ult | Op::Slt => return Bv::C { w: 1, v: 0 },
                _ => {}
            }
        }
        if is_cmp && aw > 1 {
            let ((la, ha), (lb, hb)) = (self.range(a), self.range(b));
            let sb = 1u128 << (aw - 1);
            match op {
                Op::Eq if ha < lb || hb < la => return Bv::C { w: 1, v: 0 },
                Op::Ult if ha < lb => return Bv::C { w: 1, v: 1 },
                Op::Ult if la >= hb => return Bv::C { w: 1, v: 0 },
                Op::Ule if ha <= lb => return Bv::C { w: 1, v: 1 },
                Op::Ule if la > hb => return Bv::C { w: 1, v: 0 },
                Op::Slt if ha < sb && hb < sb => return self.bin(Op::Ult, a, b),
                Op::Sle if ha < sb && hb < sb => return self.bin(Op::Ule, a, b),
                _ => {}
            }
            // a sum that cannot wrap is no smaller than its terms
            if op == Op::Ult && aw <= 64 {
                if let (Some(n), Bv::S(bi)) = (self.node(a), b) {
                    if n.op == Op::Add && (n.a == bi || n.b == bi) && self.rng[n.a as usize].1 + self.rng[n.b as usize].1 <= m {
                        return Bv::C { w: 1, v: 0 };
                    }
                }
            }
        }
        // one side const, other a small const-leaf ite
        if let Bv::C { .. } = b {
            if let Some(n) = self.node(a) {
                if n.op == Op::Ite && self.const_ite_leaves(a, 20) {
                    return self.map_ite(a, &mut |c, x| c.bin(op, x, b));
                }
            }
        } else if let Bv::C { .. } = a {
            if let Some(n) = self.node(b) {
                if n.op == Op::Ite && self.const_ite_leaves(b, 20) {
                    return self.map_ite(b, &mut |c, x| c.bin(op, a, x));
                }
            }
        }
        if let Bv::C { v: y, .. } = b {
            match op {
                Op::Add | Op::Sub | Op::Or | Op::Xor | Op::Shl | Op::LShr | Op::AShr if y == 0 => return a,
                Op::Mul if y == 1 => return a,
                Op::UDiv if y == 1 => return a,
                Op::URem if y == 1 => return Bv::C { w, v: 0 },
                Op::Mul | Op::And if y == 0 => return Bv::C { w, v: 0 },
                Op::And if y == m => return a,
                Op::Or if y == m => return b,
                Op::Ult if y == 0 => return Bv::C { w: 1, v: 0 },
                Op::Ule if y == m => return Bv::C { w: 1, v: 1 },
                Op::Sub => {
                    let nb = Bv::C { w: aw, v: y.wrapping_neg() & m };
                    return self.bin(Op::Add, a, nb);
                }
                Op::Mul if y.is_power_of_two() => {
                    let k = y.trailing_zeros() as u128;
                    return self.bin(Op::Shl, a, Bv::C { w: aw, v: k });
                }
                Op::UDiv if y.is_power_of_two() => {
                    let k = y.trailing_zeros() as u128;
                    return self.bin(Op::LShr, a, Bv::C { w: aw, v: k });
                }
                Op::URem if y.is_power_of_two() => {
                    return self.bin(Op::And, a, Bv::C { w: aw, v: y - 1 });
                }
                _ => {}
            }
            let na = self.node(a).unwrap();
            match op {
                Op::Add => {
                    if na.op == Op::Add {
                        if let Bv::C { v: z, .. } = self.of(na.b) {
                            let x = self.of(na.a);
                            return self.bin(Op::Add, x, Bv::C { w: aw, v: z.wrapping_add(y) & m });
                        }
                    }
                }
                Op::And => {
                    if na.op == Op::And {
                        if let Bv::C { v: z, .. } = self.of(na.b) {
                            let x = self.of(na.a);
                            return self.bin(Op::And, x, Bv::C { w: aw, v: z & y });
                        }
                    }
                    // low mask -> zext(extract)
                    if (y & (y + 1)) == 0 {
                        let k = (128 - y.leading_zeros()) as u16;
                        let e = self.extract(a, 0, k);
                        return self.zext(e, aw);
                    }
                    // contiguous mask: extract middle
                    let tz = y.trailing_zeros() as u16;
                    let t = y >> tz;
                    if (t & (t + 1)) == 0 {
                        let k = (128 - t.leading_zeros()) as u16;
                        let e = self.extract(a, tz, k);
                        let z = Bv::C { w: tz, v: 0 };
                        let c = self.concat(e, z);
                        return self.zext(c, aw);
                    }
                }
                Op::Xor => {
                    if na.op == Op::Xor {
                        if let Bv::C { v: z, .. } = self.of(na.b) {
                            let x = self.of(na.a);
                            return self.bin(Op::Xor, x, Bv::C { w: aw, v: z ^ y });
                        }
                    }
                }
                Op::Shl => {
                    if y >= aw as u128 {
                        return Bv::C { w: aw, v: 0 };
                    }
                    let k = y as u16;
                    let e = self.extract(a, 0, aw - k);
                    return self.concat(e, Bv::C { w: k, v: 0 });
                }
                Op::LShr => {
                    if y >= aw as u128 {
                        return Bv::C { w: aw, v: 0 };
                    }
                    let k = y as u16;
                    let e = self.extract(a, k, aw - k);
                    return self.zext(e, aw);
                }
                Op::AShr => {
                    let k = if y >= aw as u128 { aw - 1 } else { y as u16 };
                    let e = self.extract(a, k, aw - k);
                    return self.sext(e, aw);
                }
                Op::Eq => {
                    if aw == 1 {
                        return if y == 1 { a } else { self.not1(a) };
                    }
                    match na.op {
                        Op::ZExt => {
                            let x = self.of(na.a);
                            let xw = self.width(x);
                            if y > mask(xw) {
                                return Bv::C { w: 1, v: 0 };
                            }
                            return self.bin(Op::Eq, x, Bv::C { w: xw, v: y });
                        }
                        Op::SExt => {
                            let x = self.of(na.a);
                            let xw = self.width(x);
                            let t = y & mask(xw);
                            if (sext128(t, xw) as u128) & m != y {
                                return Bv::C { w: 1, v: 0 };
                            }
                            return self.bin(Op::Eq, x, Bv::C { w: xw, v: t });
                        }
                        Op::Concat => {
                            let hi = self.of(na.a);
                            let lo = self.of(na.b);
                            let lw = self.width(lo);
                            let hw = self.width(hi);
                            let e1 = self.bin(Op::Eq, lo, Bv::C { w: lw, v: y & mask(lw) });
                            let e2 = self.bin(Op::Eq, hi, Bv::C { w: hw, v: y >> lw });
                            return self.bin(Op::And, e1, e2);
                        }
                        Op::Add => {
                            if let Bv::C { v: z, .. } = self.of(na.b) {
                                let x = self.of(na.a);
                                return self.bin(Op::Eq, x, Bv::C { w: aw, v: y.wrapping_sub(z) & m });
                            }
                        }
                        Op::Xor => {
                            if let Bv::C { v: z, .. } = self.of(na.b) {
                                let x = self.of(na.a);
                                return self.bin(Op::Eq, x, Bv::C { w: aw, v: y ^ z });
                            }
                            if y == 0 {
                                let x = self.of(na.a);
                                let z = self.of(na.b);
                                return self.bin(Op::Eq, x, z);
                            }
                        }
                        Op::Or if y == 0 => {
                            let x = self.of(na.a);
                            let z = self.of(na.b);
                            let e1 = self.bin(Op::Eq, x, Bv::C { w: aw, v: 0 });
                            let e2 = self.bin(Op::Eq, z, Bv::C { w: aw, v: 0 });
                            return self.bin(Op::And, e1, e2);
                        }
                        _ => {}
                    }
                }
                Op::Ult => {
                    if y == 1 {
                        return self.bin(Op::Eq, a, Bv::C { w: aw, v: 0 });
                    }
                    if na.op == Op::ZExt {
                        let x = self.of(na.a);
                        let xw = self.width(x);
                        if y > mask(xw) {
                            return Bv::C { w: 1, v: 1 };
                        }
                        return self.bin(Op::Ult, x, Bv::C { w: xw, v: y });
                    }
                }
                Op::Ule => {
                    return self.bin(Op::Ult, a, Bv::C { w: aw, v: y + 1 });
                }
                _ => {}
            }
        } else if let Bv::C { v: x, .. } = a {
            match op {
                Op::Ult => {
                    if x == m {
                        return Bv::C { w: 1, v: 0 };
                    }
                    // x < b  ==  !(b <= x) == !(b < x+1)
                    let t = self.bin(Op::Ult, b, Bv::C { w: aw, v: x + 1 });
                    return self.not1(t);
                }
                Op::Ule => {
                    if x == 0 {
                        return Bv::C { w: 1, v: 1 };
                    }
                    let t = self.bin(Op::Ult, b, Bv::C { w: aw, v: x });
                    return self.not1(t);
                }
                Op::Shl | Op::LShr if x == 0 => return a,
                _ => {}
            }
        } else {
            match op {
                Op::Sub => {
                    // (x + c) - x
                    let na = self.node(a).unwrap();
                    if na.op == Op::Add && self.of(na.a) == b {
                        return self.of(na.b);
                    }
                    let nb = self.node(b).unwrap();
                    if na.op == Op::Add && nb.op == Op::Add && na.a == nb.a {
                        let (x, y) = (self.of(na.b), self.of(nb.b));
                        return self.bin(Op::Sub, x, y);
                    }
                    if nb.op == Op::Add {
                        if let Bv::C { v, .. } = self.of(nb.b) {
                            let x = self.of(nb.a);
                            let s = self.bin(Op::Sub, a, x);
                            return self.bin(Op::Add, s, Bv::C { w: aw, v: v.wrapping_neg() & m });
                        }
                    }
                }
                Op::Eq => {
                    let na = self.node(a).unwrap();
                    let nb = self.node(b).unwrap();
                    if na.op == Op::Concat && nb.op == Op::Concat {
                        let (al, bl) = (self.of(na.b), self.of(nb.b));
                        if self.width(al) == self.width(bl) {
                            let e1 = self.bin(Op::Eq, al, bl);
                            let (ah, bh) = (self.of(na.a), self.of(nb.a));
                            let e2 = self.bin(Op::Eq, ah, bh);
                            return self.bin(Op::And, e1, e2);
                        }
                    }
                    if na.op == Op::ZExt && nb.op == Op::ZExt {
                        let (x, y) = (self.of(na.a), self.of(nb.a));
                        if self.width(x) == self.width(y) {
                            return self.bin(Op::Eq, x, y);
                        }
                    }
                    if aw == 1 {
                        let t = self.bin(Op::Xor, a, b);
                        return self.not1(t);
                    }
                }
                Op::Or => {
                    if let Some(r) = self.or_disjoint(a, b) {
                        return r;
                    }
                }
                Op::Add => {
                    // x + (y + c) -> (x + y) + c
                    let nb = self.node(b).unwrap();
                    if nb.op == Op::Add {
                        if let Bv::C { .. } = self.of(nb.b) {
                            let (y, c) = (self.of(nb.a), self.of(nb.b));
                            let s = self.bin(Op::Add, a, y);
                            return self.bin(Op::Add, s, c);
                        }
                    }
                    let na = self.node(a).unwrap();
                    if na.op == Op::Add {
                        if let Bv::C { .. } = self.of(na.b) {
                            let (y, c) = (self.of(na.a), self.of(na.b));
                            let s = self.bin(Op::Add, y, b);
                            return self.bin(Op::Add, s, c);
                        }
                    }
                    if let Some(r) = self.or_disjoint(a, b) {
                        return r;
                    }
                }
                _ => {}
            }
        }
        if op == Op::Eq && aw > 1 {
            if let (Bv::S(x), Bv::S(y)) = (a, b) {
                let arith = |o: Op| matches!(o, Op::Add | Op::Sub | Op::Mul | Op::Concat | Op::Extract);
                let (ox, oy) = (self.nodes[x as usize].op, self.nodes[y as usize].op);
                if (arith(ox) || arith(oy)) && self.deps[x as usize] == self.deps[y as usize] {
                    if let Some(r) = self.lin_equal(x, y) {
                        return Bv::C { w: 1, v: r as u128 };
                    }
                    if self.has_mul[x as usize] && std::env::var("SYMEX_LIN").is_ok() {
                        eprintln!("NEQ {:?} {:?}\n  {:?}\n  {:?}", self.nodes[x as usize], self.nodes[y as usize], self.lin(x, 0), self.lin(y, 0));
                        for (t, _) in self.lin(x, 0).t.iter().chain(self.lin(y, 0).t.iter()) {
                            eprintln!("    {} {:?} {:?}", t, self.nodes[*t as usize], self.rng[*t as usize]);
                        }
                    }
                }
            }
        }
        // commutative canonical order
        if Self::is_commutative(op) {
            if let (Bv::S(x), Bv::S(y)) = (a, b) {
                if x > y {
                    return self.raw(op, w, b, a);
                }
            }
        }
        self.raw(op, w, a, b)
    }

    /// split into (lo, width, Option<value>) segments; None = known zero
    fn segments(&self, b: Bv, lo: u16, out: &mut Vec<(u16, u16, Option<Bv>)>) {
        match b {
            Bv::C { w, v: 0 } => out.push((lo, w, None)),
            Bv::C { w, .. } => out.push((lo, w, Some(b))),
            Bv::S(i) => {
                let n = self.nodes[i as usize];
                match n.op {
                    Op::Concat => {
                        let l = self.of(n.b);
                        let lw = self.width(l);
                        self.segments(l, lo, out);
                        self.segments(self.of(n.a), lo + lw, out);
                    }
                    Op::ZExt => {
                        let x = self.of(n.a);
                        let xw = self.width(x);
                        self.segments(x, lo, out);
                        out.push((lo + xw, n.w - xw, None));
                    }
                    _ => out.push((lo, n.w, Some(b))),
                }
            }
        }
    }

    /// a | b (or a + b) where no bit is possibly set in both, at segment granularity
    fn or_disjoint(&mut self, a: Bv, b: Bv) -> Option<Bv> {
        for (x, y) in [(a, b), (b, a)] {
            let t = self.tz(y);
            let w = self.width(y);
            if t > 0 && t < w && self.umax(x) >> t == 0 {
                let h = self.extract(y, t, w - t);
                let l = self.extract(x, 0, t);
                return Some(self.concat(h, l));
            }
        }
        let w = self.width(a);
        if w == 1 {
            return None;
        }
        let mut sa = vec![];
        let mut sb = vec![];
        self.segments(a, 0, &mut sa);
        self.segments(b, 0, &mut sb);
        if sa.iter().all(|s| s.2.is_some()) && sb.iter().all(|s| s.2.is_some()) {
            return None;
        }
        let mut cuts: Vec<u16> = sa.iter().chain(sb.iter()).map(|s| s.0).collect();
        cuts.push(w);
        cuts.sort_unstable();
        cuts.dedup();
        let find = |s: &Vec<(u16, u16, Option<Bv>)>, at: u16| -> (u16, Option<Bv>) {
            for x in s {
                if x.0 <= at && at < x.0 + x.1 {
                    return (x.0, x.2);
                }
            }
            unreachable!()
        };
        let mut parts: Vec<(u16, u16, Option<(u16, Bv)>)> = vec![];
        for i in 0..cuts.len() - 1 {
            let (lo, hi) = (cuts[i], cuts[i + 1]);
            let (ba, va) = find(&sa, lo);
            let (bb, vb) = find(&sb, lo);
            match (va, vb) {
                (Some(_), Some(_)) => return None,
                (Some(x), None) => parts.push((lo, hi - lo, Some((lo - ba, x)))),
                (None, Some(x)) => parts.push((lo, hi - lo, Some((lo - bb, x)))),
                (None, None) => parts.push((lo, hi - lo, None)),
            }
        }
        let mut acc: Option<Bv> = None;
        for (_, pw, v) in parts {
            let p = match v {
                None => Bv::C { w: pw, v: 0 },
                Some((off, x)) => self.extract(x, off, pw),
            };
            acc = Some(match acc {
                None => p,
                Some(l) => self.concat(p, l),
            });
        }
        acc
    }

    pub fn concat(&mut self, hi: Bv, lo: Bv) -> Bv {
        let hw = self.width(hi);
        let lw = self.width(lo);
        if hw == 0 {
            return lo;
        }
        if lw == 0 {
            return hi;
        }
        let w = hw + lw;
        if let (Bv::C { v: x, .. }, Bv::C { v: y, .. }) = (hi, lo) {
            return Bv::C { w, v: (x << lw) | y };
        }
        if let Bv::C { v: 0, .. } = hi {
            return self.zext(lo, w);
        }
        let nh = self.node(hi);
        let nl = self.node(lo);
        // extract(x, k+lw..) ++ extract(x, k..)
        if let (Some(h), Some(l)) = (nh, nl) {
            if h.op == Op::Extract && l.op == Op::Extract && h.a == l.a && h.k == l.k + lw as u128 {
                let x = self.of(h.a);
                return self.extract(x, l.k as u16, w);
            }
            // hi ++ (extract ++ rest)
            if h.op == Op::Extract && l.op == Op::Concat {
                let l1 = self.of(l.a);
                if let Some(l1n) = self.node(l1) {
                    if l1n.op == Op::Extract && l1n.a == h.a && h.k == l1n.k + l1n.w as u128 {
                        let x = self.of(h.a);
                        let e = self.extract(x, l1n.k as u16, hw + l1n.w);
                        let r = self.of(l.b);
                        return self.concat(e, r);
                    }
                }
            }
        }
        // normalise to right-nested: (a ++ b) ++ c -> a ++ (b ++ c)
        if let Some(h) = nh {
            if h.op == Op::Concat {
                let (x, y) = (self.of(h.a), self.of(h.b));
                let yl = self.concat(y, lo);
                return self.concat(x, yl);
            }
            if h.op == Op::ZExt {
                let x = self.of(h.a);
                let c = self.concat(x, lo);
                return self.zext(c, w);
            }
        }
        // const ++ (const ++ rest)
        if let (Bv::C { .. }, Some(l)) = (hi, nl) {
            if l.op == Op::Concat {
                if let Bv::C { .. } = self.of(l.a) {
                    let k = self.concat(hi, self.of(l.a));
                    let r = self.of(l.b);
                    return self.concat(k, r);
                }
            }
        }
        self.raw(Op::Concat, w, hi, lo)
    }

    pub fn extract(&mut self, a: Bv, lo: u16, w: u16) -> Bv {
        let aw = self.width(a);
        debug_assert!(lo + w <= aw, "extract {}+{} of {}", lo, w, aw);
        if lo == 0 && w == aw {
            return a;
        }
        match a {
            Bv::C { v, .. } => Bv::C { w, v: (v >> lo) & mask(w) },
            Bv::S(i) => {
                let n = self.nodes[i as usize];
                match n.op {
                    Op::Extract => {
                        let x = self.of(n.a);
                        return self.extract(x, lo + n.k as u16, w);
                    }
                    Op::Concat => {
                        let (h, l) = (self.of(n.a), self.of(n.b));
                        let lw = self.width(l);
                        if lo >= lw {
                            return self.extract(h, lo - lw, w);
                        }
                        if lo + w <= lw {
                            return self.extract(l, lo, w);
                        }
                        let p = self.extract(l, lo, lw - lo);
                        let q = self.extract(h, 0, w - (lw - lo));
                        return self.concat(q, p);
                    }
                    Op::ZExt => {
                        let x = self.of(n.a);
                        let xw = self.width(x);
                        if lo >= xw {
                            return Bv::C { w, v: 0 };
                        }
                        if lo + w <= xw {
                            return self.extract(x, lo, w);
                        }
                        let e = self.extract(x, lo, xw - lo);
                        return self.zext(e, w);
                    }
                    Op::SExt => {
                        let x = self.of(n.a);
                        let xw = self.width(x);
                        if lo + w <= xw {
                            return self.extract(x, lo, w);
                        }
                        if lo < xw {
                            let e = self.extract(x, lo, xw - lo);
                            return self.sext(e, w);
                        }
                    }
                    Op::And | Op::Or | Op::Xor => {
                        let (x, y) = (self.of(n.a), self.of(n.b));
                        let x = self.extract(x, lo, w);
                        let y = self.extract(y, lo, w);
                        return self.bin(n.op, x, y);
                    }
                    Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                        let (x, y) = (self.of(n.a), self.of(n.b));
                        let x = self.extract(x, 0, w);
                        let y = self.extract(y, 0, w);
                        return self.bin(n.op, x, y);
                    }
                    Op::Ite => {
                        if self.const_ite_leaves(a, 20) || n.w <= 64 {
                            let c = self.of(n.a);
                            let (x, y) = (self.of(n.b), self.of(n.c));
                            let x = self.extract(x, lo, w);
                            let y = self.extract(y, lo, w);
                            return self.ite(c, x, y);
                        }
                    }
                    _ => {}
                }
                Bv::S(self.intern(Node { op: Op::Extract, w, a: i, b: 0, c: 0, k: lo as u128 }))
            }
        }
    }

    pub fn zext(&mut self, a: Bv, w: u16) -> Bv {
        let aw = self.width(a);
        if aw == w {
            return a;
        }
        if aw == 0 {
            return Bv::C { w, v: 0 };
        }
        match a {
            Bv::C { v, .. } => Bv::C { w, v },
            Bv::S(i) => {
                let n = self.nodes[i as usize];
                if n.op == Op::ZExt {
                    let x = self.of(n.a);
                    return self.zext(x, w);
                }
                if n.op == Op::Ite && self.const_ite_leaves(a, 20) {
                    return self.map_ite(a, &mut |c, x| c.zext(x, w));
                }
                Bv::S(self.intern(Node { op: Op::ZExt, w, a: i, b: 0, c: 0, k: 0 }))
            }
        }
    }

    pub fn sext(&mut self, a: Bv, w: u16) -> Bv {
        let aw = self.width(a);
        if aw == w {
            return a;
        }
        match a {
            Bv::C { v, .. } => Bv::C { w, v: (sext128(v, aw) as u128) & mask(w) },
            Bv::S(i) => {
                let n = self.nodes[i as usize];
                if n.op == Op::ZExt {
                    let x = self.of(n.a);
                    return self.zext(x, w);
                }
                if n.op == Op::SExt {
                    let x = self.of(n.a);
                    return self.sext(x, w);
                }
                if n.op == Op::Ite && self.const_ite_leaves(a, 20) {
                    return self.map_ite(a, &mut |c, x| c.sext(x, w));
                }
                Bv::S(self.intern(Node { op: Op::SExt, w, a: i, b: 0, c: 0, k: 0 }))
            }
        }
    }

    pub fn ite(&mut self, c: Bv, x: Bv, y: Bv) -> Bv {
        if let Bv::C { v, .. } = c {
            return if v != 0 { x } else { y };
        }
        if x == y {
            return x;
        }
        if let Some(nc) = self.strip_not(c) {
            return self.ite(nc, y, x);
        }
        let w = self.width(x);
        if w == 1 {
            match (x, y) {
                (Bv::C { v: 1, .. }, Bv::C { v: 0, .. }) => return c,
                (Bv::C { v: 0, .. }, Bv::C { v: 1, .. }) => return self.not1(c),
                (Bv::C { v: 1, .. }, _) => return self.bin(Op::Or, c, y),
                (Bv::C { v: 0, .. }, _) => {
                    let n = self.not1(c);
                    return self.bin(Op::And, n, y);
                }
                (_, Bv::C { v: 0, .. }) => return self.bin(Op::And, c, x),
                (_, Bv::C { v: 1, .. }) => {
                    let n = self.not1(c);
                    return self.bin(Op::Or, n, x);
                }
                _ => {}
            }
        }
        // nested same condition
        if let Some(n) = self.node(x) {
            if n.op == Op::Ite && self.of(n.a) == c {
                let t = self.of(n.b);
                return self.ite(c, t, y);
            }
        }
        if let Some(n) = self.node(y) {
            if n.op == Op::Ite {
                if self.of(n.a) == c {
                    let t = self.of(n.c);
                    return self.ite(c, x, t);
                }
                // ite(c, x, ite(d, x, z)) -> ite(c|d, x, z)
                if self.of(n.b) == x {
                    let d = self.of(n.a);
                    let z = self.of(n.c);
                    let cd = self.bin(Op::Or, c, d);
                    return self.ite(cd, x, z);
                }
            }
        }
        let (c, x, y) = (self.id(c), self.id(x), self.id(y));
        Bv::S(self.intern(Node { op: Op::Ite, w, a: c, b: x, c: y, k: 0 }))
    }

    /// number of known trailing zero bits
    pub fn tz(&self, b: Bv) -> u16 {
        match b {
            Bv::C { w, v: 0 } => w,
            Bv::C { v, .. } => v.trailing_zeros() as u16,
            Bv::S(i) => self.tzs[i as usize],
        }
    }

    fn node_tz(&self, n: &Node) -> u16 {
        let t = |i: Id| self.tz(self.of(i));
        match n.op {
            Op::Concat => {
                let lw = self.width(self.of(n.b));
                let l = t(n.b);
                if l >= lw {
                    lw + t(n.a)
                } else {
                    l
                }
            }
            Op::ZExt | Op::SExt => t(n.a),
            Op::Add | Op::Sub | Op::Or | Op::Xor => t(n.a).min(t(n.b)),
            Op::Ite => t(n.b).min(t(n.c)),
            Op::Mul => (t(n.a) + t(n.b)).min(n.w),
            _ => 0,
        }
    }

    /// unsigned upper bound (sound over-approximation)
    pub fn umax(&self, b: Bv) -> u128 {
        self.range(b).1
    }
}

/// A (total) assignment to symbols; missing symbols are 0.
#[derive(Clone, Default)]
pub struct Model {
    pub vals: HashMap<u32, u128>,
    cache: std::cell::RefCell<HashMap<Id, u128>>,
}

impl Model {
    pub fn new(vals: HashMap<u32, u128>) -> Self {
        Model { vals, cache: Default::default() }
    }

    pub fn eval(&self, ctx: &Ctx, b: Bv) -> u128 {
        match b {
            Bv::C { v, .. } => v,
            Bv::S(i) => self.eval_id(ctx, i),
        }
    }

    fn eval_id(&self, ctx: &Ctx, i: Id) -> u128 {
        // iterative post-order to avoid deep recursion on long ite chains
        if let Some(&v) = self.cache.borrow().get(&i) {
            return v;
        }
        let mut stack = vec![i];
        while let Some(&t) = stack.last() {
            let mut cache = self.cache.borrow_mut();
            if cache.contains_key(&t) {
                stack.pop();
                continue;
            }
            let n = ctx.nodes[t as usize];
            match n.op {
                Op::Const => {
                    cache.insert(t, n.k);
                    stack.pop();
                }
                Op::Sym => {
                    let v = self.vals.get(&(n.k as u32)).copied().unwrap_or(0) & mask(n.w);
                    cache.insert(t, v);
                    stack.pop();
                }
                Op::Extract | Op::ZExt | Op::SExt => match cache.get(&n.a) {
                    None => stack.push(n.a),
                    Some(&x) => {
                        let v = match n.op {
                            Op::Extract => (x >> n.k) & mask(n.w),
                            Op::ZExt => x,
                            _ => (sext128(x, ctx.nodes[n.a as usize].w) as u128) & mask(n.w),
                        };
                        cache.insert(t, v);
                        stack.pop();
                    }
                },
                Op::Ite => match cache.get(&n.a) {
                    None => stack.push(n.a),
                    Some(&c) => {
                        let k = if c != 0 { n.b } else { n.c };
                        match cache.get(&k) {
                            None => stack.push(k),
                            Some(&v) => {
                                cache.insert(t, v);
                                stack.pop();
                            }
                        }
                    }
                },
                _ => match (cache.get(&n.a), cache.get(&n.b)) {
                    (Some(&x), Some(&y)) => {
                        let aw = ctx.nodes[n.a as usize].w;
                        let v = if n.op == Op::Concat {
                            (x << ctx.nodes[n.b as usize].w) | y
                        } else {
                            fold(n.op, n.w, aw, x, y)
                        };
                        cache.insert(t, v);
                        stack.pop();
                    }
                    (a, b) => {
                        let (na, nb) = (a.is_none(), b.is_none());
                        if na {
                            stack.push(n.a);
                        }
                        if nb {
                            stack.push(n.b);
                        }
                    }
                },
            }
        }
        let v = self.cache.borrow()[&i];
        v
    }
}
