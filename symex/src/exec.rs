//! Path-forking symbolic executor over decoded LLVM IR.
use crate::expr::*;
use crate::ir::*;
use crate::z3::{Sat, Z3};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::hash::{BuildHasherDefault, Hasher};
use std::rc::Rc;

#[path = "vfs.rs"]
mod vfs;

#[derive(Default)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut v = 0u64;
            for (i, x) in c.iter().enumerate() {
                v |= (*x as u64) << (8 * i);
            }
            self.write_u64(v);
        }
    }
    fn write_u8(&mut self, v: u8) {
        self.write_u64(v as u64)
    }
    fn write_u32(&mut self, v: u32) {
        self.write_u64(v as u64)
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_usize(&mut self, v: usize) {
        self.write_u64(v as u64)
    }
}
pub type FxB = BuildHasherDefault<Fx>;
type FMap<K, V> = HashMap<K, V, FxB>;
type FSet<K> = HashSet<K, FxB>;

#[derive(Clone, Default)]
pub struct Obj {
    pub data: Vec<u8>,
    /// parallel to data when non-empty: expression id of a symbolic byte, 0 = concrete
    pub sym: Vec<Id>,
    pub nsym: u32,
}

#[derive(Clone)]
pub struct Frame {
    f: Rc<Func>,
    regs: Vec<Val>,
    blk: u32,
    ip: u32,
    dst: Option<u32>,
    normal: Option<u32>,
    allocas: Vec<u32>,
}

#[derive(Clone)]
pub struct Input {
    pub sym: Option<Id>,
    pub w: u16,
    pub v: u64,
    pub kind: u8, // 0 sym, 1 fork (concrete)
}

#[derive(Clone)]
pub struct State {
    stack: Vec<Rc<Frame>>,
    cur: Frame,
    heap: Vec<Option<Rc<Obj>>>,
    free: Vec<u32>,
    globals: Rc<FMap<u32, Rc<Obj>>>,
    cons: Vec<Id>,
    known: Rc<FSet<Id>>,
    fixed: Rc<FMap<Id, u128>>,
    dom: Rc<FMap<u32, [u64; 4]>>,
    multi: Rc<FSet<u32>>,
    model: Rc<Model>,
    pub inputs: Vec<Input>,
    pub obs: Vec<Bv>,
    exit_policy: u64,
    panic_policy: u64,
    eprints: u32,
    fmt: bool,
    /// 0: hash functions are constant, else: as they are, keyed with this byte
    hash: u8,
    steps: u64,
    forks: u32,
    fs: Rc<vfs::Fs>,
}

#[derive(Clone, Debug)]
pub enum End {
    Return,
    Panic(String),
    Exit(Option<u64>),
    Assume,
    /// path belongs to another shard
    Shard,
    Prop(String),
    Unsupported(String),
    Limit(String),
}

pub struct Report {
    pub kind: String,
    pub msg: String,
    pub inputs: Vec<u64>,
    pub obs: Vec<u64>,
    pub end: String,
}

#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub ends: BTreeMap<String, u64>,
    pub forks: u64,
    pub instrs: u64,
    pub branch_sym: u64,
    pub unary_decided: u64,
    pub model_hits: u64,
    pub cache_hits: u64,
    pub prop_evals: u64,
    pub prop_folded: u64,
    pub prop_unsat: u64,
    pub prop_sat: u64,
    pub prop_unknown: u64,
    pub max_path_steps: u64,
    pub max_cons: u64,
}

pub struct Cfg {
    pub timeout: f64,
    pub witnesses: usize,
    pub seed: u64,
    pub max_viol: usize,
    pub pure_z3: bool,
    pub max_steps: u64,
    pub dump_props: usize,
    pub solver_ms: u32,
    /// value of sym_tier() (0 quick, 1 thorough)
    pub tier: u64,
    /// explore only choices c of the first sym_fork with c % shard.1 == shard.0
    pub shard: (u64, u64),
    /// interpret formatting everywhere instead of skipping it outside sym_fmt(true)
    pub fmt: bool,
}

enum Stop {
    End(End),
}

type X<T> = Result<T, Stop>;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Hook {
    None,
    Panic,
    Exit,
    Eprint,
    FmtWrite,
    HashWrite,
    StdErr,
    Libc,
    Sym,
    Intr,
    Atomic1,
}

pub struct Exec<'m> {
    pub m: &'m Module,
    pub ctx: Ctx,
    pub z3: Z3,
    pub cfg: Cfg,
    pub st: Stats,
    work: Vec<State>,
    gcache: FMap<u32, Rc<Obj>>,
    qcache: FMap<Vec<Id>, (Sat, Rc<HashMap<u32, u128>>)>,
    symtab: FMap<(u32, u16), Id>,
    rangetab: FMap<(u32, u32, u32), Id>,
    hooks: HashMap<Rc<str>, Hook>,
    pub funcs_run: BTreeSet<Rc<str>>,
    pub covered: FSet<(usize, u32)>,
    pub cov_funcs: Vec<Rc<Func>>,
    cov_idx: FMap<usize, usize>,
    pub reach: BTreeMap<u64, u64>,
    pub viol: Vec<Report>,
    pub wit: Vec<Report>,
    pub incomplete: BTreeMap<String, u64>,
    pub dumps: Vec<(String, String)>,
    pub prop_msgs: BTreeMap<String, u64>,
    rng: u64,
    start: std::time::Instant,
}

const HEAP0: u64 = 16;

fn end<T>(e: End) -> X<T> {
    Err(Stop::End(e))
}
fn unsup<T>(s: impl Into<String>) -> X<T> {
    Err(Stop::End(End::Unsupported(s.into())))
}

impl<'m> Exec<'m> {
    pub fn new(m: &'m Module, cfg: Cfg) -> Self {
        let mut ctx = Ctx::new();
        ctx.id(Bv::C { w: 1, v: 0 }); // reserve id 0
        let ms = cfg.solver_ms;
        let rng = cfg.seed.wrapping_mul(0x9E3779B97F4A7C15) | 1;
        Exec {
            m,
            ctx,
            z3: Z3::new(ms),
            cfg,
            st: Stats::default(),
            work: vec![],
            gcache: Default::default(),
            qcache: Default::default(),
            symtab: Default::default(),
            rangetab: Default::default(),
            hooks: HashMap::new(),
            funcs_run: BTreeSet::new(),
            covered: Default::default(),
            cov_funcs: vec![],
            cov_idx: Default::default(),
            reach: BTreeMap::new(),
            viol: vec![],
            wit: vec![],
            incomplete: BTreeMap::new(),
            dumps: vec![],
            prop_msgs: BTreeMap::new(),
            rng,
            start: std::time::Instant::now(),
        }
    }

    fn rand(&mut self) -> u64 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        self.rng
    }

    // ------------------------------------------------------------------
    // feasibility
    fn vec_of(&mut self, i: Id) -> Option<Rc<[u64; 256]>> {
        self.ctx.table(i)
    }

    /// long sums (decimal numbers) go to the arithmetic solver, everything else is bit-blasted
    fn solve(&mut self, cs: &[Id], syms: &[u32], dump: Option<&mut String>) -> (Sat, HashMap<u32, u128>) {
        if !self.cfg.pure_z3 && syms.len() > 2 && cs.iter().any(|&c| self.ctx.has_mul[c as usize]) {
            if let Some(r) = self.z3.check_int(&self.ctx, cs, syms) {
                return r;
            }
        }
        self.z3.check(&self.ctx, cs, syms, dump)
    }

    fn unary_sym(&self, i: Id) -> Option<u32> {
        let d = &self.ctx.deps[i as usize];
        if d.len() == 1 && self.ctx.syms[d[0] as usize].w <= 8 {
            Some(d[0])
        } else {
            None
        }
    }

    fn slice(&self, s: &State, roots: &[u32]) -> (Vec<Id>, Vec<u32>) {
        let mut syms: BTreeSet<u32> = roots.iter().copied().collect();
        let mut used = vec![false; s.cons.len()];
        loop {
            let mut changed = false;
            for (k, &c) in s.cons.iter().enumerate() {
                if used[k] {
                    continue;
                }
                let d = &self.ctx.deps[c as usize];
                if d.iter().any(|x| syms.contains(x)) {
                    used[k] = true;
                    for &x in d.iter() {
                        if syms.insert(x) {
                            changed = true;
                        }
                    }
                }
            }
            if !changed {
                break;
            }
        }
        let mut cs: Vec<Id> = s.cons.iter().enumerate().filter(|(k, _)| used[*k]).map(|(_, &c)| c).collect();
        cs.sort_unstable();
        cs.dedup();
        (cs, syms.into_iter().collect())
    }

    /// model satisfying path ∧ cond, None if infeasible, Err(()) if the solver gave up
    fn feasible(&mut self, s: &State, cond: Bv) -> Result<Option<Rc<Model>>, ()> {
        let id = match cond {
            Bv::C { v, .. } => return Ok(if v != 0 { Some(s.model.clone()) } else { None }),
            Bv::S(i) => i,
        };
        if s.known.contains(&id) {
            return Ok(Some(s.model.clone()));
        }
        if s.model.eval(&self.ctx, cond) != 0 {
            self.st.model_hits += 1;
            return Ok(Some(s.model.clone()));
        }
        let neg = self.ctx.not1(cond);
        if let Bv::S(n) = neg {
            if s.known.contains(&n) {
                return Ok(None);
            }
        }
        if !self.cfg.pure_z3 {
            if let Some(sym) = self.unary_sym(id) {
                if !s.multi.contains(&sym) {
                    if let Some(v) = self.vec_of(id) {
                        self.st.unary_decided += 1;
                        let w = self.ctx.syms[sym as usize].w;
                        let lim = 1usize << w;
                        let d = s.dom.get(&sym).copied().unwrap_or([u64::MAX; 4]);
                        for x in 0..lim {
                            if v[x] != 0 && (d[x / 64] >> (x % 64)) & 1 == 1 {
                                let mut vals = s.model.vals.clone();
                                vals.insert(sym, x as u128);
                                return Ok(Some(Rc::new(Model::new(vals))));
                            }
                        }
                        return Ok(None);
                    }
                }
            }
        }
        let deps = self.ctx.deps[id as usize].clone();
        let (mut cs, syms) = self.slice(s, &deps);
        cs.push(id);
        let r = if let Some((r, v)) = self.qcache.get(&cs) {
            self.st.cache_hits += 1;
            (*r, v.clone())
        } else {
            let (r, v) = self.solve(&cs, &syms, None);
            let v = Rc::new(v);
            self.qcache.insert(cs, (r, v.clone()));
            (r, v)
        };
        match r.0 {
            Sat::Unsat => Ok(None),
            Sat::Unknown => Err(()),
            Sat::Sat => {
                let mut vals = s.model.vals.clone();
                for (k, x) in r.1.iter() {
                    vals.insert(*k, *x);
                }
                Ok(Some(Rc::new(Model::new(vals))))
            }
        }
    }

    fn note_unknown(&mut self) {
        *self.incomplete.entry("solver returned unknown".into()).or_default() += 1;
    }

    /// add a constraint known to be satisfied by s.model
    fn add(&mut self, s: &mut State, cond: Bv) {
        let id = match cond {
            Bv::C { .. } => return,
            Bv::S(i) => i,
        };
        if s.known.contains(&id) {
            return;
        }
        let n = self.ctx.nodes[id as usize];
        if n.op == Op::And && n.w == 1 {
            let (a, b) = (self.ctx.of(n.a), self.ctx.of(n.b));
            self.add(s, a);
            self.add(s, b);
            Rc::make_mut(&mut s.known).insert(id);
            return;
        }
        // not(or(a,b)) = not a and not b
        if let Some(x) = self.ctx.strip_not(cond) {
            if let Bv::S(xi) = x {
                let xn = self.ctx.nodes[xi as usize];
                if xn.op == Op::Or && xn.w == 1 {
                    let (a, b) = (self.ctx.of(xn.a), self.ctx.of(xn.b));
                    let (na, nb) = (self.ctx.not1(a), self.ctx.not1(b));
                    self.add(s, na);
                    self.add(s, nb);
                    Rc::make_mut(&mut s.known).insert(id);
                    return;
                }
            }
        }
        s.cons.push(id);
        Rc::make_mut(&mut s.known).insert(id);
        if n.op == Op::Eq {
            let nb = self.ctx.nodes[n.b as usize];
            if nb.op == Op::Const {
                Rc::make_mut(&mut s.fixed).insert(n.a, nb.k);
            }
        } else if n.w == 1 && (n.op == Op::Sym || n.op == Op::Extract) {
            Rc::make_mut(&mut s.fixed).insert(id, 1);
        }
        if let Some(x) = self.ctx.strip_not(cond) {
            if let Bv::S(xi) = x {
                let xn = self.ctx.nodes[xi as usize];
                if xn.op == Op::Sym || xn.op == Op::Extract {
                    Rc::make_mut(&mut s.fixed).insert(xi, 0);
                }
            }
        }
        let deps = self.ctx.deps[id as usize].clone();
        if deps.len() == 1 && self.ctx.syms[deps[0] as usize].w <= 8 {
            let sym = deps[0];
            if let Some(v) = self.vec_of(id) {
                let d = Rc::make_mut(&mut s.dom).entry(sym).or_insert([u64::MAX; 4]);
                for x in 0..256 {
                    if v[x] == 0 {
                        d[x / 64] &= !(1u64 << (x % 64));
                    }
                }
                let cnt: u32 = d.iter().map(|x| x.count_ones()).sum();
                if cnt == 1 {
                    let mut val = 0;
                    for x in 0..256u32 {
                        if (d[(x / 64) as usize] >> (x % 64)) & 1 == 1 {
                            val = x;
                        }
                    }
                    let w = self.ctx.syms[sym as usize].w;
                    if let Some(&sid) = self.symtab.get(&(sym, w)) {
                        Rc::make_mut(&mut s.fixed).insert(sid, val as u128);
                    }
                }
                return;
            }
        }
        if deps.iter().any(|x| !s.multi.contains(x)) {
            let m = Rc::make_mut(&mut s.multi);
            for &x in deps.iter() {
                m.insert(x);
            }
        }
    }

    /// Decide a branch condition. Returns the value taken by `s`; the other side, when
    /// feasible, is queued after applying `other`.
    fn branch(&mut self, s: &mut State, cond: Bv, other: &mut dyn FnMut(&mut Self, &mut State)) -> X<bool> {
        if let Bv::C { v, .. } = cond {
            return Ok(v != 0);
        }
        self.st.branch_sym += 1;
        let taken = s.model.eval(&self.ctx, cond) != 0;
        let neg = self.ctx.not1(cond);
        let (mine, theirs) = if taken { (cond, neg) } else { (neg, cond) };
        match self.feasible(s, theirs) {
            Ok(None) => {
                // implied: remember it so later queries are quick
                if let Bv::S(i) = mine {
                    Rc::make_mut(&mut s.known).insert(i);
                }
            }
            Ok(Some(m)) => {
                let mut o = s.clone();
                o.model = m;
                o.forks += 1;
                self.add(&mut o, theirs);
                other(self, &mut o);
                self.st.forks += 1;
                self.work.push(o);
                s.forks += 1;
                self.add(s, mine);
            }
            Err(()) => {
                self.note_unknown();
                self.add(s, mine);
            }
        }
        Ok(taken)
    }

    fn simp(&mut self, s: &State, b: Bv) -> Bv {
        if let Bv::S(i) = b {
            if !s.fixed.is_empty() {
                if let Some(&v) = s.fixed.get(&i) {
                    return Bv::C { w: self.ctx.nodes[i as usize].w, v };
                }
            }
        }
        b
    }

    /// Force a concrete value; the other values are explored by re-executing the
    /// current instruction in forked states.
    fn concrete(&mut self, s: &mut State, b: Bv) -> X<u128> {
        let b = self.simp(s, b);
        match b {
            Bv::C { v, .. } => Ok(v),
            Bv::S(_) => {
                let v = s.model.eval(&self.ctx, b);
                let w = self.ctx.width(b);
                let c = self.ctx.bin(Op::Eq, b, Bv::C { w, v });
                let t = self.branch(s, c, &mut |_, _| {})?;
                debug_assert!(t);
                if let Bv::S(i) = b {
                    Rc::make_mut(&mut s.fixed).insert(i, v);
                }
                Ok(v)
            }
        }
    }

    // ------------------------------------------------------------------
    // memory
    fn alloc(&mut self, s: &mut State, size: u64, fill: u8) -> X<u64> {
        if size > 64 << 20 {
            return end(End::Limit(format!("allocation of {} bytes", size)));
        }
        let o = Rc::new(Obj { data: vec![fill; size as usize], sym: vec![], nsym: 0 });
        let i = match s.free.pop() {
            Some(i) => {
                s.heap[i as usize] = Some(o);
                i
            }
            None => {
                s.heap.push(Some(o));
                (s.heap.len() - 1) as u32
            }
        };
        Ok((i as u64 + HEAP0) << 32)
    }

    fn release(&mut self, s: &mut State, addr: u64) {
        if addr == 0 {
            return;
        }
        let i = (addr >> 32).wrapping_sub(HEAP0) as usize;
        if i < s.heap.len() && addr & 0xffff_ffff == 0 && s.heap[i].is_some() {
            s.heap[i] = None;
            s.free.push(i as u32);
        }
    }

    /// (object key, base, size). key: heap index or global index | 1<<31
    fn find(&self, s: &State, addr: u64) -> Option<(u32, u64, u64)> {
        if addr >> 32 >= HEAP0 {
            let i = (addr >> 32) - HEAP0;
            if (i as usize) < s.heap.len() {
                if let Some(o) = &s.heap[i as usize] {
                    return Some((i as u32, (i + HEAP0) << 32, o.data.len() as u64));
                }
            }
            return None;
        }
        let k = self.m.gaddrs.partition_point(|&(a, _)| a <= addr);
        if k == 0 {
            return None;
        }
        let (a, g) = self.m.gaddrs[k - 1];
        let sz = self.m.globals[g as usize].size;
        if addr <= a + sz {
            return Some((g | 1 << 31, a, sz));
        }
        None
    }

    fn write_init(&mut self, o: &mut Obj, off: usize, t: &Ty, v: &Val) {
        match (t, v) {
            (Ty::Arr(_, e), Val::A(vs)) => {
                let es = e.alloc_size() as usize;
                for (i, x) in vs.iter().enumerate() {
                    self.write_init(o, off + i * es, e, x);
                }
            }
            (Ty::Vect(_, e), Val::A(vs)) => {
                let es = e.size() as usize;
                for (i, x) in vs.iter().enumerate() {
                    self.write_init(o, off + i * es, e, x);
                }
            }
            (Ty::Struct(f, _), Val::A(vs)) => {
                let (offs, _) = t.layout();
                for (i, x) in vs.iter().enumerate() {
                    self.write_init(o, off + offs[i] as usize, &f[i], x);
                }
            }
            (_, Val::B(Bv::C { w, v })) => {
                let n = (*w as usize + 7) / 8;
                for i in 0..n {
                    o.data[off + i] = (v >> (8 * i)) as u8;
                }
            }
            _ => {}
        }
    }

    fn obj(&mut self, s: &State, key: u32) -> X<Rc<Obj>> {
        if key >> 31 == 0 {
            return Ok(s.heap[key as usize].as_ref().unwrap().clone());
        }
        let g = key & 0x7fff_ffff;
        if let Some(o) = s.globals.get(&g) {
            return Ok(o.clone());
        }
        if let Some(o) = self.gcache.get(&g) {
            return Ok(o.clone());
        }
        let v = match self.m.global_init(g) {
            Ok(v) => v,
            Err(e) => return unsup(e),
        };
        let gl = &self.m.globals[g as usize];
        let mut o = Obj { data: vec![0; gl.size as usize], sym: vec![], nsym: 0 };
        let ty = gl.ty.clone();
        self.write_init(&mut o, 0, &ty, &v);
        let o = Rc::new(o);
        self.gcache.insert(g, o.clone());
        Ok(o)
    }

    fn obj_mut<'a>(&mut self, s: &'a mut State, key: u32) -> X<&'a mut Obj> {
        if key >> 31 == 0 {
            return Ok(Rc::make_mut(s.heap[key as usize].as_mut().unwrap()));
        }
        let g = key & 0x7fff_ffff;
        if self.m.globals[g as usize].constant {
            return unsup(format!("write to constant @{}", self.m.globals[g as usize].name));
        }
        if !s.globals.contains_key(&g) {
            let o = self.obj(s, key)?;
            Rc::make_mut(&mut s.globals).insert(g, o);
        }
        Ok(Rc::make_mut(Rc::make_mut(&mut s.globals).get_mut(&g).unwrap()))
    }

    fn load_bytes(&mut self, o: &Obj, off: usize, n: usize) -> Bv {
        if o.nsym == 0 || o.sym[off..off + n].iter().all(|&x| x == 0) {
            let mut v = 0u128;
            for i in (0..n).rev() {
                v = (v << 8) | o.data[off + i] as u128;
            }
            return Bv::C { w: (8 * n) as u16, v };
        }
        let mut acc = self.byte(o, off + n - 1);
        for i in (0..n - 1).rev() {
            let b = self.byte(o, off + i);
            acc = self.ctx.concat(acc, b);
        }
        acc
    }

    fn byte(&self, o: &Obj, off: usize) -> Bv {
        if o.nsym > 0 && o.sym[off] != 0 {
            self.ctx.of(o.sym[off])
        } else {
            Bv::C { w: 8, v: o.data[off] as u128 }
        }
    }

    fn set_byte(o: &mut Obj, off: usize, b: Bv) {
        match b {
            Bv::C { v, .. } => {
                o.data[off] = v as u8;
                if o.nsym > 0 && o.sym[off] != 0 {
                    o.sym[off] = 0;
                    o.nsym -= 1;
                    if o.nsym == 0 {
                        o.sym = vec![];
                    }
                }
            }
            Bv::S(i) => {
                if o.sym.is_empty() {
                    o.sym = vec![0; o.data.len()];
                }
                if o.sym[off] == 0 {
                    o.nsym += 1;
                }
                o.sym[off] = i;
            }
        }
    }

    fn load_int(&mut self, s: &mut State, ptr: Bv, n: usize) -> X<Bv> {
        let ptr = self.simp(s, ptr);
        match ptr {
            Bv::C { v, .. } => {
                let a = v as u64;
                match self.find(s, a) {
                    Some((k, base, size)) if a - base + n as u64 <= size => {
                        let o = self.obj(s, k)?;
                        let r = self.load_bytes(&o, (a - base) as usize, n);
                        Ok(r)
                    }
                    _ => unsup(format!("load of {} bytes at {:#x} in {}", n, a, s.cur.f.name)),
                }
            }
            Bv::S(_) => {
                let a0 = s.model.eval(&self.ctx, ptr) as u64;
                let (k, base, size) = match self.find(s, a0) {
                    Some(x) if a0 - x.1 + n as u64 <= x.2 => x,
                    _ => return unsup(format!("load of {} bytes at symbolic {:#x} in {}", n, a0, s.cur.f.name)),
                };
                let off = self.ctx.bin(Op::Sub, ptr, Bv::C { w: 64, v: base as u128 });
                let lim = size - n as u64; // max in-bounds offset
                let mut hi = self.ctx.umax(off);
                if hi > lim as u128 {
                    let inb = self.ctx.bin(Op::Ule, off, Bv::C { w: 64, v: lim as u128 });
                    let t = self.branch(s, inb, &mut |_, _| {})?;
                    debug_assert!(t);
                    hi = lim as u128;
                }
                // candidate offsets
                let cands: Vec<u64> = self.candidates(s, off, hi)?;
                if cands.len() > 2048 {
                    let v = self.concrete(s, ptr)?;
                    return self.load_int(s, Bv::C { w: 64, v }, n);
                }
                let o = self.obj(s, k)?;
                // group by value to keep the chain short
                let mut groups: Vec<(Bv, Vec<u64>)> = vec![];
                let mut idx: HashMap<(u64, u128), usize> = HashMap::new();
                for &c in &cands {
                    let v = self.load_bytes(&o, c as usize, n);
                    let key = match v {
                        Bv::C { v, .. } => (0, v),
                        Bv::S(i) => (1, i as u128),
                    };
                    match idx.get(&key) {
                        Some(&g) => groups[g].1.push(c),
                        None => {
                            idx.insert(key, groups.len());
                            groups.push((v, vec![c]));
                        }
                    }
                }
                // biggest group is the default
                groups.sort_by_key(|g| std::cmp::Reverse(g.1.len()));
                let mut acc = groups[0].0;
                for (v, offs) in groups[1..].iter() {
                    let mut c = Bv::C { w: 1, v: 0 };
                    // contiguous runs become range tests
                    let mut i = 0;
                    while i < offs.len() {
                        let mut j = i;
                        while j + 1 < offs.len() && offs[j + 1] == offs[j] + 1 {
                            j += 1;
                        }
                        let t = if j > i + 1 {
                            let d = self.ctx.bin(Op::Sub, off, Bv::C { w: 64, v: offs[i] as u128 });
                            self.ctx.bin(Op::Ule, d, Bv::C { w: 64, v: (offs[j] - offs[i]) as u128 })
                        } else {
                            let mut t = Bv::C { w: 1, v: 0 };
                            for q in i..=j {
                                let e = self.ctx.bin(Op::Eq, off, Bv::C { w: 64, v: offs[q] as u128 });
                                t = self.ctx.bin(Op::Or, t, e);
                            }
                            t
                        };
                        c = self.ctx.bin(Op::Or, c, t);
                        i = j + 1;
                    }
                    acc = self.ctx.ite(c, *v, acc);
                }
                Ok(acc)
            }
        }
    }

    fn candidates(&mut self, s: &State, off: Bv, hi: u128) -> X<Vec<u64>> {
        if let Bv::S(i) = off {
            if let Some(sym) = self.unary_sym(i) {
                if let Some(v) = self.vec_of(i) {
                    let d = s.dom.get(&sym).copied().unwrap_or([u64::MAX; 4]);
                    let mut set = BTreeSet::new();
                    for x in 0..1usize << self.ctx.syms[sym as usize].w {
                        if (d[x / 64] >> (x % 64)) & 1 == 1 && v[x] as u128 <= hi {
                            set.insert(v[x]);
                        }
                    }
                    return Ok(set.into_iter().collect());
                }
            }
        }
        let stride = 1u128 << self.ctx.tz(off).min(32);
        let n = hi / stride + 1;
        if n > 2048 {
            return Ok(vec![0; 4096]);
        }
        Ok((0..n).map(|k| (k * stride) as u64).collect())
    }

    fn store_int(&mut self, s: &mut State, ptr: Bv, v: Bv) -> X<()> {
        let a = self.concrete(s, ptr)? as u64;
        let w = self.ctx.width(v);
        let n = (w as usize + 7) / 8;
        let v = self.simp(s, v);
        match self.find(s, a) {
            Some((k, base, size)) if a - base + n as u64 <= size => {
                let off = (a - base) as usize;
                let mut parts = [Bv::C { w: 8, v: 0 }; 16];
                for i in 0..n {
                    let lo = (8 * i) as u16;
                    parts[i] = if lo + 8 <= w {
                        self.ctx.extract(v, lo, 8)
                    } else {
                        let e = self.ctx.extract(v, lo, w - lo);
                        self.ctx.zext(e, 8)
                    };
                }
                let o = self.obj_mut(s, k)?;
                for i in 0..n {
                    Self::set_byte(o, off + i, parts[i]);
                }
                Ok(())
            }
            _ => unsup(format!("store of {} bytes at {:#x} in {}", n, a, s.cur.f.name)),
        }
    }

    fn load(&mut self, s: &mut State, t: &Ty, ptr: Bv) -> X<Val> {
        match t {
            Ty::Int(w) => {
                let n = (*w as usize + 7) / 8;
                let v = self.load_int(s, ptr, n)?;
                Ok(Val::B(self.ctx.extract(v, 0, *w)))
            }
            Ty::Float(w) => Ok(Val::B(self.load_int(s, ptr, *w as usize / 8)?)),
            Ty::Ptr => Ok(Val::B(self.load_int(s, ptr, 8)?)),
            Ty::Struct(f, _) => {
                let (offs, _) = t.layout();
                let mut v = vec![];
                for (i, ft) in f.iter().enumerate() {
                    let p = self.ctx.bin(Op::Add, ptr, Bv::C { w: 64, v: offs[i] as u128 });
                    v.push(self.load(s, ft, p)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            Ty::Arr(n, e) | Ty::Vect(n, e) => {
                if let (Ty::Vect(..), Ty::Int(w)) = (t, &**e) {
                    if w % 8 != 0 {
                        // packed bits
                        let total = *n as u16 * *w;
                        let nb = (total as usize + 7) / 8;
                        let x = self.load_int(s, ptr, nb)?;
                        let mut v = vec![];
                        for i in 0..*n as u16 {
                            v.push(Val::B(self.ctx.extract(x, i * w, *w)));
                        }
                        return Ok(Val::A(Rc::new(v)));
                    }
                }
                let es = if let Ty::Vect(..) = t { e.size() } else { e.alloc_size() };
                let mut v = vec![];
                for i in 0..*n {
                    let p = self.ctx.bin(Op::Add, ptr, Bv::C { w: 64, v: (i * es) as u128 });
                    v.push(self.load(s, e, p)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            _ => unsup("load type"),
        }
    }

    fn store(&mut self, s: &mut State, t: &Ty, v: &Val, ptr: Bv) -> X<()> {
        match (t, v) {
            (_, Val::B(b)) => self.store_int(s, ptr, *b),
            (Ty::Struct(f, _), Val::A(vs)) => {
                let (offs, _) = t.layout();
                for (i, ft) in f.iter().enumerate() {
                    let p = self.ctx.bin(Op::Add, ptr, Bv::C { w: 64, v: offs[i] as u128 });
                    self.store(s, ft, &vs[i], p)?;
                }
                Ok(())
            }
            (Ty::Arr(_, e), Val::A(vs)) | (Ty::Vect(_, e), Val::A(vs)) => {
                if let (Ty::Vect(..), Ty::Int(w)) = (t, &**e) {
                    if w % 8 != 0 {
                        let b = self.pack(vs)?;
                        return self.store_int(s, ptr, b);
                    }
                }
                let es = if let Ty::Vect(..) = t { e.size() } else { e.alloc_size() };
                for (i, x) in vs.iter().enumerate() {
                    let p = self.ctx.bin(Op::Add, ptr, Bv::C { w: 64, v: (i as u64 * es) as u128 });
                    self.store(s, e, x, p)?;
                }
                Ok(())
            }
            (_, Val::Unset) => Ok(()),
            _ => unsup("store type"),
        }
    }

    fn pack(&mut self, vs: &[Val]) -> X<Bv> {
        let mut acc: Option<Bv> = None;
        for x in vs {
            let b = self.b(x)?;
            acc = Some(match acc {
                None => b,
                Some(a) => self.ctx.concat(b, a),
            });
        }
        Ok(acc.unwrap())
    }

    fn b(&self, v: &Val) -> X<Bv> {
        match v {
            Val::B(b) => Ok(*b),
            Val::Unset => unsup("unset register"),
            Val::A(_) => unsup("aggregate where scalar expected"),
        }
    }

    fn copy(&mut self, s: &mut State, d: u64, src: u64, n: usize) -> X<()> {
        if n == 0 {
            return Ok(());
        }
        let (k, base, size) = match self.find(s, src) {
            Some(x) if src - x.1 + n as u64 <= x.2 => x,
            _ => return unsup(format!("memcpy source {:#x}+{}", src, n)),
        };
        let o = self.obj(s, k)?;
        let so = (src - base) as usize;
        let _ = size;
        let (k2, base2, _) = match self.find(s, d) {
            Some(x) if d - x.1 + n as u64 <= x.2 => x,
            _ => return unsup(format!("memcpy dest {:#x}+{}", d, n)),
        };
        let bytes: Vec<u8> = o.data[so..so + n].to_vec();
        let syms: Vec<Id> = if o.nsym > 0 { o.sym[so..so + n].to_vec() } else { vec![] };
        drop(o);
        let dd = (d - base2) as usize;
        let o = self.obj_mut(s, k2)?;
        if o.nsym > 0 {
            for i in 0..n {
                if o.sym[dd + i] != 0 {
                    o.sym[dd + i] = 0;
                    o.nsym -= 1;
                }
            }
        }
        o.data[dd..dd + n].copy_from_slice(&bytes);
        if !syms.is_empty() && syms.iter().any(|&x| x != 0) {
            if o.sym.is_empty() {
                o.sym = vec![0; o.data.len()];
            }
            for i in 0..n {
                if syms[i] != 0 {
                    o.sym[dd + i] = syms[i];
                    o.nsym += 1;
                }
            }
        }
        if o.nsym == 0 {
            o.sym = vec![];
        }
        Ok(())
    }

    fn bytes_at(&mut self, s: &mut State, a: u64, n: usize) -> X<Vec<Bv>> {
        if n == 0 {
            return Ok(vec![]);
        }
        match self.find(s, a) {
            Some((k, base, size)) if a - base + n as u64 <= size => {
                let o = self.obj(s, k)?;
                let off = (a - base) as usize;
                Ok((0..n).map(|i| self.byte(&o, off + i)).collect())
            }
            _ => unsup(format!("read {:#x}+{}", a, n)),
        }
    }

    // ------------------------------------------------------------------
    fn val(&mut self, s: &State, o: &Opd) -> Val {
        match o {
            Opd::K(v) => v.clone(),
            Opd::Reg(r) => {
                let v = s.cur.regs[*r as usize].clone();
                if let Val::B(b @ Bv::S(_)) = v {
                    return Val::B(self.simp(s, b));
                }
                v
            }
        }
    }

    fn bv(&mut self, s: &State, o: &Opd) -> X<Bv> {
        match o {
            Opd::K(Val::B(b)) => Ok(*b),
            Opd::Reg(r) => match &s.cur.regs[*r as usize] {
                Val::B(b) => {
                    let b = *b;
                    Ok(self.simp(s, b))
                }
                Val::Unset => unsup("read of unset register"),
                _ => unsup("scalar operand expected"),
            },
            _ => unsup("scalar operand expected"),
        }
    }

    fn cover(&mut self, f: &Rc<Func>, blk: u32) {
        let p = Rc::as_ptr(f) as usize;
        let i = match self.cov_idx.get(&p) {
            Some(&i) => i,
            None => {
                let i = self.cov_funcs.len();
                self.cov_funcs.push(f.clone());
                self.cov_idx.insert(p, i);
                self.funcs_run.insert(f.name.clone());
                i
            }
        };
        self.covered.insert((i, blk));
    }

    fn jump(&mut self, s: &mut State, to: u32) -> X<()> {
        let from = s.cur.blk;
        let f = s.cur.f.clone();
        let b = &f.blocks[to as usize];
        if !b.phis.is_empty() {
            let mut vals = Vec::with_capacity(b.phis.len());
            for (d, inc) in &b.phis {
                let o = match inc.iter().find(|(l, _)| *l == from) {
                    Some((_, o)) => o,
                    None => return unsup("phi without incoming edge"),
                };
                let v = self.val(s, o);
                vals.push((*d, v));
            }
            for (d, v) in vals {
                s.cur.regs[d as usize] = v;
            }
        }
        s.cur.blk = to;
        s.cur.ip = 0;
        self.cover(&f, to);
        Ok(())
    }

    pub fn run(&mut self, entry: &str) -> Result<(), String> {
        let f = self.m.func(entry)?;
        let cur = Frame {
            regs: vec![Val::Unset; f.nregs as usize],
            f: f.clone(),
            blk: 0,
            ip: 0,
            dst: None,
            normal: None,
            allocas: vec![],
        };
        self.cover(&f, 0);
        let s = State {
            stack: vec![],
            cur,
            heap: vec![],
            free: vec![],
            globals: Default::default(),
            cons: vec![],
            known: Default::default(),
            fixed: Default::default(),
            dom: Default::default(),
            multi: Default::default(),
            model: Rc::new(Model::new(HashMap::new())),
            inputs: vec![],
            obs: vec![],
            exit_policy: 0,
            panic_policy: 0,
            eprints: 0,
            fmt: false,
            hash: 0,
            steps: 0,
            forks: 0,
            fs: Rc::new(vfs::Fs::new()),
        };
        self.work.push(s);
        while let Some(mut s) = self.work.pop() {
            let r = self.path(&mut s);
            self.finish(s, r);
            if self.start.elapsed().as_secs_f64() > self.cfg.timeout {
                if !self.work.is_empty() {
                    *self.incomplete.entry("time limit".into()).or_default() += self.work.len() as u64;
                }
                break;
            }
            if self.viol.len() >= self.cfg.max_viol {
                if !self.work.is_empty() {
                    *self.incomplete.entry("stopped at violation limit".into()).or_default() += 1;
                }
                break;
            }
        }
        Ok(())
    }

    fn path(&mut self, s: &mut State) -> End {
        loop {
            match self.step(s) {
                Ok(()) => {
                    if s.steps & 0xffff == 0 && self.start.elapsed().as_secs_f64() > self.cfg.timeout {
                        return End::Limit("time limit".into());
                    }
                    if s.steps > self.cfg.max_steps {
                        return End::Limit("step limit".into());
                    }
                }
                Err(Stop::End(e)) => {
                    if !self.left(s, &e) {
                        return e;
                    }
                }
            }
        }
    }

    fn input_vals(&self, s: &State, m: &Model) -> Vec<u64> {
        s.inputs
            .iter()
            .map(|i| match i.sym {
                None => i.v,
                Some(id) => m.eval(&self.ctx, Bv::S(id)) as u64,
            })
            .collect()
    }

    fn violation(&mut self, s: &State, m: &Model, kind: &str, msg: String) {
        // one report per distinct message, a few alternatives each
        let same = self.viol.iter().filter(|v| v.msg == msg).count();
        if same >= 4 {
            *self.incomplete.entry(format!("further counterexamples to: {}", msg)).or_default() += 1;
            return;
        }
        let r = Report {
            kind: kind.into(),
            msg,
            inputs: self.input_vals(s, m),
            obs: s.obs.iter().map(|o| m.eval(&self.ctx, *o) as u64).collect(),
            end: kind.into(),
        };
        self.viol.push(r);
    }

    fn finish(&mut self, s: State, e: End) {
        self.st.max_path_steps = self.st.max_path_steps.max(s.steps);
        self.st.max_cons = self.st.max_cons.max(s.cons.len() as u64);
        let m = s.model.clone();
        let name = match &e {
            End::Return => "return".to_string(),
            End::Panic(p) => format!("panic {}", p),
            End::Exit(c) => format!("exit {}", c.map(|x| x.to_string()).unwrap_or("?".into())),
            End::Assume => "assume-false".into(),
            End::Shard => "other-shard".into(),
            End::Prop(p) => format!("prop {}", p),
            End::Unsupported(u) => format!("unsupported {}", u),
            End::Limit(l) => format!("limit {}", l),
        };
        let simple = name.split(' ').next().unwrap().to_string();
        *self.st.ends.entry(simple).or_default() += 1;
        match &e {
            End::Assume | End::Shard => return,
            End::Unsupported(u) => {
                let mut tr = String::new();
                for f in s.stack.iter().rev().take(6) {
                    tr.push_str(" < ");
                    tr.push_str(&f.f.name);
                }
                *self.incomplete.entry(format!("unsupported: {} [in {}{}]", u, s.cur.f.name, tr)).or_default() += 1;
                return;
            }
            End::Limit(l) => {
                *self.incomplete.entry(l.clone()).or_default() += 1;
                return;
            }
            _ => {}
        }
        self.st.paths += 1;
        match &e {
            End::Panic(p) if s.panic_policy == 0 => self.violation(&s, &m, "panic", format!("panic: {}", p)),
            End::Exit(c) => {
                if s.exit_policy == 0 {
                    self.violation(&s, &m, "exit", "input rejected (process exit) where it must be accepted".into())
                } else if *c == Some(0) {
                    self.violation(&s, &m, "exit", "process exits with status 0 without producing output".into())
                } else if s.eprints == 0 {
                    self.violation(&s, &m, "exit", "process exits without any diagnostic".into())
                }
            }
            _ => {}
        }
        if let End::Prop(_) = e {
            return;
        }
        // witness sampling
        let want = self.cfg.witnesses;
        if want > 0 {
            let k = self.st.paths;
            let slot = if self.wit.len() < want {
                self.wit.push(Report { kind: String::new(), msg: String::new(), inputs: vec![], obs: vec![], end: String::new() });
                Some(self.wit.len() - 1)
            } else {
                let r = self.rand() % k;
                if (r as usize) < want {
                    Some(r as usize)
                } else {
                    None
                }
            };
            if let Some(i) = slot {
                let end = match &e {
                    End::Return => "return".into(),
                    End::Panic(p) => format!("panic {}", p),
                    End::Exit(c) => format!("exit {}", c.unwrap_or(999)),
                    _ => "?".into(),
                };
                self.wit[i] = Report {
                    kind: "witness".into(),
                    msg: String::new(),
                    inputs: self.input_vals(&s, &m),
                    obs: s.obs.iter().map(|o| m.eval(&self.ctx, *o) as u64).collect(),
                    end,
                };
            }
        }
    }

    fn binop(&mut self, s: &mut State, op: BinOp, a: &Val, b: &Val) -> X<Val> {
        match (a, b) {
            (Val::B(x), Val::B(y)) => {
                let (x, y) = (*x, *y);
                let o = match op {
                    BinOp::Add => Op::Add,
                    BinOp::Sub => Op::Sub,
                    BinOp::Mul => Op::Mul,
                    BinOp::UDiv => Op::UDiv,
                    BinOp::SDiv => Op::SDiv,
                    BinOp::URem => Op::URem,
                    BinOp::SRem => Op::SRem,
                    BinOp::And => Op::And,
                    BinOp::Or => Op::Or,
                    BinOp::Xor => Op::Xor,
                    BinOp::Shl => Op::Shl,
                    BinOp::LShr => Op::LShr,
                    BinOp::AShr => Op::AShr,
                };
                let _ = s;
                Ok(Val::B(self.ctx.bin(o, x, y)))
            }
            (Val::A(x), Val::A(y)) => {
                let mut v = vec![];
                for (p, q) in x.iter().zip(y.iter()) {
                    v.push(self.binop(s, op, p, q)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            _ => unsup("binop operands"),
        }
    }

    fn icmp(&mut self, p: Pred, a: &Val, b: &Val) -> X<Val> {
        match (a, b) {
            (Val::B(x), Val::B(y)) => {
                let (x, y) = (*x, *y);
                let c = &mut self.ctx;
                Ok(Val::B(match p {
                    Pred::Eq => c.bin(Op::Eq, x, y),
                    Pred::Ne => {
                        let e = c.bin(Op::Eq, x, y);
                        c.not1(e)
                    }
                    Pred::Ult => c.bin(Op::Ult, x, y),
                    Pred::Ule => c.bin(Op::Ule, x, y),
                    Pred::Ugt => c.bin(Op::Ult, y, x),
                    Pred::Uge => c.bin(Op::Ule, y, x),
                    Pred::Slt => c.bin(Op::Slt, x, y),
                    Pred::Sle => c.bin(Op::Sle, x, y),
                    Pred::Sgt => c.bin(Op::Slt, y, x),
                    Pred::Sge => c.bin(Op::Sle, y, x),
                }))
            }
            (Val::A(x), Val::A(y)) => {
                let mut v = vec![];
                for (i, j) in x.iter().zip(y.iter()) {
                    v.push(self.icmp(p, i, j)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            _ => unsup("icmp operands"),
        }
    }

    fn cast(&mut self, k: CastK, ft: &Ty, v: &Val, tt: &Ty) -> X<Val> {
        if let CastK::Bitcast = k {
            // flatten and rebuild
            let flat = match v {
                Val::B(b) => *b,
                Val::A(vs) => self.pack(vs)?,
                _ => return unsup("bitcast"),
            };
            let _ = ft;
            return match tt {
                Ty::Vect(n, e) => {
                    let w = match &**e {
                        Ty::Int(w) | Ty::Float(w) => *w,
                        _ => 64,
                    };
                    let mut out = vec![];
                    for i in 0..*n as u16 {
                        out.push(Val::B(self.ctx.extract(flat, i * w, w)));
                    }
                    Ok(Val::A(Rc::new(out)))
                }
                _ => Ok(Val::B(flat)),
            };
        }
        match (v, tt) {
            (Val::B(b), _) => {
                let w = match tt {
                    Ty::Int(w) => *w,
                    Ty::Ptr => 64,
                    _ => return unsup("cast type"),
                };
                let cw = self.ctx.width(*b);
                Ok(Val::B(match k {
                    CastK::Trunc => self.ctx.extract(*b, 0, w),
                    CastK::SExt => self.ctx.sext(*b, w),
                    _ => {
                        if w >= cw {
                            self.ctx.zext(*b, w)
                        } else {
                            self.ctx.extract(*b, 0, w)
                        }
                    }
                }))
            }
            (Val::A(vs), Ty::Vect(_, e)) => {
                let mut out = vec![];
                for x in vs.iter() {
                    out.push(self.cast(k, ft, x, e)?);
                }
                Ok(Val::A(Rc::new(out)))
            }
            _ => unsup("cast"),
        }
    }

    fn select(&mut self, s: &mut State, c: Bv, x: &Val, y: &Val) -> X<Val> {
        if x == y {
            return Ok(x.clone());
        }
        match (x, y) {
            (Val::B(a), Val::B(b)) => Ok(Val::B(self.ctx.ite(c, *a, *b))),
            (Val::A(a), Val::A(b)) => {
                let mut v = vec![];
                for (p, q) in a.iter().zip(b.iter()) {
                    v.push(self.select(s, c, p, q)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            (Val::Unset, o) | (o, Val::Unset) => Ok(o.clone()),
            _ => unsup("select"),
        }
    }

    fn set(s: &mut State, d: Option<u32>, v: Val) {
        if let Some(d) = d {
            s.cur.regs[d as usize] = v;
        }
    }

    fn is_ptr_like(&self, b: Bv) -> bool {
        // constant that lies in a known address range
        match b {
            Bv::C { w: 64, v } => v >= (HEAP0 as u128) << 32 && v < 1 << 56,
            _ => false,
        }
    }

    fn step(&mut self, s: &mut State) -> X<()> {
        s.steps += 1;
        self.st.instrs += 1;
        let f = s.cur.f.clone();
        let ins = &f.blocks[s.cur.blk as usize].ins[s.cur.ip as usize];
        match &ins.i {
            Inst::Bin(op, a, b) => {
                let x = self.val(s, a);
                let y = self.val(s, b);
                if matches!(op, BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem) {
                    if let Val::B(Bv::C { v: 0, .. }) = y {
                        return unsup("division by zero");
                    }
                }
                let v = self.binop(s, *op, &x, &y)?;
                Self::set(s, ins.dst, v);
            }
            Inst::ICmp(p, a, b) => {
                let x = self.val(s, a);
                let y = self.val(s, b);
                let v = self.icmp(*p, &x, &y)?;
                Self::set(s, ins.dst, v);
            }
            Inst::Load(t, p) => {
                let p = self.bv(s, p)?;
                let v = self.load(s, t, p)?;
                Self::set(s, ins.dst, v);
            }
            Inst::Store(t, v, p) => {
                let p = self.bv(s, p)?;
                // concretize the address before mutating anything
                let a = self.concrete(s, p)?;
                let v = self.val(s, v);
                self.store(s, t, &v, Bv::C { w: 64, v: a })?;
            }
            Inst::Gep(base, off, terms) => {
                let mut a = self.bv(s, base)?;
                if *off != 0 {
                    a = self.ctx.bin(Op::Add, a, Bv::C { w: 64, v: *off as u128 });
                }
                for (o, iw, sc) in terms {
                    let i = self.bv(s, o)?;
                    let i = if *iw < 64 { self.ctx.sext(i, 64) } else { i };
                    let t = if *sc == 1 { i } else { self.ctx.bin(Op::Mul, i, Bv::C { w: 64, v: *sc as u128 }) };
                    a = self.ctx.bin(Op::Add, a, t);
                }
                Self::set(s, ins.dst, Val::B(a));
            }
            Inst::Cast(k, ft, v, tt) => {
                let v = self.val(s, v);
                let v = self.cast(*k, ft, &v, tt)?;
                Self::set(s, ins.dst, v);
            }
            Inst::Select(c, a, b) => {
                let cv = self.val(s, c);
                let x = self.val(s, a);
                let y = self.val(s, b);
                match cv {
                    Val::B(Bv::C { v, .. }) => {
                        Self::set(s, ins.dst, if v != 0 { x } else { y });
                    }
                    Val::B(c) => {
                        // selecting between different objects: fork rather than build pointer ites
                        let ptrs = match (&x, &y) {
                            (Val::B(p), Val::B(q)) => self.is_ptr_like(*p) || self.is_ptr_like(*q),
                            _ => false,
                        };
                        let v = if ptrs && x != y {
                            if self.branch(s, c, &mut |_, _| {})? {
                                x
                            } else {
                                y
                            }
                        } else {
                            self.select(s, c, &x, &y)?
                        };
                        Self::set(s, ins.dst, v);
                    }
                    Val::A(cs) => {
                        let (xs, ys) = match (x, y) {
                            (Val::A(x), Val::A(y)) => (x, y),
                            _ => return unsup("vector select"),
                        };
                        let mut out = vec![];
                        for i in 0..cs.len() {
                            let c = self.b(&cs[i])?;
                            out.push(self.select(s, c, &xs[i], &ys[i])?);
                        }
                        Self::set(s, ins.dst, Val::A(Rc::new(out)));
                    }
                    _ => return unsup("select cond"),
                }
            }
            Inst::Copy(v) => {
                let v = self.val(s, v);
                Self::set(s, ins.dst, v);
            }
            Inst::Extract(a, ix) => {
                let mut v = self.val(s, a);
                for i in ix {
                    v = match v {
                        Val::A(x) => x[*i as usize].clone(),
                        _ => return unsup("extractvalue"),
                    };
                }
                Self::set(s, ins.dst, v);
            }
            Inst::Insert(a, e, ix) => {
                let v = self.val(s, a);
                let e = self.val(s, e);
                fn ins_at(v: Val, e: Val, ix: &[u32]) -> Option<Val> {
                    if ix.is_empty() {
                        return Some(e);
                    }
                    match v {
                        Val::A(mut x) => {
                            let m = Rc::make_mut(&mut x);
                            let old = m[ix[0] as usize].clone();
                            m[ix[0] as usize] = ins_at(old, e, &ix[1..])?;
                            Some(Val::A(x))
                        }
                        _ => None,
                    }
                }
                match ins_at(v, e, ix) {
                    Some(v) => Self::set(s, ins.dst, v),
                    None => return unsup("insertvalue"),
                }
            }
            Inst::ExtractElem(a, i) => {
                let v = self.val(s, a);
                let i = self.bv(s, i)?;
                let i = self.concrete(s, i)? as usize;
                match v {
                    Val::A(x) if i < x.len() => Self::set(s, ins.dst, x[i].clone()),
                    _ => return unsup("extractelement"),
                }
            }
            Inst::InsertElem(a, e, i) => {
                let v = self.val(s, a);
                let e = self.val(s, e);
                let i = self.bv(s, i)?;
                let i = self.concrete(s, i)? as usize;
                match v {
                    Val::A(mut x) if i < x.len() => {
                        Rc::make_mut(&mut x)[i] = e;
                        Self::set(s, ins.dst, Val::A(x));
                    }
                    _ => return unsup("insertelement"),
                }
            }
            Inst::Shuffle(a, b, m) => {
                let x = self.val(s, a);
                let y = self.val(s, b);
                match (x, y) {
                    (Val::A(x), Val::A(y)) => {
                        let out = m
                            .iter()
                            .map(|&k| {
                                let k = k as usize;
                                if k < x.len() {
                                    x[k].clone()
                                } else if k - x.len() < y.len() {
                                    y[k - x.len()].clone()
                                } else {
                                    Val::Unset
                                }
                            })
                            .collect();
                        Self::set(s, ins.dst, Val::A(Rc::new(out)));
                    }
                    _ => return unsup("shufflevector"),
                }
            }
            Inst::Alloca(sz, n) => {
                let n = self.bv(s, n)?;
                let n = self.concrete(s, n)? as u64;
                let a = self.alloc(s, sz * n, 0xAA)?;
                s.cur.allocas.push(((a >> 32) - HEAP0) as u32);
                Self::set(s, ins.dst, Val::B(Bv::C { w: 64, v: a as u128 }));
            }
            Inst::AtomicRmw(k, t, p, v) => {
                let p = self.bv(s, p)?;
                let p = Bv::C { w: 64, v: self.concrete(s, p)? };
                let v = self.bv(s, v)?;
                let old = self.load(s, t, p)?;
                let o = self.b(&old)?;
                let n = match &**k {
                    "add" => self.ctx.bin(Op::Add, o, v),
                    "sub" => self.ctx.bin(Op::Sub, o, v),
                    "and" => self.ctx.bin(Op::And, o, v),
                    "or" => self.ctx.bin(Op::Or, o, v),
                    "xor" => self.ctx.bin(Op::Xor, o, v),
                    "xchg" => v,
                    _ => return unsup("atomicrmw"),
                };
                self.store_int(s, p, n)?;
                Self::set(s, ins.dst, old);
            }
            Inst::CmpXchg(t, p, e, n) => {
                let p = self.bv(s, p)?;
                let p = Bv::C { w: 64, v: self.concrete(s, p)? };
                let e = self.bv(s, e)?;
                let n = self.bv(s, n)?;
                let old = self.load(s, t, p)?;
                let o = self.b(&old)?;
                let c = self.ctx.bin(Op::Eq, o, e);
                let v = self.ctx.ite(c, n, o);
                self.store_int(s, p, v)?;
                Self::set(s, ins.dst, Val::A(Rc::new(vec![old, Val::B(c)])));
            }
            Inst::Br(t) => {
                return self.jump(s, *t);
            }
            Inst::CondBr(c, t, e) => {
                let c = self.bv(s, c)?;
                let tk = self.branch(s, c, &mut |_, _| {})?;
                return self.jump(s, if tk { *t } else { *e });
            }
            Inst::Switch(v, d, cases) => {
                let v = self.bv(s, v)?;
                if let Bv::C { v, .. } = v {
                    let to = cases.iter().find(|(k, _)| *k == v).map(|(_, l)| *l).unwrap_or(*d);
                    return self.jump(s, to);
                }
                let w = self.ctx.width(v);
                // group cases by destination
                let mut dests: Vec<(u32, Bv)> = vec![];
                let mut any = Bv::C { w: 1, v: 0 };
                for (k, l) in cases {
                    let e = self.ctx.bin(Op::Eq, v, Bv::C { w, v: *k });
                    any = self.ctx.bin(Op::Or, any, e);
                    if let Some(x) = dests.iter_mut().find(|x| x.0 == *l) {
                        x.1 = self.ctx.bin(Op::Or, x.1, e);
                    } else {
                        dests.push((*l, e));
                    }
                }
                let none = self.ctx.not1(any);
                if let Some(x) = dests.iter_mut().find(|x| x.0 == *d) {
                    x.1 = self.ctx.bin(Op::Or, x.1, none);
                } else {
                    dests.push((*d, none));
                }
                self.st.branch_sym += 1;
                let mut mine = None;
                let mut forked = false;
                for (l, c) in &dests {
                    if mine.is_none() && s.model.eval(&self.ctx, *c) != 0 {
                        mine = Some((*l, *c));
                        continue;
                    }
                    match self.feasible(s, *c) {
                        Ok(None) => {}
                        Ok(Some(m)) => {
                            let mut o = s.clone();
                            o.model = m;
                            o.forks += 1;
                            self.add(&mut o, *c);
                            self.jump(&mut o, *l)?;
                            self.st.forks += 1;
                            self.work.push(o);
                            forked = true;
                        }
                        Err(()) => self.note_unknown(),
                    }
                }
                let (l, c) = match mine {
                    Some(x) => x,
                    None => return unsup("switch without feasible destination"),
                };
                if forked {
                    s.forks += 1;
                    self.add(s, c);
                } else if let Bv::S(i) = c {
                    Rc::make_mut(&mut s.known).insert(i);
                }
                return self.jump(s, l);
            }
            Inst::Ret(v) => {
                let v = match v {
                    Some(o) => Some(self.val(s, o)),
                    None => None,
                };
                let al = std::mem::take(&mut s.cur.allocas);
                for a in al {
                    s.heap[a as usize] = None;
                    s.free.push(a);
                }
                let (dst, normal) = (s.cur.dst, s.cur.normal);
                match s.stack.pop() {
                    None => return end(End::Return),
                    Some(fr) => {
                        s.cur = Rc::try_unwrap(fr).unwrap_or_else(|r| (*r).clone());
                        if let (Some(d), Some(v)) = (dst, v) {
                            s.cur.regs[d as usize] = v;
                        }
                        if let Some(l) = normal {
                            return self.jump(s, l);
                        }
                        s.cur.ip += 1;
                        return Ok(());
                    }
                }
            }
            Inst::Call { callee, args, ret, byval } => {
                if *byval {
                    return unsup("byval argument");
                }
                let name: Rc<str> = match callee {
                    Callee::Direct(n) => n.clone(),
                    Callee::Indirect(o) => {
                        let p = self.bv(s, o)?;
                        let a = self.concrete(s, p)? as u64;
                        match self.m.addrf.get(&a) {
                            Some(n) => n.clone(),
                            None => return unsup(format!("indirect call to {:#x}", a)),
                        }
                    }
                };
                return self.call(s, &name, args, ret, ins.dst, ins.normal);
            }
            Inst::Unreachable => return unsup(format!("unreachable in {}", f.name)),
            Inst::Nop => {}
            Inst::Unsupported(m) => return unsup(format!("{}", m)),
        }
        s.cur.ip += 1;
        Ok(())
    }

    fn hook_of(&mut self, name: &Rc<str>) -> Hook {
        if let Some(h) = self.hooks.get(name) {
            return *h;
        }
        let n: &str = name;
        let h = if n.starts_with("llvm.") {
            Hook::Intr
        } else if n.starts_with("sym_") {
            Hook::Sym
        } else if n.contains("stdio7__eprint") || n.contains("stdio6__print") || n.contains("stdio7_eprint") || n.contains("stdio6_print") {
            Hook::Eprint
        } else if (n.contains("4core9panicking")
            || n.contains("3std9panicking")
            || n.contains("rust_begin_unwind")
            || n.contains("6option13unwrap_failed")
            || n.contains("6option13expect_failed")
            || n.contains("6result13unwrap_failed")
            || n.contains("raw_vec12handle_error")
            || n.contains("raw_vec17capacity_overflow")
            || n.contains("5alloc18handle_alloc_error"))
            && !n.contains("11panic_count")
            && !n.contains("panicking15catch_unwind")
            && !n.contains("9panicking9panicking")
        {
            Hook::Panic
        } else if n.contains("3std7process4exit") || n == "exit" || n == "_exit" || n.contains("7process5abort") || n == "abort" {
            Hook::Exit
        } else if n.contains("4core3fmt5write") && n.len() < 40 {
            Hook::FmtWrite
        } else if n.contains("4hash3sip") && n.contains("6Hasher") && (n.contains("6Hasher5write") || n.contains("6Hasher9write_str")) {
            Hook::HashWrite
        } else if (n.contains("5stdio6Stderr") || n.contains("5stdio10StderrLock")) && (n.contains("9write_fmt") || n.contains("9write_all")) {
            Hook::StdErr
        } else if self.m.funcs.contains_key(name) {
            Hook::None
        } else {
            Hook::Libc
        };
        let _ = Hook::Atomic1;
        self.hooks.insert(name.clone(), h);
        h
    }

    fn done(&mut self, s: &mut State, dst: Option<u32>, normal: Option<u32>, v: Option<Val>) -> X<()> {
        if let (Some(d), Some(v)) = (dst, v) {
            s.cur.regs[d as usize] = v;
        }
        if let Some(l) = normal {
            return self.jump(s, l);
        }
        s.cur.ip += 1;
        Ok(())
    }

    fn location(&mut self, s: &mut State, args: &[Opd]) -> String {
        for o in args.iter().rev() {
            let a = match self.val(s, o) {
                Val::B(Bv::C { w: 64, v }) => v as u64,
                _ => continue,
            };
            if a >> 32 != 0 {
                continue;
            }
            if let Some((k, base, size)) = self.find(s, a) {
                if k >> 31 == 1 && size == 24 && a == base {
                    if let Ok(o) = self.obj(s, k) {
                        let rd = |i: usize, n: usize| -> u64 {
                            let mut v = 0;
                            for j in (0..n).rev() {
                                v = v << 8 | o.data[i + j] as u64;
                            }
                            v
                        };
                        let (p, l, line, col) = (rd(0, 8), rd(8, 8), rd(16, 4), rd(20, 4));
                        if l > 0 && l < 4096 {
                            if let Ok(b) = self.bytes_at(s, p, l.min(400) as usize) {
                                let mut t: Vec<u8> = b
                                    .iter()
                                    .map(|x| match x {
                                        Bv::C { v, .. } => *v as u8,
                                        _ => b'?',
                                    })
                                    .collect();
                                while t.last() == Some(&0) {
                                    t.pop();
                                }
                                if let Ok(t) = String::from_utf8(t) {
                                    return format!(" at {}:{}:{}", t, line, col);
                                }
                            }
                        }
                    }
                }
            }
        }
        String::new()
    }

    fn call(&mut self, s: &mut State, name: &Rc<str>, args: &[Opd], ret: &Ty, dst: Option<u32>, normal: Option<u32>) -> X<()> {
        let mut h = self.hook_of(name);
        if h == Hook::FmtWrite {
            if s.fmt || self.cfg.fmt {
                h = Hook::None;
            } else {
                // skipped; only that something went to stderr is remembered
                if args.len() > 1 {
                    let vt = self.bv(s, &args[1])?;
                    let at = self.ctx.bin(Op::Add, vt, Bv::C { w: 64, v: 24 });
                    if let Ok(Bv::C { v, .. }) = self.load_int(s, at, 8) {
                        if self.m.addrf.get(&(v as u64)).map_or(false, |n| n.contains("5stdio6Stderr") || n.contains("5stdio10StderrLock") || n.contains("9StderrRaw")) {
                            s.eprints += 1;
                        }
                    }
                }
                return self.done(s, dst, normal, Some(Val::B(Bv::C { w: 1, v: 0 })));
            }
        }
        // a copy specialised by the compiler lacks some arguments: run it as it is
        let few = h == Hook::StdErr && args.len() < 3 || h == Hook::Eprint && args.len() < 2 && name.contains("eprint");
        if h == Hook::HashWrite && s.hash != 0 && self.m.funcs.contains_key(name) {
            h = Hook::None;
        }
        if few && s.fs.heard() && self.m.funcs.contains_key(name) {
            h = Hook::None;
        }
        match h {
            Hook::None => {
                let f = match self.m.func(name) {
                    Ok(f) => f,
                    Err(e) => return unsup(e),
                };
                if s.stack.len() > 400 {
                    return end(End::Limit("call depth".into()));
                }
                let mut regs = vec![Val::Unset; f.nregs as usize];
                if f.varargs {
                    return unsup("varargs function");
                }
                for (i, p) in f.params.iter().enumerate() {
                    regs[*p as usize] = self.val(s, &args[i]);
                }
                let fr = Frame { f: f.clone(), regs, blk: 0, ip: 0, dst, normal, allocas: vec![] };
                let old = std::mem::replace(&mut s.cur, fr);
                s.stack.push(Rc::new(old));
                self.cover(&f, 0);
                Ok(())
            }
            Hook::Panic => {
                let loc = self.location(s, args);
                let mut short = name.to_string();
                for p in ["panic_const_", "panic_bounds_check", "unwrap_failed", "expect_failed", "slice_index_fail"] {
                    if let Some(k) = name.find(p) {
                        short = name[k..].chars().take(40).collect();
                        break;
                    }
                }
                if short.len() > 60 {
                    short = short.chars().rev().take(40).collect::<String>().chars().rev().collect();
                }
                end(End::Panic(format!("{}{}", short, loc)))
            }
            Hook::Exit => {
                let c = if args.is_empty() {
                    Some(134)
                } else {
                    let b = self.bv(s, &args[0])?;
                    Some(self.concrete(s, b)? as u64 & 0xff)
                };
                end(End::Exit(c))
            }
            Hook::Eprint => {
                s.eprints += name.contains("eprint") as u32;
                if name.contains("eprint") && self.capture(s, args, 0, dst, normal)? {
                    return Ok(());
                }
                self.done(s, dst, normal, None)
            }
            // any function of the key is a hash: one that reads nothing of it keeps tables free
            // of symbolic positions. Hooked where bytes enter the hasher, so that every way of
            // computing a hash, inlined or not, comes to the same value
            Hook::HashWrite => self.done(s, dst, normal, None),
            Hook::StdErr => {
                s.eprints += 1;
                if name.contains("9write_fmt") {
                    if self.capture(s, args, 1, dst, normal)? {
                        return Ok(());
                    }
                } else if args.len() >= 3 {
                    self.err_bytes(s, args)?;
                }
                self.done(s, dst, normal, Some(Val::B(Bv::C { w: 64, v: 0 })))
            }
            Hook::Sym => self.symcall(s, name, args, dst, normal),
            Hook::Intr => self.intrinsic(s, name, args, ret, dst, normal),
            Hook::Libc => self.libc(s, name, args, dst, normal),
            _ => unreachable!(),
        }
    }

    fn cstr(&mut self, s: &mut State, p: u64, n: u64) -> String {
        match self.bytes_at(s, p, n as usize) {
            Ok(b) => {
                let v: Vec<u8> = b
                    .iter()
                    .map(|x| match x {
                        Bv::C { v, .. } => *v as u8,
                        _ => b'?',
                    })
                    .collect();
                String::from_utf8_lossy(&v).to_string()
            }
            Err(_) => "?".into(),
        }
    }

    fn fresh_sym(&mut self, s: &mut State, w: u16) -> Bv {
        let idx = s.inputs.len() as u32;
        let key = (idx, w);
        // one symbol per (call index, width); key is remapped to the symbol number below
        let id = match self.symtab.get(&(idx | 1 << 31, w)) {
            Some(&i) => i,
            None => {
                let b = self.ctx.new_sym(format!("in{}_{}", key.0, w), w);
                let i = self.ctx.id(b);
                self.symtab.insert((idx | 1 << 31, w), i);
                let sn = self.ctx.nodes[i as usize].k as u32;
                self.symtab.insert((sn, w), i);
                i
            }
        };
        s.inputs.push(Input { sym: Some(id), w, v: 0, kind: 0 });
        Bv::S(id)
    }

    /// any byte in lo..=hi, known to be so from the start
    fn byte_in(&mut self, s: &mut State, lo: u128, hi: u128) -> Bv {
        let idx = s.inputs.len() as u32;
        let (key, ckey) = ((idx, 0x100 | lo as u32, hi as u32), (idx, 0x200 | lo as u32, hi as u32));
        let (id, con) = match (self.rangetab.get(&key), self.rangetab.get(&ckey)) {
            (Some(&i), Some(&c)) => (i, c),
            _ => {
                let b = self.ctx.new_sym(format!("in{}_{}_{}", idx, lo, hi), 8);
                let i = self.ctx.id(b);
                let sn = self.ctx.nodes[i as usize].k as u32;
                self.symtab.insert((sn, 8), i);
                // the constraint is built before the bounds are declared, so it is not folded away
                let d = self.ctx.bin(Op::Sub, b, Bv::C { w: 8, v: lo });
                let c = self.ctx.bin(Op::Ule, d, Bv::C { w: 8, v: hi - lo });
                let c = self.ctx.id(c);
                self.ctx.bound_sym(i, lo, hi);
                if lo > 0 {
                    if let Bv::S(di) = d {
                        self.ctx.set_range(di, 0, hi - lo);
                    }
                }
                self.rangetab.insert(key, i);
                self.rangetab.insert(ckey, c);
                (i, c)
            }
        };
        s.inputs.push(Input { sym: Some(id), w: 8, v: 0, kind: 0 });
        if lo > 0 || hi < 255 {
            let sn = self.ctx.nodes[id as usize].k as u32;
            let mut vals = s.model.vals.clone();
            vals.insert(sn, lo);
            s.model = Rc::new(Model::new(vals));
            self.add(s, Bv::S(con));
        }
        Bv::S(id)
    }

    fn symcall(&mut self, s: &mut State, name: &str, args: &[Opd], dst: Option<u32>, normal: Option<u32>) -> X<()> {
        let mut a = vec![];
        for o in args {
            a.push(self.bv(s, o)?);
        }
        let ret = match name {
            "sym_u8" => Some(self.fresh_sym(s, 8)),
            "sym_in" => {
                let (lo, hi) = (self.concrete(s, a[0])? & 0xff, self.concrete(s, a[1])? & 0xff);
                let b = self.byte_in(s, lo, hi);
                Some(b)
            }
            "sym_u16" => Some(self.fresh_sym(s, 16)),
            "sym_u32" => Some(self.fresh_sym(s, 32)),
            "sym_u64" => Some(self.fresh_sym(s, 64)),
            "sym_fork" => {
                // concrete value in 0..n, one forked state per value
                let n = self.concrete(s, a[0])? as u64;
                let (si, sn) = self.cfg.shard;
                let first = sn > 1 && !s.inputs.iter().any(|i| i.kind == 1);
                let keep: Vec<u64> = (0..n).filter(|v| !first || v % sn == si).collect();
                let Some(&v0) = keep.first() else { return end(End::Shard) };
                for &v in keep[1..].iter().rev() {
                    let mut o = s.clone();
                    o.inputs.push(Input { sym: None, w: 64, v, kind: 1 });
                    o.forks += 1;
                    self.done(&mut o, dst, normal, Some(Val::B(Bv::C { w: 64, v: v as u128 })))?;
                    self.st.forks += 1;
                    self.work.push(o);
                }
                s.inputs.push(Input { sym: None, w: 64, v: v0, kind: 1 });
                Some(Bv::C { w: 64, v: v0 as u128 })
            }
            "sym_tier" => Some(Bv::C { w: 64, v: self.cfg.tier as u128 }),
            "sym_concretize" => Some(Bv::C { w: 64, v: self.concrete(s, a[0])? }),
            "sym_assume" => {
                let c = self.ctx.extract(a[0], 0, 1);
                match self.feasible(s, c) {
                    Ok(Some(m)) => {
                        s.model = m;
                        self.add(s, c);
                        None
                    }
                    Ok(None) => return end(End::Assume),
                    Err(()) => return end(End::Limit("solver returned unknown".into())),
                }
            }
            "sym_prop" => {
                let c = self.ctx.extract(a[0], 0, 1);
                let p = self.concrete(s, a[1])? as u64;
                let n = self.concrete(s, a[2])? as u64;
                let msg = self.cstr(s, p, n);
                self.prop(s, c, msg)?;
                None
            }
            "sym_reach" => {
                let id = self.concrete(s, a[0])? as u64;
                *self.reach.entry(id).or_default() += 1;
                None
            }
            "sym_obs" => {
                s.obs.push(a[0]);
                None
            }
            "sym_fmt" => {
                s.fmt = self.concrete(s, a[0])? != 0;
                None
            }
            "sym_hash" => {
                s.hash = self.concrete(s, a[0])? as u8;
                None
            }
            "sym_exit_policy" => {
                s.exit_policy = self.concrete(s, a[0])? as u64;
                None
            }
            "sym_panic_policy" => {
                s.panic_policy = self.concrete(s, a[0])? as u64;
                None
            }
            "sym_trace" => {
                let v = s.model.eval(&self.ctx, a[0]);
                eprintln!("TRACE {:#x} ({:?}) steps={} cons={}", v, a[0], s.steps, s.cons.len());
                None
            }
            _ => match self.sym_fs(s, name, &a, dst, normal)? {
                Some(r) => return self.done(s, dst, normal, r),
                None => return Ok(()),
            },
        };
        let v = ret.map(|b| {
            // harness functions returning narrower ints already have the right width
            Val::B(b)
        });
        self.done(s, dst, normal, v)
    }

    fn prop(&mut self, s: &mut State, c: Bv, msg: String) -> X<()> {
        self.st.prop_evals += 1;
        *self.prop_msgs.entry(msg.clone()).or_default() += 1;
        match c {
            Bv::C { v: 1, .. } => {
                self.st.prop_folded += 1;
                return Ok(());
            }
            Bv::C { .. } => {
                self.st.prop_sat += 1;
                let m = s.model.clone();
                self.violation(s, &m, "prop", msg.clone());
                return end(End::Prop(msg));
            }
            _ => {}
        }
        let neg = self.ctx.not1(c);
        let id = self.ctx.id(neg);
        let deps = self.ctx.deps[id as usize].clone();
        let (mut cs, syms) = self.slice(s, &deps);
        cs.push(id);
        let cached = self.qcache.get(&cs).cloned();
        let (r, vals) = match cached {
            Some(x) => {
                self.st.cache_hits += 1;
                x
            }
            None => {
                let mut d = String::new();
                let want = self.dumps.len() < self.cfg.dump_props;
                let (r, v) = self.solve(&cs, &syms, if want { Some(&mut d) } else { None });
                if want {
                    self.dumps.push((format!("{:?}", r), d));
                }
                let v = Rc::new(v);
                self.qcache.insert(cs, (r, v.clone()));
                (r, v)
            }
        };
        match r {
            Sat::Unsat => {
                self.st.prop_unsat += 1;
                if let Bv::S(i) = c {
                    Rc::make_mut(&mut s.known).insert(i);
                }
                Ok(())
            }
            Sat::Unknown => {
                self.st.prop_unknown += 1;
                self.note_unknown();
                Ok(())
            }
            Sat::Sat => {
                self.st.prop_sat += 1;
                let mut mv = s.model.vals.clone();
                for (k, x) in vals.iter() {
                    mv.insert(*k, *x);
                }
                let m = Model::new(mv);
                self.violation(s, &m, "prop", msg.clone());
                // continue on the side where it holds, if any
                match self.feasible(s, c) {
                    Ok(Some(m)) => {
                        s.model = m;
                        self.add(s, c);
                        Ok(())
                    }
                    _ => end(End::Prop(msg)),
                }
            }
        }
    }

    fn libc(&mut self, s: &mut State, name: &str, args: &[Opd], dst: Option<u32>, normal: Option<u32>) -> X<()> {
        let mut a = vec![];
        for o in args {
            a.push(self.bv(s, o)?);
        }
        let c64 = |v: u64| Val::B(Bv::C { w: 64, v: v as u128 });
        let ret: Option<Val> = match name {
            "malloc" => {
                let n = self.concrete(s, a[0])? as u64;
                Some(c64(self.alloc(s, n, 0xAA)?))
            }
            "calloc" => {
                let n = self.concrete(s, a[0])? as u64;
                let k = self.concrete(s, a[1])? as u64;
                Some(c64(self.alloc(s, n * k, 0)?))
            }
            "posix_memalign" => {
                let p = self.concrete(s, a[0])?;
                let n = self.concrete(s, a[2])? as u64;
                let m = self.alloc(s, n, 0xAA)?;
                self.store_int(s, Bv::C { w: 64, v: p }, Bv::C { w: 64, v: m as u128 })?;
                Some(Val::B(Bv::C { w: 32, v: 0 }))
            }
            "realloc" => {
                let p = self.concrete(s, a[0])? as u64;
                let n = self.concrete(s, a[1])? as u64;
                let old = match self.find(s, p) {
                    Some((_, _, sz)) => sz,
                    None => 0,
                };
                let m = self.alloc(s, n, 0xAA)?;
                self.copy(s, m, p, old.min(n) as usize)?;
                self.release(s, p);
                Some(c64(m))
            }
            "free" => {
                let p = self.concrete(s, a[0])? as u64;
                self.release(s, p);
                None
            }
            "bcmp" | "memcmp" => {
                let n = self.concrete(s, a[2])? as usize;
                let p = self.concrete(s, a[0])? as u64;
                let q = self.concrete(s, a[1])? as u64;
                let x = self.bytes_at(s, p, n)?;
                let y = self.bytes_at(s, q, n)?;
                let r = if name == "bcmp" {
                    let mut eq = Bv::C { w: 1, v: 1 };
                    for i in 0..n {
                        let (u, v) = (self.simp(s, x[i]), self.simp(s, y[i]));
                        let e = self.ctx.bin(Op::Eq, u, v);
                        eq = self.ctx.bin(Op::And, eq, e);
                        if let Bv::C { v: 0, .. } = eq {
                            break;
                        }
                    }
                    self.ctx.ite(eq, Bv::C { w: 32, v: 0 }, Bv::C { w: 32, v: 1 })
                } else {
                    let mut r = Bv::C { w: 32, v: 0 };
                    for i in (0..n).rev() {
                        let (u, v) = (self.simp(s, x[i]), self.simp(s, y[i]));
                        let e = self.ctx.bin(Op::Eq, u, v);
                        let l = self.ctx.bin(Op::Ult, u, v);
                        let d = self.ctx.ite(l, Bv::C { w: 32, v: 0xffff_ffff }, Bv::C { w: 32, v: 1 });
                        r = self.ctx.ite(e, r, d);
                    }
                    r
                };
                Some(Val::B(r))
            }
            "strlen" => {
                let p = self.concrete(s, a[0])? as u64;
                let mut n = 0;
                loop {
                    let b = self.bytes_at(s, p + n, 1)?[0];
                    let z = self.ctx.bin(Op::Eq, b, Bv::C { w: 8, v: 0 });
                    if self.concrete(s, z)? != 0 {
                        break;
                    }
                    n += 1;
                }
                Some(c64(n))
            }
            "getrandom" => {
                let p = self.concrete(s, a[0])? as u64;
                let n = self.concrete(s, a[1])? as u64;
                for i in 0..n {
                    self.store_int(s, Bv::C { w: 64, v: (p + i) as u128 }, Bv::C { w: 8, v: 0x5a ^ s.hash as u128 })?;
                }
                Some(c64(n))
            }
            "memchr" | "memrchr" => {
                let p = self.concrete(s, a[0])? as u64;
                let n = self.concrete(s, a[2])? as usize;
                let want = self.ctx.extract(a[1], 0, 8);
                let x = self.bytes_at(s, p, n)?;
                let mut r = Bv::C { w: 64, v: 0 };
                let order: Vec<usize> = if name == "memchr" { (0..n).rev().collect() } else { (0..n).collect() };
                for i in order {
                    let u = self.simp(s, x[i]);
                    let e = self.ctx.bin(Op::Eq, u, want);
                    r = self.ctx.ite(e, Bv::C { w: 64, v: (p + i as u64) as u128 }, r);
                }
                Some(Val::B(r))
            }
            // destructors of thread-locals: the thread never ends
            "__cxa_thread_atexit_impl" => Some(Val::B(Bv::C { w: 32, v: 0 })),
            _ => match self.libc_fs(s, name, &a)? {
                Some(r) => r,
                None => return unsup(format!("external function {}", name)),
            },
        };
        self.done(s, dst, normal, ret)
    }

    fn intrinsic(&mut self, s: &mut State, name: &str, args: &[Opd], ret: &Ty, dst: Option<u32>, normal: Option<u32>) -> X<()> {
        let base: Vec<&str> = name.split('.').collect();
        let kind = base[1];
        match kind {
            "memcpy" | "memmove" => {
                let d = self.bv(s, &args[0])?;
                let q = self.bv(s, &args[1])?;
                let n = self.bv(s, &args[2])?;
                let n = self.concrete(s, n)? as usize;
                if n > 0 {
                    let d = self.concrete(s, d)? as u64;
                    let q = self.concrete(s, q)? as u64;
                    self.copy(s, d, q, n)?;
                }
                return self.done(s, dst, normal, None);
            }
            "memset" => {
                let d = self.bv(s, &args[0])?;
                let v = self.bv(s, &args[1])?;
                let n = self.bv(s, &args[2])?;
                let n = self.concrete(s, n)? as usize;
                if n > 0 {
                    let d = self.concrete(s, d)? as u64;
                    match self.find(s, d) {
                        Some((k, b, sz)) if d - b + n as u64 <= sz => {
                            let o = self.obj_mut(s, k)?;
                            for i in 0..n {
                                Self::set_byte(o, (d - b) as usize + i, v);
                            }
                        }
                        _ => return unsup("memset range"),
                    }
                }
                return self.done(s, dst, normal, None);
            }
            "threadlocal" => {
                let v = self.val(s, &args[0]);
                return self.done(s, dst, normal, Some(v));
            }
            "trap" => return end(End::Panic("llvm.trap".into())),
            "load" => {
                // llvm.load.relative
                let p = self.bv(s, &args[0])?;
                let o = self.bv(s, &args[1])?;
                let a = self.ctx.bin(Op::Add, p, o);
                let v = self.load_int(s, a, 4)?;
                let v = self.ctx.sext(v, 64);
                let r = self.ctx.bin(Op::Add, p, v);
                return self.done(s, dst, normal, Some(Val::B(r)));
            }
            "is" => return self.done(s, dst, normal, Some(Val::B(Bv::C { w: 1, v: 0 }))),
            "expect" => {
                let v = self.val(s, &args[0]);
                return self.done(s, dst, normal, Some(v));
            }
            _ => {}
        }
        let mut a = vec![];
        for o in args {
            a.push(self.val(s, o));
        }
        let v = self.intr_val(kind, &base, &a, ret)?;
        self.done(s, dst, normal, Some(v))
    }

    fn intr_val(&mut self, kind: &str, parts: &[&str], a: &[Val], ret: &Ty) -> X<Val> {
        if let Some(Val::A(x)) = a.first() {
            if kind != "vector" {
                let x = x.clone();
                let mut out = vec![];
                for i in 0..x.len() {
                    let el: Vec<Val> = a
                        .iter()
                        .map(|v| match v {
                            Val::A(q) => q[i].clone(),
                            o => o.clone(),
                        })
                        .collect();
                    out.push(self.intr_val(kind, parts, &el, ret)?);
                }
                return Ok(Val::A(Rc::new(out)));
            }
        }
        if kind == "vector" {
            // vector.reduce.{add,or,and,xor,umax,umin}
            let xs = match &a[0] {
                Val::A(x) => x.clone(),
                _ => return unsup("vector.reduce"),
            };
            let op = parts.get(3).copied().unwrap_or("");
            let mut acc = self.b(&xs[0])?;
            for x in xs[1..].iter() {
                let y = self.b(x)?;
                acc = match op {
                    "add" => self.ctx.bin(Op::Add, acc, y),
                    "or" => self.ctx.bin(Op::Or, acc, y),
                    "and" => self.ctx.bin(Op::And, acc, y),
                    "xor" => self.ctx.bin(Op::Xor, acc, y),
                    "mul" => self.ctx.bin(Op::Mul, acc, y),
                    "umax" => {
                        let c = self.ctx.bin(Op::Ult, acc, y);
                        self.ctx.ite(c, y, acc)
                    }
                    "umin" => {
                        let c = self.ctx.bin(Op::Ult, acc, y);
                        self.ctx.ite(c, acc, y)
                    }
                    _ => return unsup(format!("vector reduce {}", op)),
                };
            }
            return Ok(Val::B(acc));
        }
        let mut v = vec![];
        for x in a {
            v.push(self.b(x)?);
        }
        let w = self.ctx.width(v[0]);
        let c = &mut self.ctx;
        let k = |w: u16, v: u128| Bv::C { w, v: v & mask(w) };
        let r = match kind {
            "umin" => {
                let t = c.bin(Op::Ult, v[0], v[1]);
                c.ite(t, v[0], v[1])
            }
            "umax" => {
                let t = c.bin(Op::Ult, v[0], v[1]);
                c.ite(t, v[1], v[0])
            }
            "smin" => {
                let t = c.bin(Op::Slt, v[0], v[1]);
                c.ite(t, v[0], v[1])
            }
            "smax" => {
                let t = c.bin(Op::Slt, v[0], v[1]);
                c.ite(t, v[1], v[0])
            }
            "abs" => {
                let t = c.bin(Op::Slt, v[0], k(w, 0));
                let n = c.bin(Op::Sub, k(w, 0), v[0]);
                c.ite(t, n, v[0])
            }
            "usub" if parts[2] == "sat" => {
                let t = c.bin(Op::Ult, v[0], v[1]);
                let d = c.bin(Op::Sub, v[0], v[1]);
                c.ite(t, k(w, 0), d)
            }
            "uadd" if parts[2] == "sat" => {
                let d = c.bin(Op::Add, v[0], v[1]);
                let t = c.bin(Op::Ult, d, v[0]);
                c.ite(t, k(w, u128::MAX), d)
            }
            "ssub" | "sadd" if parts[2] == "sat" => {
                let (x, y) = (c.sext(v[0], w + 1), c.sext(v[1], w + 1));
                let r = c.bin(if kind == "sadd" { Op::Add } else { Op::Sub }, x, y);
                let mx = k(w + 1, (1u128 << (w - 1)) - 1);
                let mn = k(w + 1, (1u128 << (w - 1)).wrapping_neg());
                let hi = c.bin(Op::Slt, mx, r);
                let lo = c.bin(Op::Slt, r, mn);
                let t = c.ite(lo, mn, r);
                let t = c.ite(hi, mx, t);
                c.extract(t, 0, w)
            }
            "uadd" | "usub" | "umul" | "sadd" | "ssub" | "smul" if parts[2] == "with" => {
                let op = match &kind[1..] {
                    "add" => Op::Add,
                    "sub" => Op::Sub,
                    _ => Op::Mul,
                };
                let r = c.bin(op, v[0], v[1]);
                let o = match kind {
                    "uadd" => c.bin(Op::Ult, r, v[0]),
                    "usub" => c.bin(Op::Ult, v[0], v[1]),
                    // x * k wraps exactly when x exceeds the largest quotient
                    "umul" if matches!(v[1], Bv::C { v, .. } if v != 0) => {
                        let q = match v[1] {
                            Bv::C { v, .. } => mask(w) / v,
                            _ => unreachable!(),
                        };
                        c.bin(Op::Ult, k(w, q), v[0])
                    }
                    _ => {
                        let ww = if op == Op::Mul { 2 * w } else { w + 1 };
                        if ww > 128 {
                            return unsup("wide overflow");
                        }
                        let signed = kind.starts_with('s');
                        let (x, y) = if signed { (c.sext(v[0], ww), c.sext(v[1], ww)) } else { (c.zext(v[0], ww), c.zext(v[1], ww)) };
                        let full = c.bin(op, x, y);
                        let back = if signed { c.sext(r, ww) } else { c.zext(r, ww) };
                        let e = c.bin(Op::Eq, full, back);
                        c.not1(e)
                    }
                };
                return Ok(Val::A(Rc::new(vec![Val::B(r), Val::B(o)])));
            }
            "fshl" | "fshr" => {
                let sh = c.bin(Op::URem, v[2], k(w, w as u128));
                let full = if 2 * w <= 128 { c.concat(v[0], v[1]) } else { return unsup("fsh width") };
                let shw = c.zext(sh, 2 * w);
                if kind == "fshl" {
                    let t = c.bin(Op::Shl, full, shw);
                    c.extract(t, w, w)
                } else {
                    let t = c.bin(Op::LShr, full, shw);
                    c.extract(t, 0, w)
                }
            }
            "bswap" => {
                let n = w / 8;
                let mut acc = c.extract(v[0], 0, 8);
                for i in 1..n {
                    let b = c.extract(v[0], i * 8, 8);
                    acc = c.concat(acc, b);
                }
                acc
            }
            "bitreverse" => {
                let mut acc = c.extract(v[0], 0, 1);
                for i in 1..w {
                    let b = c.extract(v[0], i, 1);
                    acc = c.concat(acc, b);
                }
                acc
            }
            "ctpop" => {
                let mut acc = k(w, 0);
                for i in 0..w {
                    let b = c.extract(v[0], i, 1);
                    let b = c.zext(b, w);
                    acc = c.bin(Op::Add, acc, b);
                }
                acc
            }
            "cttz" => {
                let mut acc = k(w, w as u128);
                for i in (0..w).rev() {
                    let b = c.extract(v[0], i, 1);
                    acc = c.ite(b, k(w, i as u128), acc);
                }
                acc
            }
            "ctlz" => {
                let mut acc = k(w, w as u128);
                for i in 0..w {
                    let b = c.extract(v[0], i, 1);
                    acc = c.ite(b, k(w, (w - 1 - i) as u128), acc);
                }
                acc
            }
            "ucmp" | "scmp" => {
                let rw = match ret {
                    Ty::Int(w) => *w,
                    _ => return unsup("ucmp"),
                };
                let l = c.bin(if kind == "ucmp" { Op::Ult } else { Op::Slt }, v[0], v[1]);
                let e = c.bin(Op::Eq, v[0], v[1]);
                let t = c.ite(e, k(rw, 0), k(rw, 1));
                c.ite(l, k(rw, u128::MAX), t)
            }
            _ => return unsup(format!("intrinsic {}", parts.join("."))),
        };
        Ok(Val::B(r))
    }
}
