//! at-obj: the Mach-O file written for an object, read back by the reference
//! reader.
use crate::machoref::{parse, View};
use crate::sym::*;
use at_obj::{macho, Object, Reloc, Symbol};
use std::io::Write;

pub fn eq(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0u8;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    d == 0
}

fn fill(v: &mut Vec<u8>, n: usize) {
    for _ in 0..n {
        v.push(u8());
    }
}
fn name(n: usize) -> String {
    let mut v = Vec::new();
    for _ in 0..n {
        v.push(byte_in(0x21, 0x7e));
    }
    String::from_utf8(v).unwrap()
}
fn clone_sym(s: &Symbol) -> Symbol {
    s.clone()
}

struct Names {
    used: Vec<String>,
}
impl Names {
    /// a name different from all earlier ones
    fn fresh(&mut self, n: usize) -> String {
        let s = name(n);
        for u in &self.used {
            assume(!eq(u.as_bytes(), s.as_bytes()));
        }
        self.used.push(s.clone());
        s
    }
}

fn any_symbol(names: &mut Names, len: usize, kind: usize, size: u64) -> Symbol {
    let name = names.fresh(len);
    match kind {
        0 => {
            let addr = u64();
            assume(addr <= size);
            Symbol::Ref {
                name,
                addr,
                ext: flag(),
            }
        }
        1 => Symbol::Abs {
            name,
            val: u64(),
            ext: flag(),
        },
        _ => Symbol::Undef { name },
    }
}

fn any_reloc(names: &Names, k: usize) -> Reloc {
    Reloc {
        addr: i32(),
        symbol: names.used[fork(names.used.len())].clone(),
        pcrel: flag(),
        // one path per width only for the first of a list
        len: if k == 0 || thorough() { pick(&[3u8, 2, 1, 0]) } else { 2 },
    }
}

pub fn write(o: &Object) -> Vec<u8> {
    let mut b = Vec::new();
    macho::write_into(o, &mut b);
    b
}

const ANY: u64 = u64::MAX;
fn sizes(o: &mut Object, text: &[usize], data: &[usize], bss: &[u64]) {
    fill(&mut o.sections.text.bytes, pick(text));
    fill(&mut o.sections.data.bytes, pick(data));
    let mut n = pick(bss);
    if n == ANY {
        n = u64();
        // a size for which the addresses stay representable
        assume(n > 0 && n < 1 << 62);
    }
    o.sections.bss.size = n;
}

// ---------------------------------------------------------------- C12
pub fn layout() {
    let mut o = Object::new();
    let t = thorough();
    sizes(
        &mut o,
        if t { &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9] } else { &[0, 1, 7, 8, 9] },
        if t { &[0, 1, 2, 3, 7, 8] } else { &[0, 1, 8] },
        &[0, 5],
    );
    let mut names = Names { used: vec![] };
    let (ts, ds, bs) = (o.sections.text.bytes.len() as u64, o.sections.data.bytes.len() as u64, o.sections.bss.size);
    for i in 0..fork(bound(3, 4)) {
        let s = any_symbol(&mut names, i, 0, ts);
        o.sections.text.symbols.push(s);
    }
    for _ in 0..fork(2) {
        let s = any_symbol(&mut names, 3, 0, ds);
        o.sections.data.symbols.push(s);
    }
    for _ in 0..fork(2) {
        let s = any_symbol(&mut names, 4, 0, bs);
        o.sections.bss.symbols.push(s);
    }
    if !names.used.is_empty() {
        if ts > 0 {
            for _ in 0..fork(3) {
                o.sections.text.relocs.push(Reloc {
                    addr: i32(),
                    symbol: names.used[0].clone(),
                    pcrel: false,
                    len: 2,
                });
            }
        }
        if ds > 0 {
            for _ in 0..fork(2) {
                o.sections.data.relocs.push(Reloc {
                    addr: i32(),
                    symbol: names.used[0].clone(),
                    pcrel: false,
                    len: 3,
                });
            }
        }
    }
    let b = write(&o);
    obs_bytes(&b);
    if let Some(v) = parse(&b) {
        v.check_layout();
        reach(1);
    }
}

// ---------------------------------------------------------------- C13
fn check_sections(o: &Object, v: &View) {
    let (ts, ds, bs) = (&o.sections.text.bytes, &o.sections.data.bytes, o.sections.bss.size);
    let mut va = v.vmaddr;
    let mut seen = 0;
    match v.find("__TEXT", "__text") {
        None => check(ts.is_empty(), "a non-empty text section is present"),
        Some((_, s)) => {
            seen += 1;
            check(s.size == ts.len() as u64, "size of the text section");
            check(eq(v.data(s), ts), "contents of the text section");
            check(s.addr == va, "address of the text section");
            check(s.flags & 0xff == 0, "text is a regular section");
            check(s.flags & 0x8000_0400 == 0x8000_0400, "text is marked as instructions");
            va += s.size;
        }
    }
    match v.find("__DATA", "__data") {
        None => check(ds.is_empty(), "a non-empty data section is present"),
        Some((_, s)) => {
            seen += 1;
            check(s.size == ds.len() as u64, "size of the data section");
            check(eq(v.data(s), ds), "contents of the data section");
            check(s.addr == va, "data follows text in memory");
            check(s.flags & 0xff == 0, "data is a regular section");
            check(s.flags & 0x8000_0400 == 0, "data is not marked as instructions");
            va += s.size;
        }
    }
    match v.find("__DATA", "__bss") {
        None => check(bs == 0, "a non-empty bss section is present"),
        Some((_, s)) => {
            seen += 1;
            check(s.size == bs, "size of the bss section");
            check(s.addr == va, "bss follows data in memory");
            check(s.zerofill(), "bss is zero-filled");
            check(s.nreloc == 0, "bss has no relocations");
            va += s.size;
        }
    }
    check(v.sects.len() == seen, "no other section");
    check(v.vmsize == va - v.vmaddr, "memory size of the segment");
}

pub fn contents() {
    let mut o = Object::new();
    let t = thorough();
    sizes(
        &mut o,
        if t { &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 64] } else { &[0, 1, 5, 8, 9, 24] },
        if t { &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 64] } else { &[0, 1, 5, 8, 9, 24] },
        &[0, ANY],
    );
    let b = write(&o);
    obs_bytes(&b);
    if let Some(v) = parse(&b) {
        v.check_layout();
        check_sections(&o, &v);
        reach(1);
    }
}

/// a pattern of period 251, with arbitrary bytes at the places where a
/// narrow count or a buffer would end
fn long(n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(n);
    let mut p = 1u8;
    for _ in 0..n {
        v.push(p);
        p = if p == 251 { 1 } else { p + 1 };
    }
    for i in [0usize, 254, 255, 256, 257, 65534, 65535, 65536] {
        if i < n {
            v[i] = u8();
        }
    }
    if n > 0 {
        v[n - 1] = u8();
    }
    v
}
/// the observable shape of a large file
fn obs_ends(b: &[u8]) {
    obs(b.len() as u64);
    obs_bytes(&b[..b.len().min(512)]);
    obs_bytes(&b[b.len() - b.len().min(64)..]);
}

/// none, any odd size, or any size from 2^33
fn some_bss(k: usize) -> u64 {
    match k {
        0 => 0,
        1 => u64() >> 2 | 1,
        _ => u64() >> 2 | 1 << 33,
    }
}

/// sizes around the limits of narrow counts
fn a_big_contents() -> Object {
    let mut o = Object::new();
    let t = thorough();
    o.sections.text.bytes = long(pick(if t {
        &[0usize, 127, 128, 255, 256, 257, 4095, 4096, 8192, 32767, 32768, 65535, 65536, 65541]
    } else {
        &[0usize, 255, 256, 257, 65535, 65541]
    }));
    o.sections.data.bytes = long(pick(if t { &[0usize, 1, 255, 256, 4096, 65535, 65536, 65539] } else { &[0usize, 1, 256, 65539] }));
    o.sections.bss.size = some_bss(fork(3));
    if o.sections.text.bytes.len() > 0 && fork(2) == 1 {
        o.sections.text.symbols.push(Symbol::Ref { name: "a".into(), addr: 0, ext: false });
        o.sections.text.relocs.push(Reloc { addr: i32(), symbol: "a".into(), pcrel: false, len: 2 });
    }
    o
}
pub fn big_contents() {
    let o = a_big_contents();
    let b = write(&o);
    obs_ends(&b);
    if let Some(v) = parse(&b) {
        v.check_layout();
        check_sections(&o, &v);
        reach(1);
    }
}

// ---------------------------------------------------------------- C14
fn check_symbol(v: &View, s: &Symbol, sect: Option<usize>) {
    let want = s.name().as_bytes();
    let mut hits = 0;
    for i in 0..v.nsyms {
        let n = v.nlist(i);
        if !eq(v.string(n.strx), want) {
            continue;
        }
        hits += 1;
        check(n.ty & 0xf0 == 0, "neither private nor a debugging entry");
        match s {
            Symbol::Undef { .. } => {
                check(n.ty == 0x01, "an undefined symbol is undefined and external");
                check(n.sect == 0 && n.value == 0, "an undefined symbol has no section and no value");
            }
            Symbol::Abs { val, ext, .. } => {
                check(n.ty & 0x0e == 0x02, "an absolute symbol is absolute");
                check((n.ty & 1 == 1) == *ext, "external exactly when requested");
                check(n.sect == 0, "an absolute symbol belongs to no section");
                check(n.value == *val, "value of an absolute symbol");
            }
            Symbol::Ref { addr, ext, .. } => {
                check(n.ty & 0x0e == 0x0e, "a label is defined in a section");
                check((n.ty & 1 == 1) == *ext, "external exactly when requested");
                check(sect.is_some(), "the section of a label is present");
                if let Some(k) = sect {
                    check(n.sect as usize == k + 1, "section ordinal of a label");
                    check(n.value == v.sects[k].addr.wrapping_add(*addr), "a label's value is its section's address plus its offset");
                }
            }
        }
        check(n.desc == 0, "no description bits");
    }
    check(hits == 1, "every symbol appears exactly once");
}

fn check_symbols(o: &Object, v: &View) {
    let s = &o.sections;
    let n = s.text.symbols.len() + s.data.symbols.len() + s.bss.symbols.len();
    check(v.nsyms as usize == n, "as many entries as symbols");
    let idx = |seg, sec| v.find(seg, sec).map(|(i, _)| i);
    for x in &s.text.symbols {
        check_symbol(v, x, idx("__TEXT", "__text"));
    }
    for x in &s.data.symbols {
        check_symbol(v, x, idx("__DATA", "__data"));
    }
    for x in &s.bss.symbols {
        check_symbol(v, x, idx("__DATA", "__bss"));
    }
}

/// kinds, bindings, values and sections
pub fn symbols() {
    let mut o = Object::new();
    let lens: &[usize] = &[0, 3, 8];
    sizes(&mut o, lens, &[0, 2], &[0, 7, 1 << 40]);
    let mut names = Names { used: vec![] };
    let (ts, ds, bs) = (o.sections.text.bytes.len() as u64, o.sections.data.bytes.len() as u64, o.sections.bss.size);
    if fork(2) == 1 {
        let k = fork(3);
        let s = any_symbol(&mut names, 1, k, ts);
        o.sections.text.symbols.push(s);
    }
    if fork(2) == 1 {
        let k = fork(3);
        let s = any_symbol(&mut names, 2, k, ds);
        o.sections.data.symbols.push(s);
    }
    if fork(2) == 1 {
        let k = fork(3);
        let s = any_symbol(&mut names, 1, k, bs);
        o.sections.bss.symbols.push(s);
    }
    if names.used.len() == 3 {
        reach(2);
    }
    let b = write(&o);
    obs_bytes(&b);
    if let Some(v) = parse(&b) {
        check_symbols(&o, &v);
        reach(1);
    }
}

/// names: any lengths, one may be a prefix or suffix of another
pub fn symbol_names() {
    let mut o = Object::new();
    fill(&mut o.sections.text.bytes, 2);
    let two = fork(2) == 1;
    if two {
        fill(&mut o.sections.data.bytes, 1);
    }
    let mut names = Names { used: vec![] };
    let n = bound(3, 4);
    for i in 0..n {
        let l = fork(bound(4, 5));
        let s = any_symbol(&mut names, l, 0, 1);
        if two && i + 1 == n {
            o.sections.data.symbols.push(s);
        } else {
            o.sections.text.symbols.push(s);
        }
    }
    let b = write(&o);
    obs_bytes(&b);
    if let Some(v) = parse(&b) {
        v.check_layout();
        check_symbols(&o, &v);
        reach(1);
    }
}

/// distinct names "s<k>" padded to a length
fn numbered(k: usize, len: usize) -> String {
    let mut v = vec![b's'];
    let mut d = Vec::new();
    let mut k = k;
    loop {
        d.push(b'0' + (k % 10) as u8);
        k /= 10;
        if k == 0 {
            break;
        }
    }
    d.reverse();
    v.extend_from_slice(&d);
    let mut p = b'a';
    while v.len() < len {
        v.push(p);
        p = if p == b'w' { b'a' } else { p + 1 };
    }
    String::from_utf8(v).unwrap()
}

/// many symbols, long names, labels behind large contents
fn a_big_symbols() -> Object {
    let mut o = Object::new();
    match fork(3) {
        0 => {
            // more than 255 symbols
            fill(&mut o.sections.text.bytes, 4);
            fill(&mut o.sections.data.bytes, 1);
            let n = pick(if thorough() { &[127usize, 128, 253, 254, 255, 256, 257, 300] } else { &[254usize, 255, 256] });
            for i in 0..n {
                let addr = if i == 0 || i == 1 || i == 254 || i == 255 {
                    let a = u64();
                    assume(a <= 4);
                    a
                } else {
                    (i % 5) as u64
                };
                o.sections.text.symbols.push(Symbol::Ref { name: numbered(i, 0), addr, ext: i % 3 == 0 });
            }
            for i in n..n + 2 {
                o.sections.data.symbols.push(Symbol::Ref { name: numbered(i, 0), addr: 1, ext: flag() });
            }
        }
        1 => {
            // names and a string table longer than 16 bits can count
            fill(&mut o.sections.text.bytes, 1);
            let l = pick(if thorough() { &[127usize, 128, 254, 255, 256, 257, 4096, 32768, 65534, 65536] } else { &[254usize, 255, 256, 65536] });
            for i in 0..2 {
                let s = numbered(i, l);
                o.sections.text.symbols.push(Symbol::Ref { name: s, addr: 0, ext: flag() });
            }
            o.sections.text.symbols.push(Symbol::Undef { name: numbered(2, 0) });
            o.sections.text.symbols.push(Symbol::Abs { name: numbered(3, 0), val: u64(), ext: flag() });
        }
        _ => {
            // labels anywhere in large contents
            o.sections.text.bytes = long(pick(&[255usize, 256, 300, 65536, 70000]));
            o.sections.data.bytes = long(pick(&[0usize, 1, 70000]));
            let b = some_bss(1 + fork(2));
            o.sections.bss.size = b;
            let (ts, ds) = (o.sections.text.bytes.len() as u64, o.sections.data.bytes.len() as u64);
            let mut names = Names { used: vec![] };
            let s = any_symbol(&mut names, 1, 0, ts);
            o.sections.text.symbols.push(s);
            if ds > 0 {
                let s = any_symbol(&mut names, 2, 0, ds);
                o.sections.data.symbols.push(s);
            }
            let s = any_symbol(&mut names, 3, 0, b);
            o.sections.bss.symbols.push(s);
        }
    }
    o
}
pub fn big_symbols() {
    let o = a_big_symbols();
    let b = write(&o);
    obs_ends(&b);
    if let Some(v) = parse(&b) {
        v.check_layout();
        check_symbols(&o, &v);
        reach(1);
    }
}

// ---------------------------------------------------------------- C15
pub fn check_reloc_list(v: &View, seg: &str, sec: &str, want: &[Reloc]) {
    match v.find(seg, sec) {
        None => check(want.is_empty(), "a section with relocations is present"),
        Some((_, s)) => {
            check(s.nreloc as usize == want.len(), "number of relocations of a section");
            if s.nreloc as usize != want.len() {
                return;
            }
            check(want.is_empty() || s.reloff as usize + 8 * want.len() <= v.b.len(), "relocations lie inside the file");
            // S_ATTR_EXT_RELOC | S_ATTR_LOC_RELOC announce relocations
            check((s.flags & 0x200 != 0) == !want.is_empty(), "external relocations are announced exactly when present");
            for (i, w) in want.iter().enumerate() {
                let r = v.reloc(s, i as u32);
                check(r.addr == w.addr, "relocated address");
                check(r.len == w.len, "relocated width");
                check(r.pcrel == w.pcrel, "PC-relative exactly when requested");
                check(r.ext, "relocations refer to symbol table entries");
                check(r.ty == 0, "absolute-address relocation type");
                check(r.sym < v.nsyms, "relocation refers to an existing symbol");
                if r.sym < v.nsyms {
                    let n = v.nlist(r.sym);
                    check(eq(v.string(n.strx), w.symbol.as_bytes()), "relocation refers to its symbol");
                }
            }
        }
    }
}

pub fn relocs() {
    let mut o = Object::new();
    fill(&mut o.sections.text.bytes, pick(&[1usize, 9]));
    fill(&mut o.sections.data.bytes, pick(&[0usize, 1, 8]));
    let mut names = Names { used: vec![] };
    let k = fork(2);
    let l = fork(3);
    let s = any_symbol(&mut names, l, 2 * k, 1);
    o.sections.text.symbols.push(s);
    let l = fork(3);
    let s = any_symbol(&mut names, l, 0, 1);
    o.sections.text.symbols.push(s);
    if !o.sections.data.bytes.is_empty() {
        let s = any_symbol(&mut names, 2, 0, 1);
        o.sections.data.symbols.push(s);
    }
    for k in 0..fork(3) {
        o.sections.text.relocs.push(any_reloc(&names, k));
    }
    if !o.sections.data.bytes.is_empty() {
        for _ in 0..fork(2) {
            o.sections.data.relocs.push(any_reloc(&names, if thorough() { 0 } else { o.sections.text.relocs.len() }));
        }
    }
    let b = write(&o);
    obs_bytes(&b);
    if let Some(v) = parse(&b) {
        v.check_layout();
        check_reloc_list(&v, "__TEXT", "__text", &o.sections.text.relocs);
        check_reloc_list(&v, "__DATA", "__data", &o.sections.data.relocs);
        reach(1);
    }
}

/// many symbols and many relocations, large contents
fn a_big_relocs() -> Object {
    let mut o = Object::new();
    let (nt, nr) = pick(if thorough() {
        &[(254usize, 3usize), (256, 3), (258, 300), (2, 255), (2, 256), (2, 257), (300, 10)]
    } else {
        &[(256usize, 3usize), (257, 257), (2, 255)]
    });
    o.sections.text.bytes = long(pick(&[5usize, 256, 65541]));
    o.sections.data.bytes = long(pick(&[1usize, 257]));
    for i in 0..nt {
        o.sections.text.symbols.push(if i % 7 == 3 {
            Symbol::Undef { name: numbered(i, 0) }
        } else {
            Symbol::Ref { name: numbered(i, 0), addr: (i % 5) as u64, ext: false }
        });
    }
    o.sections.data.symbols.push(Symbol::Ref { name: numbered(nt, 0), addr: 0, ext: false });
    for i in 0..nr {
        let edge = i < 2 || i + 2 >= nr;
        o.sections.text.relocs.push(Reloc {
            addr: if edge { i32() } else { i as i32 },
            symbol: numbered(if i == 0 { nt } else { nt - i % nt }, 0),
            pcrel: edge && flag(),
            len: if i < 4 { i as u8 } else { 3 },
        });
    }
    for i in 0..2 {
        o.sections.data.relocs.push(Reloc { addr: i32(), symbol: numbered(if i == 0 { 0 } else { nt - 1 }, 0), pcrel: flag(), len: 3 });
    }
    o
}
pub fn big_relocs() {
    let o = a_big_relocs();
    let b = write(&o);
    obs_ends(&b);
    if let Some(v) = parse(&b) {
        v.check_layout();
        check_reloc_list(&v, "__TEXT", "__text", &o.sections.text.relocs);
        check_reloc_list(&v, "__DATA", "__data", &o.sections.data.relocs);
        reach(1);
    }
}

// ---------------------------------------------------------------- C25
/// a sink that takes pieces, is interrupted, or fails
pub struct Sink {
    pub got: Vec<u8>,
    pub piece: usize,
    /// call at which a signal interrupts
    pub intr: usize,
    pub calls: usize,
    /// bytes accepted before the sink breaks
    pub room: usize,
    /// how it breaks: 0 error, 1 accepts nothing (Ok(0))
    pub how: usize,
    pub broke: bool,
}
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let c = self.calls;
        self.calls += 1;
        if c == self.intr {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        if b.is_empty() {
            return Ok(0);
        }
        if self.room == 0 {
            self.broke = true;
            return if self.how == 0 { Err(std::io::ErrorKind::Other.into()) } else { Ok(0) };
        }
        let n = b.len().min(self.piece).min(self.room);
        self.got.extend_from_slice(&b[..n]);
        self.room -= n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn small_object() -> Object {
    let mut o = Object::new();
    fill(&mut o.sections.text.bytes, pick(&[0usize, 3, 8]));
    fill(&mut o.sections.data.bytes, fork(2));
    let t = !o.sections.text.bytes.is_empty();
    if t {
        o.sections.text.symbols.push(Symbol::Ref {
            name: "ab".into(),
            addr: 0,
            ext: flag(),
        });
        o.sections.text.relocs.push(Reloc {
            addr: i32(),
            symbol: "ab".into(),
            pcrel: false,
            len: 3,
        });
    }
    let _ = clone_sym;
    o
}

pub fn sink_pieces() {
    let o = small_object();
    let want = write(&o);
    let mut s = Sink {
        got: Vec::new(),
        piece: pick(&[1usize, 3, 7, 1000]),
        intr: fork(bound(24, 200)),
        calls: 0,
        room: 100_000,
        how: 0,
        broke: false,
    };
    macho::write_into(&o, &mut s);
    check(eq(&s.got, &want), "a sink that takes pieces or is interrupted gets the same file");
    reach(1);
}

pub fn sink_fails() {
    let o = small_object();
    let want = write(&o);
    let room = fork(want.len());
    let mut s = Sink {
        got: Vec::new(),
        piece: pick(&[1usize, 1000]),
        intr: 100_000,
        calls: 0,
        room,
        how: fork(2),
        broke: false,
    };
    reach(1);
    // a failure is reported by panicking
    panics_allowed(true);
    macho::write_into(&o, &mut s);
    check(false, "a file that could not be written completely is never reported as written");
}

// ---------------------------------------------------------------- C31
/// the same object again: the same file
pub fn again() {
    hash(1 + fork(3) as u64);
    let make = |v: &[u64]| {
        let mut o = Object::new();
        o.sections.text.bytes = vec![0x90; 9];
        o.sections.data.bytes = vec![v[0] as u8, 2, 3];
        o.sections.bss.size = v[1] >> 8;
        for i in 0..8 {
            let s = match i % 3 {
                0 => Symbol::Ref { name: numbered(i, 4), addr: v[1] & 7, ext: i > 4 },
                1 => Symbol::Abs { name: numbered(i, 4), val: v[2], ext: i < 4 },
                _ => Symbol::Undef { name: numbered(i, 4) },
            };
            match i / 3 {
                0 => o.sections.text.symbols.push(s),
                1 => o.sections.data.symbols.push(s),
                _ => o.sections.bss.symbols.push(s),
            }
        }
        for i in 0..6 {
            o.sections.text.relocs.push(Reloc { addr: i, symbol: numbered(7 - i as usize, 4), pcrel: v[3] & 1 == 1, len: 2 });
        }
        o.sections.data.relocs.push(Reloc { addr: 0, symbol: numbered(1, 4), pcrel: false, len: 3 });
        o
    };
    let v = [u64(), u64(), u64(), u64()];
    let o = make(&v);
    let one = write(&o);
    let two = match fork(3) {
        0 => write(&o),
        1 => write(&make(&v)),
        _ => {
            write(&make(&[1, 2, 3, 4]));
            write(&make(&v))
        }
    };
    reach(1);
    obs_bytes(&one);
    check(eq(&one, &two), "the same object gives the same file again");
}

// ---------------------------------------------------------------- C32
/// the file, read with at-mac's own readers by following its headers, and written again
/// record by record
pub fn rewrite(b: &[u8]) -> Vec<(String, at_mac::nlist::NList64)> {
    use at_mac::header::Header64;
    use at_mac::load_command::LoadCommand;
    use at_mac::nlist::NList64;
    use at_mac::reloc::RelocationInfo;
    use at_mac::string_table::StringTable;
    let mut out = vec![0u8; b.len()];
    let put = |out: &mut Vec<u8>, at: usize, w: &[u8]| {
        check(at <= b.len() && w.len() <= b.len() - at, "every record read lies inside the file");
        out[at..at + w.len()].copy_from_slice(w);
    };
    let mut r = b;
    let (h, endian) = Header64::read_from(&mut r);
    let mut w = Vec::new();
    h.write_into(&mut w);
    put(&mut out, 0, &w);
    let mut at = w.len();
    let mut sections = Vec::new();
    let mut table = None;
    for _ in 0..h.n_cmds {
        let before = r.len();
        let c = LoadCommand::read_from_in(&mut r, endian);
        check((before - r.len()) as u32 == c.cmd_size(), "a command is as long as it says");
        let mut w = Vec::new();
        c.write_into(&mut w);
        put(&mut out, at, &w);
        at += w.len();
        match c {
            LoadCommand::Segment64(_, s) => sections.extend(s),
            LoadCommand::Symtab(t) => table = Some(t),
            _ => {}
        }
    }
    check(at == 32 + h.size_of_cmds as usize, "the commands are as long as the header says");
    let t = table.unwrap();
    let (so, se) = (t.stroff as usize, (t.stroff + t.strsize) as usize);
    let stab = StringTable::from(b[so..se].to_vec());
    put(&mut out, so, stab.as_ref());
    let mut symbols = Vec::new();
    let mut r = &b[t.symoff as usize..];
    for i in 0..t.nsyms {
        let n = NList64::read_from_in(&mut r, endian);
        let mut w = Vec::new();
        n.write_into(&mut w);
        put(&mut out, (t.symoff + 16 * i) as usize, &w);
        symbols.push((stab.get(n.n_strx as usize).to_string(), n));
    }
    for s in &sections {
        if s.offset > 0 {
            let o = s.offset as usize;
            put(&mut out, o, &b[o..o + s.size as usize]);
        }
        let mut r = &b[s.reloff as usize..];
        for i in 0..s.nreloc {
            let e = RelocationInfo::read_from_in(&mut r, endian);
            let mut w = Vec::new();
            e.write_into(&mut w);
            put(&mut out, (s.reloff + 8 * i) as usize, &w);
            check(!e.r_extern || e.r_symbolnum < t.nsyms, "a relocation read back names a symbol");
        }
    }
    check(eq(&out, b), "the records read back, written again, are the file");
    let names: Vec<&str> = stab.iter().filter(|s| !s.is_empty()).collect();
    check(names.len() >= symbols.iter().filter(|(n, _)| !n.is_empty()).count() || shared(&symbols), "the string table lists the names");
    symbols
}
/// names that are the tail of others need no string of their own
fn shared(s: &[(String, at_mac::nlist::NList64)]) -> bool {
    s.iter().enumerate().any(|(i, a)| s.iter().enumerate().any(|(j, b)| i != j && b.0.ends_with(a.0.as_str())))
}

pub fn read_back() {
    let mut o = Object::new();
    sizes(&mut o, &[0, 1, 8], &[0, 3], &[0, ANY]);
    let mut names = Names { used: vec![] };
    let (ts, ds, bs) = (o.sections.text.bytes.len() as u64, o.sections.data.bytes.len() as u64, o.sections.bss.size);
    for (k, n) in [ts, ds, bs].into_iter().enumerate() {
        if n > 0 && (thorough() || k < 2 || flag_fork()) {
            let kind = fork(3);
            let s = any_symbol(&mut names, 1 + k, kind, n);
            match k {
                0 => o.sections.text.symbols.push(s),
                1 => o.sections.data.symbols.push(s),
                _ => o.sections.bss.symbols.push(s),
            }
        }
    }
    if !names.used.is_empty() {
        for k in 0..fork(3) {
            let r = any_reloc(&names, k);
            if ts > 0 {
                o.sections.text.relocs.push(r);
            } else if ds > 0 {
                o.sections.data.relocs.push(r);
            }
        }
    }
    let b = write(&o);
    reach(1);
    obs_bytes(&b);
    reads_back(&o, &b);
}
/// the same for numbers, names and contents that narrow counts do not hold
pub fn big_read_back() {
    let o = match fork(3) {
        0 => a_big_contents(),
        1 => a_big_symbols(),
        _ => a_big_relocs(),
    };
    let b = write(&o);
    reach(1);
    obs_ends(&b);
    reads_back(&o, &b);
}
fn reads_back(o: &Object, b: &[u8]) {
    use at_mac::nlist::{NType, NTypeField};
    let back = rewrite(b);
    check(back.len() == o.symbols().count(), "as many symbols as the object has");
    for s in o.symbols() {
        let mut found = 0;
        for (n, e) in &back {
            if !eq(n.as_bytes(), s.name().as_bytes()) {
                continue;
            }
            found += 1;
            let (ty, ext) = match e.n_type {
                NTypeField::Norm { n_pext, n_type, n_ext } => {
                    check(!n_pext, "no symbol is private external");
                    (n_type, n_ext)
                }
                _ => {
                    check(false, "no symbol is a debugging entry");
                    continue;
                }
            };
            match s {
                Symbol::Undef { .. } => check(ty == NType::Undf && ext, "an undefined symbol is read back as one"),
                Symbol::Abs { val, ext: x, .. } => check(ty == NType::Abs && ext == *x && e.n_value == *val, "an absolute symbol is read back as one"),
                Symbol::Ref { ext: x, .. } => check(ty == NType::Sect && ext == *x && e.n_sect > 0, "a defined symbol is read back as one"),
            }
        }
        check(found == 1, "every symbol is read back once, by its name");
    }
}
fn flag_fork() -> bool {
    fork(2) == 1
}
