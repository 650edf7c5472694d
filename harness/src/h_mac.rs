//! at-mac: Mach-O records against the layout in Apple's loader.h / nlist.h /
//! reloc.h, written down here independently.
use crate::sym::*;
use at_mac::header::*;
use at_mac::load_command::build_version::{Platform, Tool, Version};
use at_mac::load_command::segment64::{SectionAttr, SectionAttrs, SectionType};
use at_mac::load_command::*;
use at_mac::nlist::*;
use at_mac::reloc::*;
use at_mac::string_table::StringTable;
use std::io::Read;

// ---------------------------------------------------------------- tables
pub const FILE_TYPES: [(FileType, u32); 9] = [
    (FileType::Object, 1),
    (FileType::Execute, 2),
    (FileType::FVMLib, 3),
    (FileType::Core, 4),
    (FileType::Preload, 5),
    (FileType::Dylib, 6),
    (FileType::Dylinker, 7),
    (FileType::Bundle, 8),
    (FileType::Dsym, 10),
];
pub const FLAGS: [(Flag, u32); 16] = [
    (Flag::NoUndefs, 0x1),
    (Flag::IncrLink, 0x2),
    (Flag::DyldLink, 0x4),
    (Flag::BindAtLoad, 0x8),
    (Flag::PreBound, 0x10),
    (Flag::SplitSegs, 0x20),
    (Flag::TwoLevel, 0x80),
    (Flag::ForceFlat, 0x100),
    (Flag::NoMultiDefs, 0x200),
    (Flag::NoFixPreBinding, 0x400),
    (Flag::PreBindable, 0x800),
    (Flag::AllModsBound, 0x1000),
    (Flag::SubsectionsViaSymbols, 0x2000),
    (Flag::Canonical, 0x4000),
    (Flag::Pie, 0x200000),
    (Flag::HasTlvDescriptors, 0x800000),
];
const SECT_TYPES: [(SectionType, u32); 7] = [
    (SectionType::Regular, 0),
    (SectionType::Zerofill, 1),
    (SectionType::CstringLiterals, 2),
    (SectionType::FourByteLiterals, 3),
    (SectionType::EightByteLiterals, 4),
    (SectionType::LiteralPointers, 5),
    (SectionType::Coalesced, 0xb),
];
const SECT_ATTRS: [(SectionAttr, u32); 8] = [
    (SectionAttr::LocReloc, 0x100),
    (SectionAttr::ExtReloc, 0x200),
    (SectionAttr::SomeInstructions, 0x400),
    (SectionAttr::Debug, 0x0200_0000),
    (SectionAttr::LiveSupport, 0x0800_0000),
    (SectionAttr::StripStaticSyms, 0x2000_0000),
    (SectionAttr::NoToc, 0x4000_0000),
    (SectionAttr::PureInstructions, 0x8000_0000),
];
const PLATFORMS: [(Platform, u32); 10] = [
    (Platform::MacOS, 1),
    (Platform::IOS, 2),
    (Platform::TvOS, 3),
    (Platform::WatchOS, 4),
    (Platform::BridgeOS, 5),
    (Platform::MacCatalyst, 6),
    (Platform::IOSSimulator, 7),
    (Platform::TvOSSimulator, 8),
    (Platform::WatchOSSimulator, 9),
    (Platform::Driverkit, 10),
];
const TOOLS: [(Tool, u32); 3] = [(Tool::Clang, 1), (Tool::Swift, 2), (Tool::LD, 3)];
const NTYPES: [(NType, u8); 5] = [(NType::Undf, 0), (NType::Abs, 2), (NType::Sect, 0xe), (NType::Pbud, 0xc), (NType::Indr, 0xa)];
const RLENS: [(RelocLength, u32); 4] = [(RelocLength::Byte, 0), (RelocLength::Word, 1), (RelocLength::Long, 2), (RelocLength::Quad, 3)];
const X64_RELOCS: [(X86_64RelocType, u8); 10] = [
    (X86_64RelocType::Unsigned, 0),
    (X86_64RelocType::Signed, 1),
    (X86_64RelocType::Branch, 2),
    (X86_64RelocType::GotLoad, 3),
    (X86_64RelocType::Got, 4),
    (X86_64RelocType::Subtractor, 5),
    (X86_64RelocType::Signed1, 6),
    (X86_64RelocType::Signed2, 7),
    (X86_64RelocType::Signed4, 8),
    (X86_64RelocType::Tlv, 9),
];
const X86_RELOCS: [(X86RelocType, u8); 6] = [
    (X86RelocType::Vanilla, 0),
    (X86RelocType::Pair, 1),
    (X86RelocType::Sectdiff, 2),
    (X86RelocType::PbLaPtr, 3),
    (X86RelocType::LocalSectdiff, 4),
    (X86RelocType::Tlv, 5),
];

// ---------------------------------------------------------------- byte access
pub fn le16(b: &[u8], o: usize) -> u16 {
    b[o] as u16 | (b[o + 1] as u16) << 8
}
pub fn le32(b: &[u8], o: usize) -> u32 {
    le16(b, o) as u32 | (le16(b, o + 2) as u32) << 16
}
pub fn le64(b: &[u8], o: usize) -> u64 {
    le32(b, o) as u64 | (le32(b, o + 4) as u64) << 32
}
/// builds a record in a chosen byte order
struct Put {
    v: Vec<u8>,
    big: bool,
}
impl Put {
    fn new(big: bool) -> Put {
        Put { v: Vec::new(), big }
    }
    fn n(&mut self, x: u64, n: usize) {
        for i in 0..n {
            let k = if self.big { n - 1 - i } else { i };
            self.v.push((x >> (8 * k)) as u8);
        }
    }
    fn u8(&mut self, x: u8) {
        self.n(x as u64, 1)
    }
    fn u16(&mut self, x: u16) {
        self.n(x as u64, 2)
    }
    fn u32(&mut self, x: u32) {
        self.n(x as u64, 4)
    }
    fn u64(&mut self, x: u64) {
        self.n(x, 8)
    }
    fn name(&mut self, s: &[u8], n: usize) {
        for i in 0..n {
            self.v.push(if i < s.len() { s[i] } else { 0 });
        }
    }
}
fn eq(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    // no early exit: one expression instead of one path per byte
    let mut d = 0u8;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    d == 0
}

/// ASCII, no NUL
fn ascii(n: usize) -> String {
    let mut v = Vec::new();
    for _ in 0..n {
        v.push(byte_in(1, 127));
    }
    String::from_utf8(v).unwrap()
}
fn ascii_len(lens: &[usize]) -> String {
    let n = pick(lens);
    ascii(n)
}

/// The crate's byte-order type lives in a private module; a value of it comes
/// from reading a header with the matching magic.
macro_rules! endian {
    ($big:expr) => {{
        let mut p = Put::new($big);
        p.u32(0xfeedfacf);
        p.u32(0x0100_0007);
        p.u32(3);
        p.u32(1);
        p.u32(0);
        p.u32(0);
        p.u32(0);
        p.u32(0);
        Header64::read_from(&mut &p.v[..]).1
    }};
}

// ---------------------------------------------------------------- headers
struct Hdr {
    h: Header64,
    magic: u32,
    cpu: u32,
    file: u32,
    flags: u32,
}

fn any_header(nflags: usize) -> Hdr {
    let (magic, mc) = pick(&[(Magic::Magic64, 0xfeedfacfu32), (Magic::Magic, 0xfeedface)]);
    let (cpu_type, cpu) = pick(&[
        (CpuType::X86_64(CpuSubTypeX86_64::All), 0x0100_0007u32),
        (CpuType::X86(CpuSubTypeX86::All), 7),
    ]);
    let (file_type, file) = any_of(&FILE_TYPES);
    let mut flags = Flags::new();
    let mut fl = 0;
    for _ in 0..nflags {
        let (f, c) = any_of(&FLAGS);
        flags.push(f);
        fl |= c;
    }
    Hdr {
        h: Header64 {
            magic,
            cpu_type,
            file_type,
            n_cmds: u32(),
            size_of_cmds: u32(),
            flags,
            reserved: u32(),
        },
        magic: mc,
        cpu,
        file,
        flags: fl,
    }
}

fn check_header(x: &Hdr) {
    let mut b = Vec::new();
    x.h.write_into(&mut b);
    obs_bytes(&b);
    check(b.len() == 32 && Header64::SIZE == 32, "a 64-bit header is 32 bytes");
    check(le32(&b, 0) == x.magic, "magic at offset 0");
    check(le32(&b, 4) == x.cpu, "cputype at offset 4");
    check(le32(&b, 8) == 3, "cpusubtype at offset 8");
    check(le32(&b, 12) == x.file, "filetype at offset 12");
    check(le32(&b, 16) == x.h.n_cmds, "ncmds at offset 16");
    check(le32(&b, 20) == x.h.size_of_cmds, "sizeofcmds at offset 20");
    check(le32(&b, 24) == x.flags, "flags at offset 24");
    check(le32(&b, 28) == x.h.reserved, "reserved at offset 28");
    b.extend_from_slice(&[0xEE; 3]);
    let mut rest = &b[..];
    let (r, _) = Header64::read_from(&mut rest);
    check(rest.len() == 3, "reading consumes exactly the header");
    check(r.magic == x.h.magic, "magic survives");
    check(r.cpu_type == x.h.cpu_type, "cpu type survives");
    check(r.file_type == x.h.file_type, "file type survives");
    check(r.n_cmds == x.h.n_cmds && r.size_of_cmds == x.h.size_of_cmds && r.reserved == x.h.reserved, "counts survive");
    check(r.flags.to_u32() == x.flags, "flag set survives");
    reach(1);
}

pub fn header() {
    let n = fork(bound(3, 4));
    check_header(&any_header(n));
}

/// every subset of the flags
pub fn header_flag_sets() {
    let mut x = any_header(0);
    // the other fields are covered by `header`
    let group = fork(4);
    let full = thorough();
    for (i, (f, c)) in FLAGS.iter().enumerate() {
        if (full || i / 4 == group || i / 4 == (group + 1) % 4) && flag() {
            x.h.flags.push(*f);
            x.flags |= c;
        }
    }
    check_header(&x);
    let (r, _) = {
        let mut b = Vec::new();
        x.h.write_into(&mut b);
        Header64::read_from(&mut &b[..])
    };
    check(r == x.h, "a header whose flags are in canonical order reads back equal");
}

// ---------------------------------------------------------------- load commands
struct Seg {
    lc: LoadCommand,
    bytes: Vec<u8>,
}

fn any_section(p: &mut Put, lens: &[usize], nattr: usize) -> Section64 {
    let (sectname, segname) = (ascii_len(lens), ascii_len(&[0, 16]));
    let (ty, tc) = any_of(&SECT_TYPES);
    let mut at = SectionAttrs::new();
    let mut ac = 0;
    // canonical order, so that reading back gives an equal record
    let mut lo = 0;
    for k in 0..nattr {
        let i = below(8);
        assume(i >= lo && (k == 0 || i > lo));
        lo = i;
        let (a, c) = SECT_ATTRS[i as usize];
        at.push(a);
        ac |= c;
    }
    let s = Section64 {
        sectname,
        segname,
        addr: u64(),
        size: u64(),
        offset: u32(),
        align: u32(),
        reloff: u32(),
        nreloc: u32(),
        flags: (at, ty),
        reserved1: u32(),
        reserved2: u32(),
        reserved3: u32(),
    };
    put_section(p, &s, tc | ac);
    s
}

fn put_section(p: &mut Put, s: &Section64, flags: u32) {
    p.name(s.sectname.as_bytes(), 16);
    p.name(s.segname.as_bytes(), 16);
    p.u64(s.addr);
    p.u64(s.size);
    p.u32(s.offset);
    p.u32(s.align);
    p.u32(s.reloff);
    p.u32(s.nreloc);
    p.u32(flags);
    p.u32(s.reserved1);
    p.u32(s.reserved2);
    p.u32(s.reserved3);
}

fn any_segment(big: bool, max_sects: usize, nattr: usize) -> Seg {
    let n = fork(max_sects + 1);
    segment_of(big, n, nattr, &|_| true)
}
/// a section told apart from its neighbours by its number
fn plain_section(p: &mut Put, i: usize) -> Section64 {
    let k = i as u32;
    let s = Section64 {
        sectname: String::from_utf8(vec![b'a' + (i % 26) as u8; i % 17]).unwrap(),
        segname: String::from_utf8(vec![b'A' + (i % 25) as u8; i % 16]).unwrap(),
        addr: i as u64 * 0x1_0000_0001,
        size: i as u64 + 1,
        offset: k * 3,
        align: k * 5,
        reloff: k * 7,
        nreloc: k,
        flags: (SectionAttrs::new(), SectionType::Regular),
        reserved1: k + 1,
        reserved2: k + 2,
        reserved3: k + 3,
    };
    put_section(p, &s, 0);
    s
}
/// n sections, arbitrary where chosen
fn segment_of(big: bool, n: usize, nattr: usize, free: &dyn Fn(usize) -> bool) -> Seg {
    let mut p = Put::new(big);
    let segname = ascii_len(&[0, 1, 15, 16]);
    let c = SegmentCommand64 {
        cmd: SegmentCommand64::TYPE,
        cmdsize: 72 + 80 * n as u32,
        segname,
        vmaddr: u64(),
        vmsize: u64(),
        fileoff: u64(),
        filesize: u64(),
        maxprot: i32(),
        initprot: i32(),
        nsects: n as u32,
        flags: u32(),
    };
    p.u32(0x19);
    p.u32(c.cmdsize);
    p.name(c.segname.as_bytes(), 16);
    p.u64(c.vmaddr);
    p.u64(c.vmsize);
    p.u64(c.fileoff);
    p.u64(c.filesize);
    p.u32(c.maxprot as u32);
    p.u32(c.initprot as u32);
    p.u32(c.nsects);
    p.u32(c.flags);
    let lens: &[usize] = if thorough() { &[0, 1, 2, 3, 8, 15, 16] } else { &[0, 3, 16] };
    let mut v = Vec::new();
    let lens = if n > 2 { &[2] } else { lens };
    for i in 0..n {
        v.push(if free(i) { any_section(&mut p, lens, nattr) } else { plain_section(&mut p, i) });
    }
    Seg {
        lc: LoadCommand::Segment64(c, v),
        bytes: p.v,
    }
}

fn any_symtab(big: bool) -> Seg {
    let c = SymtabCommand {
        cmd: SymtabCommand::TYPE,
        cmdsize: SymtabCommand::SIZE,
        symoff: u32(),
        nsyms: u32(),
        stroff: u32(),
        strsize: u32(),
    };
    let mut p = Put::new(big);
    for x in [2, 24, c.symoff, c.nsyms, c.stroff, c.strsize] {
        p.u32(x);
    }
    Seg {
        lc: LoadCommand::Symtab(c),
        bytes: p.v,
    }
}

fn any_dysymtab(big: bool) -> Seg {
    let mut w = [0u32; 18];
    for x in w.iter_mut() {
        *x = u32();
    }
    let c = DysymtabCommand {
        cmd: DysymtabCommand::TYPE,
        cmdsize: DysymtabCommand::SIZE,
        ilocalsym: w[0],
        nlocalsym: w[1],
        iextdefsym: w[2],
        nextdefsym: w[3],
        iundefsym: w[4],
        nundefsym: w[5],
        tocoff: w[6],
        ntoc: w[7],
        modtaboff: w[8],
        nmodtab: w[9],
        extrefsymoff: w[10],
        nextrefsyms: w[11],
        indirectsymoff: w[12],
        nindirectsyms: w[13],
        extreloff: w[14],
        nextrel: w[15],
        locreloff: w[16],
        nlocrel: w[17],
    };
    let mut p = Put::new(big);
    p.u32(0xb);
    p.u32(80);
    for x in w {
        p.u32(x);
    }
    Seg {
        lc: LoadCommand::Dysymtab(c),
        bytes: p.v,
    }
}

fn any_build_version(big: bool, max_tools: usize) -> Seg {
    let n = fork(max_tools + 1);
    build_version_of(big, n)
}
fn build_version_of(big: bool, n: usize) -> Seg {
    let (platform, pc) = any_of(&PLATFORMS);
    let ver = || Version {
        major: u16(),
        minor: u8(),
        release: u8(),
    };
    let (minos, sdk) = (ver(), ver());
    let code = |v: &Version| (v.major as u32) << 16 | (v.minor as u32) << 8 | v.release as u32;
    let mut p = Put::new(big);
    for x in [0x32, 24 + 8 * n as u32, pc, code(&minos), code(&sdk), n as u32] {
        p.u32(x);
    }
    let c = BuildVersionCommand {
        cmd: BuildVersionCommand::TYPE,
        cmdsize: 24 + 8 * n as u32,
        platform,
        minos,
        sdk,
        ntools: n as u32,
    };
    let mut v = Vec::new();
    for _ in 0..n {
        let (tool, tc) = any_of(&TOOLS);
        let version = u32();
        p.u32(tc);
        p.u32(version);
        v.push(BuildToolVersion { tool, version });
    }
    Seg {
        lc: LoadCommand::BuildVersion(c, v),
        bytes: p.v,
    }
}

fn round(x: &Seg) {
    let mut b = Vec::new();
    x.lc.write_into(&mut b);
    obs_bytes(&b);
    check(b.len() == x.bytes.len(), "size of the encoded command");
    check(eq(&b, &x.bytes), "encoded fields at their offsets");
    check(x.lc.cmd() == le32(&x.bytes, 0) && x.lc.cmd_size() == le32(&x.bytes, 4), "cmd and cmdsize reported");
    check(x.lc.cmd_size() as usize == b.len(), "cmdsize covers the whole command");
    b.extend_from_slice(&[0xEE; 3]);
    let mut rest = &b[..];
    let r = LoadCommand::read_from_in(&mut rest, endian!(false));
    check(rest.len() == 3, "reading consumes exactly the command");
    check(r == x.lc, "the command reads back equal");
    reach(1);
}

pub fn lc_segment() {
    round(&any_segment(false, 1, 1));
}
/// more sections than a narrow count can hold, the first and last arbitrary
pub fn lc_segment_many() {
    let n = pick(if thorough() { &[3usize, 9, 127, 128, 254, 255, 256, 257, 300] } else { &[3usize, 255, 256, 257] });
    round(&segment_of(false, n, 1, &|i| i + 1 == n));
}
pub fn swap_segment_many() {
    let n = pick(&[3usize, 255, 256, 257]);
    swap_lc(&segment_of(true, n, 1, &|i| i + 1 == n));
}
pub fn lc_build_version_many() {
    let n = pick(if thorough() { &[9usize, 127, 128, 254, 255, 256, 257, 300, 8191, 8192, 8193] } else { &[9usize, 255, 256, 257] });
    round(&build_version_of(false, n));
}
pub fn swap_build_version_many() {
    let n = pick(&[9usize, 255, 256, 257]);
    swap_lc(&build_version_of(true, n));
}
pub fn lc_segment_wide() {
    round(&any_segment(false, 2, 2));
}
pub fn lc_symtab() {
    round(&any_symtab(false));
}
pub fn lc_dysymtab() {
    round(&any_dysymtab(false));
}
pub fn lc_build_version() {
    round(&any_build_version(false, bound(2, 3)));
}

// ---------------------------------------------------------------- symbols, relocations
struct Nl {
    v: NList64,
    code: u8,
}
fn any_nlist() -> Nl {
    let (n_type, code) = if fork(2) == 0 {
        let (t, c) = any_of(&NTYPES);
        let (p, e) = (flag(), flag());
        (
            NTypeField::Norm {
                n_pext: p,
                n_type: t,
                n_ext: e,
            },
            c | (p as u8) << 4 | e as u8,
        )
    } else {
        (NTypeField::Stab(DebugSymbol::Gsym), 0x20)
    };
    Nl {
        v: NList64 {
            n_strx: u32(),
            n_type,
            n_sect: u8(),
            n_desc: u16(),
            n_value: u64(),
        },
        code,
    }
}
fn put_nlist(p: &mut Put, n: &Nl) {
    p.u32(n.v.n_strx);
    p.u8(n.code);
    p.u8(n.v.n_sect);
    p.u16(n.v.n_desc);
    p.u64(n.v.n_value);
}
pub fn nlist() {
    let n = any_nlist();
    let mut p = Put::new(false);
    put_nlist(&mut p, &n);
    let mut b = Vec::new();
    n.v.write_into(&mut b);
    obs_bytes(&b);
    check(b.len() == 16 && NList64::SIZE == 16, "a symbol entry is 16 bytes");
    check(eq(&b, &p.v), "symbol fields at their offsets");
    check(n.v.n_type.to_u8() == n.code, "type byte");
    b.push(0xEE);
    let mut rest = &b[..];
    let r = NList64::read_from_in(&mut rest, endian!(false));
    check(rest.len() == 1, "reading consumes exactly the entry");
    check(r == n.v, "the entry reads back equal");
    reach(1);
}

fn any_reloc() -> RelocationInfo {
    let num = u32();
    assume(num < 1 << 24);
    RelocationInfo {
        r_address: i32(),
        r_symbolnum: num,
        r_pcrel: flag(),
        r_length: any_of(&RLENS).0,
        r_extern: flag(),
        r_type: below(16),
    }
}
fn put_reloc(p: &mut Put, r: &RelocationInfo) {
    p.u32(r.r_address as u32);
    let len = r.r_length.to_u32();
    // reloc.h: r_symbolnum:24, r_pcrel:1, r_length:2, r_extern:1, r_type:4;
    // bit-fields fill from the low end on little-endian, from the high end on
    // big-endian targets
    let w = if p.big {
        r.r_symbolnum << 8 | (r.r_pcrel as u32) << 7 | len << 5 | (r.r_extern as u32) << 4 | r.r_type as u32
    } else {
        r.r_symbolnum | (r.r_pcrel as u32) << 24 | len << 25 | (r.r_extern as u32) << 27 | (r.r_type as u32) << 28
    };
    p.u32(w);
}
pub fn reloc() {
    let v = any_reloc();
    let mut p = Put::new(false);
    put_reloc(&mut p, &v);
    let mut b = Vec::new();
    v.write_into(&mut b);
    obs_bytes(&b);
    check(b.len() == 8 && RelocationInfo::SIZE == 8, "a relocation entry is 8 bytes");
    check(eq(&b, &p.v), "relocation fields at their offsets");
    b.push(0xEE);
    let mut rest = &b[..];
    let r = RelocationInfo::read_from_in(&mut rest, endian!(false));
    check(rest.len() == 1, "reading consumes exactly the entry");
    check(r == v, "the entry reads back equal");
    reach(1);
}
pub fn reloc_codes() {
    let i = below(10) as usize;
    let (t, c) = X64_RELOCS[i];
    check(t.to_u8() == c, "x86-64 relocation type code");
    check(X86_64RelocType::from_u8(c) == t, "x86-64 relocation type from its code");
    let j = below(6) as usize;
    let (t, c) = X86_RELOCS[j];
    check(t.to_u8() == c, "x86 relocation type code");
    check(X86RelocType::from_u8(c) == t, "x86 relocation type from its code");
    let (l, c) = any_of(&RLENS);
    check(l.to_u32() == c && RelocLength::from_u32(c) == l, "relocation length code");
    reach(1);
}

// ---------------------------------------------------------------- accepted bytes survive
fn bytes(n: usize) -> Vec<u8> {
    let mut v = Vec::new();
    for _ in 0..n {
        v.push(u8());
    }
    v
}
fn set32(b: &mut [u8], o: usize, x: u32) {
    for i in 0..4 {
        b[o + i] = (x >> (8 * i)) as u8;
    }
}
/// a name field: ASCII, zero from the first NUL on (what write can express)
fn tidy_name(b: &mut [u8], o: usize, n: usize) {
    for i in 0..16 {
        if i < n {
            assume(b[o + i] >= 1 && b[o + i] < 128);
        } else {
            b[o + i] = 0;
        }
    }
}
fn same(b: &[u8], w: &[u8]) {
    obs_bytes(w);
    check(w.len() == b.len(), "accepted bytes are re-encoded at the same size");
    check(eq(w, b), "accepted bytes are re-encoded identically");
    reach(1);
}

/// all flag words whose bits lie in one 8-bit window (thorough: 12-bit)
fn window() -> u32 {
    let f = u32();
    if thorough() {
        let s = pick(&[0u32, 10, 20]);
        assume(f & !(0xFFF << s) == 0);
    } else {
        let s = pick(&[0u32, 8, 16, 24]);
        assume(f & !(0xFF << s) == 0);
    }
    f
}
pub fn back_header() {
    panics_allowed(true);
    let mut b = bytes(32);
    let magic = pick(&[0xfeedfacfu32, 0xfeedface]);
    set32(&mut b, 0, magic);
    let f = window();
    set32(&mut b, 24, f);
    let (h, _) = Header64::read_from(&mut &b[..]);
    let mut w = Vec::new();
    h.write_into(&mut w);
    same(&b, &w);
}
pub fn back_segment() {
    panics_allowed(true);
    let n = fork(2);
    let mut b = bytes(72 + 80 * n);
    set32(&mut b, 0, 0x19);
    let k = pick(&[0usize, 5, 16]);
    tidy_name(&mut b, 8, k);
    // section count: any value the size check can accept for this buffer
    assume(le32(&b, 64) == n as u32);
    if n == 1 {
        let k = pick(&[0usize, 6, 16]);
        tidy_name(&mut b, 72, k);
        tidy_name(&mut b, 72 + 16, k);
        let f = window();
        set32(&mut b, 72 + 64, f);
    }
    let e = endian!(false);
    let lc = LoadCommand::read_from_in(&mut &b[..], e);
    let mut w = Vec::new();
    lc.write_into(&mut w);
    same(&b, &w);
}
pub fn back_fixed() {
    panics_allowed(true);
    let e = endian!(false);
    let (cmd, len) = pick(&[(2u32, 24usize), (0xb, 80)]);
    let mut b = bytes(len);
    set32(&mut b, 0, cmd);
    let lc = LoadCommand::read_from_in(&mut &b[..], e);
    let mut w = Vec::new();
    lc.write_into(&mut w);
    same(&b, &w);
}
pub fn back_build_version() {
    panics_allowed(true);
    let e = endian!(false);
    let n = fork(3);
    let mut b = bytes(24 + 8 * n);
    set32(&mut b, 0, 0x32);
    assume(le32(&b, 20) == n as u32);
    let lc = LoadCommand::read_from_in(&mut &b[..], e);
    let mut w = Vec::new();
    lc.write_into(&mut w);
    same(&b, &w);
}
/// commands of more entries than a narrow count can hold, the last arbitrary
pub fn back_many() {
    panics_allowed(true);
    let e = endian!(false);
    let n = pick(if thorough() { &[3usize, 255, 256, 257] } else { &[3usize, 256] });
    let b = if fork(2) == 0 {
        let mut x = build_version_of(false, 2).bytes;
        set32(&mut x, 4, 24 + 8 * n as u32);
        set32(&mut x, 20, n as u32);
        let l = x.len();
        for i in 2..n {
            let t = if i + 1 == n { u32() } else { 1 + i as u32 % 3 };
            let v = if i + 1 == n { u32() } else { i as u32 };
            x.resize(l + 8 * (i - 1), 0);
            set32(&mut x, l + 8 * (i - 2), t);
            set32(&mut x, l + 8 * (i - 2) + 4, v);
        }
        x
    } else {
        let mut x = segment_of(false, n, 0, &|_| false).bytes;
        let l = x.len() - 80;
        for i in 32..80 {
            x[l + i] = u8();
        }
        let f = window();
        set32(&mut x, l + 64, f);
        x
    };
    let lc = LoadCommand::read_from_in(&mut &b[..], e);
    let mut w = Vec::new();
    lc.write_into(&mut w);
    same(&b, &w);
}
pub fn back_nlist() {
    panics_allowed(true);
    let e = endian!(false);
    let b = bytes(16);
    let v = NList64::read_from_in(&mut &b[..], e);
    let mut w = Vec::new();
    v.write_into(&mut w);
    same(&b, &w);
}
pub fn back_reloc() {
    let e = endian!(false);
    let b = bytes(8);
    let v = RelocationInfo::read_from_in(&mut &b[..], e);
    let mut w = Vec::new();
    v.write_into(&mut w);
    same(&b, &w);
}
/// an unknown command, or one whose size does not match its contents, is never
/// taken for a known record
pub fn back_size_mismatch() {
    panics_allowed(true);
    let e = endian!(false);
    let mut b = bytes(24);
    b.resize(24 + 72 + 160, 0);
    let cmd = le32(&b, 0);
    let size = le32(&b, 4);
    // segment: its section count sits beyond the symbolic part
    let nsects = fork(3) as u32;
    if cmd == 0x19 {
        for i in 8..24 {
            b[i] = 0;
        }
        set32(&mut b, 64, nsects);
    }
    if cmd == 0x32 {
        set32(&mut b, 20, nsects);
        set32(&mut b, 24, 1);
        set32(&mut b, 32, 2);
    }
    let lc = LoadCommand::read_from_in(&mut &b[..], e);
    check(cmd == 0x19 || cmd == 2 || cmd == 0xb || cmd == 0x32, "only known commands are accepted");
    check(lc.cmd() == cmd && lc.cmd_size() == size, "command and size as read");
    let want = match cmd {
        0x19 => 72 + 80 * nsects,
        2 => 24,
        0xb => 80,
        _ => 24 + 8 * nsects,
    };
    check(size == want, "a command whose size field contradicts its contents is refused");
    reach(1);
}

// ---------------------------------------------------------------- foreign byte order
pub fn swap_header() {
    let n = fork(3);
    let x = any_header(n);
    let mut p = Put::new(true);
    for v in [x.magic, x.cpu, 3, x.file, x.h.n_cmds, x.h.size_of_cmds, x.flags, x.h.reserved] {
        p.u32(v);
    }
    let (r, e) = Header64::read_from(&mut &p.v[..]);
    let want = if x.magic == 0xfeedfacf { Magic::Cigam64 } else { Magic::Cigam };
    check(r.magic == want, "a byte-swapped magic is recognised");
    check(e != endian!(false) && e == endian!(true), "the byte order reported is the file's");
    check(r.cpu_type == x.h.cpu_type && r.file_type == x.h.file_type, "types decode alike in both byte orders");
    check(
        r.n_cmds == x.h.n_cmds && r.size_of_cmds == x.h.size_of_cmds && r.reserved == x.h.reserved,
        "counts decode alike in both byte orders",
    );
    check(r.flags.to_u32() == x.flags, "flags decode alike in both byte orders");
    reach(1);
}
fn swap_lc(x: &Seg) {
    let mut b = x.bytes.clone();
    b.push(0xEE);
    let mut rest = &b[..];
    let r = LoadCommand::read_from_in(&mut rest, endian!(true));
    check(rest.len() == 1, "reading consumes exactly the command");
    check(r == x.lc, "the command decodes alike in both byte orders");
    reach(1);
}
pub fn swap_segment() {
    swap_lc(&any_segment(true, 1, 1))
}
pub fn swap_symtab() {
    swap_lc(&any_symtab(true))
}
pub fn swap_dysymtab() {
    swap_lc(&any_dysymtab(true))
}
pub fn swap_build_version() {
    swap_lc(&any_build_version(true, 2))
}
pub fn swap_nlist() {
    let n = any_nlist();
    let mut p = Put::new(true);
    put_nlist(&mut p, &n);
    let r = NList64::read_from_in(&mut &p.v[..], endian!(true));
    check(r == n.v, "the symbol entry decodes alike in both byte orders");
    reach(1);
}
pub fn swap_reloc() {
    let v = any_reloc();
    let mut p = Put::new(true);
    put_reloc(&mut p, &v);
    let r = RelocationInfo::read_from_in(&mut &p.v[..], endian!(true));
    check(r == v, "the relocation entry decodes alike in both byte orders");
    reach(1);
}

// ---------------------------------------------------------------- string table
pub fn strings() {
    let k = bound(3, 4);
    let n = fork(k) + 1;
    let mut t = StringTable::with_null();
    let mut want = vec![0u8];
    let mut offs = Vec::new();
    let mut strs = Vec::new();
    for _ in 0..n {
        let l = fork(bound(3, 4));
        let s = ascii(l);
        offs.push(want.len());
        want.extend_from_slice(s.as_bytes());
        want.push(0);
        check(t.len() == offs[offs.len() - 1], "the next string goes at the current end");
        t.push_with_null(&s);
        strs.push(s);
    }
    obs_bytes(t.as_ref());
    check(eq(t.as_ref(), &want) && t.len() == want.len(), "strings are stored in order, each NUL-terminated, after a leading NUL");
    check(t.get(0).is_empty(), "index 0 is the empty string");
    for i in 0..n {
        let s = strs[i].as_bytes();
        for j in 0..=s.len() {
            check(eq(t.get(offs[i] + j).as_bytes(), &s[j..]), "looking up an offset gives the string stored there");
        }
    }
    let mut i = 0;
    for s in t.iter() {
        if i < n {
            check(eq(s.as_bytes(), strs[i].as_bytes()), "iteration yields the stored strings in order");
        } else {
            check(s.is_empty(), "nothing after the stored strings");
        }
        i += 1;
    }
    check(i >= n, "iteration yields every stored string");
    let u = StringTable::from(want.clone());
    check(u.len() == want.len() && eq(u.as_ref(), &want), "a table made from bytes keeps them");
    for i in 0..n {
        check(eq(u.get(offs[i]).as_bytes(), strs[i].as_bytes()), "a table made from bytes answers alike");
    }
    reach(1);
}

/// long strings and many strings
pub fn strings_big() {
    let (n, l) = pick(if thorough() {
        &[(300usize, 3usize), (257, 0), (5000, 12), (2, 254), (2, 255), (2, 256), (2, 257), (1, 65534), (2, 65535), (2, 65536), (2, 70000)]
    } else {
        &[(300usize, 3usize), (257, 0), (2, 254), (2, 255), (2, 256), (2, 65535), (2, 70000)]
    });
    let mut t = StringTable::with_null();
    let mut want = vec![0u8];
    let mut offs = Vec::new();
    for i in 0..n {
        let mut v = Vec::with_capacity(l);
        let mut c = 33 + (i % 90) as u8;
        for _ in 0..l {
            v.push(c);
            c = if c >= 126 { 33 } else { c + 1 };
        }
        if l > 0 && (i < 2 || i + 1 == n) {
            v[l - 1] = byte_in(1, 127);
            v[0] = byte_in(1, 127);
        }
        offs.push(want.len());
        want.extend_from_slice(&v);
        want.push(0);
        t.push_with_null(&String::from_utf8(v).unwrap());
    }
    check(t.len() == want.len() && eq(t.as_ref(), &want), "strings are stored in order, each NUL-terminated, after a leading NUL");
    let u = StringTable::from(want.clone());
    check(u.len() == want.len() && eq(u.as_ref(), &want), "a table made from bytes keeps them");
    let step = if n > 20 { n / 20 } else { 1 };
    let mut i = n - 1;
    loop {
        let s = &want[offs[i]..offs[i] + l];
        check(eq(t.get(offs[i]).as_bytes(), s), "looking up an offset gives the string stored there");
        check(eq(u.get(offs[i]).as_bytes(), s), "a table made from bytes answers alike");
        for j in [1usize, 255, 256, 65535, l] {
            if j <= l {
                check(eq(t.get(offs[i] + j).as_bytes(), &s[j..]), "looking up an offset gives the string stored there");
            }
        }
        if i < step {
            break;
        }
        i -= step;
    }
    let mut i = 0;
    for s in t.iter() {
        if i < n {
            check(eq(s.as_bytes(), &want[offs[i]..offs[i] + l]), "iteration yields the stored strings in order");
        } else {
            check(s.is_empty(), "nothing after the stored strings");
        }
        i += 1;
    }
    check(i >= n, "iteration yields every stored string");
    reach(1);
}

// ---------------------------------------------------------------- readers that deliver pieces
struct Chunks<'a> {
    b: &'a [u8],
    /// size of the first piece, then of the following ones
    first: usize,
    then: usize,
    /// interrupted before this many calls
    intr: usize,
    calls: usize,
}
impl<'a> Read for Chunks<'a> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let c = self.calls;
        self.calls += 1;
        if c == self.intr {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        let lim = if self.first > 0 { self.first } else { self.then };
        let n = lim.min(buf.len()).min(self.b.len());
        if self.first > 0 {
            self.first -= n;
        }
        buf[..n].copy_from_slice(&self.b[..n]);
        self.b = &self.b[n..];
        Ok(n)
    }
}
fn record(kind: usize) -> Vec<u8> {
    let mut b = match kind {
        0 => {
            let n = fork(2);
            let x = any_header(n);
            let mut v = Vec::new();
            x.h.write_into(&mut v);
            v
        }
        1 => any_segment(false, 1, 0).bytes,
        2 => any_symtab(false).bytes,
        3 => any_dysymtab(false).bytes,
        4 => any_build_version(false, 1).bytes,
        5 => {
            let mut p = Put::new(false);
            put_nlist(&mut p, &any_nlist());
            p.v
        }
        _ => {
            let mut p = Put::new(false);
            put_reloc(&mut p, &any_reloc());
            p.v
        }
    };
    b.shrink_to_fit();
    b
}
enum Rec {
    H(Header64),
    L(LoadCommand),
    N(NList64),
    R(RelocationInfo),
}
fn read_rec<R: Read>(kind: usize, r: &mut R) -> Rec {
    match kind {
        0 => Rec::H(Header64::read_from(r).0),
        1..=4 => Rec::L(LoadCommand::read_from_in(r, endian!(false))),
        5 => Rec::N(NList64::read_from_in(r, endian!(false))),
        _ => Rec::R(RelocationInfo::read_from_in(r, endian!(false))),
    }
}
fn same_rec(a: &Rec, b: &Rec) -> bool {
    match (a, b) {
        (Rec::H(x), Rec::H(y)) => x == y,
        (Rec::L(x), Rec::L(y)) => x == y,
        (Rec::N(x), Rec::N(y)) => x == y,
        (Rec::R(x), Rec::R(y)) => x == y,
        _ => false,
    }
}
pub fn chunked() {
    let kind = fork(7);
    let b = record(kind);
    let whole = read_rec(kind, &mut &b[..]);
    // where the first piece ends, how big the others are, where a signal hits
    let first = fork(b.len());
    let then = pick(&[1usize, 3, 64]);
    let intr = pick(&[0usize, 1, 2, 1000]);
    let mut c = Chunks {
        b: &b,
        first,
        then,
        intr,
        calls: 0,
    };
    let r = read_rec(kind, &mut c);
    check(c.b.is_empty(), "the whole record is consumed");
    check(same_rec(&r, &whole), "how the source delivers the bytes does not change the record");
    reach(1);
}
pub fn truncated() {
    let kind = fork(7);
    let b = record(kind);
    let n = fork(b.len());
    reach(1);
    panics_allowed(true);
    let _ = read_rec(kind, &mut &b[..n]);
    check(false, "a truncated record must not be decoded");
}

// ---------------------------------------------------------------- attribute lists, names as they come
/// attributes in any order, given once or more often
pub fn section_attrs() {
    let n = fork(if thorough() { 5 } else { 4 });
    let (ty, tc) = any_of(&SECT_TYPES);
    let mut at = SectionAttrs::new();
    let mut ac = 0;
    for _ in 0..n {
        let (a, c) = any_of(&SECT_ATTRS);
        at.push(a);
        ac |= c;
    }
    check(at.to_u32() == ac, "the attribute word is the union of the attributes");
    let mut p = Put::new(false);
    let mut s = plain_section(&mut p, 3);
    s.flags = (at, ty);
    let mut b = Vec::new();
    s.write_into(&mut b);
    obs_bytes(&b);
    check(b.len() == 80, "a section is 80 bytes");
    check(le32(&b, 64) == tc | ac, "section flags at offset 64");
    let back = Section64::read_from_in(&mut &b[..], endian!(false));
    check(back.flags.0.to_u32() == ac && back.flags.1 == ty, "type and attributes read back");
    let mut w = Vec::new();
    back.write_into(&mut w);
    check(eq(&w, &b), "accepted bytes are re-encoded identically");
    reach(1);
}
/// a name field of any bytes: refused, or its bytes up to the first NUL
pub fn back_names() {
    panics_allowed(true);
    let mut p = Put::new(false);
    let s = plain_section(&mut p, 2);
    let mut b = Vec::new();
    s.write_into(&mut b);
    let field = pick(&[0usize, 16]);
    let len = pick(&[1usize, 4, 9, 16]);
    for i in 0..16 {
        b[field + i] = if i < len { b'a' + i as u8 } else { 0 };
    }
    // the last bytes of the name are arbitrary
    let free = pick(if thorough() { &[1usize, 2, 3, 4] } else { &[1usize, 2, 3] });
    assume(free <= len);
    for i in len - free..len {
        b[field + i] = u8();
    }
    let end = (0..len).find(|&i| b[field + i] == 0).unwrap_or(len);
    let back = Section64::read_from_in(&mut &b[..], endian!(false));
    let (it, other) = if field == 0 { (&back.sectname, &back.segname) } else { (&back.segname, &back.sectname) };
    check(eq(it.as_bytes(), &b[field..field + end]), "a name is the field's bytes up to the first NUL");
    let rest = if field == 0 { s.segname } else { s.sectname };
    check(*other == rest, "the other name is untouched");
    reach(1);
}
