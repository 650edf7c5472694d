//! Reference reader for 64-bit little-endian Mach-O relocatable objects,
//! written from loader.h / nlist.h / reloc.h, independent of at-mac.
use crate::h_mac::{le16, le32, le64};
use crate::sym::check;

#[derive(Clone, Debug)]
pub struct Sect {
    pub sectname: [u8; 16],
    pub segname: [u8; 16],
    pub addr: u64,
    pub size: u64,
    pub offset: u32,
    pub align: u32,
    pub reloff: u32,
    pub nreloc: u32,
    pub flags: u32,
}
impl Sect {
    pub fn zerofill(&self) -> bool {
        self.flags & 0xff == 1
    }
    pub fn is(&self, seg: &str, sect: &str) -> bool {
        fixed(&self.segname, seg) && fixed(&self.sectname, sect)
    }
}
fn fixed(f: &[u8; 16], s: &str) -> bool {
    let s = s.as_bytes();
    let mut i = 0;
    while i < 16 {
        let w = if i < s.len() { s[i] } else { 0 };
        if f[i] != w {
            return false;
        }
        i += 1;
    }
    true
}

pub struct View<'a> {
    pub b: &'a [u8],
    pub vmaddr: u64,
    pub vmsize: u64,
    pub fileoff: u64,
    pub filesize: u64,
    pub cmds_end: usize,
    pub sects: Vec<Sect>,
    pub symoff: u32,
    pub nsyms: u32,
    pub stroff: u32,
    pub strsize: u32,
}

#[derive(Clone, Copy)]
pub struct Nlist {
    pub strx: u32,
    pub ty: u8,
    pub sect: u8,
    pub desc: u16,
    pub value: u64,
}
#[derive(Clone, Copy)]
pub struct Rel {
    pub addr: i32,
    pub sym: u32,
    pub pcrel: bool,
    pub len: u8,
    pub ext: bool,
    pub ty: u8,
}

/// None after a failed `check`
pub fn parse<'a>(b: &'a [u8]) -> Option<View<'a>> {
    macro_rules! need {
        ($c:expr, $m:expr) => {
            let c = $c;
            check(c, $m);
            if !c {
                return None;
            }
        };
    }
    need!(b.len() >= 32, "the file starts with a complete header");
    need!(le32(b, 0) == 0xfeedfacf, "magic of a 64-bit little-endian file");
    need!(le32(b, 4) == 0x0100_0007 && le32(b, 8) == 3, "x86-64 cpu type");
    need!(le32(b, 12) == 1, "relocatable object file type");
    need!(le32(b, 24) & !0x2000 == 0 && le32(b, 28) == 0, "no flag of a linked image, reserved word zero");
    let ncmds = le32(b, 16);
    let size = le32(b, 20) as usize;
    need!(32 + size <= b.len(), "load commands lie inside the file");
    let mut v = View {
        b,
        vmaddr: 0,
        vmsize: 0,
        fileoff: 0,
        filesize: 0,
        cmds_end: 32 + size,
        sects: Vec::new(),
        symoff: 0,
        nsyms: 0,
        stroff: 0,
        strsize: 0,
    };
    let (mut segs, mut tabs) = (0, 0);
    let mut o = 32;
    let mut k = 0;
    while k < ncmds {
        need!(o + 8 <= v.cmds_end, "every load command lies inside sizeofcmds");
        let cmd = le32(b, o);
        let cs = le32(b, o + 4) as usize;
        need!(cs >= 8 && o + cs <= v.cmds_end, "every load command lies inside sizeofcmds");
        if cmd == 0x19 {
            segs += 1;
            need!(cs >= 72, "size of the segment command");
            let n = le32(b, o + 64) as usize;
            need!(cs == 72 + 80 * n, "the segment command holds exactly its sections");
            let mut unnamed = 0;
            for i in 0..16 {
                unnamed |= b[o + 8 + i];
            }
            check(unnamed == 0, "the segment of an object file has no name");
            let (max, init) = (le32(b, o + 56), le32(b, o + 60));
            check(init & 7 == 7 && max & init == init, "the segment of an object file may be read, written and executed");
            v.vmaddr = le64(b, o + 24);
            v.vmsize = le64(b, o + 32);
            v.fileoff = le64(b, o + 40);
            v.filesize = le64(b, o + 48);
            for i in 0..n {
                let s = o + 72 + 80 * i;
                let mut sect = Sect {
                    sectname: [0; 16],
                    segname: [0; 16],
                    addr: le64(b, s + 32),
                    size: le64(b, s + 40),
                    offset: le32(b, s + 48),
                    align: le32(b, s + 52),
                    reloff: le32(b, s + 56),
                    nreloc: le32(b, s + 60),
                    flags: le32(b, s + 64),
                };
                sect.sectname.copy_from_slice(&b[s..s + 16]);
                sect.segname.copy_from_slice(&b[s + 16..s + 32]);
                v.sects.push(sect);
            }
        } else if cmd == 2 {
            tabs += 1;
            need!(cs == 24, "size of the symbol table command");
            v.symoff = le32(b, o + 8);
            v.nsyms = le32(b, o + 12);
            v.stroff = le32(b, o + 16);
            v.strsize = le32(b, o + 20);
        }
        o += cs;
        k += 1;
    }
    need!(o == v.cmds_end, "sizeofcmds is the sum of the command sizes");
    need!(segs == 1 && tabs == 1, "one segment and one symbol table");
    need!(
        v.symoff as u64 + 16 * v.nsyms as u64 <= b.len() as u64,
        "the symbol table lies inside the file"
    );
    need!(
        v.stroff as u64 + v.strsize as u64 <= b.len() as u64,
        "the string table lies inside the file"
    );
    Some(v)
}

impl<'a> View<'a> {
    /// every region lies inside the file, none overlaps another, and nothing
    /// but a few zero padding bytes is left over
    pub fn check_layout(&self) {
        let len = self.b.len() as u64;
        check(self.fileoff >= self.cmds_end as u64, "segment contents start after the load commands");
        check(self.fileoff <= len && self.filesize <= len - self.fileoff, "segment contents lie inside the file");
        check(self.filesize <= self.vmsize, "a segment maps no more of the file than its memory size");
        // (start, end), in file order: commands, section data, relocations, symbols, strings
        let mut regions: Vec<(u64, u64)> = Vec::new();
        regions.push((0, self.cmds_end as u64));
        for s in &self.sects {
            if !s.zerofill() {
                let (o, n) = (s.offset as u64, s.size);
                check(
                    o >= self.fileoff && o + n <= self.fileoff + self.filesize,
                    "section contents lie inside the segment's part of the file",
                );
                if n > 0 {
                    regions.push((o, o + n));
                }
            }
        }
        for s in &self.sects {
            if s.nreloc > 0 {
                check(s.reloff % 4 == 0, "relocation entries are aligned");
                regions.push((s.reloff as u64, s.reloff as u64 + 8 * s.nreloc as u64));
            }
        }
        if self.nsyms > 0 {
            check(self.symoff % 8 == 0, "symbol entries are aligned");
            regions.push((self.symoff as u64, self.symoff as u64 + 16 * self.nsyms as u64));
        }
        if self.strsize > 0 {
            regions.push((self.stroff as u64, self.stroff as u64 + self.strsize as u64));
        }
        regions.sort();
        let mut at = 0;
        let mut gap = 0;
        for &(s, e) in &regions {
            check(s >= at, "no two parts of the file overlap");
            check(e <= len, "every part lies inside the file");
            if s >= at && s <= len {
                for i in at..s {
                    check(self.b[i as usize] == 0, "padding is zero");
                }
                gap += s - at;
            }
            at = e;
        }
        check(at == len, "the file ends with its last part");
        check(gap < 8, "only alignment padding between the parts");
        // memory image
        let mut va = self.vmaddr;
        for s in &self.sects {
            check(s.addr >= va, "sections do not overlap in memory");
            va = s.addr.wrapping_add(s.size);
            check(va >= s.addr, "section end address does not wrap");
            check(s.align < 64 && s.addr & ((1u64 << (s.align & 63)) - 1) == 0, "section address is aligned as declared");
        }
        check(va.wrapping_sub(self.vmaddr) <= self.vmsize, "sections lie inside the segment's memory");
        check(self.strsize > 0 && self.b[self.stroff as usize] == 0, "the string table starts with the empty string");
        check(
            self.strsize > 0 && self.b[(self.stroff + self.strsize - 1) as usize] == 0,
            "the string table ends with a NUL",
        );
    }

    pub fn find(&self, seg: &str, sect: &str) -> Option<(usize, &Sect)> {
        self.sects.iter().enumerate().find(|(_, s)| s.is(seg, sect))
    }
    pub fn data(&self, s: &Sect) -> &'a [u8] {
        let o = s.offset as usize;
        &self.b[o..o + s.size as usize]
    }
    pub fn nlist(&self, i: u32) -> Nlist {
        let o = (self.symoff + 16 * i) as usize;
        Nlist {
            strx: le32(self.b, o),
            ty: self.b[o + 4],
            sect: self.b[o + 5],
            desc: le16(self.b, o + 6),
            value: le64(self.b, o + 8),
        }
    }
    /// the NUL-terminated string at an index of the string table
    pub fn string(&self, strx: u32) -> &'a [u8] {
        check(strx < self.strsize, "string index lies inside the string table");
        if strx >= self.strsize {
            return &[];
        }
        let t = &self.b[self.stroff as usize..(self.stroff + self.strsize) as usize];
        let s = strx as usize;
        let mut e = s;
        while e < t.len() && t[e] != 0 {
            e += 1;
        }
        check(e < t.len(), "every string is NUL-terminated");
        &t[s..e]
    }
    pub fn reloc(&self, s: &Sect, i: u32) -> Rel {
        let o = (s.reloff + 8 * i) as usize;
        let w = le32(self.b, o + 4);
        Rel {
            addr: le32(self.b, o) as i32,
            sym: w & 0xff_ffff,
            pcrel: w >> 24 & 1 == 1,
            len: (w >> 25 & 3) as u8,
            ext: w >> 27 & 1 == 1,
            ty: (w >> 28) as u8,
        }
    }
}
