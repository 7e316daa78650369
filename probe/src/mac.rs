use at_mac::header::*;
use at_mac::load_command::*;
use at_mac::load_command::build_version::*;
use at_mac::load_command::segment64::*;
use at_mac::nlist::*;
use at_mac::reloc::*;
use at_mac::string_table::StringTable;
use crate::Fin;
use std::fs::File;
use std::io::Read;

// ---- writers
pub fn w_header(v: &Header64) -> Vec<u8> { let mut o = Vec::new(); v.write_into(&mut o); o }
pub fn w_lc(v: &LoadCommand) -> Vec<u8> { let mut o = Vec::new(); v.write_into(&mut o); o }
pub fn w_seg(v: &SegmentCommand64) -> Vec<u8> { let mut o = Vec::new(); v.write_into(&mut o); o }
pub fn w_sect(v: &Section64) -> Vec<u8> { let mut o = Vec::new(); v.write_into(&mut o); o }
pub fn w_symtab(v: &SymtabCommand) -> Vec<u8> { let mut o = Vec::new(); v.write_into(&mut o); o }
pub fn w_dysymtab(v: &DysymtabCommand) -> Vec<u8> { let mut o = Vec::new(); v.write_into(&mut o); o }
pub fn w_build(v: &BuildVersionCommand) -> Vec<u8> { let mut o = Vec::new(); v.write_into(&mut o); o }
pub fn w_tool(v: &BuildToolVersion) -> Vec<u8> { let mut o = Vec::new(); v.write_into(&mut o); o }
pub fn w_nlist(v: &NList64) -> Vec<u8> { let mut o = Vec::new(); v.write_into(&mut o); o }
pub fn w_reloc(v: RelocationInfo) -> Vec<u8> { let mut o = Vec::new(); v.write_into(&mut o); o }

// ---- readers: `hdr` is a Mach-O header, it selects the byte order; the count is
// the number of bytes of `b` left unread
pub fn r_header(mut b: &[u8]) -> (Header64, usize) { let (h, _) = Header64::read_from(&mut b); (h, b.len()) }
macro_rules! reader {
    ($n:ident, $t:ty) => {
        pub fn $n(mut hdr: &[u8], mut b: &[u8]) -> ($t, usize) {
            let (_, e) = Header64::read_from(&mut hdr);
            let v = <$t>::read_from_in(&mut b, e);
            (v, b.len())
        }
    };
}
reader!(r_lc, LoadCommand);
reader!(r_seg, SegmentCommand64);
reader!(r_sect, Section64);
reader!(r_symtab, SymtabCommand);
reader!(r_dysymtab, DysymtabCommand);
reader!(r_build, BuildVersionCommand);
reader!(r_tool, BuildToolVersion);
reader!(r_nlist, NList64);
reader!(r_reloc, RelocationInfo);

// ---- load commands as a whole
pub fn lc_cmd(v: &LoadCommand) -> u32 { v.cmd() }
pub fn lc_size(v: &LoadCommand) -> u32 { v.cmd_size() }

// ---- codes
pub fn magic_from(n: u32) -> Magic { Magic::from_u32(n) }
pub fn magic_try(n: u32) -> Option<Magic> { Magic::from_u32_checked(n) }
pub fn magic_to(v: &Magic) -> u32 { v.to_u32() }
pub fn cpu_from(a: i32, b: i32) -> CpuType { CpuType::from_i32_i32(a, b) }
pub fn cpu_to(v: &CpuType) -> (i32, i32) { v.to_i32_i32() }
pub fn filetype_from(n: u32) -> FileType { FileType::from_u32(n) }
pub fn filetype_to(v: FileType) -> u32 { v.to_u32() }
pub fn flag_from(n: u32) -> Flag { Flag::from_u32(n) }
pub fn flag_to(v: Flag) -> u32 { v.to_u32() }
pub fn flags_from(n: u32) -> Flags { Flags::from_u32(n) }
pub fn flags_to(v: &Flags) -> u32 { v.to_u32() }
pub fn flags_push(a: Flag, b: Flag) -> u32 { let mut f = Flags::new(); f.push(a); f.push(b); f.to_u32() }
pub fn flags_rt(n: u32) -> u32 { Flags::from_u32(n).to_u32() }
pub fn ntype_from(n: u8) -> NTypeField { NTypeField::from_u8(n) }
pub fn ntype_to(v: NTypeField) -> u8 { v.to_u8() }
pub fn platform_from(n: u32) -> Platform { Platform::from_u32(n) }
pub fn platform_to(v: Platform) -> u32 { v.to_u32() }
pub fn tool_from(n: u32) -> Tool { Tool::from_u32(n) }
pub fn tool_to(v: Tool) -> u32 { v.to_u32() }
pub fn version_from(n: u32) -> Version { Version::from_u32(n) }
pub fn version_to(v: &Version) -> u32 { v.to_u32() }
pub fn secttype_from(n: u32) -> SectionType { SectionType::from_u32(n) }
pub fn x86reloc_from(n: u8) -> X86RelocType { X86RelocType::from_u8(n) }
pub fn x86reloc_to(v: X86RelocType) -> u8 { v.to_u8() }
pub fn x64reloc_from(n: u8) -> X86_64RelocType { X86_64RelocType::from_u8(n) }
pub fn x64reloc_to(v: X86_64RelocType) -> u8 { v.to_u8() }
pub fn rlen_from(n: u32) -> RelocLength { RelocLength::from_u32(n) }
pub fn rlen_to(v: RelocLength) -> u32 { v.to_u32() }

// ---- string table
pub fn st_two(a: &str, b: &str) -> (usize, usize, usize, Vec<u8>) {
    let mut t = StringTable::with_null();
    let ia = t.len();
    t.push_with_null(a);
    let ib = t.len();
    t.push_with_null(b);
    (ia, ib, t.len(), t.as_ref().to_vec())
}
pub fn st_get(v: Vec<u8>, i: usize) -> String { StringTable::from(v).get(i).to_string() }
pub fn st_two_get(a: &str, b: &str) -> (String, String) {
    let mut t = StringTable::with_null();
    let ia = t.len();
    t.push_with_null(a);
    let ib = t.len();
    t.push_with_null(b);
    (t.get(ia).to_string(), t.get(ib).to_string())
}
pub fn st_iter(a: &str, b: &str) -> Vec<String> {
    let mut t = StringTable::with_null();
    t.push_with_null(a);
    t.push_with_null(b);
    t.iter().map(|s| s.to_string()).collect()
}
pub fn st_rt(v: Vec<u8>) -> Vec<u8> { StringTable::from(v).as_ref().to_vec() }

// ---- a reader over several records in a row, through a reader that is not a slice
pub fn r_two_lc<R: Read>(hdr: &[u8], mut b: R) -> (LoadCommand, LoadCommand) {
    let mut h = hdr;
    let (_, e) = Header64::read_from(&mut h);
    let x = LoadCommand::read_from_in(&mut b, e);
    let y = LoadCommand::read_from_in(&mut b, e);
    (x, y)
}
pub fn r_lc2(hdr: &[u8], b: &[u8]) -> (LoadCommand, LoadCommand) { r_two_lc(hdr, b) }

// ---- constants, opaque values, round trips
pub fn consts() -> [u32; 13] {
    [
        Header64::SIZE, SegmentCommand64::SIZE, Section64::SIZE, SymtabCommand::SIZE, DysymtabCommand::SIZE, BuildVersionCommand::SIZE,
        BuildToolVersion::SIZE, NList64::SIZE, RelocationInfo::SIZE,
        SegmentCommand64::TYPE, SymtabCommand::TYPE, DysymtabCommand::TYPE, BuildVersionCommand::TYPE,
    ]
}
pub fn mk_flags(a: Flag, b: Flag) -> Flags { let mut f = Flags::new(); f.push(a); f.push(b); f }
pub fn attrs_from(n: u32) -> SectionAttrs { SectionAttrs::from_u32(n) }
pub fn attrs_to(v: &SectionAttrs) -> u32 { v.to_u32() }
pub fn mk_attrs(a: SectionAttr, b: SectionAttr) -> SectionAttrs { let mut f = SectionAttrs::new(); f.push(a); f.push(b); f }
pub fn attr_from(n: u32) -> SectionAttr { SectionAttr::from_u32(n) }
pub fn attr_to(v: SectionAttr) -> u32 { v.to_u32() }
pub fn secttype_to(v: SectionType) -> u32 { v.to_u32() }

macro_rules! roundtrip {
    ($n:ident, $t:ty) => {
        pub fn $n(hdr: &[u8], v: &$t) -> (bool, usize) {
            let mut h = hdr;
            let (_, e) = Header64::read_from(&mut h);
            let mut o = Vec::new();
            v.write_into(&mut o);
            let mut b = o.as_slice();
            let w = <$t>::read_from_in(&mut b, e);
            (w == *v, b.len())
        }
    };
}
roundtrip!(rt_lc, LoadCommand);
roundtrip!(rt_seg, SegmentCommand64);
roundtrip!(rt_sect, Section64);
roundtrip!(rt_symtab, SymtabCommand);
roundtrip!(rt_dysymtab, DysymtabCommand);
roundtrip!(rt_build, BuildVersionCommand);
roundtrip!(rt_tool, BuildToolVersion);
roundtrip!(rt_nlist, NList64);
pub fn rt_header(v: &Header64) -> (bool, usize) {
    let mut o = Vec::new();
    v.write_into(&mut o);
    let mut b = o.as_slice();
    let (w, _) = Header64::read_from(&mut b);
    (w == *v, b.len())
}
pub fn rt_reloc(hdr: &[u8], v: RelocationInfo) -> (RelocationInfo, usize) {
    let mut h = hdr;
    let (_, e) = Header64::read_from(&mut h);
    let mut o = Vec::new();
    v.write_into(&mut o);
    let mut b = o.as_slice();
    let w = RelocationInfo::read_from_in(&mut b, e);
    (w, b.len())
}
pub fn st_three(a: &str, b: &str, c: &str) -> (usize, usize, usize, String, String, String, Vec<u8>) {
    let mut t = StringTable::with_null();
    let ia = t.len();
    t.push_with_null(a);
    let ib = t.len();
    t.push_with_null(b);
    let ic = t.len();
    t.push_with_null(c);
    let (x, y, z) = (t.get(ia).to_string(), t.get(ib).to_string(), t.get(ic).to_string());
    (ia, ib, ic, x, y, z, t.as_ref().to_vec())
}
pub fn st_len0() -> (usize, Vec<u8>) { let t = StringTable::with_null(); (t.len(), t.as_ref().to_vec()) }

// ---- streams that can fail
pub fn wf_header(v: &Header64, f: &mut File) -> bool { v.write_into(f).fin() }
pub fn wf_lc(v: &LoadCommand, f: &mut File) -> bool { v.write_into(f).fin() }
pub fn wf_seg(v: &SegmentCommand64, f: &mut File) -> bool { v.write_into(f).fin() }
pub fn wf_sect(v: &Section64, f: &mut File) -> bool { v.write_into(f).fin() }
pub fn wf_symtab(v: &SymtabCommand, f: &mut File) -> bool { v.write_into(f).fin() }
pub fn wf_dysymtab(v: &DysymtabCommand, f: &mut File) -> bool { v.write_into(f).fin() }
pub fn wf_build(v: &BuildVersionCommand, f: &mut File) -> bool { v.write_into(f).fin() }
pub fn wf_tool(v: &BuildToolVersion, f: &mut File) -> bool { v.write_into(f).fin() }
pub fn wf_nlist(v: &NList64, f: &mut File) -> bool { v.write_into(f).fin() }
pub fn wf_reloc(v: RelocationInfo, f: &mut File) -> bool { v.write_into(f).fin() }
pub fn rf_header(f: &mut File) -> Header64 { Header64::read_from(f).0 }
macro_rules! freader {
    ($n:ident, $t:ty) => {
        pub fn $n(mut hdr: &[u8], f: &mut File) -> $t {
            let (_, e) = Header64::read_from(&mut hdr);
            <$t>::read_from_in(f, e)
        }
    };
}
freader!(rf_lc, LoadCommand);
freader!(rf_seg, SegmentCommand64);
freader!(rf_sect, Section64);
freader!(rf_symtab, SymtabCommand);
freader!(rf_dysymtab, DysymtabCommand);
freader!(rf_build, BuildVersionCommand);
freader!(rf_tool, BuildToolVersion);
freader!(rf_nlist, NList64);
freader!(rf_reloc, RelocationInfo);
