use at_x64::instruction::*;
use at_x64::mem::Mem64;
use at_x64::reg::*;

fn enc<I: Instruction>(i: I) -> Vec<u8> {
    i.bytecode().as_ref().to_vec()
}

pub fn mov_r64_r64(d: Reg64, s: Reg64) -> Vec<u8> { enc(Mov::new(d, s)) }
pub fn mov_r32_r32(d: Reg32, s: Reg32) -> Vec<u8> { enc(Mov::new(d, s)) }
pub fn mov_r16_r16(d: Reg16, s: Reg16) -> Vec<u8> { enc(Mov::new(d, s)) }
pub fn mov_r64_imm(d: Reg64, i: u64) -> Vec<u8> { enc(Mov::new(d, i)) }
pub fn mov_r32_imm(d: Reg32, i: u32) -> Vec<u8> { enc(Mov::new(d, i)) }
pub fn mov_r16_imm(d: Reg16, i: u16) -> Vec<u8> { enc(Mov::new(d, i)) }
pub fn mov_mem_r64(d: Mem64, s: Reg64) -> Vec<u8> { enc(Mov::new(d, s)) }
pub fn lea(d: Reg64, s: Mem64) -> Vec<u8> { enc(Lea::new(d, s)) }
pub fn push_i8(i: u8) -> Vec<u8> { enc(Push::new(i)) }
pub fn push_i16(i: u16) -> Vec<u8> { enc(Push::new(i)) }
pub fn push_i32(i: u32) -> Vec<u8> { enc(Push::new(i)) }
pub fn push_r16(r: Reg16) -> Vec<u8> { enc(Push::new(r)) }
pub fn push_r64(r: Reg64) -> Vec<u8> { enc(Push::new(r)) }
pub fn pop_r16(r: Reg16) -> Vec<u8> { enc(Pop::new(r)) }
pub fn pop_r64(r: Reg64) -> Vec<u8> { enc(Pop::new(r)) }
pub fn ret() -> Vec<u8> { enc(Ret::new()) }
pub fn syscall() -> Vec<u8> { enc(Syscall::new()) }
pub fn imm_off_r64(d: Reg64, i: u64) -> u8 { Mov::new(d, i).offset_to_imm_bytes() }
pub fn imm_off_r32(d: Reg32, i: u32) -> u8 { Mov::new(d, i).offset_to_imm_bytes() }
pub fn mem_reg(r: Reg64) -> Mem64 { Mem64::reg(r) }
pub fn mem_reg_offset(r: Reg64, o: u32) -> Mem64 { Mem64::reg_offset(r, o) }
pub fn mem_rip_offset(o: u32) -> Mem64 { Mem64::rip_offset(o) }
pub fn mem_sib(b: Option<Reg64>, d: u32, i: Reg64, s: u8) -> Mem64 { Mem64::sib(b, d, i, s) }

pub fn code64(r: Reg64) -> u8 { r.register_code() }
pub fn code32(r: Reg32) -> u8 { r.register_code() }
pub fn code16(r: Reg16) -> u8 { r.register_code() }
pub fn ext64(r: Reg64) -> bool { r.is_extended() }
pub fn ext32(r: Reg32) -> bool { r.is_extended() }
pub fn ext16(r: Reg16) -> bool { r.is_extended() }
pub fn rexr64(r: Reg64) -> bool { r.rex_r_bit() }
pub fn rexb64(r: Reg64) -> bool { r.rex_b_bit() }
pub fn mode64(r: Reg64) -> u8 { r.mode_bits() }
pub fn regbits64(r: Reg64) -> u8 { r.reg_bits() }
pub fn rmbits64(r: Reg64) -> u8 { r.rm_bits() }
pub fn widen32(r: Reg32) -> Reg64 { r.to_reg64() }
pub fn widen16(r: Reg16) -> Reg32 { r.to_reg32() }
pub fn show64(r: Reg64) -> String { r.to_string() }
pub fn show32(r: Reg32) -> String { r.to_string() }
pub fn show16(r: Reg16) -> String { r.to_string() }
pub fn show8(r: Reg8) -> String { r.to_string() }
pub fn show_any64(r: Reg64) -> String { Reg::Reg64(r).to_string() }
pub fn show_any32(r: Reg32) -> String { Reg::Reg32(r).to_string() }
pub fn show_any16(r: Reg16) -> String { Reg::Reg16(r).to_string() }
pub fn show_any8(r: Reg8) -> String { Reg::Reg8(r).to_string() }
pub fn same64(a: Reg64, b: Reg64) -> bool { a == b }
