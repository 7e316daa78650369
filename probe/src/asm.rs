use at_asm::Assembler;

pub fn asm(src: &[u8]) -> Vec<u8> {
    let mut r = src;
    let mut a = Assembler::new();
    a.read_from(&mut r);
    let mut v = Vec::new();
    a.write_into(&mut v);
    v
}

pub fn asm_file(src: &mut std::fs::File, dst: &mut std::fs::File) -> bool {
    crate::Fin::fin(Assembler::new().read_from(src).write_into(dst))
}

pub fn asm_twice(src: &[u8]) -> (Vec<u8>, Vec<u8>) {
    (asm(src), asm(src))
}
