use at_obj::macho;
use at_obj::*;

pub fn w_obj(o: &Object) -> Vec<u8> { let mut v = Vec::new(); macho::write_into(o, &mut v); v }
pub fn wf_obj(o: &Object, f: &mut std::fs::File) -> bool { crate::Fin::fin(macho::write_into(o, f)) }
