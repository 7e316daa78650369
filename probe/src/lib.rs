//! Monomorphic entry points into the public API of the crates under analysis.
//! Never run: they only tell the compiler which instances to put in the MIR dump.
pub mod asm;
pub mod mac;
pub mod obj;
pub mod x64;

/// whether an operation says it completed
pub trait Fin {
    fn fin(self) -> bool;
}
impl Fin for () {
    fn fin(self) -> bool { true }
}
impl<T, E> Fin for Result<T, E> {
    fn fin(self) -> bool { self.is_ok() }
}
