//! The real syn, whose `parse_macro_input!` works on proc_macro2's streams, so
//! that it can be used outside of a compiler.
pub use real::*;

#[macro_export]
macro_rules! parse_macro_input {
    ($t:ident as $ty:ty) => {
        match $crate::parse2::<$ty>($t) {
            Ok(v) => v,
            Err(e) => return e.to_compile_error().into(),
        }
    };
    ($t:ident with $p:path) => {
        match $crate::parse::Parser::parse2($p, $t) {
            Ok(v) => v,
            Err(e) => return e.to_compile_error().into(),
        }
    };
    ($t:ident) => {
        $crate::parse_macro_input!($t as _)
    };
}
