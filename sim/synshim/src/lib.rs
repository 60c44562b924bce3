//! `syn`, with the two entry points that need a running compiler replaced by their
//! proc_macro2 counterparts, so that the derive macros can run inside the simulator.
pub use real_syn::*;

#[doc(hidden)]
pub use proc_macro2 as __pm2;

pub fn parse<T: real_syn::parse::Parse>(t: proc_macro2::TokenStream) -> real_syn::Result<T> {
    real_syn::parse2(t)
}

#[macro_export]
macro_rules! parse_macro_input {
    ($t:ident as $ty:ty) => {
        match $crate::parse::<$ty>($t) {
            Ok(x) => x,
            Err(e) => return $crate::__pm2::TokenStream::from(e.to_compile_error()),
        }
    };
    ($t:ident) => {
        $crate::parse_macro_input!($t as _)
    };
}
