#![allow(static_mut_refs)]
#[path = "../../common/env_sym.rs"]
pub mod env;
#[path = "../../common/gram.rs"]
pub mod gram;
#[path = "../../common/props.rs"]
pub mod props;
#[path = "../../common/props2.rs"]
pub mod props2;
#[path = "../../common/props3.rs"]
pub mod props3;

macro_rules! entries {
    ($($m:ident: $($n:ident)*;)*) => {$($(
        #[no_mangle]
        pub extern "C" fn $n() { $m::$n() }
    )*)*};
}
include!("../../common/entries.rs");
