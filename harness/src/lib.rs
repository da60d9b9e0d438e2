//! Harness for solver-based checking of binschema: see ../DESIGN.md.
#![allow(dead_code)]

pub mod api;
pub mod drive;
pub mod gen;
pub mod giant;
pub mod io;
pub mod long;
pub mod machine;
pub mod parts;
pub mod shapes;
pub mod spec;
pub mod typed;

macro_rules! entries {
    ($($feat:literal $m:ident { $($e:ident),* $(,)? })*) => {
        $(
            #[cfg(feature = $feat)]
            pub mod $m;
        )*
        #[cfg(feature = "ir")]
        mod exports {
            $($(
                #[cfg(feature = $feat)]
                #[no_mangle]
                pub extern "C" fn $e() { super::$m::$e() }
            )*)*
        }
        #[cfg(not(feature = "ir"))]
        pub fn lookup(name: &str) -> Option<fn()> {
            $($(
                #[cfg(feature = $feat)]
                if name == stringify!($e) { return Some($m::$e); }
            )*)*
            let _ = name;
            None
        }
    };
}

entries! {
    "c01" c01 { c01_enc, c01_dec, c01_len_dec, c01_len_enc }
    "c02" c02 { c02_enc, c02_dec }
    "c03" c03 { c03_enc, c03_dec, c03_name }
    "c04" c04 { c04_enc, c04_dec, c04_unit }
    "c05" c05 { c05_long, c05_enc, c05_dec, c05_utf8 }
    "c06" c06 { c06_parts, c06_giant, c06_long, c06_enc }
    "c07" c07 { c07_parts, c07_giant, c07_long, c07_dec }
    "c08" c08 { c08_long_enc, c08_long_dec, c08_enc, c08_dec, c08_io_enc, c08_io_dec }
    "c09" c09 { c09_any, c09_long, c09_fixed, c09_typed, c09_into, c09_schema, c09_deep, c09_nothing }
    "c10" c10 { c10_long_enc, c10_long_dec, c10_values, c10_enc, c10_dec, c10_enc_many, c10_dec_many }
    "c11" c11 { c11_long, c11_enc, c11_dec, c11_value, c11_value_enc, c11_root }
    "c12" c12 { c12_shape, c12_nest, c12_long }
    "c13" c13 { c13_long, c13_long_enc, c13_dec, c13_dec_nest, c13_enc }
    "c14" c14 { c14_long, c14_round, c14_dec }
    "c15" c15 { c15_long, c15_round, c15_refs }
    "c16" c16 { c16_long, c16_round }
    "c17" c17 { c17_long, c17_mix, c17_round, c17_shape, c17_meta, c17_dec }
    "c18" c18 { c18_long, c18_many, c18_enc, c18_dec, c18_clone }
    "c19" c19 { c19_long_enc, c19_long_dec, c19_enc, c19_dec, c19_serde, c19_kinds }
    "c20" c20 { c20_long, c20_enc, c20_dec, c20_calls, c20_serde }
    "c21" c21 { c21_long, c21_schema_long, c21_two, c21_schema }
    "c22" c22 { c22_long, c22_arrows, c22_long_errors, c22_shape, c22_nest, c22_forest, c22_names, c22_calls, c22_dec, c22_kinds, c22_levels, c22_stack }
    "c23" c23 { c23_long, c23_any, c23_valid, c23_scalar, c23_nest, c23_buffered }
    "c25" c25 { c25_long, c25_into, c25_many }
    "c26" c26 { c26_long, c26_drip, c26_enc, c26_dec, c26_bad, c26_serde }
    "c27" c27 { c27_off_ser, c27_off_de, c27_ser, c27_de, c27_near_ser, c27_near_de, c27_leaf }
    "c28" c28 { c28_ser, c28_de }
    "c29" c29 { c29_spell, c29_splice, c29_equal, c29_pairs, c29_names }
    "c30" c30 { c30_enc, c30_dec, c30_valid, c30_long }
    "c31" c31 { c31_stack, c31_far, c31_alike, c31_std }
    "c32" c32 { c32_schema, c32_chain, c32_deep, c32_kinds, c32_value, c32_value_chain, c32_value_long }
    "c24" c24 { c24_enc, c24_dec, c24_long }
}
