//! The schemas the checks run over.
use crate::api::*;
use binschema::*;

pub const LEGAL: usize = 38;

/// A catalogue of legal schemas: every constructor, empty and non-empty,
/// nested in every other, and recursion to the parent, to the root, past
/// intermediate recursion targets and to siblings' ancestors.
pub fn shape(i: usize) -> Schema {
    match i {
        0 => schema!(u8),
        1 => schema!(str),
        2 => schema!(bytes),
        3 => schema!(unit),
        4 => schema!(option(u8)),
        5 => schema!(option(option(unit))),
        6 => schema!(seq(varlen)(u8)),
        7 => schema!(seq(2)(u8)),
        8 => schema!(seq(0)(u8)),
        9 => schema!(tuple {}),
        10 => schema!(tuple { (u8), (str) }),
        11 => schema!(tuple { (tuple { (u8) }), (unit) }),
        12 => schema!(struct {}),
        13 => schema!(struct { (a: u8), (b: bool) }),
        14 => schema!(struct { (a: struct { (b: u8) }), (c: option(unit)) }),
        15 => schema!(enum { A(unit) }),
        16 => schema!(enum { A(unit), B(u8), C(str) }),
        17 => schema!(enum { A(enum { B(unit), C(u8) }), D(tuple { (u8), (u8) }) }),
        18 => schema!(seq(varlen)(option(u8))),
        19 => schema!(seq(2)(seq(varlen)(unit))),
        20 => schema!(option(struct { (a: seq(1)(u16)) })),
        // linked list
        21 => schema!(struct { (value: u8), (next: option(recurse(2))) }),
        // binary tree
        22 => schema!(enum { Branch(struct { (left: recurse(2)), (right: recurse(2)) }), Leaf(u8) }),
        23 => schema!(option(recurse(1))),
        24 => schema!(seq(varlen)(recurse(1))),
        // recursion into the middle of the tree, and past such a place
        25 => schema!(struct { (f: option(enum { A(recurse(2)), B(recurse(3)), C(unit) })) }),
        26 => schema!(tuple { (seq(varlen)(enum { N(recurse(2)), L(u8) })), (option(recurse(2))) }),
        // duplicate names
        27 => schema!(struct { (a: u8), (a: unit) }),
        28 => schema!(enum { A(u8), A(unit) }),
        // names of several lengths, one a prefix of another
        29 => Schema::Struct(vec![("", schema!(unit)).into(), ("a", schema!(unit)).into(), ("ab", schema!(u8)).into()]),
        30 => Schema::Enum(vec![("", schema!(unit)).into(), ("a", schema!(unit)).into(), ("ab", schema!(u8)).into()]),
        31 => schema!(enum {}),
        32 => schema!(seq(varlen)(struct { (k: u8), (v: enum { A(unit), B(u8) }) })),
        33 => schema!(option(seq(varlen)(tuple { (u8), (option(u8)) }))),
        34 => schema!(tuple { (seq(0)(u8)), (tuple {}), (struct {}), (unit), (u8) }),
        35 => schema!(enum { A(option(recurse(1))), B(seq(1)(enum { C(recurse(3)), D(recurse(2)), E(bool) })) }),
        36 => schema!(seq(1)(seq(1)(option(seq(varlen)(recurse(2))))) ),
        37 => schema!(tuple { (i16), (u16), (u32), (i32), (f32), (char) }),
        _ => {
            assume(false);
            schema!(unit)
        }
    }
}
