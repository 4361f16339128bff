use vstd::prelude::*;

verus! {
//@ include C13_types.rs
impl Border {
//@ extract crates/tcss/src/types/border.rs fn Border::all
//@ sub SIG:Self ==> Border
//@ ret r
//@ contract
ensures r.top == edge, r.right == edge, r.bottom == edge, r.left == edge
//@ end
}
//@ extract crates/tcss/src/parser/cascade.rs fn apply_declaration
//@ sub if let Some\(ref color\) = b\.color \{ ==> if let Some(color) = &b.color {
//@ sub Some\(names\.clone\(\)\) ==> Some(copy_names(names))
//@ sub (widths|heights)\.clone\(\) ==> copy_sizes(\1)
//@ sub Some\((x|y)\.clone\(\)\) ==> Some(*\1)
//@ sub h\.unwrap_or\(\*v\) ==> (match h { Some(g) => *g, None => *v })
//@ contract
ensures applies(*old(style), *decl, *theme, *final(style))
//@ end
}
