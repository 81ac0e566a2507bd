//! C20: named aliases.
use crate::nd::Nd;
use crate::{harnesses, prop};
use rowcol::prelude::*;
use rowcol::vector::ArrayLen;

/// Element types an alias may name.
pub trait Fl { const BYTES: usize; fn of(x: f64) -> Self; fn back(&self) -> f64; fn of32(x: f32) -> Self; fn back32(&self) -> f32; }
impl Fl for f32 { const BYTES: usize = 4; fn of(x: f64) -> Self { x as f32 } fn back(&self) -> f64 { *self as f64 } fn of32(x: f32) -> Self { x } fn back32(&self) -> f32 { *self } }
impl Fl for f64 { const BYTES: usize = 8; fn of(x: f64) -> Self { x } fn back(&self) -> f64 { *self } fn of32(x: f32) -> Self { x as f64 } fn back32(&self) -> f32 { *self as f32 } }
/// What an alias turns out to be.
pub trait Shape { const MATRIX: bool; type E: Fl; fn fill(f: impl FnMut(usize, usize) -> Self::E) -> Self; fn at(&self, i: usize, j: usize) -> &Self::E; fn size(&self) -> (usize, usize); }
impl<T: Fl, N: ArrayLen<T>> Shape for Vector<T, N> {
    const MATRIX: bool = false;
    type E = T;
    fn fill(mut f: impl FnMut(usize, usize) -> T) -> Self { Vector::generate(|i| f(i, 0)) }
    fn at(&self, i: usize, _: usize) -> &T { &self[i] }
    fn size(&self) -> (usize, usize) { (self.len(), 1) }
}
impl<T: Fl, R: ArrayLen<Vector<T, C>>, C: ArrayLen<T>> Shape for Matrix<T, R, C> {
    const MATRIX: bool = true;
    type E = T;
    fn fill(mut f: impl FnMut(usize, usize) -> T) -> Self { Matrix::generate(|(i, j)| f(i, j)) }
    fn at(&self, i: usize, j: usize) -> &T { &self[(i, j)] }
    fn size(&self) -> (usize, usize) { self.dim() }
}
fn alias<A: Shape>(nd: &mut Nd, matrix: bool, bytes: usize, rows: usize, cols: usize) {
    prop!(A::MATRIX == matrix, "the alias names a vector or a matrix as it says");
    prop!(A::E::BYTES == bytes, "the alias has the element type it says");
    let i = nd.idx(rows);
    let j = nd.idx(cols);
    if bytes == 8 {
        let x = f64::from_bits(nd.u64());
        let a = A::fill(|p, q| A::E::of(if p == i && q == j { x } else { 0.0 }));
        prop!(a.size() == (rows, cols), "the alias has the dimensions it says");
        if a.size() == (rows, cols) && !x.is_nan() { prop!(a.at(i, j).back().to_bits() == x.to_bits(), "an f64 survives being stored"); }
    } else {
        let x = f32::from_bits(nd.u32());
        let a = A::fill(|p, q| A::E::of32(if p == i && q == j { x } else { 0.0 }));
        prop!(a.size() == (rows, cols), "the alias has the dimensions it says");
        if a.size() == (rows, cols) && !x.is_nan() { prop!(a.at(i, j).back32().to_bits() == x.to_bits(), "an f32 survives being stored"); }
    }
}

harnesses! {
    c20_alias_v1 [8] nd => { alias::<Vector1f32>(nd, false, 4, 1, 1); alias::<Vector1f64>(nd, false, 8, 1, 1); }
    c20_alias_v2 [8] nd => { alias::<Vector2f32>(nd, false, 4, 2, 1); alias::<Vector2f64>(nd, false, 8, 2, 1); }
    c20_alias_v3 [8] nd => { alias::<Vector3f32>(nd, false, 4, 3, 1); alias::<Vector3f64>(nd, false, 8, 3, 1); }
    c20_alias_v4 [8] nd => { alias::<Vector4f32>(nd, false, 4, 4, 1); alias::<Vector4f64>(nd, false, 8, 4, 1); }
    c20_alias_v5 [8] nd => { alias::<Vector5f32>(nd, false, 4, 5, 1); alias::<Vector5f64>(nd, false, 8, 5, 1); }
    c20_alias_v6 [12] nd => { alias::<Vector6f32>(nd, false, 4, 6, 1); alias::<Vector6f64>(nd, false, 8, 6, 1); }
    c20_alias_v7 [12] nd => { alias::<Vector7f32>(nd, false, 4, 7, 1); alias::<Vector7f64>(nd, false, 8, 7, 1); }
    c20_alias_v8 [12] nd => { alias::<Vector8f32>(nd, false, 4, 8, 1); alias::<Vector8f64>(nd, false, 8, 8, 1); }
    c20_alias_v9 [12] nd => { alias::<Vector9f32>(nd, false, 4, 9, 1); alias::<Vector9f64>(nd, false, 8, 9, 1); }
    c20_alias_v10 [14] nd => { alias::<Vector10f32>(nd, false, 4, 10, 1); alias::<Vector10f64>(nd, false, 8, 10, 1); }
    c20_alias_m2 [8] nd => { alias::<Matrix2f32>(nd, true, 4, 2, 2); alias::<Matrix2f64>(nd, true, 8, 2, 2); }
    c20_alias_m3 [8] nd => { alias::<Matrix3f32>(nd, true, 4, 3, 3); alias::<Matrix3f64>(nd, true, 8, 3, 3); }
    c20_alias_m4 [8] nd => { alias::<Matrix4f32>(nd, true, 4, 4, 4); alias::<Matrix4f64>(nd, true, 8, 4, 4); }
}
