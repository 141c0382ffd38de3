//! The catalogue of item types.
use crate::rng::Rng;
use crate::shape::{Shape, Visitor, W};
use crabslab::{Array, Id, SlabItem};
use std::marker::PhantomData;

/// The biggest tuple has one more element than `Default` supports, so it is wrapped.
#[derive(Clone)]
pub struct T13(pub (u8, u64, i16, f32, bool, Id<u32>, u128, i8, Option<u32>, f64, u32, i64, u16));
impl Default for T13 {
    fn default() -> Self {
        T13((0, 0, 0, 0.0, false, Id::NONE, 0, 0, None, 0.0, 0, 0, 0))
    }
}
impl SlabItem for T13 {
    const SLAB_SIZE: usize = <(u8, u64, i16, f32, bool, Id<u32>, u128, i8, Option<u32>, f64, u32, i64, u16) as SlabItem>::SLAB_SIZE;
    fn read_slab(index: usize, slab: &[u32]) -> Self {
        T13(SlabItem::read_slab(index, slab))
    }
    fn write_slab(&self, index: usize, slab: &mut [u32]) -> usize {
        self.0.write_slab(index, slab)
    }
}
macro_rules! t13 {
    ($($i:tt $t:ty),*) => {
        impl Shape for T13 {
            const REF_SIZE: usize = 0 $(+ <$t as Shape>::REF_SIZE)*;
            fn gen(r: &mut Rng) -> Self { T13(($(<$t as Shape>::gen(r),)*)) }
            fn enc(&self, out: &mut Vec<W>) { $(self.0.$i.enc(out);)* }
            #[allow(unused_assignments)]
            fn norm(w: &[u32], out: &mut Vec<W>) {
                let mut o = 0;
                $(<$t as Shape>::norm(&w[o..], out); o += <$t as Shape>::REF_SIZE;)*
            }
        }
    };
}
t13!(0 u8, 1 u64, 2 i16, 3 f32, 4 bool, 5 Id<u32>, 6 u128, 7 i8, 8 Option<u32>, 9 f64, 10 u32, 11 i64, 12 u16);

pub fn all_types<V: Visitor>(v: &mut V) {
    use glam::{Mat4, Quat, UVec2, UVec3, UVec4, Vec2, Vec3, Vec4};
    macro_rules! each { ($($t:ty),* $(,)?) => { $(v.visit::<$t>();)* } }
    each!(
        u8,
        i8,
        u16,
        i16,
        u32,
        i32,
        u64,
        i64,
        u128,
        i128,
        f32,
        f64,
        bool,
        Id<u32>,
        Id<PhantomData<u8>>,
        Array<u32>,
        Array<(u32, u64)>,
        Option<u8>,
        Option<u32>,
        Option<bool>,
        Option<u64>,
        Option<i128>,
        Option<f64>,
        Option<Id<u32>>,
        Option<Option<u16>>,
        Option<Option<Option<i8>>>,
        Option<[u16; 3]>,
        Option<Vec3>,
        [u32; 0],
        [u32; 1],
        [u32; 2],
        [u8; 5],
        [i64; 3],
        [bool; 7],
        [Option<u8>; 4],
        [u128; 8],
        [u32; 16],
        [u32; 31],
        [u32; 32],
        [[u16; 2]; 3],
        [[[u8; 2]; 2]; 2],
        [[u32; 32]; 20],
        [(u32, bool); 5],
        [Option<u64>; 17],
        (u32,),
        (u8, u64),
        (u64, u8),
        (bool, Option<u32>, i8),
        (Vec2, u32),
        [Vec2; 3],
        (u32, Vec2, Option<Vec2>),
        (u8, i8, u16, i16),
        (u32, i32, u64, i64, u128),
        (u8, u16, u32, u64, u128, i8),
        (f32, f64, f32, f64, f32, f64, f32),
        (u8, u8, u8, u8, u8, u8, u8, u64),
        (u8, u16, u8, u16, u8, u16, u8, u16, u64),
        (u64, u8, u64, u8, u64, u8, u64, u8, u64, u8),
        (u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, bool),
        (bool, f32, f64, u8, u16, u32, u64, u128, i8, i16, i32, i64),
        T13,
        ((u32, (u8, (u64, bool))), [(u8, Option<(u16, i64)>); 3]),
        Option<(Id<u32>, Array<u64>, f64)>,
        PhantomData<u32>,
        (PhantomData<u8>, u32, PhantomData<u64>),
        Option<PhantomData<u8>>,
        [PhantomData<u32>; 9],
        Vec2,
        Vec3,
        Vec4,
        Quat,
        UVec2,
        UVec3,
        UVec4,
        Mat4,
        (Mat4, Vec3, Quat),
        [Mat4; 4],
        Option<Mat4>,
    );
    crate::gen_catalog::visit(v);
}
