//! An independent reference codec for every type the harness stores in a slab.
//!
//! `enc` yields the canonical words (`None`: padding whose content is unspecified); `norm` says what
//! reading arbitrary words must yield, as the canonical encoding of the value read (`None`:
//! unspecified). Neither uses the `SlabItem` implementations under test.
use crate::rng::Rng;
use crabslab::{Array, Id, SlabItem};

pub type W = Option<u32>;

pub trait Shape: SlabItem + Default + Clone + Send + Sync + 'static {
    const REF_SIZE: usize;
    fn name() -> String {
        std::any::type_name::<Self>()
            .replace("vh::types::", "marsh::")
            .replace("vh::", "")
            .replace("gen_catalog::", "")
            .replace("crabslab::", "")
            .replace("core::option::", "")
            .replace("core::marker::", "")
            .replace("array::", "")
            .replace("id::", "")
    }
    fn gen(r: &mut Rng) -> Self;
    fn enc(&self, out: &mut Vec<W>);
    fn norm(words: &[u32], out: &mut Vec<W>);

    fn words(&self) -> Vec<W> {
        let mut v = Vec::with_capacity(Self::REF_SIZE);
        self.enc(&mut v);
        assert_eq!(v.len(), Self::REF_SIZE, "harness: reference encoder of {}", Self::name());
        v
    }
    fn norm_words(words: &[u32]) -> Vec<W> {
        let mut v = Vec::with_capacity(Self::REF_SIZE);
        Self::norm(&words[..Self::REF_SIZE], &mut v);
        assert_eq!(v.len(), Self::REF_SIZE, "harness: reference normaliser of {}", Self::name());
        v
    }
}

/// Do two word patterns agree wherever both are specified?
pub fn agree(a: &[W], b: &[W]) -> bool {
    a.len() == b.len()
        && a.iter().zip(b).all(|(x, y)| match (x, y) {
            (Some(x), Some(y)) => x == y,
            _ => true,
        })
}

/// Do actual words agree with a pattern?
pub fn fits(actual: &[u32], pat: &[W]) -> bool {
    actual.len() == pat.len() && actual.iter().zip(pat).all(|(x, y)| y.map_or(true, |y| y == *x))
}

pub fn show(p: &[W]) -> String {
    let mut s = String::from("[");
    for (i, w) in p.iter().enumerate() {
        if i > 0 {
            s.push(' ');
        }
        if i >= 24 {
            s.push_str("..");
            break;
        }
        match w {
            Some(w) => s.push_str(&format!("{w:x}")),
            None => s.push('_'),
        }
    }
    s.push(']');
    s
}

pub fn showw(p: &[u32]) -> String {
    show(&p.iter().map(|w| Some(*w)).collect::<Vec<_>>())
}

pub const fn cmax(a: usize, b: usize) -> usize {
    if a > b {
        a
    } else {
        b
    }
}

macro_rules! small_int {
    ($($t:ty),*) => {$(
        impl Shape for $t {
            const REF_SIZE: usize = 1;
            fn gen(r: &mut Rng) -> Self { r.word() as $t }
            fn enc(&self, out: &mut Vec<W>) { out.push(Some(*self as i64 as u32)); }
            fn norm(w: &[u32], out: &mut Vec<W>) {
                // only words that are the encoding of some value have a specified meaning
                out.push(if (w[0] as $t) as i64 as u32 == w[0] { Some(w[0]) } else { None });
            }
        }
    )*};
}
small_int!(u8, i8, u16, i16, u32, i32);

macro_rules! big_int {
    ($($t:ty, $u:ty, $n:expr);*) => {$(
        impl Shape for $t {
            const REF_SIZE: usize = $n;
            fn gen(r: &mut Rng) -> Self {
                let mut x: $u = 0;
                for i in 0..$n { x |= (r.word() as $u) << (32 * i); }
                x as $t
            }
            fn enc(&self, out: &mut Vec<W>) {
                for b in self.to_le_bytes().chunks(4) {
                    out.push(Some(u32::from_le_bytes([b[0], b[1], b[2], b[3]])));
                }
            }
            fn norm(w: &[u32], out: &mut Vec<W>) { out.extend(w[..$n].iter().map(|w| Some(*w))); }
        }
    )*};
}
big_int!(u64, u64, 2; i64, u64, 2; u128, u128, 4; i128, u128, 4);

fn f32_bits(r: &mut Rng) -> u32 {
    match r.below(10) {
        0 => 0x7fc0_0000,                           // quiet NaN
        1 => 0x7f80_0001 | (r.u32() & 0x803f_ffff), // signalling NaN patterns
        2 => 0xffc0_0000 | (r.u32() & 0x003f_ffff), // negative NaN with payload
        3 => 0x8000_0000,                           // -0.0
        4 => r.u32() & 0x807f_ffff,                 // subnormals
        5 => 0x7f80_0000 | (r.u32() & 0x8000_0000), // infinities
        6 => (r.below(2000) as f32 - 1000.0).to_bits(),
        _ => r.word(),
    }
}

impl Shape for f32 {
    const REF_SIZE: usize = 1;
    fn gen(r: &mut Rng) -> Self {
        f32::from_bits(f32_bits(r))
    }
    fn enc(&self, out: &mut Vec<W>) {
        out.push(Some(self.to_bits()));
    }
    fn norm(w: &[u32], out: &mut Vec<W>) {
        out.push(Some(w[0]));
    }
}

impl Shape for f64 {
    const REF_SIZE: usize = 2;
    fn gen(r: &mut Rng) -> Self {
        let hi = match r.below(6) {
            0 => 0x7ff0_0000 | (r.u32() & 0x800f_ffff),
            1 => 0x8000_0000,
            _ => r.word(),
        };
        f64::from_bits(((hi as u64) << 32) | r.word() as u64)
    }
    fn enc(&self, out: &mut Vec<W>) {
        let b = self.to_bits();
        out.push(Some(b as u32));
        out.push(Some((b >> 32) as u32));
    }
    fn norm(w: &[u32], out: &mut Vec<W>) {
        out.push(Some(w[0]));
        out.push(Some(w[1]));
    }
}

impl Shape for bool {
    const REF_SIZE: usize = 1;
    fn gen(r: &mut Rng) -> Self {
        r.chance(1, 2)
    }
    fn enc(&self, out: &mut Vec<W>) {
        out.push(Some(*self as u32));
    }
    fn norm(w: &[u32], out: &mut Vec<W>) {
        out.push(Some((w[0] == 1) as u32));
    }
}

impl<T: Send + Sync + 'static> Shape for Id<T> {
    const REF_SIZE: usize = 1;
    fn gen(r: &mut Rng) -> Self {
        if r.chance(1, 6) {
            Id::NONE
        } else {
            Id::new(r.word())
        }
    }
    fn enc(&self, out: &mut Vec<W>) {
        out.push(Some(self.inner()));
    }
    fn norm(w: &[u32], out: &mut Vec<W>) {
        out.push(Some(w[0]));
    }
}

impl<T: SlabItem + Send + Sync + 'static> Shape for Array<T> {
    const REF_SIZE: usize = 2;
    fn gen(r: &mut Rng) -> Self {
        if r.chance(1, 6) {
            Array::NONE
        } else {
            Array::new(r.word(), r.word())
        }
    }
    fn enc(&self, out: &mut Vec<W>) {
        out.push(Some(self.index));
        out.push(Some(self.len));
    }
    fn norm(w: &[u32], out: &mut Vec<W>) {
        out.push(Some(w[0]));
        out.push(Some(w[1]));
    }
}

impl<T: Shape> Shape for Option<T> {
    const REF_SIZE: usize = 1 + T::REF_SIZE;
    fn gen(r: &mut Rng) -> Self {
        if r.chance(2, 3) {
            Some(T::gen(r))
        } else {
            None
        }
    }
    fn enc(&self, out: &mut Vec<W>) {
        match self {
            Some(t) => {
                out.push(Some(1));
                t.enc(out);
            }
            None => {
                out.push(Some(0));
                out.extend(std::iter::repeat(None).take(T::REF_SIZE));
            }
        }
    }
    fn norm(w: &[u32], out: &mut Vec<W>) {
        if w[0] == 1 {
            out.push(Some(1));
            T::norm(&w[1..], out);
        } else {
            out.push(Some(0));
            out.extend(std::iter::repeat(None).take(T::REF_SIZE));
        }
    }
}

impl<T: Shape + Copy, const N: usize> Shape for [T; N]
where
    [T; N]: Default,
{
    const REF_SIZE: usize = T::REF_SIZE * N;
    fn gen(r: &mut Rng) -> Self {
        let mut a: [T; N] = Default::default();
        for x in a.iter_mut() {
            *x = T::gen(r);
        }
        a
    }
    fn enc(&self, out: &mut Vec<W>) {
        for x in self.iter() {
            x.enc(out);
        }
    }
    fn norm(w: &[u32], out: &mut Vec<W>) {
        for i in 0..N {
            T::norm(&w[i * T::REF_SIZE..], out);
        }
    }
}

impl<T: Send + Sync + 'static> Shape for std::marker::PhantomData<T> {
    const REF_SIZE: usize = 0;
    fn gen(_: &mut Rng) -> Self {
        std::marker::PhantomData
    }
    fn enc(&self, _: &mut Vec<W>) {}
    fn norm(_: &[u32], _: &mut Vec<W>) {}
}

macro_rules! tuple_shape {
    ($($t:ident $i:tt),+) => {
        impl<$($t: Shape),+> Shape for ($($t,)+) {
            const REF_SIZE: usize = 0 $(+ $t::REF_SIZE)+;
            fn gen(r: &mut Rng) -> Self { ($($t::gen(r),)+) }
            fn enc(&self, out: &mut Vec<W>) { $(self.$i.enc(out);)+ }
            #[allow(unused_assignments)]
            fn norm(w: &[u32], out: &mut Vec<W>) {
                let mut o = 0;
                $( $t::norm(&w[o..], out); o += $t::REF_SIZE; )+
            }
        }
    };
}
tuple_shape!(A 0);
tuple_shape!(A 0, B 1);
tuple_shape!(A 0, B 1, C 2);
tuple_shape!(A 0, B 1, C 2, D 3);
tuple_shape!(A 0, B 1, C 2, D 3, E 4);
tuple_shape!(A 0, B 1, C 2, D 3, E 4, F 5);
tuple_shape!(A 0, B 1, C 2, D 3, E 4, F 5, G 6);
tuple_shape!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7);
tuple_shape!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8);
tuple_shape!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9);
tuple_shape!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10);
tuple_shape!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11);

macro_rules! glam_shape {
    ($($t:ty, $s:ty, $n:expr, $from:expr, $to:expr);* $(;)?) => {$(
        impl Shape for $t {
            const REF_SIZE: usize = $n;
            fn gen(r: &mut Rng) -> Self {
                let mut a = [<$s>::default(); $n];
                for x in a.iter_mut() { *x = <$s as Shape>::gen(r); }
                #[allow(clippy::redundant_closure_call)]
                ($from)(a)
            }
            fn enc(&self, out: &mut Vec<W>) {
                #[allow(clippy::redundant_closure_call)]
                let a: [$s; $n] = ($to)(self);
                for x in a.iter() { x.enc(out); }
            }
            fn norm(w: &[u32], out: &mut Vec<W>) { out.extend(w[..$n].iter().map(|w| Some(*w))); }
        }
    )*};
}
use glam::{Mat4, Quat, UVec2, UVec3, UVec4, Vec2, Vec3, Vec4};
glam_shape! {
    Vec2, f32, 2, |a: [f32; 2]| Vec2::from_array(a), |v: &Vec2| [v.x, v.y];
    Vec3, f32, 3, |a: [f32; 3]| Vec3::from_array(a), |v: &Vec3| [v.x, v.y, v.z];
    Vec4, f32, 4, |a: [f32; 4]| Vec4::from_array(a), |v: &Vec4| [v.x, v.y, v.z, v.w];
    Quat, f32, 4, |a: [f32; 4]| Quat::from_array(a), |v: &Quat| [v.x, v.y, v.z, v.w];
    UVec2, u32, 2, |a: [u32; 2]| UVec2::from_array(a), |v: &UVec2| [v.x, v.y];
    UVec3, u32, 3, |a: [u32; 3]| UVec3::from_array(a), |v: &UVec3| [v.x, v.y, v.z];
    UVec4, u32, 4, |a: [u32; 4]| UVec4::from_array(a), |v: &UVec4| [v.x, v.y, v.z, v.w];
    Mat4, f32, 16, |a: [f32; 16]| Mat4::from_cols_array(&a), |m: &Mat4| {
        let mut o = [0.0f32; 16];
        for (c, col) in [m.x_axis, m.y_axis, m.z_axis, m.w_axis].iter().enumerate() {
            o[c * 4] = col.x; o[c * 4 + 1] = col.y; o[c * 4 + 2] = col.z; o[c * 4 + 3] = col.w;
        }
        o
    };
}

pub trait Visitor {
    fn visit<T: Shape>(&mut self);
}
