// @generated by tools/gen_types.py
use crate::offck::OffCk;
use crate::rng::Rng;
use crate::shape::{cmax, Shape, Visitor, W};
use crabslab::SlabItem;
#[derive(Clone, Copy, SlabItem)]
#[offsets]
pub struct HNamed {
    pub a: u32,
    pub b: u64,
    pub c: f32,
}
impl Default for HNamed {
    fn default() -> Self {
        HNamed {
            a: Default::default(),
            b: Default::default(),
            c: Default::default(),
        }
    }
}
impl Shape for HNamed {
    const REF_SIZE: usize = 0 + <u32 as Shape>::REF_SIZE + <u64 as Shape>::REF_SIZE + <f32 as Shape>::REF_SIZE;
    fn gen(r: &mut Rng) -> Self {
        let _ = &r;
        HNamed {
            a: Shape::gen(r),
            b: Shape::gen(r),
            c: Shape::gen(r),
        }
    }
    fn enc(&self, out: &mut Vec<W>) {
        let _ = &out;
        self.a.enc(out);
        self.b.enc(out);
        self.c.enc(out);
    }
    #[allow(unused_assignments, unused_mut)]
    fn norm(w: &[u32], out: &mut Vec<W>) {
        let _ = (&w, &out);
        let mut __o = 0usize;
        <u32 as Shape>::norm(&w[__o..], out);
        __o += <u32 as Shape>::REF_SIZE;
        <u64 as Shape>::norm(&w[__o..], out);
        __o += <u64 as Shape>::REF_SIZE;
        <f32 as Shape>::norm(&w[__o..], out);
        __o += <f32 as Shape>::REF_SIZE;
        let _ = __o;
    }
}
#[derive(Clone, Copy, SlabItem)]
#[offsets]
pub struct HTuple(pub u128, pub u8, pub Option<u16>);
impl Default for HTuple {
    fn default() -> Self {
        HTuple(Default::default(), Default::default(), Default::default())
    }
}
impl Shape for HTuple {
    const REF_SIZE: usize = 0 + <u128 as Shape>::REF_SIZE + <u8 as Shape>::REF_SIZE + <Option<u16> as Shape>::REF_SIZE;
    fn gen(r: &mut Rng) -> Self {
        let _ = &r;
        HTuple(Shape::gen(r), Shape::gen(r), Shape::gen(r))
    }
    fn enc(&self, out: &mut Vec<W>) {
        let _ = &out;
        self.0.enc(out);
        self.1.enc(out);
        self.2.enc(out);
    }
    #[allow(unused_assignments, unused_mut)]
    fn norm(w: &[u32], out: &mut Vec<W>) {
        let _ = (&w, &out);
        let mut __o = 0usize;
        <u128 as Shape>::norm(&w[__o..], out);
        __o += <u128 as Shape>::REF_SIZE;
        <u8 as Shape>::norm(&w[__o..], out);
        __o += <u8 as Shape>::REF_SIZE;
        <Option<u16> as Shape>::norm(&w[__o..], out);
        __o += <Option<u16> as Shape>::REF_SIZE;
        let _ = __o;
    }
}
#[derive(Clone, Copy, SlabItem)]
#[offsets]
pub struct HOne {
    pub only: i64,
}
impl Default for HOne {
    fn default() -> Self {
        HOne { only: Default::default() }
    }
}
impl Shape for HOne {
    const REF_SIZE: usize = 0 + <i64 as Shape>::REF_SIZE;
    fn gen(r: &mut Rng) -> Self {
        let _ = &r;
        HOne { only: Shape::gen(r) }
    }
    fn enc(&self, out: &mut Vec<W>) {
        let _ = &out;
        self.only.enc(out);
    }
    #[allow(unused_assignments, unused_mut)]
    fn norm(w: &[u32], out: &mut Vec<W>) {
        let _ = (&w, &out);
        let mut __o = 0usize;
        <i64 as Shape>::norm(&w[__o..], out);
        __o += <i64 as Shape>::REF_SIZE;
        let _ = __o;
    }
}
#[derive(Clone, SlabItem)]
#[offsets]
pub struct HNest {
    pub p: HNamed,
    pub q: Option<HTuple>,
    pub r: [HNamed; 3],
    pub s: HTuple,
    pub t: HOne,
}
impl Default for HNest {
    fn default() -> Self {
        HNest {
            p: Default::default(),
            q: Default::default(),
            r: Default::default(),
            s: Default::default(),
            t: Default::default(),
        }
    }
}
impl Shape for HNest {
    const REF_SIZE: usize =
        0 + <HNamed as Shape>::REF_SIZE + <Option<HTuple> as Shape>::REF_SIZE + <[HNamed; 3] as Shape>::REF_SIZE + <HTuple as Shape>::REF_SIZE + <HOne as Shape>::REF_SIZE;
    fn gen(r: &mut Rng) -> Self {
        let _ = &r;
        HNest {
            p: Shape::gen(r),
            q: Shape::gen(r),
            r: Shape::gen(r),
            s: Shape::gen(r),
            t: Shape::gen(r),
        }
    }
    fn enc(&self, out: &mut Vec<W>) {
        let _ = &out;
        self.p.enc(out);
        self.q.enc(out);
        self.r.enc(out);
        self.s.enc(out);
        self.t.enc(out);
    }
    #[allow(unused_assignments, unused_mut)]
    fn norm(w: &[u32], out: &mut Vec<W>) {
        let _ = (&w, &out);
        let mut __o = 0usize;
        <HNamed as Shape>::norm(&w[__o..], out);
        __o += <HNamed as Shape>::REF_SIZE;
        <Option<HTuple> as Shape>::norm(&w[__o..], out);
        __o += <Option<HTuple> as Shape>::REF_SIZE;
        <[HNamed; 3] as Shape>::norm(&w[__o..], out);
        __o += <[HNamed; 3] as Shape>::REF_SIZE;
        <HTuple as Shape>::norm(&w[__o..], out);
        __o += <HTuple as Shape>::REF_SIZE;
        <HOne as Shape>::norm(&w[__o..], out);
        __o += <HOne as Shape>::REF_SIZE;
        let _ = __o;
    }
}
#[derive(Clone, SlabItem)]
#[offsets]
pub struct HNest2(pub bool, pub HNest, pub f64);
impl Default for HNest2 {
    fn default() -> Self {
        HNest2(Default::default(), Default::default(), Default::default())
    }
}
impl Shape for HNest2 {
    const REF_SIZE: usize = 0 + <bool as Shape>::REF_SIZE + <HNest as Shape>::REF_SIZE + <f64 as Shape>::REF_SIZE;
    fn gen(r: &mut Rng) -> Self {
        let _ = &r;
        HNest2(Shape::gen(r), Shape::gen(r), Shape::gen(r))
    }
    fn enc(&self, out: &mut Vec<W>) {
        let _ = &out;
        self.0.enc(out);
        self.1.enc(out);
        self.2.enc(out);
    }
    #[allow(unused_assignments, unused_mut)]
    fn norm(w: &[u32], out: &mut Vec<W>) {
        let _ = (&w, &out);
        let mut __o = 0usize;
        <bool as Shape>::norm(&w[__o..], out);
        __o += <bool as Shape>::REF_SIZE;
        <HNest as Shape>::norm(&w[__o..], out);
        __o += <HNest as Shape>::REF_SIZE;
        <f64 as Shape>::norm(&w[__o..], out);
        __o += <f64 as Shape>::REF_SIZE;
        let _ = __o;
    }
}
#[derive(Clone, Copy, SlabItem)]
#[offsets]
pub struct HZst {
    pub m: std::marker::PhantomData<u32>,
    pub n: u32,
    pub o: std::marker::PhantomData<u64>,
    pub p: u16,
}
impl Default for HZst {
    fn default() -> Self {
        HZst {
            m: Default::default(),
            n: Default::default(),
            o: Default::default(),
            p: Default::default(),
        }
    }
}
impl Shape for HZst {
    const REF_SIZE: usize =
        0 + <std::marker::PhantomData<u32> as Shape>::REF_SIZE + <u32 as Shape>::REF_SIZE + <std::marker::PhantomData<u64> as Shape>::REF_SIZE + <u16 as Shape>::REF_SIZE;
    fn gen(r: &mut Rng) -> Self {
        let _ = &r;
        HZst {
            m: Shape::gen(r),
            n: Shape::gen(r),
            o: Shape::gen(r),
            p: Shape::gen(r),
        }
    }
    fn enc(&self, out: &mut Vec<W>) {
        let _ = &out;
        self.m.enc(out);
        self.n.enc(out);
        self.o.enc(out);
        self.p.enc(out);
    }
    #[allow(unused_assignments, unused_mut)]
    fn norm(w: &[u32], out: &mut Vec<W>) {
        let _ = (&w, &out);
        let mut __o = 0usize;
        <std::marker::PhantomData<u32> as Shape>::norm(&w[__o..], out);
        __o += <std::marker::PhantomData<u32> as Shape>::REF_SIZE;
        <u32 as Shape>::norm(&w[__o..], out);
        __o += <u32 as Shape>::REF_SIZE;
        <std::marker::PhantomData<u64> as Shape>::norm(&w[__o..], out);
        __o += <std::marker::PhantomData<u64> as Shape>::REF_SIZE;
        <u16 as Shape>::norm(&w[__o..], out);
        __o += <u16 as Shape>::REF_SIZE;
        let _ = __o;
    }
}
#[derive(Clone, Copy, SlabItem)]
#[offsets]
pub struct HGen<T: SlabItem, U: SlabItem> {
    pub x: T,
    pub y: u32,
    pub z: U,
}
impl<T: Default + SlabItem, U: Default + SlabItem> Default for HGen<T, U> {
    fn default() -> Self {
        HGen {
            x: Default::default(),
            y: Default::default(),
            z: Default::default(),
        }
    }
}
impl<T: Shape, U: Shape> Shape for HGen<T, U> {
    const REF_SIZE: usize = 0 + <T as Shape>::REF_SIZE + <u32 as Shape>::REF_SIZE + <U as Shape>::REF_SIZE;
    fn gen(r: &mut Rng) -> Self {
        let _ = &r;
        HGen {
            x: Shape::gen(r),
            y: Shape::gen(r),
            z: Shape::gen(r),
        }
    }
    fn enc(&self, out: &mut Vec<W>) {
        let _ = &out;
        self.x.enc(out);
        self.y.enc(out);
        self.z.enc(out);
    }
    #[allow(unused_assignments, unused_mut)]
    fn norm(w: &[u32], out: &mut Vec<W>) {
        let _ = (&w, &out);
        let mut __o = 0usize;
        <T as Shape>::norm(&w[__o..], out);
        __o += <T as Shape>::REF_SIZE;
        <u32 as Shape>::norm(&w[__o..], out);
        __o += <u32 as Shape>::REF_SIZE;
        <U as Shape>::norm(&w[__o..], out);
        __o += <U as Shape>::REF_SIZE;
        let _ = __o;
    }
}
#[derive(Clone, Copy, SlabItem)]
pub enum HUnitEnum {
    A = 5,
    B = 0,
    C = 9,
}
impl Default for HUnitEnum {
    fn default() -> Self {
        HUnitEnum::B
    }
}
impl Shape for HUnitEnum {
    const REF_SIZE: usize = 1 + 0;
    fn gen(r: &mut Rng) -> Self {
        match r.below(3) {
            0 => HUnitEnum::A,
            1 => HUnitEnum::B,
            2 => HUnitEnum::C,
            _ => unreachable!(),
        }
    }
    fn enc(&self, out: &mut Vec<W>) {
        let __s = out.len();
        match self {
            HUnitEnum::A => {
                out.push(Some(0));
            }
            HUnitEnum::B => {
                out.push(Some(1));
            }
            HUnitEnum::C => {
                out.push(Some(2));
            }
        }
        while out.len() < __s + Self::REF_SIZE {
            out.push(None);
        }
    }
    #[allow(unused_assignments, unused_mut, unused_variables)]
    fn norm(w: &[u32], out: &mut Vec<W>) {
        let __s = out.len();
        let mut __o = 1usize;
        match w[0] {
            0 => {
                out.push(Some(0));
            }
            1 => {
                out.push(Some(1));
            }
            2 => {
                out.push(Some(2));
            }
            _ => Self::default().enc(out),
        }
        while out.len() < __s + Self::REF_SIZE {
            out.push(None);
        }
    }
}
#[derive(Clone, Copy, SlabItem)]
pub enum HEnum {
    One,
    Two { a: u32, b: u32 },
    Three(u64, u32, Option<u64>),
    Four(HNamed),
    Five { m: std::marker::PhantomData<u32> },
}
impl Default for HEnum {
    fn default() -> Self {
        HEnum::Three(Default::default(), Default::default(), Default::default())
    }
}
impl Shape for HEnum {
    const REF_SIZE: usize = 1 + cmax(
        cmax(
            cmax(
                cmax(0, 0 + <u32 as Shape>::REF_SIZE + <u32 as Shape>::REF_SIZE),
                0 + <u64 as Shape>::REF_SIZE + <u32 as Shape>::REF_SIZE + <Option<u64> as Shape>::REF_SIZE,
            ),
            0 + <HNamed as Shape>::REF_SIZE,
        ),
        0 + <std::marker::PhantomData<u32> as Shape>::REF_SIZE,
    );
    fn gen(r: &mut Rng) -> Self {
        match r.below(5) {
            0 => HEnum::One,
            1 => HEnum::Two {
                a: Shape::gen(r),
                b: Shape::gen(r),
            },
            2 => HEnum::Three(Shape::gen(r), Shape::gen(r), Shape::gen(r)),
            3 => HEnum::Four(Shape::gen(r)),
            4 => HEnum::Five { m: Shape::gen(r) },
            _ => unreachable!(),
        }
    }
    fn enc(&self, out: &mut Vec<W>) {
        let __s = out.len();
        match self {
            HEnum::One => {
                out.push(Some(0));
            }
            HEnum::Two { a: __v0, b: __v1 } => {
                out.push(Some(1));
                __v0.enc(out);
                __v1.enc(out);
            }
            HEnum::Three(__v0, __v1, __v2) => {
                out.push(Some(2));
                __v0.enc(out);
                __v1.enc(out);
                __v2.enc(out);
            }
            HEnum::Four(__v0) => {
                out.push(Some(3));
                __v0.enc(out);
            }
            HEnum::Five { m: __v0 } => {
                out.push(Some(4));
                __v0.enc(out);
            }
        }
        while out.len() < __s + Self::REF_SIZE {
            out.push(None);
        }
    }
    #[allow(unused_assignments, unused_mut, unused_variables)]
    fn norm(w: &[u32], out: &mut Vec<W>) {
        let __s = out.len();
        let mut __o = 1usize;
        match w[0] {
            0 => {
                out.push(Some(0));
            }
            1 => {
                out.push(Some(1));
                <u32 as Shape>::norm(&w[__o..], out);
                __o += <u32 as Shape>::REF_SIZE;
                <u32 as Shape>::norm(&w[__o..], out);
                __o += <u32 as Shape>::REF_SIZE;
            }
            2 => {
                out.push(Some(2));
                <u64 as Shape>::norm(&w[__o..], out);
                __o += <u64 as Shape>::REF_SIZE;
                <u32 as Shape>::norm(&w[__o..], out);
                __o += <u32 as Shape>::REF_SIZE;
                <Option<u64> as Shape>::norm(&w[__o..], out);
                __o += <Option<u64> as Shape>::REF_SIZE;
            }
            3 => {
                out.push(Some(3));
                <HNamed as Shape>::norm(&w[__o..], out);
                __o += <HNamed as Shape>::REF_SIZE;
            }
            4 => {
                out.push(Some(4));
                <std::marker::PhantomData<u32> as Shape>::norm(&w[__o..], out);
                __o += <std::marker::PhantomData<u32> as Shape>::REF_SIZE;
            }
            _ => Self::default().enc(out),
        }
        while out.len() < __s + Self::REF_SIZE {
            out.push(None);
        }
    }
}
#[derive(Clone, SlabItem)]
pub enum HEnumNest {
    L(HEnum, i128),
    R { e: Option<HEnum>, f: [HEnum; 2] },
    N,
    Q(HUnitEnum, HUnitEnum),
}
impl Default for HEnumNest {
    fn default() -> Self {
        HEnumNest::Q(Default::default(), Default::default())
    }
}
impl Shape for HEnumNest {
    const REF_SIZE: usize = 1 + cmax(
        cmax(
            cmax(0, 0 + <HEnum as Shape>::REF_SIZE + <i128 as Shape>::REF_SIZE),
            0 + <Option<HEnum> as Shape>::REF_SIZE + <[HEnum; 2] as Shape>::REF_SIZE,
        ),
        0 + <HUnitEnum as Shape>::REF_SIZE + <HUnitEnum as Shape>::REF_SIZE,
    );
    fn gen(r: &mut Rng) -> Self {
        match r.below(4) {
            0 => HEnumNest::L(Shape::gen(r), Shape::gen(r)),
            1 => HEnumNest::R {
                e: Shape::gen(r),
                f: Shape::gen(r),
            },
            2 => HEnumNest::N,
            3 => HEnumNest::Q(Shape::gen(r), Shape::gen(r)),
            _ => unreachable!(),
        }
    }
    fn enc(&self, out: &mut Vec<W>) {
        let __s = out.len();
        match self {
            HEnumNest::L(__v0, __v1) => {
                out.push(Some(0));
                __v0.enc(out);
                __v1.enc(out);
            }
            HEnumNest::R { e: __v0, f: __v1 } => {
                out.push(Some(1));
                __v0.enc(out);
                __v1.enc(out);
            }
            HEnumNest::N => {
                out.push(Some(2));
            }
            HEnumNest::Q(__v0, __v1) => {
                out.push(Some(3));
                __v0.enc(out);
                __v1.enc(out);
            }
        }
        while out.len() < __s + Self::REF_SIZE {
            out.push(None);
        }
    }
    #[allow(unused_assignments, unused_mut, unused_variables)]
    fn norm(w: &[u32], out: &mut Vec<W>) {
        let __s = out.len();
        let mut __o = 1usize;
        match w[0] {
            0 => {
                out.push(Some(0));
                <HEnum as Shape>::norm(&w[__o..], out);
                __o += <HEnum as Shape>::REF_SIZE;
                <i128 as Shape>::norm(&w[__o..], out);
                __o += <i128 as Shape>::REF_SIZE;
            }
            1 => {
                out.push(Some(1));
                <Option<HEnum> as Shape>::norm(&w[__o..], out);
                __o += <Option<HEnum> as Shape>::REF_SIZE;
                <[HEnum; 2] as Shape>::norm(&w[__o..], out);
                __o += <[HEnum; 2] as Shape>::REF_SIZE;
            }
            2 => {
                out.push(Some(2));
            }
            3 => {
                out.push(Some(3));
                <HUnitEnum as Shape>::norm(&w[__o..], out);
                __o += <HUnitEnum as Shape>::REF_SIZE;
                <HUnitEnum as Shape>::norm(&w[__o..], out);
                __o += <HUnitEnum as Shape>::REF_SIZE;
            }
            _ => Self::default().enc(out),
        }
        while out.len() < __s + Self::REF_SIZE {
            out.push(None);
        }
    }
}
#[derive(Clone, Copy, SlabItem)]
pub enum HGenEnum<T> {
    E,
    V(T, u32),
    W { t: T, u: T },
}
impl<T> Default for HGenEnum<T> {
    fn default() -> Self {
        HGenEnum::E
    }
}
impl<T: Shape> Shape for HGenEnum<T> {
    const REF_SIZE: usize = 1 + cmax(
        cmax(0, 0 + <T as Shape>::REF_SIZE + <u32 as Shape>::REF_SIZE),
        0 + <T as Shape>::REF_SIZE + <T as Shape>::REF_SIZE,
    );
    fn gen(r: &mut Rng) -> Self {
        match r.below(3) {
            0 => HGenEnum::E,
            1 => HGenEnum::V(Shape::gen(r), Shape::gen(r)),
            2 => HGenEnum::W {
                t: Shape::gen(r),
                u: Shape::gen(r),
            },
            _ => unreachable!(),
        }
    }
    fn enc(&self, out: &mut Vec<W>) {
        let __s = out.len();
        match self {
            HGenEnum::E => {
                out.push(Some(0));
            }
            HGenEnum::V(__v0, __v1) => {
                out.push(Some(1));
                __v0.enc(out);
                __v1.enc(out);
            }
            HGenEnum::W { t: __v0, u: __v1 } => {
                out.push(Some(2));
                __v0.enc(out);
                __v1.enc(out);
            }
        }
        while out.len() < __s + Self::REF_SIZE {
            out.push(None);
        }
    }
    #[allow(unused_assignments, unused_mut, unused_variables)]
    fn norm(w: &[u32], out: &mut Vec<W>) {
        let __s = out.len();
        let mut __o = 1usize;
        match w[0] {
            0 => {
                out.push(Some(0));
            }
            1 => {
                out.push(Some(1));
                <T as Shape>::norm(&w[__o..], out);
                __o += <T as Shape>::REF_SIZE;
                <u32 as Shape>::norm(&w[__o..], out);
                __o += <u32 as Shape>::REF_SIZE;
            }
            2 => {
                out.push(Some(2));
                <T as Shape>::norm(&w[__o..], out);
                __o += <T as Shape>::REF_SIZE;
                <T as Shape>::norm(&w[__o..], out);
                __o += <T as Shape>::REF_SIZE;
            }
            _ => Self::default().enc(out),
        }
        while out.len() < __s + Self::REF_SIZE {
            out.push(None);
        }
    }
}
#[derive(Clone, Copy, SlabItem)]
pub enum HBigEnum {
    V0,
    V1,
    V2,
    V3,
    V4,
    V5,
    V6,
    V7,
    V8,
    V9,
    V10,
    V11,
    V12,
    V13,
    V14,
    V15,
    V16,
    V17,
    V18,
    V19,
    V20,
    V21,
    V22,
    V23,
    V24,
    V25,
    V26,
    V27,
    V28,
    V29,
    V30,
    V31,
    V32,
    V33,
    V34,
    V35,
    V36,
    V37,
    V38,
    V39,
    V40,
    V41,
    V42,
    V43,
    V44,
    V45,
    V46,
    V47,
    V48,
    V49,
    V50,
    V51,
    V52,
    V53,
    V54,
    V55,
    V56,
    V57,
    V58,
    V59,
    V60,
    V61,
    V62,
    V63,
    V64,
    V65,
    V66,
    V67,
    V68,
    V69,
    V70,
    V71,
    V72,
    V73,
    V74,
    V75,
    V76,
    V77,
    V78,
    V79,
    V80,
    V81,
    V82,
    V83,
    V84,
    V85,
    V86,
    V87,
    V88,
    V89,
    V90,
    V91,
    V92,
    V93,
    V94,
    V95,
    V96,
    V97,
    V98,
    V99,
    V100,
    V101,
    V102,
    V103,
    V104,
    V105,
    V106,
    V107,
    V108,
    V109,
    V110,
    V111,
    V112,
    V113,
    V114,
    V115,
    V116,
    V117,
    V118,
    V119,
    V120,
    V121,
    V122,
    V123,
    V124,
    V125,
    V126,
    V127,
    V128,
    V129,
    V130,
    V131,
    V132,
    V133,
    V134,
    V135,
    V136,
    V137(u64),
    V138,
    V139,
    V140,
    V141,
    V142,
    V143,
    V144,
    V145,
    V146,
    V147,
    V148,
    V149,
    V150,
    V151,
    V152,
    V153,
    V154,
    V155,
    V156,
    V157,
    V158,
    V159,
    V160,
    V161,
    V162,
    V163,
    V164,
    V165,
    V166,
    V167,
    V168,
    V169,
    V170,
    V171,
    V172,
    V173,
    V174,
    V175,
    V176,
    V177,
    V178,
    V179,
    V180,
    V181,
    V182,
    V183,
    V184,
    V185,
    V186,
    V187,
    V188,
    V189,
    V190,
    V191,
    V192,
    V193,
    V194,
    V195,
    V196,
    V197,
    V198,
    V199,
    V200,
    V201,
    V202,
    V203,
    V204,
    V205,
    V206,
    V207,
    V208,
    V209,
    V210,
    V211,
    V212,
    V213,
    V214,
    V215,
    V216,
    V217,
    V218,
    V219,
    V220,
    V221,
    V222,
    V223,
    V224,
    V225,
    V226,
    V227,
    V228,
    V229,
    V230,
    V231,
    V232,
    V233,
    V234,
    V235,
    V236,
    V237,
    V238,
    V239,
    V240,
    V241,
    V242,
    V243,
    V244,
    V245,
    V246,
    V247,
    V248,
    V249,
    V250,
    V251,
    V252,
    V253,
    V254,
    V255,
    V256,
    V257,
    V258,
    V259,
    V260,
    V261,
    V262,
    V263,
    V264,
    V265,
    V266,
    V267,
    V268,
    V269,
    V270,
    V271,
    V272,
    V273,
    V274,
    V275,
    V276,
    V277,
    V278,
    V279,
    V280,
    V281,
    V282,
    V283,
    V284,
    V285,
    V286,
    V287,
    V288,
    V289,
    V290,
    V291,
    V292,
    V293,
    V294,
    V295,
    V296,
    V297,
    V298,
    V299 { a: u32, b: [u16; 5] },
}
impl Default for HBigEnum {
    fn default() -> Self {
        HBigEnum::V260
    }
}
impl Shape for HBigEnum {
    const REF_SIZE: usize = 1 + cmax(cmax(0, 0 + <u64 as Shape>::REF_SIZE), 0 + <u32 as Shape>::REF_SIZE + <[u16; 5] as Shape>::REF_SIZE);
    fn gen(r: &mut Rng) -> Self {
        match r.below(300) {
            0 => HBigEnum::V0,
            1 => HBigEnum::V1,
            2 => HBigEnum::V2,
            3 => HBigEnum::V3,
            4 => HBigEnum::V4,
            5 => HBigEnum::V5,
            6 => HBigEnum::V6,
            7 => HBigEnum::V7,
            8 => HBigEnum::V8,
            9 => HBigEnum::V9,
            10 => HBigEnum::V10,
            11 => HBigEnum::V11,
            12 => HBigEnum::V12,
            13 => HBigEnum::V13,
            14 => HBigEnum::V14,
            15 => HBigEnum::V15,
            16 => HBigEnum::V16,
            17 => HBigEnum::V17,
            18 => HBigEnum::V18,
            19 => HBigEnum::V19,
            20 => HBigEnum::V20,
            21 => HBigEnum::V21,
            22 => HBigEnum::V22,
            23 => HBigEnum::V23,
            24 => HBigEnum::V24,
            25 => HBigEnum::V25,
            26 => HBigEnum::V26,
            27 => HBigEnum::V27,
            28 => HBigEnum::V28,
            29 => HBigEnum::V29,
            30 => HBigEnum::V30,
            31 => HBigEnum::V31,
            32 => HBigEnum::V32,
            33 => HBigEnum::V33,
            34 => HBigEnum::V34,
            35 => HBigEnum::V35,
            36 => HBigEnum::V36,
            37 => HBigEnum::V37,
            38 => HBigEnum::V38,
            39 => HBigEnum::V39,
            40 => HBigEnum::V40,
            41 => HBigEnum::V41,
            42 => HBigEnum::V42,
            43 => HBigEnum::V43,
            44 => HBigEnum::V44,
            45 => HBigEnum::V45,
            46 => HBigEnum::V46,
            47 => HBigEnum::V47,
            48 => HBigEnum::V48,
            49 => HBigEnum::V49,
            50 => HBigEnum::V50,
            51 => HBigEnum::V51,
            52 => HBigEnum::V52,
            53 => HBigEnum::V53,
            54 => HBigEnum::V54,
            55 => HBigEnum::V55,
            56 => HBigEnum::V56,
            57 => HBigEnum::V57,
            58 => HBigEnum::V58,
            59 => HBigEnum::V59,
            60 => HBigEnum::V60,
            61 => HBigEnum::V61,
            62 => HBigEnum::V62,
            63 => HBigEnum::V63,
            64 => HBigEnum::V64,
            65 => HBigEnum::V65,
            66 => HBigEnum::V66,
            67 => HBigEnum::V67,
            68 => HBigEnum::V68,
            69 => HBigEnum::V69,
            70 => HBigEnum::V70,
            71 => HBigEnum::V71,
            72 => HBigEnum::V72,
            73 => HBigEnum::V73,
            74 => HBigEnum::V74,
            75 => HBigEnum::V75,
            76 => HBigEnum::V76,
            77 => HBigEnum::V77,
            78 => HBigEnum::V78,
            79 => HBigEnum::V79,
            80 => HBigEnum::V80,
            81 => HBigEnum::V81,
            82 => HBigEnum::V82,
            83 => HBigEnum::V83,
            84 => HBigEnum::V84,
            85 => HBigEnum::V85,
            86 => HBigEnum::V86,
            87 => HBigEnum::V87,
            88 => HBigEnum::V88,
            89 => HBigEnum::V89,
            90 => HBigEnum::V90,
            91 => HBigEnum::V91,
            92 => HBigEnum::V92,
            93 => HBigEnum::V93,
            94 => HBigEnum::V94,
            95 => HBigEnum::V95,
            96 => HBigEnum::V96,
            97 => HBigEnum::V97,
            98 => HBigEnum::V98,
            99 => HBigEnum::V99,
            100 => HBigEnum::V100,
            101 => HBigEnum::V101,
            102 => HBigEnum::V102,
            103 => HBigEnum::V103,
            104 => HBigEnum::V104,
            105 => HBigEnum::V105,
            106 => HBigEnum::V106,
            107 => HBigEnum::V107,
            108 => HBigEnum::V108,
            109 => HBigEnum::V109,
            110 => HBigEnum::V110,
            111 => HBigEnum::V111,
            112 => HBigEnum::V112,
            113 => HBigEnum::V113,
            114 => HBigEnum::V114,
            115 => HBigEnum::V115,
            116 => HBigEnum::V116,
            117 => HBigEnum::V117,
            118 => HBigEnum::V118,
            119 => HBigEnum::V119,
            120 => HBigEnum::V120,
            121 => HBigEnum::V121,
            122 => HBigEnum::V122,
            123 => HBigEnum::V123,
            124 => HBigEnum::V124,
            125 => HBigEnum::V125,
            126 => HBigEnum::V126,
            127 => HBigEnum::V127,
            128 => HBigEnum::V128,
            129 => HBigEnum::V129,
            130 => HBigEnum::V130,
            131 => HBigEnum::V131,
            132 => HBigEnum::V132,
            133 => HBigEnum::V133,
            134 => HBigEnum::V134,
            135 => HBigEnum::V135,
            136 => HBigEnum::V136,
            137 => HBigEnum::V137(Shape::gen(r)),
            138 => HBigEnum::V138,
            139 => HBigEnum::V139,
            140 => HBigEnum::V140,
            141 => HBigEnum::V141,
            142 => HBigEnum::V142,
            143 => HBigEnum::V143,
            144 => HBigEnum::V144,
            145 => HBigEnum::V145,
            146 => HBigEnum::V146,
            147 => HBigEnum::V147,
            148 => HBigEnum::V148,
            149 => HBigEnum::V149,
            150 => HBigEnum::V150,
            151 => HBigEnum::V151,
            152 => HBigEnum::V152,
            153 => HBigEnum::V153,
            154 => HBigEnum::V154,
            155 => HBigEnum::V155,
            156 => HBigEnum::V156,
            157 => HBigEnum::V157,
            158 => HBigEnum::V158,
            159 => HBigEnum::V159,
            160 => HBigEnum::V160,
            161 => HBigEnum::V161,
            162 => HBigEnum::V162,
            163 => HBigEnum::V163,
            164 => HBigEnum::V164,
            165 => HBigEnum::V165,
            166 => HBigEnum::V166,
            167 => HBigEnum::V167,
            168 => HBigEnum::V168,
            169 => HBigEnum::V169,
            170 => HBigEnum::V170,
            171 => HBigEnum::V171,
            172 => HBigEnum::V172,
            173 => HBigEnum::V173,
            174 => HBigEnum::V174,
            175 => HBigEnum::V175,
            176 => HBigEnum::V176,
            177 => HBigEnum::V177,
            178 => HBigEnum::V178,
            179 => HBigEnum::V179,
            180 => HBigEnum::V180,
            181 => HBigEnum::V181,
            182 => HBigEnum::V182,
            183 => HBigEnum::V183,
            184 => HBigEnum::V184,
            185 => HBigEnum::V185,
            186 => HBigEnum::V186,
            187 => HBigEnum::V187,
            188 => HBigEnum::V188,
            189 => HBigEnum::V189,
            190 => HBigEnum::V190,
            191 => HBigEnum::V191,
            192 => HBigEnum::V192,
            193 => HBigEnum::V193,
            194 => HBigEnum::V194,
            195 => HBigEnum::V195,
            196 => HBigEnum::V196,
            197 => HBigEnum::V197,
            198 => HBigEnum::V198,
            199 => HBigEnum::V199,
            200 => HBigEnum::V200,
            201 => HBigEnum::V201,
            202 => HBigEnum::V202,
            203 => HBigEnum::V203,
            204 => HBigEnum::V204,
            205 => HBigEnum::V205,
            206 => HBigEnum::V206,
            207 => HBigEnum::V207,
            208 => HBigEnum::V208,
            209 => HBigEnum::V209,
            210 => HBigEnum::V210,
            211 => HBigEnum::V211,
            212 => HBigEnum::V212,
            213 => HBigEnum::V213,
            214 => HBigEnum::V214,
            215 => HBigEnum::V215,
            216 => HBigEnum::V216,
            217 => HBigEnum::V217,
            218 => HBigEnum::V218,
            219 => HBigEnum::V219,
            220 => HBigEnum::V220,
            221 => HBigEnum::V221,
            222 => HBigEnum::V222,
            223 => HBigEnum::V223,
            224 => HBigEnum::V224,
            225 => HBigEnum::V225,
            226 => HBigEnum::V226,
            227 => HBigEnum::V227,
            228 => HBigEnum::V228,
            229 => HBigEnum::V229,
            230 => HBigEnum::V230,
            231 => HBigEnum::V231,
            232 => HBigEnum::V232,
            233 => HBigEnum::V233,
            234 => HBigEnum::V234,
            235 => HBigEnum::V235,
            236 => HBigEnum::V236,
            237 => HBigEnum::V237,
            238 => HBigEnum::V238,
            239 => HBigEnum::V239,
            240 => HBigEnum::V240,
            241 => HBigEnum::V241,
            242 => HBigEnum::V242,
            243 => HBigEnum::V243,
            244 => HBigEnum::V244,
            245 => HBigEnum::V245,
            246 => HBigEnum::V246,
            247 => HBigEnum::V247,
            248 => HBigEnum::V248,
            249 => HBigEnum::V249,
            250 => HBigEnum::V250,
            251 => HBigEnum::V251,
            252 => HBigEnum::V252,
            253 => HBigEnum::V253,
            254 => HBigEnum::V254,
            255 => HBigEnum::V255,
            256 => HBigEnum::V256,
            257 => HBigEnum::V257,
            258 => HBigEnum::V258,
            259 => HBigEnum::V259,
            260 => HBigEnum::V260,
            261 => HBigEnum::V261,
            262 => HBigEnum::V262,
            263 => HBigEnum::V263,
            264 => HBigEnum::V264,
            265 => HBigEnum::V265,
            266 => HBigEnum::V266,
            267 => HBigEnum::V267,
            268 => HBigEnum::V268,
            269 => HBigEnum::V269,
            270 => HBigEnum::V270,
            271 => HBigEnum::V271,
            272 => HBigEnum::V272,
            273 => HBigEnum::V273,
            274 => HBigEnum::V274,
            275 => HBigEnum::V275,
            276 => HBigEnum::V276,
            277 => HBigEnum::V277,
            278 => HBigEnum::V278,
            279 => HBigEnum::V279,
            280 => HBigEnum::V280,
            281 => HBigEnum::V281,
            282 => HBigEnum::V282,
            283 => HBigEnum::V283,
            284 => HBigEnum::V284,
            285 => HBigEnum::V285,
            286 => HBigEnum::V286,
            287 => HBigEnum::V287,
            288 => HBigEnum::V288,
            289 => HBigEnum::V289,
            290 => HBigEnum::V290,
            291 => HBigEnum::V291,
            292 => HBigEnum::V292,
            293 => HBigEnum::V293,
            294 => HBigEnum::V294,
            295 => HBigEnum::V295,
            296 => HBigEnum::V296,
            297 => HBigEnum::V297,
            298 => HBigEnum::V298,
            299 => HBigEnum::V299 {
                a: Shape::gen(r),
                b: Shape::gen(r),
            },
            _ => unreachable!(),
        }
    }
    fn enc(&self, out: &mut Vec<W>) {
        let __s = out.len();
        match self {
            HBigEnum::V0 => {
                out.push(Some(0));
            }
            HBigEnum::V1 => {
                out.push(Some(1));
            }
            HBigEnum::V2 => {
                out.push(Some(2));
            }
            HBigEnum::V3 => {
                out.push(Some(3));
            }
            HBigEnum::V4 => {
                out.push(Some(4));
            }
            HBigEnum::V5 => {
                out.push(Some(5));
            }
            HBigEnum::V6 => {
                out.push(Some(6));
            }
            HBigEnum::V7 => {
                out.push(Some(7));
            }
            HBigEnum::V8 => {
                out.push(Some(8));
            }
            HBigEnum::V9 => {
                out.push(Some(9));
            }
            HBigEnum::V10 => {
                out.push(Some(10));
            }
            HBigEnum::V11 => {
                out.push(Some(11));
            }
            HBigEnum::V12 => {
                out.push(Some(12));
            }
            HBigEnum::V13 => {
                out.push(Some(13));
            }
            HBigEnum::V14 => {
                out.push(Some(14));
            }
            HBigEnum::V15 => {
                out.push(Some(15));
            }
            HBigEnum::V16 => {
                out.push(Some(16));
            }
            HBigEnum::V17 => {
                out.push(Some(17));
            }
            HBigEnum::V18 => {
                out.push(Some(18));
            }
            HBigEnum::V19 => {
                out.push(Some(19));
            }
            HBigEnum::V20 => {
                out.push(Some(20));
            }
            HBigEnum::V21 => {
                out.push(Some(21));
            }
            HBigEnum::V22 => {
                out.push(Some(22));
            }
            HBigEnum::V23 => {
                out.push(Some(23));
            }
            HBigEnum::V24 => {
                out.push(Some(24));
            }
            HBigEnum::V25 => {
                out.push(Some(25));
            }
            HBigEnum::V26 => {
                out.push(Some(26));
            }
            HBigEnum::V27 => {
                out.push(Some(27));
            }
            HBigEnum::V28 => {
                out.push(Some(28));
            }
            HBigEnum::V29 => {
                out.push(Some(29));
            }
            HBigEnum::V30 => {
                out.push(Some(30));
            }
            HBigEnum::V31 => {
                out.push(Some(31));
            }
            HBigEnum::V32 => {
                out.push(Some(32));
            }
            HBigEnum::V33 => {
                out.push(Some(33));
            }
            HBigEnum::V34 => {
                out.push(Some(34));
            }
            HBigEnum::V35 => {
                out.push(Some(35));
            }
            HBigEnum::V36 => {
                out.push(Some(36));
            }
            HBigEnum::V37 => {
                out.push(Some(37));
            }
            HBigEnum::V38 => {
                out.push(Some(38));
            }
            HBigEnum::V39 => {
                out.push(Some(39));
            }
            HBigEnum::V40 => {
                out.push(Some(40));
            }
            HBigEnum::V41 => {
                out.push(Some(41));
            }
            HBigEnum::V42 => {
                out.push(Some(42));
            }
            HBigEnum::V43 => {
                out.push(Some(43));
            }
            HBigEnum::V44 => {
                out.push(Some(44));
            }
            HBigEnum::V45 => {
                out.push(Some(45));
            }
            HBigEnum::V46 => {
                out.push(Some(46));
            }
            HBigEnum::V47 => {
                out.push(Some(47));
            }
            HBigEnum::V48 => {
                out.push(Some(48));
            }
            HBigEnum::V49 => {
                out.push(Some(49));
            }
            HBigEnum::V50 => {
                out.push(Some(50));
            }
            HBigEnum::V51 => {
                out.push(Some(51));
            }
            HBigEnum::V52 => {
                out.push(Some(52));
            }
            HBigEnum::V53 => {
                out.push(Some(53));
            }
            HBigEnum::V54 => {
                out.push(Some(54));
            }
            HBigEnum::V55 => {
                out.push(Some(55));
            }
            HBigEnum::V56 => {
                out.push(Some(56));
            }
            HBigEnum::V57 => {
                out.push(Some(57));
            }
            HBigEnum::V58 => {
                out.push(Some(58));
            }
            HBigEnum::V59 => {
                out.push(Some(59));
            }
            HBigEnum::V60 => {
                out.push(Some(60));
            }
            HBigEnum::V61 => {
                out.push(Some(61));
            }
            HBigEnum::V62 => {
                out.push(Some(62));
            }
            HBigEnum::V63 => {
                out.push(Some(63));
            }
            HBigEnum::V64 => {
                out.push(Some(64));
            }
            HBigEnum::V65 => {
                out.push(Some(65));
            }
            HBigEnum::V66 => {
                out.push(Some(66));
            }
            HBigEnum::V67 => {
                out.push(Some(67));
            }
            HBigEnum::V68 => {
                out.push(Some(68));
            }
            HBigEnum::V69 => {
                out.push(Some(69));
            }
            HBigEnum::V70 => {
                out.push(Some(70));
            }
            HBigEnum::V71 => {
                out.push(Some(71));
            }
            HBigEnum::V72 => {
                out.push(Some(72));
            }
            HBigEnum::V73 => {
                out.push(Some(73));
            }
            HBigEnum::V74 => {
                out.push(Some(74));
            }
            HBigEnum::V75 => {
                out.push(Some(75));
            }
            HBigEnum::V76 => {
                out.push(Some(76));
            }
            HBigEnum::V77 => {
                out.push(Some(77));
            }
            HBigEnum::V78 => {
                out.push(Some(78));
            }
            HBigEnum::V79 => {
                out.push(Some(79));
            }
            HBigEnum::V80 => {
                out.push(Some(80));
            }
            HBigEnum::V81 => {
                out.push(Some(81));
            }
            HBigEnum::V82 => {
                out.push(Some(82));
            }
            HBigEnum::V83 => {
                out.push(Some(83));
            }
            HBigEnum::V84 => {
                out.push(Some(84));
            }
            HBigEnum::V85 => {
                out.push(Some(85));
            }
            HBigEnum::V86 => {
                out.push(Some(86));
            }
            HBigEnum::V87 => {
                out.push(Some(87));
            }
            HBigEnum::V88 => {
                out.push(Some(88));
            }
            HBigEnum::V89 => {
                out.push(Some(89));
            }
            HBigEnum::V90 => {
                out.push(Some(90));
            }
            HBigEnum::V91 => {
                out.push(Some(91));
            }
            HBigEnum::V92 => {
                out.push(Some(92));
            }
            HBigEnum::V93 => {
                out.push(Some(93));
            }
            HBigEnum::V94 => {
                out.push(Some(94));
            }
            HBigEnum::V95 => {
                out.push(Some(95));
            }
            HBigEnum::V96 => {
                out.push(Some(96));
            }
            HBigEnum::V97 => {
                out.push(Some(97));
            }
            HBigEnum::V98 => {
                out.push(Some(98));
            }
            HBigEnum::V99 => {
                out.push(Some(99));
            }
            HBigEnum::V100 => {
                out.push(Some(100));
            }
            HBigEnum::V101 => {
                out.push(Some(101));
            }
            HBigEnum::V102 => {
                out.push(Some(102));
            }
            HBigEnum::V103 => {
                out.push(Some(103));
            }
            HBigEnum::V104 => {
                out.push(Some(104));
            }
            HBigEnum::V105 => {
                out.push(Some(105));
            }
            HBigEnum::V106 => {
                out.push(Some(106));
            }
            HBigEnum::V107 => {
                out.push(Some(107));
            }
            HBigEnum::V108 => {
                out.push(Some(108));
            }
            HBigEnum::V109 => {
                out.push(Some(109));
            }
            HBigEnum::V110 => {
                out.push(Some(110));
            }
            HBigEnum::V111 => {
                out.push(Some(111));
            }
            HBigEnum::V112 => {
                out.push(Some(112));
            }
            HBigEnum::V113 => {
                out.push(Some(113));
            }
            HBigEnum::V114 => {
                out.push(Some(114));
            }
            HBigEnum::V115 => {
                out.push(Some(115));
            }
            HBigEnum::V116 => {
                out.push(Some(116));
            }
            HBigEnum::V117 => {
                out.push(Some(117));
            }
            HBigEnum::V118 => {
                out.push(Some(118));
            }
            HBigEnum::V119 => {
                out.push(Some(119));
            }
            HBigEnum::V120 => {
                out.push(Some(120));
            }
            HBigEnum::V121 => {
                out.push(Some(121));
            }
            HBigEnum::V122 => {
                out.push(Some(122));
            }
            HBigEnum::V123 => {
                out.push(Some(123));
            }
            HBigEnum::V124 => {
                out.push(Some(124));
            }
            HBigEnum::V125 => {
                out.push(Some(125));
            }
            HBigEnum::V126 => {
                out.push(Some(126));
            }
            HBigEnum::V127 => {
                out.push(Some(127));
            }
            HBigEnum::V128 => {
                out.push(Some(128));
            }
            HBigEnum::V129 => {
                out.push(Some(129));
            }
            HBigEnum::V130 => {
                out.push(Some(130));
            }
            HBigEnum::V131 => {
                out.push(Some(131));
            }
            HBigEnum::V132 => {
                out.push(Some(132));
            }
            HBigEnum::V133 => {
                out.push(Some(133));
            }
            HBigEnum::V134 => {
                out.push(Some(134));
            }
            HBigEnum::V135 => {
                out.push(Some(135));
            }
            HBigEnum::V136 => {
                out.push(Some(136));
            }
            HBigEnum::V137(__v0) => {
                out.push(Some(137));
                __v0.enc(out);
            }
            HBigEnum::V138 => {
                out.push(Some(138));
            }
            HBigEnum::V139 => {
                out.push(Some(139));
            }
            HBigEnum::V140 => {
                out.push(Some(140));
            }
            HBigEnum::V141 => {
                out.push(Some(141));
            }
            HBigEnum::V142 => {
                out.push(Some(142));
            }
            HBigEnum::V143 => {
                out.push(Some(143));
            }
            HBigEnum::V144 => {
                out.push(Some(144));
            }
            HBigEnum::V145 => {
                out.push(Some(145));
            }
            HBigEnum::V146 => {
                out.push(Some(146));
            }
            HBigEnum::V147 => {
                out.push(Some(147));
            }
            HBigEnum::V148 => {
                out.push(Some(148));
            }
            HBigEnum::V149 => {
                out.push(Some(149));
            }
            HBigEnum::V150 => {
                out.push(Some(150));
            }
            HBigEnum::V151 => {
                out.push(Some(151));
            }
            HBigEnum::V152 => {
                out.push(Some(152));
            }
            HBigEnum::V153 => {
                out.push(Some(153));
            }
            HBigEnum::V154 => {
                out.push(Some(154));
            }
            HBigEnum::V155 => {
                out.push(Some(155));
            }
            HBigEnum::V156 => {
                out.push(Some(156));
            }
            HBigEnum::V157 => {
                out.push(Some(157));
            }
            HBigEnum::V158 => {
                out.push(Some(158));
            }
            HBigEnum::V159 => {
                out.push(Some(159));
            }
            HBigEnum::V160 => {
                out.push(Some(160));
            }
            HBigEnum::V161 => {
                out.push(Some(161));
            }
            HBigEnum::V162 => {
                out.push(Some(162));
            }
            HBigEnum::V163 => {
                out.push(Some(163));
            }
            HBigEnum::V164 => {
                out.push(Some(164));
            }
            HBigEnum::V165 => {
                out.push(Some(165));
            }
            HBigEnum::V166 => {
                out.push(Some(166));
            }
            HBigEnum::V167 => {
                out.push(Some(167));
            }
            HBigEnum::V168 => {
                out.push(Some(168));
            }
            HBigEnum::V169 => {
                out.push(Some(169));
            }
            HBigEnum::V170 => {
                out.push(Some(170));
            }
            HBigEnum::V171 => {
                out.push(Some(171));
            }
            HBigEnum::V172 => {
                out.push(Some(172));
            }
            HBigEnum::V173 => {
                out.push(Some(173));
            }
            HBigEnum::V174 => {
                out.push(Some(174));
            }
            HBigEnum::V175 => {
                out.push(Some(175));
            }
            HBigEnum::V176 => {
                out.push(Some(176));
            }
            HBigEnum::V177 => {
                out.push(Some(177));
            }
            HBigEnum::V178 => {
                out.push(Some(178));
            }
            HBigEnum::V179 => {
                out.push(Some(179));
            }
            HBigEnum::V180 => {
                out.push(Some(180));
            }
            HBigEnum::V181 => {
                out.push(Some(181));
            }
            HBigEnum::V182 => {
                out.push(Some(182));
            }
            HBigEnum::V183 => {
                out.push(Some(183));
            }
            HBigEnum::V184 => {
                out.push(Some(184));
            }
            HBigEnum::V185 => {
                out.push(Some(185));
            }
            HBigEnum::V186 => {
                out.push(Some(186));
            }
            HBigEnum::V187 => {
                out.push(Some(187));
            }
            HBigEnum::V188 => {
                out.push(Some(188));
            }
            HBigEnum::V189 => {
                out.push(Some(189));
            }
            HBigEnum::V190 => {
                out.push(Some(190));
            }
            HBigEnum::V191 => {
                out.push(Some(191));
            }
            HBigEnum::V192 => {
                out.push(Some(192));
            }
            HBigEnum::V193 => {
                out.push(Some(193));
            }
            HBigEnum::V194 => {
                out.push(Some(194));
            }
            HBigEnum::V195 => {
                out.push(Some(195));
            }
            HBigEnum::V196 => {
                out.push(Some(196));
            }
            HBigEnum::V197 => {
                out.push(Some(197));
            }
            HBigEnum::V198 => {
                out.push(Some(198));
            }
            HBigEnum::V199 => {
                out.push(Some(199));
            }
            HBigEnum::V200 => {
                out.push(Some(200));
            }
            HBigEnum::V201 => {
                out.push(Some(201));
            }
            HBigEnum::V202 => {
                out.push(Some(202));
            }
            HBigEnum::V203 => {
                out.push(Some(203));
            }
            HBigEnum::V204 => {
                out.push(Some(204));
            }
            HBigEnum::V205 => {
                out.push(Some(205));
            }
            HBigEnum::V206 => {
                out.push(Some(206));
            }
            HBigEnum::V207 => {
                out.push(Some(207));
            }
            HBigEnum::V208 => {
                out.push(Some(208));
            }
            HBigEnum::V209 => {
                out.push(Some(209));
            }
            HBigEnum::V210 => {
                out.push(Some(210));
            }
            HBigEnum::V211 => {
                out.push(Some(211));
            }
            HBigEnum::V212 => {
                out.push(Some(212));
            }
            HBigEnum::V213 => {
                out.push(Some(213));
            }
            HBigEnum::V214 => {
                out.push(Some(214));
            }
            HBigEnum::V215 => {
                out.push(Some(215));
            }
            HBigEnum::V216 => {
                out.push(Some(216));
            }
            HBigEnum::V217 => {
                out.push(Some(217));
            }
            HBigEnum::V218 => {
                out.push(Some(218));
            }
            HBigEnum::V219 => {
                out.push(Some(219));
            }
            HBigEnum::V220 => {
                out.push(Some(220));
            }
            HBigEnum::V221 => {
                out.push(Some(221));
            }
            HBigEnum::V222 => {
                out.push(Some(222));
            }
            HBigEnum::V223 => {
                out.push(Some(223));
            }
            HBigEnum::V224 => {
                out.push(Some(224));
            }
            HBigEnum::V225 => {
                out.push(Some(225));
            }
            HBigEnum::V226 => {
                out.push(Some(226));
            }
            HBigEnum::V227 => {
                out.push(Some(227));
            }
            HBigEnum::V228 => {
                out.push(Some(228));
            }
            HBigEnum::V229 => {
                out.push(Some(229));
            }
            HBigEnum::V230 => {
                out.push(Some(230));
            }
            HBigEnum::V231 => {
                out.push(Some(231));
            }
            HBigEnum::V232 => {
                out.push(Some(232));
            }
            HBigEnum::V233 => {
                out.push(Some(233));
            }
            HBigEnum::V234 => {
                out.push(Some(234));
            }
            HBigEnum::V235 => {
                out.push(Some(235));
            }
            HBigEnum::V236 => {
                out.push(Some(236));
            }
            HBigEnum::V237 => {
                out.push(Some(237));
            }
            HBigEnum::V238 => {
                out.push(Some(238));
            }
            HBigEnum::V239 => {
                out.push(Some(239));
            }
            HBigEnum::V240 => {
                out.push(Some(240));
            }
            HBigEnum::V241 => {
                out.push(Some(241));
            }
            HBigEnum::V242 => {
                out.push(Some(242));
            }
            HBigEnum::V243 => {
                out.push(Some(243));
            }
            HBigEnum::V244 => {
                out.push(Some(244));
            }
            HBigEnum::V245 => {
                out.push(Some(245));
            }
            HBigEnum::V246 => {
                out.push(Some(246));
            }
            HBigEnum::V247 => {
                out.push(Some(247));
            }
            HBigEnum::V248 => {
                out.push(Some(248));
            }
            HBigEnum::V249 => {
                out.push(Some(249));
            }
            HBigEnum::V250 => {
                out.push(Some(250));
            }
            HBigEnum::V251 => {
                out.push(Some(251));
            }
            HBigEnum::V252 => {
                out.push(Some(252));
            }
            HBigEnum::V253 => {
                out.push(Some(253));
            }
            HBigEnum::V254 => {
                out.push(Some(254));
            }
            HBigEnum::V255 => {
                out.push(Some(255));
            }
            HBigEnum::V256 => {
                out.push(Some(256));
            }
            HBigEnum::V257 => {
                out.push(Some(257));
            }
            HBigEnum::V258 => {
                out.push(Some(258));
            }
            HBigEnum::V259 => {
                out.push(Some(259));
            }
            HBigEnum::V260 => {
                out.push(Some(260));
            }
            HBigEnum::V261 => {
                out.push(Some(261));
            }
            HBigEnum::V262 => {
                out.push(Some(262));
            }
            HBigEnum::V263 => {
                out.push(Some(263));
            }
            HBigEnum::V264 => {
                out.push(Some(264));
            }
            HBigEnum::V265 => {
                out.push(Some(265));
            }
            HBigEnum::V266 => {
                out.push(Some(266));
            }
            HBigEnum::V267 => {
                out.push(Some(267));
            }
            HBigEnum::V268 => {
                out.push(Some(268));
            }
            HBigEnum::V269 => {
                out.push(Some(269));
            }
            HBigEnum::V270 => {
                out.push(Some(270));
            }
            HBigEnum::V271 => {
                out.push(Some(271));
            }
            HBigEnum::V272 => {
                out.push(Some(272));
            }
            HBigEnum::V273 => {
                out.push(Some(273));
            }
            HBigEnum::V274 => {
                out.push(Some(274));
            }
            HBigEnum::V275 => {
                out.push(Some(275));
            }
            HBigEnum::V276 => {
                out.push(Some(276));
            }
            HBigEnum::V277 => {
                out.push(Some(277));
            }
            HBigEnum::V278 => {
                out.push(Some(278));
            }
            HBigEnum::V279 => {
                out.push(Some(279));
            }
            HBigEnum::V280 => {
                out.push(Some(280));
            }
            HBigEnum::V281 => {
                out.push(Some(281));
            }
            HBigEnum::V282 => {
                out.push(Some(282));
            }
            HBigEnum::V283 => {
                out.push(Some(283));
            }
            HBigEnum::V284 => {
                out.push(Some(284));
            }
            HBigEnum::V285 => {
                out.push(Some(285));
            }
            HBigEnum::V286 => {
                out.push(Some(286));
            }
            HBigEnum::V287 => {
                out.push(Some(287));
            }
            HBigEnum::V288 => {
                out.push(Some(288));
            }
            HBigEnum::V289 => {
                out.push(Some(289));
            }
            HBigEnum::V290 => {
                out.push(Some(290));
            }
            HBigEnum::V291 => {
                out.push(Some(291));
            }
            HBigEnum::V292 => {
                out.push(Some(292));
            }
            HBigEnum::V293 => {
                out.push(Some(293));
            }
            HBigEnum::V294 => {
                out.push(Some(294));
            }
            HBigEnum::V295 => {
                out.push(Some(295));
            }
            HBigEnum::V296 => {
                out.push(Some(296));
            }
            HBigEnum::V297 => {
                out.push(Some(297));
            }
            HBigEnum::V298 => {
                out.push(Some(298));
            }
            HBigEnum::V299 { a: __v0, b: __v1 } => {
                out.push(Some(299));
                __v0.enc(out);
                __v1.enc(out);
            }
        }
        while out.len() < __s + Self::REF_SIZE {
            out.push(None);
        }
    }
    #[allow(unused_assignments, unused_mut, unused_variables)]
    fn norm(w: &[u32], out: &mut Vec<W>) {
        let __s = out.len();
        let mut __o = 1usize;
        match w[0] {
            0 => {
                out.push(Some(0));
            }
            1 => {
                out.push(Some(1));
            }
            2 => {
                out.push(Some(2));
            }
            3 => {
                out.push(Some(3));
            }
            4 => {
                out.push(Some(4));
            }
            5 => {
                out.push(Some(5));
            }
            6 => {
                out.push(Some(6));
            }
            7 => {
                out.push(Some(7));
            }
            8 => {
                out.push(Some(8));
            }
            9 => {
                out.push(Some(9));
            }
            10 => {
                out.push(Some(10));
            }
            11 => {
                out.push(Some(11));
            }
            12 => {
                out.push(Some(12));
            }
            13 => {
                out.push(Some(13));
            }
            14 => {
                out.push(Some(14));
            }
            15 => {
                out.push(Some(15));
            }
            16 => {
                out.push(Some(16));
            }
            17 => {
                out.push(Some(17));
            }
            18 => {
                out.push(Some(18));
            }
            19 => {
                out.push(Some(19));
            }
            20 => {
                out.push(Some(20));
            }
            21 => {
                out.push(Some(21));
            }
            22 => {
                out.push(Some(22));
            }
            23 => {
                out.push(Some(23));
            }
            24 => {
                out.push(Some(24));
            }
            25 => {
                out.push(Some(25));
            }
            26 => {
                out.push(Some(26));
            }
            27 => {
                out.push(Some(27));
            }
            28 => {
                out.push(Some(28));
            }
            29 => {
                out.push(Some(29));
            }
            30 => {
                out.push(Some(30));
            }
            31 => {
                out.push(Some(31));
            }
            32 => {
                out.push(Some(32));
            }
            33 => {
                out.push(Some(33));
            }
            34 => {
                out.push(Some(34));
            }
            35 => {
                out.push(Some(35));
            }
            36 => {
                out.push(Some(36));
            }
            37 => {
                out.push(Some(37));
            }
            38 => {
                out.push(Some(38));
            }
            39 => {
                out.push(Some(39));
            }
            40 => {
                out.push(Some(40));
            }
            41 => {
                out.push(Some(41));
            }
            42 => {
                out.push(Some(42));
            }
            43 => {
                out.push(Some(43));
            }
            44 => {
                out.push(Some(44));
            }
            45 => {
                out.push(Some(45));
            }
            46 => {
                out.push(Some(46));
            }
            47 => {
                out.push(Some(47));
            }
            48 => {
                out.push(Some(48));
            }
            49 => {
                out.push(Some(49));
            }
            50 => {
                out.push(Some(50));
            }
            51 => {
                out.push(Some(51));
            }
            52 => {
                out.push(Some(52));
            }
            53 => {
                out.push(Some(53));
            }
            54 => {
                out.push(Some(54));
            }
            55 => {
                out.push(Some(55));
            }
            56 => {
                out.push(Some(56));
            }
            57 => {
                out.push(Some(57));
            }
            58 => {
                out.push(Some(58));
            }
            59 => {
                out.push(Some(59));
            }
            60 => {
                out.push(Some(60));
            }
            61 => {
                out.push(Some(61));
            }
            62 => {
                out.push(Some(62));
            }
            63 => {
                out.push(Some(63));
            }
            64 => {
                out.push(Some(64));
            }
            65 => {
                out.push(Some(65));
            }
            66 => {
                out.push(Some(66));
            }
            67 => {
                out.push(Some(67));
            }
            68 => {
                out.push(Some(68));
            }
            69 => {
                out.push(Some(69));
            }
            70 => {
                out.push(Some(70));
            }
            71 => {
                out.push(Some(71));
            }
            72 => {
                out.push(Some(72));
            }
            73 => {
                out.push(Some(73));
            }
            74 => {
                out.push(Some(74));
            }
            75 => {
                out.push(Some(75));
            }
            76 => {
                out.push(Some(76));
            }
            77 => {
                out.push(Some(77));
            }
            78 => {
                out.push(Some(78));
            }
            79 => {
                out.push(Some(79));
            }
            80 => {
                out.push(Some(80));
            }
            81 => {
                out.push(Some(81));
            }
            82 => {
                out.push(Some(82));
            }
            83 => {
                out.push(Some(83));
            }
            84 => {
                out.push(Some(84));
            }
            85 => {
                out.push(Some(85));
            }
            86 => {
                out.push(Some(86));
            }
            87 => {
                out.push(Some(87));
            }
            88 => {
                out.push(Some(88));
            }
            89 => {
                out.push(Some(89));
            }
            90 => {
                out.push(Some(90));
            }
            91 => {
                out.push(Some(91));
            }
            92 => {
                out.push(Some(92));
            }
            93 => {
                out.push(Some(93));
            }
            94 => {
                out.push(Some(94));
            }
            95 => {
                out.push(Some(95));
            }
            96 => {
                out.push(Some(96));
            }
            97 => {
                out.push(Some(97));
            }
            98 => {
                out.push(Some(98));
            }
            99 => {
                out.push(Some(99));
            }
            100 => {
                out.push(Some(100));
            }
            101 => {
                out.push(Some(101));
            }
            102 => {
                out.push(Some(102));
            }
            103 => {
                out.push(Some(103));
            }
            104 => {
                out.push(Some(104));
            }
            105 => {
                out.push(Some(105));
            }
            106 => {
                out.push(Some(106));
            }
            107 => {
                out.push(Some(107));
            }
            108 => {
                out.push(Some(108));
            }
            109 => {
                out.push(Some(109));
            }
            110 => {
                out.push(Some(110));
            }
            111 => {
                out.push(Some(111));
            }
            112 => {
                out.push(Some(112));
            }
            113 => {
                out.push(Some(113));
            }
            114 => {
                out.push(Some(114));
            }
            115 => {
                out.push(Some(115));
            }
            116 => {
                out.push(Some(116));
            }
            117 => {
                out.push(Some(117));
            }
            118 => {
                out.push(Some(118));
            }
            119 => {
                out.push(Some(119));
            }
            120 => {
                out.push(Some(120));
            }
            121 => {
                out.push(Some(121));
            }
            122 => {
                out.push(Some(122));
            }
            123 => {
                out.push(Some(123));
            }
            124 => {
                out.push(Some(124));
            }
            125 => {
                out.push(Some(125));
            }
            126 => {
                out.push(Some(126));
            }
            127 => {
                out.push(Some(127));
            }
            128 => {
                out.push(Some(128));
            }
            129 => {
                out.push(Some(129));
            }
            130 => {
                out.push(Some(130));
            }
            131 => {
                out.push(Some(131));
            }
            132 => {
                out.push(Some(132));
            }
            133 => {
                out.push(Some(133));
            }
            134 => {
                out.push(Some(134));
            }
            135 => {
                out.push(Some(135));
            }
            136 => {
                out.push(Some(136));
            }
            137 => {
                out.push(Some(137));
                <u64 as Shape>::norm(&w[__o..], out);
                __o += <u64 as Shape>::REF_SIZE;
            }
            138 => {
                out.push(Some(138));
            }
            139 => {
                out.push(Some(139));
            }
            140 => {
                out.push(Some(140));
            }
            141 => {
                out.push(Some(141));
            }
            142 => {
                out.push(Some(142));
            }
            143 => {
                out.push(Some(143));
            }
            144 => {
                out.push(Some(144));
            }
            145 => {
                out.push(Some(145));
            }
            146 => {
                out.push(Some(146));
            }
            147 => {
                out.push(Some(147));
            }
            148 => {
                out.push(Some(148));
            }
            149 => {
                out.push(Some(149));
            }
            150 => {
                out.push(Some(150));
            }
            151 => {
                out.push(Some(151));
            }
            152 => {
                out.push(Some(152));
            }
            153 => {
                out.push(Some(153));
            }
            154 => {
                out.push(Some(154));
            }
            155 => {
                out.push(Some(155));
            }
            156 => {
                out.push(Some(156));
            }
            157 => {
                out.push(Some(157));
            }
            158 => {
                out.push(Some(158));
            }
            159 => {
                out.push(Some(159));
            }
            160 => {
                out.push(Some(160));
            }
            161 => {
                out.push(Some(161));
            }
            162 => {
                out.push(Some(162));
            }
            163 => {
                out.push(Some(163));
            }
            164 => {
                out.push(Some(164));
            }
            165 => {
                out.push(Some(165));
            }
            166 => {
                out.push(Some(166));
            }
            167 => {
                out.push(Some(167));
            }
            168 => {
                out.push(Some(168));
            }
            169 => {
                out.push(Some(169));
            }
            170 => {
                out.push(Some(170));
            }
            171 => {
                out.push(Some(171));
            }
            172 => {
                out.push(Some(172));
            }
            173 => {
                out.push(Some(173));
            }
            174 => {
                out.push(Some(174));
            }
            175 => {
                out.push(Some(175));
            }
            176 => {
                out.push(Some(176));
            }
            177 => {
                out.push(Some(177));
            }
            178 => {
                out.push(Some(178));
            }
            179 => {
                out.push(Some(179));
            }
            180 => {
                out.push(Some(180));
            }
            181 => {
                out.push(Some(181));
            }
            182 => {
                out.push(Some(182));
            }
            183 => {
                out.push(Some(183));
            }
            184 => {
                out.push(Some(184));
            }
            185 => {
                out.push(Some(185));
            }
            186 => {
                out.push(Some(186));
            }
            187 => {
                out.push(Some(187));
            }
            188 => {
                out.push(Some(188));
            }
            189 => {
                out.push(Some(189));
            }
            190 => {
                out.push(Some(190));
            }
            191 => {
                out.push(Some(191));
            }
            192 => {
                out.push(Some(192));
            }
            193 => {
                out.push(Some(193));
            }
            194 => {
                out.push(Some(194));
            }
            195 => {
                out.push(Some(195));
            }
            196 => {
                out.push(Some(196));
            }
            197 => {
                out.push(Some(197));
            }
            198 => {
                out.push(Some(198));
            }
            199 => {
                out.push(Some(199));
            }
            200 => {
                out.push(Some(200));
            }
            201 => {
                out.push(Some(201));
            }
            202 => {
                out.push(Some(202));
            }
            203 => {
                out.push(Some(203));
            }
            204 => {
                out.push(Some(204));
            }
            205 => {
                out.push(Some(205));
            }
            206 => {
                out.push(Some(206));
            }
            207 => {
                out.push(Some(207));
            }
            208 => {
                out.push(Some(208));
            }
            209 => {
                out.push(Some(209));
            }
            210 => {
                out.push(Some(210));
            }
            211 => {
                out.push(Some(211));
            }
            212 => {
                out.push(Some(212));
            }
            213 => {
                out.push(Some(213));
            }
            214 => {
                out.push(Some(214));
            }
            215 => {
                out.push(Some(215));
            }
            216 => {
                out.push(Some(216));
            }
            217 => {
                out.push(Some(217));
            }
            218 => {
                out.push(Some(218));
            }
            219 => {
                out.push(Some(219));
            }
            220 => {
                out.push(Some(220));
            }
            221 => {
                out.push(Some(221));
            }
            222 => {
                out.push(Some(222));
            }
            223 => {
                out.push(Some(223));
            }
            224 => {
                out.push(Some(224));
            }
            225 => {
                out.push(Some(225));
            }
            226 => {
                out.push(Some(226));
            }
            227 => {
                out.push(Some(227));
            }
            228 => {
                out.push(Some(228));
            }
            229 => {
                out.push(Some(229));
            }
            230 => {
                out.push(Some(230));
            }
            231 => {
                out.push(Some(231));
            }
            232 => {
                out.push(Some(232));
            }
            233 => {
                out.push(Some(233));
            }
            234 => {
                out.push(Some(234));
            }
            235 => {
                out.push(Some(235));
            }
            236 => {
                out.push(Some(236));
            }
            237 => {
                out.push(Some(237));
            }
            238 => {
                out.push(Some(238));
            }
            239 => {
                out.push(Some(239));
            }
            240 => {
                out.push(Some(240));
            }
            241 => {
                out.push(Some(241));
            }
            242 => {
                out.push(Some(242));
            }
            243 => {
                out.push(Some(243));
            }
            244 => {
                out.push(Some(244));
            }
            245 => {
                out.push(Some(245));
            }
            246 => {
                out.push(Some(246));
            }
            247 => {
                out.push(Some(247));
            }
            248 => {
                out.push(Some(248));
            }
            249 => {
                out.push(Some(249));
            }
            250 => {
                out.push(Some(250));
            }
            251 => {
                out.push(Some(251));
            }
            252 => {
                out.push(Some(252));
            }
            253 => {
                out.push(Some(253));
            }
            254 => {
                out.push(Some(254));
            }
            255 => {
                out.push(Some(255));
            }
            256 => {
                out.push(Some(256));
            }
            257 => {
                out.push(Some(257));
            }
            258 => {
                out.push(Some(258));
            }
            259 => {
                out.push(Some(259));
            }
            260 => {
                out.push(Some(260));
            }
            261 => {
                out.push(Some(261));
            }
            262 => {
                out.push(Some(262));
            }
            263 => {
                out.push(Some(263));
            }
            264 => {
                out.push(Some(264));
            }
            265 => {
                out.push(Some(265));
            }
            266 => {
                out.push(Some(266));
            }
            267 => {
                out.push(Some(267));
            }
            268 => {
                out.push(Some(268));
            }
            269 => {
                out.push(Some(269));
            }
            270 => {
                out.push(Some(270));
            }
            271 => {
                out.push(Some(271));
            }
            272 => {
                out.push(Some(272));
            }
            273 => {
                out.push(Some(273));
            }
            274 => {
                out.push(Some(274));
            }
            275 => {
                out.push(Some(275));
            }
            276 => {
                out.push(Some(276));
            }
            277 => {
                out.push(Some(277));
            }
            278 => {
                out.push(Some(278));
            }
            279 => {
                out.push(Some(279));
            }
            280 => {
                out.push(Some(280));
            }
            281 => {
                out.push(Some(281));
            }
            282 => {
                out.push(Some(282));
            }
            283 => {
                out.push(Some(283));
            }
            284 => {
                out.push(Some(284));
            }
            285 => {
                out.push(Some(285));
            }
            286 => {
                out.push(Some(286));
            }
            287 => {
                out.push(Some(287));
            }
            288 => {
                out.push(Some(288));
            }
            289 => {
                out.push(Some(289));
            }
            290 => {
                out.push(Some(290));
            }
            291 => {
                out.push(Some(291));
            }
            292 => {
                out.push(Some(292));
            }
            293 => {
                out.push(Some(293));
            }
            294 => {
                out.push(Some(294));
            }
            295 => {
                out.push(Some(295));
            }
            296 => {
                out.push(Some(296));
            }
            297 => {
                out.push(Some(297));
            }
            298 => {
                out.push(Some(298));
            }
            299 => {
                out.push(Some(299));
                <u32 as Shape>::norm(&w[__o..], out);
                __o += <u32 as Shape>::REF_SIZE;
                <[u16; 5] as Shape>::norm(&w[__o..], out);
                __o += <[u16; 5] as Shape>::REF_SIZE;
            }
            _ => Self::default().enc(out),
        }
        while out.len() < __s + Self::REF_SIZE {
            out.push(None);
        }
    }
}
#[derive(Clone, Copy, SlabItem)]
#[offsets]
pub struct HWide {
    pub f0: u8,
    pub f1: i8,
    pub f2: u16,
    pub f3: i16,
    pub f4: u32,
    pub f5: i32,
    pub f6: u64,
    pub f7: i64,
    pub f8: u128,
    pub f9: i128,
    pub f10: f32,
    pub f11: f64,
    pub f12: bool,
    pub f13: u8,
    pub f14: i8,
    pub f15: u16,
    pub f16: i16,
    pub f17: u32,
    pub f18: i32,
    pub f19: u64,
    pub f20: i64,
    pub f21: u128,
    pub f22: i128,
    pub f23: f32,
    pub f24: f64,
    pub f25: bool,
    pub f26: u8,
    pub f27: i8,
    pub f28: u16,
    pub f29: i16,
    pub f30: u32,
    pub f31: i32,
    pub f32: u64,
    pub f33: i64,
    pub f34: u128,
    pub f35: i128,
    pub f36: f32,
    pub f37: f64,
    pub f38: bool,
    pub f39: u8,
}
impl Default for HWide {
    fn default() -> Self {
        HWide {
            f0: Default::default(),
            f1: Default::default(),
            f2: Default::default(),
            f3: Default::default(),
            f4: Default::default(),
            f5: Default::default(),
            f6: Default::default(),
            f7: Default::default(),
            f8: Default::default(),
            f9: Default::default(),
            f10: Default::default(),
            f11: Default::default(),
            f12: Default::default(),
            f13: Default::default(),
            f14: Default::default(),
            f15: Default::default(),
            f16: Default::default(),
            f17: Default::default(),
            f18: Default::default(),
            f19: Default::default(),
            f20: Default::default(),
            f21: Default::default(),
            f22: Default::default(),
            f23: Default::default(),
            f24: Default::default(),
            f25: Default::default(),
            f26: Default::default(),
            f27: Default::default(),
            f28: Default::default(),
            f29: Default::default(),
            f30: Default::default(),
            f31: Default::default(),
            f32: Default::default(),
            f33: Default::default(),
            f34: Default::default(),
            f35: Default::default(),
            f36: Default::default(),
            f37: Default::default(),
            f38: Default::default(),
            f39: Default::default(),
        }
    }
}
impl Shape for HWide {
    const REF_SIZE: usize = 0
        + <u8 as Shape>::REF_SIZE
        + <i8 as Shape>::REF_SIZE
        + <u16 as Shape>::REF_SIZE
        + <i16 as Shape>::REF_SIZE
        + <u32 as Shape>::REF_SIZE
        + <i32 as Shape>::REF_SIZE
        + <u64 as Shape>::REF_SIZE
        + <i64 as Shape>::REF_SIZE
        + <u128 as Shape>::REF_SIZE
        + <i128 as Shape>::REF_SIZE
        + <f32 as Shape>::REF_SIZE
        + <f64 as Shape>::REF_SIZE
        + <bool as Shape>::REF_SIZE
        + <u8 as Shape>::REF_SIZE
        + <i8 as Shape>::REF_SIZE
        + <u16 as Shape>::REF_SIZE
        + <i16 as Shape>::REF_SIZE
        + <u32 as Shape>::REF_SIZE
        + <i32 as Shape>::REF_SIZE
        + <u64 as Shape>::REF_SIZE
        + <i64 as Shape>::REF_SIZE
        + <u128 as Shape>::REF_SIZE
        + <i128 as Shape>::REF_SIZE
        + <f32 as Shape>::REF_SIZE
        + <f64 as Shape>::REF_SIZE
        + <bool as Shape>::REF_SIZE
        + <u8 as Shape>::REF_SIZE
        + <i8 as Shape>::REF_SIZE
        + <u16 as Shape>::REF_SIZE
        + <i16 as Shape>::REF_SIZE
        + <u32 as Shape>::REF_SIZE
        + <i32 as Shape>::REF_SIZE
        + <u64 as Shape>::REF_SIZE
        + <i64 as Shape>::REF_SIZE
        + <u128 as Shape>::REF_SIZE
        + <i128 as Shape>::REF_SIZE
        + <f32 as Shape>::REF_SIZE
        + <f64 as Shape>::REF_SIZE
        + <bool as Shape>::REF_SIZE
        + <u8 as Shape>::REF_SIZE;
    fn gen(r: &mut Rng) -> Self {
        let _ = &r;
        HWide {
            f0: Shape::gen(r),
            f1: Shape::gen(r),
            f2: Shape::gen(r),
            f3: Shape::gen(r),
            f4: Shape::gen(r),
            f5: Shape::gen(r),
            f6: Shape::gen(r),
            f7: Shape::gen(r),
            f8: Shape::gen(r),
            f9: Shape::gen(r),
            f10: Shape::gen(r),
            f11: Shape::gen(r),
            f12: Shape::gen(r),
            f13: Shape::gen(r),
            f14: Shape::gen(r),
            f15: Shape::gen(r),
            f16: Shape::gen(r),
            f17: Shape::gen(r),
            f18: Shape::gen(r),
            f19: Shape::gen(r),
            f20: Shape::gen(r),
            f21: Shape::gen(r),
            f22: Shape::gen(r),
            f23: Shape::gen(r),
            f24: Shape::gen(r),
            f25: Shape::gen(r),
            f26: Shape::gen(r),
            f27: Shape::gen(r),
            f28: Shape::gen(r),
            f29: Shape::gen(r),
            f30: Shape::gen(r),
            f31: Shape::gen(r),
            f32: Shape::gen(r),
            f33: Shape::gen(r),
            f34: Shape::gen(r),
            f35: Shape::gen(r),
            f36: Shape::gen(r),
            f37: Shape::gen(r),
            f38: Shape::gen(r),
            f39: Shape::gen(r),
        }
    }
    fn enc(&self, out: &mut Vec<W>) {
        let _ = &out;
        self.f0.enc(out);
        self.f1.enc(out);
        self.f2.enc(out);
        self.f3.enc(out);
        self.f4.enc(out);
        self.f5.enc(out);
        self.f6.enc(out);
        self.f7.enc(out);
        self.f8.enc(out);
        self.f9.enc(out);
        self.f10.enc(out);
        self.f11.enc(out);
        self.f12.enc(out);
        self.f13.enc(out);
        self.f14.enc(out);
        self.f15.enc(out);
        self.f16.enc(out);
        self.f17.enc(out);
        self.f18.enc(out);
        self.f19.enc(out);
        self.f20.enc(out);
        self.f21.enc(out);
        self.f22.enc(out);
        self.f23.enc(out);
        self.f24.enc(out);
        self.f25.enc(out);
        self.f26.enc(out);
        self.f27.enc(out);
        self.f28.enc(out);
        self.f29.enc(out);
        self.f30.enc(out);
        self.f31.enc(out);
        self.f32.enc(out);
        self.f33.enc(out);
        self.f34.enc(out);
        self.f35.enc(out);
        self.f36.enc(out);
        self.f37.enc(out);
        self.f38.enc(out);
        self.f39.enc(out);
    }
    #[allow(unused_assignments, unused_mut)]
    fn norm(w: &[u32], out: &mut Vec<W>) {
        let _ = (&w, &out);
        let mut __o = 0usize;
        <u8 as Shape>::norm(&w[__o..], out);
        __o += <u8 as Shape>::REF_SIZE;
        <i8 as Shape>::norm(&w[__o..], out);
        __o += <i8 as Shape>::REF_SIZE;
        <u16 as Shape>::norm(&w[__o..], out);
        __o += <u16 as Shape>::REF_SIZE;
        <i16 as Shape>::norm(&w[__o..], out);
        __o += <i16 as Shape>::REF_SIZE;
        <u32 as Shape>::norm(&w[__o..], out);
        __o += <u32 as Shape>::REF_SIZE;
        <i32 as Shape>::norm(&w[__o..], out);
        __o += <i32 as Shape>::REF_SIZE;
        <u64 as Shape>::norm(&w[__o..], out);
        __o += <u64 as Shape>::REF_SIZE;
        <i64 as Shape>::norm(&w[__o..], out);
        __o += <i64 as Shape>::REF_SIZE;
        <u128 as Shape>::norm(&w[__o..], out);
        __o += <u128 as Shape>::REF_SIZE;
        <i128 as Shape>::norm(&w[__o..], out);
        __o += <i128 as Shape>::REF_SIZE;
        <f32 as Shape>::norm(&w[__o..], out);
        __o += <f32 as Shape>::REF_SIZE;
        <f64 as Shape>::norm(&w[__o..], out);
        __o += <f64 as Shape>::REF_SIZE;
        <bool as Shape>::norm(&w[__o..], out);
        __o += <bool as Shape>::REF_SIZE;
        <u8 as Shape>::norm(&w[__o..], out);
        __o += <u8 as Shape>::REF_SIZE;
        <i8 as Shape>::norm(&w[__o..], out);
        __o += <i8 as Shape>::REF_SIZE;
        <u16 as Shape>::norm(&w[__o..], out);
        __o += <u16 as Shape>::REF_SIZE;
        <i16 as Shape>::norm(&w[__o..], out);
        __o += <i16 as Shape>::REF_SIZE;
        <u32 as Shape>::norm(&w[__o..], out);
        __o += <u32 as Shape>::REF_SIZE;
        <i32 as Shape>::norm(&w[__o..], out);
        __o += <i32 as Shape>::REF_SIZE;
        <u64 as Shape>::norm(&w[__o..], out);
        __o += <u64 as Shape>::REF_SIZE;
        <i64 as Shape>::norm(&w[__o..], out);
        __o += <i64 as Shape>::REF_SIZE;
        <u128 as Shape>::norm(&w[__o..], out);
        __o += <u128 as Shape>::REF_SIZE;
        <i128 as Shape>::norm(&w[__o..], out);
        __o += <i128 as Shape>::REF_SIZE;
        <f32 as Shape>::norm(&w[__o..], out);
        __o += <f32 as Shape>::REF_SIZE;
        <f64 as Shape>::norm(&w[__o..], out);
        __o += <f64 as Shape>::REF_SIZE;
        <bool as Shape>::norm(&w[__o..], out);
        __o += <bool as Shape>::REF_SIZE;
        <u8 as Shape>::norm(&w[__o..], out);
        __o += <u8 as Shape>::REF_SIZE;
        <i8 as Shape>::norm(&w[__o..], out);
        __o += <i8 as Shape>::REF_SIZE;
        <u16 as Shape>::norm(&w[__o..], out);
        __o += <u16 as Shape>::REF_SIZE;
        <i16 as Shape>::norm(&w[__o..], out);
        __o += <i16 as Shape>::REF_SIZE;
        <u32 as Shape>::norm(&w[__o..], out);
        __o += <u32 as Shape>::REF_SIZE;
        <i32 as Shape>::norm(&w[__o..], out);
        __o += <i32 as Shape>::REF_SIZE;
        <u64 as Shape>::norm(&w[__o..], out);
        __o += <u64 as Shape>::REF_SIZE;
        <i64 as Shape>::norm(&w[__o..], out);
        __o += <i64 as Shape>::REF_SIZE;
        <u128 as Shape>::norm(&w[__o..], out);
        __o += <u128 as Shape>::REF_SIZE;
        <i128 as Shape>::norm(&w[__o..], out);
        __o += <i128 as Shape>::REF_SIZE;
        <f32 as Shape>::norm(&w[__o..], out);
        __o += <f32 as Shape>::REF_SIZE;
        <f64 as Shape>::norm(&w[__o..], out);
        __o += <f64 as Shape>::REF_SIZE;
        <bool as Shape>::norm(&w[__o..], out);
        __o += <bool as Shape>::REF_SIZE;
        <u8 as Shape>::norm(&w[__o..], out);
        __o += <u8 as Shape>::REF_SIZE;
        let _ = __o;
    }
}
#[derive(Clone, Copy, SlabItem)]
#[offsets]
pub struct HArrs {
    pub a0: [u32; 0],
    pub a1: [u64; 32],
    pub a2: [Option<u8>; 7],
    pub a3: [[i16; 3]; 4],
}
impl Default for HArrs {
    fn default() -> Self {
        HArrs {
            a0: Default::default(),
            a1: Default::default(),
            a2: Default::default(),
            a3: Default::default(),
        }
    }
}
impl Shape for HArrs {
    const REF_SIZE: usize = 0 + <[u32; 0] as Shape>::REF_SIZE + <[u64; 32] as Shape>::REF_SIZE + <[Option<u8>; 7] as Shape>::REF_SIZE + <[[i16; 3]; 4] as Shape>::REF_SIZE;
    fn gen(r: &mut Rng) -> Self {
        let _ = &r;
        HArrs {
            a0: Shape::gen(r),
            a1: Shape::gen(r),
            a2: Shape::gen(r),
            a3: Shape::gen(r),
        }
    }
    fn enc(&self, out: &mut Vec<W>) {
        let _ = &out;
        self.a0.enc(out);
        self.a1.enc(out);
        self.a2.enc(out);
        self.a3.enc(out);
    }
    #[allow(unused_assignments, unused_mut)]
    fn norm(w: &[u32], out: &mut Vec<W>) {
        let _ = (&w, &out);
        let mut __o = 0usize;
        <[u32; 0] as Shape>::norm(&w[__o..], out);
        __o += <[u32; 0] as Shape>::REF_SIZE;
        <[u64; 32] as Shape>::norm(&w[__o..], out);
        __o += <[u64; 32] as Shape>::REF_SIZE;
        <[Option<u8>; 7] as Shape>::norm(&w[__o..], out);
        __o += <[Option<u8>; 7] as Shape>::REF_SIZE;
        <[[i16; 3]; 4] as Shape>::norm(&w[__o..], out);
        __o += <[[i16; 3]; 4] as Shape>::REF_SIZE;
        let _ = __o;
    }
}
#[derive(Clone, SlabItem)]
#[offsets]
pub struct HPtr {
    pub id: crabslab::Id<HNest>,
    pub arr: crabslab::Array<HEnum>,
    pub m: glam::Mat4,
    pub q: glam::Quat,
}
impl Default for HPtr {
    fn default() -> Self {
        HPtr {
            id: Default::default(),
            arr: Default::default(),
            m: Default::default(),
            q: Default::default(),
        }
    }
}
impl Shape for HPtr {
    const REF_SIZE: usize =
        0 + <crabslab::Id<HNest> as Shape>::REF_SIZE + <crabslab::Array<HEnum> as Shape>::REF_SIZE + <glam::Mat4 as Shape>::REF_SIZE + <glam::Quat as Shape>::REF_SIZE;
    fn gen(r: &mut Rng) -> Self {
        let _ = &r;
        HPtr {
            id: Shape::gen(r),
            arr: Shape::gen(r),
            m: Shape::gen(r),
            q: Shape::gen(r),
        }
    }
    fn enc(&self, out: &mut Vec<W>) {
        let _ = &out;
        self.id.enc(out);
        self.arr.enc(out);
        self.m.enc(out);
        self.q.enc(out);
    }
    #[allow(unused_assignments, unused_mut)]
    fn norm(w: &[u32], out: &mut Vec<W>) {
        let _ = (&w, &out);
        let mut __o = 0usize;
        <crabslab::Id<HNest> as Shape>::norm(&w[__o..], out);
        __o += <crabslab::Id<HNest> as Shape>::REF_SIZE;
        <crabslab::Array<HEnum> as Shape>::norm(&w[__o..], out);
        __o += <crabslab::Array<HEnum> as Shape>::REF_SIZE;
        <glam::Mat4 as Shape>::norm(&w[__o..], out);
        __o += <glam::Mat4 as Shape>::REF_SIZE;
        <glam::Quat as Shape>::norm(&w[__o..], out);
        __o += <glam::Quat as Shape>::REF_SIZE;
        let _ = __o;
    }
}
fn offsets_hnamed(r: &mut Rng, ck: &mut OffCk) {
    ck.begin::<HNamed>(r);
    ck.field::<HNamed, u32>(r, "a", HNamed::OFFSET_OF_A, HNamed::SLAB_SIZE_OF_A, 0usize, |s| s.a.clone(), |s, x| s.a = x);
    ck.field::<HNamed, u64>(
        r,
        "b",
        HNamed::OFFSET_OF_B,
        HNamed::SLAB_SIZE_OF_B,
        0usize + <u32 as Shape>::REF_SIZE,
        |s| s.b.clone(),
        |s, x| s.b = x,
    );
    ck.field::<HNamed, f32>(
        r,
        "c",
        HNamed::OFFSET_OF_C,
        HNamed::SLAB_SIZE_OF_C,
        0usize + <u32 as Shape>::REF_SIZE + <u64 as Shape>::REF_SIZE,
        |s| s.c.clone(),
        |s, x| s.c = x,
    );
}
fn offsets_htuple(r: &mut Rng, ck: &mut OffCk) {
    ck.begin::<HTuple>(r);
    ck.field::<HTuple, u128>(r, "0", HTuple::OFFSET_OF_0, HTuple::SLAB_SIZE_OF_0, 0usize, |s| s.0.clone(), |s, x| s.0 = x);
    ck.field::<HTuple, u8>(
        r,
        "1",
        HTuple::OFFSET_OF_1,
        HTuple::SLAB_SIZE_OF_1,
        0usize + <u128 as Shape>::REF_SIZE,
        |s| s.1.clone(),
        |s, x| s.1 = x,
    );
    ck.field::<HTuple, Option<u16>>(
        r,
        "2",
        HTuple::OFFSET_OF_2,
        HTuple::SLAB_SIZE_OF_2,
        0usize + <u128 as Shape>::REF_SIZE + <u8 as Shape>::REF_SIZE,
        |s| s.2.clone(),
        |s, x| s.2 = x,
    );
}
fn offsets_hone(r: &mut Rng, ck: &mut OffCk) {
    ck.begin::<HOne>(r);
    ck.field::<HOne, i64>(r, "only", HOne::OFFSET_OF_ONLY, HOne::SLAB_SIZE_OF_ONLY, 0usize, |s| s.only.clone(), |s, x| s.only = x);
}
fn offsets_hnest(r: &mut Rng, ck: &mut OffCk) {
    ck.begin::<HNest>(r);
    ck.field::<HNest, HNamed>(r, "p", HNest::OFFSET_OF_P, HNest::SLAB_SIZE_OF_P, 0usize, |s| s.p.clone(), |s, x| s.p = x);
    ck.nested::<HNest, HNamed, u32>(r, "p.a", HNest::OFFSET_OF_P, HNamed::OFFSET_OF_A, 0usize, |s| s.p.a.clone(), |s, x| s.p.a = x);
    ck.nested::<HNest, HNamed, u64>(
        r,
        "p.b",
        HNest::OFFSET_OF_P,
        HNamed::OFFSET_OF_B,
        0usize + <u32 as Shape>::REF_SIZE,
        |s| s.p.b.clone(),
        |s, x| s.p.b = x,
    );
    ck.nested::<HNest, HNamed, f32>(
        r,
        "p.c",
        HNest::OFFSET_OF_P,
        HNamed::OFFSET_OF_C,
        0usize + <u32 as Shape>::REF_SIZE + <u64 as Shape>::REF_SIZE,
        |s| s.p.c.clone(),
        |s, x| s.p.c = x,
    );
    ck.field::<HNest, Option<HTuple>>(
        r,
        "q",
        HNest::OFFSET_OF_Q,
        HNest::SLAB_SIZE_OF_Q,
        0usize + <HNamed as Shape>::REF_SIZE,
        |s| s.q.clone(),
        |s, x| s.q = x,
    );
    ck.field::<HNest, [HNamed; 3]>(
        r,
        "r",
        HNest::OFFSET_OF_R,
        HNest::SLAB_SIZE_OF_R,
        0usize + <HNamed as Shape>::REF_SIZE + <Option<HTuple> as Shape>::REF_SIZE,
        |s| s.r.clone(),
        |s, x| s.r = x,
    );
    ck.field::<HNest, HTuple>(
        r,
        "s",
        HNest::OFFSET_OF_S,
        HNest::SLAB_SIZE_OF_S,
        0usize + <HNamed as Shape>::REF_SIZE + <Option<HTuple> as Shape>::REF_SIZE + <[HNamed; 3] as Shape>::REF_SIZE,
        |s| s.s.clone(),
        |s, x| s.s = x,
    );
    ck.nested::<HNest, HTuple, u128>(
        r,
        "s.0",
        HNest::OFFSET_OF_S,
        HTuple::OFFSET_OF_0,
        0usize + <HNamed as Shape>::REF_SIZE + <Option<HTuple> as Shape>::REF_SIZE + <[HNamed; 3] as Shape>::REF_SIZE,
        |s| s.s.0.clone(),
        |s, x| s.s.0 = x,
    );
    ck.nested::<HNest, HTuple, u8>(
        r,
        "s.1",
        HNest::OFFSET_OF_S,
        HTuple::OFFSET_OF_1,
        0usize + <HNamed as Shape>::REF_SIZE + <Option<HTuple> as Shape>::REF_SIZE + <[HNamed; 3] as Shape>::REF_SIZE + <u128 as Shape>::REF_SIZE,
        |s| s.s.1.clone(),
        |s, x| s.s.1 = x,
    );
    ck.nested::<HNest, HTuple, Option<u16>>(
        r,
        "s.2",
        HNest::OFFSET_OF_S,
        HTuple::OFFSET_OF_2,
        0usize + <HNamed as Shape>::REF_SIZE + <Option<HTuple> as Shape>::REF_SIZE + <[HNamed; 3] as Shape>::REF_SIZE + <u128 as Shape>::REF_SIZE + <u8 as Shape>::REF_SIZE,
        |s| s.s.2.clone(),
        |s, x| s.s.2 = x,
    );
    ck.field::<HNest, HOne>(
        r,
        "t",
        HNest::OFFSET_OF_T,
        HNest::SLAB_SIZE_OF_T,
        0usize + <HNamed as Shape>::REF_SIZE + <Option<HTuple> as Shape>::REF_SIZE + <[HNamed; 3] as Shape>::REF_SIZE + <HTuple as Shape>::REF_SIZE,
        |s| s.t.clone(),
        |s, x| s.t = x,
    );
    ck.nested::<HNest, HOne, i64>(
        r,
        "t.only",
        HNest::OFFSET_OF_T,
        HOne::OFFSET_OF_ONLY,
        0usize + <HNamed as Shape>::REF_SIZE + <Option<HTuple> as Shape>::REF_SIZE + <[HNamed; 3] as Shape>::REF_SIZE + <HTuple as Shape>::REF_SIZE,
        |s| s.t.only.clone(),
        |s, x| s.t.only = x,
    );
}
fn offsets_hnest2(r: &mut Rng, ck: &mut OffCk) {
    ck.begin::<HNest2>(r);
    ck.field::<HNest2, bool>(r, "0", HNest2::OFFSET_OF_0, HNest2::SLAB_SIZE_OF_0, 0usize, |s| s.0.clone(), |s, x| s.0 = x);
    ck.field::<HNest2, HNest>(
        r,
        "1",
        HNest2::OFFSET_OF_1,
        HNest2::SLAB_SIZE_OF_1,
        0usize + <bool as Shape>::REF_SIZE,
        |s| s.1.clone(),
        |s, x| s.1 = x,
    );
    ck.nested::<HNest2, HNest, HNamed>(
        r,
        "1.p",
        HNest2::OFFSET_OF_1,
        HNest::OFFSET_OF_P,
        0usize + <bool as Shape>::REF_SIZE,
        |s| s.1.p.clone(),
        |s, x| s.1.p = x,
    );
    ck.nested::<HNest2, HNest, Option<HTuple>>(
        r,
        "1.q",
        HNest2::OFFSET_OF_1,
        HNest::OFFSET_OF_Q,
        0usize + <bool as Shape>::REF_SIZE + <HNamed as Shape>::REF_SIZE,
        |s| s.1.q.clone(),
        |s, x| s.1.q = x,
    );
    ck.nested::<HNest2, HNest, [HNamed; 3]>(
        r,
        "1.r",
        HNest2::OFFSET_OF_1,
        HNest::OFFSET_OF_R,
        0usize + <bool as Shape>::REF_SIZE + <HNamed as Shape>::REF_SIZE + <Option<HTuple> as Shape>::REF_SIZE,
        |s| s.1.r.clone(),
        |s, x| s.1.r = x,
    );
    ck.nested::<HNest2, HNest, HTuple>(
        r,
        "1.s",
        HNest2::OFFSET_OF_1,
        HNest::OFFSET_OF_S,
        0usize + <bool as Shape>::REF_SIZE + <HNamed as Shape>::REF_SIZE + <Option<HTuple> as Shape>::REF_SIZE + <[HNamed; 3] as Shape>::REF_SIZE,
        |s| s.1.s.clone(),
        |s, x| s.1.s = x,
    );
    ck.nested::<HNest2, HNest, HOne>(
        r,
        "1.t",
        HNest2::OFFSET_OF_1,
        HNest::OFFSET_OF_T,
        0usize + <bool as Shape>::REF_SIZE + <HNamed as Shape>::REF_SIZE + <Option<HTuple> as Shape>::REF_SIZE + <[HNamed; 3] as Shape>::REF_SIZE + <HTuple as Shape>::REF_SIZE,
        |s| s.1.t.clone(),
        |s, x| s.1.t = x,
    );
    ck.field::<HNest2, f64>(
        r,
        "2",
        HNest2::OFFSET_OF_2,
        HNest2::SLAB_SIZE_OF_2,
        0usize + <bool as Shape>::REF_SIZE + <HNest as Shape>::REF_SIZE,
        |s| s.2.clone(),
        |s, x| s.2 = x,
    );
}
fn offsets_hzst(r: &mut Rng, ck: &mut OffCk) {
    ck.begin::<HZst>(r);
    ck.field::<HZst, std::marker::PhantomData<u32>>(r, "m", HZst::OFFSET_OF_M, HZst::SLAB_SIZE_OF_M, 0usize, |s| s.m.clone(), |s, x| s.m = x);
    ck.field::<HZst, u32>(
        r,
        "n",
        HZst::OFFSET_OF_N,
        HZst::SLAB_SIZE_OF_N,
        0usize + <std::marker::PhantomData<u32> as Shape>::REF_SIZE,
        |s| s.n.clone(),
        |s, x| s.n = x,
    );
    ck.field::<HZst, std::marker::PhantomData<u64>>(
        r,
        "o",
        HZst::OFFSET_OF_O,
        HZst::SLAB_SIZE_OF_O,
        0usize + <std::marker::PhantomData<u32> as Shape>::REF_SIZE + <u32 as Shape>::REF_SIZE,
        |s| s.o.clone(),
        |s, x| s.o = x,
    );
    ck.field::<HZst, u16>(
        r,
        "p",
        HZst::OFFSET_OF_P,
        HZst::SLAB_SIZE_OF_P,
        0usize + <std::marker::PhantomData<u32> as Shape>::REF_SIZE + <u32 as Shape>::REF_SIZE + <std::marker::PhantomData<u64> as Shape>::REF_SIZE,
        |s| s.p.clone(),
        |s, x| s.p = x,
    );
}
fn offsets_hgen(r: &mut Rng, ck: &mut OffCk) {
    ck.begin::<HGen<(u64, i8), glam::Vec3>>(r);
    ck.field::<HGen<(u64, i8), glam::Vec3>, (u64, i8)>(
        r,
        "x",
        HGen::<(u64, i8), glam::Vec3>::OFFSET_OF_X,
        HGen::<(u64, i8), glam::Vec3>::SLAB_SIZE_OF_X,
        0usize,
        |s| s.x.clone(),
        |s, x| s.x = x,
    );
    ck.field::<HGen<(u64, i8), glam::Vec3>, u32>(
        r,
        "y",
        HGen::<(u64, i8), glam::Vec3>::OFFSET_OF_Y,
        HGen::<(u64, i8), glam::Vec3>::SLAB_SIZE_OF_Y,
        0usize + <(u64, i8) as Shape>::REF_SIZE,
        |s| s.y.clone(),
        |s, x| s.y = x,
    );
    ck.field::<HGen<(u64, i8), glam::Vec3>, glam::Vec3>(
        r,
        "z",
        HGen::<(u64, i8), glam::Vec3>::OFFSET_OF_Z,
        HGen::<(u64, i8), glam::Vec3>::SLAB_SIZE_OF_Z,
        0usize + <(u64, i8) as Shape>::REF_SIZE + <u32 as Shape>::REF_SIZE,
        |s| s.z.clone(),
        |s, x| s.z = x,
    );
}
fn offsets_hwide(r: &mut Rng, ck: &mut OffCk) {
    ck.begin::<HWide>(r);
    ck.field::<HWide, u8>(r, "f0", HWide::OFFSET_OF_F0, HWide::SLAB_SIZE_OF_F0, 0usize, |s| s.f0.clone(), |s, x| s.f0 = x);
    ck.field::<HWide, i8>(
        r,
        "f1",
        HWide::OFFSET_OF_F1,
        HWide::SLAB_SIZE_OF_F1,
        0usize + <u8 as Shape>::REF_SIZE,
        |s| s.f1.clone(),
        |s, x| s.f1 = x,
    );
    ck.field::<HWide, u16>(
        r,
        "f2",
        HWide::OFFSET_OF_F2,
        HWide::SLAB_SIZE_OF_F2,
        0usize + <u8 as Shape>::REF_SIZE + <i8 as Shape>::REF_SIZE,
        |s| s.f2.clone(),
        |s, x| s.f2 = x,
    );
    ck.field::<HWide, i16>(
        r,
        "f3",
        HWide::OFFSET_OF_F3,
        HWide::SLAB_SIZE_OF_F3,
        0usize + <u8 as Shape>::REF_SIZE + <i8 as Shape>::REF_SIZE + <u16 as Shape>::REF_SIZE,
        |s| s.f3.clone(),
        |s, x| s.f3 = x,
    );
    ck.field::<HWide, u32>(
        r,
        "f4",
        HWide::OFFSET_OF_F4,
        HWide::SLAB_SIZE_OF_F4,
        0usize + <u8 as Shape>::REF_SIZE + <i8 as Shape>::REF_SIZE + <u16 as Shape>::REF_SIZE + <i16 as Shape>::REF_SIZE,
        |s| s.f4.clone(),
        |s, x| s.f4 = x,
    );
    ck.field::<HWide, i32>(
        r,
        "f5",
        HWide::OFFSET_OF_F5,
        HWide::SLAB_SIZE_OF_F5,
        0usize + <u8 as Shape>::REF_SIZE + <i8 as Shape>::REF_SIZE + <u16 as Shape>::REF_SIZE + <i16 as Shape>::REF_SIZE + <u32 as Shape>::REF_SIZE,
        |s| s.f5.clone(),
        |s, x| s.f5 = x,
    );
    ck.field::<HWide, u64>(
        r,
        "f6",
        HWide::OFFSET_OF_F6,
        HWide::SLAB_SIZE_OF_F6,
        0usize + <u8 as Shape>::REF_SIZE + <i8 as Shape>::REF_SIZE + <u16 as Shape>::REF_SIZE + <i16 as Shape>::REF_SIZE + <u32 as Shape>::REF_SIZE + <i32 as Shape>::REF_SIZE,
        |s| s.f6.clone(),
        |s, x| s.f6 = x,
    );
    ck.field::<HWide, i64>(
        r,
        "f7",
        HWide::OFFSET_OF_F7,
        HWide::SLAB_SIZE_OF_F7,
        0usize
            + <u8 as Shape>::REF_SIZE
            + <i8 as Shape>::REF_SIZE
            + <u16 as Shape>::REF_SIZE
            + <i16 as Shape>::REF_SIZE
            + <u32 as Shape>::REF_SIZE
            + <i32 as Shape>::REF_SIZE
            + <u64 as Shape>::REF_SIZE,
        |s| s.f7.clone(),
        |s, x| s.f7 = x,
    );
    ck.field::<HWide, u128>(
        r,
        "f8",
        HWide::OFFSET_OF_F8,
        HWide::SLAB_SIZE_OF_F8,
        0usize
            + <u8 as Shape>::REF_SIZE
            + <i8 as Shape>::REF_SIZE
            + <u16 as Shape>::REF_SIZE
            + <i16 as Shape>::REF_SIZE
            + <u32 as Shape>::REF_SIZE
            + <i32 as Shape>::REF_SIZE
            + <u64 as Shape>::REF_SIZE
            + <i64 as Shape>::REF_SIZE,
        |s| s.f8.clone(),
        |s, x| s.f8 = x,
    );
    ck.field::<HWide, i128>(
        r,
        "f9",
        HWide::OFFSET_OF_F9,
        HWide::SLAB_SIZE_OF_F9,
        0usize
            + <u8 as Shape>::REF_SIZE
            + <i8 as Shape>::REF_SIZE
            + <u16 as Shape>::REF_SIZE
            + <i16 as Shape>::REF_SIZE
            + <u32 as Shape>::REF_SIZE
            + <i32 as Shape>::REF_SIZE
            + <u64 as Shape>::REF_SIZE
            + <i64 as Shape>::REF_SIZE
            + <u128 as Shape>::REF_SIZE,
        |s| s.f9.clone(),
        |s, x| s.f9 = x,
    );
    ck.field::<HWide, f32>(
        r,
        "f10",
        HWide::OFFSET_OF_F10,
        HWide::SLAB_SIZE_OF_F10,
        0usize
            + <u8 as Shape>::REF_SIZE
            + <i8 as Shape>::REF_SIZE
            + <u16 as Shape>::REF_SIZE
            + <i16 as Shape>::REF_SIZE
            + <u32 as Shape>::REF_SIZE
            + <i32 as Shape>::REF_SIZE
            + <u64 as Shape>::REF_SIZE
            + <i64 as Shape>::REF_SIZE
            + <u128 as Shape>::REF_SIZE
            + <i128 as Shape>::REF_SIZE,
        |s| s.f10.clone(),
        |s, x| s.f10 = x,
    );
    ck.field::<HWide, f64>(
        r,
        "f11",
        HWide::OFFSET_OF_F11,
        HWide::SLAB_SIZE_OF_F11,
        0usize
            + <u8 as Shape>::REF_SIZE
            + <i8 as Shape>::REF_SIZE
            + <u16 as Shape>::REF_SIZE
            + <i16 as Shape>::REF_SIZE
            + <u32 as Shape>::REF_SIZE
            + <i32 as Shape>::REF_SIZE
            + <u64 as Shape>::REF_SIZE
            + <i64 as Shape>::REF_SIZE
            + <u128 as Shape>::REF_SIZE
            + <i128 as Shape>::REF_SIZE
            + <f32 as Shape>::REF_SIZE,
        |s| s.f11.clone(),
        |s, x| s.f11 = x,
    );
    ck.field::<HWide, bool>(
        r,
        "f12",
        HWide::OFFSET_OF_F12,
        HWide::SLAB_SIZE_OF_F12,
        0usize
            + <u8 as Shape>::REF_SIZE
            + <i8 as Shape>::REF_SIZE
            + <u16 as Shape>::REF_SIZE
            + <i16 as Shape>::REF_SIZE
            + <u32 as Shape>::REF_SIZE
            + <i32 as Shape>::REF_SIZE
            + <u64 as Shape>::REF_SIZE
            + <i64 as Shape>::REF_SIZE
            + <u128 as Shape>::REF_SIZE
            + <i128 as Shape>::REF_SIZE
            + <f32 as Shape>::REF_SIZE
            + <f64 as Shape>::REF_SIZE,
        |s| s.f12.clone(),
        |s, x| s.f12 = x,
    );
    ck.field::<HWide, u8>(
        r,
        "f13",
        HWide::OFFSET_OF_F13,
        HWide::SLAB_SIZE_OF_F13,
        0usize
            + <u8 as Shape>::REF_SIZE
            + <i8 as Shape>::REF_SIZE
            + <u16 as Shape>::REF_SIZE
            + <i16 as Shape>::REF_SIZE
            + <u32 as Shape>::REF_SIZE
            + <i32 as Shape>::REF_SIZE
            + <u64 as Shape>::REF_SIZE
            + <i64 as Shape>::REF_SIZE
            + <u128 as Shape>::REF_SIZE
            + <i128 as Shape>::REF_SIZE
            + <f32 as Shape>::REF_SIZE
            + <f64 as Shape>::REF_SIZE
            + <bool as Shape>::REF_SIZE,
        |s| s.f13.clone(),
        |s, x| s.f13 = x,
    );
    ck.field::<HWide, i8>(
        r,
        "f14",
        HWide::OFFSET_OF_F14,
        HWide::SLAB_SIZE_OF_F14,
        0usize
            + <u8 as Shape>::REF_SIZE
            + <i8 as Shape>::REF_SIZE
            + <u16 as Shape>::REF_SIZE
            + <i16 as Shape>::REF_SIZE
            + <u32 as Shape>::REF_SIZE
            + <i32 as Shape>::REF_SIZE
            + <u64 as Shape>::REF_SIZE
            + <i64 as Shape>::REF_SIZE
            + <u128 as Shape>::REF_SIZE
            + <i128 as Shape>::REF_SIZE
            + <f32 as Shape>::REF_SIZE
            + <f64 as Shape>::REF_SIZE
            + <bool as Shape>::REF_SIZE
            + <u8 as Shape>::REF_SIZE,
        |s| s.f14.clone(),
        |s, x| s.f14 = x,
    );
    ck.field::<HWide, u16>(
        r,
        "f15",
        HWide::OFFSET_OF_F15,
        HWide::SLAB_SIZE_OF_F15,
        0usize
            + <u8 as Shape>::REF_SIZE
            + <i8 as Shape>::REF_SIZE
            + <u16 as Shape>::REF_SIZE
            + <i16 as Shape>::REF_SIZE
            + <u32 as Shape>::REF_SIZE
            + <i32 as Shape>::REF_SIZE
            + <u64 as Shape>::REF_SIZE
            + <i64 as Shape>::REF_SIZE
            + <u128 as Shape>::REF_SIZE
            + <i128 as Shape>::REF_SIZE
            + <f32 as Shape>::REF_SIZE
            + <f64 as Shape>::REF_SIZE
            + <bool as Shape>::REF_SIZE
            + <u8 as Shape>::REF_SIZE
            + <i8 as Shape>::REF_SIZE,
        |s| s.f15.clone(),
        |s, x| s.f15 = x,
    );
    ck.field::<HWide, i16>(
        r,
        "f16",
        HWide::OFFSET_OF_F16,
        HWide::SLAB_SIZE_OF_F16,
        0usize
            + <u8 as Shape>::REF_SIZE
            + <i8 as Shape>::REF_SIZE
            + <u16 as Shape>::REF_SIZE
            + <i16 as Shape>::REF_SIZE
            + <u32 as Shape>::REF_SIZE
            + <i32 as Shape>::REF_SIZE
            + <u64 as Shape>::REF_SIZE
            + <i64 as Shape>::REF_SIZE
            + <u128 as Shape>::REF_SIZE
            + <i128 as Shape>::REF_SIZE
            + <f32 as Shape>::REF_SIZE
            + <f64 as Shape>::REF_SIZE
            + <bool as Shape>::REF_SIZE
            + <u8 as Shape>::REF_SIZE
            + <i8 as Shape>::REF_SIZE
            + <u16 as Shape>::REF_SIZE,
        |s| s.f16.clone(),
        |s, x| s.f16 = x,
    );
    ck.field::<HWide, u32>(
        r,
        "f17",
        HWide::OFFSET_OF_F17,
        HWide::SLAB_SIZE_OF_F17,
        0usize
            + <u8 as Shape>::REF_SIZE
            + <i8 as Shape>::REF_SIZE
            + <u16 as Shape>::REF_SIZE
            + <i16 as Shape>::REF_SIZE
            + <u32 as Shape>::REF_SIZE
            + <i32 as Shape>::REF_SIZE
            + <u64 as Shape>::REF_SIZE
            + <i64 as Shape>::REF_SIZE
            + <u128 as Shape>::REF_SIZE
            + <i128 as Shape>::REF_SIZE
            + <f32 as Shape>::REF_SIZE
            + <f64 as Shape>::REF_SIZE
            + <bool as Shape>::REF_SIZE
            + <u8 as Shape>::REF_SIZE
            + <i8 as Shape>::REF_SIZE
            + <u16 as Shape>::REF_SIZE
            + <i16 as Shape>::REF_SIZE,
        |s| s.f17.clone(),
        |s, x| s.f17 = x,
    );
    ck.field::<HWide, i32>(
        r,
        "f18",
        HWide::OFFSET_OF_F18,
        HWide::SLAB_SIZE_OF_F18,
        0usize
            + <u8 as Shape>::REF_SIZE
            + <i8 as Shape>::REF_SIZE
            + <u16 as Shape>::REF_SIZE
            + <i16 as Shape>::REF_SIZE
            + <u32 as Shape>::REF_SIZE
            + <i32 as Shape>::REF_SIZE
            + <u64 as Shape>::REF_SIZE
            + <i64 as Shape>::REF_SIZE
            + <u128 as Shape>::REF_SIZE
            + <i128 as Shape>::REF_SIZE
            + <f32 as Shape>::REF_SIZE
            + <f64 as Shape>::REF_SIZE
            + <bool as Shape>::REF_SIZE
            + <u8 as Shape>::REF_SIZE
            + <i8 as Shape>::REF_SIZE
            + <u16 as Shape>::REF_SIZE
            + <i16 as Shape>::REF_SIZE
            + <u32 as Shape>::REF_SIZE,
        |s| s.f18.clone(),
        |s, x| s.f18 = x,
    );
    ck.field::<HWide, u64>(
        r,
        "f19",
        HWide::OFFSET_OF_F19,
        HWide::SLAB_SIZE_OF_F19,
        0usize
            + <u8 as Shape>::REF_SIZE
            + <i8 as Shape>::REF_SIZE
            + <u16 as Shape>::REF_SIZE
            + <i16 as Shape>::REF_SIZE
            + <u32 as Shape>::REF_SIZE
            + <i32 as Shape>::REF_SIZE
            + <u64 as Shape>::REF_SIZE
            + <i64 as Shape>::REF_SIZE
            + <u128 as Shape>::REF_SIZE
            + <i128 as Shape>::REF_SIZE
            + <f32 as Shape>::REF_SIZE
            + <f64 as Shape>::REF_SIZE
            + <bool as Shape>::REF_SIZE
            + <u8 as Shape>::REF_SIZE
            + <i8 as Shape>::REF_SIZE
            + <u16 as Shape>::REF_SIZE
            + <i16 as Shape>::REF_SIZE
            + <u32 as Shape>::REF_SIZE
            + <i32 as Shape>::REF_SIZE,
        |s| s.f19.clone(),
        |s, x| s.f19 = x,
    );
    ck.field::<HWide, i64>(
        r,
        "f20",
        HWide::OFFSET_OF_F20,
        HWide::SLAB_SIZE_OF_F20,
        0usize
            + <u8 as Shape>::REF_SIZE
            + <i8 as Shape>::REF_SIZE
            + <u16 as Shape>::REF_SIZE
            + <i16 as Shape>::REF_SIZE
            + <u32 as Shape>::REF_SIZE
            + <i32 as Shape>::REF_SIZE
            + <u64 as Shape>::REF_SIZE
            + <i64 as Shape>::REF_SIZE
            + <u128 as Shape>::REF_SIZE
            + <i128 as Shape>::REF_SIZE
            + <f32 as Shape>::REF_SIZE
            + <f64 as Shape>::REF_SIZE
            + <bool as Shape>::REF_SIZE
            + <u8 as Shape>::REF_SIZE
            + <i8 as Shape>::REF_SIZE
            + <u16 as Shape>::REF_SIZE
            + <i16 as Shape>::REF_SIZE
            + <u32 as Shape>::REF_SIZE
            + <i32 as Shape>::REF_SIZE
            + <u64 as Shape>::REF_SIZE,
        |s| s.f20.clone(),
        |s, x| s.f20 = x,
    );
    ck.field::<HWide, u128>(
        r,
        "f21",
        HWide::OFFSET_OF_F21,
        HWide::SLAB_SIZE_OF_F21,
        0usize
            + <u8 as Shape>::REF_SIZE
            + <i8 as Shape>::REF_SIZE
            + <u16 as Shape>::REF_SIZE
            + <i16 as Shape>::REF_SIZE
            + <u32 as Shape>::REF_SIZE
            + <i32 as Shape>::REF_SIZE
            + <u64 as Shape>::REF_SIZE
            + <i64 as Shape>::REF_SIZE
            + <u128 as Shape>::REF_SIZE
            + <i128 as Shape>::REF_SIZE
            + <f32 as Shape>::REF_SIZE
            + <f64 as Shape>::REF_SIZE
            + <bool as Shape>::REF_SIZE
            + <u8 as Shape>::REF_SIZE
            + <i8 as Shape>::REF_SIZE
            + <u16 as Shape>::REF_SIZE
            + <i16 as Shape>::REF_SIZE
            + <u32 as Shape>::REF_SIZE
            + <i32 as Shape>::REF_SIZE
            + <u64 as Shape>::REF_SIZE
            + <i64 as Shape>::REF_SIZE,
        |s| s.f21.clone(),
        |s, x| s.f21 = x,
    );
    ck.field::<HWide, i128>(
        r,
        "f22",
        HWide::OFFSET_OF_F22,
        HWide::SLAB_SIZE_OF_F22,
        0usize
            + <u8 as Shape>::REF_SIZE
            + <i8 as Shape>::REF_SIZE
            + <u16 as Shape>::REF_SIZE
            + <i16 as Shape>::REF_SIZE
            + <u32 as Shape>::REF_SIZE
            + <i32 as Shape>::REF_SIZE
            + <u64 as Shape>::REF_SIZE
            + <i64 as Shape>::REF_SIZE
            + <u128 as Shape>::REF_SIZE
            + <i128 as Shape>::REF_SIZE
            + <f32 as Shape>::REF_SIZE
            + <f64 as Shape>::REF_SIZE
            + <bool as Shape>::REF_SIZE
            + <u8 as Shape>::REF_SIZE
            + <i8 as Shape>::REF_SIZE
            + <u16 as Shape>::REF_SIZE
            + <i16 as Shape>::REF_SIZE
            + <u32 as Shape>::REF_SIZE
            + <i32 as Shape>::REF_SIZE
            + <u64 as Shape>::REF_SIZE
            + <i64 as Shape>::REF_SIZE
            + <u128 as Shape>::REF_SIZE,
        |s| s.f22.clone(),
        |s, x| s.f22 = x,
    );
    ck.field::<HWide, f32>(
        r,
        "f23",
        HWide::OFFSET_OF_F23,
        HWide::SLAB_SIZE_OF_F23,
        0usize
            + <u8 as Shape>::REF_SIZE
            + <i8 as Shape>::REF_SIZE
            + <u16 as Shape>::REF_SIZE
            + <i16 as Shape>::REF_SIZE
            + <u32 as Shape>::REF_SIZE
            + <i32 as Shape>::REF_SIZE
            + <u64 as Shape>::REF_SIZE
            + <i64 as Shape>::REF_SIZE
            + <u128 as Shape>::REF_SIZE
            + <i128 as Shape>::REF_SIZE
            + <f32 as Shape>::REF_SIZE
            + <f64 as Shape>::REF_SIZE
            + <bool as Shape>::REF_SIZE
            + <u8 as Shape>::REF_SIZE
            + <i8 as Shape>::REF_SIZE
            + <u16 as Shape>::REF_SIZE
            + <i16 as Shape>::REF_SIZE
            + <u32 as Shape>::REF_SIZE
            + <i32 as Shape>::REF_SIZE
            + <u64 as Shape>::REF_SIZE
            + <i64 as Shape>::REF_SIZE
            + <u128 as Shape>::REF_SIZE
            + <i128 as Shape>::REF_SIZE,
        |s| s.f23.clone(),
        |s, x| s.f23 = x,
    );
    ck.field::<HWide, f64>(
        r,
        "f24",
        HWide::OFFSET_OF_F24,
        HWide::SLAB_SIZE_OF_F24,
        0usize
            + <u8 as Shape>::REF_SIZE
            + <i8 as Shape>::REF_SIZE
            + <u16 as Shape>::REF_SIZE
            + <i16 as Shape>::REF_SIZE
            + <u32 as Shape>::REF_SIZE
            + <i32 as Shape>::REF_SIZE
            + <u64 as Shape>::REF_SIZE
            + <i64 as Shape>::REF_SIZE
            + <u128 as Shape>::REF_SIZE
            + <i128 as Shape>::REF_SIZE
            + <f32 as Shape>::REF_SIZE
            + <f64 as Shape>::REF_SIZE
            + <bool as Shape>::REF_SIZE
            + <u8 as Shape>::REF_SIZE
            + <i8 as Shape>::REF_SIZE
            + <u16 as Shape>::REF_SIZE
            + <i16 as Shape>::REF_SIZE
            + <u32 as Shape>::REF_SIZE
            + <i32 as Shape>::REF_SIZE
            + <u64 as Shape>::REF_SIZE
            + <i64 as Shape>::REF_SIZE
            + <u128 as Shape>::REF_SIZE
            + <i128 as Shape>::REF_SIZE
            + <f32 as Shape>::REF_SIZE,
        |s| s.f24.clone(),
        |s, x| s.f24 = x,
    );
    ck.field::<HWide, bool>(
        r,
        "f25",
        HWide::OFFSET_OF_F25,
        HWide::SLAB_SIZE_OF_F25,
        0usize
            + <u8 as Shape>::REF_SIZE
            + <i8 as Shape>::REF_SIZE
            + <u16 as Shape>::REF_SIZE
            + <i16 as Shape>::REF_SIZE
            + <u32 as Shape>::REF_SIZE
            + <i32 as Shape>::REF_SIZE
            + <u64 as Shape>::REF_SIZE
            + <i64 as Shape>::REF_SIZE
            + <u128 as Shape>::REF_SIZE
            + <i128 as Shape>::REF_SIZE
            + <f32 as Shape>::REF_SIZE
            + <f64 as Shape>::REF_SIZE
            + <bool as Shape>::REF_SIZE
            + <u8 as Shape>::REF_SIZE
            + <i8 as Shape>::REF_SIZE
            + <u16 as Shape>::REF_SIZE
            + <i16 as Shape>::REF_SIZE
            + <u32 as Shape>::REF_SIZE
            + <i32 as Shape>::REF_SIZE
            + <u64 as Shape>::REF_SIZE
            + <i64 as Shape>::REF_SIZE
            + <u128 as Shape>::REF_SIZE
            + <i128 as Shape>::REF_SIZE
            + <f32 as Shape>::REF_SIZE
            + <f64 as Shape>::REF_SIZE,
        |s| s.f25.clone(),
        |s, x| s.f25 = x,
    );
    ck.field::<HWide, u8>(
        r,
        "f26",
        HWide::OFFSET_OF_F26,
        HWide::SLAB_SIZE_OF_F26,
        0usize
            + <u8 as Shape>::REF_SIZE
            + <i8 as Shape>::REF_SIZE
            + <u16 as Shape>::REF_SIZE
            + <i16 as Shape>::REF_SIZE
            + <u32 as Shape>::REF_SIZE
            + <i32 as Shape>::REF_SIZE
            + <u64 as Shape>::REF_SIZE
            + <i64 as Shape>::REF_SIZE
            + <u128 as Shape>::REF_SIZE
            + <i128 as Shape>::REF_SIZE
            + <f32 as Shape>::REF_SIZE
            + <f64 as Shape>::REF_SIZE
            + <bool as Shape>::REF_SIZE
            + <u8 as Shape>::REF_SIZE
            + <i8 as Shape>::REF_SIZE
            + <u16 as Shape>::REF_SIZE
            + <i16 as Shape>::REF_SIZE
            + <u32 as Shape>::REF_SIZE
            + <i32 as Shape>::REF_SIZE
            + <u64 as Shape>::REF_SIZE
            + <i64 as Shape>::REF_SIZE
            + <u128 as Shape>::REF_SIZE
            + <i128 as Shape>::REF_SIZE
            + <f32 as Shape>::REF_SIZE
            + <f64 as Shape>::REF_SIZE
            + <bool as Shape>::REF_SIZE,
        |s| s.f26.clone(),
        |s, x| s.f26 = x,
    );
    ck.field::<HWide, i8>(
        r,
        "f27",
        HWide::OFFSET_OF_F27,
        HWide::SLAB_SIZE_OF_F27,
        0usize
            + <u8 as Shape>::REF_SIZE
            + <i8 as Shape>::REF_SIZE
            + <u16 as Shape>::REF_SIZE
            + <i16 as Shape>::REF_SIZE
            + <u32 as Shape>::REF_SIZE
            + <i32 as Shape>::REF_SIZE
            + <u64 as Shape>::REF_SIZE
            + <i64 as Shape>::REF_SIZE
            + <u128 as Shape>::REF_SIZE
            + <i128 as Shape>::REF_SIZE
            + <f32 as Shape>::REF_SIZE
            + <f64 as Shape>::REF_SIZE
            + <bool as Shape>::REF_SIZE
            + <u8 as Shape>::REF_SIZE
            + <i8 as Shape>::REF_SIZE
            + <u16 as Shape>::REF_SIZE
            + <i16 as Shape>::REF_SIZE
            + <u32 as Shape>::REF_SIZE
            + <i32 as Shape>::REF_SIZE
            + <u64 as Shape>::REF_SIZE
            + <i64 as Shape>::REF_SIZE
            + <u128 as Shape>::REF_SIZE
            + <i128 as Shape>::REF_SIZE
            + <f32 as Shape>::REF_SIZE
            + <f64 as Shape>::REF_SIZE
            + <bool as Shape>::REF_SIZE
            + <u8 as Shape>::REF_SIZE,
        |s| s.f27.clone(),
        |s, x| s.f27 = x,
    );
    ck.field::<HWide, u16>(
        r,
        "f28",
        HWide::OFFSET_OF_F28,
        HWide::SLAB_SIZE_OF_F28,
        0usize
            + <u8 as Shape>::REF_SIZE
            + <i8 as Shape>::REF_SIZE
            + <u16 as Shape>::REF_SIZE
            + <i16 as Shape>::REF_SIZE
            + <u32 as Shape>::REF_SIZE
            + <i32 as Shape>::REF_SIZE
            + <u64 as Shape>::REF_SIZE
            + <i64 as Shape>::REF_SIZE
            + <u128 as Shape>::REF_SIZE
            + <i128 as Shape>::REF_SIZE
            + <f32 as Shape>::REF_SIZE
            + <f64 as Shape>::REF_SIZE
            + <bool as Shape>::REF_SIZE
            + <u8 as Shape>::REF_SIZE
            + <i8 as Shape>::REF_SIZE
            + <u16 as Shape>::REF_SIZE
            + <i16 as Shape>::REF_SIZE
            + <u32 as Shape>::REF_SIZE
            + <i32 as Shape>::REF_SIZE
            + <u64 as Shape>::REF_SIZE
            + <i64 as Shape>::REF_SIZE
            + <u128 as Shape>::REF_SIZE
            + <i128 as Shape>::REF_SIZE
            + <f32 as Shape>::REF_SIZE
            + <f64 as Shape>::REF_SIZE
            + <bool as Shape>::REF_SIZE
            + <u8 as Shape>::REF_SIZE
            + <i8 as Shape>::REF_SIZE,
        |s| s.f28.clone(),
        |s, x| s.f28 = x,
    );
    ck.field::<HWide, i16>(
        r,
        "f29",
        HWide::OFFSET_OF_F29,
        HWide::SLAB_SIZE_OF_F29,
        0usize
            + <u8 as Shape>::REF_SIZE
            + <i8 as Shape>::REF_SIZE
            + <u16 as Shape>::REF_SIZE
            + <i16 as Shape>::REF_SIZE
            + <u32 as Shape>::REF_SIZE
            + <i32 as Shape>::REF_SIZE
            + <u64 as Shape>::REF_SIZE
            + <i64 as Shape>::REF_SIZE
            + <u128 as Shape>::REF_SIZE
            + <i128 as Shape>::REF_SIZE
            + <f32 as Shape>::REF_SIZE
            + <f64 as Shape>::REF_SIZE
            + <bool as Shape>::REF_SIZE
            + <u8 as Shape>::REF_SIZE
            + <i8 as Shape>::REF_SIZE
            + <u16 as Shape>::REF_SIZE
            + <i16 as Shape>::REF_SIZE
            + <u32 as Shape>::REF_SIZE
            + <i32 as Shape>::REF_SIZE
            + <u64 as Shape>::REF_SIZE
            + <i64 as Shape>::REF_SIZE
            + <u128 as Shape>::REF_SIZE
            + <i128 as Shape>::REF_SIZE
            + <f32 as Shape>::REF_SIZE
            + <f64 as Shape>::REF_SIZE
            + <bool as Shape>::REF_SIZE
            + <u8 as Shape>::REF_SIZE
            + <i8 as Shape>::REF_SIZE
            + <u16 as Shape>::REF_SIZE,
        |s| s.f29.clone(),
        |s, x| s.f29 = x,
    );
    ck.field::<HWide, u32>(
        r,
        "f30",
        HWide::OFFSET_OF_F30,
        HWide::SLAB_SIZE_OF_F30,
        0usize
            + <u8 as Shape>::REF_SIZE
            + <i8 as Shape>::REF_SIZE
            + <u16 as Shape>::REF_SIZE
            + <i16 as Shape>::REF_SIZE
            + <u32 as Shape>::REF_SIZE
            + <i32 as Shape>::REF_SIZE
            + <u64 as Shape>::REF_SIZE
            + <i64 as Shape>::REF_SIZE
            + <u128 as Shape>::REF_SIZE
            + <i128 as Shape>::REF_SIZE
            + <f32 as Shape>::REF_SIZE
            + <f64 as Shape>::REF_SIZE
            + <bool as Shape>::REF_SIZE
            + <u8 as Shape>::REF_SIZE
            + <i8 as Shape>::REF_SIZE
            + <u16 as Shape>::REF_SIZE
            + <i16 as Shape>::REF_SIZE
            + <u32 as Shape>::REF_SIZE
            + <i32 as Shape>::REF_SIZE
            + <u64 as Shape>::REF_SIZE
            + <i64 as Shape>::REF_SIZE
            + <u128 as Shape>::REF_SIZE
            + <i128 as Shape>::REF_SIZE
            + <f32 as Shape>::REF_SIZE
            + <f64 as Shape>::REF_SIZE
            + <bool as Shape>::REF_SIZE
            + <u8 as Shape>::REF_SIZE
            + <i8 as Shape>::REF_SIZE
            + <u16 as Shape>::REF_SIZE
            + <i16 as Shape>::REF_SIZE,
        |s| s.f30.clone(),
        |s, x| s.f30 = x,
    );
    ck.field::<HWide, i32>(
        r,
        "f31",
        HWide::OFFSET_OF_F31,
        HWide::SLAB_SIZE_OF_F31,
        0usize
            + <u8 as Shape>::REF_SIZE
            + <i8 as Shape>::REF_SIZE
            + <u16 as Shape>::REF_SIZE
            + <i16 as Shape>::REF_SIZE
            + <u32 as Shape>::REF_SIZE
            + <i32 as Shape>::REF_SIZE
            + <u64 as Shape>::REF_SIZE
            + <i64 as Shape>::REF_SIZE
            + <u128 as Shape>::REF_SIZE
            + <i128 as Shape>::REF_SIZE
            + <f32 as Shape>::REF_SIZE
            + <f64 as Shape>::REF_SIZE
            + <bool as Shape>::REF_SIZE
            + <u8 as Shape>::REF_SIZE
            + <i8 as Shape>::REF_SIZE
            + <u16 as Shape>::REF_SIZE
            + <i16 as Shape>::REF_SIZE
            + <u32 as Shape>::REF_SIZE
            + <i32 as Shape>::REF_SIZE
            + <u64 as Shape>::REF_SIZE
            + <i64 as Shape>::REF_SIZE
            + <u128 as Shape>::REF_SIZE
            + <i128 as Shape>::REF_SIZE
            + <f32 as Shape>::REF_SIZE
            + <f64 as Shape>::REF_SIZE
            + <bool as Shape>::REF_SIZE
            + <u8 as Shape>::REF_SIZE
            + <i8 as Shape>::REF_SIZE
            + <u16 as Shape>::REF_SIZE
            + <i16 as Shape>::REF_SIZE
            + <u32 as Shape>::REF_SIZE,
        |s| s.f31.clone(),
        |s, x| s.f31 = x,
    );
    ck.field::<HWide, u64>(
        r,
        "f32",
        HWide::OFFSET_OF_F32,
        HWide::SLAB_SIZE_OF_F32,
        0usize
            + <u8 as Shape>::REF_SIZE
            + <i8 as Shape>::REF_SIZE
            + <u16 as Shape>::REF_SIZE
            + <i16 as Shape>::REF_SIZE
            + <u32 as Shape>::REF_SIZE
            + <i32 as Shape>::REF_SIZE
            + <u64 as Shape>::REF_SIZE
            + <i64 as Shape>::REF_SIZE
            + <u128 as Shape>::REF_SIZE
            + <i128 as Shape>::REF_SIZE
            + <f32 as Shape>::REF_SIZE
            + <f64 as Shape>::REF_SIZE
            + <bool as Shape>::REF_SIZE
            + <u8 as Shape>::REF_SIZE
            + <i8 as Shape>::REF_SIZE
            + <u16 as Shape>::REF_SIZE
            + <i16 as Shape>::REF_SIZE
            + <u32 as Shape>::REF_SIZE
            + <i32 as Shape>::REF_SIZE
            + <u64 as Shape>::REF_SIZE
            + <i64 as Shape>::REF_SIZE
            + <u128 as Shape>::REF_SIZE
            + <i128 as Shape>::REF_SIZE
            + <f32 as Shape>::REF_SIZE
            + <f64 as Shape>::REF_SIZE
            + <bool as Shape>::REF_SIZE
            + <u8 as Shape>::REF_SIZE
            + <i8 as Shape>::REF_SIZE
            + <u16 as Shape>::REF_SIZE
            + <i16 as Shape>::REF_SIZE
            + <u32 as Shape>::REF_SIZE
            + <i32 as Shape>::REF_SIZE,
        |s| s.f32.clone(),
        |s, x| s.f32 = x,
    );
    ck.field::<HWide, i64>(
        r,
        "f33",
        HWide::OFFSET_OF_F33,
        HWide::SLAB_SIZE_OF_F33,
        0usize
            + <u8 as Shape>::REF_SIZE
            + <i8 as Shape>::REF_SIZE
            + <u16 as Shape>::REF_SIZE
            + <i16 as Shape>::REF_SIZE
            + <u32 as Shape>::REF_SIZE
            + <i32 as Shape>::REF_SIZE
            + <u64 as Shape>::REF_SIZE
            + <i64 as Shape>::REF_SIZE
            + <u128 as Shape>::REF_SIZE
            + <i128 as Shape>::REF_SIZE
            + <f32 as Shape>::REF_SIZE
            + <f64 as Shape>::REF_SIZE
            + <bool as Shape>::REF_SIZE
            + <u8 as Shape>::REF_SIZE
            + <i8 as Shape>::REF_SIZE
            + <u16 as Shape>::REF_SIZE
            + <i16 as Shape>::REF_SIZE
            + <u32 as Shape>::REF_SIZE
            + <i32 as Shape>::REF_SIZE
            + <u64 as Shape>::REF_SIZE
            + <i64 as Shape>::REF_SIZE
            + <u128 as Shape>::REF_SIZE
            + <i128 as Shape>::REF_SIZE
            + <f32 as Shape>::REF_SIZE
            + <f64 as Shape>::REF_SIZE
            + <bool as Shape>::REF_SIZE
            + <u8 as Shape>::REF_SIZE
            + <i8 as Shape>::REF_SIZE
            + <u16 as Shape>::REF_SIZE
            + <i16 as Shape>::REF_SIZE
            + <u32 as Shape>::REF_SIZE
            + <i32 as Shape>::REF_SIZE
            + <u64 as Shape>::REF_SIZE,
        |s| s.f33.clone(),
        |s, x| s.f33 = x,
    );
    ck.field::<HWide, u128>(
        r,
        "f34",
        HWide::OFFSET_OF_F34,
        HWide::SLAB_SIZE_OF_F34,
        0usize
            + <u8 as Shape>::REF_SIZE
            + <i8 as Shape>::REF_SIZE
            + <u16 as Shape>::REF_SIZE
            + <i16 as Shape>::REF_SIZE
            + <u32 as Shape>::REF_SIZE
            + <i32 as Shape>::REF_SIZE
            + <u64 as Shape>::REF_SIZE
            + <i64 as Shape>::REF_SIZE
            + <u128 as Shape>::REF_SIZE
            + <i128 as Shape>::REF_SIZE
            + <f32 as Shape>::REF_SIZE
            + <f64 as Shape>::REF_SIZE
            + <bool as Shape>::REF_SIZE
            + <u8 as Shape>::REF_SIZE
            + <i8 as Shape>::REF_SIZE
            + <u16 as Shape>::REF_SIZE
            + <i16 as Shape>::REF_SIZE
            + <u32 as Shape>::REF_SIZE
            + <i32 as Shape>::REF_SIZE
            + <u64 as Shape>::REF_SIZE
            + <i64 as Shape>::REF_SIZE
            + <u128 as Shape>::REF_SIZE
            + <i128 as Shape>::REF_SIZE
            + <f32 as Shape>::REF_SIZE
            + <f64 as Shape>::REF_SIZE
            + <bool as Shape>::REF_SIZE
            + <u8 as Shape>::REF_SIZE
            + <i8 as Shape>::REF_SIZE
            + <u16 as Shape>::REF_SIZE
            + <i16 as Shape>::REF_SIZE
            + <u32 as Shape>::REF_SIZE
            + <i32 as Shape>::REF_SIZE
            + <u64 as Shape>::REF_SIZE
            + <i64 as Shape>::REF_SIZE,
        |s| s.f34.clone(),
        |s, x| s.f34 = x,
    );
    ck.field::<HWide, i128>(
        r,
        "f35",
        HWide::OFFSET_OF_F35,
        HWide::SLAB_SIZE_OF_F35,
        0usize
            + <u8 as Shape>::REF_SIZE
            + <i8 as Shape>::REF_SIZE
            + <u16 as Shape>::REF_SIZE
            + <i16 as Shape>::REF_SIZE
            + <u32 as Shape>::REF_SIZE
            + <i32 as Shape>::REF_SIZE
            + <u64 as Shape>::REF_SIZE
            + <i64 as Shape>::REF_SIZE
            + <u128 as Shape>::REF_SIZE
            + <i128 as Shape>::REF_SIZE
            + <f32 as Shape>::REF_SIZE
            + <f64 as Shape>::REF_SIZE
            + <bool as Shape>::REF_SIZE
            + <u8 as Shape>::REF_SIZE
            + <i8 as Shape>::REF_SIZE
            + <u16 as Shape>::REF_SIZE
            + <i16 as Shape>::REF_SIZE
            + <u32 as Shape>::REF_SIZE
            + <i32 as Shape>::REF_SIZE
            + <u64 as Shape>::REF_SIZE
            + <i64 as Shape>::REF_SIZE
            + <u128 as Shape>::REF_SIZE
            + <i128 as Shape>::REF_SIZE
            + <f32 as Shape>::REF_SIZE
            + <f64 as Shape>::REF_SIZE
            + <bool as Shape>::REF_SIZE
            + <u8 as Shape>::REF_SIZE
            + <i8 as Shape>::REF_SIZE
            + <u16 as Shape>::REF_SIZE
            + <i16 as Shape>::REF_SIZE
            + <u32 as Shape>::REF_SIZE
            + <i32 as Shape>::REF_SIZE
            + <u64 as Shape>::REF_SIZE
            + <i64 as Shape>::REF_SIZE
            + <u128 as Shape>::REF_SIZE,
        |s| s.f35.clone(),
        |s, x| s.f35 = x,
    );
    ck.field::<HWide, f32>(
        r,
        "f36",
        HWide::OFFSET_OF_F36,
        HWide::SLAB_SIZE_OF_F36,
        0usize
            + <u8 as Shape>::REF_SIZE
            + <i8 as Shape>::REF_SIZE
            + <u16 as Shape>::REF_SIZE
            + <i16 as Shape>::REF_SIZE
            + <u32 as Shape>::REF_SIZE
            + <i32 as Shape>::REF_SIZE
            + <u64 as Shape>::REF_SIZE
            + <i64 as Shape>::REF_SIZE
            + <u128 as Shape>::REF_SIZE
            + <i128 as Shape>::REF_SIZE
            + <f32 as Shape>::REF_SIZE
            + <f64 as Shape>::REF_SIZE
            + <bool as Shape>::REF_SIZE
            + <u8 as Shape>::REF_SIZE
            + <i8 as Shape>::REF_SIZE
            + <u16 as Shape>::REF_SIZE
            + <i16 as Shape>::REF_SIZE
            + <u32 as Shape>::REF_SIZE
            + <i32 as Shape>::REF_SIZE
            + <u64 as Shape>::REF_SIZE
            + <i64 as Shape>::REF_SIZE
            + <u128 as Shape>::REF_SIZE
            + <i128 as Shape>::REF_SIZE
            + <f32 as Shape>::REF_SIZE
            + <f64 as Shape>::REF_SIZE
            + <bool as Shape>::REF_SIZE
            + <u8 as Shape>::REF_SIZE
            + <i8 as Shape>::REF_SIZE
            + <u16 as Shape>::REF_SIZE
            + <i16 as Shape>::REF_SIZE
            + <u32 as Shape>::REF_SIZE
            + <i32 as Shape>::REF_SIZE
            + <u64 as Shape>::REF_SIZE
            + <i64 as Shape>::REF_SIZE
            + <u128 as Shape>::REF_SIZE
            + <i128 as Shape>::REF_SIZE,
        |s| s.f36.clone(),
        |s, x| s.f36 = x,
    );
    ck.field::<HWide, f64>(
        r,
        "f37",
        HWide::OFFSET_OF_F37,
        HWide::SLAB_SIZE_OF_F37,
        0usize
            + <u8 as Shape>::REF_SIZE
            + <i8 as Shape>::REF_SIZE
            + <u16 as Shape>::REF_SIZE
            + <i16 as Shape>::REF_SIZE
            + <u32 as Shape>::REF_SIZE
            + <i32 as Shape>::REF_SIZE
            + <u64 as Shape>::REF_SIZE
            + <i64 as Shape>::REF_SIZE
            + <u128 as Shape>::REF_SIZE
            + <i128 as Shape>::REF_SIZE
            + <f32 as Shape>::REF_SIZE
            + <f64 as Shape>::REF_SIZE
            + <bool as Shape>::REF_SIZE
            + <u8 as Shape>::REF_SIZE
            + <i8 as Shape>::REF_SIZE
            + <u16 as Shape>::REF_SIZE
            + <i16 as Shape>::REF_SIZE
            + <u32 as Shape>::REF_SIZE
            + <i32 as Shape>::REF_SIZE
            + <u64 as Shape>::REF_SIZE
            + <i64 as Shape>::REF_SIZE
            + <u128 as Shape>::REF_SIZE
            + <i128 as Shape>::REF_SIZE
            + <f32 as Shape>::REF_SIZE
            + <f64 as Shape>::REF_SIZE
            + <bool as Shape>::REF_SIZE
            + <u8 as Shape>::REF_SIZE
            + <i8 as Shape>::REF_SIZE
            + <u16 as Shape>::REF_SIZE
            + <i16 as Shape>::REF_SIZE
            + <u32 as Shape>::REF_SIZE
            + <i32 as Shape>::REF_SIZE
            + <u64 as Shape>::REF_SIZE
            + <i64 as Shape>::REF_SIZE
            + <u128 as Shape>::REF_SIZE
            + <i128 as Shape>::REF_SIZE
            + <f32 as Shape>::REF_SIZE,
        |s| s.f37.clone(),
        |s, x| s.f37 = x,
    );
    ck.field::<HWide, bool>(
        r,
        "f38",
        HWide::OFFSET_OF_F38,
        HWide::SLAB_SIZE_OF_F38,
        0usize
            + <u8 as Shape>::REF_SIZE
            + <i8 as Shape>::REF_SIZE
            + <u16 as Shape>::REF_SIZE
            + <i16 as Shape>::REF_SIZE
            + <u32 as Shape>::REF_SIZE
            + <i32 as Shape>::REF_SIZE
            + <u64 as Shape>::REF_SIZE
            + <i64 as Shape>::REF_SIZE
            + <u128 as Shape>::REF_SIZE
            + <i128 as Shape>::REF_SIZE
            + <f32 as Shape>::REF_SIZE
            + <f64 as Shape>::REF_SIZE
            + <bool as Shape>::REF_SIZE
            + <u8 as Shape>::REF_SIZE
            + <i8 as Shape>::REF_SIZE
            + <u16 as Shape>::REF_SIZE
            + <i16 as Shape>::REF_SIZE
            + <u32 as Shape>::REF_SIZE
            + <i32 as Shape>::REF_SIZE
            + <u64 as Shape>::REF_SIZE
            + <i64 as Shape>::REF_SIZE
            + <u128 as Shape>::REF_SIZE
            + <i128 as Shape>::REF_SIZE
            + <f32 as Shape>::REF_SIZE
            + <f64 as Shape>::REF_SIZE
            + <bool as Shape>::REF_SIZE
            + <u8 as Shape>::REF_SIZE
            + <i8 as Shape>::REF_SIZE
            + <u16 as Shape>::REF_SIZE
            + <i16 as Shape>::REF_SIZE
            + <u32 as Shape>::REF_SIZE
            + <i32 as Shape>::REF_SIZE
            + <u64 as Shape>::REF_SIZE
            + <i64 as Shape>::REF_SIZE
            + <u128 as Shape>::REF_SIZE
            + <i128 as Shape>::REF_SIZE
            + <f32 as Shape>::REF_SIZE
            + <f64 as Shape>::REF_SIZE,
        |s| s.f38.clone(),
        |s, x| s.f38 = x,
    );
    ck.field::<HWide, u8>(
        r,
        "f39",
        HWide::OFFSET_OF_F39,
        HWide::SLAB_SIZE_OF_F39,
        0usize
            + <u8 as Shape>::REF_SIZE
            + <i8 as Shape>::REF_SIZE
            + <u16 as Shape>::REF_SIZE
            + <i16 as Shape>::REF_SIZE
            + <u32 as Shape>::REF_SIZE
            + <i32 as Shape>::REF_SIZE
            + <u64 as Shape>::REF_SIZE
            + <i64 as Shape>::REF_SIZE
            + <u128 as Shape>::REF_SIZE
            + <i128 as Shape>::REF_SIZE
            + <f32 as Shape>::REF_SIZE
            + <f64 as Shape>::REF_SIZE
            + <bool as Shape>::REF_SIZE
            + <u8 as Shape>::REF_SIZE
            + <i8 as Shape>::REF_SIZE
            + <u16 as Shape>::REF_SIZE
            + <i16 as Shape>::REF_SIZE
            + <u32 as Shape>::REF_SIZE
            + <i32 as Shape>::REF_SIZE
            + <u64 as Shape>::REF_SIZE
            + <i64 as Shape>::REF_SIZE
            + <u128 as Shape>::REF_SIZE
            + <i128 as Shape>::REF_SIZE
            + <f32 as Shape>::REF_SIZE
            + <f64 as Shape>::REF_SIZE
            + <bool as Shape>::REF_SIZE
            + <u8 as Shape>::REF_SIZE
            + <i8 as Shape>::REF_SIZE
            + <u16 as Shape>::REF_SIZE
            + <i16 as Shape>::REF_SIZE
            + <u32 as Shape>::REF_SIZE
            + <i32 as Shape>::REF_SIZE
            + <u64 as Shape>::REF_SIZE
            + <i64 as Shape>::REF_SIZE
            + <u128 as Shape>::REF_SIZE
            + <i128 as Shape>::REF_SIZE
            + <f32 as Shape>::REF_SIZE
            + <f64 as Shape>::REF_SIZE
            + <bool as Shape>::REF_SIZE,
        |s| s.f39.clone(),
        |s, x| s.f39 = x,
    );
}
fn offsets_harrs(r: &mut Rng, ck: &mut OffCk) {
    ck.begin::<HArrs>(r);
    ck.field::<HArrs, [u32; 0]>(r, "a0", HArrs::OFFSET_OF_A0, HArrs::SLAB_SIZE_OF_A0, 0usize, |s| s.a0.clone(), |s, x| s.a0 = x);
    ck.field::<HArrs, [u64; 32]>(
        r,
        "a1",
        HArrs::OFFSET_OF_A1,
        HArrs::SLAB_SIZE_OF_A1,
        0usize + <[u32; 0] as Shape>::REF_SIZE,
        |s| s.a1.clone(),
        |s, x| s.a1 = x,
    );
    ck.field::<HArrs, [Option<u8>; 7]>(
        r,
        "a2",
        HArrs::OFFSET_OF_A2,
        HArrs::SLAB_SIZE_OF_A2,
        0usize + <[u32; 0] as Shape>::REF_SIZE + <[u64; 32] as Shape>::REF_SIZE,
        |s| s.a2.clone(),
        |s, x| s.a2 = x,
    );
    ck.field::<HArrs, [[i16; 3]; 4]>(
        r,
        "a3",
        HArrs::OFFSET_OF_A3,
        HArrs::SLAB_SIZE_OF_A3,
        0usize + <[u32; 0] as Shape>::REF_SIZE + <[u64; 32] as Shape>::REF_SIZE + <[Option<u8>; 7] as Shape>::REF_SIZE,
        |s| s.a3.clone(),
        |s, x| s.a3 = x,
    );
}
fn offsets_hptr(r: &mut Rng, ck: &mut OffCk) {
    ck.begin::<HPtr>(r);
    ck.field::<HPtr, crabslab::Id<HNest>>(r, "id", HPtr::OFFSET_OF_ID, HPtr::SLAB_SIZE_OF_ID, 0usize, |s| s.id.clone(), |s, x| s.id = x);
    ck.field::<HPtr, crabslab::Array<HEnum>>(
        r,
        "arr",
        HPtr::OFFSET_OF_ARR,
        HPtr::SLAB_SIZE_OF_ARR,
        0usize + <crabslab::Id<HNest> as Shape>::REF_SIZE,
        |s| s.arr.clone(),
        |s, x| s.arr = x,
    );
    ck.field::<HPtr, glam::Mat4>(
        r,
        "m",
        HPtr::OFFSET_OF_M,
        HPtr::SLAB_SIZE_OF_M,
        0usize + <crabslab::Id<HNest> as Shape>::REF_SIZE + <crabslab::Array<HEnum> as Shape>::REF_SIZE,
        |s| s.m.clone(),
        |s, x| s.m = x,
    );
    ck.field::<HPtr, glam::Quat>(
        r,
        "q",
        HPtr::OFFSET_OF_Q,
        HPtr::SLAB_SIZE_OF_Q,
        0usize + <crabslab::Id<HNest> as Shape>::REF_SIZE + <crabslab::Array<HEnum> as Shape>::REF_SIZE + <glam::Mat4 as Shape>::REF_SIZE,
        |s| s.q.clone(),
        |s, x| s.q = x,
    );
}
pub fn visit<V: Visitor>(v: &mut V) {
    v.visit::<HNamed>();
    v.visit::<HTuple>();
    v.visit::<HOne>();
    v.visit::<HNest>();
    v.visit::<HNest2>();
    v.visit::<HZst>();
    v.visit::<HGen<(u64, i8), glam::Vec3>>();
    v.visit::<HUnitEnum>();
    v.visit::<HEnum>();
    v.visit::<HEnumNest>();
    v.visit::<HGenEnum<u64>>();
    v.visit::<HBigEnum>();
    v.visit::<HWide>();
    v.visit::<HArrs>();
    v.visit::<HPtr>();
}
pub fn offset_checks() -> Vec<(&'static str, fn(&mut Rng, &mut OffCk))> {
    vec![
        ("HNamed", offsets_hnamed),
        ("HTuple", offsets_htuple),
        ("HOne", offsets_hone),
        ("HNest", offsets_hnest),
        ("HNest2", offsets_hnest2),
        ("HZst", offsets_hzst),
        ("HGen", offsets_hgen),
        ("HWide", offsets_hwide),
        ("HArrs", offsets_harrs),
        ("HPtr", offsets_hptr),
    ]
}
pub const TYPES: usize = 15;
pub const VARIANTS: usize = 315;
pub const FIELDS: usize = 90;
