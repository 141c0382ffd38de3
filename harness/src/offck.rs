//! M06: field offsets.
use crate::report::Ctx;
use crate::rng::Rng;
use crate::shape::{agree, fits, show, Shape};
use crabslab::offset::Offset;
use crabslab::{Id, Slab};
use std::any::Any;

pub struct OffCk<'a> {
    pub ctx: &'a mut Ctx,
    pub big: bool,
    slab: Vec<u32>,
    pos: usize,
    val: Option<Box<dyn Any>>,
    nfields: u64,
}

impl<'a> OffCk<'a> {
    pub fn new(ctx: &'a mut Ctx) -> Self {
        OffCk {
            ctx,
            big: false,
            slab: vec![],
            pos: 0,
            val: None,
            nfields: 0,
        }
    }
    pub fn begin<S: Shape>(&mut self, r: &mut Rng) {
        self.pos = if self.big { 65_530 + r.below(4000) } else { r.below(12) };
        let post = r.below(6);
        let n = self.pos + S::REF_SIZE + post;
        let fill = r.below(3);
        self.slab = (0..n)
            .map(|_| match fill {
                0 => 0,
                1 => u32::MAX,
                _ => r.word(),
            })
            .collect();
        let v = S::gen(r);
        let pos = self.pos;
        self.slab.as_mut_slice().write(Id::<S>::new(pos as u32), &v);
        self.val = Some(Box::new(v));
        self.nfields = 0;
    }
    fn cur<S: Shape>(&self) -> S {
        self.val.as_ref().unwrap().downcast_ref::<S>().expect("harness: begin type").clone()
    }
    #[allow(clippy::too_many_arguments)]
    pub fn field<S: Shape, F: Shape>(&mut self, r: &mut Rng, name: &str, off: Offset<F, S>, size: usize, want: usize, get: impl Fn(&S) -> F, set: impl Fn(&mut S, F)) {
        let o = off.offset;
        let sid = Id::<S>::new(self.pos as u32);
        let label = format!("{}.{}", S::name(), name);
        if o as usize != want {
            self.ctx.fail("M06", "offset", format!("offset of {label} is {o}, expected {want}"));
        }
        if size != F::REF_SIZE {
            self.ctx.fail("M06", "size", format!("published size of {label} is {size}, expected {}", F::REF_SIZE));
        }
        // `Offset` is not `Copy`
        let fid: Id<F> = sid + Offset::<F, S>::new(o as usize);
        let fid2: Id<F> = off + sid;
        let fid3: Id<F> = Id::from(Offset::<F, S>::new(o as usize));
        if fid != fid2 || fid.inner() as usize != self.pos + want || fid3.inner() as usize != want {
            self.ctx.fail(
                "M06",
                "add",
                format!("{label}: id+offset {fid:?}, offset+id {fid2:?}, from {fid3:?}; expected {}", self.pos + want),
            );
            return;
        }
        self.check(r, &label, fid, want, get, set);
    }
    #[allow(clippy::too_many_arguments)]
    pub fn nested<S: Shape, I: Shape, F: Shape>(
        &mut self,
        r: &mut Rng,
        name: &str,
        off: Offset<I, S>,
        off2: Offset<F, I>,
        want: usize,
        get: impl Fn(&S) -> F,
        set: impl Fn(&mut S, F),
    ) {
        let label = format!("{}.{}", S::name(), name);
        let fid: Id<F> = off2 + (Id::<S>::new(self.pos as u32) + off);
        if fid.inner() as usize != self.pos + want {
            self.ctx.fail("M06", "nested", format!("{label}: {fid:?}, expected {}", self.pos + want));
            return;
        }
        self.check(r, &label, fid, want, get, set);
    }
    fn check<S: Shape, F: Shape>(&mut self, r: &mut Rng, label: &str, fid: Id<F>, want: usize, get: impl Fn(&S) -> F, set: impl Fn(&mut S, F)) {
        let at = self.pos + want;
        let mut cur: S = self.cur();
        let got: F = self.slab.as_slice().read(fid);
        if got.words() != get(&cur).words() {
            self.ctx.fail(
                "M06",
                "read",
                format!("{label} reads {} through its offset, the item has {}", show(&got.words()), show(&get(&cur).words())),
            );
        }
        let new = F::gen(r);
        let before = self.slab.clone();
        self.slab.as_mut_slice().write(fid, &new);
        let n = F::REF_SIZE;
        for (i, (a, b)) in before.iter().zip(&self.slab).enumerate() {
            if a != b && !(at..at + n).contains(&i) {
                self.ctx.fail(
                    "M06",
                    "clobber",
                    format!("writing {label} through its offset changed word {i} ({a:x} to {b:x}), the field is {at}+{n}"),
                );
            }
        }
        if !fits(&self.slab[at..at + n], &new.words()) {
            self.ctx.fail("M06", "words", format!("{label}: words after writing are not the encoding of the new value"));
        }
        set(&mut cur, new);
        let whole: S = self.slab.as_slice().read(Id::<S>::new(self.pos as u32));
        if !agree(&whole.words(), &cur.words()) || whole.words() != cur.words() {
            self.ctx.fail(
                "M06",
                "whole",
                format!("item {} after writing {label} is {}, expected {}", S::name(), show(&whole.words()), show(&cur.words())),
            );
        }
        self.val = Some(Box::new(cur));
        self.nfields += 1;
        let h = crate::rng::hash_str(label) ^ (self.pos as u64);
        self.ctx.eval(if n > 0 { Some(crate::rng::mix(h)) } else { None });
        self.ctx.stat("field accesses", 1);
    }
}
