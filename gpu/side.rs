//! Compiled twice: against the crate as built for the CPU and as built for the GPU.
#![allow(clippy::all, dead_code)]
#[path = "../harness/src/gen_catalog.rs"]
pub mod gen_catalog;
#[path = "../harness/src/offck.rs"]
pub mod offck;
#[path = "../harness/src/rng.rs"]
pub mod rng;
#[path = "../harness/src/shape.rs"]
pub mod shape;
#[path = "../harness/src/types.rs"]
pub mod types;
/// What offck.rs needs of it.
pub mod report {
    #[derive(Default)]
    pub struct Ctx(pub Vec<(String, String)>);
    impl Ctx {
        pub fn fail(&mut self, _: &str, sig: &str, msg: String) {
            self.0.push((sig.into(), msg));
        }
        pub fn eval(&mut self, _: Option<u64>) {}
        pub fn stat(&mut self, _: &str, _: u64) {}
    }
}
use crabslab::{Array, CpuSlab, GrowableSlab, Id, Slab, SlabItem};
use rng::Rng;
use shape::{Shape, Visitor, W};
use twin::{Side, Twin};

/// A slab as a shader might define one.
struct Mine(Vec<u32>);
impl Slab for Mine {
    fn len(&self) -> usize {
        self.0.len()
    }
    fn read_unchecked<T: SlabItem>(&self, id: Id<T>) -> T {
        self.0.as_slice().read_unchecked(id)
    }
    fn write_indexed<T: SlabItem>(&mut self, t: &T, index: usize) -> usize {
        self.0.as_mut_slice().write_indexed(t, index)
    }
    fn write_indexed_slice<T: SlabItem>(&mut self, t: &[T], index: usize) -> usize {
        self.0.as_mut_slice().write_indexed_slice(t, index)
    }
}
impl GrowableSlab for Mine {
    fn capacity(&self) -> usize {
        self.0.capacity()
    }
    fn reserve_capacity(&mut self, capacity: usize) {
        self.0.reserve(capacity.saturating_sub(self.0.len()));
    }
    fn increment_len(&mut self, n: usize) -> usize {
        let l = self.0.len();
        self.0.resize(l + n, 0);
        l
    }
}

fn make<T: Shape>(seed: u64) -> T {
    T::gen(&mut Rng::new(seed))
}
fn write<T: Shape>(seeds: &[u64], route: usize, slab: &mut Vec<u32>, at: usize) -> Option<usize> {
    let vals: Vec<T> = seeds.iter().map(|s| make(*s)).collect();
    let s = slab.as_mut_slice();
    match route {
        0 => {
            for (i, v) in vals.iter().enumerate() {
                s.write(Id::<T>::new((at + i * T::SLAB_SIZE) as u32), v);
            }
            None
        }
        1 => Some(vals.iter().fold(at, |i, v| s.write_indexed(v, i))),
        2 => Some(vals.iter().fold(at, |i, v| v.write_slab(i, s))),
        3 => Some(s.write_indexed_slice(&vals, at)),
        4 => {
            s.write_array(Array::<T>::new(at as u32, vals.len() as u32), &vals);
            None
        }
        r => {
            // what is after it is appended again
            let post = slab.split_off(at + vals.len() * T::SLAB_SIZE);
            slab.truncate(at);
            let mut c = CpuSlab::new(Mine(std::mem::take(slab)));
            let mut end = at;
            if r == 5 {
                for v in &vals {
                    end = c.append(v).index() + T::SLAB_SIZE;
                }
            } else if !vals.is_empty() {
                let a = c.append_array(&vals);
                end = a.starting_index() + a.len() * T::SLAB_SIZE;
            }
            *slab = c.into_inner().0;
            slab.extend(post);
            Some(end)
        }
    }
}
fn read<T: Shape>(route: usize, slab: &[u32], at: usize, n: usize) -> Vec<Vec<W>> {
    let c = if route == 5 { Some(CpuSlab::new(Mine(slab.to_vec()))) } else { None };
    (0..n)
        .map(|i| {
            let id = Id::<T>::new((at + i * T::SLAB_SIZE) as u32);
            match route {
                0 => slab.read(id),
                1 => slab.read_unchecked(id),
                2 => T::read_slab(id.index(), slab),
                3 => slab.read(Array::<T>::new(at as u32, n as u32).at(i)),
                4 => {
                    let mut t = make::<T>(i as u64);
                    slab.read_into_if_some(id, &mut t);
                    t
                }
                _ => c.as_ref().unwrap().read(id),
            }
            .words()
        })
        .collect()
}

pub struct Collect(pub Vec<Twin>);
impl Visitor for Collect {
    fn visit<T: Shape>(&mut self) {
        self.0.push(Twin {
            name: T::name().replace("side_cpu::", "").replace("side_gpu::", "").replace("gen::", "").replace("types::", ""),
            size: T::SLAB_SIZE,
            ref_size: T::REF_SIZE,
            gen: |s| make::<T>(s).words(),
            default: || T::default().words(),
            norm: |w| T::norm_words(w),
            write: write::<T>,
            read: read::<T>,
            contains: |id, len| Slab::contains(vec![0; len].as_slice(), Id::<T>::new(id)),
            checked: |id, slab| slab.read(Id::<T>::new(id)).words(),
            at: |i, len, n| Array::<T>::new(i, len).at(n).inner(),
        });
    }
}

pub fn side(visit: impl Fn(&mut Collect), offsets: Vec<(&'static str, fn(&mut Rng, &mut offck::OffCk))>) -> Side {
    let mut c = Collect(vec![]);
    visit(&mut c);
    Side {
        twins: c.0,
        offsets: offsets
            .into_iter()
            .map(|(n, f)| {
                let g: Box<dyn Fn(u64) -> Vec<(String, String)>> = Box::new(move |seed| {
                    let mut ctx = report::Ctx::default();
                    let mut o = offck::OffCk::new(&mut ctx);
                    o.big = seed % 50 == 49;
                    f(&mut Rng::new(seed), &mut o);
                    ctx.0
                });
                (n, g)
            })
            .collect(),
        slice_index: |s, i| *crabslab::slice_index(s, i),
        slice_index_mut: |s, i, x| *crabslab::slice_index_mut(s, i) = x,
        array_index: |s, i| *crabslab::array_index(s, i),
        array_index_mut: |s, i, x| *crabslab::array_index_mut(s, i) = x,
    }
}
pub fn catalogue() -> Side {
    side(|c| types::all_types(c), gen_catalog::offset_checks())
}
