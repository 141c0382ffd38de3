//! M08: growable slabs.
use crate::report::{must, Ctx};
use crate::rng::{garbage, hash_str, mix, Rng};
use crate::shape::{fits, Shape, W};
use crabslab::{Array, CpuSlab, GrowableSlab, Id, Slab, SlabItem};
use std::marker::PhantomData;

/// A growable slab that insists on the protocol: length never exceeds the reserved capacity.
struct Strict {
    v: Vec<u32>,
    cap: usize,
    broke: Option<String>,
}
impl Slab for Strict {
    fn len(&self) -> usize {
        self.v.len()
    }
    fn read_unchecked<T: SlabItem>(&self, id: Id<T>) -> T {
        self.v.read_unchecked(id)
    }
    fn write_indexed<T: SlabItem>(&mut self, t: &T, index: usize) -> usize {
        self.v.write_indexed(t, index)
    }
    fn write_indexed_slice<T: SlabItem>(&mut self, t: &[T], index: usize) -> usize {
        self.v.write_indexed_slice(t, index)
    }
}
impl GrowableSlab for Strict {
    fn capacity(&self) -> usize {
        self.cap
    }
    fn reserve_capacity(&mut self, capacity: usize) {
        if capacity < self.cap {
            self.broke = Some(format!("asked to shrink the capacity from {} to {capacity}", self.cap));
        }
        self.cap = self.cap.max(capacity);
    }
    fn increment_len(&mut self, n: usize) -> usize {
        let i = self.v.len();
        if i + n > self.cap {
            self.broke = Some(format!("length grew from {i} by {n} beyond the capacity {}", self.cap));
        }
        self.v.resize(i + n, 0xabad_1dea);
        i
    }
}

trait Grow: GrowableSlab {
    fn raw(&self) -> &[u32];
    fn real_capacity(&self) -> usize;
    fn broke(&self) -> Option<String> {
        None
    }
}
impl Grow for Vec<u32> {
    fn raw(&self) -> &[u32] {
        self
    }
    fn real_capacity(&self) -> usize {
        Vec::capacity(self)
    }
}
impl Grow for CpuSlab<Vec<u32>> {
    fn raw(&self) -> &[u32] {
        self.as_ref()
    }
    fn real_capacity(&self) -> usize {
        Vec::capacity(self.as_ref())
    }
}
impl Grow for Strict {
    fn raw(&self) -> &[u32] {
        &self.v
    }
    fn real_capacity(&self) -> usize {
        self.cap
    }
    fn broke(&self) -> Option<String> {
        self.broke.clone()
    }
}
impl Grow for CpuSlab<Strict> {
    fn raw(&self) -> &[u32] {
        &self.as_ref().v
    }
    fn real_capacity(&self) -> usize {
        self.as_ref().cap
    }
    fn broke(&self) -> Option<String> {
        self.as_ref().broke.clone()
    }
}

struct GrowModel {
    /// what the words must be; `None`: handed out but never written, or padding
    words: Vec<W>,
    spans: Vec<(usize, usize)>,
    used: Vec<bool>,
    big: bool,
}

fn grow_case<G: Grow>(ctx: &mut Ctx, r: &mut Rng, mut g: G, kind: &str) {
    let mut m = GrowModel {
        words: g.raw().iter().map(|w| Some(*w)).collect(),
        spans: vec![],
        used: vec![true; g.raw().len()],
        big: r.chance(1, 100) && !cfg!(miri),
    };
    let nops = if cfg!(miri) {
        6
    } else if m.big {
        40
    } else if r.chance(1, 20) {
        400
    } else {
        r.range(3, 40)
    };
    let mut trace = vec![];
    let mut h = hash_str(kind);
    for i in 0..nops {
        let cap0 = g.real_capacity();
        let len0 = g.raw().len();
        macro_rules! op {
            ($t:ty) => {
                grow_op::<$t, G>(ctx, r, &mut g, &mut m, &mut trace)
            };
        }
        let k = match r.below(12) {
            0 | 1 => op!(u32),
            2 => op!(u64),
            3 => op!((u32, u64, u32)),
            4 => op!(Option<u64>),
            5 => op!(glam::Vec3),
            6 => op!([u16; 5]),
            7 => op!(glam::Mat4),
            8 => op!(PhantomData<u8>),
            9 => op!(Id<u32>),
            10 => op!([u32; 32]),
            _ => op!((u8, bool)),
        };
        let Some(k) = k else { return };
        h = mix(h ^ k);
        let desc = trace.last().cloned().unwrap_or_default();
        if g.real_capacity() < cap0 {
            ctx.fail("M08", "shrunk", format!("{kind}: {desc} shrunk the capacity from {cap0} to {}", g.real_capacity()));
        }
        if g.raw().len() < len0 {
            ctx.fail("M08", "len", format!("{kind}: {desc} shrunk the length from {len0} to {}", g.raw().len()));
        }
        if g.capacity() != g.real_capacity() || Slab::len(&g) != g.raw().len() || g.is_empty() != g.raw().is_empty() {
            ctx.fail(
                "M08",
                "report",
                format!(
                    "{kind}: reported capacity {} len {} empty {}; actual {} {}",
                    g.capacity(),
                    Slab::len(&g),
                    g.is_empty(),
                    g.real_capacity(),
                    g.raw().len()
                ),
            );
        }
        if let Some(b) = g.broke() {
            ctx.fail("M08", "protocol", format!("{kind}: {desc}: {b}"));
        }
        if g.raw().len() > 3000 && i % 16 != 15 && i + 1 != nops {
            continue;
        }
        if !fits(g.raw(), &m.words) {
            let i = (0..g.raw().len().min(m.words.len())).find(|i| m.words[*i].map_or(false, |w| w != g.raw()[*i]));
            ctx.fail(
                "M08",
                "contents",
                format!(
                    "{kind}: {desc} left length {} (expected {}), first wrong word {i:?}; ops {}",
                    g.raw().len(),
                    m.words.len(),
                    trace.join("; ")
                ),
            );
        }
        if ctx.bad() {
            return;
        }
        // fix what is unspecified
        for (w, a) in m.words.iter_mut().zip(g.raw()) {
            if w.is_none() {
                *w = Some(*a);
            }
        }
    }
    ctx.eval(Some(h));
    ctx.stat("growable-slab operations", nops as u64);
    ctx.max("longest slab", g.raw().len() as u64);
    ctx.sample(|| format!("{kind}: {}", trace.iter().take(12).cloned().collect::<Vec<_>>().join("; ")));
}

fn grow_op<T: Shape, G: Grow>(ctx: &mut Ctx, r: &mut Rng, g: &mut G, m: &mut GrowModel, trace: &mut Vec<String>) -> Option<u64> {
    let n = T::REF_SIZE;
    let name = T::name();
    let big = m.big && r.chance(1, 8);
    let cnt = if big { 9000 + r.below(60_000) / n.max(1) } else { r.below(6) };
    let len0 = g.raw().len();
    let what = r.below(9);
    let fresh = |ctx: &mut Ctx, m: &mut GrowModel, at: usize, size: usize, total: usize, desc: &str| {
        if size == 0 {
            return true;
        }
        if at + size > total {
            ctx.fail("M08", "outside", format!("{desc}: span {at}+{size} is not inside the slab of {total}"));
            return false;
        }
        m.used.resize(total, false);
        if m.used[at..at + size].iter().any(|u| *u) {
            ctx.fail("M08", "overlap", format!("{desc}: span {at}+{size} overlaps earlier space"));
            return false;
        }
        m.used[at..at + size].iter_mut().for_each(|u| *u = true);
        m.spans.push((at, size));
        true
    };
    let ext = |m: &mut GrowModel, total: usize| {
        if total > m.words.len() {
            m.words.resize(total, None);
        }
    };
    let put = |m: &mut GrowModel, at: usize, vs: &[T]| {
        for (i, v) in vs.iter().enumerate() {
            for (j, w) in v.words().into_iter().enumerate() {
                m.words[at + i * n + j] = w;
            }
        }
    };
    let desc;
    match what {
        0 | 1 => {
            let v = T::gen(r);
            let id = must(ctx, "append", || g.append(&v))?;
            desc = format!("append {name} -> {}", id.inner());
            ext(m, g.raw().len());
            if !fresh(ctx, m, id.index(), n, g.raw().len(), &desc) {
                return None;
            }
            put(m, id.index(), &[v]);
        }
        2 => {
            let vs: Vec<T> = (0..cnt).map(|_| T::gen(r)).collect();
            let a = must(ctx, "append_array", || g.append_array(&vs))?;
            desc = format!("append {cnt}x{name} -> {}+{}", a.index, a.len);
            ext(m, g.raw().len());
            if a.len() != cnt {
                ctx.fail("M08", "alen", format!("{desc}: wrong length"));
                return None;
            }
            if cnt > 0 {
                if !fresh(ctx, m, a.starting_index(), n * cnt, g.raw().len(), &desc) {
                    return None;
                }
                put(m, a.starting_index(), &vs);
            }
        }
        3 => {
            let id = must(ctx, "allocate", || g.allocate::<T>())?;
            desc = format!("allocate {name} -> {}", id.inner());
            ext(m, g.raw().len());
            if !fresh(ctx, m, id.index(), n, g.raw().len(), &desc) {
                return None;
            }
        }
        4 => {
            let a = must(ctx, "allocate_array", || g.allocate_array::<T>(cnt))?;
            desc = format!("allocate {cnt}x{name} -> {}+{}", a.index, a.len);
            ext(m, g.raw().len());
            if a.len() != cnt {
                ctx.fail("M08", "alen", format!("{desc}: wrong length"));
                return None;
            }
            if cnt > 0 && !fresh(ctx, m, a.starting_index(), n * cnt, g.raw().len(), &desc) {
                return None;
            }
        }
        5 => {
            // relative to the capacity only while that's reasonable, as growth may be geometric
            let k = if g.real_capacity() > 4 * len0 + 4096 { r.below(3) } else { r.below(6) };
            let cap = match k {
                0 => 0,
                1 => len0,
                2 => g.real_capacity(),
                3 => g.real_capacity() + 1,
                4 => g.real_capacity() / 2,
                _ => g.real_capacity() + if big { r.below(1 << 20) } else { r.below(300) },
            };
            desc = format!("reserve {cap} (len {len0} capacity {})", g.real_capacity());
            // our strict slab itself reports shrinking, so only ask it to grow
            let c = if g.broke().is_none() && std::any::type_name::<G>().contains("Strict") {
                cap.max(g.real_capacity())
            } else {
                cap
            };
            must(ctx, "reserve_capacity", || g.reserve_capacity(c))?;
            if g.real_capacity() < c {
                ctx.fail("M08", "reserve", format!("{desc} left capacity {}", g.real_capacity()));
            }
            if g.raw().len() != len0 {
                ctx.fail("M08", "reserve-len", format!("{desc} changed the length to {}", g.raw().len()));
            }
        }
        6 => {
            desc = format!("fit {cnt}x{name} (len {len0} capacity {})", g.real_capacity());
            must(ctx, "maybe_expand_to_fit", || g.maybe_expand_to_fit::<T>(cnt))?;
            if g.real_capacity() < len0 + n * cnt {
                ctx.fail("M08", "fit", format!("{desc} left capacity {}, needs {}", g.real_capacity(), len0 + n * cnt));
            }
            if g.raw().len() != len0 {
                ctx.fail("M08", "fit-len", format!("{desc} changed the length to {}", g.raw().len()));
            }
        }
        _ => {
            // overwrite something handed out
            let cands: Vec<(usize, usize)> = m.spans.iter().rev().take(12).filter(|s| s.1 >= n && n > 0).cloned().collect();
            if cands.is_empty() {
                trace.push("-".into());
                return Some(0);
            }
            let (at, size) = *r.pick(&cands);
            if r.chance(1, 2) {
                let at = at + r.below(size - n + 1);
                let v = T::gen(r);
                desc = format!("write {name} at {at}");
                must(ctx, "write", || g.write(Id::from(at), &v))?;
                put(m, at, &[v]);
            } else {
                let k = (size / n).min(3);
                let vs: Vec<T> = (0..k).map(|_| T::gen(r)).collect();
                desc = format!("write {k}x{name} at {at}");
                must(ctx, "write_array", || g.write_array(Array::new(at as u32, k as u32), &vs))?;
                put(m, at, &vs);
            }
        }
    }
    let k = hash_str(&desc);
    trace.push(desc);
    Some(k)
}

pub fn run_grow(ctx: &mut Ctx) {
    let total = ctx.n(20_000, 1_000_000);
    let seed = mix(ctx.seed ^ hash_str("M08"));
    for k in 0..total {
        if ctx.bad() || !ctx.errors.is_empty() || !ctx.time_left() {
            break;
        }
        let id = mix(seed ^ k);
        if !ctx.begin(id) {
            continue;
        }
        let mut r = Rng::new(id);
        let pre = if r.chance(1, 2) { 0 } else { r.below(9) };
        let mut base = garbage(&mut r, pre);
        if r.chance(1, 2) {
            base.shrink_to_fit();
        }
        ctx.case = "growable slab".into();
        match k % 4 {
            0 => grow_case(ctx, &mut r, base, "Vec<u32>"),
            1 => grow_case(ctx, &mut r, CpuSlab::new(base), "CpuSlab<Vec<u32>>"),
            2 => {
                let cap = base.len() + r.below(3);
                grow_case(ctx, &mut r, Strict { v: base, cap, broke: None }, "custom slab")
            }
            _ => {
                let cap = base.len() + r.below(3);
                grow_case(ctx, &mut r, CpuSlab::new(Strict { v: base, cap, broke: None }), "CpuSlab of a custom slab")
            }
        }
    }
}
