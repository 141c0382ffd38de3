//! W01: the wgpu runtime, on a device that exists in memory only.
use craballoc::prelude::*;
use crabslab::{Array, Id};
use std::future::Future;
use std::ops::{Bound, RangeBounds};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use vh::report::{guarded, harness_panic, Caught, Ctx};
use vh::rng::{garbage, mix, Rng};
use vh::shape::{fits, show, showw, Shape, W};
use wgpu::BufferUsages;
mod hal;

fn main() {
    vh::cli(run);
}

fn device() -> (WgpuRuntime, Arc<hal::Gpu>) {
    let c = hal::Context::default();
    let gpu = c.0.clone();
    let instance = unsafe { wgpu::Instance::from_hal::<hal::Api>(c.clone()) };
    let adapter = unsafe { instance.create_adapter_from_hal::<hal::Api>(hal::exposed(c)) };
    let (device, queue) = block(adapter.request_device(&wgpu::DeviceDescriptor::default(), None)).expect("harness: ready").expect("harness: device");
    (WgpuRuntime { device: device.into(), queue: queue.into() }, gpu)
}

/// Set while several threads are at it.
static THREADS: AtomicBool = AtomicBool::new(false);

/// Drive a future; `None` if it's stuck, as nobody is left to wake it.
fn block<T>(f: impl Future<Output = T>) -> Option<T> {
    let mut f = std::pin::pin!(f);
    let w = std::task::Waker::noop();
    let t = Instant::now();
    loop {
        if let std::task::Poll::Ready(t) = f.as_mut().poll(&mut std::task::Context::from_waker(w)) {
            return Some(t);
        }
        if t.elapsed() > Duration::from_secs(if THREADS.load(SeqCst) { 20 } else { 1 }) {
            return None;
        }
        std::thread::sleep(Duration::from_micros(200));
    }
}

type Rd = Result<Vec<u32>, String>;
fn must<T>(ctx: &mut Ctx, what: &str, f: impl FnOnce() -> T) -> Option<T> {
    match guarded(f) {
        Ok(x) => Some(x),
        Err(Caught::Panic(m)) => {
            if harness_panic(&m) {
                ctx.errors.push(format!("{what}: {m}"));
            } else {
                ctx.fail("W01", &format!("panic:{what}"), format!("{what} panicked: {m}"));
            }
            None
        }
        Err(_) => None,
    }
}
/// A read, as its caller sees it.
fn reading<T>(f: impl Future<Output = Result<T, SlabAllocatorError>>) -> Result<T, String> {
    match block(f) {
        Some(Ok(x)) => Ok(x),
        Some(Err(e)) => Err(e.to_string()),
        None => Err("never completed".into()),
    }
}

/// A range of words, written down in one of many ways.
fn spell(r: &mut Rng, a: usize, b: usize, all: usize) -> (Bound<usize>, Bound<usize>) {
    let s = match r.below(4) {
        0 if a == 0 => Bound::Unbounded,
        1 if a > 0 => Bound::Excluded(a - 1),
        _ => Bound::Included(a),
    };
    let e = match r.below(4) {
        0 if b == all => Bound::Unbounded,
        1 if b > 0 => Bound::Included(b - 1),
        _ => Bound::Excluded(b),
    };
    (s, e)
}
fn some_range(r: &mut Rng, n: usize) -> (usize, usize) {
    let a = r.below(n + 1);
    let b = match r.below(4) {
        0 => a,
        1 => n,
        2 => (a + 1 + r.below(3)).min(n),
        _ => a + r.below(n - a + 1),
    };
    if r.chance(1, 6) {
        (0, b)
    } else {
        (a, b)
    }
}

/// What a fully written buffer holds, seen from the device itself.
fn dump(rt: &WgpuRuntime, gpu: &hal::Gpu, b: &wgpu::Buffer) -> Vec<u32> {
    rt.queue.submit(None);
    gpu.finish();
    unsafe { b.as_hal::<hal::Api, _, _>(|b| b.expect("harness: buffer").0.dump()) }
}

/// Does everything on both runtimes.
#[derive(Clone)]
struct Tee(WgpuRuntime);
impl AsRef<Tee> for Tee {
    fn as_ref(&self) -> &Tee {
        self
    }
}
struct TeeBuf {
    cpu: VecSlab,
    gpu: wgpu::Buffer,
}
impl IsRuntime for Tee {
    type Buffer = TeeBuf;
    type BufferUsages = BufferUsages;
    fn buffer_create(&self, capacity: usize, label: Option<&str>, u: BufferUsages) -> TeeBuf {
        TeeBuf {
            cpu: CpuRuntime.buffer_create(capacity, label, ()),
            gpu: self.0.buffer_create(capacity, label, u),
        }
    }
    fn buffer_copy(&self, a: &TeeBuf, b: &TeeBuf, label: Option<&str>) {
        CpuRuntime.buffer_copy(&a.cpu, &b.cpu, label);
        self.0.buffer_copy(&a.gpu, &b.gpu, label);
    }
    fn buffer_write<U: Iterator<Item = SlabUpdate>>(&self, updates: U, b: &TeeBuf) {
        let us: Vec<_> = updates.collect();
        CpuRuntime.buffer_write(us.iter().cloned(), &b.cpu);
        self.0.buffer_write(us.into_iter(), &b.gpu);
    }
    fn buffer_read(&self, _: &TeeBuf, _: usize, _: impl RangeBounds<usize>) -> impl Future<Output = Result<Vec<u32>, SlabAllocatorError>> {
        async { unimplemented!("harness: not read this way") }
    }
}

const USAGES: [BufferUsages; 4] = [BufferUsages::empty(), BufferUsages::INDIRECT, BufferUsages::VERTEX, BufferUsages::UNIFORM];

/// Read a range of a buffer through both runtimes.
fn compare_read(ctx: &mut Ctx, t: &Tee, b: &TeeBuf, want: &[u32], r: &mut Rng) {
    let n = want.len();
    let (x, y) = if r.chance(1, 3) { (0, n) } else { some_range(r, n) };
    let rg = spell(r, x, y, n);
    let what = if x == y { "read of nothing" } else { "read" };
    let Some(c) = must(ctx, &format!("CpuRuntime {what}"), || -> Rd { reading(CpuRuntime.buffer_read(&b.cpu, n, rg)) }) else { return };
    let Some(g) = must(ctx, &format!("WgpuRuntime {what}"), || -> Rd { reading(t.0.buffer_read(&b.gpu, n, rg)) }) else { return };
    let w = want[x..y].to_vec();
    if c.as_ref() != Ok(&w) {
        ctx.fail("W01", "cpu", format!("the CPU runtime reads {rg:?} of {n} as {c:?}, expected {w:?}"));
    }
    if g.as_ref() != Ok(&w) {
        let msg = match &g {
            Ok(g) if g.len() == w.len() => {
                let i = (0..w.len()).find(|i| g[*i] != w[*i]).unwrap_or(0);
                format!("word {} is {:x}, expected {:x}", x + i, g[i], w[i])
            }
            Ok(g) => format!("{} words, expected {}", g.len(), w.len()),
            Err(e) => e.clone(),
        };
        ctx.fail("W01", "read", format!("the wgpu runtime reads {rg:?} of {n}: {msg}"));
    }
    ctx.stat("ranges read through both runtimes", 1);
    ctx.stat("words compared", w.len() as u64);
}

/// The runtime on its own: buffers, copies, batches of updates, reads.
fn direct(ctx: &mut Ctx, rt: &WgpuRuntime, gpu: &hal::Gpu, r: &mut Rng) {
    let t = Tee(rt.clone());
    let mut bufs: Vec<(TeeBuf, Vec<u32>)> = vec![];
    let mut h = 0u64;
    for _ in 0..r.range(4, 30) {
        gpu.lazy.store([0, 0, 1, 3, 1000][r.below(5)], SeqCst);
        let k = if bufs.is_empty() { 0 } else { r.below(10) };
        h = mix(h ^ k as u64);
        match k {
            0 => {
                let cap = match r.below(6) {
                    0 => 1,
                    1 => 1 << r.below(12),
                    2 => r.range(1, 5000),
                    3 if r.chance(1, 8) => r.range(60_000, 600_000),
                    _ => r.range(1, 40),
                };
                let u = *r.pick(&USAGES);
                let label = if r.chance(1, 2) { Some("some buffer") } else { None };
                let Some(b) = must(ctx, "buffer_create", || t.buffer_create(cap, label, u)) else { return };
                let need = u | BufferUsages::STORAGE | BufferUsages::COPY_SRC | BufferUsages::COPY_DST;
                if !b.gpu.usage().contains(need) {
                    ctx.fail("W01", "usages", format!("a buffer for {u:?} has usages {:?}, expected {need:?}", b.gpu.usage()));
                }
                if b.gpu.size() < 4 * cap as u64 {
                    ctx.fail("W01", "size", format!("a buffer of {cap} words has {} bytes", b.gpu.size()));
                    return;
                }
                bufs.push((b, vec![0; cap]));
                ctx.stat("buffers created", 1);
            }
            1 => {
                let (i, j) = (r.below(bufs.len()), r.below(bufs.len()));
                let (i, j) = if bufs[i].1.len() <= bufs[j].1.len() { (i, j) } else { (j, i) };
                if i != j {
                    if must(ctx, "buffer_copy", || t.buffer_copy(&bufs[i].0, &bufs[j].0, None)).is_none() {
                        return;
                    }
                    let src = bufs[i].1.clone();
                    bufs[j].1[..src.len()].copy_from_slice(&src);
                    ctx.stat("copies", 1);
                }
            }
            2 => {
                // the device agrees with what was written
                let i = r.below(bufs.len());
                let all = garbage(r, bufs[i].1.len());
                let up = SlabUpdate { array: Array::new(0, all.len() as u32), elements: all.clone() };
                if must(ctx, "buffer_write", || t.buffer_write(Some(up).into_iter(), &bufs[i].0)).is_none() {
                    return;
                }
                bufs[i].1 = all.clone();
                let Some(d) = must(ctx, "waiting for the device", || dump(rt, gpu, &bufs[i].0.gpu)) else { return };
                if let Some(k) = (0..all.len()).find(|k| d[*k] != all[*k]) {
                    ctx.fail("W01", "device", format!("after writing all {} words of a buffer, the device has {:x} in word {k}, expected {:x}", all.len(), d[k], all[k]));
                }
                ctx.stat("dumps of device memory", 1);
            }
            3 | 4 | 5 => {
                let i = r.below(bufs.len());
                let n = bufs[i].1.len();
                let many = r.chance(1, 20);
                let ups: Vec<SlabUpdate> = (0..if many { r.range(500, 6000) } else { r.below(6) })
                    .map(|_| {
                        let (mut a, mut b) = some_range(r, n);
                        if many {
                            a = a.min(n - 1);
                            b = (a + 1 + r.below(3)).min(n);
                        }
                        SlabUpdate { array: Array::new(a as u32, (b - a) as u32), elements: garbage(r, b - a) }
                    })
                    .collect();
                for u in &ups {
                    h = mix(h ^ (u.array.index as u64) << 32 ^ u.array.len as u64);
                    let a = u.array.starting_index();
                    bufs[i].1[a..a + u.elements.len()].copy_from_slice(&u.elements);
                }
                ctx.stat("updates written", ups.len() as u64);
                ctx.max("most updates at once", ups.len() as u64);
                if must(ctx, "buffer_write", || t.buffer_write(ups.into_iter(), &bufs[i].0)).is_none() {
                    return;
                }
            }
            6 => {
                let i = r.below(bufs.len());
                bufs.swap_remove(i);
            }
            _ => {
                let i = r.below(bufs.len());
                let w = bufs[i].1.clone();
                compare_read(ctx, &t, &bufs[i].0, &w, r);
            }
        }
        if ctx.bad() {
            return;
        }
    }
    for (b, w) in &bufs {
        compare_read(ctx, &t, b, w, r);
        let n = w.len();
        if let Some(g) = must(ctx, "read of everything", || reading(rt.buffer_read(&b.gpu, n, ..))) {
            if g.as_ref() != Ok(w) {
                ctx.fail("W01", "all", format!("a buffer of {n} words reads back differently: {:?}", g.map(|g| (0..n.min(g.len())).filter(|i| g[*i] != w[*i]).take(8).collect::<Vec<_>>())));
            }
        }
    }
    ctx.eval(Some(h));
}

/// A live handle and what it stands for.
trait Obj: Send {
    /// where its words are
    fn place(&self) -> (usize, usize);
    /// the words of the value assigned last
    fn now(&self) -> Vec<W>;
    fn assign(&mut self, r: &mut Rng);
    fn gpu_only(&mut self);
    fn name(&self) -> String;
    fn read(&self, a: &SlabAllocator<WgpuRuntime>) -> Result<Vec<Vec<W>>, String>;
    fn items(&self) -> usize;
}
enum H<T: Shape> {
    V(Hybrid<T>),
    G(Gpu<T>),
    A(HybridArray<T>),
    B(GpuArray<T>),
    No,
}
struct O<T: Shape> {
    h: H<T>,
    cur: Vec<T>,
}
impl<T: Shape> Obj for O<T> {
    fn place(&self) -> (usize, usize) {
        let (i, n) = match &self.h {
            H::V(h) => (h.id().index(), 1),
            H::G(h) => (h.id().index(), 1),
            H::A(h) => (h.array().starting_index(), h.array().len()),
            H::B(h) => (h.array().starting_index(), h.array().len()),
            H::No => unreachable!("harness: no handle"),
        };
        (i, n * T::REF_SIZE)
    }
    fn now(&self) -> Vec<W> {
        self.cur.iter().flat_map(|t| t.words()).collect()
    }
    fn assign(&mut self, r: &mut Rng) {
        if self.cur.is_empty() {
            return;
        }
        let i = r.below(self.cur.len());
        let t = T::gen(r);
        match &mut self.h {
            H::V(h) => match r.below(3) {
                0 => h.set(t.clone()),
                1 => h.modify(|x| *x = t.clone()),
                _ => *h.lock() = t.clone(),
            },
            H::G(h) => h.set(t.clone()),
            H::A(h) => {
                if r.chance(1, 2) {
                    h.set_item(i, t.clone());
                } else {
                    h.modify(i, |x| *x = t.clone());
                }
            }
            H::B(h) => h.set_item(i, &t),
            H::No => {}
        }
        self.cur[i] = t;
    }
    fn gpu_only(&mut self) {
        self.h = match std::mem::replace(&mut self.h, H::No) {
            H::V(h) => H::G(h.into_gpu_only()),
            H::A(h) => H::B(h.into_gpu_only()),
            h => h,
        };
    }
    fn name(&self) -> String {
        match &self.h {
            H::A(_) | H::B(_) => format!("array of {} {}", self.cur.len(), T::name()),
            _ => T::name(),
        }
    }
    fn read(&self, a: &SlabAllocator<WgpuRuntime>) -> Result<Vec<Vec<W>>, String> {
        let arr: Array<T> = match &self.h {
            H::A(h) => h.array(),
            H::B(h) => h.array(),
            _ => Array::new(self.place().0 as u32, 1),
        };
        Ok(reading(a.read_array(arr))?.iter().map(|t| t.words()).collect())
    }
    fn items(&self) -> usize {
        self.cur.len()
    }
}
fn new_obj<R: IsRuntime, T: Shape>(a: &SlabAllocator<R>, r: &mut Rng) -> Box<dyn Obj> {
    let n = match r.below(5) {
        0 => 1 + r.below(8),
        1 => r.below(70),
        2 if r.chance(1, 40) => r.range(300, 5000),
        _ => 0,
    };
    let one = r.chance(1, 2);
    let cur: Vec<T> = (0..if one { 1 } else { n }).map(|_| T::gen(r)).collect();
    let h = match (one, r.chance(1, 2)) {
        (true, true) => H::V(a.new_value(cur[0].clone())),
        (true, false) => H::G(Gpu::new(a, cur[0].clone())),
        (false, true) => H::A(a.new_array(cur.iter().cloned())),
        (false, false) => H::B(GpuArray::new(a, &cur)),
    };
    Box::new(O { h, cur })
}
fn new_any<R: IsRuntime>(a: &SlabAllocator<R>, r: &mut Rng) -> Box<dyn Obj> {
    match r.below(9) {
        0 => new_obj::<R, u32>(a, r),
        1 => new_obj::<R, u64>(a, r),
        2 => new_obj::<R, (u8, f32)>(a, r),
        3 => new_obj::<R, [u32; 7]>(a, r),
        4 => new_obj::<R, Option<u64>>(a, r),
        5 => new_obj::<R, glam::Mat4>(a, r),
        6 => new_obj::<R, (bool, Id<u32>, i16)>(a, r),
        7 => new_obj::<R, Option<glam::Vec3>>(a, r),
        _ => new_obj::<R, std::marker::PhantomData<u32>>(a, r),
    }
}

/// Change the live handles somehow.
fn churn<R: IsRuntime>(ctx: &mut Ctx, a: &SlabAllocator<R>, objs: &mut Vec<(Box<dyn Obj>, Option<Vec<W>>)>, r: &mut Rng, h: &mut u64) -> bool {
    for _ in 0..r.below(9) {
        let k = r.below(10);
        *h = mix(*h ^ k as u64);
        if objs.is_empty() || k < 3 && objs.len() < 60 {
            let Some(o) = must(ctx, "creating a value", || new_any(a, r)) else { return false };
            *h = mix(*h ^ o.place().0 as u64);
            objs.push((o, None));
            continue;
        }
        let i = r.below(objs.len());
        match k {
            0..=2 => {
                objs.swap_remove(i);
            }
            3 => {
                objs.swap_remove(i);
            }
            4 => objs[i].0.gpu_only(),
            _ => {
                let o = &mut objs[i].0;
                if must(ctx, "assigning a value", || o.assign(r)).is_none() {
                    return false;
                }
            }
        }
    }
    true
}

/// One history of an allocator, on both runtimes at once.
fn both(ctx: &mut Ctx, rt: &WgpuRuntime, gpu: &hal::Gpu, r: &mut Rng) {
    let t = Tee(rt.clone());
    let a = SlabAllocator::<Tee>::new(&t, *r.pick(&USAGES));
    let mut objs: Vec<(Box<dyn Obj>, Option<Vec<W>>)> = vec![];
    let mut h = 0u64;
    let many = r.chance(1, 30);
    if many {
        for _ in 0..r.range(600, 3000) {
            objs.push((new_obj::<Tee, u32>(&a, r), None));
        }
        ctx.stat("histories with thousands of values", 1);
    }
    for step in 0..r.range(2, 14) {
        if many && r.chance(1, 3) {
            let k = r.range(1, 3);
            for i in (0..objs.len()).step_by(k) {
                objs[i].0.assign(r);
            }
        }
        gpu.lazy.store([0, 0, 1, 3, 1000][r.below(5)], SeqCst);
        if !churn(ctx, &a, &mut objs, r, &mut h) {
            return;
        }
        let Some(b) = must(ctx, "commit", || a.commit()) else { return };
        ctx.stat("commits on both runtimes", 1);
        for (o, c) in objs.iter_mut() {
            *c = Some(o.now());
        }
        let want: Vec<u32> = b.cpu.as_vec().clone();
        for (o, c) in &objs {
            let (p, n) = o.place();
            if n > 0 && !fits(&want[p..p + n], c.as_ref().unwrap()) {
                ctx.errors.push(format!("the CPU runtime has {} at {p}, expected {}: another property", showw(&want[p..p + n]), show(c.as_ref().unwrap())));
                return;
            }
        }
        if b.gpu.size() / 4 < want.len() as u64 {
            ctx.fail("W01", "size", format!("the wgpu buffer has {} bytes, the CPU one {} words", b.gpu.size(), want.len()));
            return;
        }
        if step % 3 == 2 || r.chance(1, 2) {
            let Some(g) = must(ctx, "read of everything", || reading(rt.buffer_read(&b.gpu, want.len(), 0..want.len()))) else { return };
            match g {
                Ok(g) if g == want => {}
                Ok(g) => {
                    let i = (0..want.len()).find(|i| g.get(*i) != want.get(*i)).unwrap_or(0);
                    ctx.fail("W01", "buffer", format!("after commit {step}, word {i} of {} of the wgpu buffer is {:x?}, of the CPU buffer {:x}", want.len(), g.get(i), want[i]));
                }
                Err(e) => ctx.fail("W01", "read", format!("reading the wgpu buffer: {e}")),
            }
            ctx.stat("whole buffers compared", 1);
            ctx.stat("words compared", want.len() as u64);
            ctx.max("largest buffer", want.len() as u64);
        }
        compare_read(ctx, &t, &b, &want, r);
        ctx.eval(Some(mix(h ^ step as u64)));
        if ctx.bad() {
            return;
        }
    }
    ctx.sample(|| format!("{} live values at the end: {}", objs.len(), objs.iter().take(5).map(|o| format!("{} at {}", o.0.name(), o.0.place().0)).collect::<Vec<_>>().join(", ")));
}

/// One history of an allocator on the wgpu runtime, read back through it.
fn back(ctx: &mut Ctx, rt: &WgpuRuntime, gpu: &hal::Gpu, r: &mut Rng) {
    let usages = *r.pick(&USAGES);
    let a = SlabAllocator::<WgpuRuntime>::new_with_label(rt, usages, if r.chance(1, 2) { Some("slab") } else { None });
    let mut objs: Vec<(Box<dyn Obj>, Option<Vec<W>>)> = vec![];
    let mut h = 1u64;
    let early = |ctx: &mut Ctx, r: &mut Rng| {
        let (x, y) = some_range(r, 8);
        let rg = spell(r, x, y, 8);
        let Some(e) = must(ctx, "read before the first commit", || block(a.read(rg))) else { return };
        if !matches!(e, Some(Err(SlabAllocatorError::NoInternalBuffer))) {
            ctx.fail("W01", "early", format!("reading {rg:?} before the first commit gives {:?}", e.map(|e| e.map_err(|e| e.to_string()))));
        }
        let Some(e) = must(ctx, "read_array before the first commit", || block(a.read_array(Array::<u64>::new(x as u32, y as u32)))) else { return };
        if !matches!(e, Some(Err(SlabAllocatorError::NoInternalBuffer))) {
            ctx.fail("W01", "early", format!("reading an array before the first commit gives {:?}", e.map(|e| e.map_err(|e| e.to_string()))));
        }
        ctx.stat("reads before the first commit", 1);
    };
    early(ctx, r);
    let mut held: Option<SlabBuffer<wgpu::Buffer>> = None;
    for step in 0..r.range(2, 12) {
        gpu.lazy.store([0, 0, 1, 3, 1000][r.below(5)], SeqCst);
        if !churn(ctx, &a, &mut objs, r, &mut h) {
            return;
        }
        if step == 0 {
            early(ctx, r);
        }
        let Some(b) = must(ctx, "commit", || a.commit()) else { return };
        let need = usages | BufferUsages::STORAGE | BufferUsages::COPY_SRC | BufferUsages::COPY_DST;
        if !b.usage().contains(need) {
            ctx.fail("W01", "usages", format!("the buffer of an allocator for {usages:?} has usages {:?}, expected {need:?}", b.usage()));
        }
        let cap = b.size() as usize / 4;
        for (o, c) in objs.iter_mut() {
            *c = Some(o.now());
            let (p, n) = o.place();
            if n > 0 && p + n > cap {
                ctx.fail("W01", "size", format!("{} at {p} lies outside of the buffer of {cap} words", o.name()));
                return;
            }
        }
        // sometimes with changes that are not committed yet
        if r.chance(1, 2) && !churn(ctx, &a, &mut objs, r, &mut h) {
            return;
        }
        if r.chance(1, 2) {
            held.get_or_insert_with(|| b.clone()).update_if_invalid();
        }
        for (o, c) in &objs {
            let Some(c) = c else { continue };
            let (p, n) = o.place();
            let name = o.name();
            let Some(x) = must(ctx, if o.items() == 0 { "read_array of an empty array" } else { "read_array" }, || o.read(&a)) else { return };
            let flat = x.as_ref().map(|x| x.iter().flatten().copied().collect::<Vec<W>>());
            if x.as_ref().map_or(true, |x| x.len() != o.items()) || flat.as_ref() != Ok(c) {
                ctx.fail("W01", "read_array", format!("reading {name} at {p} gives {}, committed {}", flat.map_or_else(|e| e.clone(), |f| show(&f)), show(c)));
            }
            ctx.stat("values read back by read_array", 1);
            if n > 0 && r.chance(1, 2) {
                let (x, y) = some_range(r, n);
                let rg = spell(r, p + x, p + y, usize::MAX);
                let Some(g) = must(ctx, if x == y { "read of nothing" } else { "read" }, || reading(a.read(rg))) else { return };
                if g.as_ref().map_or(true, |g| !fits(g, &c[x..y])) {
                    ctx.fail("W01", "read", format!("reading {rg:?}, a part of {name} at {p}: {}, committed {}", g.map_or_else(|e| e, |g| showw(&g)), show(&c[x..y])));
                }
                ctx.stat("ranges read back by read", 1);
            }
        }
        // to the end
        let end = objs.iter().filter(|o| o.1.is_some()).map(|o| o.0.place()).filter(|p| p.1 > 0).map(|(p, n)| p + n).max().unwrap_or(0);
        let from = r.below(end + 1);
        let rg = (if from == 0 { Bound::Unbounded } else { Bound::Included(from) }, Bound::Unbounded);
        let Some(g) = must(ctx, "read to the end", || reading(a.read(rg))) else { return };
        match g {
            Err(e) => ctx.fail("W01", "read", format!("reading {rg:?} failed: {e}")),
            Ok(g) => {
                if from + g.len() < end {
                    ctx.fail("W01", "end", format!("reading {rg:?} gives {} words, but values lie up to word {end}", g.len()));
                    return;
                }
                for (o, c) in &objs {
                    let Some(c) = c else { continue };
                    let (p, n) = o.place();
                    if n > 0 && p >= from && !fits(&g[p - from..p - from + n], c) {
                        ctx.fail("W01", "read", format!("reading {rg:?} gives {} where {} is, committed {}", showw(&g[p - from..p - from + n]), o.name(), show(c)));
                    }
                }
            }
        }
        ctx.stat("reads to the end", 1);
        if let Some(b) = &held {
            if b.is_valid() && !objs.is_empty() {
                let (o, c) = r.pick(&objs);
                let (p, n) = o.place();
                if let (Some(c), true) = (c, n > 0) {
                    let cap = b.size() as usize / 4;
                    let Some(g) = must(ctx, "reading a held buffer", || reading(rt.buffer_read(b, cap, p..p + n))) else { return };
                    if g.as_ref().map_or(true, |g| !fits(g, c)) {
                        ctx.fail("W01", "held", format!("a valid buffer handle has {} where {} is, committed {}", g.map_or_else(|e| e, |g| showw(&g)), o.name(), show(c)));
                    }
                }
            }
        }
        ctx.eval(Some(mix(h ^ step as u64)));
        if ctx.bad() {
            return;
        }
    }
}

/// Readers at work while another thread assigns, commits and makes the slab grow.
fn threads(ctx: &mut Ctx, rt: &WgpuRuntime, gpu: &hal::Gpu, r: &mut Rng) {
    const N: usize = 6;
    THREADS.store(true, SeqCst);
    gpu.lazy.store([0, 1, 3, 1000][r.below(4)], SeqCst);
    let a = SlabAllocator::<WgpuRuntime>::new(rt, BufferUsages::empty());
    let word = |i: usize, k: usize, v: u64| (i as u32) << 24 | (k as u32) << 20 | v as u32;
    let vals: Vec<Hybrid<[u32; N]>> = (0..6).map(|i| a.new_value(std::array::from_fn(|k| word(i, k, 0)))).collect();
    a.commit();
    // version assigned, version committed
    let begun: Vec<AtomicU64> = (0..vals.len()).map(|_| AtomicU64::new(0)).collect();
    let done: Vec<AtomicU64> = (0..vals.len()).map(|_| AtomicU64::new(0)).collect();
    let bad: Mutex<Vec<(String, String)>> = Mutex::new(vec![]);
    let stop = AtomicBool::new(false);
    let reads = AtomicU64::new(0);
    let raced = AtomicU64::new(0);
    let rounds = r.range(3, 12);
    let seeds: Vec<u64> = (0..4).map(|_| r.u64()).collect();
    let say = |sig: &str, m: String| bad.lock().unwrap().push((sig.into(), m));
    std::thread::scope(|s| {
        for seed in &seeds[1..] {
            let (a, vals, begun, done, stop, say, reads, raced) = (a.clone(), &vals, &begun, &done, &stop, &say, &reads, &raced);
            s.spawn(move || {
                let mut r = Rng::new(*seed);
                let x = guarded(|| {
                    for _ in 0..400 {
                        if stop.load(SeqCst) {
                            break;
                        }
                        let i = r.below(vals.len());
                        let lo = done[i].load(SeqCst);
                        let got = reading(a.read_array(Array::<u32>::new(vals[i].id().inner(), N as u32)));
                        let hi = begun[i].load(SeqCst);
                        match got {
                            Err(e) => say("threads:read", format!("a read failed while another thread committed: {e}")),
                            Ok(w) => {
                                let v = (w.first().copied().unwrap_or(0) & 0xf_ffff) as u64;
                                let ok = w.len() == N && w.iter().enumerate().all(|(k, w)| *w == word(i, k, v));
                                if !ok || v < lo || v > hi {
                                    say("threads:words", format!("reading value {i} while another thread commits gives {}; versions {lo} to {hi} are possible", showw(&w)));
                                }
                                if lo != hi {
                                    raced.fetch_add(1, SeqCst);
                                }
                                reads.fetch_add(1, SeqCst);
                            }
                        }
                    }
                });
                if let Err(Caught::Panic(m)) = x {
                    say("threads:panic", format!("reading while another thread commits panicked: {m}"));
                }
            });
        }
        let mut r = Rng::new(seeds[0]);
        let x = guarded(|| {
            let mut extra = vec![];
            for k in 1..=rounds as u64 {
                let mut which = vec![];
                for i in 0..vals.len() {
                    if r.chance(1, 2) {
                        begun[i].store(k, SeqCst);
                        vals[i].set(std::array::from_fn(|j| word(i, j, k)));
                        which.push(i);
                    }
                }
                if r.chance(1, 2) {
                    let n = r.range(1, 60);
                    extra.push(a.new_array((0..n as u32).map(|x| !x)));
                }
                a.commit();
                for i in which {
                    done[i].store(k, SeqCst);
                }
                if r.chance(1, 2) {
                    std::thread::sleep(Duration::from_micros(r.below(200) as u64));
                }
            }
            stop.store(true, SeqCst);
        });
        stop.store(true, SeqCst);
        if let Err(Caught::Panic(m)) = x {
            say("threads:panic", format!("committing while other threads read panicked: {m}"));
        }
    });
    THREADS.store(false, SeqCst);
    for (sig, m) in bad.into_inner().unwrap() {
        ctx.fail("W01", &sig, m);
    }
    ctx.stat("reads during commits of another thread", reads.load(SeqCst));
    ctx.stat("of these, overlapping a commit of the value", raced.load(SeqCst));
    ctx.eval(Some(mix(seeds[0])));
}

fn run(ctx: &mut Ctx) {
    let seed = mix(ctx.seed ^ 0x3901);
    let n = ctx.n(20_000, 400_000);
    let mut dev: Option<(WgpuRuntime, Arc<hal::Gpu>)> = None;
    let mut used = 0;
    for k in 0..n {
        let id = mix(seed ^ k) & !3 | k & 3;
        if !ctx.begin(id) {
            continue;
        }
        if used % 64 == 0 {
            dev = Some(device());
        }
        used += 1;
        let (rt, gpu) = dev.clone().unwrap();
        let mut r = Rng::new(id);
        let kind = k & 3;
        ctx.case = ["runtime", "allocator on both runtimes", "allocator on wgpu", "allocator on wgpu, threads"][kind as usize].into();
        let c = (gpu.commands.load(SeqCst), gpu.submissions.load(SeqCst));
        match kind {
            0 => direct(ctx, &rt, &gpu, &mut r),
            1 => both(ctx, &rt, &gpu, &mut r),
            2 => back(ctx, &rt, &gpu, &mut r),
            _ if k % 16 == 3 => threads(ctx, &rt, &gpu, &mut r),
            _ => back(ctx, &rt, &gpu, &mut r),
        }
        gpu.finish();
        rt.device.poll(wgpu::Maintain::Wait);
        ctx.stat("commands executed by the device", gpu.commands.load(SeqCst) - c.0);
        ctx.stat("submissions executed by the device", gpu.submissions.load(SeqCst) - c.1);
        let bad = std::mem::take(&mut *gpu.bad.lock().unwrap());
        if let Some(b) = bad.first() {
            ctx.fail("W01", "device-bounds", format!("the device was told to do a {b}"));
        }
    }
}
