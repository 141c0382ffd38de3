//! A16: what allocators hold on to. Every allocation of the process is counted.
#![allow(deprecated)]
use crate::report::{guarded, Caught, Ctx, Injected, PROGRESS};
use crate::rng::{hash_str, mix, Rng};
use craballoc::prelude::*;
use crabslab::SlabItem;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::BTreeSet;
use std::future::Future;
use std::ops::RangeBounds;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::*};
use std::sync::{Arc, Mutex};

struct Counting;
static BYTES: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        BYTES.fetch_add(l.size() as i64, Relaxed);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        BYTES.fetch_add(l.size() as i64, Relaxed);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        BYTES.fetch_sub(l.size() as i64, Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        BYTES.fetch_add(n as i64 - l.size() as i64, Relaxed);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static COUNTING: Counting = Counting;

// ---------------------------------------------------------------------------------------------

/// The reference runtime, counting its buffers.
#[derive(Clone, Default)]
struct Rt(Arc<Made>);
#[derive(Default)]
struct Made {
    next: AtomicU64,
    alive: AtomicI64,
    bytes: AtomicI64,
}
struct Buf {
    id: u64,
    mem: VecSlab,
    bytes: i64,
    made: Arc<Made>,
}
impl Drop for Buf {
    fn drop(&mut self) {
        self.made.alive.fetch_sub(1, SeqCst);
        self.made.bytes.fetch_sub(self.bytes, SeqCst);
    }
}
impl AsRef<Rt> for Rt {
    fn as_ref(&self) -> &Rt {
        self
    }
}
impl IsRuntime for Rt {
    type Buffer = Buf;
    type BufferUsages = ();
    fn buffer_create(&self, capacity: usize, label: Option<&str>, _: ()) -> Buf {
        let bytes = 4 * capacity as i64;
        self.0.alive.fetch_add(1, SeqCst);
        self.0.bytes.fetch_add(bytes, SeqCst);
        Buf { id: self.0.next.fetch_add(1, SeqCst), mem: CpuRuntime.buffer_create(capacity, label, ()), bytes, made: self.0.clone() }
    }
    fn buffer_copy(&self, a: &Buf, b: &Buf, label: Option<&str>) {
        CpuRuntime.buffer_copy(&a.mem, &b.mem, label)
    }
    fn buffer_write<U: Iterator<Item = SlabUpdate>>(&self, u: U, b: &Buf) {
        CpuRuntime.buffer_write(u, &b.mem)
    }
    fn buffer_read(&self, b: &Buf, n: usize, r: impl RangeBounds<usize>) -> impl Future<Output = Result<Vec<u32>, SlabAllocatorError>> {
        CpuRuntime.buffer_read(&b.mem, n, r)
    }
}
type Al = SlabAllocator<Rt>;

thread_local! {
    static FUSE: Cell<u32> = const { Cell::new(u32::MAX) };
}
fn burn() {
    let f = FUSE.get();
    if f != u32::MAX {
        FUSE.set(f.wrapping_sub(1));
        if f == 0 {
            std::panic::panic_any(Injected);
        }
    }
}
#[derive(Default)]
struct Bomb([u32; 3]);
impl Clone for Bomb {
    fn clone(&self) -> Self {
        burn();
        Bomb(self.0)
    }
}
impl SlabItem for Bomb {
    const SLAB_SIZE: usize = 3;
    fn read_slab(i: usize, s: &[u32]) -> Self {
        Bomb([s[i], s[i + 1], s[i + 2]])
    }
    fn write_slab(&self, i: usize, s: &mut [u32]) -> usize {
        burn();
        s[i..i + 3].copy_from_slice(&self.0);
        i + 3
    }
}

/// Something that stays for a while.
#[allow(dead_code)]
enum Kept {
    W(Hybrid<u32>),
    V(Hybrid<[u32; 4]>),
    G(Gpu<u64>),
    A(HybridArray<u32>),
    B(GpuArray<[u32; 2]>),
    E(HybridArray<u32>),
    U(Hybrid<[u32; 0]>),
}
const KINDS: usize = 7;
impl Kept {
    fn new(al: &Al, r: &mut Rng, kind: usize, most: bool) -> Kept {
        let n = if most { 9 } else { r.range(1, 9) };
        match kind {
            0 => Kept::W(al.new_value(r.u64() as u32)),
            1 => Kept::V(al.new_value([7; 4])),
            2 => Kept::G(al.new_value(r.u64()).into_gpu_only()),
            3 => Kept::A(al.new_array(vec![1; n])),
            4 => Kept::B(GpuArray::new(al, &vec![[3, 4]; n])),
            5 => Kept::E(al.new_array([])),
            _ => Kept::U(al.new_value([])),
        }
    }
    fn assign(&self, r: &mut Rng) {
        let x = r.u64() as u32;
        match (self, r.below(3)) {
            (Kept::W(h), 0) => h.set(x),
            (Kept::W(h), 1) => h.modify(|v| *v = x),
            (Kept::W(h), _) => *h.lock() = x,
            (Kept::V(h), 0) => h.modify(|v| v[1] = x),
            (Kept::V(h), _) => h.lock()[2] = x,
            (Kept::G(h), _) => h.set(x as u64),
            // the index may be out of range
            (Kept::A(h), 0) => {
                h.set_item(r.below(10), x);
            }
            (Kept::A(h), _) => {
                h.modify(r.below(10), |v| *v = x);
            }
            (Kept::B(h), _) => h.set_item(r.below(10), &[x, 1]),
            (Kept::E(h), _) => {
                h.set_item(0, x);
            }
            (Kept::U(h), _) => h.set([]),
        }
    }
    /// Clones, weak handles and reads.
    fn fuss(&self, r: &mut Rng) {
        match self {
            Kept::W(h) => {
                let (a, w) = (h.clone(), WeakHybrid::from_hybrid(h));
                let u = w.upgrade();
                let g = w.weak_gpu().upgrade();
                if r.chance(1, 2) {
                    drop(a);
                    drop(u);
                    drop(g);
                } else {
                    drop(g);
                    drop(w);
                }
                h.get();
                let _ = *h.lock();
            }
            Kept::V(h) => {
                let g = h.clone().into_gpu_only();
                let w = WeakGpu::from_gpu(&g);
                drop(g);
                w.clone().upgrade();
            }
            Kept::G(h) => {
                let w = WeakGpu::from_gpu(h);
                let _ = h.clone();
                w.upgrade();
            }
            Kept::A(h) | Kept::E(h) => {
                h.clone().into_gpu_only();
                h.get_vec();
                h.get(3);
            }
            Kept::B(h) => {
                let _ = h.clone();
            }
            Kept::U(h) => {
                let _ = h.clone();
            }
        }
    }
}

/// Creating things whose own code panics.
fn failing(al: &Al, r: &mut Rng) {
    FUSE.set(r.below(4) as u32);
    let how = r.below(4);
    let res = guarded(|| match how {
        0 => drop(al.new_value(Bomb([1; 3]))),
        1 => drop(al.new_array([Bomb([1; 3]), Bomb([2; 3])])),
        2 => drop(Gpu::new(al, Bomb([1; 3]))),
        _ => drop(GpuArray::new(al, &[Bomb([1; 3]), Bomb([2; 3])])),
    });
    FUSE.set(u32::MAX);
    // panics of the code under test are judged by other properties
    drop(res);
}

fn held(rt: &Rt) -> i64 {
    BYTES.load(SeqCst) - rt.0.bytes.load(SeqCst)
}

/// What one cycle does at most.
const MOST: usize = 24;

#[allow(clippy::too_many_arguments)]
fn cycle(al: &Al, r: &mut Rng, keep: &mut [Option<Kept>], short: &mut Vec<Kept>, most: bool, panics: bool, bufs: &mut Vec<SlabBuffer<Buf>>) -> u64 {
    let n = if most { MOST } else { r.below(MOST + 1) };
    for k in 0..n {
        match if most { k % 3 } else { r.below(9) } {
            0 | 3 => {
                let kind = r.below(KINDS);
                short.push(Kept::new(al, r, kind, most));
            }
            1 | 4 | 5 => {
                if let Some(Some(x)) = keep.get(r.below(keep.len())) {
                    x.assign(r);
                }
            }
            2 => {
                let i = r.below(keep.len());
                keep[i] = None;
                // the kinds, and so the memory needed, stay the same
                keep[i] = Some(Kept::new(al, r, i % KINDS, true));
            }
            6 => {
                let i = r.below(keep.len());
                keep[i].as_ref().unwrap().fuss(r);
            }
            7 => {
                al.has_queued_updates();
                al.get_updated_source_ids();
                if r.chance(1, 3) {
                    al.clone().defrag();
                }
            }
            _ => {
                if panics && r.chance(1, 4) {
                    failing(al, r);
                }
                if let Some(x) = short.last() {
                    x.assign(r);
                    x.fuss(r);
                }
                match r.below(4) {
                    0 => {
                        if bufs.len() < 3 {
                            bufs.extend(al.get_buffer());
                        }
                    }
                    1 => {
                        bufs.pop();
                    }
                    _ => {
                        if let Some(b) = bufs.last_mut() {
                            b.update_if_invalid();
                            b.synchronize();
                        }
                    }
                }
            }
        }
    }
    if r.chance(1, 2) {
        // dropped after the commit
        al.commit();
        short.clear();
    } else {
        short.clear();
    }
    al.commit();
    // what was dropped since the first of these commits
    al.commit();
    n as u64
}

/// One long history in bounded space.
fn long(ctx: &mut Ctx, id: u64, cycles: usize) {
    let mut r = Rng::new(id);
    let rt = Rt::default();
    let al = Al::new(&rt, ());
    let live = *r.pick(&[1usize, 8, 40, 150]);
    let panics = r.chance(1, 3);
    let mut keep: Vec<Option<Kept>> = (0..live).map(|i| Some(Kept::new(&al, &mut r, i % KINDS, true))).collect();
    let mut short = Vec::with_capacity(MOST + 1);
    let mut bufs = Vec::with_capacity(4);
    let warm = 300;
    let (mut m, mut last, mut ops) = (0, 0, 0);
    for k in 0..warm + cycles {
        PROGRESS.fetch_add(1, Relaxed);
        ops += cycle(&al, &mut r, &mut keep, &mut short, k < warm && k % 2 == 0, panics, &mut bufs);
        if k < warm {
            m = m.max(held(&rt));
        } else if k + warm > cycles {
            last = last.max(held(&rt));
        }
        if k == 0 {
            m = held(&rt);
        }
    }
    let start = ctx_floor();
    let (m, last) = (m - start, last - start);
    ctx.stat("commits of long histories", 2 * (warm + cycles) as u64);
    ctx.stat("operations of long histories", ops);
    ctx.max("most bytes held in a long history", last.max(0) as u64);
    let limit = 2 * m.max(0) + 16384;
    if last > limit {
        ctx.fail(
            "A16",
            "grows",
            format!("with {live} values alive, an allocator holds {last} bytes after {cycles} cycles of {} operations, {m} after {warm} (user code panics: {panics})", ops / (warm + cycles) as u64),
        );
    }
    ctx.eval(Some(mix(id)));
    ctx.sample(|| format!("{live} values alive, {ops} operations in {cycles} cycles: {m} bytes at first, {last} at the end"));
    drop(keep);
    drop(bufs);
}

/// What the harness itself holds, as of the last call of `floor`.
static FLOOR: AtomicI64 = AtomicI64::new(0);
fn ctx_floor() -> i64 {
    FLOOR.load(SeqCst)
}
fn floor() {
    FLOOR.store(BYTES.load(SeqCst), SeqCst);
}

/// Nothing but queries.
fn idle(ctx: &mut Ctx, id: u64) {
    let mut r = Rng::new(id);
    let rt = Rt::default();
    let al = Al::new(&rt, ());
    let vals: Vec<_> = (0..20u32).map(|i| al.new_value(i)).collect();
    let arr = al.new_array(vec![1u32; 9]);
    let pending = r.chance(1, 2);
    if !pending {
        al.commit();
    }
    let mut b = None;
    let mut go = |n: usize| {
        let mut most = 0;
        for k in 0..n {
            PROGRESS.fetch_add(1, Relaxed);
            match r.below(9) {
                0 => {
                    al.get_updated_source_ids();
                }
                1 => {
                    al.has_queued_updates();
                }
                2 => b = al.get_buffer(),
                3 => {
                    if let Some(b) = &mut b {
                        b.update_if_invalid();
                        b.is_new_this_commit();
                        let _c = b.clone();
                    }
                }
                4 => {
                    vals[k % 20].get();
                    let _ = *vals[k % 20].lock();
                }
                5 => {
                    arr.get_vec();
                    arr.get(k % 12);
                }
                6 => al.defrag(),
                7 if !pending => {
                    al.commit();
                }
                _ => {
                    let _a = al.clone();
                }
            }
            most = most.max(held(&rt));
        }
        most
    };
    let (m, last) = (go(500), go(30_000));
    let start = ctx_floor();
    if last - start > 2 * (m - start) + 16384 {
        ctx.fail("A16", "queries", format!("after 30000 queries an allocator of 21 values holds {} bytes, {} after 500 (assignments pending: {pending})", last - start, m - start));
    }
    ctx.stat("histories of queries", 1);
    ctx.eval(Some(mix(id ^ 1)));
}

/// Buffers that are alive, and what's left when all is gone.
fn buffers(id: u64, fails: &mut Vec<(&'static str, String)>, stats: &mut [u64; 3]) -> (i64, u64) {
    let before = BYTES.load(SeqCst);
    let mut h = id;
    {
        let mut r = Rng::new(id);
        let rt = Rt::default();
        let mut als = vec![Al::new(&rt, ())];
        let mut vals: Vec<Kept> = vec![];
        let mut bufs: Vec<SlabBuffer<Buf>> = vec![];
        let mut cur = None;
        for k in 0..r.range(3, 60) {
            PROGRESS.fetch_add(1, Relaxed);
            let op = r.below(12);
            h = mix(h ^ op as u64);
            let i = r.below(als.len());
            let al = &als[i];
            match op {
                0..=2 => {
                    for _ in 0..r.range(1, 12) {
                        let kind = r.below(KINDS);
                        vals.push(Kept::new(al, &mut r, kind, false));
                    }
                }
                3 => {
                    if !vals.is_empty() {
                        let i = r.below(vals.len());
                        vals[i].assign(&mut r);
                    }
                }
                4 => {
                    let n = r.below(vals.len() + 1);
                    vals.truncate(n);
                }
                5 => {
                    let a = al.clone();
                    if als.len() < 3 {
                        als.push(a);
                    }
                }
                6 => failing(al, &mut r),
                7 => {
                    if !bufs.is_empty() {
                        let i = r.below(bufs.len());
                        bufs.swap_remove(i);
                    }
                }
                8 => {
                    let n = bufs.len();
                    if n > 0 {
                        let b = &mut bufs[r.below(n)];
                        let fresh = if r.chance(1, 2) { b.update_if_invalid() } else { b.synchronize() };
                        stats[1] += fresh as u64;
                    }
                }
                9 => {
                    bufs.extend(al.get_buffer());
                }
                _ => {
                    let b = al.commit();
                    cur = Some(b.id);
                    if r.chance(1, 3) {
                        bufs.push(b);
                    }
                }
            }
            let ids: BTreeSet<u64> = bufs.iter().map(|b| b.id).chain(cur).collect();
            let alive = rt.0.alive.load(SeqCst);
            stats[0] += 1;
            stats[2] = stats[2].max(ids.len() as u64);
            if alive != ids.len() as i64 {
                fails.push((
                    if alive > ids.len() as i64 { "buffers-kept" } else { "buffers-gone" },
                    format!("in step {k} {alive} buffers are alive, but {} are current or referred to by a buffer handle", ids.len()),
                ));
                return (0, h);
            }
        }
        // everything goes, in some order
        let mut parts = [0, 1, 2];
        for i in 0..3 {
            parts.swap(i, r.range(i, 2));
        }
        for p in parts {
            match p {
                0 => als.clear(),
                1 => vals.clear(),
                _ => bufs.clear(),
            }
        }
        let alive = rt.0.alive.load(SeqCst);
        if alive != 0 {
            fails.push(("buffers-left", format!("{alive} buffers are alive after the allocator, its values and all buffer handles were dropped")));
        }
    }
    (BYTES.load(SeqCst) - before, h)
}

/// Several threads in bounded space.
fn threads(ctx: &mut Ctx, id: u64, rounds: usize) {
    let mut r = Rng::new(id);
    let rt = Rt::default();
    let al = Al::new(&rt, ());
    let nt = r.range(2, 4);
    let shared: Vec<Mutex<Kept>> = (0..KINDS * 2).map(|i| Mutex::new(Kept::new(&al, &mut r, i % KINDS, true))).collect();
    let warm = 20;
    let (mut m, mut last) = (0, 0);
    for k in 0..warm + rounds {
        let most = k < warm && k % 2 == 0;
        std::thread::scope(|s| {
            for _ in 0..nt {
                let mut r = Rng::new(r.u64());
                let al = al.clone();
                let shared = &shared;
                s.spawn(move || {
                    let mut short = vec![];
                    for j in 0..if most { 60 } else { r.range(20, 60) } {
                        PROGRESS.fetch_add(1, Relaxed);
                        let i = r.below(shared.len());
                        match if most { j % 3 } else { r.below(6) } {
                            0 | 3 => {
                                let kind = r.below(KINDS);
                                short.push(Kept::new(&al, &mut r, kind, most));
                            }
                            1 => shared[i].lock().unwrap().assign(&mut r),
                            2 => {
                                let x = Kept::new(&al, &mut r, i % KINDS, true);
                                *shared[i].lock().unwrap() = x;
                            }
                            4 => {
                                al.commit();
                            }
                            _ => {
                                shared[i].lock().unwrap().fuss(&mut r);
                                let n = r.below(short.len() + 1);
                                short.truncate(n);
                            }
                        }
                    }
                });
            }
        });
        al.commit();
        al.commit();
        if k < warm {
            m = m.max(held(&rt));
        } else if k + warm > rounds {
            last = last.max(held(&rt));
        }
    }
    let start = ctx_floor();
    let (m, last) = (m - start, last - start);
    ctx.stat("rounds of threads", (warm + rounds) as u64);
    if last > 3 * m.max(0) + 65536 {
        ctx.fail("A16", "grows-threads", format!("with {} values alive, an allocator holds {last} bytes after {rounds} rounds of {nt} threads, {m} after {warm}", shared.len()));
    }
    ctx.eval(Some(mix(id ^ 2)));
}

pub fn run(ctx: &mut Ctx) {
    let seed = mix(ctx.seed ^ hash_str("memory"));
    crate::report::logging(false);
    let n = ctx.n(6000, 200_000);
    let long_cycles = if ctx.thorough { 60_000 } else { 25_000 };
    for k in 0..n {
        let id = mix(seed ^ k);
        if !ctx.begin(id) {
            continue;
        }
        ctx.case = "memory held".into();
        floor();
        let res = guarded(|| match k % 400 {
            0 => long(ctx, id, long_cycles),
            1 => idle(ctx, id),
            2 => threads(ctx, id, if ctx.thorough { 2000 } else { 400 }),
            _ => {
                let (mut fails, mut stats) = (Vec::with_capacity(4), [0; 3]);
                let (mut left, mut h) = buffers(id, &mut fails, &mut stats);
                if left > 0 && fails.is_empty() {
                    // something may have been set up once and for all
                    (left, h) = buffers(id, &mut fails, &mut stats);
                }
                ctx.stat("steps after which the buffers were counted", stats[0]);
                ctx.stat("buffer handles refreshed", stats[1]);
                ctx.max("most buffers alive", stats[2]);
                for (s, m) in fails {
                    ctx.fail("A16", s, m);
                }
                if left > 0 {
                    ctx.fail("A16", "left", format!("{left} bytes are left after the allocator, its values and all buffer handles were dropped"));
                }
                ctx.eval(Some(h));
            }
        });
        if let Err(Caught::Panic(m)) = res {
            if crate::report::harness_panic(&m) {
                ctx.errors.push(m);
            } else {
                ctx.fail_any("panic", format!("an operation panicked: {m}"));
            }
            return;
        }
    }
}
