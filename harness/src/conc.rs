//! C01-C06: short multi-threaded histories, recorded and judged afterwards.
use crate::report::{guarded, Caught, Ctx, PROGRESS};
use crate::rng::{hash_str, mix, Rng};
use craballoc::prelude::*;
use crabslab::SlabItem;
use std::cell::Cell;
use std::collections::BTreeMap;
use std::future::Future;
use std::ops::RangeBounds;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Barrier, Mutex};

// ---------------------------------------------------------------------------------------------
// perturbation

thread_local! {
    /// state of the generator of pauses (0: none)
    pub(crate) static PAUSE: Cell<u64> = const { Cell::new(0) };
    pub(crate) static INTENSITY: Cell<u32> = const { Cell::new(0) };
}

/// Maybe let other threads run.
pub(crate) fn pause() {
    let s = PAUSE.get();
    if s == 0 {
        return;
    }
    let s = mix(s) | 1;
    PAUSE.set(s);
    let k = (s >> 8) % 1024;
    if k >= INTENSITY.get() as u64 {
        return;
    }
    match (s >> 20) % 8 {
        0..=3 => std::thread::yield_now(),
        4..=6 => {
            for _ in 0..(s >> 32) % 3000 {
                std::hint::spin_loop();
            }
        }
        _ => nap((s >> 32) % 120),
    }
}

fn nap(us: u64) {
    if cfg!(miri) {
        std::thread::yield_now();
    } else {
        std::thread::sleep(std::time::Duration::from_micros(us));
    }
}

#[cfg(not(miri))]
pub(crate) mod preempt {
    //! Another thread interrupts the workers at arbitrary instructions.
    use super::*;
    extern "C" {
        fn signal(n: i32, h: usize) -> usize;
        fn syscall(n: i64, ...) -> i64;
        fn sched_yield() -> i32;
        fn usleep(us: u32) -> i32;
    }
    const USR1: i32 = 10;
    static TIDS: Mutex<Vec<i64>> = Mutex::new(Vec::new());
    static RATE: AtomicU64 = AtomicU64::new(0);
    static STATE: AtomicU64 = AtomicU64::new(1);
    pub static HITS: AtomicU64 = AtomicU64::new(0);

    extern "C" fn on_signal(_: i32) {
        let s = mix(STATE.fetch_add(1, Relaxed));
        HITS.fetch_add(1, Relaxed);
        // both are async-signal-safe; errno is only looked at after failing calls
        unsafe {
            match s % 4 {
                0 => {
                    for _ in 0..1 + s % 7 {
                        sched_yield();
                    }
                }
                _ => {
                    usleep((s >> 8) as u32 % 150);
                }
            }
        }
    }
    pub fn start(seed: u64) {
        STATE.store(mix(seed), Relaxed);
        unsafe { signal(USR1, on_signal as *const () as usize) };
        std::thread::spawn(move || {
            let pid = unsafe { syscall(39) };
            let mut r = Rng::new(seed);
            let (mut last, mut idle) = (0, 0);
            loop {
                let rate = RATE.load(Relaxed);
                let p = PROGRESS.load(Relaxed);
                idle = if p == last { idle + 1 } else { 0 };
                last = p;
                if rate == 0 || idle > 200 {
                    std::thread::sleep(std::time::Duration::from_micros(if idle > 200 { 20_000 } else { 100 }));
                    continue;
                }
                {
                    let t = TIDS.lock().unwrap();
                    if !t.is_empty() {
                        let tid = *r.pick(&t);
                        unsafe { syscall(234, pid, tid, USR1 as i64) };
                    }
                }
                for _ in 0..r.below(rate as usize) {
                    std::hint::spin_loop();
                }
            }
        });
    }
    pub fn rate(n: u64) {
        RATE.store(n, Relaxed);
    }
    pub struct Reg(i64);
    impl Reg {
        pub fn new() -> Reg {
            let t = unsafe { syscall(186) };
            TIDS.lock().unwrap().push(t);
            Reg(t)
        }
    }
    impl Drop for Reg {
        fn drop(&mut self) {
            TIDS.lock().unwrap().retain(|t| *t != self.0);
        }
    }
}
#[cfg(miri)]
pub(crate) mod preempt {
    use super::*;
    pub static HITS: AtomicU64 = AtomicU64::new(0);
    pub fn start(_: u64) {}
    pub fn rate(_: u64) {}
    pub struct Reg;
    impl Reg {
        pub fn new() -> Reg {
            Reg
        }
    }
}

/// Delays at a few instructions, in the build that is instrumented for it.
#[cfg(vh_delay)]
pub(crate) mod delay {
    extern "C" {
        fn vh_delay_at(seed: u64, one_in: u32);
        fn vh_delays() -> u64;
        fn vh_places() -> u64;
    }
    pub fn at(seed: u64, one_in: u32) {
        unsafe { vh_delay_at(seed, one_in) }
    }
    pub fn stats(ctx: &mut crate::report::Ctx) {
        let (n, m) = unsafe { (vh_delays(), vh_places()) };
        ctx.stat("delays at chosen instructions", n);
        ctx.stat("most instructions delayed at", m);
    }
}
#[cfg(not(vh_delay))]
pub(crate) mod delay {
    pub fn at(_: u64, _: u32) {}
    pub fn stats(_: &mut crate::report::Ctx) {}
}

// ---------------------------------------------------------------------------------------------
// self-describing items

fn code(slot: usize, elem: usize, seq: u32) -> u32 {
    (slot as u32) << 20 | (elem as u32) << 14 | seq & 0x3fff
}
fn decode(c: u32) -> (usize, usize, u32) {
    ((c >> 20) as usize, (c >> 14 & 63) as usize, c & 0x3fff)
}
fn word(c: u32, i: usize) -> u32 {
    if i == 0 {
        c
    } else {
        mix(c as u64 | (i as u64) << 32) as u32
    }
}
pub(crate) fn intact(w: &[u32]) -> bool {
    (1..w.len()).all(|i| w[i] == word(w[0], i))
}

pub struct It<const N: usize> {
    pub(crate) w: [u32; N],
}
impl<const N: usize> It<N> {
    pub(crate) fn new(c: u32) -> Self {
        It {
            w: core::array::from_fn(|i| word(c, i)),
        }
    }
}
impl<const N: usize> Clone for It<N> {
    fn clone(&self) -> Self {
        let mut w = [0; N];
        for i in 0..N {
            w[i] = self.w[i];
            if i == 0 {
                pause();
            }
        }
        It { w }
    }
}
impl<const N: usize> SlabItem for It<N> {
    const SLAB_SIZE: usize = N;
    fn read_slab(index: usize, slab: &[u32]) -> Self {
        It {
            w: core::array::from_fn(|i| slab[index + i]),
        }
    }
    fn write_slab(&self, index: usize, slab: &mut [u32]) -> usize {
        for i in 0..N {
            slab[index + i] = self.w[i];
            if i == 0 {
                pause();
            }
        }
        index + N
    }
}
impl<const N: usize> std::fmt::Debug for It<N> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:x?}", self.w)
    }
}

// ---------------------------------------------------------------------------------------------
// the runtime

pub struct CBuf {
    id: u64,
    cap: usize,
    mem: Mutex<Vec<u32>>,
}

struct Snap {
    lo: u64,
    hi: u64,
    mem: Vec<u32>,
    /// the start of the commit whose result this is, or of one that had returned before
    commit: Option<u64>,
    /// seen through a handle rather than returned by a commit
    look: bool,
}

pub struct CSh {
    clock: Arc<AtomicU64>,
    next: AtomicU64,
    writes: Mutex<Vec<Snap>>,
    bad: Mutex<Vec<(&'static str, String)>>,
    snaps: bool,
    busy: AtomicUsize,
    calls: AtomicU64,
}
#[derive(Clone)]
pub struct CRt(Arc<CSh>);
impl AsRef<CRt> for CRt {
    fn as_ref(&self) -> &CRt {
        self
    }
}
impl CRt {
    fn bad(&self, sig: &'static str, m: String) {
        let mut b = self.0.bad.lock().unwrap();
        if b.len() < 8 {
            b.push((sig, m));
        }
    }
}

impl IsRuntime for CRt {
    type Buffer = CBuf;
    type BufferUsages = ();
    fn buffer_create(&self, cap: usize, _: Option<&str>, _: ()) -> CBuf {
        pause();
        self.0.calls.fetch_add(1, Relaxed);
        if cap > 1 << 24 {
            self.bad("capacity", format!("a buffer of {cap} words was requested"));
        }
        let b = CBuf {
            id: self.0.next.fetch_add(1, SeqCst),
            cap,
            mem: Mutex::new((0..cap as u32).map(|i| 0xF000_0000 | i).collect()),
        };
        pause();
        b
    }
    fn buffer_copy(&self, src: &CBuf, dst: &CBuf, _: Option<&str>) {
        pause();
        self.0.calls.fetch_add(1, Relaxed);
        if src.id == dst.id {
            return;
        }
        {
            let s = src.mem.lock().unwrap().clone();
            pause();
            let mut d = dst.mem.lock().unwrap();
            let n = s.len().min(d.len());
            d[..n].copy_from_slice(&s[..n]);
        }
        pause();
    }
    fn buffer_write<U: Iterator<Item = SlabUpdate>>(&self, us: U, buf: &CBuf) {
        pause();
        self.0.calls.fetch_add(1, Relaxed);
        let lo = self.0.clock.fetch_add(1, SeqCst);
        let us: Vec<SlabUpdate> = us.collect();
        pause();
        if self.0.busy.fetch_add(1, SeqCst) > 0 {
            // not judged: the properties are about what ends up in the buffer
        }
        {
            let mut log = self.0.writes.lock().unwrap();
            let mut m = buf.mem.lock().unwrap();
            for u in us {
                let a = u.array.index as usize;
                if u.array.len as usize != u.elements.len() || a + u.elements.len() > m.len() {
                    self.bad(
                        "bounds",
                        format!("an update of {} words at {a} was written to a buffer of {} words", u.elements.len(), m.len()),
                    );
                    continue;
                }
                m[a..a + u.elements.len()].copy_from_slice(&u.elements);
            }
            if self.0.snaps && log.len() < 300 {
                log.push(Snap {
                    lo,
                    hi: self.0.clock.fetch_add(1, SeqCst),
                    mem: m.clone(),
                    commit: None,
                    look: false,
                });
            }
        }
        self.0.busy.fetch_sub(1, SeqCst);
        pause();
    }
    fn buffer_read(&self, _: &CBuf, _: usize, _: impl RangeBounds<usize>) -> impl Future<Output = Result<Vec<u32>, SlabAllocatorError>> {
        async { unimplemented!("harness: not read this way") }
    }
}

type Al = SlabAllocator<CRt>;

// ---------------------------------------------------------------------------------------------
// what is known about all values

const SLOTS: usize = if cfg!(miri) { 64 } else { 1500 };

#[derive(Default)]
struct Slot {
    al: AtomicU32,
    start: AtomicU32,
    n: AtomicU32,
    esize: AtomicU32,
    /// 0: not created
    made_lo: AtomicU64,
    made_hi: AtomicU64,
    /// the latest start of a drop of one of its handles
    drop_lo: AtomicU64,
    drop_hi: AtomicU64,
    seq: AtomicU32,
    /// assigned from outside of the CPU lock: the order of numbers says nothing
    blind: AtomicBool,
    /// assigned through GPU-only handles
    gpu: AtomicBool,
}
impl Slot {
    fn words(&self) -> usize {
        (self.n.load(SeqCst) * self.esize.load(SeqCst)) as usize
    }
    fn span(&self) -> (usize, usize) {
        let s = self.start.load(SeqCst) as usize;
        (s, s + self.words())
    }
}

struct Env {
    clock: Arc<AtomicU64>,
    als: Vec<Al>,
    /// clones of them for each thread
    clones: Vec<Vec<Al>>,
    slots: Vec<Slot>,
    next_slot: AtomicUsize,
    pool: Vec<Mutex<Option<Box<dyn Hd>>>>,
    /// weak handles for all
    weaks: Vec<Mutex<Option<Box<dyn Hd>>>>,
    newest: Vec<AtomicU64>,
    /// the latest start of a commit that has returned, plus one
    committed: Vec<AtomicU64>,
    /// commits that were called, and that returned
    begun: Vec<AtomicU64>,
    ended: Vec<AtomicU64>,
}
impl Env {
    fn tick(&self) -> u64 {
        self.clock.fetch_add(1, SeqCst)
    }
}

#[derive(Clone, Copy)]
struct Asg {
    code: u32,
    lo: u64,
    hi: u64,
}

/// A thread, or the main one.
struct Th<'a> {
    env: &'a Env,
    als: &'a [Al],
    r: Rng,
    who: usize,
    log: Vec<Asg>,
    obs: Vec<(usize, Snap)>,
    local: Vec<Box<dyn Hd>>,
    perm: Vec<Box<dyn Hd>>,
    weak: Vec<Box<dyn Hd>>,
    bufs: Vec<(usize, SlabBuffer<CBuf>)>,
    fails: Vec<(Vec<&'static str>, &'static str, String)>,
    trace: Vec<(u64, &'static str, usize)>,
    seen: BTreeMap<(usize, usize), u32>,
    panicked: Option<String>,
    stats: BTreeMap<&'static str, u64>,
}
impl Th<'_> {
    fn fail(&mut self, p: &[&'static str], sig: &'static str, msg: String) {
        if self.fails.len() < 5 {
            self.fails.push((p.to_vec(), sig, msg));
        }
    }
    fn stat(&mut self, k: &'static str) {
        *self.stats.entry(k).or_insert(0) += 1;
    }
}

// ---------------------------------------------------------------------------------------------
// handles

trait Hd: Send {
    fn slot(&self) -> usize;
    fn assign(&self, th: &mut Th);
    fn dup(&self) -> Box<dyn Hd>;
    fn weak(&self) -> Vec<Box<dyn Hd>>;
    fn up(&self) -> Option<Box<dyn Hd>>;
    fn check(&self, th: &mut Th);
    fn gpu_only(self: Box<Self>, env: &Env) -> Box<dyn Hd>;
    /// the CPU side, element by element
    fn cpu(&self) -> Option<Vec<Vec<u32>>>;
    fn guarded_commit(&self, th: &mut Th);
    fn strong_count(&self) -> Option<usize>;
    fn notifier(&self) -> Option<usize>;
}

enum K<const N: usize> {
    Hy(Hybrid<It<N>>),
    Gp(Gpu<It<N>>),
    Ar(HybridArray<It<N>>),
    Ga(GpuArray<It<N>>),
    Wh(WeakHybrid<It<N>>),
    Wg(WeakGpu<It<N>>),
}
struct H<const N: usize> {
    slot: usize,
    k: K<N>,
}

fn create<const N: usize>(th: &mut Th, al: usize) -> Option<Box<dyn Hd>> {
    let env = th.env;
    let slot = env.next_slot.fetch_add(1, SeqCst);
    if slot >= SLOTS {
        return None;
    }
    let kind = th.r.below(4);
    let n = if kind < 2 { 1 } else { th.r.range(1, 4) };
    let s = &env.slots[slot];
    let lo = env.tick();
    let a = &th.als[al];
    let mk = |i| It::<N>::new(code(slot, i, 0));
    let (start, k) = match kind {
        0 => {
            let h = a.new_value(mk(0));
            (h.id().inner() as usize, K::Hy(h))
        }
        1 => {
            let h = Gpu::new(a, mk(0));
            (h.id().inner() as usize, K::Gp(h))
        }
        2 => {
            let h = a.new_array((0..n).map(mk));
            (h.array().starting_index(), K::Ar(h))
        }
        _ => {
            let v: Vec<It<N>> = (0..n).map(mk).collect();
            let h = GpuArray::new(a, &v);
            (h.array().starting_index(), K::Ga(h))
        }
    };
    let hi = env.tick();
    s.al.store(al as u32, SeqCst);
    s.start.store(start as u32, SeqCst);
    s.n.store(n as u32, SeqCst);
    s.esize.store(N as u32, SeqCst);
    s.made_lo.store(lo, SeqCst);
    s.made_hi.store(hi, SeqCst);
    s.seq.store(1, SeqCst);
    for i in 0..n {
        th.log.push(Asg {
            code: code(slot, i, 0),
            lo,
            hi,
        });
    }
    th.stat("things created");
    Some(Box::new(H { slot, k }))
}

impl<const N: usize> H<N> {
    fn next(&self, env: &Env) -> u32 {
        env.slots[self.slot].seq.fetch_add(1, SeqCst)
    }
    fn boxed(&self, k: K<N>) -> Box<dyn Hd> {
        Box::new(H { slot: self.slot, k })
    }
    fn value(&self, th: &mut Th, w: &[u32], elem: usize) {
        let (s, e, q) = decode(w[0]);
        if s != self.slot || e != elem || !intact(w) {
            th.fail(&["C03", "C01"], "cpu-torn", format!("reading element {elem} of #{} gave {w:x?}", self.slot));
            return;
        }
        if !th.env.slots[self.slot].blind.load(SeqCst) {
            let p = th.seen.entry((self.slot, elem)).or_insert(q);
            if *p > q {
                let m = format!("reading element {elem} of #{} gave assignment {q} after {p}", self.slot);
                th.fail(&["C01", "C03"], "cpu-back", m);
                return;
            }
            *p = q;
        }
        th.stat("values read");
    }
}

impl<const N: usize> Hd for H<N> {
    fn slot(&self) -> usize {
        self.slot
    }
    fn assign(&self, th: &mut Th) {
        let env = th.env;
        let s = &env.slots[self.slot];
        let lo = env.tick();
        // some values are only assigned in a known order
        let route = if self.slot % 3 == 2 { th.r.below(4) } else { th.r.range(1, 3) };
        let n = s.n.load(SeqCst) as usize;
        let i = th.r.below(n);
        let c = match &self.k {
            K::Hy(h) => match route {
                0 => {
                    s.blind.store(true, SeqCst);
                    let c = code(self.slot, 0, self.next(env));
                    h.set(It::new(c));
                    c
                }
                1 => {
                    let mut g = h.lock();
                    pause();
                    let c = code(self.slot, 0, self.next(env));
                    *g = It::new(c);
                    pause();
                    drop(g);
                    c
                }
                _ => h.modify(|v| {
                    pause();
                    let c = code(self.slot, 0, self.next(env));
                    *v = It::new(c);
                    c
                }),
            },
            K::Gp(g) => {
                s.blind.store(true, SeqCst);
                s.gpu.store(true, SeqCst);
                let c = code(self.slot, 0, self.next(env));
                g.set(It::new(c));
                c
            }
            K::Ar(h) => {
                if route == 0 {
                    s.blind.store(true, SeqCst);
                    let c = code(self.slot, i, self.next(env));
                    if h.set_item(i, It::new(c)).is_none() {
                        th.fail(&["C01"], "set-item", format!("element {i} of #{} couldn't be assigned", self.slot));
                    }
                    c
                } else {
                    let c = h.modify(i, |v| {
                        pause();
                        let c = code(self.slot, i, self.next(env));
                        *v = It::new(c);
                        c
                    });
                    match c {
                        Some(c) => c,
                        None => {
                            th.fail(&["C01"], "modify-item", format!("element {i} of #{} couldn't be modified", self.slot));
                            return;
                        }
                    }
                }
            }
            K::Ga(g) => {
                s.blind.store(true, SeqCst);
                s.gpu.store(true, SeqCst);
                let c = code(self.slot, i, self.next(env));
                g.set_item(i, &It::new(c));
                c
            }
            _ => return,
        };
        let hi = env.tick();
        th.log.push(Asg { code: c, lo, hi });
        th.stat("assignments");
    }
    fn dup(&self) -> Box<dyn Hd> {
        self.boxed(match &self.k {
            K::Hy(h) => K::Hy(h.clone()),
            K::Gp(h) => K::Gp(h.clone()),
            K::Ar(h) => K::Ar(h.clone()),
            K::Ga(h) => K::Ga(h.clone()),
            K::Wh(h) => K::Wh(h.clone()),
            K::Wg(h) => K::Wg(h.clone()),
        })
    }
    fn weak(&self) -> Vec<Box<dyn Hd>> {
        match &self.k {
            K::Hy(h) => {
                let w = WeakHybrid::from_hybrid(h);
                vec![self.boxed(K::Wg(w.weak_gpu().clone())), self.boxed(K::Wh(w))]
            }
            K::Gp(h) => vec![self.boxed(K::Wg(WeakGpu::from_gpu(h)))],
            _ => vec![],
        }
    }
    fn up(&self) -> Option<Box<dyn Hd>> {
        match &self.k {
            K::Wh(w) => w.upgrade().map(|h| self.boxed(K::Hy(h))),
            K::Wg(w) => w.upgrade().map(|h| self.boxed(K::Gp(h))),
            _ => None,
        }
    }
    fn check(&self, th: &mut Th) {
        match &self.k {
            K::Hy(h) => {
                if th.r.chance(1, 8) {
                    let _ = format!("{h:?}");
                }
                if h.ref_count() == 0 {
                    th.fail(&["C04"], "ref_count", format!("#{} has no strong handle though this is one", self.slot));
                }
                let v = h.get();
                self.value(th, &v.w, 0);
            }
            K::Ar(h) => {
                if th.r.chance(1, 8) {
                    let _ = format!("{h:?}");
                }
                if th.r.chance(1, 2) {
                    let v = h.get_vec();
                    for (i, x) in v.iter().enumerate() {
                        self.value(th, &x.w, i);
                    }
                } else {
                    let i = th.r.below(h.len());
                    match h.get(i) {
                        Some(x) => self.value(th, &x.w, i),
                        None => th.fail(&["C01"], "get-item", format!("element {i} of #{} isn't there", self.slot)),
                    }
                }
            }
            _ => {}
        }
    }
    fn gpu_only(self: Box<Self>, env: &Env) -> Box<dyn Hd> {
        let slot = self.slot;
        env.slots[slot].gpu.store(true, SeqCst);
        env.slots[slot].blind.store(true, SeqCst);
        let k = match self.k {
            K::Hy(h) => K::Gp(h.into_gpu_only()),
            K::Ar(h) => K::Ga(h.into_gpu_only()),
            k => k,
        };
        Box::new(H { slot, k })
    }
    fn cpu(&self) -> Option<Vec<Vec<u32>>> {
        match &self.k {
            K::Hy(h) => Some(vec![h.get().w.to_vec()]),
            K::Ar(h) => Some(h.get_vec().iter().map(|x| x.w.to_vec()).collect()),
            _ => None,
        }
    }
    fn guarded_commit(&self, th: &mut Th) {
        let env = th.env;
        if let K::Hy(h) = &self.k {
            let lo = env.tick();
            let mut g = h.lock();
            commit(th);
            if th.r.chance(1, 2) {
                let al = th.r.below(env.als.len());
                if let Some(x) = create::<2>(th, al) {
                    drop_handle(env, x);
                }
            }
            let c = code(self.slot, 0, self.next(env));
            *g = It::new(c);
            drop(g);
            let hi = env.tick();
            th.log.push(Asg { code: c, lo, hi });
            th.stat("commits while holding a guard");
        }
    }
    fn strong_count(&self) -> Option<usize> {
        match &self.k {
            K::Wh(w) => Some(w.strong_count()),
            _ => None,
        }
    }
    fn notifier(&self) -> Option<usize> {
        match &self.k {
            K::Hy(h) => Some(h.notifier_index()),
            K::Gp(h) => Some(h.notifier_index()),
            K::Ar(h) => Some(h.notifier_index()),
            K::Ga(h) => Some(h.notifier_index()),
            _ => None,
        }
    }
}

fn drop_handle(env: &Env, h: Box<dyn Hd>) {
    let s = &env.slots[h.slot()];
    s.drop_lo.fetch_max(env.tick(), SeqCst);
    drop(h);
    s.drop_hi.fetch_max(env.tick(), SeqCst);
}

/// What is assigned is reported as pending until a commit begins.
fn status(th: &mut Th, h: &dyn Hd) {
    let env = th.env;
    let al = env.slots[h.slot()].al.load(SeqCst) as usize;
    let Some(k) = h.notifier() else { return };
    // no commit under way
    let e = env.ended[al].load(SeqCst);
    let b = env.begun[al].load(SeqCst);
    h.assign(th);
    for _ in 0..th.r.range(1, 4) {
        let (what, ok) = match th.r.below(3) {
            0 => ("has_queued_updates gave false", th.als[al].has_queued_updates()),
            1 => ("has_queued_updates of a clone gave false", th.als[al].clone().has_queued_updates()),
            _ => ("get_updated_source_ids lacks its identifier", th.als[al].get_updated_source_ids().contains(&k)),
        };
        if b != e || env.begun[al].load(SeqCst) != b {
            th.stat("status asked during commits");
            return;
        }
        if !ok {
            th.fail(&["A09"], "status-concurrent", format!("{what} after assigning to #{} although no commit had begun", h.slot()));
        }
        th.stat("pending assignments seen as such");
    }
}

fn commit(th: &mut Th) {
    let env = th.env;
    let al = th.r.below(env.als.len());
    let before = env.newest[al].load(SeqCst);
    let cs = env.tick();
    env.begun[al].fetch_add(1, SeqCst);
    let b = th.als[al].commit();
    env.ended[al].fetch_add(1, SeqCst);
    let lo = env.tick();
    let mem = b.mem.lock().unwrap().clone();
    let hi = env.tick();
    if b.id + 1 < before {
        th.fail(&["C05"], "commit-old", format!("a commit returned buffer {} after another one returned {}", b.id, before - 1));
    }
    env.newest[al].fetch_max(b.id + 1, SeqCst);
    env.committed[al].fetch_max(cs + 1, SeqCst);
    th.obs.push((
        al,
        Snap {
            lo,
            hi,
            mem,
            commit: Some(cs),
            look: false,
        },
    ));
    if th.bufs.len() < 3 {
        th.bufs.push((al, b));
    }
    th.stat("commits");
}

/// What's seen through a handle got or refreshed after a commit started at `cs - 1` had returned.
fn look_through(th: &mut Th, al: usize, b: &SlabBuffer<CBuf>, cs: u64) {
    if cs == 0 || th.obs.len() > 400 || b.cap > 40_000 {
        return;
    }
    let lo = th.env.tick();
    let mem = b.mem.lock().unwrap().clone();
    let hi = th.env.tick();
    th.obs.push((
        al,
        Snap {
            lo,
            hi,
            mem,
            commit: Some(cs - 1),
            look: true,
        },
    ));
    th.stat("contents seen through handles");
}

fn buffers(th: &mut Th) {
    let env = th.env;
    let al = th.r.below(env.als.len());
    match th.r.below(4) {
        0 => {
            let before = env.newest[al].load(SeqCst);
            let cs = env.committed[al].load(SeqCst);
            let b = th.als[al].get_buffer();
            match b {
                None if before > 0 => th.fail(&["C05"], "lost", format!("the allocator has no buffer after a commit returned {}", before - 1)),
                None => {}
                Some(b) => {
                    if b.id + 1 < before {
                        th.fail(
                            &["C05"],
                            "get-old",
                            format!("get_buffer returned buffer {} after a commit returned {}", b.id, before - 1),
                        );
                    }
                    look_through(th, al, &b, cs);
                    if th.bufs.len() < 3 {
                        th.bufs.push((al, b));
                    }
                }
            }
        }
        1 if !th.bufs.is_empty() => {
            let k = th.r.below(th.bufs.len());
            if th.bufs.len() < 3 {
                let c = (th.bufs[k].0, th.bufs[k].1.clone());
                th.bufs.push(c);
            } else {
                th.bufs.swap_remove(k);
            }
        }
        _ if !th.bufs.is_empty() => {
            let k = th.r.below(th.bufs.len());
            let (al, mut b) = th.bufs.swap_remove(k);
            let before = env.newest[al].load(SeqCst);
            let cs = env.committed[al].load(SeqCst);
            let (old, old_t) = (b.id, b.creation_time());
            let up = b.update_if_invalid();
            if b.id + 1 < before {
                th.fail(
                    &["C05"],
                    "refresh-old",
                    format!("refreshing a handle of buffer {old} gave {} ({up}) after a commit returned {}", b.id, before - 1),
                );
            }
            if b.id < old || b.creation_time() < old_t {
                th.fail(&["C05"], "moved-back", format!("refreshing a handle of buffer {old} gave the older {}", b.id));
            }
            if !up && b.id != old {
                th.fail(&["C05"], "silent", format!("refreshing a handle of buffer {old} gave {} but said it didn't", b.id));
            }
            look_through(th, al, &b, cs);
            th.bufs.push((al, b));
            th.stat(if up { "handles refreshed to another buffer" } else { "handles that were current" });
        }
        _ => {}
    }
}

#[derive(Clone, Copy)]
struct Prof {
    name: &'static str,
    /// weights: create, assign, commit, drop, hand over, weak, read, status, buffers, guard
    w: [u32; 10],
    perm: usize,
    local: usize,
    one_size: bool,
}
const ASSIGN: Prof = Prof {
    name: "assign",
    w: [1, 12, 5, 1, 1, 1, 3, 1, 1, 1],
    perm: 3,
    local: 2,
    one_size: false,
};
const DUEL: Prof = Prof {
    name: "duel",
    w: [0, 20, 3, 0, 0, 0, 2, 0, 0, 0],
    perm: 2,
    local: 2,
    one_size: false,
};
const GROW: Prof = Prof {
    name: "grow",
    w: [12, 3, 4, 1, 0, 0, 0, 1, 4, 0],
    perm: 1,
    local: 200,
    one_size: false,
};
const CHURN: Prof = Prof {
    name: "churn",
    w: [8, 2, 5, 8, 5, 5, 1, 1, 1, 0],
    perm: 1,
    local: 5,
    one_size: true,
};
const WEAK: Prof = Prof {
    name: "weak",
    w: [6, 2, 4, 4, 2, 14, 1, 0, 0, 0],
    perm: 1,
    local: 5,
    one_size: true,
};
const STATUS: Prof = Prof {
    name: "status",
    w: [1, 3, 2, 1, 0, 0, 1, 14, 0, 0],
    perm: 2,
    local: 4,
    one_size: true,
};
const BUFFERS: Prof = Prof {
    name: "buffers",
    w: [7, 0, 6, 1, 0, 0, 0, 0, 12, 0],
    perm: 0,
    local: 200,
    one_size: false,
};
const ALL: Prof = Prof {
    name: "everything",
    w: [4, 5, 4, 4, 3, 3, 3, 4, 3, 2],
    perm: 2,
    local: 6,
    one_size: false,
};

fn pick(r: &mut Rng, w: &[u32]) -> usize {
    let mut k = r.below(w.iter().sum::<u32>() as usize) as u32;
    for (i, x) in w.iter().enumerate() {
        if k < *x {
            return i;
        }
        k -= x;
    }
    0
}

fn create_any(th: &mut Th, p: &Prof) {
    let al = th.r.below(th.env.als.len());
    let k = if p.one_size { th.r.below(3) } else { th.r.below(8) };
    let h = match k {
        0 => create::<2>(th, al),
        1 => create::<2>(th, al),
        2 => create::<1>(th, al),
        3 => create::<1>(th, al),
        4 => create::<3>(th, al),
        5 => create::<5>(th, al),
        6 => create::<16>(th, al),
        _ => create::<4>(th, al),
    };
    if let Some(h) = h {
        th.local.push(h);
    }
}

const OPS: [&str; 10] = ["create", "assign", "commit", "drop", "hand-over", "weak", "read", "status", "buffer", "guard"];

fn step(th: &mut Th, p: &Prof) {
    PROGRESS.fetch_add(1, Relaxed);
    let env = th.env;
    let op = pick(&mut th.r, &p.w);
    let t = env.tick();
    th.trace.push((t, OPS[op], th.local.len()));
    let any = |th: &mut Th| -> Option<(bool, usize)> {
        let n = th.local.len() + th.perm.len();
        if n == 0 {
            return None;
        }
        let k = th.r.below(n);
        Some(if k < th.perm.len() { (true, k) } else { (false, k - th.perm.len()) })
    };
    match op {
        0 => {
            if th.local.len() < p.local {
                create_any(th, p);
            } else {
                let k = th.r.below(th.local.len());
                let h = th.local.swap_remove(k);
                drop_handle(env, h);
            }
        }
        1 | 6 | 9 => {
            let Some((perm, k)) = any(th) else { return };
            let v = if perm { &mut th.perm } else { &mut th.local };
            // out of the list meanwhile
            let h = v.swap_remove(k);
            match op {
                1 => h.assign(th),
                6 => h.check(th),
                _ => h.guarded_commit(th),
            }
            let v = if perm { &mut th.perm } else { &mut th.local };
            v.push(h);
        }
        2 => commit(th),
        3 => {
            if !th.local.is_empty() {
                let k = th.r.below(th.local.len());
                let h = th.local.swap_remove(k);
                drop_handle(env, h);
            }
        }
        4 => {
            let k = th.r.below(env.pool.len());
            if th.local.is_empty() || th.r.chance(1, 2) {
                let got = env.pool[k].lock().unwrap().take();
                th.local.extend(got);
            } else {
                let i = th.r.below(th.local.len());
                let mut h = if th.r.chance(1, 2) { th.local[i].dup() } else { th.local.swap_remove(i) };
                if th.r.chance(1, 8) {
                    h = h.gpu_only(env);
                }
                let old = env.pool[k].lock().unwrap().replace(h);
                if let Some(h) = old {
                    drop_handle(env, h);
                }
            }
        }
        5 => match th.r.below(3) {
            0 => {
                let Some((perm, k)) = any(th) else { return };
                let ws = if perm { th.perm[k].weak() } else { th.local[k].weak() };
                th.weak.extend(ws);
            }
            1 => {
                if th.local.len() < p.local && !th.local.is_empty() {
                    let k = th.r.below(th.local.len());
                    let h = th.local[k].dup();
                    th.local.push(h);
                }
            }
            _ => {
                let cell = &env.weaks[th.r.below(env.weaks.len())];
                if th.r.chance(1, 3) && !th.local.is_empty() {
                    // publish a weak handle, and maybe drop the strong one while others look at it
                    let k = th.r.below(th.local.len());
                    let mut ws = th.local[k].weak();
                    if ws.is_empty() {
                        return;
                    }
                    let w = ws.swap_remove(th.r.below(ws.len()));
                    let old = cell.lock().unwrap().replace(w);
                    drop(old);
                    if th.r.chance(2, 3) {
                        let h = th.local.swap_remove(k);
                        for _ in 0..th.r.below(2000) {
                            std::hint::spin_loop();
                        }
                        drop_handle(env, h);
                    }
                    return;
                }
                let shared = if th.r.chance(2, 3) {
                    let g = cell.lock().unwrap();
                    g.as_ref().map(|w| w.dup())
                } else {
                    None
                };
                let w = match shared {
                    Some(w) => w,
                    None if th.weak.is_empty() => return,
                    None => {
                        let k = th.r.below(th.weak.len());
                        th.weak[k].dup()
                    }
                };
                let slot = w.slot();
                let have = th.perm.iter().chain(&th.local).any(|h| h.slot() == slot && h.cpu().is_some());
                let up = w.up();
                if up.is_none() && have {
                    th.fail(&["C04"], "upgrade", format!("a weak handle of #{slot} couldn't be upgraded with a strong one around"));
                }
                if w.strong_count() == Some(0) && up.is_some() {
                    th.fail(&["C04"], "strong_count", format!("#{slot} has no strong handle though there is one"));
                }
                th.stat(if up.is_some() { "upgrades" } else { "upgrades refused" });
                th.local.extend(up);
            }
        },
        7 if th.r.chance(3, 4) => {
            let Some((perm, k)) = any(th) else { return };
            let v = if perm { &mut th.perm } else { &mut th.local };
            let h = v.swap_remove(k);
            status(th, &*h);
            let v = if perm { &mut th.perm } else { &mut th.local };
            v.push(h);
        }
        7 => {
            let al = &th.als[th.r.below(env.als.len())];
            match th.r.below(4) {
                0 => {
                    let _ = al.has_queued_updates();
                }
                1 => {
                    let _ = al.get_updated_source_ids();
                }
                2 => al.defrag(),
                _ => {
                    let c = al.clone();
                    let _ = c.has_queued_updates();
                    drop(c);
                }
            }
        }
        _ => buffers(th),
    }
}

// ---------------------------------------------------------------------------------------------
// judging

struct Hist {
    /// assignments of each (slot, element), by number
    by: BTreeMap<(usize, usize), BTreeMap<u32, (u64, u64)>>,
}
impl Hist {
    /// Is `a` certainly superseded by an assignment that ended before `t`?
    fn superseded(&self, s: &Slot, key: (usize, usize), a: u32, t: u64) -> Option<u32> {
        let m = &self.by[&key];
        let (_, ahi) = m[&a];
        let ordered = !s.blind.load(SeqCst);
        m.iter()
            .find(|(q, (lo, hi))| **q != a && *hi < t && (*lo > ahi || ordered && **q > a))
            .map(|x| *x.0)
    }
    /// Was `b` certainly assigned before `a`?
    fn before(&self, s: &Slot, key: (usize, usize), b: u32, a: u32) -> bool {
        let m = &self.by[&key];
        a != b && (m[&b].1 < m[&a].0 || !s.blind.load(SeqCst) && b < a)
    }
}

enum Found {
    Good(u32),
    Torn(String),
    Other(String),
}

fn look(h: &Hist, slot: usize, s: &Slot, elem: usize, mem: &[u32]) -> Found {
    let es = s.esize.load(SeqCst) as usize;
    let a = s.start.load(SeqCst) as usize + elem * es;
    if a + es > mem.len() {
        return Found::Other(format!("lies beyond the buffer of {} words", mem.len()));
    }
    let w = &mem[a..a + es];
    let (cs, ce, q) = decode(w[0]);
    if cs == slot && ce == elem && h.by.get(&(slot, elem)).map_or(false, |m| m.contains_key(&q)) {
        if intact(w) {
            return Found::Good(q);
        }
        return Found::Torn(format!("is a mixture: {w:x?}"));
    }
    // was some other part of it assigned?
    for i in 1..es {
        if let Some(m) = h.by.get(&(slot, elem)) {
            if m.keys().any(|q| w[i] == word(code(slot, elem, *q), i)) {
                return Found::Torn(format!("is a mixture: {w:x?}"));
            }
        }
    }
    Found::Other(format!("is {w:x?}"))
}

fn judge(ctx: &mut Ctx, env: &Env, h: &Hist, al: usize, writes: &[Snap], commits: &[Vec<&Snap>], hist: &dyn Fn() -> String) {
    let made = env.next_slot.load(SeqCst).min(SLOTS);
    // what a commit's result must contain
    for th in commits {
        let mut last: BTreeMap<(usize, usize), u32> = BTreeMap::new();
        for sn in th {
            let cs = sn.commit.unwrap();
            let (c1, c3, seen) = if sn.look { ("C05", "C05", "seen through a handle got or refreshed after a commit") } else { ("C01", "C03", "in the buffer after a commit") };
            for slot in 0..made {
                let s = &env.slots[slot];
                let (lo, hi) = (s.made_hi.load(SeqCst), s.drop_lo.load(SeqCst));
                // alive all the while
                if s.al.load(SeqCst) as usize != al || lo == 0 || lo >= cs || alive_until(env, slot, hi) <= sn.hi {
                    continue;
                }
                for e in 0..s.n.load(SeqCst) as usize {
                    ctx.stat("committed items judged", 1);
                    match look(h, slot, s, e, &sn.mem) {
                        Found::Good(q) => {
                            if let Some(b) = h.superseded(s, (slot, e), q, cs) {
                                ctx.fail(
                                    c1,
                                    "stale",
                                    format!("assignment {q} of element {e} of #{slot} is {seen} started at {cs}, though {b} had completed; {}", hist()),
                                );
                                return;
                            }
                            if let Some(p) = last.insert((slot, e), q) {
                                if h.before(s, (slot, e), q, p) {
                                    ctx.fail(
                                        c3,
                                        "back",
                                        format!("element {e} of #{slot} went back from assignment {p} to {q} between two looks of one thread; {}", hist()),
                                    );
                                    return;
                                }
                            }
                        }
                        Found::Torn(m) => {
                            for p in [c1, c3] {
                                ctx.fail(p, "torn", format!("element {e} of #{slot} {m} {seen}; {}", hist()));
                            }
                            return;
                        }
                        Found::Other(m) => {
                            let p = if m.contains("beyond") && !sn.look { vec!["C01", "C02"] } else { vec![c1] };
                            for p in p {
                                ctx.fail(p, "absent", format!("element {e} of #{slot} {m} {seen} that started after it was created; {}", hist()));
                            }
                            return;
                        }
                    }
                }
            }
        }
    }
    // how the contents develop
    let mut last: BTreeMap<(usize, usize), u32> = BTreeMap::new();
    for sn in writes {
        for slot in 0..made {
            let s = &env.slots[slot];
            let (lo, hi) = (s.made_hi.load(SeqCst), s.drop_lo.load(SeqCst));
            if s.al.load(SeqCst) as usize != al || lo == 0 || lo > sn.lo || alive_until(env, slot, hi) <= sn.hi {
                continue;
            }
            for e in 0..s.n.load(SeqCst) as usize {
                match look(h, slot, s, e, &sn.mem) {
                    Found::Good(q) => {
                        ctx.stat("committed versions judged", 1);
                        if let Some(p) = last.insert((slot, e), q) {
                            if h.before(s, (slot, e), q, p) {
                                ctx.fail(
                                    "C03",
                                    "back",
                                    format!("element {e} of #{slot} went back from assignment {p} to {q} in the buffer; {}", hist()),
                                );
                                return;
                            }
                        }
                    }
                    Found::Torn(m) => {
                        ctx.fail("C03", "torn", format!("element {e} of #{slot} {m} in the buffer; {}", hist()));
                        return;
                    }
                    Found::Other(m) => {
                        if last.contains_key(&(slot, e)) && !m.contains("beyond") {
                            ctx.fail("C03", "vanished", format!("element {e} of #{slot} {m}, though it had been committed before; {}", hist()));
                            return;
                        }
                    }
                }
            }
        }
    }
}

/// Until when it certainly was alive.
fn alive_until(env: &Env, slot: usize, drop_lo: u64) -> u64 {
    if env.slots[slot].al.load(SeqCst) & 0 != 0 {
        return 0;
    }
    // a handle that is still around was never dropped, or dropped (a clone of it) earlier
    if LIVE.with(|l| l.borrow().contains(&slot)) {
        u64::MAX
    } else {
        drop_lo
    }
}
thread_local! {
    static LIVE: std::cell::RefCell<std::collections::BTreeSet<usize>> = const { std::cell::RefCell::new(std::collections::BTreeSet::new()) };
}

fn scenario(ctx: &mut Ctx, id: u64, p: &Prof) {
    let mut r = Rng::new(id);
    let miri = cfg!(miri);
    let nth = if miri { r.range(2, 3) } else { *r.pick(&[2, 2, 3, 3, 4, 4, 6, 8]) };
    let nops = if miri { r.range(2, 6) } else { *r.pick(&[4, 8, 16, 30, 60]) };
    let nal = if p.name == "everything" && r.chance(1, 2) { 2 } else { 1 };
    let intensity = *r.pick(&[0, 60, 200, 500]);
    let rate = *r.pick(&[0, 300, 2000, 10_000]);
    let one_in: Vec<u32> = (0..nth).map(|_| *r.pick(&[0, 0, 40, 120, 400, 1000])).collect();
    let clock = Arc::new(AtomicU64::new(1));
    let rts: Vec<CRt> = (0..nal)
        .map(|_| {
            CRt(Arc::new(CSh {
                clock: clock.clone(),
                next: AtomicU64::new(0),
                writes: Mutex::new(vec![]),
                bad: Mutex::new(vec![]),
                snaps: ctx.own("C03"),
                busy: AtomicUsize::new(0),
                calls: AtomicU64::new(0),
            }))
        })
        .collect();
    let als: Vec<Al> = rts.iter().map(|rt| Al::new(rt, ())).collect();
    // half of the time some threads use clones of the allocators
    let cloning = r.chance(1, 2);
    let clones: Vec<Vec<Al>> = (0..if cloning { nth } else { 0 })
        .map(|_| if r.chance(2, 3) { als.clone() } else { vec![] })
        .collect();
    let env = Env {
        clock,
        als,
        clones,
        slots: (0..SLOTS).map(|_| Slot::default()).collect(),
        next_slot: AtomicUsize::new(0),
        pool: (0..2).map(|_| Mutex::new(None)).collect(),
        weaks: (0..2).map(|_| Mutex::new(None)).collect(),
        newest: (0..nal).map(|_| AtomicU64::new(0)).collect(),
        committed: (0..nal).map(|_| AtomicU64::new(0)).collect(),
        begun: (0..nal).map(|_| AtomicU64::new(0)).collect(),
        ended: (0..nal).map(|_| AtomicU64::new(0)).collect(),
    };
    let th0 = |who: usize, r: Rng| Th {
        env: &env,
        als: env.clones.get(who).filter(|c| !c.is_empty()).unwrap_or(&env.als),
        r,
        who,
        log: vec![],
        obs: vec![],
        local: vec![],
        perm: vec![],
        weak: vec![],
        bufs: vec![],
        fails: vec![],
        trace: vec![],
        seen: BTreeMap::new(),
        panicked: None,
        stats: BTreeMap::new(),
    };
    let mut main = th0(usize::MAX, Rng::new(r.u64()));
    let setup = guarded(|| {
        for _ in 0..p.perm {
            create_any(&mut main, p);
        }
        if r.chance(1, 2) {
            // some space to recycle, and a buffer
            for _ in 0..r.below(if miri { 3 } else { 6 }) {
                create_any(&mut main, p);
            }
            commit(&mut main);
            while main.local.len() > p.perm {
                let h = main.local.pop().unwrap();
                drop_handle(&env, h);
            }
            if r.chance(1, 2) {
                commit(&mut main);
            }
        }
    });
    if let Err(c) = setup {
        let Caught::Panic(m) = c else { return };
        ctx.fail_any("panic:setup", format!("before any thread was started: {m}"));
        return;
    }
    main.perm = std::mem::take(&mut main.local);
    let barrier = Barrier::new(nth);
    preempt::rate(rate);
    let mut ths: Vec<Th> = (0..nth)
        .map(|i| {
            let mut t = th0(i, Rng::new(r.u64()));
            t.perm = main.perm.iter().map(|h| h.dup()).collect();
            t.bufs = main.bufs.iter().map(|(a, b)| (*a, b.clone())).take(1).collect();
            t
        })
        .collect();
    std::thread::scope(|sc| {
        for th in ths.iter_mut() {
            let (barrier, p) = (&barrier, *p);
            let one_in = &one_in;
            sc.spawn(move || {
                let reg = preempt::Reg::new();
                PAUSE.set(mix(id ^ th.who as u64) | 1);
                INTENSITY.set(intensity);
                barrier.wait();
                delay::at(mix(id ^ (th.who as u64) << 32) | 1, one_in[th.who % one_in.len()]);
                let res = guarded(|| {
                    for _ in 0..nops {
                        step(th, &p);
                    }
                    // give some away
                    while th.local.len() > 3 {
                        let h = th.local.pop().unwrap();
                        drop_handle(th.env, h);
                    }
                });
                if let Err(Caught::Panic(m)) = res {
                    th.panicked = Some(m);
                }
                delay::at(1, 0);
                PAUSE.set(0);
                drop(reg);
            });
        }
    });
    preempt::rate(0);
    PROGRESS.fetch_add(1, Relaxed);
    // ---- all threads are done
    let mut order: Vec<(u64, usize, &'static str, usize)> = vec![];
    for t in &ths {
        order.extend(t.trace.iter().map(|x| (x.0, t.who, x.1, x.2)));
    }
    order.sort_unstable();
    let mut sig = hash_str(p.name);
    for x in &order {
        sig = mix(sig ^ (x.1 as u64) << 8 ^ x.2.len() as u64 ^ (x.2.as_bytes()[0] as u64) << 16);
    }
    let hist = || {
        let v: Vec<String> = order.iter().map(|(_, w, o, _)| format!("{w}:{o}")).collect();
        let mut s = v.join(" ");
        s.truncate(900);
        format!("{} ({nth} threads): {s}", p.name)
    };
    for t in &ths {
        for (k, v) in &t.stats {
            ctx.stat(k, *v);
        }
    }
    ctx.stat("operations", order.len() as u64);
    for rt in &rts {
        ctx.stat("runtime calls", rt.0.calls.load(SeqCst));
        for (sig, m) in rt.0.bad.lock().unwrap().iter() {
            ctx.fail("C02", sig, format!("{m}; {}", hist()));
            ctx.fail("C06", sig, format!("{m}; {}", hist()));
        }
    }
    for t in &mut ths {
        if let Some(m) = &t.panicked {
            if crate::report::harness_panic(m) {
                ctx.errors.push(m.clone());
            } else {
                ctx.fail_any("panic", format!("an operation panicked: {m}; {}", hist()));
            }
        }
        for (ps, sig, m) in std::mem::take(&mut t.fails) {
            for p in ps {
                ctx.fail(p, sig, format!("{m}; {}", hist()));
            }
        }
    }
    if ctx.bad() || !ctx.errors.is_empty() {
        // what's left may be poisoned
        std::mem::forget((main.perm, main.bufs));
        return;
    }
    let res = guarded(|| quiescent(ctx, &env, &rts, &mut main, &mut ths, &hist, miri));
    if let Err(Caught::Panic(m)) = res {
        if crate::report::harness_panic(&m) {
            ctx.errors.push(m);
        } else {
            ctx.fail_any("panic-after", format!("after the threads had ended: {m}; {}", hist()));
        }
    }
    ctx.eval(Some(sig));
    ctx.sample(|| hist());
}

fn quiescent(ctx: &mut Ctx, env: &Env, rts: &[CRt], main: &mut Th, ths: &mut [Th], hist: &dyn Fn() -> String, miri: bool) {
    let made = env.next_slot.load(SeqCst).min(SLOTS);
    let mut h = Hist { by: BTreeMap::new() };
    for a in main.log.iter().chain(ths.iter().flat_map(|t| t.log.iter())) {
        let (s, e, q) = decode(a.code);
        h.by.entry((s, e)).or_default().insert(q, (a.lo, a.hi));
    }
    let mut live = std::collections::BTreeSet::new();
    for t in ths.iter() {
        live.extend(t.local.iter().chain(&t.perm).map(|x| x.slot()));
    }
    live.extend(main.perm.iter().map(|x| x.slot()));
    for p in &env.pool {
        live.extend(p.lock().unwrap().as_ref().map(|x| x.slot()));
    }
    LIVE.with(|l| *l.borrow_mut() = live.clone());
    // pairwise disjoint while alive; not reused before being released by a commit
    let mut commits_at: Vec<Vec<(u64, u64)>> = vec![vec![]; env.als.len()];
    for t in ths.iter().chain(std::iter::once(&*main)) {
        for (al, s) in &t.obs {
            if !s.look {
                commits_at[*al].push((s.commit.unwrap(), s.lo));
            }
        }
    }
    if ctx.own("C02") || ctx.own("C04") {
        let mut byal: BTreeMap<(u32, usize), usize> = BTreeMap::new();
        for x in 0..made {
            if env.slots[x].made_hi.load(SeqCst) > 0 && env.slots[x].words() > 0 {
                byal.insert((env.slots[x].al.load(SeqCst), env.slots[x].span().0 << 16 | x), x);
            }
        }
        let v: Vec<usize> = byal.values().copied().collect();
        for (i, &a) in v.iter().enumerate() {
            let sa = &env.slots[a];
            for &b in &v[i + 1..] {
                let sb = &env.slots[b];
                if sb.al.load(SeqCst) != sa.al.load(SeqCst) || sb.span().0 >= sa.span().1 {
                    break;
                }
                ctx.stat("reuses judged", 1);
                let (x, y) = if sa.made_hi.load(SeqCst) < sb.made_hi.load(SeqCst) { (a, b) } else { (b, a) };
                let (sx, sy) = (&env.slots[x], &env.slots[y]);
                let dead = alive_until(env, x, sx.drop_lo.load(SeqCst));
                if dead >= sy.made_hi.load(SeqCst) {
                    for p in ["C02", "C04"] {
                        ctx.fail(
                            p,
                            "overlap",
                            format!("#{x} at {:?} and #{y} at {:?} overlap while both are alive; {}", sx.span(), sy.span(), hist()),
                        );
                    }
                    return;
                }
                // some commit must have released it
                let (al, mh) = (sx.al.load(SeqCst) as usize, sy.made_hi.load(SeqCst));
                if !commits_at[al].iter().any(|(cs, ce)| *ce > dead && *cs < mh) {
                    ctx.fail(
                        "C04",
                        "early",
                        format!("#{y} at {:?} got space of #{x} at {:?}, dropped but not released by a commit yet; {}", sy.span(), sx.span(), hist()),
                    );
                    return;
                }
            }
        }
    }
    for al in 0..env.als.len() {
        let a = &env.als[al];
        let cs = env.tick();
        let buf = a.commit();
        let mem = buf.mem.lock().unwrap().clone();
        let fin = Snap {
            lo: env.tick(),
            hi: env.tick(),
            mem,
            commit: Some(cs),
            look: false,
        };
        if ctx.own("C01") || ctx.own("C03") || ctx.own("C02") || ctx.own("C05") {
            let mut per: Vec<Vec<&Snap>> = ths.iter().map(|t| t.obs.iter().filter(|x| x.0 == al).map(|x| &x.1).collect()).collect();
            per.push(vec![&fin]);
            let writes = std::mem::take(&mut *rts[al].0.writes.lock().unwrap());
            judge(ctx, env, &h, al, &writes, &per, hist);
            if ctx.bad() {
                return;
            }
        }
        // the CPU side agrees
        if ctx.own("C01") {
            for x in ths.iter().flat_map(|t| t.local.iter()).chain(main.perm.iter()) {
                let s = &env.slots[x.slot()];
                if s.al.load(SeqCst) as usize != al || s.gpu.load(SeqCst) {
                    continue;
                }
                if let Some(c) = x.cpu() {
                    let flat: Vec<u32> = c.concat();
                    let (b, e) = s.span();
                    if fin.mem.get(b..e) != Some(&flat[..]) {
                        ctx.fail(
                            "C01",
                            "cpu-gpu",
                            format!("with all threads done, #{} is {flat:x?} on the CPU and {:x?} in the buffer; {}", x.slot(), fin.mem.get(b..e), hist()),
                        );
                        return;
                    }
                    ctx.stat("values equal on both sides", 1);
                }
            }
        }
        // buffers
        let cur = buf.id;
        let now = a.get_buffer().map(|b| (b.id, b.is_valid()));
        if now != Some((cur, true)) || !buf.is_valid() {
            ctx.fail("C05", "current", format!("with all threads done, commit returned buffer {cur} and get_buffer {now:?}; {}", hist()));
        }
        for t in ths.iter_mut().map(|t| &mut t.bufs).chain(std::iter::once(&mut main.bufs)) {
            for (_, b) in t.iter_mut().filter(|b| b.0 == al) {
                let old = b.id;
                b.update_if_invalid();
                if b.id != cur || !b.is_valid() {
                    ctx.fail(
                        "C05",
                        "not-current",
                        format!("with all threads done, a handle of buffer {old} was refreshed to {} (valid {}), current is {cur}; {}", b.id, b.is_valid(), hist()),
                    );
                    return;
                }
                ctx.stat("handles judged at the end", 1);
            }
        }
        let top = (0..made).filter(|s| env.slots[*s].made_hi.load(SeqCst) > 0 && env.slots[*s].al.load(SeqCst) as usize == al).map(|s| env.slots[s].span().1).max().unwrap_or(0);
        if buf.cap < top {
            ctx.fail("C02", "capacity", format!("{top} words are in use, the buffer has {}; {}", buf.cap, hist()));
        }
        if !ctx.own("C04") && !ctx.own("C06") {
            continue;
        }
        // every word is either alive or can be had again
        let mut taken = vec![0u8; top];
        let mut ever = vec![false; top];
        for s in 0..made {
            if env.slots[s].made_hi.load(SeqCst) == 0 || env.slots[s].al.load(SeqCst) as usize != al {
                continue;
            }
            let (b, e) = env.slots[s].span();
            ever[b..e].fill(true);
            if live.contains(&s) {
                taken[b..e].iter_mut().for_each(|x| *x += 1);
            }
        }
        if let Some(i) = ever.iter().position(|x| !x) {
            ctx.fail("C04", "skipped", format!("word {i} of {top} was never given out; {}", hist()));
            return;
        }
        let free = taken.iter().filter(|x| **x == 0).count();
        let mut refill = vec![];
        for k in 0..free {
            let v = Gpu::new(a, 7u32);
            let i = v.id().inner() as usize;
            if i >= top {
                ctx.fail(
                    "C04",
                    "leak",
                    format!("only {k} of {free} free words can be had again ({top} in use at most, {} alive); {}", live.len(), hist()),
                );
                return;
            }
            if taken[i] != 0 {
                ctx.fail("C04", "double", format!("word {i} was given out though it's taken; {}", hist()));
                return;
            }
            taken[i] = 2;
            refill.push(v);
        }
        ctx.stat("words refilled", free as u64);
        drop(refill);
        a.commit();
    }
    let _ = miri;
    // nothing survives the last handle
    for t in ths.iter_mut() {
        t.local.clear();
        t.perm.clear();
    }
    main.perm.clear();
    for p in &env.pool {
        *p.lock().unwrap() = None;
    }
    let shared: Vec<_> = env.weaks.iter().filter_map(|w| w.lock().unwrap().take()).collect();
    for w in ths.iter().flat_map(|t| t.weak.iter()).chain(&shared) {
        if w.up().is_some() {
            ctx.fail("C04", "undead", format!("a weak handle of #{} was upgraded after all strong ones were dropped; {}", w.slot(), hist()));
            return;
        }
    }
    if ctx.own("C04") || ctx.own("C06") {
        for al in 0..env.als.len() {
            let a = &env.als[al];
            a.commit();
            let top = (0..made)
                .filter(|s| env.slots[*s].made_hi.load(SeqCst) > 0 && env.slots[*s].al.load(SeqCst) as usize == al)
                .map(|s| env.slots[s].span().1)
                .max()
                .unwrap_or(0);
            if top == 0 {
                continue;
            }
            let g = GpuArray::new(a, &vec![1u32; top]);
            if g.array().starting_index() != 0 {
                ctx.fail(
                    "C04",
                    "leak-all",
                    format!("with everything dropped, {top} words don't fit into the {top} words ever used; {}", hist()),
                );
                return;
            }
            a.commit();
        }
    }
}

pub fn run(ctx: &mut Ctx) {
    let seed = mix(ctx.seed ^ hash_str("conc") ^ hash_str(&ctx.prop));
    preempt::start(seed);
    let profs: &[Prof] = match ctx.prop.as_str() {
        "C01" => &[ASSIGN, GROW, DUEL, ALL],
        "C02" => &[GROW, CHURN, ALL],
        "C03" => &[ASSIGN, DUEL, ALL, DUEL, GROW],
        "C04" => &[CHURN, WEAK, ALL],
        "C05" => &[BUFFERS, GROW, ALL],
        "H04" => &[STATUS, STATUS, ALL],
        _ => &[ALL, CHURN, ASSIGN, GROW, BUFFERS, DUEL, WEAK, STATUS],
    };
    if cfg!(miri) {
        let n = ctx.budget.as_secs().min(20);
        for k in 0..n {
            let id = mix(seed ^ k);
            ctx.case_id = id;
            let p = profs[(id % profs.len() as u64) as usize];
            ctx.case = format!("concurrent history ({})", p.name);
            scenario(ctx, id, &p);
            if ctx.bad() {
                break;
            }
        }
        return;
    }
    let n = ctx.n(1_000_000, 1_000_000_000);
    for k in 0..n {
        let id = mix(seed ^ k);
        if ctx.only.is_none() && !ctx.time_left() {
            break;
        }
        if let Some(o) = ctx.only {
            // schedules can't be replayed, so try for a while
            for j in 0..3000 {
                let p = profs[(j % profs.len() as u64) as usize];
                ctx.case_id = o;
                ctx.case = format!("concurrent history ({})", p.name);
                scenario(ctx, o, &p);
                if ctx.bad() || !ctx.errors.is_empty() {
                    break;
                }
            }
            break;
        }
        if !ctx.begin(id) {
            break;
        }
        let p = profs[k as usize % profs.len()];
        crate::report::logging(id % 11 == 0);
        ctx.case = format!("concurrent history ({})", p.name);
        scenario(ctx, id, &p);
        ctx.stat(p.name, 1);
    }
    ctx.stat("preemptions injected", preempt::HITS.load(Relaxed));
    delay::stats(ctx);
}

// ---------------------------------------------------------------------------------------------
// the CPU runtime

/// Threads that read the buffers of the reference runtime while others assign, grow and commit.
pub fn run_cpu(ctx: &mut Ctx) {
    let seed = mix(ctx.seed ^ hash_str("cpu threads"));
    preempt::start(seed);
    let n = if cfg!(miri) { ctx.budget.as_secs().min(10) } else { ctx.n(1_000_000, 1_000_000_000) };
    for k in 0..n {
        let id = mix(seed ^ k);
        if ctx.only.is_some() {
            ctx.only = None;
        }
        if !ctx.begin(id) {
            break;
        }
        ctx.case = "threads on the CPU runtime".into();
        crate::report::logging(id % 11 == 0);
        cpu_scenario(ctx, id);
    }
    ctx.stat("preemptions injected", preempt::HITS.load(Relaxed));
    delay::stats(ctx);
}

/// Something one thread assigns and everyone reads.
enum Cell5 {
    Value(Hybrid<It<5>>),
    Gpu(Gpu<It<5>>),
    Elem(HybridArray<It<5>>, usize),
    GpuElem(GpuArray<It<5>>, usize),
}
impl Cell5 {
    fn at(&self) -> usize {
        match self {
            Cell5::Value(h) => h.id().index(),
            Cell5::Gpu(h) => h.id().index(),
            Cell5::Elem(a, k) => a.get_id(*k).index(),
            Cell5::GpuElem(a, k) => a.get_id(*k).index(),
        }
    }
    fn set(&self, c: u32, how: usize) {
        let v = It::<5>::new(c);
        match (self, how) {
            (Cell5::Value(h), 0) => h.modify(|x| *x = v),
            (Cell5::Value(h), 1) => *h.lock() = v,
            (Cell5::Value(h), _) => h.set(v),
            (Cell5::Gpu(h), _) => h.set(v),
            (Cell5::Elem(a, k), 0 | 1) => {
                a.modify(*k, |x| *x = v);
            }
            (Cell5::Elem(a, k), _) => {
                a.set_item(*k, v);
            }
            (Cell5::GpuElem(a, k), _) => a.set_item(*k, &v),
        }
    }
}

type CpuAl = SlabAllocator<CpuRuntime>;

fn cpu_read(r: &mut Rng, b: &VecSlab, at: &[usize]) -> Vec<Vec<u32>> {
    let n = b.as_vec().len();
    match r.below(3) {
        0 => {
            let v = b.as_vec();
            at.iter()
                .map(|a| {
                    let mut w = vec![];
                    for i in 0..5 {
                        w.push(v[a + i]);
                        if i == 1 {
                            pause();
                        }
                    }
                    w
                })
                .collect()
        }
        1 => {
            let v = crate::report::block_on(CpuRuntime.buffer_read(b, n, ..)).unwrap();
            at.iter().map(|a| v[*a..a + 5].to_vec()).collect()
        }
        _ => at.iter().map(|a| crate::report::block_on(CpuRuntime.buffer_read(b, n, *a..a + 5)).unwrap()).collect(),
    }
}

fn cpu_scenario(ctx: &mut Ctx, id: u64) {
    let mut r = Rng::new(id);
    let miri = cfg!(miri);
    let (nw, nr) = (r.range(1, 3), r.range(1, 2));
    let n = if miri { r.range(2, 4) } else { *r.pick(&[6, 20, 50]) };
    let al = CpuAl::new(CpuRuntime, ());
    let mut cells = vec![];
    for w in 0..nw {
        let c = code(w, 0, 1);
        let (k, len) = (r.below(3), 3);
        cells.push(match r.below(4) {
            0 => Cell5::Value(al.new_value(It::new(c))),
            1 => Cell5::Gpu(al.new_value(It::new(c)).into_gpu_only()),
            2 => Cell5::Elem(al.new_array((0..len).map(|_| It::new(c))), k),
            _ => Cell5::GpuElem(al.new_array((0..len).map(|_| It::new(c))).into_gpu_only(), k),
        });
    }
    let at: Vec<usize> = cells.iter().map(|c| c.at()).collect();
    let first = al.commit();
    let published: Vec<AtomicU32> = (0..nw).map(|_| AtomicU32::new(1)).collect();
    let last: Vec<AtomicU32> = (0..nw).map(|_| AtomicU32::new(1)).collect();
    let fails: Mutex<Vec<(&'static str, &'static str, String)>> = Mutex::new(vec![]);
    let panics: Mutex<Vec<String>> = Mutex::new(vec![]);
    let reads = AtomicU64::new(0);
    let sig = AtomicU64::new(mix(nw as u64));
    let barrier = Barrier::new(nw + nr);
    let running = AtomicUsize::new(nw);
    let rate = *r.pick(&[0, 300, 2000, 10_000]);
    let intensity = *r.pick(&[0, 60, 300]);
    preempt::rate(rate);
    std::thread::scope(|sc| {
        for t in 0..nw + nr {
            let mut r = Rng::new(r.u64());
            let own = al.clone();
            let mut buf = first.clone();
            let one_in = *r.pick(&[0, 60, 300, 1000]);
            let (cells, at, published, last, fails, panics, reads, sig, barrier, running) =
                (&cells, &at, &published, &last, &fails, &panics, &reads, &sig, &barrier, &running);
            sc.spawn(move || {
                let reg = preempt::Reg::new();
                PAUSE.set(r.u64() | 1);
                INTENSITY.set(intensity);
                barrier.wait();
                delay::at(r.u64() | 1, one_in);
                let res = guarded(|| {
                    if t < nw {
                        let mut extra: Vec<Hybrid<It<5>>> = vec![];
                        for s in 2..2 + n as u32 {
                            cells[t].set(code(t, 0, s), r.below(4));
                            last[t].store(s, SeqCst);
                            match r.below(8) {
                                0 => extra.push(own.new_value(It::new(code(100, 0, s)))),
                                1 if !miri => {
                                    let k = r.below(40);
                                    extra.extend((0..k).map(|_| own.new_value(It::new(code(100, 0, s)))))
                                }
                                2 => {
                                    extra.pop();
                                }
                                3 => extra.clear(),
                                _ => {}
                            }
                            if r.chance(1, 2) {
                                let b = own.commit();
                                published[t].fetch_max(s, SeqCst);
                                if r.chance(1, 3) {
                                    buf = b;
                                    let w = cpu_read(&mut r, &buf, &at[t..t + 1]);
                                    if w[0][0] != code(t, 0, s) {
                                        fails.lock().unwrap().push((
                                            "C01",
                                            "cpu-lost",
                                            format!("assignment {s} of the value of this thread isn't in the buffer returned by its commit"),
                                        ));
                                    }
                                }
                            }
                        }
                        running.fetch_sub(1, SeqCst);
                    } else {
                        let mut seen = vec![0u32; at.len()];
                        let (mut time, mut len) = (0, 0);
                        let mut h = 0;
                        let mut rounds = 0;
                        while running.load(SeqCst) > 0 && rounds < if miri { n } else { 100_000 } {
                            rounds += 1;
                            PROGRESS.fetch_add(1, Relaxed);
                            let lo: Vec<u32> = published.iter().map(|p| p.load(SeqCst)).collect();
                            if t % 2 == 0 {
                                buf.update_if_invalid();
                            } else {
                                buf = own.get_buffer().expect("a buffer after the first commit");
                            }
                            let now = buf.creation_time();
                            let words = cpu_read(&mut r, &buf, at);
                            let cap = buf.as_vec().len();
                            let bad = |p, s, m| fails.lock().unwrap().push((p, s, m));
                            if now < time || cap < len {
                                bad("C05", "cpu-older", format!("a refreshed buffer of {cap} words created at {now} follows one of {len} created at {time}"));
                            }
                            (time, len) = (now, cap);
                            for (k, w) in words.iter().enumerate() {
                                let (slot, _, s) = decode(w[0]);
                                if !intact(w) {
                                    bad("C03", "cpu-torn", format!("value {k} reads as {w:x?}, which is no value assigned to it"));
                                } else if slot != k {
                                    bad("C02", "cpu-foreign", format!("the words of value {k} hold a value of {slot}"));
                                } else if s > last[k].load(SeqCst) + 1 {
                                    bad("C03", "cpu-future", format!("value {k} reads as its assignment {s}, which was not made yet"));
                                } else {
                                    if s < lo[k] {
                                        bad("C05", "cpu-unpublished", format!(
                                            "value {k} reads as its assignment {s} although a commit after assignment {} had returned before refreshing the buffer", lo[k]));
                                    }
                                    if s < seen[k] {
                                        bad("C03", "cpu-back", format!("value {k} reads as its assignment {s} after assignment {} was read", seen[k]));
                                    }
                                    h = if s == seen[k] { h } else { mix(h ^ s as u64 ^ (k as u64) << 32) };
                                    seen[k] = s;
                                }
                            }
                            reads.fetch_add(1, Relaxed);
                        }
                        sig.fetch_xor(h, Relaxed);
                    }
                });
                if let Err(Caught::Panic(m)) = res {
                    panics.lock().unwrap().push(m);
                    if t < nw {
                        running.fetch_sub(1, SeqCst);
                    }
                }
                delay::at(1, 0);
                PAUSE.set(0);
                drop(reg);
            });
        }
    });
    preempt::rate(0);
    for m in panics.into_inner().unwrap() {
        if crate::report::harness_panic(&m) {
            ctx.errors.push(m);
            return;
        }
        ctx.fail("C06", "cpu-panic", format!("a thread panicked: {m}"));
    }
    if ctx.bad() {
        return;
    }
    let b = match guarded(|| al.commit()) {
        Ok(b) => b,
        Err(_) => {
            ctx.fail("C06", "cpu-panic", "the last commit panicked".into());
            return;
        }
    };
    let words = cpu_read(&mut Rng::new(1), &b, &at);
    for (k, w) in words.iter().enumerate() {
        let s = last[k].load(SeqCst);
        if *w != It::<5>::new(code(k, 0, s)).w {
            ctx.fail("C01", "cpu-end", format!("value {k} is {w:x?} after the last commit, not its last assignment {s}"));
        }
    }
    for (p, s, m) in fails.into_inner().unwrap() {
        ctx.fail(p, s, m);
    }
    ctx.stat("reads of buffers of the CPU runtime during commits", reads.load(Relaxed));
    ctx.stat("assignments on the CPU runtime", (n * nw) as u64);
    ctx.eval(Some(mix(sig.load(Relaxed) ^ n as u64)));
}
