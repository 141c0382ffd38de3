//! A01-A05, A07-A11, A14, A15: histories of one allocator against an executable model of it.
use crate::monrt::{fill, Ev, MonBuf, MonRt, Shared};
use crate::report::{guarded, harness_panic, unwinding, Caught, Ctx, Injected};
use crate::rng::{hash_str, mix, Rng};
use crate::shape::{fits, show, showw, Shape, W};
use craballoc::prelude::*;
use crabslab::{Id, SlabItem};
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::marker::PhantomData;
use std::sync::atomic::Ordering;
use std::sync::Arc;

type Alloc = SlabAllocator<MonRt>;

// ---------------------------------------------------------------------------------------------
// items whose code can panic

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fuse {
    Off,
    Clone(u32),
    Write(u32),
}
thread_local! {
    static FUSE: Cell<Fuse> = const { Cell::new(Fuse::Off) };
}
fn burn(write: bool) {
    let f = FUSE.get();
    let next = match f {
        Fuse::Clone(0) if !write => None,
        Fuse::Clone(k) if !write => Some(Fuse::Clone(k - 1)),
        Fuse::Write(0) if write => None,
        Fuse::Write(k) if write => Some(Fuse::Write(k - 1)),
        f => Some(f),
    };
    match next {
        Some(f) => FUSE.set(f),
        None => {
            FUSE.set(Fuse::Off);
            if !std::thread::panicking() {
                std::panic::panic_any(Injected);
            }
        }
    }
}

/// An item whose `clone` and `write_slab` panic when the fuse says so.
#[derive(Default, Debug)]
pub struct Bomb {
    a: u32,
    b: u64,
}
impl Clone for Bomb {
    fn clone(&self) -> Self {
        burn(false);
        Bomb { a: self.a, b: self.b }
    }
}
impl SlabItem for Bomb {
    const SLAB_SIZE: usize = 3;
    fn read_slab(index: usize, slab: &[u32]) -> Self {
        Bomb {
            a: u32::read_slab(index, slab),
            b: u64::read_slab(index + 1, slab),
        }
    }
    fn write_slab(&self, index: usize, slab: &mut [u32]) -> usize {
        let index = self.a.write_slab(index, slab);
        burn(true);
        self.b.write_slab(index, slab)
    }
}
impl Shape for Bomb {
    const REF_SIZE: usize = 3;
    fn gen(r: &mut Rng) -> Self {
        Bomb { a: r.word(), b: r.u64() }
    }
    fn enc(&self, out: &mut Vec<W>) {
        self.a.enc(out);
        self.b.enc(out);
    }
    fn norm(words: &[u32], out: &mut Vec<W>) {
        out.extend(words[..3].iter().map(|w| Some(*w)));
    }
}

// ---------------------------------------------------------------------------------------------
// sets of words

#[derive(Default, Clone)]
pub struct Runs(pub BTreeMap<u32, u32>);
impl Runs {
    pub fn insert(&mut self, s: u32, e: u32) {
        if s >= e {
            return;
        }
        let (mut s, mut e) = (s, e);
        if let Some((&a, &b)) = self.0.range(..=s).next_back() {
            if b >= s {
                s = a;
                e = e.max(b);
            }
        }
        let inner: Vec<u32> = self.0.range(s..=e).map(|x| *x.0).collect();
        for k in inner {
            e = e.max(self.0.remove(&k).unwrap());
        }
        self.0.insert(s, e);
    }
    pub fn remove(&mut self, s: u32, e: u32) {
        if s >= e {
            return;
        }
        let hits: Vec<(u32, u32)> = self.0.range(..e).rev().take_while(|x| *x.1 > s).map(|x| (*x.0, *x.1)).collect();
        for (a, b) in hits {
            self.0.remove(&a);
            if a < s {
                self.0.insert(a, s);
            }
            if b > e {
                self.0.insert(e, b);
            }
        }
    }
    pub fn covers(&self, s: u32, e: u32) -> bool {
        s >= e || self.0.range(..=s).next_back().map_or(false, |x| *x.1 >= e)
    }
    pub fn longest(&self) -> (u32, u32) {
        self.0.iter().map(|(a, b)| (*a, b - a)).max_by_key(|x| x.1).unwrap_or((0, 0))
    }
    pub fn total(&self) -> u64 {
        self.0.iter().map(|(a, b)| (b - a) as u64).sum()
    }
}

// ---------------------------------------------------------------------------------------------
// the model

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum St {
    Live,
    /// no strong handle, not committed since
    Dropped,
    Gone,
}

pub struct MSlot {
    start: u32,
    esize: usize,
    n: usize,
    notifier: usize,
    strong: usize,
    cpu_strong: usize,
    cpu: Vec<W>,
    gpu: Vec<W>,
    dirty: BTreeSet<usize>,
    /// created, assigned or dropped since the last commit
    touched: bool,
    /// the ids were asked for since the last assignment
    asked: bool,
    /// last assigned through a guard
    by_guard: bool,
    /// user code panicked while handling it: nothing is known about its value
    wild: bool,
    state: St,
    ty: String,
}
impl MSlot {
    fn words(&self) -> u32 {
        (self.n * self.esize) as u32
    }
    fn el(&self, i: usize) -> std::ops::Range<usize> {
        i * self.esize..(i + 1) * self.esize
    }
}

struct Held {
    buf: SlabBuffer<MonBuf>,
    id: u64,
    created: u64,
}

#[derive(Clone, Copy)]
pub struct Profile {
    pub name: &'static str,
    pub slots: usize,
    pub ops: usize,
    /// 1/n of the steps are commits
    pub commit: u32,
    /// 1/n of the steps create something
    pub create: u32,
    /// weight of dropping whole slots
    pub kill: u32,
    pub types: &'static [u8],
    /// 1/n of the new things are values rather than arrays (0: only arrays)
    pub vals: u32,
    pub alen: usize,
    pub panics: bool,
    pub hot: bool,
}

const ALL: &[u8] = &[0, 1, 2, 3, 4, 5, 6, 7, 8];
pub const TINY: Profile = Profile {
    name: "tiny",
    slots: 10,
    ops: 160,
    commit: 5,
    create: 4,
    kill: 5,
    types: &[0, 1, 2, 6],
    vals: 2,
    alen: 4,
    panics: false,
    hot: false,
};
pub const ONES: Profile = Profile {
    name: "one-word",
    slots: 14,
    ops: 220,
    commit: 6,
    create: 3,
    kill: 3,
    types: &[0],
    vals: 2,
    alen: 5,
    panics: false,
    hot: false,
};
pub const MIXED: Profile = Profile {
    name: "mixed",
    slots: 40,
    ops: 250,
    commit: 12,
    create: 5,
    kill: 8,
    types: ALL,
    vals: 2,
    alen: 9,
    panics: false,
    hot: false,
};
pub const ARRAYS: Profile = Profile {
    name: "arrays",
    slots: 8,
    ops: 200,
    commit: 15,
    create: 8,
    kill: 12,
    types: &[0, 1, 2, 3, 6, 8],
    vals: 6,
    alen: 30,
    panics: false,
    hot: false,
};
pub const HUGE: Profile = Profile {
    name: "huge",
    slots: 5,
    ops: 45,
    commit: 8,
    create: 4,
    kill: 6,
    types: &[0, 0, 1, 5, 3],
    vals: 8,
    alen: 70_000,
    panics: false,
    hot: false,
};
pub const MANY: Profile = Profile {
    name: "many values",
    slots: 70_000,
    ops: 76_000,
    commit: 3000,
    create: 1,
    kill: 40_000,
    types: &[0, 0, 1],
    vals: 1,
    alen: 2,
    panics: false,
    hot: false,
};
/// A long history in little space.
pub const LONG: Profile = Profile {
    name: "long history",
    slots: 20,
    ops: 150_000,
    commit: 6,
    create: 2,
    kill: 3,
    types: &[0, 1, 2, 6],
    vals: 2,
    alen: 4,
    panics: false,
    hot: false,
};
pub const STEADY: Profile = Profile {
    name: "steady growth",
    slots: 6000,
    ops: 9000,
    commit: 5,
    create: 1,
    kill: 4000,
    types: &[0, 1, 2, 6],
    vals: 3,
    alen: 16,
    panics: false,
    hot: false,
};
/// Millions of words, in steps that are small compared to them.
pub const VAST: Profile = Profile {
    name: "vast",
    slots: 60,
    ops: 130,
    commit: 2,
    create: 1,
    kill: 100_000,
    types: &[0],
    vals: 0,
    alen: 240_000,
    panics: false,
    hot: false,
};
/// Hundreds of thousands of words, in small steps.
pub const STEPS: Profile = Profile {
    name: "small steps",
    slots: 600,
    ops: 1300,
    alen: 1500,
    ..VAST
};
pub const COMMITS: Profile = Profile {
    name: "many commits",
    slots: 4,
    ops: 140_000,
    commit: 2,
    create: 50,
    kill: 60,
    types: &[0, 1, 2],
    vals: 2,
    alen: 2,
    panics: false,
    hot: true,
};
/// Many free ranges: now and then half of everything is dropped.
pub const FRAG: Profile = Profile {
    name: "fragmented",
    slots: 1800,
    ops: 9000,
    commit: 120,
    create: 2,
    kill: 4,
    types: &[0, 1, 2, 3, 6, 8],
    vals: 2,
    alen: 6,
    panics: false,
    hot: false,
};
pub const SETS: Profile = Profile {
    name: "many assignments",
    slots: 4,
    ops: 12_000,
    commit: 3000,
    create: 400,
    kill: 2000,
    types: &[0, 1, 2, 6],
    vals: 2,
    alen: 40,
    panics: false,
    hot: true,
};
pub const DEGENERATE: Profile = Profile {
    name: "degenerate",
    slots: 14,
    ops: 160,
    commit: 6,
    create: 3,
    kill: 5,
    types: &[0, 2, 7, 9, 7, 10],
    vals: 3,
    alen: 3,
    panics: false,
    hot: false,
};
pub const PANICS: Profile = Profile {
    name: "panicking items",
    slots: 12,
    ops: 160,
    commit: 7,
    create: 4,
    kill: 6,
    types: &[11, 11, 11, 0, 1, 6],
    vals: 2,
    alen: 4,
    panics: true,
    hot: false,
};
pub const CHURN: Profile = Profile {
    name: "churn",
    slots: 16,
    ops: 4000,
    commit: 7,
    create: 3,
    kill: 3,
    types: &[0, 1, 2, 3, 4, 8],
    vals: 2,
    alen: 6,
    panics: false,
    hot: false,
};

pub trait Handles {
    /// Do something through some handle. Returns false if the world can't go on.
    fn op(&mut self, w: &mut World, ctx: &mut Ctx, s: usize) -> bool;
    fn kill(&mut self, w: &mut World, s: usize);
    fn read_all(&mut self, w: &mut World, ctx: &mut Ctx, s: usize);
}

pub struct World {
    r: Rng,
    prof: Profile,
    allocs: Vec<Alloc>,
    rt: MonRt,
    label: Option<String>,
    usages: u32,
    m: Vec<MSlot>,
    h: Vec<Option<Box<dyn Handles>>>,
    alive: Vec<usize>,
    live: BTreeMap<u32, (u32, usize)>,
    free: Runs,
    /// also what has been dropped but not committed
    free_all: Runs,
    len: u32,
    len_hi: u32,
    fuzzy: bool,
    mem: Vec<u32>,
    cur: Option<u64>,
    created_at: u64,
    commits: u64,
    replaced: u64,
    bufs: Vec<Held>,
    times: BTreeMap<u64, usize>,
    trace: VecDeque<(&'static str, usize, u64)>,
    hash: u64,
    dirty: BTreeSet<usize>,
    touched: BTreeSet<usize>,
    dropped: Vec<usize>,
    wilds: usize,
    stats: BTreeMap<&'static str, u64>,
    dead: bool,
    soft: u32,
    verbose: bool,
    grew: Vec<u64>,
}

impl World {
    pub fn new(mut r: Rng, prof: Profile) -> World {
        let label = match r.below(3) {
            0 => None,
            1 => Some("vh".to_string()),
            _ => Some(String::new()),
        };
        let usages = r.u32();
        let sh = Shared {
            poison: if r.chance(1, 3) { 0 } else { r.u32() | 1 },
            use_cpu: r.chance(1, 4),
            shuffle: if r.chance(2, 3) { (r.u64() | 1).into() } else { 0.into() },
            ..Shared::default()
        };
        let sh = Shared {
            poison: if sh.use_cpu { 0 } else { sh.poison },
            ..sh
        };
        let rt = MonRt(Arc::new(sh));
        let a = if label.is_none() && r.chance(1, 2) {
            Alloc::new(rt.clone(), usages)
        } else {
            Alloc::new_with_label(rt.clone(), usages, label.as_deref())
        };
        World {
            r,
            prof,
            allocs: vec![a],
            rt,
            label,
            usages,
            m: vec![],
            h: vec![],
            alive: vec![],
            live: BTreeMap::new(),
            free: Runs::default(),
            free_all: Runs::default(),
            len: 0,
            len_hi: 0,
            fuzzy: false,
            mem: vec![],
            cur: None,
            created_at: 0,
            commits: 0,
            replaced: 0,
            bufs: vec![],
            times: BTreeMap::new(),
            trace: VecDeque::new(),
            hash: hash_str(prof.name),
            dirty: BTreeSet::new(),
            touched: BTreeSet::new(),
            dropped: vec![],
            wilds: 0,
            stats: BTreeMap::new(),
            dead: false,
            soft: 0,
            verbose: std::env::var_os("VH_TRACE").is_some(),
            grew: vec![],
        }
    }

    fn stat(&mut self, k: &'static str) {
        *self.stats.entry(k).or_insert(0) += 1;
    }

    fn note(&mut self, op: &'static str, s: usize, x: u64) {
        if self.verbose {
            eprintln!("{op} #{s} {x}: {} words, live {:?}, free {:?} / {:?}", self.len, self.live, self.free.0, self.free_all.0);
        }
        if self.trace.len() >= 50 {
            self.trace.pop_front();
        }
        self.trace.push_back((op, s, x));
        self.hash = mix(self.hash ^ op.len() as u64 ^ (op.as_bytes()[0] as u64) << 8 ^ (s as u64) << 20 ^ x.rotate_left(40));
    }

    fn history(&self) -> String {
        let t: Vec<String> = self
            .trace
            .iter()
            .map(|(o, s, x)| if *s == usize::MAX { format!("{o}") } else { format!("{o}(#{s},{x})") })
            .collect();
        format!("{} commits, last operations: {}", self.commits, t.join(" "))
    }

    fn fail(&mut self, ctx: &mut Ctx, props: &[&str], sig: &str, msg: String) {
        // a broken guarantee that is not the one being judged ends the history only where the
        // model cannot go on from what was observed
        const HARD: &[&str] = &["place", "overlap", "array-len", "capacity", "no-buffer", "two-buffers", "no-copy"];
        if !HARD.contains(&sig) && !props.iter().any(|p| ctx.own(p)) && !ctx.own("A14") && !ctx.own("A15") && self.soft < 200 {
            self.soft += 1;
            return;
        }
        self.dead = true;
        let msg = format!("{msg}; profile {}; {}", self.prof.name, self.history());
        for p in props {
            ctx.fail(p, sig, msg.clone());
        }
        // these two quantify over all the other guarantees
        if ctx.own("A14") || ctx.own("A15") {
            ctx.fail_any(sig, msg);
        }
    }

    fn panicked(&mut self, ctx: &mut Ctx, what: &str, c: Caught) {
        self.dead = true;
        match c {
            Caught::Injected => ctx.errors.push(format!("{what}: stray injected panic")),
            Caught::Panic(m) => {
                if harness_panic(&m) {
                    ctx.errors.push(format!("{what}: {m}; {}", self.history()));
                } else {
                    let h = self.history();
                    ctx.fail_any(&format!("panic:{what}"), format!("{what} panicked: {m}; profile {}; {h}", self.prof.name));
                }
            }
        }
    }

    /// Call the code under test; a panic ends the world with a violation.
    fn call<A>(&mut self, ctx: &mut Ctx, what: &'static str, f: impl FnOnce() -> A) -> Option<A> {
        match guarded(f) {
            Ok(a) => Some(a),
            Err(c) => {
                self.panicked(ctx, what, c);
                None
            }
        }
    }

    fn alloc(&mut self) -> Alloc {
        let i = self.r.below(self.allocs.len());
        self.allocs[i].clone()
    }

    // -- allocation ---------------------------------------------------------------------------

    fn placed(&mut self, ctx: &mut Ctx, s: usize) {
        let n = self.m[s].words();
        if n == 0 {
            return;
        }
        let (a, e) = (self.m[s].start, self.m[s].start as u64 + n as u64);
        let desc = format!("#{s} ({} x{}) at {a}+{n}", self.m[s].ty, self.m[s].n);
        if e > u32::MAX as u64 {
            self.fail(ctx, &["A03"], "place", format!("{desc} is out of this world, {} words are in use", self.len));
            return;
        }
        let e = e as u32;
        let before = self.live.range(..e).next_back().map(|(k, v)| (*k, *v));
        if let Some((b, (bn, o))) = before {
            if b + bn > a {
                self.fail(ctx, &["A03", "A04"], "overlap", format!("{desc} overlaps the live #{o} at {b}+{bn}"));
                return;
            }
        }
        if self.free_all.covers(a, e) {
            self.stat("allocations placed in recycled space");
        } else {
            let (ls, ll) = self.free.longest();
            // an allocation that panicked may have left words behind `len`
            let slack = e > self.len && e <= self.len_hi && self.free_all.covers(a, self.len);
            if ll >= n && !self.fuzzy && !slack {
                self.fail(ctx, &["A05"], "reuse", format!("{desc} extends the slab of {} words although {ls}+{ll} is free", self.len));
                if self.dead {
                    return;
                }
            }
            if a > self.len_hi {
                self.fail(ctx, &["A05"], "skipped", format!("{desc} skips words, only {} are in use", self.len));
                if self.dead {
                    return;
                }
            }
            if a > self.len {
                self.free_all.insert(self.len, a);
            }
            if e > self.len_hi {
                // everything below is accounted for
                self.len_hi = e;
            }
            self.stat("allocations extending the slab");
        }
        self.free.remove(a, e);
        self.free_all.remove(a, e);
        self.len = self.len.max(e);
        self.len_hi = self.len_hi.max(self.len);
        self.live.insert(a, (n, s));
    }

    #[allow(clippy::too_many_arguments)]
    fn register(&mut self, ctx: &mut Ctx, ty: String, start: u32, esize: usize, n: usize, words: Vec<W>, cpu: bool, notifier: usize, h: Box<dyn Handles>) {
        let s = self.m.len();
        if let Some(o) = self.m.iter().rev().take(200).position(|m| m.notifier == notifier && m.state != St::Gone) {
            self.fail(ctx, &["A09"], "same-id", format!("two sources share the identifier {notifier} ({o} back)"));
        }
        self.m.push(MSlot {
            start,
            esize,
            n,
            notifier,
            strong: 1,
            cpu_strong: cpu as usize,
            cpu: if cpu { words.clone() } else { vec![] },
            gpu: words,
            dirty: BTreeSet::new(),
            touched: true,
            by_guard: false,
            asked: false,
            wild: false,
            state: St::Live,
            ty,
        });
        self.h.push(Some(h));
        self.alive.push(s);
        self.touched.insert(s);
        if n > 0 && esize > 0 {
            self.m[s].dirty.extend(0..n);
            self.dirty.insert(s);
        }
        self.placed(ctx, s);
    }

    fn assigned(&mut self, s: usize, i: usize, words: &[W]) {
        let m = &mut self.m[s];
        let el = m.el(i);
        m.gpu[el].copy_from_slice(words);
        m.touched = true;
        m.by_guard = false;
        m.asked = false;
        self.touched.insert(s);
        if m.esize > 0 {
            m.dirty.insert(i);
            self.dirty.insert(s);
        }
    }

    fn assigned_cpu(&mut self, s: usize, i: usize, words: &[W]) {
        let el = self.m[s].el(i);
        self.m[s].cpu[el].copy_from_slice(words);
        self.assigned(s, i, words);
    }

    fn touch(&mut self, s: usize) {
        if self.m[s].state != St::Gone {
            self.m[s].touched = true;
            self.touched.insert(s);
        }
    }

    fn go_wild(&mut self, s: usize) {
        self.touch(s);
        if !self.m[s].wild {
            self.m[s].wild = true;
            self.wilds += 1;
        }
        self.stat("values whose code panicked");
    }

    fn counts(&mut self, s: usize, strong: usize, cpu: usize) {
        self.m[s].strong = strong;
        self.m[s].cpu_strong = cpu;
        if strong == 0 && self.m[s].state == St::Live {
            self.m[s].state = St::Dropped;
            self.dropped.push(s);
            self.dirty.remove(&s);
            self.m[s].dirty.clear();
            self.touch(s);
            if self.m[s].wild {
                self.wilds -= 1;
            }
            self.alive.retain(|x| *x != s);
            let (a, n) = (self.m[s].start, self.m[s].words());
            if n > 0 {
                self.live.remove(&a);
                self.free_all.insert(a, a + n);
            }
            self.m[s].cpu = vec![];
            self.m[s].gpu = vec![];
            self.stat("things dropped");
        }
    }

    fn create<T: Shape + std::fmt::Debug>(&mut self, ctx: &mut Ctx) {
        let al = self.alloc();
        let val = self.prof.vals > 0 && (self.prof.vals == 1 || self.r.chance(1, self.prof.vals));
        let gpu_only = self.r.chance(1, 5);
        let bomb = self.prof.panics && self.r.chance(1, 3);
        let ty = T::name();
        if val {
            let v = T::gen(&mut self.r);
            let words = v.words();
            self.note(if gpu_only { "Gpu::new" } else { "new_value" }, self.m.len(), T::REF_SIZE as u64);
            if bomb {
                FUSE.set(if self.r.chance(1, 2) { Fuse::Clone(self.r.below(2) as u32) } else { Fuse::Write(0) });
            }
            let res = guarded(|| {
                if gpu_only {
                    Err(Gpu::new(&al, v))
                } else {
                    Ok(if self.r.chance(1, 2) { al.new_value(v) } else { Hybrid::new(&al, v) })
                }
            });
            FUSE.set(Fuse::Off);
            match res {
                Ok(Ok(h)) => {
                    let (id, nt) = (h.id().inner(), h.notifier_index());
                    let b = Box::new(Val {
                        hy: vec![h],
                        gp: vec![],
                        wh: vec![],
                        wg: vec![],
                    });
                    self.register(ctx, ty, id, T::REF_SIZE, 1, words, true, nt, b);
                }
                Ok(Err(g)) => {
                    let (id, nt) = (g.id().inner(), g.notifier_index());
                    let b = Box::new(Val::<T> {
                        hy: vec![],
                        gp: vec![g],
                        wh: vec![],
                        wg: vec![],
                    });
                    self.register(ctx, ty, id, T::REF_SIZE, 1, words, false, nt, b);
                }
                Err(Caught::Injected) => self.failed_create(T::REF_SIZE),
                Err(c) => self.panicked(ctx, "creating a value", c),
            }
            self.stat("values created");
        } else {
            let max = if T::REF_SIZE > 8 { self.prof.alen / T::REF_SIZE + 2 } else { self.prof.alen };
            let n = if self.prof.alen > 1000 && self.r.chance(1, 2) {
                max - self.r.below(max / 8)
            } else if self.r.chance(1, 12) || self.prof.name == "degenerate" && self.r.chance(1, 3) {
                0
            } else {
                self.r.range(1, max.max(1))
            };
            let vs: Vec<T> = (0..n).map(|_| T::gen(&mut self.r)).collect();
            let mut words = Vec::with_capacity(n * T::REF_SIZE);
            for v in &vs {
                v.enc(&mut words);
            }
            self.note(if gpu_only { "GpuArray::new" } else { "new_array" }, self.m.len(), n as u64);
            let mut boom_at = usize::MAX;
            if bomb {
                match self.r.below(3) {
                    0 => FUSE.set(Fuse::Clone(self.r.below(n + 1) as u32)),
                    1 => FUSE.set(Fuse::Write(self.r.below(n + 1) as u32)),
                    _ => boom_at = self.r.below(n + 1),
                }
            }
            let how = self.r.below(2);
            // the iterator may use the allocator itself
            let busy_at = if !bomb && self.r.chance(1, 4) { self.r.below(n.max(1)) } else { usize::MAX };
            let res = guarded(|| {
                if gpu_only {
                    Err(GpuArray::new(&al, &vs))
                } else {
                    let it = vs.into_iter().enumerate().map(|(i, v)| {
                        if i == boom_at {
                            std::panic::panic_any(Injected);
                        }
                        if i == busy_at {
                            self.busy(ctx);
                        }
                        v
                    });
                    Ok(if how == 0 { al.new_array(it) } else { HybridArray::new(&al, it) })
                }
            });
            FUSE.set(Fuse::Off);
            let ids = |a: crabslab::Array<T>| (a.starting_index() as u32, a.len());
            let got = match res {
                Ok(Ok(h)) => {
                    let (st, l) = ids(h.array());
                    let nt = h.notifier_index();
                    let b = Box::new(Arr { hy: vec![h], gp: vec![] });
                    self.register(ctx, ty, st, T::REF_SIZE, n, words, true, nt, b);
                    Some(l)
                }
                Ok(Err(g)) => {
                    let (st, l) = ids(g.array());
                    let nt = g.notifier_index();
                    let b = Box::new(Arr::<T> { hy: vec![], gp: vec![g] });
                    self.register(ctx, ty, st, T::REF_SIZE, n, words, false, nt, b);
                    Some(l)
                }
                Err(Caught::Injected) => {
                    self.failed_create(T::REF_SIZE * n);
                    None
                }
                Err(c) => {
                    self.panicked(ctx, "creating an array", c);
                    None
                }
            };
            if got.map_or(false, |l| l != n) {
                self.fail(ctx, &["A03"], "array-len", format!("an array of {n} elements was allocated {} elements", got.unwrap()));
            }
            self.stat("arrays created");
        }
    }

    /// Creating something of `n` words panicked, and may have taken space until the next commit.
    fn failed_create(&mut self, n: usize) {
        self.note("..panicked", usize::MAX, 0);
        self.fuzzy = true;
        self.len_hi += n as u32;
        self.stat("creations that panicked");
    }

    fn create_any(&mut self, ctx: &mut Ctx) {
        match *self.r.pick(self.prof.types) {
            0 => self.create::<u32>(ctx),
            1 => self.create::<u64>(ctx),
            2 => self.create::<(u8, Option<u32>)>(ctx),
            3 => self.create::<[u32; 7]>(ctx),
            4 => self.create::<glam::Vec3>(ctx),
            5 => self.create::<glam::Mat4>(ctx),
            6 => self.create::<[u16; 2]>(ctx),
            7 => self.create::<PhantomData<u8>>(ctx),
            8 => self.create::<[Option<u64>; 3]>(ctx),
            9 => self.create::<[u32; 0]>(ctx),
            10 => self.create::<(PhantomData<u8>, u32)>(ctx),
            _ => self.create::<Bomb>(ctx),
        }
    }

    // -- commit -------------------------------------------------------------------------------

    fn commit(&mut self, ctx: &mut Ctx) {
        self.note("commit", usize::MAX, 0);
        let al = self.alloc();
        self.check_events(ctx, false);
        self.rt.0.in_commit.store(true, Ordering::SeqCst);
        #[allow(deprecated)]
        let res = guarded(|| if self.commits % 7 == 3 { al.upkeep() } else { al.commit() });
        self.rt.0.in_commit.store(false, Ordering::SeqCst);
        let buf = match res {
            Ok(b) => b,
            Err(c) => {
                self.check_events(ctx, true);
                self.panicked(ctx, "commit", c);
                return;
            }
        };
        self.commits += 1;
        self.stat("commits");
        let old_cap = self.mem.len();
        let had = self.cur.is_some();
        let new = self.check_events(ctx, true);
        if self.dead {
            return;
        }
        let mut replaced = false;
        if let Some((id, cap)) = new {
            replaced = had;
            if had {
                if cap <= old_cap {
                    self.fail(ctx, &["A07"], "not-larger", format!("the buffer of {old_cap} words was replaced by one of {cap}"));
                }
                if self.len_hi as usize <= old_cap {
                    self.fail(
                        ctx,
                        &["A07"],
                        "needless",
                        format!("the buffer of {old_cap} words was replaced by one of {cap} with only {} words in use", self.len),
                    );
                }
                self.replaced += 1;
                self.stat("buffers replaced");
                self.grew.push(self.len as u64);
                // growth by 10% would do
                let recent = self.grew.iter().filter(|x| **x > self.len as u64 / 2).count();
                if self.len > 4096 && recent > 9 {
                    self.fail(
                        ctx,
                        &["A07"],
                        "not-geometric",
                        format!("the buffer was replaced {recent} times while the words in use doubled to {}", self.len),
                    );
                }
                let bound = 4 * (64 - (self.len as u64 + 2).leading_zeros() as u64) + 8;
                if self.replaced > bound {
                    self.fail(
                        ctx,
                        &["A07"],
                        "not-geometric",
                        format!("the buffer was replaced {} times to hold {} words", self.replaced, self.len),
                    );
                }
            }
            self.cur = Some(id);
            self.created_at = self.commits;
            let p = self.rt.0.poison;
            for i in self.mem.len()..cap {
                self.mem.push(fill(p, i));
            }
        }
        let Some(cur) = self.cur else {
            self.fail(ctx, &["A07", "A08"], "no-buffer", "no buffer was created by the first commit".into());
            return;
        };
        if buf.id != cur {
            self.fail(ctx, &["A08"], "commit-returned", format!("commit returned buffer {} while {cur} is in use", buf.id));
        }
        if buf.cap != self.mem.len() {
            self.dead = true;
            return;
        }
        if self.len as usize > self.mem.len() {
            self.fail(
                ctx,
                &["A03", "A07"],
                "capacity",
                format!("the buffer of {} words is smaller than the {} words in use", self.mem.len(), self.len),
            );
        }
        if self.dead {
            return;
        }
        // contents
        let mut mem = std::mem::take(&mut self.mem);
        let dirty = std::mem::take(&mut self.dirty);
        let mut bad: Option<String> = None;
        let mut how = (false, false);
        let mut wrong = None;
        buf.with(|act| {
            for &s in &dirty {
                let m = &self.m[s];
                for &i in &m.dirty {
                    let a = m.start as usize + i * m.esize;
                    let w = &m.gpu[m.el(i)];
                    let got = &act[a..a + m.esize];
                    if !m.wild && !fits(got, w) && bad.is_none() {
                        how = (m.by_guard, m.asked);
                        bad = Some(format!(
                            "element {i} of #{s} ({}) at {a} is {} after the commit, last assigned {}",
                            m.ty,
                            showw(got),
                            show(w)
                        ));
                    }
                    mem[a..a + m.esize].copy_from_slice(got);
                }
            }
            if self.wilds > 0 {
                for &s in &self.alive {
                    let m = &self.m[s];
                    if m.wild {
                        let a = m.start as usize;
                        mem[a..a + m.words() as usize].copy_from_slice(&act[a..a + m.words() as usize]);
                    }
                }
            }
            if act.len() == mem.len() && act == &mem[..] {
                return;
            }
            wrong = (0..act.len().min(mem.len())).find(|i| act[*i] != mem[*i]).map(|i| (i, mem[i], act[i]));
            // where this is another guarantee's business, go on from what is there
            if act.len() == mem.len() {
                mem.copy_from_slice(act);
            }
        });
        self.mem = mem;
        if let Some(b) = bad {
            let mut p = vec!["A01"];
            if how.0 {
                p.push("A10");
            }
            if how.1 {
                p.push("A09");
            }
            self.fail(ctx, &p, "stale", b);
        }
        if let Some((i, want, got)) = wrong {
            let owner = self.live.range(..=i as u32).next_back().filter(|(k, v)| *k + v.0 > i as u32).map(|(_, v)| v.1);
            let mut props = vec!["A02"];
            if replaced {
                props.push("A07");
            }
            let what = match owner {
                Some(s) => {
                    props.push("A01");
                    format!("of the unassigned part of #{s} ({} at {})", self.m[s].ty, self.m[s].start)
                }
                None => "of free space".to_string(),
            };
            let p: Vec<&str> = props.clone();
            self.fail(
                ctx,
                &p,
                "changed",
                format!("word {i} {what} changed from {want:x} to {got:x} in a commit (replaced the buffer: {replaced})"),
            );
        }
        for s in dirty {
            self.m[s].dirty.clear();
        }
        for s in std::mem::take(&mut self.touched) {
            self.m[s].touched = false;
        }
        for s in std::mem::take(&mut self.dropped) {
            self.m[s].state = St::Gone;
        }
        self.free = self.free_all.clone();
        self.fuzzy = false;
        if self.dead {
            return;
        }
        // buffers
        let t = buf.creation_time();
        self.times.insert(self.created_at, t);
        if let Some((k, p)) = self.times.range(..self.created_at).next_back() {
            if *p >= t {
                self.fail(
                    ctx,
                    &["A08"],
                    "creation-time",
                    format!("the buffer of commit {} was created at {t}, the one of commit {k} at {p}", self.created_at),
                );
            }
        }
        if self.bufs.len() < 12 || self.r.chance(1, 10) {
            if self.bufs.len() >= 12 {
                let k = self.r.below(12);
                self.bufs.swap_remove(k);
            }
            self.bufs.push(Held {
                buf,
                id: cur,
                created: self.created_at,
            });
        }
        self.check_buffers(ctx, self.commits < 400 || self.commits % 64 == 0);
        // status
        if self.commits < 400 || self.commits % 16 == 0 {
            let q = al.has_queued_updates();
            if q {
                self.fail(ctx, &["A09"], "queued-after", "updates are queued right after a commit".into());
            }
            let ids = al.get_updated_source_ids();
            if !ids.is_empty() {
                self.fail(ctx, &["A09"], "ids-after", format!("{} sources need updating right after a commit", ids.len()));
            }
        }
        if self.commits < 200 || self.commits % 64 == 0 {
            let mut h = self.hash_state();
            h = mix(h ^ self.commits);
            ctx.eval(Some(h));
        }
    }

    fn hash_state(&self) -> u64 {
        let mut h = hash_str(self.prof.name) ^ self.mem.len() as u64;
        for (a, (n, s)) in self.live.iter().take(64) {
            h = mix(h ^ *a as u64 ^ (*n as u64) << 32 ^ (*s as u64) << 12);
        }
        for w in self.mem.iter().take(64) {
            h = mix(h ^ *w as u64);
        }
        h
    }

    /// Judge the runtime calls since the last look. Returns the buffer created, if any.
    fn check_events(&mut self, ctx: &mut Ctx, commit: bool) -> Option<(u64, usize)> {
        let evs = std::mem::take(&mut *self.rt.0.events.lock().unwrap());
        let bad = std::mem::take(&mut *self.rt.0.bad.lock().unwrap());
        for (sig, msg) in bad {
            let p: &[&str] = match sig {
                "outside-commit" => &["A02", "A11"],
                "bounds" => &["A11", "A03"],
                _ => &["A11"],
            };
            self.fail(ctx, p, sig, msg);
        }
        let (mut new, mut copied, mut wrote) = (None, false, false);
        for e in evs {
            self.stat("runtime calls observed");
            match e {
                Ev::Create { id, cap, label, usages } => {
                    if label != self.label {
                        self.fail(ctx, &["A11"], "label", format!("a buffer was created with the label {label:?} instead of {:?}", self.label));
                    }
                    if usages != self.usages {
                        self.fail(
                            ctx,
                            &["A11"],
                            "usages",
                            format!("a buffer was created with the usages {usages:x} instead of {:x}", self.usages),
                        );
                    }
                    if cap == 0 {
                        self.fail(ctx, &["A11"], "empty-buffer", "a buffer without any word was created".into());
                    }
                    if new.is_some() {
                        self.fail(ctx, &["A11", "A07"], "two-buffers", "one commit created two buffers".into());
                    }
                    if wrote {
                        self.fail(ctx, &["A11", "A07"], "write-then-create", "a buffer was created after writing updates".into());
                    }
                    new = Some((id, cap));
                }
                Ev::Copy { src, dst, src_cap, dst_cap } => {
                    let ok = Some(src) == self.cur && new.map_or(false, |n| n.0 == dst) && !copied;
                    if !ok {
                        self.fail(
                            ctx,
                            &["A11"],
                            "copy",
                            format!(
                                "buffer {src} was copied to {dst}; the current one is {:?}, the new one {new:?}, copied before: {copied}",
                                self.cur
                            ),
                        );
                    }
                    if dst_cap < src_cap {
                        self.fail(ctx, &["A11", "A07"], "copy-size", format!("a buffer of {src_cap} words was copied to one of {dst_cap}"));
                    }
                    if wrote {
                        self.fail(ctx, &["A11", "A07"], "write-then-copy", "updates were written before copying the old contents".into());
                    }
                    copied = true;
                }
                Ev::Write { buf, updates, .. } => {
                    wrote = true;
                    let target = new.map(|n| n.0).or(self.cur);
                    if Some(buf) != target {
                        self.fail(
                            ctx,
                            &["A11", "A02", "A07"],
                            "wrong-buffer",
                            format!("updates were written to buffer {buf} while {target:?} is in use"),
                        );
                    }
                    *self.stats.entry("updates written").or_insert(0) += updates.len() as u64;
                    let k = self.stats.entry("largest batch").or_insert(0);
                    *k = (*k).max(updates.len() as u64);
                }
            }
        }
        if new.is_some() && self.cur.is_some() && !copied && commit {
            self.fail(ctx, &["A11", "A07"], "no-copy", "a buffer was replaced without copying its contents".into());
        }
        if new.is_some() && !commit {
            self.dead = true;
        }
        new
    }

    fn check_buffers(&mut self, ctx: &mut Ctx, all: bool) {
        let Some(cur) = self.cur else {
            let al = self.alloc();
            if al.get_buffer().is_some() {
                self.fail(ctx, &["A08"], "early-buffer", "there is a buffer before the first commit".into());
            }
            return;
        };
        let mut bad: Option<(&'static str, String)> = None;
        for (k, h) in self.bufs.iter_mut().enumerate() {
            if !all && k > 2 {
                break;
            }
            let what = format!("handle of buffer {} (created by commit {} of {}, current is {cur})", h.id, h.created, self.commits);
            if h.buf.id != h.id {
                bad.get_or_insert(("moved", format!("{what} refers to buffer {}", h.buf.id)));
            }
            let valid = h.id == cur;
            if h.buf.is_valid() != valid || h.buf.is_invalid() == valid {
                bad.get_or_insert(("validity", format!("{what} says it is valid: {}", h.buf.is_valid())));
            }
            #[allow(deprecated)]
            let (new, new2) = (h.buf.is_new_this_commit(), h.buf.is_new_this_upkeep());
            if new != (h.created == self.commits) || new2 != new {
                bad.get_or_insert(("newness", format!("{what} says it is new: {new}")));
            }
            if self.times.get(&h.created).map_or(false, |t| *t != h.buf.creation_time()) {
                bad.get_or_insert(("creation", format!("{what} changed its creation time to {}", h.buf.creation_time())));
            }
            if self.r.chance(1, 4) {
                #[allow(deprecated)]
                let up = if self.r.chance(1, 2) { h.buf.update_if_invalid() } else { h.buf.synchronize() };
                if up == valid {
                    bad.get_or_insert(("refresh", format!("refreshing the {what} returned {up}")));
                }
                if h.buf.id != cur || !h.buf.is_valid() {
                    bad.get_or_insert(("refreshed", format!("refreshing the {what} led to buffer {} (valid {})", h.buf.id, h.buf.is_valid())));
                }
                if up && h.buf.is_new_this_commit() != (self.created_at == self.commits) {
                    bad.get_or_insert(("refreshed-newness", format!("the refreshed {what} says it is new: {}", h.buf.is_new_this_commit())));
                }
                h.id = cur;
                h.created = self.created_at;
                if up {
                    *self.stats.entry("buffer handles refreshed").or_insert(0) += 1;
                }
            }
        }
        if !self.allocs.is_empty() {
            let al = self.alloc();
            match al.get_buffer() {
                None => {
                    bad.get_or_insert(("lost", "the allocator has no buffer any more".into()));
                }
                Some(b) => {
                    if b.id != cur || !b.is_valid() || b.is_new_this_commit() != (self.created_at == self.commits) {
                        bad.get_or_insert((
                            "get_buffer",
                            format!(
                                "get_buffer gave buffer {} (valid {}, new {}), current is {cur} of commit {} of {}",
                                b.id,
                                b.is_valid(),
                                b.is_new_this_commit(),
                                self.created_at,
                                self.commits
                            ),
                        ));
                    }
                    if self.bufs.len() < 12 && self.r.chance(1, 6) {
                        self.bufs.push(Held {
                            buf: b,
                            id: cur,
                            created: self.created_at,
                        });
                    }
                }
            }
        }
        if !self.bufs.is_empty() && self.r.chance(1, 5) {
            let k = self.r.below(self.bufs.len());
            if self.r.chance(1, 2) && self.bufs.len() < 12 {
                let h = &self.bufs[k];
                let c = Held {
                    buf: h.buf.clone(),
                    id: h.id,
                    created: h.created,
                };
                self.bufs.push(c);
            } else {
                self.bufs.swap_remove(k);
            }
        }
        self.stat("buffer-handle checks");
        if let Some((s, m)) = bad {
            self.fail(ctx, &["A08"], s, m);
        }
    }

    /// Pending-update status.
    fn check_status(&mut self, ctx: &mut Ctx) {
        let al = self.alloc();
        let pend = self.dirty.iter().any(|s| !self.m[*s].wild);
        let q = al.has_queued_updates();
        if pend && !q {
            self.fail(ctx, &["A09"], "not-queued", "assignments are pending but no updates are reported as queued".into());
            return;
        }
        if self.touched.is_empty() && !self.fuzzy && self.commits > 0 && q {
            self.fail(
                ctx,
                &["A09"],
                "phantom-queued",
                "updates are reported as queued although nothing was created, assigned or dropped".into(),
            );
            return;
        }
        let ids = al.get_updated_source_ids();
        for s in &self.dirty {
            self.m[*s].asked = true;
            if !self.m[*s].wild && !ids.contains(&self.m[*s].notifier) {
                let m = format!("the ids of updated sources lack {} of the assigned #{s}", self.m[*s].notifier);
                self.fail(ctx, &["A09"], "id-missing", m);
                return;
            }
        }
        if !self.fuzzy {
            let ok: BTreeSet<usize> = self.touched.iter().map(|s| self.m[*s].notifier).collect();
            if let Some(x) = ids.iter().find(|i| !ok.contains(*i)) {
                self.fail(
                    ctx,
                    &["A09"],
                    "id-phantom",
                    format!("the ids of updated sources contain {x}, which was not touched since the last commit"),
                );
                return;
            }
        }
        if al.has_queued_updates() != q {
            self.fail(ctx, &["A09"], "destructive", format!("asking for updated ids changed has_queued_updates from {q}"));
        }
        if self.r.chance(1, 2) && al.get_updated_source_ids() != ids {
            self.fail(ctx, &["A09"], "unstable", "asking twice for the updated ids gave different sets".into());
        }
        self.stat("status checks");
    }

    /// Anything, called from within user code that the allocator runs.
    fn busy(&mut self, ctx: &mut Ctx) {
        self.stat("operations nested in callbacks");
        if self.r.chance(1, 2) {
            self.create_any(ctx);
        }
        if self.r.chance(1, 2) {
            self.commit(ctx);
        }
        for _ in 0..self.r.below(4) {
            self.step(ctx);
        }
    }

    // -- stepping -----------------------------------------------------------------------------

    fn handles_op(&mut self, ctx: &mut Ctx, s: usize) {
        let Some(mut h) = self.h[s].take() else { return };
        h.op(self, ctx, s);
        self.h[s] = Some(h);
    }

    fn kill(&mut self, s: usize) {
        // the handles are elsewhere while a guard is held
        let Some(mut h) = self.h[s].take() else { return };
        self.note("drop all", s, 0);
        h.kill(self, s);
        self.h[s] = Some(h);
    }

    /// Allocate an array of `n` words.
    fn probe(&mut self, ctx: &mut Ctx, n: u32) {
        let al = self.alloc();
        let v = vec![0x5EED_u32; n as usize];
        self.note("probe", self.m.len(), n as u64);
        let Some(g) = self.call(ctx, "GpuArray::new", || GpuArray::new(&al, &v)) else { return };
        let (st, nt) = (g.array().starting_index() as u32, g.notifier_index());
        let b = Box::new(Arr::<u32> { hy: vec![], gp: vec![g] });
        self.register(ctx, "u32".into(), st, 1, n as usize, vec![Some(0x5EED); n as usize], false, nt, b);
    }

    /// Nothing leaks: with everything dropped and committed, all words are one free range again.
    fn refill(&mut self, ctx: &mut Ctx) {
        // the first finds out how many words there are
        for k in 0..2 {
            for s in self.alive.clone() {
                self.kill(s);
            }
            self.commit(ctx);
            if self.dead {
                return;
            }
            let n = if k == 0 { self.len_hi + 1 } else { self.len };
            self.probe(ctx, n);
            if self.dead {
                return;
            }
        }
        self.commit(ctx);
        self.stat("histories whose slab was refilled entirely");
    }

    fn any_slot(&mut self) -> Option<usize> {
        if self.m.is_empty() {
            return None;
        }
        if self.alive.is_empty() || self.r.chance(1, 12) {
            // maybe a dead one, through its weak handles
            let n = self.m.len();
            let lo = n.saturating_sub(30);
            return Some(lo + self.r.below(n - lo));
        }
        let i = self.r.below(self.alive.len());
        Some(self.alive[i])
    }

    pub fn step(&mut self, ctx: &mut Ctx) {
        crate::report::PROGRESS.fetch_add(1, Ordering::Relaxed);
        if self.dead {
            return;
        }
        self.stat("steps");
        let p = self.prof;
        if self.r.chance(1, p.commit) {
            self.commit(ctx);
            if !p.hot && p.slots < 100 && self.r.chance(1, 4) {
                self.read_everything(ctx);
            }
            return;
        }
        if self.alive.len() < p.slots && self.r.chance(1, p.create) || self.alive.is_empty() && self.r.chance(1, 3) {
            self.create_any(ctx);
            return;
        }
        if p.name == FRAG.name && self.alive.len() > 600 && self.r.chance(1, 400) {
            for s in self.alive.clone() {
                if self.r.chance(1, 2) {
                    self.kill(s);
                }
            }
            self.stat("times half of everything was dropped");
            self.commit(ctx);
            return;
        }
        if !self.alive.is_empty() && self.r.chance(1, p.kill) {
            let i = self.r.below(self.alive.len());
            let s = self.alive[i];
            self.kill(s);
            return;
        }
        match self.r.below(if p.hot { 40 } else { 17 }) {
            0 => self.check_status(ctx),
            16 => self.gpu_writes(),
            1 => self.check_buffers(ctx, self.commits < 400),
            2 => {
                if self.allocs.len() < 4 && self.r.chance(1, 2) {
                    let a = self.alloc();
                    self.allocs.push(a);
                } else if self.allocs.len() > 1 {
                    let i = self.r.below(self.allocs.len());
                    self.allocs.swap_remove(i);
                }
                if self.r.chance(1, 3) {
                    self.note("defrag", usize::MAX, 0);
                    let a = self.alloc();
                    self.call(ctx, "defrag", || a.defrag());
                }
                let a = self.alloc();
                if a.runtime().0.next.load(Ordering::SeqCst) != self.rt.0.next.load(Ordering::SeqCst) {
                    self.fail(ctx, &["A11"], "runtime", "the allocator returned another runtime".into());
                }
            }
            _ => {
                if let Some(s) = self.any_slot() {
                    self.handles_op(ctx, s);
                }
            }
        }
    }

    /// Words change on the GPU; commits must leave them alone until they're assigned again.
    fn gpu_writes(&mut self) {
        let n = self.mem.len();
        let Some(h) = self.bufs.iter().find(|h| Some(h.id) == self.cur) else { return };
        if n == 0 {
            return;
        }
        let at = self.r.below(n.min(self.len as usize + 2));
        for i in at..(at + 1 + self.r.below(9)).min(n) {
            let w = self.r.u64() as u32;
            h.buf.poke(i, w);
            self.mem[i] = w;
        }
        *self.stats.entry("runs of words changed on the GPU").or_insert(0) += 1;
    }

    fn read_everything(&mut self, ctx: &mut Ctx) {
        for s in self.alive.clone() {
            if let Some(mut h) = self.h[s].take() {
                h.read_all(self, ctx, s);
                self.h[s] = Some(h);
            }
        }
    }

    /// Drop the allocators, keep using the handles, drop everything.
    pub fn finish(&mut self, ctx: &mut Ctx) {
        if !self.dead {
            self.commit(ctx);
        }
        if !self.dead {
            let total = self.live.values().map(|v| v.0 as u64).sum::<u64>() + self.free.total();
            if total != self.len as u64 && self.len == self.len_hi {
                ctx.errors.push(format!("harness: model lost words: {total} of {}", self.len));
            }
            self.stat("histories completed");
            // the allocator goes first, sometimes
            if self.r.chance(1, 2) {
                self.refill(ctx);
            } else {
                self.note("drop the allocators", usize::MAX, 0);
                let a = std::mem::take(&mut self.allocs);
                self.call(ctx, "dropping the allocator", || drop(a));
                for _ in 0..20 {
                    if self.dead {
                        break;
                    }
                    let Some(s) = self.any_slot() else { break };
                    self.handles_op(ctx, s);
                    self.stat("operations on handles that outlived their allocator");
                }
                if !self.dead && self.cur.is_some() {
                    // nothing may have been written since
                    self.check_events(ctx, false);
                    for k in 0..self.bufs.len() {
                        let h = &self.bufs[k];
                        if Some(h.id) == self.cur {
                            let same = h.buf.with(|w| w == &self.mem[..]);
                            if !same {
                                self.fail(ctx, &["A02"], "changed-later", "the buffer changed after its allocator was dropped".into());
                                break;
                            }
                        }
                    }
                }
            }
        }
        let dead = self.dead;
        let (a, h) = (std::mem::take(&mut self.allocs), std::mem::take(&mut self.h));
        let r = guarded(|| {
            drop(h);
            drop(a);
        });
        if let Err(c) = r {
            if !dead {
                self.panicked(ctx, "dropping everything", c);
            }
        }
        let held: BTreeSet<u64> = self.bufs.iter().map(|b| b.buf.id).collect();
        let live = self.rt.0.live.load(Ordering::SeqCst);
        if !self.dead && live < held.len() as u64 {
            ctx.errors.push("harness: buffer accounting".into());
        }
        if !self.dead && live > held.len() as u64 + self.cur.map_or(0, |c| !held.contains(&c) as u64 * !self.bufs.is_empty() as u64) {
            self.fail(
                ctx,
                &["C07"],
                "leaked-buffers",
                format!("{live} buffers are left with handles to {} and the allocator gone", held.len()),
            );
        }
        self.bufs.clear();
        let live = self.rt.0.live.load(Ordering::SeqCst);
        if !self.dead && live > 0 {
            self.fail(ctx, &["C07"], "leaked-buffer", format!("{live} buffers are left after everything was dropped"));
        }
        ctx.eval(Some(self.hash));
        for (k, v) in std::mem::take(&mut self.stats) {
            if k.starts_with("largest") {
                ctx.max(k, v);
            } else {
                ctx.stat(k, v);
            }
        }
        ctx.max("longest slab (words)", self.len as u64);
        ctx.max("most commits in one history", self.commits);
        let hist = format!("{}: {} things, {} words, {}", self.prof.name, self.m.len(), self.len, self.history());
        ctx.sample(|| hist.chars().take(500).collect());
    }
}

// ---------------------------------------------------------------------------------------------
// handles of one value

struct Val<T: Shape> {
    hy: Vec<Hybrid<T>>,
    gp: Vec<Gpu<T>>,
    wh: Vec<WeakHybrid<T>>,
    wg: Vec<WeakGpu<T>>,
}

impl<T: Shape + std::fmt::Debug> Val<T> {
    fn sync(&self, w: &mut World, s: usize) {
        w.counts(s, self.hy.len() + self.gp.len(), self.hy.len());
    }
    fn ids(&self, w: &mut World, ctx: &mut Ctx, s: usize) {
        let (start, nt, strong) = (w.m[s].start, w.m[s].notifier, w.m[s].strong);
        let bad_id = self.hy.iter().any(|h| h.id().inner() != start) || self.gp.iter().any(|h| h.id().inner() != start) || self.wh.iter().any(|h| h.id().inner() != start);
        if bad_id {
            w.fail(ctx, &["A03"], "id", format!("a handle of #{s} changed its id from {start}"));
        }
        let bad_nt = self.hy.iter().any(|h| h.notifier_index() != nt)
            || self.gp.iter().any(|h| h.notifier_index() != nt)
            || self.wh.iter().any(|h| h.notifier_index() != nt || h.weak_gpu().notifier_index() != nt)
            || self.wg.iter().any(|h| h.notifier_index() != nt);
        if bad_nt {
            w.fail(ctx, &["A09"], "notifier", format!("a handle of #{s} has another identifier than {nt}"));
        }
        for h in &self.hy {
            if h.ref_count() != strong {
                w.fail(ctx, &["A04"], "ref_count", format!("#{s} has {strong} strong handles, reported {}", h.ref_count()));
            }
        }
        for h in &self.wh {
            if h.strong_count() != strong || h.has_external_references() != (strong > 0) {
                w.fail(
                    ctx,
                    &["A04"],
                    "strong_count",
                    format!(
                        "#{s} has {strong} strong handles, its weak handle reports {} ({})",
                        h.strong_count(),
                        h.has_external_references()
                    ),
                );
            }
        }
    }
}

/// Calls on a value whose user code panicked before may panic, and mean nothing.
macro_rules! tame {
    ($w:expr, $ctx:expr, $s:expr, $what:expr, $f:expr) => {{
        // now and then the thread is unwinding from some other panic
        let r = if $w.r.chance(1, 40) {
            $w.stat("operations while unwinding");
            unwinding($f)
        } else {
            guarded($f)
        };
        FUSE.set(Fuse::Off);
        match r {
            Ok(x) => Some(x),
            Err(Caught::Injected) => {
                $w.note("..panicked", $s, 0);
                $w.go_wild($s);
                None
            }
            Err(c) => {
                if $w.m[$s].wild {
                    if let Caught::Panic(m) = &c {
                        if harness_panic(m) {
                            $ctx.errors.push(m.clone());
                        }
                    }
                    $w.go_wild($s);
                    None
                } else {
                    $w.panicked($ctx, $what, c);
                    return false;
                }
            }
        }
    }};
}

fn arm(w: &mut World, may: bool) {
    if may && w.prof.panics && w.r.chance(1, 3) {
        FUSE.set(match w.r.below(3) {
            0 => Fuse::Clone(0),
            1 => Fuse::Clone(1),
            _ => Fuse::Write(0),
        });
    }
}

impl<T: Shape + std::fmt::Debug> Handles for Val<T> {
    fn read_all(&mut self, w: &mut World, ctx: &mut Ctx, s: usize) {
        if w.m[s].wild || w.dead {
            return;
        }
        for h in &self.hy {
            let Some(v) = w.call(ctx, "get", || h.get()) else { return };
            let v = v.words();
            if v != w.m[s].cpu {
                let m = format!("reading #{s} ({}) gave {}, last assigned {}", w.m[s].ty, show(&v), show(&w.m[s].cpu));
                w.fail(ctx, &["A10"], "get", m);
                return;
            }
        }
        w.stat("reads checked");
        self.ids(w, ctx, s);
    }

    fn kill(&mut self, w: &mut World, s: usize) {
        if w.r.chance(1, 2) {
            self.hy.clear();
            self.gp.clear();
        } else {
            self.gp.clear();
            self.hy.clear();
        }
        self.sync(w, s);
    }

    fn op(&mut self, w: &mut World, ctx: &mut Ctx, s: usize) -> bool {
        let (nh, ng) = (self.hy.len(), self.gp.len());
        let bomb = T::name().contains("Bomb");
        let kind = w.r.below(if w.prof.hot { 8 } else { 16 });
        match kind {
            // assignments
            0 | 1 | 2 if nh > 0 => {
                let k = w.r.below(nh);
                let v = T::gen(&mut w.r);
                let words = v.words();
                let tok = w.r.u64();
                let route = w.r.below(3);
                w.note(["set", "modify", "guard"][route], s, tok & 0xff);
                let old = w.m[s].cpu.clone();
                let wild = w.m[s].wild;
                arm(w, bomb);
                let cry = bomb && w.prof.panics && w.r.chance(1, 8);
                let h = &self.hy[k];
                match route {
                    0 => {
                        if tame!(w, ctx, s, "set", || h.set(v)).is_some() {
                            w.assigned_cpu(s, 0, &words);
                        }
                    }
                    1 => {
                        let busy = w.r.chance(1, 5) && !bomb && !w.allocs.is_empty();
                        let got = tame!(w, ctx, s, "modify", || {
                            let mut seen = vec![];
                            let t = h.modify(|t| {
                                t.enc(&mut seen);
                                if busy {
                                    *t = T::gen(&mut w.r);
                                    w.busy(ctx);
                                }
                                if cry && tok & 1 == 0 {
                                    std::panic::panic_any(Injected);
                                }
                                *t = v;
                                if cry {
                                    std::panic::panic_any(Injected);
                                }
                                tok
                            });
                            (t, seen)
                        });
                        if let Some((t, seen)) = got {
                            if t != tok {
                                w.fail(ctx, &["A10"], "modify-result", format!("modify of #{s} returned {t} instead of {tok}"));
                            }
                            if seen != old && !wild {
                                w.fail(ctx, &["A10"], "modify-old", format!("modify of #{s} saw {}, last assigned {}", show(&seen), show(&old)));
                            }
                            w.assigned_cpu(s, 0, &words);
                        }
                    }
                    _ => {
                        // write through a guard, with other things going on meanwhile
                        let busy = w.r.chance(1, 3) && !bomb && !w.allocs.is_empty();
                        let cry = cry && FUSE.get() == Fuse::Off;
                        let mut v = Some(v);
                        let got = tame!(w, ctx, s, "guard", || {
                            let mut g = if k % 2 == 0 { h.lock() } else { HybridWriteGuard::new(h) };
                            let mut seen = vec![];
                            g.enc(&mut seen);
                            if busy {
                                *g = T::gen(&mut w.r);
                                w.busy(ctx);
                            }
                            *g = v.take().unwrap();
                            if cry {
                                std::panic::panic_any(Injected);
                            }
                            let mut now = vec![];
                            g.enc(&mut now);
                            drop(g);
                            (seen, now)
                        });
                        if let Some((seen, now)) = got {
                            if seen != old && !wild {
                                w.fail(ctx, &["A10"], "guard-old", format!("a guard of #{s} shows {}, last assigned {}", show(&seen), show(&old)));
                            }
                            if now != words {
                                w.fail(ctx, &["A10"], "guard-new", format!("a guard of #{s} shows {} after writing {}", show(&now), show(&words)));
                            }
                            w.assigned_cpu(s, 0, &words);
                            w.m[s].by_guard = true;
                            w.stat("guards written");
                        }
                    }
                }
                w.stat("assignments");
            }
            3 if nh > 0 => {
                // a guard that's only read from
                if w.m[s].wild {
                    return true;
                }
                w.note("guard read", s, 0);
                let before = w.allocs.first().map(|a| a.has_queued_updates());
                let h = &self.hy[w.r.below(nh)];
                let seen = tame!(w, ctx, s, "guard", || {
                    let g = h.lock();
                    let mut seen = vec![];
                    g.enc(&mut seen);
                    seen
                });
                if seen.as_ref() != Some(&w.m[s].cpu) {
                    let m = format!("a guard of #{s} shows {:?}, last assigned {}", seen, show(&w.m[s].cpu));
                    w.fail(ctx, &["A10"], "guard-old", m);
                }
                if let Some(a) = w.allocs.first().cloned() {
                    let quiet = !w.m[s].touched && w.m[s].dirty.is_empty();
                    if before == Some(false) && a.has_queued_updates() || quiet && w.r.chance(1, 3) && a.get_updated_source_ids().contains(&w.m[s].notifier) {
                        w.fail(ctx, &["A10", "A09"], "guard-queued", format!("a guard of #{s} that was only read from queued an update"));
                    }
                }
                w.stat("guards only read");
            }
            4 | 5 if ng > 0 => {
                let v = T::gen(&mut w.r);
                let words = v.words();
                w.note("gpu set", s, 0);
                arm(w, bomb);
                let g = &self.gp[w.r.below(ng)];
                if tame!(w, ctx, s, "Gpu::set", || g.set(v)).is_some() {
                    w.assigned(s, 0, &words);
                }
                w.stat("assignments");
            }
            6 if nh > 0 => {
                if !w.m[s].wild {
                    self.read_all(w, ctx, s);
                    if w.r.chance(1, 6) {
                        let h = &self.hy[w.r.below(nh)];
                        let _ = tame!(w, ctx, s, "Debug", || format!("{h:?}"));
                    }
                    // reading queues nothing
                    if w.r.chance(1, 6) {
                        if let Some(a) = w.allocs.first().cloned() {
                            if !w.m[s].touched && a.get_updated_source_ids().contains(&w.m[s].notifier) {
                                w.fail(ctx, &["A09"], "read-queued", format!("reading #{s} queued an update"));
                            }
                        }
                    }
                }
            }
            7 | 8 if nh + ng > 0 && nh + ng < 6 => {
                w.note("clone", s, 0);
                if nh > 0 && (ng == 0 || w.r.chance(1, 2)) {
                    let h = self.hy[w.r.below(nh)].clone();
                    self.hy.push(h);
                } else {
                    let g = self.gp[w.r.below(ng)].clone();
                    self.gp.push(g);
                }
                w.touch(s);
                self.sync(w, s);
                self.ids(w, ctx, s);
            }
            9 | 10 if nh + ng > 0 && (nh + ng > 1 || w.r.chance(1, 3)) => {
                w.note("drop", s, (nh + ng) as u64);
                w.touch(s);
                if nh > 0 && (ng == 0 || w.r.chance(1, 2)) {
                    let k = w.r.below(nh);
                    let h = self.hy.swap_remove(k);
                    if w.call(ctx, "drop", || drop(h)).is_none() {
                        return false;
                    }
                } else {
                    let k = w.r.below(ng);
                    let g = self.gp.swap_remove(k);
                    if w.call(ctx, "drop", || drop(g)).is_none() {
                        return false;
                    }
                }
                self.sync(w, s);
                self.ids(w, ctx, s);
            }
            11 if nh > 0 => {
                w.note("into_gpu_only", s, 0);
                let k = w.r.below(nh);
                let h = self.hy.swap_remove(k);
                w.touch(s);
                let g = h.into_gpu_only();
                if g.id().inner() != w.m[s].start {
                    w.fail(ctx, &["A03"], "id", format!("the GPU part of #{s} has another id"));
                }
                self.gp.push(g);
                self.sync(w, s);
                self.ids(w, ctx, s);
            }
            12 if nh + ng > 0 => {
                w.note("downgrade", s, 0);
                if nh > 0 && self.wh.len() < 3 {
                    self.wh.push(WeakHybrid::from_hybrid(&self.hy[w.r.below(nh)]));
                }
                if ng > 0 && self.wg.len() < 3 {
                    self.wg.push(WeakGpu::from_gpu(&self.gp[w.r.below(ng)]));
                }
                if let Some(x) = self.wh.last() {
                    if self.wg.len() < 3 {
                        self.wg.push(x.weak_gpu().clone());
                    }
                    if self.wh.len() < 3 {
                        let x = x.clone();
                        self.wh.push(x);
                    }
                }
                self.sync(w, s);
                self.ids(w, ctx, s);
            }
            13 | 14 if self.wh.len() + self.wg.len() > 0 => {
                w.note("upgrade", s, (nh + ng) as u64);
                w.touch(s);
                if !self.wh.is_empty() && w.r.chance(1, 2) {
                    let x = &self.wh[w.r.below(self.wh.len())];
                    let up = x.upgrade();
                    if up.is_some() != (nh > 0) {
                        w.fail(
                            ctx,
                            &["A04"],
                            "upgrade",
                            format!("upgrading a weak handle of #{s} gave something: {}, with {nh} hybrid and {ng} gpu handles", up.is_some()),
                        );
                    }
                    if let Some(h) = up {
                        self.hy.push(h);
                        w.stat("weak handles upgraded");
                    } else {
                        w.stat("upgrades refused");
                    }
                } else if !self.wg.is_empty() {
                    let x = &self.wg[w.r.below(self.wg.len())];
                    let up = x.upgrade();
                    if up.is_some() != (nh + ng > 0) {
                        w.fail(
                            ctx,
                            &["A04"],
                            "upgrade-gpu",
                            format!(
                                "upgrading a weak gpu handle of #{s} gave something: {}, with {nh} hybrid and {ng} gpu handles",
                                up.is_some()
                            ),
                        );
                    }
                    if let Some(g) = up {
                        self.gp.push(g);
                        w.stat("weak handles upgraded");
                    } else {
                        w.stat("upgrades refused");
                    }
                }
                self.sync(w, s);
                self.ids(w, ctx, s);
            }
            _ => {
                if w.r.chance(1, 3) && !self.wh.is_empty() {
                    let k = w.r.below(self.wh.len());
                    self.wh.swap_remove(k);
                }
                self.ids(w, ctx, s);
            }
        }
        !w.dead
    }
}

// ---------------------------------------------------------------------------------------------
// handles of one array

struct Arr<T: Shape> {
    hy: Vec<HybridArray<T>>,
    gp: Vec<GpuArray<T>>,
}

impl<T: Shape + std::fmt::Debug> Arr<T> {
    fn sync(&self, w: &mut World, s: usize) {
        w.counts(s, self.hy.len() + self.gp.len(), self.hy.len());
    }
    fn ids(&self, w: &mut World, ctx: &mut Ctx, s: usize) {
        let (start, nt, strong, n) = (w.m[s].start, w.m[s].notifier, w.m[s].strong, w.m[s].n);
        let mut bad = None;
        let mut ck = |a: crabslab::Array<T>, len: usize, empty: bool, id: &dyn Fn(usize) -> Id<T>| {
            if a.starting_index() as u32 != start || a.len() != n || len != n || empty != (n == 0) {
                bad = Some(format!("{a:?} len {len} empty {empty}"));
            }
            for i in [0, n / 2, n.wrapping_sub(1)] {
                if i < n && id(i).inner() as u64 != start as u64 + (i * T::REF_SIZE) as u64 {
                    bad = Some(format!("element {i} has the id {:?}", id(i)));
                }
            }
            for i in [n, n + 1, n + 0x1_0000, usize::MAX] {
                if !id(i).is_none() {
                    bad = Some(format!("element {i} has the id {:?}", id(i)));
                }
            }
        };
        for h in &self.hy {
            ck(h.array(), h.len(), h.is_empty(), &|i| h.get_id(i));
        }
        for h in &self.gp {
            ck(h.array(), h.len(), h.is_empty(), &|i| h.get_id(i));
        }
        if let Some(b) = bad {
            w.fail(ctx, &["A03"], "array-id", format!("array #{s} of {n} at {start}: {b}"));
        }
        if self.hy.iter().any(|h| h.notifier_index() != nt) || self.gp.iter().any(|h| h.notifier_index() != nt) {
            w.fail(ctx, &["A09"], "notifier", format!("a handle of #{s} has another identifier than {nt}"));
        }
        for h in &self.hy {
            if h.ref_count() != strong {
                w.fail(ctx, &["A04"], "ref_count", format!("array #{s} has {strong} strong handles, reported {}", h.ref_count()));
            }
        }
    }
    fn index(&self, w: &mut World, n: usize) -> usize {
        match w.r.below(12) {
            0 => n,
            1 => *w.r.pick(&[n + 1, n + 7, usize::MAX, 1 << 32, (1 << 32) + n.saturating_sub(1), 0x4000_0000, 0x8000_0000]),
            2 if n > 0 => n - 1,
            _ if n > 0 => w.r.below(n),
            _ => w.r.below(3),
        }
    }
}

impl<T: Shape + std::fmt::Debug> Handles for Arr<T> {
    fn read_all(&mut self, w: &mut World, ctx: &mut Ctx, s: usize) {
        if w.m[s].wild || w.dead {
            return;
        }
        let n = w.m[s].n;
        for h in &self.hy {
            if n > 2000 && w.r.chance(3, 4) {
                continue;
            }
            let Some(v) = w.call(ctx, "get_vec", || h.get_vec()) else { return };
            let mut words = Vec::with_capacity(n * T::REF_SIZE);
            v.iter().for_each(|x| x.enc(&mut words));
            if v.len() != n || words != w.m[s].cpu {
                let k = (0..n.min(v.len())).find(|i| words[w.m[s].el(*i)] != w.m[s].cpu[w.m[s].el(*i)]);
                w.fail(
                    ctx,
                    &["A10"],
                    "get_vec",
                    format!("reading array #{s} of {n} gave {} elements, the first wrong one is {k:?}", v.len()),
                );
                return;
            }
        }
        w.stat("reads checked");
        self.ids(w, ctx, s);
    }

    fn kill(&mut self, w: &mut World, s: usize) {
        self.hy.clear();
        self.gp.clear();
        self.sync(w, s);
    }

    fn op(&mut self, w: &mut World, ctx: &mut Ctx, s: usize) -> bool {
        let (nh, ng) = (self.hy.len(), self.gp.len());
        let n = w.m[s].n;
        let bomb = T::name().contains("Bomb");
        match w.r.below(if w.prof.hot { 8 } else { 14 }) {
            0 | 1 | 2 | 3 if nh > 0 => {
                let k = w.r.below(nh);
                let i = self.index(w, n);
                let v = T::gen(&mut w.r);
                let words = v.words();
                let modify = w.r.chance(1, 2);
                w.note(if modify { "modify item" } else { "set_item" }, s, i as u64);
                let old = if i < n { w.m[s].cpu[w.m[s].el(i)].to_vec() } else { vec![] };
                let wild = w.m[s].wild;
                arm(w, bomb);
                let cry = bomb && w.prof.panics && w.r.chance(1, 8);
                let h = &self.hy[k];
                let tok = w.r.u64();
                let mut seen = vec![];
                let busy = w.r.chance(1, 5) && !bomb && !w.allocs.is_empty();
                let got = tame!(w, ctx, s, "writing an element", || {
                    if modify {
                        h.modify(i, |t| {
                            t.enc(&mut seen);
                            if busy {
                                *t = T::gen(&mut w.r);
                                w.busy(ctx);
                            }
                            if cry && tok & 1 == 0 {
                                std::panic::panic_any(Injected);
                            }
                            *t = v;
                            if cry {
                                std::panic::panic_any(Injected);
                            }
                            tok
                        })
                        .map(|t| t == tok)
                    } else {
                        h.set_item(i, v).map(|t| {
                            t.enc(&mut seen);
                            true
                        })
                    }
                });
                if let Some(got) = got {
                    if got.is_some() != (i < n) || got == Some(false) {
                        w.fail(ctx, &["A10", "A14"], "item-result", format!("writing element {i} of array #{s} of {n} gave {got:?}"));
                        return false;
                    }
                    if i < n {
                        if seen != old && !wild {
                            w.fail(
                                ctx,
                                &["A10"],
                                "item-old",
                                format!("writing element {i} of array #{s} showed the old value {}, last assigned {}", show(&seen), show(&old)),
                            );
                        }
                        w.assigned_cpu(s, i, &words);
                    } else {
                        w.touch(s);
                        w.stat("accesses out of range");
                    }
                }
                w.stat("element assignments");
            }
            4 | 5 if ng > 0 => {
                let i = self.index(w, n);
                let v = T::gen(&mut w.r);
                let words = v.words();
                w.note("gpu set_item", s, i as u64);
                arm(w, bomb);
                let g = &self.gp[w.r.below(ng)];
                if tame!(w, ctx, s, "GpuArray::set_item", || g.set_item(i, &v)).is_some() {
                    if i < n {
                        w.assigned(s, i, &words);
                    } else {
                        w.touch(s);
                        w.stat("accesses out of range");
                    }
                }
                w.stat("element assignments");
            }
            6 if nh > 0 => {
                if !w.m[s].wild {
                    let i = self.index(w, n);
                    let h = &self.hy[w.r.below(nh)];
                    let got = tame!(w, ctx, s, "reading an element", || h.get(i));
                    let got = got.flatten().map(|v| v.words());
                    let want = if i < n { Some(w.m[s].cpu[w.m[s].el(i)].to_vec()) } else { None };
                    if got != want {
                        w.fail(
                            ctx,
                            &["A10"],
                            "get-item",
                            format!("reading element {i} of array #{s} of {n} gave {got:?}, last assigned {want:?}"),
                        );
                    }
                    w.stat("reads checked");
                    if w.r.chance(1, 5) && n < 3000 {
                        self.read_all(w, ctx, s);
                        let h = &self.hy[w.r.below(nh)];
                        let _ = tame!(w, ctx, s, "Debug", || format!("{h:?}"));
                    }
                }
            }
            7 | 8 if nh + ng > 0 && nh + ng < 5 => {
                w.note("clone array", s, 0);
                if nh > 0 && (ng == 0 || w.r.chance(1, 2)) {
                    let h = self.hy[w.r.below(nh)].clone();
                    self.hy.push(h);
                } else {
                    let g = self.gp[w.r.below(ng)].clone();
                    self.gp.push(g);
                }
                w.touch(s);
                self.sync(w, s);
                self.ids(w, ctx, s);
            }
            9 | 10 if nh + ng > 0 && (nh + ng > 1 || w.r.chance(1, 3)) => {
                w.note("drop array", s, (nh + ng) as u64);
                w.touch(s);
                if nh > 0 && (ng == 0 || w.r.chance(1, 2)) {
                    let k = w.r.below(nh);
                    let h = self.hy.swap_remove(k);
                    if w.call(ctx, "drop", || drop(h)).is_none() {
                        return false;
                    }
                } else {
                    let k = w.r.below(ng);
                    let g = self.gp.swap_remove(k);
                    if w.call(ctx, "drop", || drop(g)).is_none() {
                        return false;
                    }
                }
                self.sync(w, s);
                self.ids(w, ctx, s);
            }
            11 if nh > 0 => {
                w.note("array into_gpu_only", s, 0);
                let k = w.r.below(nh);
                let h = self.hy.swap_remove(k);
                w.touch(s);
                self.gp.push(h.into_gpu_only());
                self.sync(w, s);
                self.ids(w, ctx, s);
            }
            _ => self.ids(w, ctx, s),
        }
        !w.dead
    }
}

// ---------------------------------------------------------------------------------------------

pub fn run(ctx: &mut Ctx) {
    let p = ctx.prop.clone();
    // (profile, quick, thorough)
    let plan: Vec<(Profile, u64, u64)> = match p.as_str() {
        "A14" => vec![(DEGENERATE, 15_000, 200_000), (ARRAYS, 2500, 20_000), (HUGE, 6, 60)],
        "A15" => vec![(PANICS, 25_000, 300_000)],
        _ => {
            let heavy = |a: &str| p == a;
            vec![
                (TINY, 6000, 100_000),
                (ONES, 5000, 100_000),
                (MIXED, 2400, 50_000),
                (ARRAYS, 2400, 50_000),
                (DEGENERATE, 1500, 20_000),
                (CHURN, if heavy("A05") { 60 } else { 20 }, 1000),
                (FRAG, if heavy("A05") { 4 } else { 1 }, 60),
                (HUGE, 5, 200),
                (SETS, 5, 100),
                (COMMITS, if heavy("A08") { 2 } else { 1 }, 10),
                (MANY, 1, 20),
                (LONG, if heavy("A05") { 4 } else { 2 }, 20),
                (STEADY, if heavy("A07") { 2 } else { 0 }, 10),
            ]
            .into_iter()
            .chain(if heavy("A07") { vec![(VAST, 1, 6), (STEPS, 1, 20)] } else { vec![] })
            .collect()
        }
    };
    let seed = mix(ctx.seed ^ hash_str("world") ^ hash_str(&p));
    let plan = if cfg!(miri) {
        let all = [TINY, ONES, MIXED, ARRAYS, DEGENERATE, PANICS];
        (0..2).map(|k| (all[(mix(seed ^ k) % 6) as usize], 1, 1)).collect::<Vec<_>>()
    } else {
        plan.into_iter().filter(|p| ctx.scale < 5 || p.1 > 1).collect::<Vec<_>>()
    };
    for (prof, q, t) in plan {
        let n = ctx.n(q, t);
        for k in 0..n {
            let id = mix(seed ^ hash_str(prof.name) ^ k);
            if !ctx.begin(id) {
                continue;
            }
            crate::report::logging(id % 11 == 0);
            ctx.case = format!("allocator history ({})", prof.name);
            let mut w = World::new(Rng::new(id), prof);
            // now and then two allocators side by side
            let mut other = if k % 10 == 9 { Some(World::new(Rng::new(!id), prof)) } else { None };
            for _ in 0..if cfg!(miri) { prof.ops.min(15) } else { prof.ops } {
                w.step(ctx);
                if let Some(o) = &mut other {
                    o.step(ctx);
                }
                if w.dead || ctx.bad() {
                    break;
                }
            }
            w.finish(ctx);
            if let Some(mut o) = other {
                o.finish(ctx);
            }
        }
        ctx.stat(prof.name, n);
        if std::env::var_os("VH_TIMES").is_some() {
            eprintln!("{:?} after {}", ctx.start.elapsed(), prof.name);
        }
    }
}
