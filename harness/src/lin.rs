//! C08: the CPU side of one value, used by several threads, is an atomic register.
//!
//! Every assignment stores a unique token, and whoever sees the value before its own assignment (in a closure,
//! through a guard, or as the old element) says which token that was. The log of calls and returns is judged offline.
use crate::conc::{delay, intact, pause, preempt, It, INTENSITY, PAUSE};
use crate::report::{guarded, Caught, Ctx, PROGRESS};
use crate::rng::{hash_str, mix, Rng};
use craballoc::prelude::*;
use craballoc::value::HybridWriteGuard;
use std::collections::HashMap;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::{Barrier, Mutex};

const N: usize = 3;

pub fn run(ctx: &mut Ctx) {
    let seed = mix(ctx.seed ^ hash_str("registers"));
    preempt::start(seed);
    let n = if cfg!(miri) { ctx.budget.as_secs().min(10) } else { ctx.n(1_000_000, 1_000_000_000) };
    let only = ctx.only.take();
    for k in 0..n {
        // schedules can't be replayed, so try the same scenario for a while
        let id = only.unwrap_or(mix(seed ^ k));
        if only.is_some() && k > 20_000 || !ctx.begin(id) {
            break;
        }
        ctx.case = "threads using one value".into();
        crate::report::logging(id % 11 == 0);
        scenario(ctx, id);
    }
    ctx.stat("preemptions injected", preempt::HITS.load(Relaxed));
    delay::stats(ctx);
}

#[derive(Clone)]
enum Obj {
    V(Hybrid<It<N>>, usize),
    A(HybridArray<It<N>>, usize),
}

#[derive(Clone, Copy)]
struct Op {
    cell: usize,
    call: u64,
    ret: u64,
    /// the token seen
    saw: Option<u32>,
    /// the token assigned
    put: Option<u32>,
    what: &'static str,
    thread: usize,
}

struct Env {
    clock: AtomicU64,
    /// for each cell: is a closure or a guard at it?
    inside: Vec<AtomicBool>,
    fails: Mutex<Vec<(&'static str, String)>>,
}
impl Env {
    fn tick(&self) -> u64 {
        self.clock.fetch_add(1, SeqCst)
    }
    fn fail(&self, sig: &'static str, m: String) {
        let mut f = self.fails.lock().unwrap();
        if f.len() < 10 {
            f.push((sig, m));
        }
    }
    fn token(&self, v: &It<N>, what: &str, cell: usize) -> u32 {
        if !intact(&v.w) {
            self.fail("torn", format!("{what} of cell {cell} saw {:x?}, which nobody assigned as a whole", v.w));
        }
        v.w[0]
    }
    /// Replace the value, which is seen by nobody else, in two steps; give what it was.
    fn replace(&self, x: &mut It<N>, put: u32, what: &str, cell: usize) -> u32 {
        if self.inside[cell].swap(true, SeqCst) {
            self.fail("shared", format!("{what} of cell {cell} runs while another closure or guard has access to it"));
        }
        let saw = self.token(x, what, cell);
        pause();
        let again = self.token(x, what, cell);
        if saw != again {
            self.fail("unstable", format!("during {what} of cell {cell} its value changed from {saw:x} to {again:x}"));
        }
        x.w[0] = !put;
        pause();
        *x = It::new(put);
        self.inside[cell].store(false, SeqCst);
        saw
    }
}

fn scenario(ctx: &mut Ctx, id: u64) {
    let mut r = Rng::new(id);
    let miri = cfg!(miri);
    let nt = r.range(2, if miri { 3 } else { 4 });
    let n = if miri { r.range(2, 5) } else { *r.pick(&[6, 15, 40]) };
    let al = SlabAllocator::<CpuRuntime>::new(CpuRuntime, ());
    let mut objs = vec![];
    let mut cells = 0;
    for _ in 0..r.range(1, 2) {
        let first = |c: usize| It::<N>::new(0xF000_0000 | c as u32);
        if r.chance(1, 2) {
            objs.push(Obj::V(al.new_value(first(cells)), cells));
            cells += 1;
        } else {
            let k = r.range(1, 3);
            objs.push(Obj::A(al.new_array((cells..cells + k).map(first)), cells));
            cells += k;
        }
    }
    let env = Env {
        clock: AtomicU64::new(1),
        inside: (0..cells).map(|_| AtomicBool::new(false)).collect(),
        fails: Mutex::new(vec![]),
    };
    let (rate, intensity) = (*r.pick(&[0, 300, 2000, 10_000]), *r.pick(&[0, 60, 300]));
    // now and then nothing but increments
    let only_rmw = r.chance(1, 4);
    let barrier = Barrier::new(nt);
    let logs: Mutex<Vec<Op>> = Mutex::new(vec![]);
    let panics: Mutex<Vec<String>> = Mutex::new(vec![]);
    preempt::rate(rate);
    std::thread::scope(|sc| {
        for t in 0..nt {
            let mut r = Rng::new(r.u64());
            let one_in = *r.pick(&[0, 60, 300, 1000]);
            let mine = objs.clone();
            let al = al.clone();
            let (env, barrier, logs, panics) = (&env, &barrier, &logs, &panics);
            sc.spawn(move || {
                let reg = preempt::Reg::new();
                PAUSE.set(r.u64() | 1);
                INTENSITY.set(intensity);
                barrier.wait();
                delay::at(r.u64() | 1, one_in);
                let mut log = vec![];
                let res = guarded(|| {
                    for k in 0..n {
                        PROGRESS.fetch_add(1, Relaxed);
                        let put = (t as u32 + 1) << 20 | k as u32;
                        match r.pick(&mine) {
                            Obj::V(h, cell) => on_value(env, &mut r, h, *cell, put, only_rmw, t, &al, &mut log),
                            Obj::A(h, first) => on_array(env, &mut r, h, *first, put, only_rmw, t, &mut log),
                        }
                        if r.chance(1, 6) {
                            al.commit();
                        }
                    }
                });
                if let Err(Caught::Panic(m)) = res {
                    panics.lock().unwrap().push(m);
                }
                delay::at(1, 0);
                PAUSE.set(0);
                drop(reg);
                logs.lock().unwrap().extend(log);
            });
        }
    });
    preempt::rate(0);
    for m in panics.into_inner().unwrap() {
        if crate::report::harness_panic(&m) {
            ctx.errors.push(m);
            return;
        }
        ctx.fail_any("panic", format!("a thread panicked: {m}"));
    }
    if ctx.bad() {
        return;
    }
    // what is there at the end
    let mut log = logs.into_inner().unwrap();
    for o in &objs {
        let (first, vs) = match o {
            Obj::V(h, c) => (*c, vec![h.get()]),
            Obj::A(h, c) => (*c, h.get_vec()),
        };
        for (k, v) in vs.iter().enumerate() {
            log.push(Op { cell: first + k, call: env.tick(), ret: env.tick(), saw: Some(env.token(v, "the last read", first + k)), put: None, what: "the last read", thread: 99 });
        }
    }
    for (s, m) in env.fails.into_inner().unwrap() {
        ctx.fail("C08", s, m);
    }
    log.sort_by_key(|o| o.call);
    let mut h = 0u64;
    for o in &log {
        h = mix(h ^ o.saw.unwrap_or(0) as u64 ^ (o.put.unwrap_or(0) as u64) << 32 ^ (o.cell as u64) << 60);
    }
    for c in 0..cells {
        let ops: Vec<Op> = log.iter().filter(|o| o.cell == c).cloned().collect();
        if !ctx.bad() {
            judge(ctx, c, &ops);
        }
    }
    ctx.stat("operations", log.len() as u64);
    ctx.stat("reads", log.iter().filter(|o| o.put.is_none()).count() as u64);
    ctx.stat("assignments that saw the value before", log.iter().filter(|o| o.put.is_some() && o.saw.is_some()).count() as u64);
    ctx.stat("assignments that did not", log.iter().filter(|o| o.put.is_some() && o.saw.is_none()).count() as u64);
    let mut over = 0;
    for (i, a) in log.iter().enumerate() {
        over += log[i + 1..].iter().take_while(|b| b.call < a.ret).filter(|b| b.cell == a.cell).count();
    }
    ctx.stat("pairs of operations on one cell that overlap", over as u64);
    ctx.eval(Some(h));
    ctx.sample(|| format!("{nt} threads, {n} operations each, {cells} cells, {over} overlapping pairs"));
}

#[allow(clippy::too_many_arguments)]
fn on_value(env: &Env, r: &mut Rng, h: &Hybrid<It<N>>, cell: usize, put: u32, only_rmw: bool, thread: usize, al: &SlabAllocator<CpuRuntime>, log: &mut Vec<Op>) {
    let weak;
    let other;
    // through this handle, a clone of it, or one that was weak
    let h = match r.below(4) {
        0 => {
            other = h.clone();
            &other
        }
        1 => {
            weak = WeakHybrid::from_hybrid(h);
            match weak.upgrade() {
                Some(u) => {
                    other = u;
                    &other
                }
                None => {
                    env.fail("refused", format!("a weak handle to cell {cell} doesn't upgrade although there are strong ones"));
                    h
                }
            }
        }
        _ => h,
    };
    let call = env.tick();
    let mut op = Op { cell, call, ret: 0, saw: None, put: None, what: "", thread };
    match if only_rmw { r.below(3) } else { r.below(10) } {
        0 | 1 => {
            op.what = "modify";
            let saw = h.modify(|x| env.replace(x, put, "modify", cell));
            (op.saw, op.put) = (Some(saw), Some(put));
        }
        2 => {
            op.what = "a written guard";
            let mut g = if r.chance(1, 2) { h.lock() } else { HybridWriteGuard::new(h) };
            if r.chance(1, 6) {
                al.commit();
            }
            let saw = env.replace(&mut g, put, "a written guard", cell);
            drop(g);
            (op.saw, op.put) = (Some(saw), Some(put));
        }
        3 => {
            op.what = "a guard";
            let g = h.lock();
            let saw = env.token(&g, "a guard", cell);
            pause();
            let again = env.token(&g, "a guard", cell);
            if saw != again {
                env.fail("unstable", format!("the value behind a guard of cell {cell} changed from {saw:x} to {again:x}"));
            }
            drop(g);
            op.saw = Some(saw);
        }
        4 | 5 => {
            op.what = "set";
            h.set(It::new(put));
            op.put = Some(put);
        }
        _ => {
            op.what = "get";
            op.saw = Some(env.token(&h.get(), "get", cell));
        }
    }
    op.ret = env.tick();
    log.push(op);
}

#[allow(clippy::too_many_arguments)]
fn on_array(env: &Env, r: &mut Rng, h: &HybridArray<It<N>>, first: usize, put: u32, only_rmw: bool, thread: usize, log: &mut Vec<Op>) {
    let other;
    let h = if r.chance(1, 4) {
        other = h.clone();
        &other
    } else {
        h
    };
    let k = r.below(h.len());
    let cell = first + k;
    let call = env.tick();
    let mut op = Op { cell, call, ret: 0, saw: None, put: None, what: "", thread };
    match if only_rmw { r.below(3) } else { r.below(8) } {
        0 | 1 => {
            op.what = "modify of an element";
            let saw = h.modify(k, |x| env.replace(x, put, "modify of an element", cell));
            (op.saw, op.put) = (saw, Some(put));
        }
        2 | 3 => {
            op.what = "set_item";
            let old = h.set_item(k, It::new(put));
            (op.saw, op.put) = (old.map(|v| env.token(&v, "set_item", cell)), Some(put));
        }
        4 => {
            op.what = "get_vec";
            let vs = h.get_vec();
            let ret = env.tick();
            for (i, v) in vs.iter().enumerate() {
                log.push(Op { cell: first + i, ret, saw: Some(env.token(v, "get_vec", first + i)), ..op });
            }
            return;
        }
        _ => {
            op.what = "get of an element";
            op.saw = h.get(k).map(|v| env.token(&v, "get of an element", cell));
        }
    }
    op.ret = env.tick();
    log.push(op);
}

/// Is there an order of `ops` that explains what was seen? Only certain contradictions are reported.
fn judge(ctx: &mut Ctx, cell: usize, ops: &[Op]) {
    let init = 0xF000_0000 | cell as u32;
    let name = |o: &Op| format!("{} by thread {} [{}, {}]", o.what, o.thread, o.call, o.ret);
    // when each token was surely not there yet, and from when on it surely had been
    let mut lo: HashMap<u32, u64> = HashMap::new();
    let mut hi: HashMap<u32, u64> = HashMap::new();
    let mut by: HashMap<u32, Op> = HashMap::new();
    let mut pred: HashMap<u32, u32> = HashMap::new();
    lo.insert(init, 0);
    hi.insert(init, 0);
    for o in ops.iter().filter(|o| o.put.is_some()) {
        let t = o.put.unwrap();
        lo.insert(t, o.call);
        hi.insert(t, o.ret);
        by.insert(t, *o);
    }
    let mut next: HashMap<u32, Op> = HashMap::new();
    for o in ops {
        let Some(t) = o.saw else { continue };
        if !lo.contains_key(&t) {
            ctx.fail("C08", "unknown", format!("{} of cell {cell} saw {t:x}, which nobody assigned to it", name(o)));
            return;
        }
        if o.ret < lo[&t] {
            ctx.fail("C08", "future", format!("{} of cell {cell} saw what {} assigned later", name(o), name(&by[&t])));
            return;
        }
        let e = hi.get_mut(&t).unwrap();
        *e = (*e).min(o.ret);
        if let Some(p) = o.put {
            pred.insert(p, t);
            if let Some(q) = next.insert(t, *o) {
                ctx.fail("C08", "lost", format!("{} and {} of cell {cell} both saw {t:x} and replaced it: an update is lost", name(&q), name(o)));
                return;
            }
        }
    }
    // a token follows the one it replaced
    for _ in 0..2 {
        for (t, p) in &pred {
            let l = lo[p].max(lo[t]);
            lo.insert(*t, l);
            let h = hi[t].min(hi[p]);
            hi.insert(*p, h);
        }
    }
    let all: Vec<(u32, u64, u64)> = by.keys().map(|t| (*t, lo[t], hi[t])).collect();
    for o in ops {
        let Some(t) = o.saw else { continue };
        // something surely came after `t`, and before the operation began
        if let Some((x, _, _)) = all.iter().find(|(x, l, h)| *x != t && Some(*x) != o.put && *l > hi[&t] && *h < o.call) {
            ctx.fail(
                "C08",
                "stale",
                format!("{} of cell {cell} saw {t:x}, although {} had replaced it before", name(o), name(&by[x])),
            );
            return;
        }
        // the token was replaced for sure before the operation began
        if let Some(q) = next.get(&t) {
            if Some(q.put) != Some(o.put) && hi[&q.put.unwrap()] < o.call {
                ctx.fail("C08", "stale", format!("{} of cell {cell} saw {t:x}, although {} had replaced it before", name(o), name(q)));
                return;
            }
        }
    }
    ctx.stat("cells judged", 1);
}
