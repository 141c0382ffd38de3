//! A06, A12, A13: range managers and the reference runtime against bitmaps and plain memory.
use crate::report::{guarded, harness_panic, must, Caught, Ctx};
use crate::rng::{hash_str, mix, Rng};
use craballoc::prelude::*;
use craballoc::range::{IsRange, Range, RangeManager};
use crabslab::Array;
use std::ops::Bound;

pub fn run(ctx: &mut Ctx) {
    match ctx.prop.as_str() {
        "A06" => ranges(ctx),
        "A12" => updates(ctx),
        "H02" => hostile(ctx),
        _ => memory(ctx),
    }
}

pub use crate::report::block_on;

// ---------------------------------------------------------------------------------------------
// A06

fn base(r: &mut Rng, n: usize) -> u32 {
    match r.below(5) {
        0 => 1,
        1 => u32::MAX - n as u32,
        2 => (1 << 31) - (n as u32) / 2,
        3 => r.u32() % (u32::MAX - n as u32),
        _ => 0,
    }
}

fn runs(bits: &[bool]) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut i = 0;
    while i < bits.len() {
        if bits[i] {
            let a = i;
            while i < bits.len() && bits[i] {
                i += 1;
            }
            v.push((a, i));
        } else {
            i += 1;
        }
    }
    v
}

fn ranges(ctx: &mut Ctx) {
    let seed = mix(ctx.seed ^ hash_str("ranges"));
    for k in 0..ctx.n(30_000, 600_000) {
        let id = mix(seed ^ k);
        if !ctx.begin(id) {
            continue;
        }
        let mut r = Rng::new(id);
        let n = match r.below(10) {
            0 => r.range(1, 6),
            1 if r.chance(1, 30) => r.range(60_000, 300_000),
            1 => r.range(1000, 5000),
            _ => r.range(8, 96),
        };
        let b = base(&mut r, n);
        ctx.case = format!("range manager over {n} indices from {b}");
        range_history(ctx, &mut r, n, b);
        if ctx.bad() {
            return;
        }
        range_algebra(ctx, &mut r);
    }
}

fn range_history(ctx: &mut Ctx, r: &mut Rng, n: usize, b: u32) {
    let mut m = RangeManager::<Range>::default();
    let mut bits = vec![false; n];
    let mut trace: Vec<String> = vec![];
    let mut h = mix(n as u64 ^ (b as u64) << 32);
    let ops = if n > 50_000 { 60 } else if n > 1000 { 400 } else { r.range(5, 150) };
    let bias = r.range(1, 9);
    let max = if n > 50_000 { *r.pick(&[3, 70_000, 150_000]) } else { *r.pick(&[1, 2, 3, 6, 20, 400]) };
    let mut check = 0;
    for _ in 0..ops {
        let frees = runs(&bits.iter().map(|x| !x).collect::<Vec<_>>());
        let op;
        if r.below(10) < bias && !frees.is_empty() {
            // add a part of what isn't managed
            let (a, e) = *r.pick(&frees);
            let l = r.range(1, (e - a).min(max));
            let s = match r.below(4) {
                0 => a,
                1 => e - l,
                _ => a + r.below(e - a - l + 1),
            };
            op = format!("add {}+{l}", b as usize + s);
            let first = b + s as u32;
            let range = if r.chance(1, 2) {
                Range {
                    first_index: first,
                    last_index: first + l as u32 - 1,
                }
            } else {
                let Some(x) = must(ctx, "Range::from", || Range::from(Array::<u32>::new(first, l as u32))) else { return };
                x
            };
            bits[s..s + l].fill(true);
            if must(ctx, "add_range", || m.add_range(range)).is_none() {
                return;
            }
            ctx.stat("ranges added", 1);
        } else {
            let rs = runs(&bits);
            let longest = rs.iter().map(|(a, e)| e - a).max().unwrap_or(0);
            let c = match r.below(8) {
                0 => 0,
                1 => longest as u32,
                2 => longest as u32 + 1,
                3 => *r.pick(&[u32::MAX, u32::MAX - 1, 1 << 31, 65536]),
                4 => rs.iter().map(|(a, e)| e - a).sum::<usize>() as u32,
                _ => r.range(1, max + 1) as u32,
            };
            op = format!("remove {c}");
            let before: Vec<(u32, u32)> = m.ranges.iter().map(|x| (x.first_index, x.last_index)).collect();
            let Some(got) = must(ctx, "remove", || m.remove(c)) else { return };
            match got {
                None => {
                    ctx.stat("removals refused", 1);
                    if c > 0 && c as usize <= longest {
                        ctx.fail("A06", "refused", format!("removing {c} failed with a run of {longest} managed; {trace:?}"));
                        return;
                    }
                    let after: Vec<(u32, u32)> = m.ranges.iter().map(|x| (x.first_index, x.last_index)).collect();
                    let (mut x, mut y) = (before, after);
                    x.sort_unstable();
                    y.sort_unstable();
                    if x != y {
                        ctx.fail("A06", "refused-changed", format!("a failed removal of {c} changed {x:?} to {y:?}; {trace:?}"));
                        return;
                    }
                }
                Some(g) => {
                    ctx.stat("blocks removed", 1);
                    let (f, l) = (g.first_index, g.last_index);
                    if c == 0 || l < f || l - f + 1 != c || g.len() != c {
                        ctx.fail("A06", "size", format!("removing {c} gave {f}..={l}; {trace:?}"));
                        return;
                    }
                    let ok = f >= b && (l - b) < n as u32 && bits[(f - b) as usize..=(l - b) as usize].iter().all(|x| *x);
                    if !ok {
                        ctx.fail("A06", "not-managed", format!("removing {c} gave {f}..={l}, which isn't managed; {trace:?}"));
                        return;
                    }
                    bits[(f - b) as usize..=(l - b) as usize].fill(false);
                }
            }
        }
        h = mix(h ^ hash_str(&op));
        if trace.len() > 40 {
            trace.remove(0);
        }
        trace.push(op);
        check += 1;
        if n > 1000 && n < 50_000 && check % 10 != 0 {
            continue;
        }
        // the managed ranges are exactly the maximal runs
        let mut got: Vec<(usize, usize)> = vec![];
        for x in &m.ranges {
            if x.first_index > x.last_index || x.first_index < b || x.last_index as usize >= b as usize + n {
                ctx.fail("A06", "invented", format!("{}..={} is managed; {trace:?}", x.first_index, x.last_index));
                return;
            }
            if x.len() as usize != (x.last_index - x.first_index) as usize + 1 || x.is_empty() {
                ctx.fail("A06", "len", format!("{}..={} says its length is {}", x.first_index, x.last_index, x.len()));
                return;
            }
            got.push(((x.first_index - b) as usize, (x.last_index - b) as usize + 1));
        }
        got.sort_unstable();
        let want = runs(&bits);
        if got != want {
            ctx.fail("A06", "content", format!("managed {got:?} instead of the maximal runs {want:?} (from {b}); {trace:?}"));
            return;
        }
        if m.len() != want.len() || m.is_empty() != want.is_empty() {
            ctx.fail("A06", "count", format!("{} ranges are managed, len says {} (empty: {})", want.len(), m.len(), m.is_empty()));
            return;
        }
        ctx.max("most ranges managed", want.len() as u64);
    }
    ctx.eval(Some(h));
    ctx.sample(|| format!("{n} indices from {b}: {}", trace.join(", ")));
}

/// Single ranges as sets.
fn range_algebra(ctx: &mut Ctx, r: &mut Rng) {
    let b = base(r, 40);
    for _ in 0..4 {
        let (s1, s2) = (r.below(16), r.below(16));
        let (l1, l2) = (r.range(1, 8), r.range(1, 8));
        let x = Range {
            first_index: b + s1 as u32,
            last_index: b + (s1 + l1) as u32 - 1,
        };
        let y = Range {
            first_index: b + s2 as u32,
            last_index: b + (s2 + l2) as u32 - 1,
        };
        let meet = s1 < s2 + l2 && s2 < s1 + l1;
        if x.len() as usize != l1 || x.is_empty() {
            ctx.fail("A06", "range-len", format!("{x:?} has the length {} (empty: {})", x.len(), x.is_empty()));
        }
        if x.intersects(&y) != meet || y.intersects(&x) != meet {
            ctx.fail("A06", "intersects", format!("{x:?} intersects {y:?}: {} / {}", x.intersects(&y), y.intersects(&x)));
        }
        if !meet {
            let touch = s1 + l1 == s2 || s2 + l2 == s1;
            let Some(got) = must(ctx, "should_merge_with", || x.should_merge_with(&y)) else { return };
            if got != touch {
                ctx.fail("A06", "should-merge", format!("{x:?} should merge with {y:?}: {got}"));
            }
            if touch {
                let mut u = x;
                if must(ctx, "union", || u.union(y)).is_none() {
                    return;
                }
                if u.first_index != b + s1.min(s2) as u32 || u.len() as usize != l1 + l2 {
                    ctx.fail("A06", "union", format!("the union of {x:?} and {y:?} is {u:?}"));
                }
            }
        }
        // arrays of larger items
        let n = r.range(1, 5);
        macro_rules! from {
            ($t:ty, $s:expr) => {{
                let Some(g) = must(ctx, "Range::from", || Range::from(Array::<$t>::new(x.first_index % 1_000_000, n as u32))) else { return };
                if g.first_index != x.first_index % 1_000_000 || g.len() as usize != n * $s {
                    ctx.fail("A06", "from-array", format!("{n} items of {} words at {} are the range {g:?}", $s, x.first_index % 1_000_000));
                }
            }};
        }
        from!(u64, 2);
        from!([u32; 5], 5);
        ctx.stat("pairs of ranges", 1);
    }
}

// ---------------------------------------------------------------------------------------------
// A12

fn updates(ctx: &mut Ctx) {
    let seed = mix(ctx.seed ^ hash_str("updates"));
    for k in 0..ctx.n(100_000, 2_000_000) {
        let id = mix(seed ^ k);
        if !ctx.begin(id) {
            continue;
        }
        let mut r = Rng::new(id);
        let n = match r.below(12) {
            0 => r.range(1, 4),
            1 => r.range(500, 6000),
            _ => r.range(5, 80),
        };
        let b = match r.below(4) {
            0 => base(&mut r, n),
            _ => 0,
        };
        let max = *r.pick(&[1, 2, 4, 8, 30, 6000]);
        let count = if n >= 500 { r.range(50, 600) } else { r.range(1, 40) };
        ctx.case = format!("{count} updates of {n} words from {b}");
        let poison = r.u32();
        let init: Vec<u32> = (0..n as u32).map(|i| poison ^ i.wrapping_mul(0x9E37_79B9)).collect();
        let mut want = init.clone();
        let mut covered = vec![false; n];
        let mut m = RangeManager::<SlabUpdate>::default();
        let mut trace = vec![];
        let mut h = mix(n as u64 ^ (b as u64) << 32);
        let mut last: Option<(usize, usize)> = None;
        for j in 0..count {
            let (s, l) = match (last, r.below(10)) {
                // the same place again, or next to it
                (Some(x), 0) => x,
                (Some((s, l)), 1) if s + l < n => (s + l, r.range(1, (n - s - l).min(max))),
                (_, 2) if r.chance(1, 3) => (r.below(n + 1), 0),
                _ => {
                    let l = r.range(1, n.min(max));
                    (r.below(n - l + 1), l)
                }
            };
            last = Some((s, l));
            let es: Vec<u32> = (0..l).map(|i| if r.chance(1, 8) { 0 } else { (j as u32) << 16 | i as u32 }).collect();
            want[s..s + l].copy_from_slice(&es);
            covered[s..s + l].fill(true);
            trace.push(format!("{s}+{l}"));
            h = mix(h ^ (s as u64) << 20 ^ l as u64);
            let u = SlabUpdate {
                array: Array::new(b + s as u32, l as u32),
                elements: es,
            };
            if must(ctx, "add_range", || m.add_range(u)).is_none() {
                return;
            }
        }
        let mut spans: Vec<(usize, usize)> = vec![];
        for u in &m.ranges {
            let (s, l) = (u.array.index as usize, u.array.len as usize);
            if l != u.elements.len() {
                ctx.fail("A12", "length", format!("a merged update of {l} words at {s} has {} words of data; {trace:?}", u.elements.len()));
                return;
            }
            if l == 0 {
                continue;
            }
            let ok = s >= b as usize && s + l <= b as usize + n && covered[s - b as usize..s + l - b as usize].iter().all(|x| *x);
            if !ok {
                ctx.fail("A12", "uncovered", format!("a merged update writes {s}+{l}, some of which wasn't updated (from {b}); {trace:?}"));
                return;
            }
            spans.push((s, l));
        }
        spans.sort_unstable();
        if let Some(w) = spans.windows(2).find(|w| w[0].0 + w[0].1 > w[1].0) {
            ctx.fail("A12", "overlap", format!("merged updates {}+{} and {}+{} overlap; {trace:?}", w[0].0, w[0].1, w[1].0, w[1].1));
            return;
        }
        if m.len() != m.ranges.len() || m.is_empty() != m.ranges.is_empty() {
            ctx.fail("A12", "count", format!("{} updates are managed, len says {}", m.ranges.len(), m.len()));
        }
        for pass in 0..3 {
            let mut order: Vec<usize> = (0..m.ranges.len()).collect();
            match pass {
                0 => {}
                1 => order.reverse(),
                _ => r.shuffle(&mut order),
            }
            let mut mem = init.clone();
            for i in order {
                let u = &m.ranges[i];
                if u.elements.is_empty() {
                    continue;
                }
                let s = (u.array.index - b) as usize;
                mem[s..s + u.elements.len()].copy_from_slice(&u.elements);
            }
            if mem != want {
                let i = (0..n).find(|i| mem[*i] != want[*i]).unwrap();
                ctx.fail(
                    "A12",
                    "content",
                    format!("word {i} became {:x} instead of {:x} (order {pass}); updates {trace:?}", mem[i], want[i]),
                );
                return;
            }
        }
        ctx.stat("updates added", count as u64);
        ctx.stat("updates left after merging", m.ranges.len() as u64);
        ctx.eval(Some(h));
        ctx.sample(|| format!("{n} words from {b}: {}", trace.join(", ")));
        pairs(ctx, &mut r);
        if ctx.bad() {
            return;
        }
    }
}

fn pairs(ctx: &mut Ctx, r: &mut Rng) {
    let b = base(r, 40);
    let mut mk = |v: u32| {
        let l = r.range(1, 8);
        let s = r.below(16);
        (
            s,
            l,
            SlabUpdate {
                array: Array::new(b + s as u32, l as u32),
                elements: (0..l as u32).map(|i| v + i).collect(),
            },
        )
    };
    let (s1, l1, x) = mk(100);
    let (s2, l2, y) = mk(200);
    let meet = s1 < s2 + l2 && s2 < s1 + l1;
    if x.intersects(&y) != meet || y.intersects(&x) != meet {
        ctx.fail("A12", "intersects", format!("updates {s1}+{l1} and {s2}+{l2} from {b} intersect: {} / {}", x.intersects(&y), y.intersects(&x)));
    }
    if x.should_merge_with(&y) {
        let mut u = x.clone();
        if must(ctx, "union", || u.union(y.clone())).is_none() {
            return;
        }
        let s = s1.min(s2);
        let mut want = vec![None; 40];
        (0..l1).for_each(|i| want[s1 + i] = Some(x.elements[i]));
        (0..l2).for_each(|i| want[s2 + i] = Some(y.elements[i]));
        let got: Vec<Option<u32>> = u.elements.iter().map(|x| Some(*x)).collect();
        let e = (s1 + l1).max(s2 + l2);
        if u.array.index != b + s as u32 || u.array.len as usize != u.elements.len() || got != want[s..e] {
            ctx.fail("A12", "union", format!("the union of {x:?} and {y:?} is {u:?}"));
        }
    } else if meet {
        ctx.fail("A12", "should-merge", format!("the overlapping {x:?} and {y:?} don't merge"));
    }
    ctx.stat("pairs of updates", 1);
}

// ---------------------------------------------------------------------------------------------
// A13

fn memory(ctx: &mut Ctx) {
    let seed = mix(ctx.seed ^ hash_str("memory"));
    for k in 0..ctx.n(60_000, 800_000) {
        let id = mix(seed ^ k);
        if !ctx.begin(id) {
            continue;
        }
        let mut r = Rng::new(id);
        let n0 = match r.below(10) {
            0 => 0,
            1 => 1,
            2 if !cfg!(miri) => r.range(1000, 70_000),
            _ => r.range(2, 90),
        };
        ctx.case = format!("CPU buffer of {n0} words");
        let mut h = mix(n0 as u64);
        let rt = CpuRuntime;
        let label = |r: &mut Rng| *r.pick(&[None, Some(""), Some("label")]);
        let l = label(&mut r);
        let Some(mut buf) = must(ctx, "buffer_create", || rt.buffer_create(n0, l, ())) else { return };
        let mut mem = vec![0u32; n0];
        for step in 0..r.range(3, 14) {
            let n = mem.len();
            let what = match r.below(10) {
                0 | 1 => {
                    // copy to another one, which may be larger and in use already
                    let extra = *r.pick(&[0, 0, 1, n, 3, 100]);
                    let l = label(&mut r);
                    let Some(dst) = must(ctx, "buffer_create", || rt.buffer_create(n + extra, l, ())) else { return };
                    let mut dmem = vec![0u32; n + extra];
                    if dst.as_vec()[..] != dmem[..] {
                        ctx.fail("A13", "create", format!("a new buffer of {} words isn't that many zeroes", n + extra));
                        return;
                    }
                    if n + extra > 0 && r.chance(1, 2) {
                        let us = batch(&mut r, &mut dmem);
                        if must(ctx, "buffer_write", || rt.buffer_write(us.into_iter(), &dst)).is_none() {
                            return;
                        }
                    }
                    dmem[..n].copy_from_slice(&mem);
                    if must(ctx, "buffer_copy", || rt.buffer_copy(&buf, &dst, l)).is_none() {
                        return;
                    }
                    if buf.as_vec()[..] != mem[..] {
                        ctx.fail("A13", "copy-source", "copying changed the source".into());
                        return;
                    }
                    buf = dst;
                    mem = dmem;
                    "copy"
                }
                2..=5 if n > 0 => {
                    let us = batch(&mut r, &mut mem);
                    if must(ctx, "buffer_write", || rt.buffer_write(us.into_iter(), &buf)).is_none() {
                        return;
                    }
                    "write"
                }
                _ => {
                    let (s, e) = {
                        let (a, b) = match r.below(6) {
                            0 => (0, n),
                            1 => (n, n),
                            2 => (0, 0),
                            _ => (r.below(n + 1), r.below(n + 1)),
                        };
                        (a.min(b), a.max(b))
                    };
                    let (sb, eb) = bounds(&mut r, s, e, n);
                    let got = match guarded(|| block_on(rt.buffer_read(&buf, n, (sb, eb)))) {
                        Ok(Ok(v)) => v,
                        Ok(Err(x)) => {
                            ctx.fail("A13", "read-error", format!("reading {sb:?}..{eb:?} of {n} words failed: {x}"));
                            return;
                        }
                        Err(Caught::Panic(m)) if harness_panic(&m) => {
                            ctx.errors.push(m);
                            return;
                        }
                        Err(c) => {
                            let m = if let Caught::Panic(m) = c { m } else { "?".into() };
                            ctx.fail("A13", "read-panic", format!("reading {sb:?}..{eb:?} of {n} words panicked: {m}"));
                            return;
                        }
                    };
                    if got != mem[s..e] {
                        ctx.fail(
                            "A13",
                            "read",
                            format!("reading {sb:?}..{eb:?} of {n} words gave {} words, which aren't those at {s}..{e}", got.len()),
                        );
                        return;
                    }
                    if std_ranges(ctx, &mut r, &buf, &mem, s, e).is_none() {
                        return;
                    }
                    ctx.stat("reads", 2);
                    h = mix(h ^ (s as u64) << 24 ^ e as u64);
                    "read"
                }
            };
            h = mix(h ^ hash_str(what));
            ctx.stat(what, 1);
            if mem.len() < 200 || step % 4 == 0 {
                let same = buf.as_vec()[..] == mem[..];
                if !same {
                    let v = buf.as_vec();
                    let i = (0..mem.len().min(v.len())).find(|i| v[*i] != mem[*i]);
                    ctx.fail(
                        "A13",
                        "content",
                        format!("after a {what} the buffer of {} words (expected {}) differs at {i:?}", v.len(), mem.len()),
                    );
                    return;
                }
            }
        }
        ctx.eval(Some(h));
    }
}

fn batch(r: &mut Rng, mem: &mut [u32]) -> Vec<SlabUpdate> {
    let n = mem.len();
    (0..r.range(0, 6))
        .map(|_| {
            let l = if r.chance(1, 10) { n } else { r.range(0, n.min(9)) };
            let s = match r.below(4) {
                0 => n - l,
                1 => 0,
                _ => r.below(n - l + 1),
            };
            let es: Vec<u32> = (0..l).map(|_| r.word()).collect();
            mem[s..s + l].copy_from_slice(&es);
            SlabUpdate {
                array: Array::new(s as u32, l as u32),
                elements: es,
            }
        })
        .collect()
}

/// Bounds that select `s..e` of `n` words.
fn bounds(r: &mut Rng, s: usize, e: usize, n: usize) -> (Bound<usize>, Bound<usize>) {
    let sb = match r.below(3) {
        0 if s == 0 => Bound::Unbounded,
        1 if s > 0 => Bound::Excluded(s - 1),
        _ => Bound::Included(s),
    };
    let eb = match r.below(3) {
        0 if e == n => Bound::Unbounded,
        1 if e > 0 => Bound::Included(e - 1),
        _ => Bound::Excluded(e),
    };
    (sb, eb)
}

fn std_ranges(ctx: &mut Ctx, r: &mut Rng, buf: &VecSlab, mem: &[u32], s: usize, e: usize) -> Option<()> {
    let n = mem.len();
    let rt = CpuRuntime;
    let got = must(ctx, "buffer_read", || match r.below(6) {
        0 if e > s => (mem[s..e].to_vec(), block_on(rt.buffer_read(buf, n, s..=e - 1))),
        1 => (mem[s..].to_vec(), block_on(rt.buffer_read(buf, n, s..))),
        2 => (mem[..e].to_vec(), block_on(rt.buffer_read(buf, n, ..e))),
        3 if e > 0 => (mem[..e].to_vec(), block_on(rt.buffer_read(buf, n, ..=e - 1))),
        4 => (mem.to_vec(), block_on(rt.buffer_read(buf, n, ..))),
        _ => (mem[s..e].to_vec(), block_on(rt.buffer_read(buf, n, s..e))),
    })?;
    if got.1.as_ref().ok() != Some(&got.0) {
        ctx.fail("A13", "read", format!("reading around {s}..{e} of {n} words gave the wrong words"));
        return None;
    }
    Some(())
}

// ---------------------------------------------------------------------------------------------
// for C07: malformed arguments and dishonest items, which may panic but not be undefined behaviour

/// An item that doesn't keep its word about its size.
#[derive(Clone, Default, Debug)]
struct Liar<const SIZE: usize, const HOW: usize>(u32);
impl<const SIZE: usize, const HOW: usize> crabslab::SlabItem for Liar<SIZE, HOW> {
    const SLAB_SIZE: usize = SIZE;
    fn read_slab(index: usize, slab: &[u32]) -> Self {
        Liar(match HOW {
            0 => slab.iter().fold(0, |a, x| a ^ x),
            1 => slab.first().copied().unwrap_or(1),
            _ => slab.get(index).copied().unwrap_or(2),
        })
    }
    fn write_slab(&self, index: usize, slab: &mut [u32]) -> usize {
        match HOW {
            0 => {
                slab.fill(self.0);
                index + SIZE + 1000
            }
            1 => 0,
            2 => usize::MAX,
            _ => {
                if let Some(w) = slab.get_mut(index) {
                    *w = self.0;
                }
                index + 1
            }
        }
    }
}

fn hostile(ctx: &mut Ctx) {
    let seed = mix(ctx.seed ^ hash_str("hostile arguments"));
    for k in 0..ctx.n(3000, 100_000) {
        let id = mix(seed ^ k);
        if !ctx.begin(id) {
            continue;
        }
        ctx.case = "malformed arguments".into();
        let mut r = Rng::new(id);
        let mut sum = 0u64;
        let steps = r.range(2, 10);
        for _ in 0..steps {
            let what = r.below(8);
            let res = guarded(|| match what {
                0..=3 => hostile_buffers(&mut r, what),
                4 => hostile_ranges(&mut r),
                5 => liars::<2, 0>(&mut r) ^ liars::<2, 3>(&mut r),
                6 => liars::<3, 1>(&mut r) ^ liars::<0, 0>(&mut r),
                _ => liars::<1, 2>(&mut r) ^ liars::<5, 3>(&mut r),
            });
            match res {
                Ok(x) => sum = mix(sum ^ x),
                Err(Caught::Panic(m)) if harness_panic(&m) && !m.contains("Liar") => ctx.errors.push(m),
                Err(_) => ctx.stat("malformed arguments refused with a panic", 1),
            }
            ctx.stat("calls with malformed arguments or dishonest items", 1);
        }
        ctx.eval(Some(mix(id ^ sum)));
    }
}

fn hostile_buffers(r: &mut Rng, what: usize) -> u64 {
    let rt = CpuRuntime;
    let n = r.below(40);
    let buf = rt.buffer_create(n, None, ());
    let odd = |r: &mut Rng| -> SlabUpdate {
        let (start, len) = match r.below(5) {
            0 => (n as u32, r.below(4) as u32),
            1 => (r.word(), r.below(9) as u32),
            2 => (r.below(n + 1) as u32, r.word()),
            _ => (r.below(n + 3) as u32, r.below(9) as u32),
        };
        SlabUpdate {
            array: Array::new(start, len),
            elements: vec![7; r.below(12)],
        }
    };
    match what {
        0 | 1 => {
            let us: Vec<SlabUpdate> = (0..r.range(1, 4)).map(|_| odd(r)).collect();
            for u in us {
                let _ = guarded(|| rt.buffer_write([u].into_iter(), &buf));
            }
        }
        2 => {
            let other = rt.buffer_create(r.below(40), None, ());
            let _ = guarded(|| rt.buffer_copy(&buf, &other, None));
            let _ = guarded(|| rt.buffer_copy(&other, &buf, None));
            return guarded(|| other.as_vec().iter().fold(1, |a, x| mix(a ^ *x as u64))).unwrap_or(0);
        }
        _ => {
            let (a, b) = (r.below(n + 20), r.below(n + 20));
            let claimed = r.below(n + 20);
            let got = guarded(|| block_on(rt.buffer_read(&buf, claimed, a..b)).map(|v| v.iter().fold(1, |a, x| mix(a ^ *x as u64))).unwrap_or(0));
            let all = guarded(|| block_on(rt.buffer_read(&buf, claimed, ..)).map(|v| v.len() as u64).unwrap_or(0));
            return got.unwrap_or(0) ^ all.unwrap_or(0);
        }
    }
    guarded(|| buf.as_vec().iter().fold(1, |a, x| mix(a ^ *x as u64))).unwrap_or(0)
}

fn hostile_ranges(r: &mut Rng) -> u64 {
    // overlapping, inverted and repeated ranges
    let mut m = RangeManager::<Range>::default();
    let mut sum = 0;
    for _ in 0..r.range(1, 12) {
        let a = r.below(30) as u32;
        let b = r.below(30) as u32;
        let _ = guarded(|| {
            m.add_range(Range {
                first_index: a,
                last_index: if r.chance(1, 20) { u32::MAX } else { b },
            })
        });
        let n = r.below(10) as u32;
        if let Ok(Some(x)) = guarded(|| m.remove(n)) {
            sum = mix(sum ^ x.first_index as u64);
        }
    }
    // updates whose data doesn't have the length of their target
    let mut m = RangeManager::<SlabUpdate>::default();
    for _ in 0..r.range(1, 8) {
        let u = SlabUpdate {
            array: Array::new(r.below(20) as u32, r.below(9) as u32),
            elements: vec![3; r.below(12)],
        };
        let _ = guarded(|| m.add_range(u));
    }
    let buf = CpuRuntime.buffer_create(32, None, ());
    let _ = guarded(|| CpuRuntime.buffer_write(m.ranges.into_iter(), &buf));
    sum ^ guarded(|| buf.as_vec().iter().fold(1, |a, x| mix(a ^ *x as u64))).unwrap_or(0)
}

fn liars<const S: usize, const H: usize>(r: &mut Rng) -> u64 {
    use crabslab::{CpuSlab, GrowableSlab, Id, Slab};
    let mut sum = 0u64;
    let mut slab = CpuSlab::new(vec![1u32; r.below(6)]);
    let l = Liar::<S, H>(r.u32());
    for _ in 0..r.range(1, 5) {
        let i = r.below(12);
        let k = r.below(9);
        let pad = r.below(4);
        let res = guarded(|| match k {
            0 => slab.append(&l).inner() as u64,
            1 => slab.append_array(&vec![l.clone(); pad]).index as u64,
            2 => slab.write_indexed(&l, i) as u64,
            3 => slab.write_indexed_slice(&vec![l.clone(); pad], i) as u64,
            4 => slab.read(Id::<Liar<S, H>>::new(i as u32)).0 as u64,
            5 => slab.read_vec(Array::<Liar<S, H>>::new(i as u32, pad as u32)).len() as u64,
            6 => slab.read_unchecked(Id::<(u8, Liar<S, H>, u32)>::new(i as u32)).1 .0 as u64,
            7 => slab.write_indexed(&(3u8, l.clone(), [1u32; 3]), i) as u64,
            _ => slab.write_indexed(&Some((l.clone(), 4u64)), i) as u64,
        });
        sum = mix(sum ^ res.unwrap_or(5));
    }
    let a = SlabAllocator::<CpuRuntime>::new(CpuRuntime, ());
    let x = guarded(|| a.new_value(l.clone()));
    let y = guarded(|| a.new_array(vec![l.clone(); 3]));
    let z = guarded(|| a.new_value((7u64, Some(l.clone()))));
    for _ in 0..r.range(1, 4) {
        let _ = guarded(|| x.as_ref().ok().map(|x| x.set(Liar(9))));
        let _ = guarded(|| y.as_ref().ok().and_then(|y| y.set_item(1, Liar(9))));
        let _ = guarded(|| z.as_ref().ok().map(|z| z.modify(|t| t.0 += 1)));
        if let Ok(b) = guarded(|| a.commit()) {
            sum ^= guarded(|| b.as_vec().iter().fold(1, |a, x| mix(a ^ *x as u64))).unwrap_or(0);
        }
    }
    sum
}
