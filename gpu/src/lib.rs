//! G01: the two builds of the crate work on the same slabs.
use twin::*;
use vh::report::{guarded, Caught, Ctx};
use vh::rng::{garbage, hash_str, mix, Rng};
use vh::shape::{agree, fits, show, showw};

/// Run what one side does; a panic is a violation.
fn must<T>(ctx: &mut Ctx, side: &str, what: &str, f: impl FnOnce() -> T) -> Option<T> {
    match guarded(f) {
        Ok(x) => Some(x),
        Err(Caught::Panic(m)) => {
            if vh::report::harness_panic(&m) {
                ctx.errors.push(format!("{side} {what}: {m}"));
            } else {
                ctx.fail("G01", &format!("panic:{side}:{what}"), format!("{what} on the {side} side panicked: {m}"));
            }
            None
        }
        Err(_) => None,
    }
}

pub fn run(ctx: &mut Ctx, cpu: Side, gpu: Side) {
    let seed = mix(ctx.seed ^ 0x601);
    if cpu.twins.len() != gpu.twins.len() {
        ctx.errors.push("the sides differ".into());
        return;
    }
    let n = ctx.n(400, 12_000);
    ctx.stat("types", cpu.twins.len() as u64);
    for (ti, (c, g)) in cpu.twins.iter().zip(&gpu.twins).enumerate() {
        ctx.case = format!("type {}", c.name);
        if g.size != c.size || g.size != g.ref_size {
            ctx.fail("G01", &format!("size:{}", c.name), format!("{} takes {} words on the GPU, {} on the CPU, expected {}", c.name, g.size, c.size, g.ref_size));
            continue;
        }
        for k in 0..n {
            let id = mix(seed ^ mix(ti as u64) ^ hash_str(&c.name) ^ k);
            if !ctx.begin(id) {
                continue;
            }
            let mut r = Rng::new(id);
            match k % 5 {
                0 | 1 | 2 => exchange(ctx, c, g, &mut r),
                3 => arbitrary(ctx, c, g, &mut r),
                _ => bounds(ctx, c, g, &mut r),
            }
        }
    }
    let reps = ctx.n(60, 2000);
    ctx.stat("structs with offsets", gpu.offsets.len() as u64);
    for (name, f) in &gpu.offsets {
        for k in 0..reps {
            let id = mix(seed ^ hash_str(name) ^ mix(k ^ 0x0ff5));
            if !ctx.begin(id) {
                continue;
            }
            ctx.case = format!("struct {name}");
            for (sig, msg) in must(ctx, "GPU", "using offsets", || f(id)).unwrap_or_default() {
                ctx.fail("G01", &format!("offsets:{sig}"), format!("on the GPU: {msg}"));
            }
            ctx.eval(Some(id));
            ctx.stat("offset checks on the GPU side", 1);
        }
    }
    for k in 0..ctx.n(2000, 20_000) {
        let id = mix(seed ^ mix(k ^ 0x1d8));
        if !ctx.begin(id) {
            continue;
        }
        ctx.case = "indexing".into();
        let mut r = Rng::new(id);
        let len = r.range(1, 20);
        let mut s = garbage(&mut r, len);
        let i = r.below(s.len());
        let x = r.word();
        if must(ctx, "GPU", "slice_index", || (gpu.slice_index)(&s, i)).map_or(false, |w| w != s[i]) {
            ctx.fail("G01", "slice_index", format!("slice_index({i}) of {} words is another element on the GPU", s.len()));
        }
        let mut t = s.clone();
        must(ctx, "GPU", "slice_index_mut", || (gpu.slice_index_mut)(&mut t, i, x));
        s[i] = x;
        if t != s {
            ctx.fail("G01", "slice_index_mut", format!("slice_index_mut({i}) of {} words is another element on the GPU", s.len()));
        }
        let mut a: [u32; 9] = std::array::from_fn(|_| r.word());
        let i = r.below(9);
        if must(ctx, "GPU", "array_index", || (gpu.array_index)(&a, i)).map_or(false, |w| w != a[i]) {
            ctx.fail("G01", "array_index", format!("array_index({i}) is another element on the GPU"));
        }
        let mut b = a;
        must(ctx, "GPU", "array_index_mut", || (gpu.array_index_mut)(&mut b, i, x));
        a[i] = x;
        if a != b {
            ctx.fail("G01", "array_index_mut", format!("array_index_mut({i}) is another element on the GPU"));
        }
        ctx.eval(Some(id));
    }
}

/// One side writes, both read.
fn exchange(ctx: &mut Ctx, c: &Twin, g: &Twin, r: &mut Rng) {
    let n = c.size;
    let count = if r.chance(1, 2) { 1 } else { r.below(5) };
    let at = if r.chance(1, 60) { 65_500 + r.below(100) } else { r.below(14) };
    let post = r.below(5);
    let dirty = garbage(r, at + n * count + post);
    let seeds: Vec<u64> = (0..count).map(|_| r.u64()).collect();
    let vals: Vec<Vec<W>> = seeds.iter().map(|s| (c.gen)(*s)).collect();
    let pat: Vec<W> = vals.iter().flatten().copied().collect();
    let route = r.below(WRITES.len());
    let name = &c.name;
    for (side, t) in [("CPU", c), ("GPU", g)] {
        let mut s = dirty.clone();
        let Some(end) = must(ctx, side, WRITES[route], || (t.write)(&seeds, route, &mut s, at)) else { return };
        let w = WRITES[route];
        if end.map_or(false, |e| e != at + n * count) {
            ctx.fail("G01", &format!("next:{side}:{w}"), format!("{w} of {count} {name} (size {n}) at {at} of {} on the {side} side gives {end:?}", dirty.len()));
        }
        if s.len() != dirty.len() {
            ctx.fail("G01", &format!("length:{side}:{w}"), format!("{w} of {count} {name} at {at} on the {side} side changed the length from {} to {}", dirty.len(), s.len()));
            return;
        }
        if s[..at] != dirty[..at] || s[at + n * count..] != dirty[at + n * count..] {
            ctx.fail("G01", &format!("clobber:{side}:{w}"), format!("{w} of {count} {name} (size {n}) at {at} of {} on the {side} side changed other words", dirty.len()));
        }
        let own = &s[at..at + n * count];
        if !fits(own, &pat) {
            ctx.fail("G01", &format!("words:{side}:{name}"), format!("{w} of {count} {name} at {at} on the {side} side left {}, the layout is {}", showw(own), show(&pat)));
        }
        let rroute = r.below(READS.len());
        for (rside, rt) in [("CPU", c), ("GPU", g)] {
            let Some(got) = must(ctx, rside, READS[rroute], || (rt.read)(rroute, &s, at, count)) else { return };
            if got.len() != count || got.iter().zip(&vals).any(|(a, b)| a != b) {
                let i = (0..count).find(|i| got.get(*i) != vals.get(*i)).unwrap_or(0);
                ctx.fail(
                    "G01",
                    &format!("read:{side}:{rside}:{name}"),
                    format!("{name} number {i} of {count} at {at}, {w} on the {side} side, {} on the {rside} side: {}, written {}", READS[rroute], got.get(i).map_or("nothing".into(), |g| show(g)), show(&vals[i])),
                );
            }
            ctx.stat(&format!("{side} to {rside}: items"), count as u64);
        }
    }
    let h = mix(hash_str(name) ^ (at as u64) << 40 ^ (route as u64) << 56 ^ seeds.iter().fold(0, |a, b| mix(a ^ b)));
    ctx.eval(if n * count > 0 { Some(h) } else { None });
    ctx.sample(|| format!("{count} {name} at {at} of {} by {}: {}", dirty.len(), WRITES[route], show(&pat)));
}

/// Both read whatever the words are.
fn arbitrary(ctx: &mut Ctx, c: &Twin, g: &Twin, r: &mut Rng) {
    let n = c.size;
    let at = r.below(10);
    let post = r.below(4);
    let mut s = garbage(r, at + n + post);
    if n > 0 && r.chance(2, 3) {
        // something valid, damaged a little
        let sd = r.u64();
        for (i, w) in (c.gen)(sd).iter().enumerate() {
            if let Some(w) = w {
                s[at + i] = *w;
            }
        }
        for _ in 0..r.below(3) {
            let i = at + r.below(n);
            s[i] = r.word();
        }
    }
    let want = (c.norm)(&s[at..]);
    let route = r.below(READS.len());
    for (side, t) in [("CPU", c), ("GPU", g)] {
        let Some(got) = must(ctx, side, READS[route], || (t.read)(route, &s, at, 1)) else { return };
        if !agree(&got[0], &want) {
            ctx.fail(
                "G01",
                &format!("arbitrary:{side}:{}", c.name),
                format!("{} of {} as {} on the {side} side gives {}, expected {}", READS[route], showw(&s[at..at + n]), c.name, show(&got[0]), show(&want)),
            );
        }
    }
    ctx.stat("arbitrary words read by both sides", 1);
    ctx.eval(Some(s.iter().fold(hash_str(&c.name), |a, b| mix(a ^ *b as u64))));
}

/// Checked reads at any id, and the bounds query.
fn bounds(ctx: &mut Ctx, c: &Twin, g: &Twin, r: &mut Rng) {
    let n = c.size;
    let len = match r.below(4) {
        0 => n,
        1 => (n + r.below(5)).saturating_sub(r.below(5)),
        2 => 0,
        _ => n + r.below(20),
    };
    let s = garbage(r, len);
    let id = match r.below(5) {
        0 => u32::MAX,
        1 => u32::MAX - r.below(2 * n + 3) as u32,
        2 => r.word(),
        _ => (len + r.below(4)).saturating_sub(n + r.below(4)) as u32,
    };
    let inside = id as usize + n <= len;
    let want = if inside { (c.norm)(&s[id as usize..]) } else { (c.default)() };
    for (side, t) in [("CPU", c), ("GPU", g)] {
        if let Some(x) = must(ctx, side, "contains", || (t.contains)(id, len)) {
            if x != inside {
                ctx.fail("G01", &format!("contains:{side}"), format!("contains is {x} for {} (size {n}) at {id} of {len} on the {side} side", c.name));
            }
        }
        if let Some(got) = must(ctx, side, "read", || (t.checked)(id, &s)) {
            if !agree(&got, &want) {
                ctx.fail("G01", &format!("checked:{side}"), format!("reading {} (size {n}) at {id} of {len} on the {side} side gives {}, expected {}", c.name, show(&got), show(&want)));
            }
        }
    }
    let (i, l) = (r.below(1 << 20) as u32, r.below(1000) as u32);
    let k = if r.chance(1, 2) { r.below(l as usize + 1) } else { r.below(2000) };
    let want = if k < l as usize { i + (n * k) as u32 } else { u32::MAX };
    for (side, t) in [("CPU", c), ("GPU", g)] {
        if let Some(x) = must(ctx, side, "Array::at", || (t.at)(i, l, k)) {
            if x != want {
                ctx.fail("G01", &format!("at:{side}"), format!("element {k} of {l} {} (size {n}) from {i} on is {x} on the {side} side, expected {want}", c.name));
            }
        }
    }
    ctx.stat(if inside { "checked reads inside" } else { "checked reads outside" }, 1);
    ctx.eval(Some(mix(hash_str(&c.name) ^ (len as u64) << 32 ^ id as u64)));
}
