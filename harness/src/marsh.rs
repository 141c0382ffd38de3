//! M01-M05, M07, M08, M10 (and M09 on generated types): reading and writing slabs.
use crate::report::{guarded, must, Caught, Ctx};
use crate::rng::{garbage, hash_str, mix, Rng};
use crate::shape::{agree, fits, show, showw, Shape, Visitor, W};
use crate::types::all_types;
use crabslab::{Array, ArrayIter, CpuSlab, GrowableSlab, Id, Slab, SlabItem};
use std::marker::PhantomData;

#[derive(Clone, Copy, PartialEq)]
pub enum Kind {
    Round,
    Garbage,
    Bounds,
    Oob,
    Arrays,
    Hostile,
}

pub struct Marsh<'a> {
    pub ctx: &'a mut Ctx,
    pub kinds: &'a [(Kind, u64)],
    pub seed: u64,
    /// report everything as this property
    pub alias: Option<&'static str>,
    pub huge: u64,
    pub types: u64,
}

/// A slab on which `write_*`/`read` go through one of the implementations.
pub enum Backend {
    Slice(Vec<u32>, usize, usize),
    Vector(Vec<u32>),
    Cpu(CpuSlab<Vec<u32>>),
}
impl Backend {
    pub fn new(kind: usize, words: Vec<u32>, r: &mut Rng) -> Self {
        match kind {
            0 => {
                // a window of a bigger buffer, so that escapes are seen
                let (a, b) = (r.below(4), r.below(4));
                let mut v = vec![0xdead_0001u32; a];
                let n = words.len();
                v.extend(words);
                v.extend(std::iter::repeat(0xdead_0002).take(b));
                Backend::Slice(v, a, a + n)
            }
            1 => Backend::Vector(words),
            _ => Backend::Cpu(CpuSlab::new(words)),
        }
    }
    pub fn name(&self) -> &'static str {
        match self {
            Backend::Slice(..) => "[u32]",
            Backend::Vector(_) => "Vec<u32>",
            Backend::Cpu(_) => "CpuSlab",
        }
    }
    pub fn words(&self) -> &[u32] {
        match self {
            Backend::Slice(v, a, b) => &v[*a..*b],
            Backend::Vector(v) => v,
            Backend::Cpu(c) => c.as_ref(),
        }
    }
    pub fn words_mut(&mut self) -> &mut [u32] {
        match self {
            Backend::Slice(v, a, b) => &mut v[*a..*b],
            Backend::Vector(v) => v,
            Backend::Cpu(c) => c.as_mut(),
        }
    }
    pub fn escaped(&self) -> bool {
        match self {
            Backend::Slice(v, a, b) => v[..*a].iter().any(|x| *x != 0xdead_0001) || v[*b..].iter().any(|x| *x != 0xdead_0002),
            _ => false,
        }
    }
}
macro_rules! on {
    ($b:expr, $s:ident => $e:expr) => {
        match $b {
            Backend::Slice(v, a, b) => {
                let (a, b) = (*a, *b);
                let $s = &mut v[a..b];
                $e
            }
            Backend::Vector($s) => $e,
            Backend::Cpu($s) => $e,
        }
    };
}

impl Marsh<'_> {
    fn fail(&mut self, prop: &'static str, sig: &str, msg: String) {
        let p = self.alias.unwrap_or(prop);
        self.ctx.fail(p, sig, msg);
    }

    fn position(&mut self, r: &mut Rng) -> usize {
        if self.huge > 0 && !cfg!(miri) && r.below(self.huge as usize) == 0 {
            *r.pick(&[65_529usize, 65_536, 65_537, 131_071, 70_001]) + r.below(4)
        } else {
            r.below(9)
        }
    }

    /// Write (some way), look at the words, read (some way), perturb, read again.
    fn round<T: Shape>(&mut self, r: &mut Rng) {
        let n = T::REF_SIZE;
        let name = T::name();
        let pos = self.position(r);
        let post = r.below(7);
        let count = if r.chance(1, 3) { r.range(1, 4) } else { 1 };
        let vals: Vec<T> = (0..count).map(|_| T::gen(r)).collect();
        let span = n * count;
        let mut b = Backend::new(r.below(3), garbage(r, pos + span + post), r);
        let bname = b.name();
        let route = r.below(if count == 1 { 6 } else { 3 });
        let before = b.words().to_vec();
        let id = Id::<T>::new(pos as u32);
        let mut pos = pos;
        let ret: Result<Option<usize>, Caught> = guarded(|| match route {
            0 => Some(on!(&mut b, s => s.write_indexed_slice(&vals, pos))),
            1 => {
                on!(&mut b, s => s.write_array(Array::<T>::new(pos as u32, count as u32), &vals));
                None
            }
            2 => {
                let mut i = pos;
                for v in &vals {
                    i = on!(&mut b, s => s.write_indexed(v, i));
                }
                Some(i)
            }
            3 => {
                on!(&mut b, s => s.write(id, &vals[0]));
                None
            }
            4 => Some(vals[0].write_slab(pos, b.words_mut())),
            _ => {
                let ret = match &mut b {
                    Backend::Vector(s) => Some(GrowableSlab::append(s, &vals[0])),
                    Backend::Cpu(s) => Some(GrowableSlab::append(s, &vals[0])),
                    Backend::Slice(v, a, _) => {
                        let x = vals[0].write_slab(pos + *a, v);
                        return Some(x - *a);
                    }
                };
                pos = ret.unwrap().index();
                None
            }
        });
        let ret = match ret {
            Ok(x) => x,
            Err(Caught::Panic(m)) => {
                if crate::report::harness_panic(&m) {
                    self.ctx.errors.push(format!("round {name}: {m}"));
                } else {
                    self.ctx.fail_any(
                        &format!("panic:write:{name}"),
                        format!("writing {name} route {route} to {bname} at {pos} of {} panicked: {m}", before.len()),
                    );
                }
                return;
            }
            Err(Caught::Injected) => return,
        };
        let id = Id::<T>::new(pos as u32);
        if let Some(x) = ret {
            if x != pos + span {
                self.fail(
                    "M02",
                    &format!("ret:{name}"),
                    format!("writing {count} {name} at {pos} (route {route}, {bname}) returned {x}, expected {}", pos + span),
                );
            }
        }
        if b.words().len() < pos + span {
            self.fail("M02", &format!("append:{name}"), format!("appending {name} gave {id:?} in a slab of {}", b.words().len()));
            return;
        }
        if b.escaped() {
            self.fail("M02", &format!("escape:{name}"), format!("writing {name} at {pos} wrote outside of the slab"));
        }
        for (i, a) in before.iter().enumerate() {
            let w = b.words()[i];
            if w != *a && !(pos..pos + span).contains(&i) {
                self.fail(
                    "M02",
                    &format!("clobber:{name}"),
                    format!("writing {count} {name} at {pos} (size {n}, route {route}, {bname}) changed word {i} from {a:x} to {w:x}"),
                );
                break;
            }
        }
        let mut pat = vec![];
        for v in &vals {
            pat.extend(v.words());
        }
        if !fits(&b.words()[pos..pos + span], &pat) {
            let got = showw(&b.words()[pos..pos + span]);
            self.fail(
                "M03",
                &format!("layout:{name}"),
                format!("{name} encoded as {got} at {pos} (route {route}, {bname}), expected {}", show(&pat)),
            );
        }
        // read back
        let k = r.below(count);
        let want = vals[k].words();
        let at = pos + k * n;
        for round in 0..3 {
            let rr = r.below(6);
            let got = self.read_route::<T>(&mut b, at, rr, count - k);
            let Some(got) = got else { return };
            if got.words() != want {
                let p = if round == 0 {
                    "M01"
                } else if round == 1 {
                    "M02"
                } else {
                    "M01"
                };
                let what = ["first read", "read after changing other words", "read after writing another item"][round];
                let msg = format!(
                    "{name} at {at} of {} ({bname}, write route {route}, read route {rr}, {what}): read {}, wrote {}",
                    b.words().len(),
                    show(&got.words()),
                    show(&want)
                );
                self.fail(p, &format!("read:{name}"), msg.clone());
                if p == "M02" {
                    self.fail("M01", &format!("read:{name}"), msg);
                }
                return;
            }
            if round == 0 {
                let g = garbage(r, b.words().len());
                for (i, w) in b.words_mut().iter_mut().enumerate() {
                    if !(at..at + n).contains(&i) {
                        *w = g[i];
                    }
                }
            } else if round == 1 {
                let w = <(u64, Option<u16>)>::gen(r);
                if at >= 4 {
                    let j = r.below(at - 3);
                    on!(&mut b, s => s.write(Id::from(j), &w));
                }
                let rest = b.words().len() - (at + n);
                if rest >= 4 {
                    let j = at + n + r.below(rest - 3);
                    on!(&mut b, s => s.write(Id::from(j), &w));
                }
            }
        }
        let h = mix(hash_str(&name) ^ (route as u64) << 8 ^ (pos as u64) << 16 ^ mix(want.iter().fold(0, |a, w| mix(a ^ w.map_or(1 << 40, |x| x as u64)))));
        self.ctx.eval(if n > 0 { Some(h) } else { None });
        self.ctx.stat("write/read round trips", 1);
        if pos > 65_000 {
            self.ctx.stat("round trips beyond index 65000", 1);
        }
        self.ctx.sample(|| format!("{name} x{count} at {pos} in {bname}, write route {route}: {}", show(&want)));
    }

    fn read_route<T: Shape>(&mut self, b: &mut Backend, at: usize, route: usize, len: usize) -> Option<T> {
        let id = Id::<T>::new(at as u32);
        must(self.ctx, &format!("reading {} (route {route})", T::name()), || match route {
            0 => T::read_slab(at, b.words()),
            1 => on!(b, s => s.read_unchecked(id)),
            2 => on!(b, s => s.read_vec(Array::<T>::new(at as u32, len as u32))).swap_remove(0),
            3 => {
                let mut t = T::default();
                on!(b, s => s.read_into_if_some(id, &mut t));
                t
            }
            _ => on!(b, s => s.read(id)),
        })
    }

    /// Checked reads of arbitrary words.
    fn garbage_read<T: Shape>(&mut self, r: &mut Rng) {
        let n = T::REF_SIZE;
        let name = T::name();
        let pos = self.position(r);
        let post = r.below(3);
        let mut words = garbage(r, pos + n + post);
        if r.chance(1, 2) {
            // mostly valid: an encoding with a few words replaced
            for (i, w) in T::gen(r).words().iter().enumerate() {
                if let Some(w) = w {
                    words[pos + i] = *w;
                }
            }
            if n > 0 {
                for _ in 0..r.below(3) {
                    words[pos + r.below(n)] = if r.chance(1, 2) { r.below(30) as u32 } else { r.word() };
                }
            }
        }
        let want = T::norm_words(&words[pos..]);
        let mut b = Backend::new(r.below(3), words, r);
        let route = r.below(6);
        let Some(got) = self.read_route::<T>(&mut b, pos, route, 1) else { return };
        if !agree(&got.words(), &want) {
            let w = showw(&b.words()[pos..pos + n]);
            self.fail(
                "M04",
                &format!("garbage:{name}"),
                format!("{name} read from words {w} is {}, expected {}", show(&got.words()), show(&want)),
            );
        }
        self.ctx.eval(if n > 0 {
            Some(mix(hash_str(&name) ^ words_hash(&b.words()[pos..pos + n])))
        } else {
            None
        });
        self.ctx.stat("reads of arbitrary words", 1);
        self.ctx.sample(|| format!("{name} from {}: {}", showw(&b.words()[pos..pos + n]), show(&want)));
    }

    /// `contains` and checked reads around the bounds.
    fn bounds<T: Shape>(&mut self, r: &mut Rng) {
        let n = T::REF_SIZE;
        let name = T::name();
        let len = match r.below(6) {
            0 => 0,
            1 => n.saturating_sub(r.below(3)),
            2 => n + r.below(3),
            _ => r.below(2 * n + 12),
        };
        let idw = match r.below(6) {
            0 => u32::MAX,
            1 => u32::MAX - r.below(40) as u32,
            2 => r.word(),
            _ => (len as u32).wrapping_sub(n as u32).wrapping_add(r.below(5) as u32).wrapping_sub(2),
        };
        let id = Id::<T>::new(idw);
        let want = idw as u128 + n as u128 <= len as u128;
        let mut b = Backend::new(r.below(3), garbage(r, len), r);
        if n > 0 {
            let got = must(self.ctx, "contains", || on!(&mut b, s => Slab::contains(s, id)));
            if let Some(got) = got {
                if got != want {
                    self.fail("M04", &format!("contains:{name}"), format!("a slab of {len} contains {name} (size {n}) at {idw:#x}: {got}"));
                }
            }
            // a slab of any length: only the bounds matter
            let flen = match r.below(4) {
                0 => u32::MAX as usize - r.below(70),
                1 => usize::MAX - r.below(70),
                2 => 1usize << r.below(60),
                _ => idw as usize + n - r.below(3).min(n),
            };
            let fwant = idw as u128 + n as u128 <= flen as u128;
            let f = FakeSlab {
                len: flen,
                asked: Default::default(),
            };
            let got = must(self.ctx, "contains", || (f.contains(id), f.read(id).words()));
            if let Some((got, words)) = got {
                if got != fwant {
                    self.fail(
                        "M04",
                        &format!("contains:{name}"),
                        format!("a slab of {flen} contains {name} (size {n}) at {idw:#x}: {got}"),
                    );
                }
                if f.asked.get() != fwant as u32 || (!fwant && words != T::default().words()) {
                    self.fail(
                        "M04",
                        &format!("checked:{name}"),
                        format!("checked read of {name} at {idw:#x} in a slab of {flen}: {} unchecked reads", f.asked.get()),
                    );
                }
            }
        }
        // a checked read yields the item or the default
        let words = b.words().to_vec();
        let got = must(self.ctx, "checked read", || on!(&mut b, s => s.read(id)));
        if let Some(got) = got {
            let exp = if want || n == 0 {
                if n == 0 {
                    vec![]
                } else {
                    T::norm_words(&words[idw as usize..])
                }
            } else {
                T::default().words()
            };
            if !agree(&got.words(), &exp) {
                self.fail(
                    "M04",
                    &format!("checked:{name}"),
                    format!("checked read of {name} at {idw:#x} in a slab of {len}: {}, expected {}", show(&got.words()), show(&exp)),
                );
            }
            if !want && n > 0 && got.words() != T::default().words() {
                self.fail(
                    "M04",
                    &format!("default:{name}"),
                    format!("checked read of {name} at {idw:#x} in a slab of {len} is not the default but {}", show(&got.words())),
                );
            }
        }
        // bulk reads: per element
        if n > 0 {
            let alen = r.below(5);
            let start = (len as u32).saturating_sub((n * 2) as u32).wrapping_add(r.below(4) as u32);
            let arr = Array::<T>::new(start, alen as u32);
            let got = must(self.ctx, "read_vec", || on!(&mut b, s => s.read_vec(arr)));
            if let Some(got) = got {
                let ok = got.len() == alen
                    && got.iter().enumerate().all(|(i, g)| {
                        let at = start as usize + i * n;
                        if at + n <= len {
                            agree(&g.words(), &T::norm_words(&words[at..]))
                        } else {
                            g.words() == T::default().words()
                        }
                    });
                if !ok {
                    self.fail(
                        "M04",
                        &format!("read_vec:{name}"),
                        format!("read_vec of {arr:?} in a slab of {len} differs from checked element reads"),
                    );
                }
            }
        }
        self.ctx.eval(if n > 0 { Some(mix(hash_str(&name) ^ (len as u64) << 32 ^ idw as u64)) } else { None });
        self.ctx.stat(if want { "contained ids queried" } else { "uncontained ids queried" }, 1);
        self.ctx.sample(|| format!("{name} (size {n}) at {idw:#x} in a slab of {len}: contained {want}"));
    }

    /// Writes that do not fit.
    fn oob<T: Shape>(&mut self, r: &mut Rng) {
        let n = T::REF_SIZE;
        if n == 0 {
            return;
        }
        let name = T::name();
        let len = r.below(2 * n + 6);
        let op = r.below(6);
        let count = if op >= 3 && op != 5 { r.range(1, 4) } else { 1 };
        let vals: Vec<T> = (0..count).map(|_| T::gen(r)).collect();
        // position such that not everything fits
        let lo = (len + 1).saturating_sub(n * count);
        let pos = match r.below(8) {
            0 => u32::MAX as usize,
            1 => u32::MAX as usize - r.below(40),
            2 if op == 1 || op == 3 => usize::MAX - r.below(40),
            3 => len,
            4 => len + r.below(4),
            _ => {
                let k = (len + 1).saturating_sub(lo).max(1);
                lo + r.below(k)
            }
        };
        if pos.checked_add(n * count).map_or(false, |e| e <= len) {
            return;
        }
        // elements of an array have 32-bit ids
        if op == 4 && pos + n * count > u32::MAX as usize {
            return;
        }
        let mut b = Backend::new(if op == 5 { 0 } else { r.below(3) }, garbage(r, len), r);
        let before = b.words().to_vec();
        // how many fit
        let k = if pos < len { (len - pos) / n } else { 0 };
        let k = k.min(count);
        let opname = ["write", "write_indexed", "write", "write_indexed_slice", "write_array", "write_slab"][op];
        let res = guarded(|| match op {
            0 | 2 => {
                on!(&mut b, s => s.write(Id::<T>::new(pos as u32), &vals[0]));
                None
            }
            1 => Some(on!(&mut b, s => s.write_indexed(&vals[0], pos))),
            3 => Some(on!(&mut b, s => s.write_indexed_slice(&vals, pos))),
            4 => {
                on!(&mut b, s => s.write_array(Array::<T>::new(pos as u32, count as u32), &vals));
                None
            }
            _ => Some(vals[0].write_slab(pos, b.words_mut())),
        });
        let want = pos.wrapping_add(k * n);
        let sig = |kind: &str| if op == 5 { format!("write_slab:{kind}:{name}") } else { format!("{opname}:{kind}") };
        match res {
            Ok(Some(x)) if x != want => {
                let kind = if x == pos.wrapping_add(n * count) { "false-success" } else { "partial-advance" };
                self.fail(
                    "M05",
                    &sig(kind),
                    format!("{opname} of {count} {name} (size {n}) at {pos} of {len} returned {x}, expected {want}"),
                );
            }
            Err(Caught::Panic(m)) => {
                if crate::report::harness_panic(&m) {
                    self.ctx.errors.push(format!("oob {name}: {m}"));
                } else {
                    self.fail("M05", &sig("panic"), format!("{opname} of {count} {name} (size {n}) at {pos} of {len} panicked: {m}"));
                }
            }
            _ => {}
        }
        if b.words().len() != len {
            self.fail(
                "M05",
                &sig("grew"),
                format!("{opname} of {name} at {pos} changed the length from {len} to {}", b.words().len()),
            );
        } else {
            for i in 0..pos.min(len) {
                if b.words()[i] != before[i] {
                    self.fail("M05", &sig("before"), format!("{opname} of {count} {name} (size {n}) at {pos} of {len} changed word {i}"));
                    break;
                }
            }
            if k > 0 && op != 5 {
                let mut pat = vec![];
                for v in &vals[..k] {
                    pat.extend(v.words());
                }
                if !fits(&b.words()[pos..pos + k * n], &pat) {
                    self.fail(
                        "M05",
                        &sig("fitting"),
                        format!("{opname} of {count} {name} (size {n}) at {pos} of {len}: the first {k} fit, but were not written"),
                    );
                }
            }
        }
        if b.escaped() {
            self.fail("M05", &sig("escape"), format!("{opname} of {count} {name} at {pos} of {len} wrote beyond the slab"));
        }
        self.ctx.eval(Some(mix(hash_str(&name) ^ (len as u64) << 32 ^ pos as u64 ^ (op as u64) << 60)));
        self.ctx.stat(&format!("{opname}: writes that do not fit"), 1);
        self.ctx.sample(|| format!("{opname} of {count} {name} (size {n}) at {pos} of {len}: {k} fit"));
    }

    /// Array addressing and bulk transfer.
    fn arrays<T: Shape>(&mut self, r: &mut Rng) {
        let n = T::REF_SIZE;
        let name = T::name();
        // addressing, over the whole representable range
        let len = match r.below(5) {
            0 => 0,
            1 => 1,
            2 => r.below(10) as u64,
            3 => r.below(200_000) as u64,
            _ => r.u32() as u64 >> r.below(32),
        };
        let room = u32::MAX as u64 - 1;
        let len = if n > 0 { len.min(room / n as u64) } else { len };
        let start = (match r.below(3) {
            0 => r.below(20) as u64,
            1 => room - n as u64 * len,
            _ => r.word() as u64,
        })
        .min(room - n as u64 * len);
        let a = Array::<T>::new(start as u32, len as u32);
        let idx: Vec<u64> = (0..6)
            .map(|_| match r.below(5) {
                0 => r.below(4) as u64,
                1 => len.wrapping_sub(1 + r.below(3) as u64),
                2 => len + r.below(3) as u64,
                3 => r.u64() >> r.below(64),
                _ => r.below((len + 1) as usize) as u64,
            })
            .collect();
        let mut fails: Vec<(String, String)> = vec![];
        let mut r2 = Rng::new(r.u64());
        let ok = must(self.ctx, "array addressing", || {
            let mut f = |sig: &str, m: String| fails.push((sig.to_string(), m));
            for i in &idx {
                let got = a.at(*i as usize).inner() as u64;
                let want = if *i < len { start + n as u64 * i } else { u32::MAX as u64 };
                if got != want {
                    f("at", format!("{name}: {a:?} at({i}) is {got:#x}, expected {want:#x}"));
                }
            }
            if a.len() as u64 != len || a.is_empty() != (len == 0) || a.starting_index() as u64 != start || a.is_null() {
                f("len", format!("{name}: {a:?} len {} empty {} start {}", a.len(), a.is_empty(), a.starting_index()));
            }
            let u = a.into_u32_array();
            if u.starting_index() as u64 != start || u.len() as u64 != len * n as u64 {
                f("words", format!("{name}: {a:?} as words is {u:?} (element size {n})"));
            }
            let one = Array::<T>::from(Id::<T>::new(start as u32));
            if one.len() != 1 || one.at(0).inner() as u64 != start || one.at(1).is_some() {
                f("from", format!("array from id {start} is {one:?}"));
            }
            let cap = if len <= if cfg!(miri) { 30 } else { 70_000 } { usize::MAX } else { 5 };
            let mut k = 0u64;
            let mut it = a.iter();
            for id in it.by_ref().take(cap) {
                if id.inner() as u64 != start + k * n as u64 {
                    f("iter", format!("{name}: element {k} of {a:?} iterates as {id:?}"));
                    break;
                }
                k += 1;
            }
            if cap == usize::MAX && (k != len || it.next().is_some()) {
                f("iter", format!("{name}: {a:?} iterates {k} elements"));
            }
            // the other ways of iterating
            if len <= if cfg!(miri) { 30 } else { 300 } {
                let ids: Vec<u64> = (0..len).map(|i| start + i * n as u64).collect();
                let at = r2.below(len as usize + 2);
                let nth = r2.below(4);
                let step = 1 + r2.below(4);
                let mut x = a.iter();
                for _ in 0..at {
                    x.next();
                }
                let rest = ids.get(at..).unwrap_or(&[]);
                let c = x.clone();
                let (lo, hi) = x.size_hint();
                let mut m = c.clone();
                let got_nth = m.nth(nth).map(|i| i.inner() as u64);
                let after: Vec<u64> = m.map(|i| i.inner() as u64).collect();
                let all = |i: ArrayIter<T>| i.map(|i| i.inner() as u64).collect::<Vec<_>>();
                let ok = lo <= rest.len()
                    && hi.map_or(true, |h| h >= rest.len())
                    && got_nth == rest.get(nth).copied()
                    && after == rest.get(nth + 1..).unwrap_or(&[])
                    && c.clone().count() == rest.len()
                    && c.clone().last().map(|i| i.inner() as u64) == rest.last().copied()
                    && c.clone().skip(nth).map(|i| i.inner() as u64).collect::<Vec<_>>() == rest.get(nth..).unwrap_or(&[])
                    && c.clone().step_by(step).map(|i| i.inner() as u64).collect::<Vec<_>>() == rest.iter().copied().step_by(step).collect::<Vec<_>>()
                    && c.clone().fold(0u64, |s, i| s.wrapping_mul(31).wrapping_add(i.inner() as u64)) == rest.iter().fold(0u64, |s, i| s.wrapping_mul(31).wrapping_add(*i))
                    && all(c.clone()) == rest
                    && all(x) == rest
                    && all(a.iter()) == ids;
                if !ok {
                    f("iter", format!("{name}: after {at} elements of {a:?}, nth({nth}) {got_nth:?} then {} more, size hint {lo} {hi:?}, {} left", after.len(), rest.len()));
                }
            }
            let none = Array::<T>::NONE;
            if !none.is_null() || none.len() != 0 || none.at(0).is_some() || none.iter().next().is_some() || none != Array::default() || none.into_u32_array().len() != 0 {
                f("null", format!("null array of {name}: {none:?}"));
            }
        });
        for (s, m) in fails {
            self.fail("M07", &s, m);
        }
        if ok.is_none() {
            return;
        }
        if len > 65_536 {
            self.ctx.stat("arrays longer than 65536 addressed", 1);
        }
        // transfer
        let alen = if r.chance(1, 40) && n <= 4 && !cfg!(miri) { 20_000 + r.below(3000) } else { r.below(8) };
        let start = r.below(6);
        let post = r.below(2 * n + 4);
        let total = start + alen * n + post;
        let arr = if r.chance(1, 12) && alen == 0 {
            Array::<T>::NONE
        } else {
            Array::<T>::new(start as u32, alen as u32)
        };
        let dlen = match r.below(5) {
            0 => alen.saturating_sub(1 + r.below(2)),
            1 => alen + 1 + r.below(2),
            _ => alen,
        };
        let data: Vec<T> = (0..dlen).map(|_| T::gen(r)).collect();
        let words = garbage(r, total);
        let mut b = Backend::new(r.below(3), words.clone(), r);
        if must(self.ctx, "write_array", || on!(&mut b, s => s.write_array(arr, &data))).is_none() {
            return;
        }
        let writes = dlen >= alen;
        for i in 0..total {
            let inside = writes && (start..start + alen * n).contains(&i);
            let w = b.words()[i];
            if !inside && w != words[i] {
                let sig = if writes { "clobber" } else { "short" };
                self.fail("M07", sig, format!("write_array of {arr:?} ({name}, size {n}) with {dlen} items changed word {i}"));
                break;
            }
        }
        if b.escaped() || b.words().len() != total {
            self.fail("M07", "escape", format!("write_array of {arr:?} with {dlen} items wrote outside of the slab"));
        }
        if writes {
            for (i, d) in data[..alen].iter().enumerate() {
                let at = start + i * n;
                if !fits(&b.words()[at..at + n], &d.words()) {
                    self.fail(
                        "M07",
                        "elements",
                        format!(
                            "write_array of {arr:?} ({name}): element {i} is {}, expected {}",
                            showw(&b.words()[at..at + n]),
                            show(&d.words())
                        ),
                    );
                    break;
                }
            }
        }
        let mut bad = None;
        must(self.ctx, "bulk read", || {
            let got = on!(&mut b, s => s.read_vec(arr));
            if got.len() != alen {
                bad = Some(format!("read_vec of {arr:?} yields {} items", got.len()));
            }
            let one: Vec<Vec<W>> = arr.iter().map(|id| on!(&mut b, s => s.read(id)).words()).collect();
            for (i, g) in got.iter().enumerate() {
                let at = start + i * n;
                if Some(&g.words()) != one.get(i) || !agree(&g.words(), &T::norm_words(&b.words()[at..])) {
                    bad = Some(format!("read_vec of {arr:?} ({name}): element {i} is {}", show(&g.words())));
                }
            }
            if !arr.is_null() {
                let sub = arr.sub_slab(b.words());
                if sub != &b.words()[start..start + alen * n] {
                    bad = Some(format!("sub_slab of {arr:?} ({name}) has {} words", sub.len()));
                }
            }
            // a slice written item by item
            let mut c = Backend::new(1, words.clone(), &mut Rng::new(1));
            let fit = dlen.min(if n > 0 { (total - start) / n } else { dlen });
            let x = on!(&mut c, s => s.write_indexed_slice(&data[..fit], start));
            let mut d = Backend::new(1, words.clone(), &mut Rng::new(1));
            let mut y = start;
            for v in &data[..fit] {
                y = on!(&mut d, s => s.write_indexed(v, y));
            }
            if x != y || c.words() != d.words() || x != start + fit * n {
                bad = Some(format!("write_indexed_slice of {fit} {name} at {start} returned {x}, item by item {y}"));
            }
        });
        if let Some(m) = bad {
            self.fail("M07", "bulk", m);
        }
        self.ctx.eval(if n > 0 {
            Some(mix(hash_str(&name) ^ len << 32 ^ (start as u64) ^ (alen as u64) << 20 ^ (dlen as u64) << 40))
        } else {
            None
        });
        self.ctx.stat("arrays transferred", 1);
        self.ctx.sample(|| format!("{a:?} at {idx:?}; {arr:?} of {name} (size {n}) written with {dlen} items"));
    }

    /// Any operation at any place: it may panic, but neither see nor change words outside of the slab.
    fn hostile<T: Shape>(&mut self, r: &mut Rng) {
        let n = T::REF_SIZE;
        let name = T::name();
        let len = match r.below(4) {
            0 => 0,
            1 => n.saturating_sub(r.below(3)),
            _ => r.below(2 * n + 6),
        };
        let words = garbage(r, len);
        let at = match r.below(10) {
            0 => u32::MAX as usize - r.below(3),
            1 => u32::MAX as usize - r.below(70),
            2 => usize::MAX - r.below(3),
            3 => usize::MAX - r.below(n + 3),
            4 => 1usize << r.below(64),
            5 => r.word() as usize,
            6 => len,
            7 => len + r.below(4),
            _ => (len + 2).saturating_sub(r.below(n + 4)),
        };
        let count = r.below(4);
        let vals: Vec<T> = (0..count).map(|_| T::gen(r)).collect();
        let val = T::gen(r);
        let arr = Array::<T>::new(at as u32, r.below(4) as u32);
        let id = Id::<T>::new(at as u32);
        let op = r.below(16);
        let opname = [
            "read_unchecked",
            "read_slab",
            "read_into_if_some",
            "read",
            "read_vec",
            "write",
            "write_indexed",
            "write_indexed_slice",
            "write_array",
            "write_slab",
            "slice_index",
            "slice_index_mut",
            "sub_slab",
            "at",
            "array_index",
            "array_index_mut",
        ][op];
        let run = |s: &mut [u32]| -> Result<Vec<W>, Caught> {
            guarded(|| match op {
                0 => s.read_unchecked(id).words(),
                1 => T::read_slab(at, s).words(),
                2 => {
                    let mut t = T::default();
                    s.read_into_if_some(id, &mut t);
                    t.words()
                }
                3 => s.read(id).words(),
                4 => s.read_vec(arr).iter().flat_map(|t| t.words()).collect(),
                5 => {
                    s.write(id, &val);
                    vec![]
                }
                6 => vec![Some(s.write_indexed(&val, at) as u32)],
                7 => vec![Some(s.write_indexed_slice(&vals, at) as u32)],
                8 => {
                    s.write_array(arr, &vals);
                    vec![]
                }
                9 => vec![Some(val.write_slab(at, s) as u32)],
                10 => vec![Some(*crabslab::slice_index(s, at))],
                11 => {
                    *crabslab::slice_index_mut(s, at) ^= 0x55;
                    vec![]
                }
                12 => arr.sub_slab(s).iter().map(|w| Some(*w)).collect(),
                // the last words of the slab as a fixed array
                14 | 15 if len >= 4 => {
                    let a: &mut [u32; 4] = (&mut s[len - 4..]).try_into().unwrap();
                    let k = at.wrapping_sub(len - 4);
                    if op == 14 {
                        vec![Some(*crabslab::array_index(a, k))]
                    } else {
                        *crabslab::array_index_mut(a, k) ^= 0x55;
                        vec![]
                    }
                }
                14 | 15 => vec![],
                _ => arr.iter().take(3).map(|i| s.read_unchecked(i)).flat_map(|t| t.words()).collect(),
            })
        };
        // a block of its own, for the sanitizers
        let mut own: Box<[u32]> = words.clone().into_boxed_slice();
        let res = run(&mut own);
        let panicked = res.is_err();
        for around in 0..2u32 {
            let (pre, post) = (1 + r.below(3), 2 * n + 4);
            let junk = |i: usize| mix((around as u64) << 32 | i as u64) as u32 >> (i % 3 * 8);
            let mut big: Vec<u32> = (0..pre + len + post).map(junk).collect();
            big[pre..pre + len].copy_from_slice(&words);
            let got = run(&mut big[pre..pre + len]);
            let same = match (&res, &got) {
                (Ok(a), Ok(b)) => a == b,
                (Err(_), Err(_)) => true,
                _ => false,
            };
            if !same || big[pre..pre + len] != own[..] {
                self.fail(
                    "C07",
                    &format!("depends:{opname}"),
                    format!("{opname} of {name} (size {n}) at {at:#x} of {len} words depends on what surrounds the slab (panic: {panicked})"),
                );
            }
            if (0..pre).chain(pre + len..big.len()).any(|i| big[i] != junk(i)) {
                self.fail(
                    "C07",
                    &format!("outside:{opname}"),
                    format!("{opname} of {name} (size {n}) at {at:#x} of {len} words changed words outside of the slab"),
                );
            }
        }
        self.ctx.eval(Some(mix(hash_str(&name) ^ (len as u64) << 32 ^ at as u64 ^ (op as u64) << 60)));
        self.ctx.stat(if panicked { "hostile accesses that panicked" } else { "hostile accesses that returned" }, 1);
        self.ctx.sample(|| format!("{opname} of {name} (size {n}) at {at:#x} of {len} words: panic {panicked}"));
    }
}

fn words_hash(w: &[u32]) -> u64 {
    w.iter().fold(7, |a, x| mix(a ^ *x as u64))
}

/// A slab whose length is just a number.
struct FakeSlab {
    len: usize,
    asked: std::cell::Cell<u32>,
}
impl Slab for FakeSlab {
    fn len(&self) -> usize {
        self.len
    }
    fn read_unchecked<T: SlabItem>(&self, _: Id<T>) -> T {
        self.asked.set(self.asked.get() + 1);
        let words = vec![0u32; T::SLAB_SIZE + 64];
        T::read_slab(0, &words)
    }
    fn write_indexed<T: SlabItem>(&mut self, _: &T, index: usize) -> usize {
        index
    }
    fn write_indexed_slice<T: SlabItem>(&mut self, _: &[T], index: usize) -> usize {
        index
    }
}

impl Visitor for Marsh<'_> {
    fn visit<T: Shape>(&mut self) {
        if self.ctx.bad() || !self.ctx.errors.is_empty() || !self.ctx.time_left() {
            return;
        }
        self.types += 1;
        if cfg!(miri) && mix(self.seed ^ self.types) % 16 != 0 {
            return;
        }
        let name = T::name();
        self.ctx.case = format!("type {name}");
        if T::SLAB_SIZE != T::REF_SIZE {
            let m = format!("declared size of {name} is {}, its encoding needs {}", T::SLAB_SIZE, T::REF_SIZE);
            for p in ["M01", "M02", "M03"] {
                self.fail(p, &format!("size:{name}"), m.clone());
            }
            self.ctx.fail_any("size", m);
            return;
        }
        for (kind, count) in self.kinds {
            let count = (*count / (1 + T::REF_SIZE as u64 / 24)).max(if cfg!(miri) { 2 } else { 4 });
            for k in 0..count {
                let id = mix(self.seed ^ hash_str(&name) ^ (*kind as u64) << 40 ^ k << 44);
                if !self.ctx.begin(id) {
                    continue;
                }
                let mut r = Rng::new(id);
                match kind {
                    Kind::Round => self.round::<T>(&mut r),
                    Kind::Garbage => self.garbage_read::<T>(&mut r),
                    Kind::Bounds => self.bounds::<T>(&mut r),
                    Kind::Oob => self.oob::<T>(&mut r),
                    Kind::Arrays => self.arrays::<T>(&mut r),
                    Kind::Hostile => self.hostile::<T>(&mut r),
                }
                if self.ctx.bad() {
                    return;
                }
            }
        }
    }
}

pub fn run(ctx: &mut Ctx) {
    let q = |a: u64, b: u64, ctx: &Ctx| ctx.n(a, b);
    let kinds: Vec<(Kind, u64)> = match ctx.prop.as_str() {
        "M01" | "M02" | "M03" => vec![(Kind::Round, q(1500, 40_000, ctx))],
        "M04" => vec![(Kind::Garbage, q(3000, 20_000, ctx)), (Kind::Bounds, q(3000, 20_000, ctx))],
        "M05" => vec![(Kind::Oob, q(5000, 30_000, ctx))],
        "M07" => vec![(Kind::Arrays, q(500, 12_000, ctx))],
        "H01" => vec![(Kind::Hostile, q(800, 20_000, ctx))],
        _ => vec![],
    };
    let seed = mix(ctx.seed ^ hash_str(&ctx.prop));
    let mut m = Marsh {
        ctx,
        kinds: &kinds,
        seed,
        alias: None,
        huge: 150,
        types: 0,
    };
    all_types(&mut m);
    let t = m.types;
    ctx.stat("types", t);
}

// ---------------------------------------------------------------------------------------------
// M06, M09

/// Decide M06 or M09 on generated type definitions.
pub fn run_generated(ctx: &mut Ctx, visit: fn(&mut Marsh), offsets: Vec<(&'static str, fn(&mut Rng, &mut crate::offck::OffCk))>) {
    let seed = mix(ctx.seed ^ hash_str(&ctx.prop));
    if ctx.own("M09") {
        let kinds = [(Kind::Round, ctx.n(500, 12_000)), (Kind::Garbage, ctx.n(400, 8_000))];
        let mut m = Marsh {
            ctx,
            kinds: &kinds,
            seed,
            alias: Some("M09"),
            huge: 400,
            types: 0,
        };
        visit(&mut m);
        let t = m.types;
        ctx.stat("types", t);
    }
    let reps = ctx.n(250, 5000);
    let mut all = crate::gen_catalog::offset_checks();
    all.extend(offsets);
    ctx.stat("structs with offsets", all.len() as u64);
    for (name, f) in all {
        for k in 0..reps {
            if name == "XHuge" && (k % 50 != 0 || cfg!(miri)) {
                continue;
            }
            let id = mix(seed ^ hash_str(name) ^ k);
            if !ctx.begin(id) {
                continue;
            }
            ctx.case = format!("struct {name}");
            let mut r = Rng::new(id);
            let mut failed = None;
            let mut o = crate::offck::OffCk::new(ctx);
            o.big = k % 50 == 49;
            if let Err(Caught::Panic(m)) = guarded(|| f(&mut r, &mut o)) {
                failed = Some(m);
            }
            if let Some(m) = failed {
                if crate::report::harness_panic(&m) {
                    ctx.errors.push(format!("offsets {name}: {m}"));
                } else {
                    ctx.fail_any("panic:offsets", format!("using the offsets of {name} panicked: {m}"));
                }
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// M10

fn h64(x: impl std::hash::Hash) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

pub fn run_handles(ctx: &mut Ctx) {
    struct V<'a> {
        ctx: &'a mut Ctx,
        n: u64,
        seed: u64,
        big: Vec<u32>,
    }
    impl Visitor for V<'_> {
        fn visit<T: Shape>(&mut self) {
            let name = T::name();
            self.ctx.case = format!("Id<{name}>");
            let nh = {
                let mut s = std::collections::HashSet::new();
                for i in 0..512u32 {
                    s.insert(h64(Id::<T>::new(i.wrapping_mul(0x0101_0001))));
                }
                s.len()
            };
            if nh < 500 {
                self.ctx.fail("M10", "hash-spread", format!("512 different ids have only {nh} different hashes"));
            }
            for k in 0..self.n {
                if self.ctx.bad() {
                    return;
                }
                let id = mix(self.seed ^ hash_str(&name) ^ k);
                if !self.ctx.begin(id) {
                    continue;
                }
                let mut r = Rng::new(id);
                one::<T>(self.ctx, &mut r, &self.big);
            }
        }
    }
    fn one<T: Shape>(ctx: &mut Ctx, r: &mut Rng, big: &[u32]) {
        let x = r.word();
        let y = match r.below(4) {
            0 => x,
            1 => x.wrapping_add(1),
            2 => x ^ (1 << r.below(32)),
            _ => r.word(),
        };
        let z = r.word();
        let t = T::gen(r);
        let mut bad: Vec<(&'static str, String)> = vec![];
        let ok = must(ctx, "id operation", || {
            let mut ck = |sig: &'static str, ok: bool, m: String| {
                if !ok {
                    bad.push((sig, m));
                }
            };
            let a = Id::<T>::new(x);
            let b = Id::<T>::new(y);
            #[allow(clippy::clone_on_copy)]
            let c = a.clone();
            ck(
                "conv",
                a.inner() == x && a.index() == x as usize && u32::from(a) == x && c == a && c.inner() == x,
                format!("Id::new({x:#x}) is {:#x}", a.inner()),
            );
            ck("conv", Id::<T>::from(x).inner() == x && Id::<T>::from(x as usize).inner() == x, format!("id from {x:#x}"));
            ck("eq", (a == b) == (x == y) && (a != b) == (x != y), format!("Id({x:#x}) == Id({y:#x}) is {}", a == b));
            ck(
                "ord",
                a.cmp(&b) == x.cmp(&y)
                    && a.partial_cmp(&b) == Some(x.cmp(&y))
                    && ((a < b), (a <= b), (a > b), (a >= b)) == ((x < y), (x <= y), (x > y), (x >= y))
                    && a.max(b).inner() == x.max(y)
                    && a.min(b).inner() == x.min(y)
                    && Id::<T>::new(z).clamp(a.min(b), a.max(b)).inner() == z.clamp(x.min(y), x.max(y)),
                format!("order of ids {x:#x} {y:#x}: {:?}", a.cmp(&b)),
            );
            ck(
                "hash",
                h64(a) == h64(x) && h64(a) == h64(Id::<T>::new(x)) && (x == y || h64(a) != h64(b)) && h64([a, b]) == h64([x, y]) && h64((1u8, b)) == h64((1u8, y)),
                format!("hashes of ids {x:#x} and {y:#x}"),
            );
            ck(
                "none",
                a.is_none() == (x == u32::MAX) && a.is_some() == (x != u32::MAX) && (a == Id::NONE) == (x == u32::MAX),
                format!("Id({x:#x}) is_none {}", a.is_none()),
            );
            ck(
                "default",
                Id::<T>::default().is_none() && Id::<T>::NONE.inner() == u32::MAX && Id::<T>::default() == Id::NONE,
                "default id".into(),
            );
            if let Some(s) = x.checked_add(y) {
                ck(
                    "add",
                    (a + y).inner() == s && (a + y as usize).inner() == s && (y + a).inner() == s && (y as usize + a).inner() == s,
                    format!(
                        "{x:#x} + {y:#x}: {:#x} {:#x} {:#x} {:#x}",
                        (a + y).inner(),
                        (a + y as usize).inner(),
                        (y + a).inner(),
                        (y as usize + a).inner()
                    ),
                );
                let f: Id<u32> = a + crabslab::offset::Offset::<u32, T>::new(y as usize);
                let g: Id<u32> = crabslab::offset::Offset::<u32, T>::new(y as usize) + a;
                ck("offset", f.inner() == s && g.inner() == s, format!("{x:#x} + offset {y:#x}: {f:?} {g:?}"));
                let e: Id<u32> = crabslab::offset::Offset::<u32, T>::new(y as usize).into();
                ck("offset", e.inner() == y, format!("offset {y:#x} as id {e:?}"));
            }
            ck("debug", !format!("{a:?}").is_empty(), "debug".into());
            // through the slab
            let mut slab = vec![r.word(); 6];
            slab.write(Id::new(2), &a);
            let back: Id<T> = slab.read(Id::new(2));
            ck(
                "slab",
                slab[2] == x && back == a && back.is_none() == a.is_none(),
                format!("id {x:#x} through the slab: {back:?}"),
            );
            let arr = Array::<T>::new(x, y);
            slab.write(Id::new(3), &arr);
            let back: Array<T> = slab.read(Id::new(3));
            ck(
                "aslab",
                slab[3] == x && slab[4] == y && back == arr && back.len() == y as usize && back.starting_index() == x as usize,
                format!("array ({x:#x},{y:#x}) through the slab: {back:?}"),
            );
            #[allow(clippy::clone_on_copy)]
            let arr2 = arr.clone();
            ck(
                "aeq",
                arr2 == arr && (arr == Array::new(y, x)) == (x == y) && (arr == Array::new(x, x)) == (x == y),
                format!("array equality ({x:#x},{y:#x})"),
            );
            ck(
                "anull",
                arr.is_null() == (x == u32::MAX) && arr.is_empty() == (y == 0),
                format!("array ({x:#x},{y:#x}) null {} empty {}", arr.is_null(), arr.is_empty()),
            );
            ck("adebug", !format!("{arr:?}").is_empty(), "debug".into());
            let n = Array::<T>::NONE;
            slab.write(Id::new(0), &n);
            let back: Array<T> = slab.read(Id::new(0));
            ck(
                "anone",
                n.is_null() && n.is_empty() && n.len() == 0 && back.is_null() && back == n && Array::<T>::default() == n && n.at(0).is_none() && n.iter().count() == 0,
                format!("null array: {n:?} {back:?}"),
            );
            ck("aread", slab.read_vec(n).is_empty(), "reading a null array".into());
            // conditional reads
            let mut items = vec![0u32; T::SLAB_SIZE + 3];
            items.write(Id::<T>::new(1), &t);
            let mut target = T::gen(r);
            let before = target.words();
            items.read_into_if_some(Id::<T>::NONE, &mut target);
            ck("cond", target.words() == before, "a conditional read through the null id changed the target".into());
            items.read_into_if_some(Id::<T>::new(1), &mut target);
            ck("cond", target.words() == t.words(), format!("a conditional read gave {}", show(&target.words())));
            let before = t.words();
            let mut target = t.clone();
            big.read_into_if_some(Id::<T>::NONE, &mut target);
            ck("cond", target.words() == before, "a conditional read through the null id of a big slab changed the target".into());
            let d: T = items.read(Id::<T>::NONE);
            ck(
                "read-none",
                d.words() == T::default().words() || T::REF_SIZE == 0,
                "reading the null id is not the default".into(),
            );
        });
        for (s, m) in bad {
            ctx.fail("M10", s, m);
        }
        if ok.is_some() {
            ctx.eval(Some(mix((x as u64) << 32 | y as u64)));
            ctx.sample(|| format!("Id<{}> {x:#x} and {y:#x}", T::name()));
        }
    }
    let n = ctx.n(1500, 40_000);
    let seed = mix(ctx.seed ^ hash_str("M10"));
    let big = vec![1; if cfg!(miri) { 300 } else { 300_000 }];
    let mut v = V { ctx, n, seed, big };
    v.visit::<u32>();
    v.visit::<u64>();
    v.visit::<(u8, Option<u32>)>();
    v.visit::<glam::Mat4>();
    v.visit::<PhantomData<u8>>();
    v.visit::<Id<u32>>();
    crate::gen_catalog::visit(&mut v);
}
