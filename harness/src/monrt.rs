//! A recording runtime: it behaves like GPU memory and logs every call.
use craballoc::prelude::*;
use std::future::Future;
use std::ops::{Deref, RangeBounds};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

pub enum Mem {
    Own(Mutex<Vec<u32>>),
    /// the reference runtime of the crate
    Cpu(VecSlab),
}

pub struct MonBuf {
    pub id: u64,
    pub cap: usize,
    pub mem: Mem,
    sh: Arc<Shared>,
}
impl MonBuf {
    pub fn with<A>(&self, f: impl FnOnce(&[u32]) -> A) -> A {
        match &self.mem {
            Mem::Own(m) => f(&m.lock().unwrap()),
            Mem::Cpu(v) => f(v.as_vec().deref()),
        }
    }
    /// Change a word, as code running on the GPU would.
    pub fn poke(&self, i: usize, word: u32) {
        match &self.mem {
            Mem::Own(m) => m.lock().unwrap()[i] = word,
            Mem::Cpu(v) => CpuRuntime.buffer_write(
                Some(SlabUpdate {
                    array: crabslab::Array::new(i as u32, 1),
                    elements: vec![word],
                })
                .into_iter(),
                v,
            ),
        }
    }
}
impl Drop for MonBuf {
    fn drop(&mut self) {
        self.sh.live.fetch_sub(1, Ordering::SeqCst);
    }
}

#[derive(Clone, Debug)]
pub enum Ev {
    Create { id: u64, cap: usize, label: Option<String>, usages: u32 },
    Copy { src: u64, dst: u64, src_cap: usize, dst_cap: usize },
    Write { buf: u64, cap: usize, updates: Vec<(u32, u32, usize)> },
}

#[derive(Default)]
pub struct Shared {
    pub events: Mutex<Vec<Ev>>,
    /// violations of the protocol: (signature, message)
    pub bad: Mutex<Vec<(&'static str, String)>>,
    pub in_commit: AtomicBool,
    pub next: AtomicU64,
    pub live: AtomicU64,
    /// fill of fresh memory (0: zeroes)
    pub poison: u32,
    pub use_cpu: bool,
    pub shuffle: AtomicU64,
    /// called in every runtime call
    pub delay: Option<Box<dyn Fn(u32) + Send + Sync>>,
    /// are several threads at it?
    pub concurrent: bool,
}

#[derive(Clone)]
pub struct MonRt(pub Arc<Shared>);
impl AsRef<MonRt> for MonRt {
    fn as_ref(&self) -> &MonRt {
        self
    }
}

pub fn fill(poison: u32, i: usize) -> u32 {
    if poison == 0 {
        0
    } else {
        poison ^ (i as u32).wrapping_mul(0x9E37_79B9)
    }
}

impl MonRt {
    pub fn bad(&self, sig: &'static str, msg: String) {
        let mut b = self.0.bad.lock().unwrap();
        if b.len() < 50 {
            b.push((sig, msg));
        }
    }
    fn called(&self, what: &str, k: u32) {
        if !self.0.in_commit.load(Ordering::SeqCst) && !self.0.concurrent {
            self.bad("outside-commit", format!("{what} called outside of a commit"));
        }
        if let Some(d) = &self.0.delay {
            d(k);
        }
    }
}

impl IsRuntime for MonRt {
    type Buffer = MonBuf;
    type BufferUsages = u32;

    fn buffer_create(&self, cap: usize, label: Option<&str>, usages: u32) -> MonBuf {
        self.called("buffer_create", 0);
        let id = self.0.next.fetch_add(1, Ordering::SeqCst);
        self.0.live.fetch_add(1, Ordering::SeqCst);
        self.0.events.lock().unwrap().push(Ev::Create {
            id,
            cap,
            label: label.map(|l| l.to_string()),
            usages,
        });
        if cap > 1 << 30 {
            self.bad("capacity", format!("a buffer of {cap} words was requested"));
        }
        let mem = if self.0.use_cpu {
            Mem::Cpu(CpuRuntime.buffer_create(cap, label, ()))
        } else {
            Mem::Own(Mutex::new((0..cap).map(|i| fill(self.0.poison, i)).collect()))
        };
        MonBuf { id, cap, mem, sh: self.0.clone() }
    }

    fn buffer_copy(&self, src: &MonBuf, dst: &MonBuf, label: Option<&str>) {
        self.called("buffer_copy", 1);
        self.0.events.lock().unwrap().push(Ev::Copy {
            src: src.id,
            dst: dst.id,
            src_cap: src.cap,
            dst_cap: dst.cap,
        });
        if src.id == dst.id {
            self.bad("copy-self", format!("buffer {} is copied onto itself", src.id));
            return;
        }
        match (&src.mem, &dst.mem) {
            (Mem::Cpu(s), Mem::Cpu(d)) if src.cap <= dst.cap => CpuRuntime.buffer_copy(s, d, label),
            (Mem::Own(s), Mem::Own(d)) => {
                let s = s.lock().unwrap().clone();
                let mut d = d.lock().unwrap();
                let n = s.len().min(d.len());
                d[..n].copy_from_slice(&s[..n]);
            }
            _ => {}
        }
    }

    fn buffer_write<U: Iterator<Item = SlabUpdate>>(&self, updates: U, buf: &MonBuf) {
        self.called("buffer_write", 2);
        let mut us: Vec<SlabUpdate> = updates.collect();
        let rec: Vec<(u32, u32, usize)> = us.iter().map(|u| (u.array.index, u.array.len, u.elements.len())).collect();
        self.0.events.lock().unwrap().push(Ev::Write {
            buf: buf.id,
            cap: buf.cap,
            updates: rec,
        });
        us.retain(|u| {
            let ok = u.array.len as usize == u.elements.len();
            if !ok {
                self.bad("length", format!("update {:?} carries {} words", u.array, u.elements.len()));
            }
            let fits = u.array.index as usize + u.array.len as usize <= buf.cap;
            if !fits {
                self.bad("bounds", format!("update {:?} does not fit into the buffer of {} words", u.array, buf.cap));
            }
            ok && fits
        });
        let mut by: Vec<(u32, u32)> = us.iter().filter(|u| u.array.len > 0).map(|u| (u.array.index, u.array.len)).collect();
        by.sort_unstable();
        for w in by.windows(2) {
            if w[0].0 + w[0].1 > w[1].0 {
                self.bad("overlap", format!("updates {}+{} and {}+{} of one batch overlap", w[0].0, w[0].1, w[1].0, w[1].1));
            }
        }
        // a batch may be applied in any order
        let mut s = self.0.shuffle.load(Ordering::Relaxed);
        if s != 0 {
            for i in (1..us.len()).rev() {
                s = crate::rng::mix(s);
                us.swap(i, s as usize % (i + 1));
            }
            self.0.shuffle.store(s | 1, Ordering::Relaxed);
        }
        match &buf.mem {
            Mem::Cpu(v) => CpuRuntime.buffer_write(us.into_iter(), v),
            Mem::Own(m) => {
                let mut m = m.lock().unwrap();
                for u in us {
                    if let Some(d) = &self.0.delay {
                        d(3);
                    }
                    let a = u.array.index as usize;
                    m[a..a + u.elements.len()].copy_from_slice(&u.elements);
                }
            }
        }
    }

    fn buffer_read(&self, _: &MonBuf, _: usize, _: impl RangeBounds<usize>) -> impl Future<Output = Result<Vec<u32>, SlabAllocatorError>> {
        async { unimplemented!("harness: not read this way") }
    }
}
