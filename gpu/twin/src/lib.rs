//! What one side (CPU or GPU) can do with one item type.
pub type W = Option<u32>;

pub struct Twin {
    pub name: String,
    /// as the crate says, and as it must be
    pub size: usize,
    pub ref_size: usize,
    /// the words of the value made from a seed
    pub gen: fn(u64) -> Vec<W>,
    pub default: fn() -> Vec<W>,
    /// what reading words must yield
    pub norm: fn(&[u32]) -> Vec<W>,
    /// write the values made from some seeds, in one of many ways; yields the place after it, where the way tells
    pub write: fn(&[u64], usize, &mut Vec<u32>, usize) -> Option<usize>,
    /// read some values, in one of many ways
    pub read: fn(usize, &[u32], usize, usize) -> Vec<Vec<W>>,
    pub contains: fn(u32, usize) -> bool,
    /// read the id, whatever it is
    pub checked: fn(u32, &[u32]) -> Vec<W>,
    /// elements of a big array of it: the id of the n-th, `u32::MAX` if there is none
    pub at: fn(u32, u32, usize) -> u32,
}
pub const WRITES: [&str; 7] = ["write", "write_indexed", "write_slab", "write_indexed_slice", "write_array", "CpuSlab::append", "CpuSlab::append_array"];
pub const READS: [&str; 6] = ["read", "read_unchecked", "read_slab", "Array::at", "read_into_if_some", "CpuSlab::read"];

pub struct Side {
    pub twins: Vec<Twin>,
    /// run checks of field offsets with a seed: (signature, message)
    pub offsets: Vec<(&'static str, Box<dyn Fn(u64) -> Vec<(String, String)>>)>,
    pub slice_index: fn(&[u32], usize) -> u32,
    pub slice_index_mut: fn(&mut [u32], usize, u32),
    pub array_index: fn(&[u32; 9], usize) -> u32,
    pub array_index_mut: fn(&mut [u32; 9], usize, u32),
}
