//! Stands in for the GPU intrinsics: the unchecked accesses are checked here.
#![no_std]
pub mod arch {
    #[cold]
    fn out(index: usize, len: usize) -> ! {
        panic!("GPU: unchecked access to element {index} of {len}")
    }
    pub unsafe trait IndexUnchecked<T> {
        unsafe fn index_unchecked(&self, index: usize) -> &T;
        unsafe fn index_unchecked_mut(&mut self, index: usize) -> &mut T;
    }
    unsafe impl<T> IndexUnchecked<T> for [T] {
        unsafe fn index_unchecked(&self, index: usize) -> &T {
            if index >= self.len() {
                out(index, self.len())
            }
            &self[index]
        }
        unsafe fn index_unchecked_mut(&mut self, index: usize) -> &mut T {
            if index >= self.len() {
                out(index, self.len())
            }
            &mut self[index]
        }
    }
    unsafe impl<T, const N: usize> IndexUnchecked<T> for [T; N] {
        unsafe fn index_unchecked(&self, index: usize) -> &T {
            IndexUnchecked::index_unchecked(self.as_slice(), index)
        }
        unsafe fn index_unchecked_mut(&mut self, index: usize) -> &mut T {
            IndexUnchecked::index_unchecked_mut(self.as_mut_slice(), index)
        }
    }
    pub fn kill() -> ! {
        panic!("GPU: kill")
    }
}
