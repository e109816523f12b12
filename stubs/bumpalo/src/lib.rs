//! Environment model of `bumpalo::Bump` for the symbolic runs: every allocation returns fresh,
//! disjoint, suitably aligned memory that stays valid for the life of the arena.
//! (The native replay links the real crate.)
use std::alloc::Layout;
extern "C" {
	fn vh_arena_alloc(size: usize, align: usize) -> *mut u8;
}
#[derive(Debug, Default)]
pub struct Bump {
	_not_sync: std::cell::Cell<usize>,
}
fn raw<T>(n: usize) -> *mut T {
	let l = Layout::array::<T>(n).unwrap();
	if l.size() == 0 {
		return std::ptr::NonNull::dangling().as_ptr();
	}
	unsafe { vh_arena_alloc(l.size(), l.align()).cast() }
}
impl Bump {
	pub fn new() -> Self {
		Self::default()
	}
	#[allow(clippy::mut_from_ref)]
	pub fn alloc<T>(&self, val: T) -> &mut T {
		let p = raw::<T>(1);
		unsafe {
			p.write(val);
			&mut *p
		}
	}
	#[allow(clippy::mut_from_ref)]
	pub fn alloc_with<T, F: FnOnce() -> T>(&self, f: F) -> &mut T {
		self.alloc(f())
	}
	#[allow(clippy::mut_from_ref)]
	pub fn alloc_slice_fill_iter<T, I>(&self, iter: I) -> &mut [T]
	where
		I: IntoIterator<Item = T>,
		I::IntoIter: ExactSizeIterator,
	{
		let mut iter = iter.into_iter();
		let n = iter.len();
		let p = raw::<T>(n);
		unsafe {
			for i in 0..n {
				p.add(i).write(iter.next().expect("Iterator supplied too few elements"));
			}
			std::slice::from_raw_parts_mut(p, n)
		}
	}
	#[allow(clippy::mut_from_ref)]
	pub fn alloc_slice_copy<T: Copy>(&self, src: &[T]) -> &mut [T] {
		self.alloc_slice_fill_iter(src.iter().copied())
	}
	#[allow(clippy::mut_from_ref)]
	pub fn alloc_slice_clone<T: Clone>(&self, src: &[T]) -> &mut [T] {
		self.alloc_slice_fill_iter(src.iter().cloned())
	}
	#[allow(clippy::mut_from_ref)]
	pub fn alloc_slice_fill_with<T, F: FnMut(usize) -> T>(&self, len: usize, f: F) -> &mut [T] {
		self.alloc_slice_fill_iter((0..len).map(f))
	}
	#[allow(clippy::mut_from_ref)]
	pub fn alloc_slice_fill_copy<T: Copy>(&self, len: usize, value: T) -> &mut [T] {
		self.alloc_slice_fill_iter((0..len).map(|_| value))
	}
	#[allow(clippy::mut_from_ref)]
	pub fn alloc_slice_fill_clone<T: Clone>(&self, len: usize, value: &T) -> &mut [T] {
		self.alloc_slice_fill_iter((0..len).map(|_| value.clone()))
	}
	#[allow(clippy::mut_from_ref)]
	pub fn alloc_slice_fill_default<T: Default>(&self, len: usize) -> &mut [T] {
		self.alloc_slice_fill_iter((0..len).map(|_| T::default()))
	}
	#[allow(clippy::mut_from_ref)]
	pub fn alloc_str(&self, src: &str) -> &mut str {
		unsafe { std::str::from_utf8_unchecked_mut(self.alloc_slice_copy(src.as_bytes())) }
	}
	pub fn with_capacity(_: usize) -> Self {
		Self::default()
	}
	pub fn allocated_bytes(&self) -> usize {
		0
	}
	pub fn reset(&mut self) {}
}
