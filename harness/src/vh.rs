//! Hooks: symbolic in the engine, concrete values in the native replay.
#[allow(improper_ctypes)]
mod raw {
	extern "C" {
		pub fn vh_sym(width: u32) -> u64;
		pub fn vh_assume(c: bool);
		pub fn vh_universe();
		pub fn vh_assert(c: bool, id: u32);
		pub fn vh_cover(c: bool, id: u32);
		pub fn vh_const(p: *const u8, n: usize) -> *const u8;
	}
}
pub fn raw_const(p: *const u8, n: usize) -> *const u8 { unsafe { raw::vh_const(p, n) } }
pub fn sym(width: u32) -> u64 { unsafe { raw::vh_sym(width) } }
pub fn assume(c: bool) { unsafe { raw::vh_assume(c) } }
pub fn universe() { unsafe { raw::vh_universe() } }
pub fn check(c: bool, id: u32) { unsafe { raw::vh_assert(c, id) } }
pub fn cover(c: bool, id: u32) { unsafe { raw::vh_cover(c, id) } }
/// Freeze a string: an immutable copy with a 'static lifetime.
pub fn freeze(s: &[u8]) -> &'static str {
	unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(raw::vh_const(s.as_ptr(), s.len()), s.len())) }
}
pub fn freeze_slice<T>(s: &[T]) -> &'static [T] {
	unsafe { std::slice::from_raw_parts(raw_const(s.as_ptr().cast(), std::mem::size_of_val(s)).cast(), s.len()) }
}

/// Show an input in the output of the native replay (nothing to do symbolically).
pub fn show(_what: &str, _s: &str) {
	#[cfg(not(vh_ir))]
	println!("INPUT {} {:?}", _what, _s);
}
macro_rules! entries {
	($($name:ident)*) => {
		$( #[no_mangle] pub extern "C" fn $name(a: u64, b: u64, c: u64, d: u64) { entry::$name([a, b, c, d]) } )*
		pub fn dispatch(name: &str, a: [u64; 4]) -> bool {
			match name {
				$( stringify!($name) => entry::$name(a), )*
				_ => return false,
			}
			true
		}
	};
}
mod entry {
	pub use crate::text::*;
	pub use crate::spanh::*;
	pub use crate::classh::*;
	pub use crate::lexh::*;
	pub use crate::parse::*;
}
entries! { h_free h_long h_tag h_join h_open h_ends h_swap h_elide h_sumti h_selbri h_pipe h_parse h_tree h_shape h_gram h_ui h_bahe h_quote h_zei h_wrap h_or h_span h_span_bad h_slice h_dict h_dictn h_class h_spell h_names h_dictlex h_lex h_tokens h_words h_ref h_local h_comma h_case h_step h_again }
