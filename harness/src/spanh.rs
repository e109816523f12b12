//! Properties of spans.
use super::gen::*;
use super::vh::*;
use sneturfahi::span::Span;

/// four 32-bit numbers with interleaved bits (keeps comparisons between them small)
fn four(n: u32) -> [u32; 4] {
	let mut r = [0u32; 4];
	let mut i = n;
	while i > 0 {
		i -= 1;
		let mut k = 0;
		while k < 4 {
			r[k] |= (sym(1) as u32) << i;
			k += 1;
		}
	}
	r
}

/// S40: length, emptiness, containment, overlap, between
pub fn h_span(_: [u64; 4]) {
	let [a, b, c, d] = four(32);
	assume(a <= b && c <= d);
	universe();
	let (x, y) = (Span::new(a, b), Span::new(c, d));
	check(x.start == a && x.end == b, 1);
	check(x.len() == b - a, 2);
	check(x.is_empty() == (a == b), 3);
	check(x.is_empty() == (x.len() == 0), 4);
	check(x.contains(c) == (a <= c && c < b), 5);
	let over = a < d && c < b;
	check(x.overlaps_with(y) == over, 6);
	check(y.overlaps_with(x) == x.overlaps_with(y), 7);
	let z = Span::between(x, y);
	check(z.is_some() == (b < c), 8);
	if let Some(z) = z {
		check(z.start == b && z.end == c, 9);
		check(!z.overlaps_with(x) && !z.overlaps_with(y), 10);
	}
	check((x == y) == (a == c && b == d), 11);
	let v = Span::at(a, b - a);
	check(v == x, 12);
	cover(over && a == b, 1);
	cover(z.is_some(), 2);
}

/// a backwards span is refused
pub fn h_span_bad(_: [u64; 4]) {
	let [a, b, _, _] = four(32);
	assume(b < a);
	universe();
	cover(true, 1);
	let x = Span::new(a, b);
	check(x.start == x.end && x.end != x.start, 1);
}

/// S41: slices: exact content, and nothing outside the text or inside a character
pub fn h_slice(p: [u64; 4]) {
	let s = text(p);
	let [a, b, _, _] = four(32);
	assume(a <= b);
	universe();
	let n = s.len();
	let (i, j) = (a as usize, b as usize);
	let x = Span { start: a, end: b };
	let bound = |k: usize| k == n || (k < n && (s.as_bytes()[k] as i8) >= -0x40);
	let base = s.as_ptr() as usize;
	match x.slice(s) {
		None => check(!(bound(i) && bound(j)), 1),
		Some(t) => {
			check(bound(i) && bound(j), 2);
			check(t.len() == j - i, 3);
			check(t.as_ptr() as usize == base + i, 4);
			check(Span::from_embedded_slice(s.as_ptr(), t) == x, 5);
			cover(i > 0 && j > i, 1);
		}
	}
	match x.slice_before(s) {
		None => check(!bound(i), 6),
		Some(t) => {
			check(bound(i), 7);
			check(t.len() == i && t.as_ptr() as usize == base, 8);
		}
	}
	match x.slice_after(s) {
		None => check(!bound(j), 9),
		Some(t) => {
			check(bound(j), 10);
			check(t.len() == n - j && t.as_ptr() as usize == base + j, 11);
		}
	}
	let e = Span::entire_slice(s);
	check(e.start == 0 && e.end as usize == n, 12);
	check(e.slice(s).map_or(false, |t| t.len() == n), 13);
}
