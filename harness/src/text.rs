//! Properties of the decomposition of text into words.
use super::gen::*;
use super::refmorph as m;
use super::vh::*;
use sneturfahi::decompose;
use sneturfahi::span::Span;

fn is_gap(c: u8) -> bool {
	m::pause(c) || c == b','
}

/// T01, T05: ordered, non-empty, in-bounds words; only pauses and commas between them
pub fn h_words(p: [u64; 4]) {
	let s = text(p);
	let mut last = 0usize;
	for w in decompose(s) {
		let (st, en) = (w.start as usize, w.end as usize);
		check(st >= last, 1);
		check(en > st, 2);
		check(en <= s.len(), 3);
		check(s.as_bytes()[last..st].iter().all(|&c| is_gap(c)), 4);
		check(s.as_bytes()[st..en].iter().all(|&c| !m::pause(c)), 5);
		check(s.as_bytes()[st..en].iter().any(|&c| c != b','), 6);
		check(s.is_char_boundary(st) && s.is_char_boundary(en), 8);
		last = en;
		cover(true, 1);
	}
	check(s.as_bytes()[last..].iter().all(|&c| is_gap(c)), 7);
}

fn reft(s: &'static str) -> &'static m::T {
	let mut t = m::T { b: [0; 40] };
	for (i, &c) in s.as_bytes().iter().enumerate() {
		t.b[i] = if c == 0 { 1 } else { c }; // zero ends the text
	}
	let sl: &'static [m::T] = freeze_slice(std::slice::from_ref(&t));
	&sl[0]
}

/// M10: the words are those of the reference morphology
pub fn h_ref(p: [u64; 4]) {
	let s = text(p);
	let t = reft(s);
	let mut pos = 0u8;
	let mut it = decompose(s);
	let mut n = 0;
	loop {
		let st = m::word_start(t, pos);
		match it.next() {
			None => {
				check(st == m::F, 1);
				break;
			}
			Some(w) => {
				check(st != m::F, 2);
				let (mut x, mut y) = (w.start as usize, w.end as usize);
				let by = s.as_bytes();
				while x < y && by[x] == b',' {
					x += 1;
				}
				while y > x && by[y - 1] == b',' {
					y -= 1;
				}
				if st == m::F {
					break;
				}
				let en = m::word_end(t, st);
				let mut z = en as usize;
				while z > st as usize && by[z - 1] == b',' {
					z -= 1;
				}
				check(x == st as usize, 3);
				check(y == z, 4);
				cover(n > 0 && y != m::chunk_end(t, en) as usize, 2);
				n += 1;
				pos = en;
			}
		}
	}
}

/// T02: the words before a pause and after it do not depend on each other
pub fn h_local(p: [u64; 4]) {
	let mut a = [0u8; 40];
	let (n, mark) = pattern(p, &mut a);
	universe();
	let whole = freeze(&a[..n]);
	let left = freeze(&a[..mark]);
	let right = freeze(&a[mark + 1..n]);
	show("text", whole);
	let mut it = decompose(whole);
	for w in decompose(left) {
		match it.next() {
			None => check(false, 1),
			Some(v) => {
				check(v.start == w.start, 2);
				check(v.end == w.end, 3);
			}
		}
		cover(true, 1);
	}
	let off = mark as u32 + 1;
	for w in decompose(right) {
		match it.next() {
			None => check(false, 4),
			Some(v) => {
				check(v.start == w.start + off, 5);
				check(v.end == w.end + off, 6);
			}
		}
		cover(true, 2);
	}
	check(it.next().is_none(), 7);
}

/// a word without the commas at its ends
fn core(s: &str, w: Span) -> (usize, usize) {
	let (mut x, mut y) = (w.start as usize, w.end as usize);
	let by = s.as_bytes();
	while x < y && by[x] == b',' {
		x += 1;
	}
	while y > x && by[y - 1] == b',' {
		y -= 1;
	}
	(x, y)
}

/// T03: a comma inserted anywhere does not change the words (`^` one comma, `^^` twenty at once)
pub fn h_comma(p: [u64; 4]) {
	let mut a = [0u8; 40];
	let (n, mark) = pattern(p, &mut a);
	let mut marks = 0;
	let mut i = 0;
	while i < 32 {
		marks += ((p[i / 8] >> (8 * (i % 8))) as u8 == b'^') as usize;
		i += 1;
	}
	let k = if marks > 1 { 20 } else { 1 };
	let mut b = [b','; 64];
	let mut i = 0;
	while i < n {
		b[if i < mark { i } else { i + k }] = a[i];
		i += 1;
	}
	universe();
	let plain = freeze(&a[..n]);
	let comma = freeze(&b[..n + k]);
	show("text", comma);
	let mut it = decompose(comma);
	for w in decompose(plain) {
		let (x, y) = core(plain, w);
		match it.next() {
			None => check(false, 1),
			Some(v) => {
				let (mut z, mut t) = core(comma, v);
				if z > mark {
					z -= k;
				}
				if t > mark {
					t -= k;
				}
				check(x == z, 2);
				check(y == t, 3);
			}
		}
		cover(x < mark && mark < y, 1);
	}
	check(it.next().is_none(), 4);
}

/// T04: `h` or apostrophe, and the case of consonants, do not change the words
pub fn h_case(p: [u64; 4]) {
	let mut a = [0u8; 40];
	let (n, _) = pattern(p, &mut a);
	let mut b = [0u8; 40];
	let mut i = 0;
	while i < n {
		let flip = sym(1) != 0; // asked for on every path, so that the replay stays in step
		b[i] = match a[i] {
			b'\'' if flip => b'h',
			c if m::is_cons(c) && flip => c ^ 32,
			c => c,
		};
		i += 1;
	}
	universe();
	let s = freeze(&a[..n]);
	let t = freeze(&b[..n]);
	show("text", s);
	show("variant", t);
	let mut it = decompose(t);
	for w in decompose(s) {
		match it.next() {
			None => check(false, 1),
			Some(v) => {
				check(v.start == w.start, 2);
				check(v.end == w.end, 3);
			}
		}
		cover(true, 1);
	}
	check(it.next().is_none(), 4);
}

/// T06: mixing word-wise and chunk-wise steps
pub fn h_step(p: [u64; 4]) {
	let s = text(p);
	let b = s.as_bytes();
	let mut plan = 0u32;
	let mut i = 0;
	while i < 6 {
		plan |= (sym(1) as u32) << i;
		i += 1;
	}
	universe();
	let mut it = decompose(s);
	let mut all = decompose(s);
	let mut upcoming = all.next(); // first word of the plain decomposition that was not passed yet
	let mut pos = 0usize; // everything before it was consumed
	let mut fresh = true; // at the start, where a chunk begins without a pause before it
	let mut k = 0;
	while k < 6 {
		// what the size hint promises holds for the plain iteration from here
		let (low, high) = it.size_hint();
		let mut left = 0;
		if upcoming.is_some() {
			left = 1;
			for _ in all.clone() {
				left += 1;
			}
		}
		check(low <= left, 1);
		check(high.map_or(true, |h| h >= left), 2);
		if plan >> k & 1 == 0 {
			match (it.next(), upcoming) {
				(None, None) => break,
				(Some(x), Some(y)) => {
					check(x.start == y.start, 3);
					check(x.end == y.end, 4);
					pos = y.end as usize;
					fresh = false;
					upcoming = all.next();
				}
				_ => check(false, 5),
			}
		} else {
			// the rest of the current chunk, if a word is left in it; otherwise the next chunk
			let mut from = pos;
			let mut inside = false;
			if let Some(y) = upcoming {
				inside = !fresh && b[pos..y.start as usize].iter().all(|&c| !m::pause(c));
				if inside {
					from = y.start as usize;
				}
			}
			if !inside && !fresh {
				while from < b.len() && !m::pause(b[from]) {
					from += 1;
				}
				from += 1;
			}
			match it.next_no_decomposition() {
				None => {
					check(from > b.len(), 6);
					check(it.next().is_none(), 7);
					break;
				}
				Some(x) => {
					check(from <= b.len(), 8);
					if from > b.len() {
						break;
					}
					let mut to = from;
					while to < b.len() && !m::pause(b[to]) {
						to += 1;
					}
					check(x.start as usize == from, 9);
					check(x.end as usize == to, 10);
					cover(inside, 1);
					cover(!inside && to > from, 2);
					cover(to == from, 3);
					pos = to;
					fresh = false;
					while let Some(y) = upcoming {
						if y.start as usize >= to {
							break;
						}
						upcoming = all.next();
					}
				}
			}
		}
		k += 1;
	}
}

/// T07: each word of a text, taken alone, is one word
pub fn h_again(p: [u64; 4]) {
	let s = text(p);
	for w in decompose(s) {
		let (x, y) = (w.start as usize, w.end as usize);
		let t = &s[x..y];
		let mut it = decompose(t);
		match it.next() {
			None => check(false, 1),
			Some(v) => {
				check(core(t, v) == core(t, Span::new(0, (y - x) as u32)), 3);
			}
		}
		check(it.next().is_none(), 4);
		cover(x > 0, 1);
	}
}
