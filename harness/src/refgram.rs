//! Reference recogniser: an interpreter for the frozen grammar table (an ordered-choice grammar with
//! greedy repetition), over token categories only.  A rule maps a position to the position after the
//! match, to `F` (no match) or to `X` (no match, and no alternative may be tried either).
use super::refgram_table::*;
use sneturfahi::lex::Selmaho as S;

pub const TOK: u8 = 0;
pub const ANY: u8 = 1;
pub const SEQ: u8 = 2;
pub const ALT: u8 = 3;
pub const OPT: u8 = 4;
pub const MANY0: u8 = 5;
pub const MANY1: u8 = 6;
pub const NOT: u8 = 7;
pub const CUT: u8 = 8;
pub const NAME: u8 = 9;
pub const MUST: u8 = 10;
pub const BUINNER: u8 = 11;
pub const TILL: u8 = 12;
pub const LEAF: u8 = 13;
pub const F: u8 = 255;
pub const X: u8 = 254;

/// categories of the sentence, then 999s
pub struct G {
	pub c: [u16; 34],
}

/// match `n` at `p`
#[inline(never)]
pub fn run(g: &'static G, n: u16, p: u8) -> u8 {
	let (k, a, b) = NODES[n as usize];
	match k {
		TOK => {
			if g.c[p as usize] == a {
				p + 1
			} else {
				F
			}
		}
		ANY => {
			if g.c[p as usize] != 999 {
				p + 1
			} else {
				F
			}
		}
		LEAF => {
			let c = g.c[p as usize];
			if c != 999 && (b == 999 || b == c) {
				p + 1
			} else {
				F
			}
		}
		BUINNER => {
			let c = g.c[p as usize];
			let bad = c == 999 || c == S::Bu as u16 || c == S::Zei as u16 || c == S::Si as u16 || c == S::Su as u16 || c == S::Sa as u16 || c == S::Faho as u16;
			if bad {
				F
			} else {
				p + 1
			}
		}
		SEQ => seq(g, a, a + b, p),
		ALT => alt(g, a, a + b, p),
		OPT => {
			let e = run(g, a, p);
			if e == F {
				p
			} else {
				e
			}
		}
		MANY0 => many(g, a, p),
		MANY1 => {
			let e = run(g, a, p);
			if e >= X {
				e
			} else {
				many(g, a, e)
			}
		}
		NOT => match run(g, a, p) {
			F => p,
			X => X,
			_ => F,
		},
		CUT => {
			let e = run(g, a, p);
			if e == F {
				X
			} else {
				e
			}
		}
		NAME => run(g, b, p),
		MUST => {
			let e = run(g, a, p);
			if e == p {
				F
			} else {
				e
			}
		}
		_ => till(g, a, b, p),
	}
}
/// the rules `i` up to `j`, one after the other
#[inline(never)]
fn seq(g: &'static G, i: u16, j: u16, p: u8) -> u8 {
	if i == j {
		return p;
	}
	let e = run(g, KIDS[i as usize], p);
	if e >= X {
		return e;
	}
	seq(g, i + 1, j, e)
}
#[inline(never)]
fn alt(g: &'static G, i: u16, j: u16, p: u8) -> u8 {
	if i == j {
		return F;
	}
	let e = run(g, KIDS[i as usize], p);
	if e != F {
		return e;
	}
	alt(g, i + 1, j, p)
}
/// as many as possible; matching nothing would go on forever and counts as no match
#[inline(never)]
fn many(g: &'static G, n: u16, p: u8) -> u8 {
	let e = run(g, n, p);
	if e == F {
		p
	} else if e == X {
		X
	} else if e == p {
		F
	} else {
		many(g, n, e)
	}
}
/// `a` until `b`
#[inline(never)]
fn till(g: &'static G, a: u16, b: u16, p: u8) -> u8 {
	let e = run(g, b, p);
	if e != F {
		return e;
	}
	let e = run(g, a, p);
	if e >= X {
		return e;
	}
	till(g, a, b, e)
}

/// What the tree has to have at a depth, over the token `at`: name and end (zero: nothing).
pub const NONE: u32 = 0;
/// the name of a leaf is its category's
pub const LEAFNAME: u32 = 1000;
fn code(name: u32, end: u8) -> u32 {
	(name + 1) << 8 | end as u32
}
/// `n` matches at `p`: the node at `depth` below it that starts with the token `at`
#[inline(never)]
pub fn find(g: &'static G, n: u16, p: u8, at: u8, depth: u8) -> u32 {
	let (k, a, b) = NODES[n as usize];
	match k {
		TOK | ANY | BUINNER => {
			if depth == 0 && p == at {
				code(LEAFNAME, p + 1)
			} else {
				NONE
			}
		}
		LEAF => {
			if depth == 0 && p == at {
				code(a as u32, p + 1)
			} else {
				NONE
			}
		}
		NAME => {
			if depth > 0 {
				find(g, b, p, at, depth - 1)
			} else if p == at {
				let e = run(g, b, p);
				if e == p {
					NONE
				} else {
					code(a as u32, e)
				}
			} else {
				NONE
			}
		}
		SEQ => find_seq(g, a, a + b, p, at, depth),
		ALT => find_alt(g, a, a + b, p, at, depth),
		OPT | MUST | CUT => {
			if run(g, a, p) >= X {
				NONE
			} else {
				find(g, a, p, at, depth)
			}
		}
		MANY0 | MANY1 => find_many(g, a, p, at, depth),
		NOT => NONE,
		_ => find_till(g, a, b, p, at, depth),
	}
}
#[inline(never)]
fn find_seq(g: &'static G, i: u16, j: u16, p: u8, at: u8, depth: u8) -> u32 {
	if i == j {
		return NONE;
	}
	let e = run(g, KIDS[i as usize], p);
	if e >= X {
		return NONE;
	}
	if at < e {
		return find(g, KIDS[i as usize], p, at, depth);
	}
	find_seq(g, i + 1, j, e, at, depth)
}
#[inline(never)]
fn find_alt(g: &'static G, i: u16, j: u16, p: u8, at: u8, depth: u8) -> u32 {
	if i == j {
		return NONE;
	}
	if run(g, KIDS[i as usize], p) < X {
		return find(g, KIDS[i as usize], p, at, depth);
	}
	find_alt(g, i + 1, j, p, at, depth)
}
#[inline(never)]
fn find_many(g: &'static G, n: u16, p: u8, at: u8, depth: u8) -> u32 {
	let e = run(g, n, p);
	if e >= X || e == p {
		return NONE;
	}
	if at < e {
		return find(g, n, p, at, depth);
	}
	find_many(g, n, e, at, depth)
}
#[inline(never)]
fn find_till(g: &'static G, a: u16, b: u16, p: u8, at: u8, depth: u8) -> u32 {
	let e = run(g, b, p);
	if e < X {
		return find(g, b, p, at, depth);
	}
	let e = run(g, a, p);
	if e >= X {
		return NONE;
	}
	if at < e {
		return find(g, a, p, at, depth);
	}
	find_till(g, a, b, e, at, depth)
}

const fn fnv(s: &[u8]) -> u32 {
	let mut h: u32 = 0x811c9dc5;
	let mut i = 0;
	while i < s.len() {
		h = (h ^ s[i] as u32).wrapping_mul(0x01000193);
		i += 1;
	}
	h
}
const fn hashes() -> [u32; NAMES.len()] {
	let mut r = [0; NAMES.len()];
	let mut i = 0;
	while i < NAMES.len() {
		r[i] = fnv(NAMES[i].as_bytes());
		i += 1;
	}
	r
}
static HASHES: [u32; NAMES.len()] = hashes();
#[inline(never)]
pub fn hash(s: &'static str) -> u32 {
	fnv(s.as_bytes())
}
#[inline(never)]
pub fn name_hash(i: u32) -> u32 {
	HASHES[i as usize]
}
