//! Properties of the parser.
use super::dict::ALL;
use super::refgram::*;
use super::refgram_table::ROOT;
use super::vh::*;
use sneturfahi::lex::{Selmaho, Token};
use sneturfahi::parse::cst::error::WithLocation;
use sneturfahi::parse::tree_node::TreeNode;
use sneturfahi::span::Span;
use sneturfahi::{Arena, Cst};
use std::mem::ManuallyDrop;

/// Replaces the merging of two alternatives' errors (checked by itself in `h_or`): the one that got further.
#[no_mangle]
pub unsafe extern "C" fn vh_override_or(out: *mut WithLocation<'static>, a: *const WithLocation<'static>, b: *const WithLocation<'static>) {
	let x = (*a).location.as_ptr();
	let y = (*b).location.as_ptr();
	let p = if x > y { a } else { b };
	std::ptr::copy_nonoverlapping(p, out, 1);
}

/// A sentence from at most 31 bytes: category number plus one; 255 any category. The last byte is a mode:
/// 1 a token at any one place replaced by any category, 2 a token of any category inserted at any place.
pub fn tokens(p: [u64; 4], marks: bool) -> &'static [Token] {
	tokens_at(p, marks, false)
}
/// the same with spans anywhere
fn tokens_at(p: [u64; 4], marks: bool, anywhere: bool) -> &'static [Token] {
	let mode = (p[3] >> 56) as u8;
	let mut sel = [Selmaho::A; 34];
	let mut n = 0;
	while n < 31 {
		let c = (p[n / 8] >> (8 * (n % 8))) as u8;
		if c == 0 {
			break;
		}
		sel[n] = ALL[if c == 255 { category() } else { c as usize - 1 }];
		n += 1;
	}
	if mode > 0 {
		let at = sym(5) as usize;
		let c = ALL[category()];
		assume(at < if mode == 1 { n } else { n + 1 });
		if mode == 1 {
			let mut i = 0;
			while i < n {
				if i == at {
					sel[i] = c;
				}
				i += 1;
			}
		} else {
			let mut i = n + 1;
			while i > 0 {
				i -= 1;
				sel[i] = if i < at {
					sel[i]
				} else if i == at {
					c
				} else {
					sel[i - 1]
				};
			}
			n += 1;
		}
	}
	let mut t = [Token { experimental: false, selmaho: Selmaho::A, span: Span { start: 0, end: 0 } }; 33];
	let mut i = 0;
	while i < n {
		let e = marks && sym(1) != 0;
		let span = if anywhere { Span { start: sym(3) as u32, end: sym(3) as u32 } } else { Span { start: 2 * i as u32, end: 2 * i as u32 + 1 } };
		t[i] = Token { experimental: e, selmaho: sel[i], span };
		i += 1;
	}
	universe();
	let s = freeze_slice(&t[..n]);
	#[cfg(not(vh_ir))]
	show("tokens", &s.iter().map(|t| format!("{}{}", t.selmaho.as_repr(), if t.experimental { "*" } else { "" })).collect::<Vec<_>>().join(" "));
	s
}

fn category() -> usize {
	let k = sym(8) as usize;
	assume(k < ALL.len());
	k
}

fn arena() -> &'static ManuallyDrop<Arena> {
	let a = ManuallyDrop::new(Arena::new());
	let s = freeze_slice(std::slice::from_ref(&a));
	std::mem::forget(a);
	&s[0]
}

/// P32: parsing ends without a panic; an error points into the input
pub fn h_parse(p: [u64; 4]) {
	let t = tokens(p, false);
	match Cst::parse(t, arena()) {
		Ok(c) => {
			let r = c.root();
			check(r.start_location().is_some() == (t.len() > 0), 1);
			cover(true, 1);
		}
		Err(e) => {
			check(e.location.len() <= t.len(), 2);
			if let sneturfahi::parse::cst::Error::ExpectedGot { expected, got } = &e.error {
				// what was found is what stands there, and is not among what was expected
				let at = t.len() - e.location.len();
				let mut i = 0;
				while i <= t.len() {
					if i == at {
						check(got.is_some() == (i < t.len()), 3);
						if let Some(g) = got {
							check(g.span.start as usize == 2 * i, 4);
						}
					}
					i += 1;
				}
				check(expected.len() > 0, 5);
				if let Some(g) = got {
					let mut i = 0;
					while i < expected.len() {
						check(expected[i] as u16 != g.selmaho as u16, 6);
						i += 1;
					}
				}
				cover(true, 2);
			}
			std::mem::forget(e);
		}
	}
}

struct Walk {
	t: &'static [Token],
	g: &'static G,
	names: bool,
	i: u8,
	/// which assertions failed, and whether the last node was experimental
	bad: u32,
	exp: bool,
}
impl Walk {
	fn want(&mut self, c: bool, id: u32) {
		self.bad |= (!c as u32) << id;
	}
	fn done(&self, ids: &[u32]) {
		for &id in ids {
			check(self.bad & 1 << id == 0, id);
		}
	}
}
fn walk(n: &dyn TreeNode, w: &mut Walk, depth: u8) {
	let first = w.i;
	let mut kids = 0;
	let mut exp = false;
	n.for_each_child(&mut |c| {
		kids += 1;
		walk(c, w, depth + 1);
		exp |= w.exp;
	});
	let (a, b) = (n.start_location(), n.end_location());
	let e = n.experimental();
	w.exp = e;
	if kids == 0 && a.is_some() {
		// a leaf
		w.want((w.i as usize) < w.t.len(), 3);
		if (w.i as usize) < w.t.len() {
			let t = &w.t[w.i as usize];
			w.want(a == Some(t.span.start) && b == Some(t.span.end), 4);
			let silent = hash(n.name()) == hash("ZoiDelimiter") || hash(n.name()) == hash("ZoiText");
			w.want(silent || e == t.experimental, 10);
		}
		w.i += 1;
	} else {
		w.want(e == exp, 10);
		if w.i == first {
			w.want(a.is_none() && b.is_none(), 6);
			return;
		} else if (w.i as usize) <= w.t.len() {
			w.want(a == Some(w.t[first as usize].span.start), 7);
			w.want(b == Some(w.t[w.i as usize - 1].span.end), 8);
		}
	}
	if w.names && (w.i as usize) <= w.t.len() {
		let f = find(w.g, ROOT, 0, first, depth);
		w.want(f != 0, 20);
		if f != 0 {
			w.want(f as u8 == w.i, 21);
			let name = (f >> 8) - 1;
			let h = if name == LEAFNAME { hash(w.t[first as usize].selmaho.as_repr()) } else { name_hash(name) };
			w.want(hash(n.name()) == h, 22);
		}
	}
}
fn grammar(t: &'static [Token]) -> &'static G {
	let mut g = G { c: [999; 34] };
	let mut i = 0;
	while i < t.len() {
		g.c[i] = t[i].selmaho as u16;
		i += 1;
	}
	&freeze_slice(std::slice::from_ref(&g))[0]
}
fn tree(p: [u64; 4], names: bool) {
	let t = tokens(p, !names);
	let g = grammar(t);
	match Cst::parse(t, arena()) {
		Ok(c) => {
			let mut w = Walk { t, g, names, i: 0, bad: 0, exp: false };
			walk(c.root(), &mut w, 0);
			if names {
				w.done(&[20, 21, 22]);
			} else {
				w.want(w.i as usize == t.len(), 1);
				w.done(&[1, 3, 4, 6, 7, 8, 10]);
			}
			cover(true, 1);
		}
		Err(e) => std::mem::forget(e),
	}
}
/// P30, P31: the leaves of the tree are the tokens; boundaries and marks of the nodes
pub fn h_tree(p: [u64; 4]) {
	tree(p, false)
}
/// P35: names and extents of the nodes
pub fn h_shape(p: [u64; 4]) {
	tree(p, true)
}
/// T05: from a text to its tree: no panic; the leaves are the words of the text, in order, and every node a stretch of it
pub fn h_pipe(p: [u64; 4]) {
	let s = super::gen::text(p);
	let mut t = [Token { experimental: false, selmaho: Selmaho::A, span: Span { start: 0, end: 0 } }; 33];
	let mut n = 0;
	let mut fine = true;
	for x in sneturfahi::lex(s) {
		match x {
			Ok(x) => {
				assume(n < 33);
				t[n] = x;
				n += 1;
			}
			Err(_) => fine = false,
		}
	}
	if !fine {
		return;
	}
	let t = freeze_slice(&t);
	match Cst::parse(&t[..n], arena()) {
		Ok(c) => {
			let mut w = Pipe { s, last: 0, bad: 0, leaves: 0 };
			pipe(c.root(), &mut w);
			check(w.bad == 0, 1);
			check(w.leaves == n, 2);
			check(n > 0 && matches!(t[n - 1].selmaho, Selmaho::Faho | Selmaho::Fahoho) || s.as_bytes()[w.last..].iter().all(|&c| c == b',' || super::refmorph::pause(c)), 3);
			cover(n > 1, 1);
		}
		Err(e) => {
			check(e.location.len() <= n, 4);
			cover(true, 2);
			std::mem::forget(e);
		}
	}
}
struct Pipe {
	s: &'static str,
	last: usize,
	bad: u32,
	leaves: usize,
}
fn pipe(n: &dyn TreeNode, w: &mut Pipe) {
	let from = w.last;
	let mut kids = 0;
	n.for_each_child(&mut |c| {
		kids += 1;
		pipe(c, w);
	});
	let (a, b) = (n.start_location(), n.end_location());
	if let (Some(a), Some(b)) = (a, b) {
		let (a, b) = (a as usize, b as usize);
		let inside = from <= a && a <= b && b <= w.s.len();
		w.bad |= !inside as u32;
		if inside && kids == 0 {
			w.bad |= (!w.s.as_bytes()[w.last..a].iter().all(|&c| c == b',' || super::refmorph::pause(c))) as u32;
			w.last = b;
			w.leaves += 1;
		} else if inside {
			w.bad |= (b != w.last) as u32;
		}
	}
}
/// P34, P33: what is accepted depends on the categories, as the grammar says
pub fn h_gram(p: [u64; 4]) {
	let t = tokens_at(p, true, true);
	let g = grammar(t);
	let e = run(g, ROOT, 0);
	let fits = e as usize == t.len();
	match Cst::parse(t, arena()) {
		Ok(_) => {
			check(fits, 1);
			cover(true, 1);
		}
		Err(e) => {
			check(!fits, 2);
			cover(true, 2);
			std::mem::forget(e);
		}
	}
}

/// Does the parser accept these categories?  Spans and marks are of no consequence (see `h_gram`).
fn accepts(c: &[Selmaho]) -> bool {
	let mut t = [Token { experimental: false, selmaho: Selmaho::A, span: Span { start: 0, end: 0 } }; 40];
	let mut i = 0;
	while i < c.len() {
		t[i] = Token { experimental: false, selmaho: c[i], span: Span { start: 2 * i as u32, end: 2 * i as u32 + 1 } };
		i += 1;
	}
	let s = freeze_slice(&t[..c.len()]);
	match Cst::parse(s, arena()) {
		Ok(_) => true,
		Err(e) => {
			std::mem::forget(e);
			false
		}
	}
}
fn show_cats(what: &str, c: &[Selmaho]) {
	let _ = (what, c);
	#[cfg(not(vh_ir))]
	show(what, &c.iter().map(|t| t.as_repr().to_string()).collect::<Vec<_>>().join(" "));
}

/// `t` with the token `at` (up to `drop` tokens) replaced by `by`
fn splice(t: &[Token], at: usize, drop: usize, by: &[Selmaho], out: &mut [Selmaho; 40]) -> usize {
	let n = t.len() + by.len() - drop;
	let mut i = 0;
	while i < n {
		out[i] = if i < at {
			t[i].selmaho
		} else if i < at + by.len() {
			by[i - at]
		} else {
			t[i + drop - by.len()].selmaho
		};
		i += 1;
	}
	n
}
fn has(t: &[Token], s: Selmaho) -> bool {
	let mut r = false;
	let mut i = 0;
	while i < t.len() {
		r |= t[i].selmaho == s;
		i += 1;
	}
	r
}
/// an accepted sentence stays accepted
fn stays(t: &'static [Token], at: usize, drop: usize, by: &[Selmaho]) {
	let mut c = [Selmaho::A; 40];
	let n = splice(t, at, drop, by, &mut c);
	show_cats("becomes", &c[..n]);
	if Cst::parse(t, arena()).map_err(std::mem::forget).is_ok() {
		check(accepts(&c[..n]), 1);
		cover(true, 1);
	}
}
/// the words around a place (`A` at the ends)
fn around(t: &[Token], at: usize, drop: usize) -> (Selmaho, Selmaho) {
	let prev = if at > 0 { t[at - 1].selmaho } else { Selmaho::A };
	let next = if at + drop < t.len() { t[at + drop].selmaho } else { Selmaho::A };
	(prev, next)
}

/// P36: an indicator may follow any word that is not quoted or joined to the next one
pub fn h_ui(p: [u64; 4]) {
	let t = tokens(p, false);
	let at = sym(5) as usize;
	let k = sym(3) as usize;
	assume(at <= t.len() && k < 5);
	let (prev, next) = around(t, at, 0);
	assume(!has(t, Selmaho::Lohu) && !has(t, Selmaho::Zoi));
	assume(!matches!(prev, Selmaho::Zo | Selmaho::Zei | Selmaho::Bahe | Selmaho::Fuhe | Selmaho::Faho) && !matches!(next, Selmaho::Bu | Selmaho::Zei));
	let ind = [Selmaho::Ui, Selmaho::Cai, Selmaho::Daho, Selmaho::Fuho, Selmaho::Y][k];
	stays(t, at, 0, &[ind])
}
/// P39: ba'e may precede any word that is not quoted or joined to the one before
pub fn h_bahe(p: [u64; 4]) {
	let t = tokens(p, false);
	let at = sym(5) as usize;
	assume(at < t.len());
	let (prev, _) = around(t, at, 0);
	assume(!has(t, Selmaho::Lohu) && !has(t, Selmaho::Zoi));
	assume(!matches!(prev, Selmaho::Zo | Selmaho::Zei | Selmaho::Fuhe | Selmaho::Faho) && !matches!(t[at].selmaho, Selmaho::Bu | Selmaho::Zei));
	stays(t, at, 0, &[Selmaho::Bahe])
}
/// P37: a quote may stand wherever a pro-sumti can
pub fn h_quote(p: [u64; 4]) {
	let t = tokens(p, false);
	let at = sym(5) as usize;
	let k = sym(3) as usize;
	let x = ALL[category()];
	assume(at < t.len() && k < 6);
	let (prev, next) = around(t, at, 1);
	assume(t[at].selmaho == Selmaho::Koha && !has(t, Selmaho::Lohu) && !has(t, Selmaho::Zoi));
	assume(!matches!(prev, Selmaho::Zo | Selmaho::Zei) && !matches!(next, Selmaho::Bu | Selmaho::Zei));
	use Selmaho::*;
	assume(!matches!(x, Bu | Zei | Lehu));
	match k {
		0 => stays(t, at, 1, &[Zo, x]),
		1 => stays(t, at, 1, &[Lohu, Lehu]),
		2 => stays(t, at, 1, &[Lohu, x, Lehu]),
		3 => stays(t, at, 1, &[Zoi, ZoiDelimiter, ZoiDelimiter]),
		4 => stays(t, at, 1, &[Zoi, ZoiDelimiter, AnyText, ZoiDelimiter]),
		_ => stays(t, at, 1, &[Lohu, x, Bu, Lehu]),
	}
}
/// P38: a compound made with zei may stand wherever a gismu can; a letter made with bu wherever a letter can
pub fn h_zei(p: [u64; 4]) {
	use Selmaho::*;
	let t = tokens(p, false);
	let at = sym(5) as usize;
	let k = sym(2) as usize;
	let x = ALL[category()];
	let y = ALL[category()];
	assume(at < t.len());
	let (prev, next) = around(t, at, 1);
	assume(!has(t, Lohu) && !has(t, Zoi) && !matches!(prev, Zo | Zei) && !matches!(next, Bu | Zei));
	assume(!matches!(x, Bu | Zei | Si | Su | Sa | Faho) && !matches!(y, Bu | Zei));
	assume(t[at].selmaho == if k == 3 { By } else { Gismu });
	match k {
		0 => stays(t, at, 1, &[x, Zei, y]),
		1 => stays(t, at, 1, &[x, Bu, Zei, y]),
		2 => stays(t, at, 1, &[x, Zei, y, Zei, Gismu]),
		_ => stays(t, at, 1, &[x, Bu]),
	}
}
/// in place of the word `at`, one of the phrases of its kind
fn phrase(p: [u64; 4], word: Selmaho, by: &'static [&'static [Selmaho]]) {
	let t = tokens(p, false);
	let at = sym(5) as usize;
	let k = sym(5) as usize;
	assume(at < t.len() && k < by.len());
	let (prev, next) = around(t, at, 1);
	use Selmaho::*;
	assume(t[at].selmaho == word && !has(t, Lohu) && !has(t, Zoi) && !matches!(prev, Zo | Zei | Pa | By | Bu | Foi) && !matches!(next, Bu | Zei | Goi | Noi));
	// linked sumti may come later: after ba'e or free modifiers
	let mut i = at + 1;
	while i < t.len() {
		assume(t[i].selmaho != Be);
		i += 1;
	}
	let mut c = [A; 40];
	let n = splice_any(t, at, by[k], &mut c);
	let c = freeze_slice(&c);
	show_cats("becomes", &c[..n]);
	if Cst::parse(t, arena()).map_err(std::mem::forget).is_ok() {
		check(accepts(&c[..n]), 1);
		cover(true, 1);
	}
}
/// `splice` with a replacement of symbolic length
fn splice_any(t: &[Token], at: usize, by: &[Selmaho], out: &mut [Selmaho; 40]) -> usize {
	let mut n = 0;
	let mut i = 0;
	while i < t.len() {
		if i == at {
			let mut j = 0;
			while j < by.len() {
				out[n] = by[j];
				n += 1;
				j += 1;
			}
		} else {
			out[n] = t[i].selmaho;
			n += 1;
		}
		i += 1;
	}
	n
}
/// P3B: a closed sumti phrase may stand wherever a pro-sumti can
pub fn h_sumti(p: [u64; 4]) {
	use Selmaho::*;
	phrase(
		p,
		Koha,
		&[
			&[Le, Gismu, Ku],
			&[Li, Pa, Loho],
			&[Lu, Koha, Gismu, Lihu],
			&[Lahe, Koha, Luhu],
			&[Nahe, Bo, Koha, Luhu],
			&[La, Gismu, Ku],
			&[Le, Nu, Koha, Gismu, Kei, Ku],
			&[Le, Pa, Boi, Gismu, Ku],
			&[Le, Koha, Gismu, Ku],
			&[Koha, Goi, Koha, Gehu],
			&[Koha, Noi, Koha, Gismu, Kuho],
		],
	)
}
/// P3C: a closed selbri phrase may stand wherever a gismu can
pub fn h_selbri(p: [u64; 4]) {
	use Selmaho::*;
	phrase(
		p,
		Gismu,
		&[
			&[Lujvo],
			&[Fuhivla],
			&[Goha],
			&[Goha, Raho],
			&[Nahe, Ke, Gismu, Gismu, Kehe],
			&[Me, Koha, Mehu],
			&[Nu, Koha, Gismu, Kei],
			&[Nu, Nai, Koha, Gismu, Vau, Kei],
			&[Gismu, Be, Koha, Beho],
			&[Gismu, Be, Koha, Bei, Koha, Beho],
			&[Se, Ke, Gismu, Gismu, Kehe],
			&[Nuha, Vuhu],
			&[Se, Gismu],
			&[Jai, Gismu],
			&[Nahe, Gismu],
		],
	)
}
/// a word of the sentence, or (`word` = nothing) a place in it, and one of the phrases for it; not quoted, joined or inside such quotes
fn change(p: [u64; 4], rows: &'static [(Option<Selmaho>, &'static [Selmaho])], ok: impl Fn(&[Token], usize, usize) -> bool) {
	let t = tokens(p, false);
	let at = sym(5) as usize;
	let k = sym(6) as usize;
	assume(k < rows.len());
	let (word, by) = rows[k];
	use Selmaho::*;
	let insert = word.is_none();
	assume(at < t.len() || insert && at == t.len());
	let (prev, next) = around(t, at, if insert { 0 } else { 1 });
	assume(!has(t, Lohu) && !has(t, Zoi) && !matches!(prev, Zo | Zei) && !matches!(next, Bu | Zei));
	if let Some(w) = word {
		assume(t[at].selmaho == w);
	}
	assume(ok(t, at, k));
	let mut c = [A; 40];
	let n = splice_some(t, at, insert, by, &mut c);
	let c = freeze_slice(&c);
	show_cats("becomes", &c[..n]);
	if Cst::parse(t, arena()).map_err(std::mem::forget).is_ok() {
		check(accepts(&c[..n]), 1);
		cover(true, 1);
	}
}
fn splice_some(t: &[Token], at: usize, insert: bool, by: &[Selmaho], out: &mut [Selmaho; 40]) -> usize {
	let mut n = 0;
	let mut i = 0;
	while i <= t.len() {
		if i == at {
			let mut j = 0;
			while j < by.len() {
				out[n] = by[j];
				n += 1;
				j += 1;
			}
		}
		if i < t.len() && (i != at || insert) {
			out[n] = t[i].selmaho;
			n += 1;
		}
		i += 1;
	}
	n
}
/// is there such a word before `at`?
fn before(t: &[Token], at: usize, s: Selmaho) -> bool {
	let mut r = false;
	let mut i = 0;
	while i < t.len() {
		r |= i < at && t[i].selmaho == s;
		i += 1;
	}
	r
}
/// P44: a free modifier may follow any word that may have them
pub fn h_free(p: [u64; 4]) {
	use Selmaho::*;
	change(
		p,
		&[
			(None, &[To, Toi]),
			(None, &[To, Koha, Gismu, Toi]),
			(None, &[To, Ui, Toi]),
			(None, &[Sei, Sehu]),
			(None, &[Sei, Gismu, Sehu]),
			(None, &[Sei, Koha, Gismu, Sehu]),
			(None, &[Xi, Pa, Boi]),
			(None, &[Xi, Vei, Pa, Veho]),
			(None, &[Coi, Koha, Dohu]),
			(None, &[Coi, Dohu]),
			(None, &[Soi, Koha, Sehu]),
			(None, &[Soi, Koha, Koha, Sehu]),
			(None, &[Pa, Mai]),
			(None, &[By, Mai]),
		],
		|t, at, _| {
			at == 0
				|| !matches!(
					t[at - 1].selmaho,
					Lahe | Bo | Fuhe | Nai | Faho | Goha | Lau | Gaho | Tei | Foi | Bu | Bihi | Doi | AnyText | Ui | Cai | Y | Daho | Fuho | Giha | ZoiDelimiter | Mohi | Fehe | Nahe | Cmevla | Joi | A | Bahe | Se | Coi | By | Na | I | Ja | Pa | La
				)
		},
	)
}
/// P45: numbers, strings of letters and names may be longer
pub fn h_long(p: [u64; 4]) {
	use Selmaho::*;
	change(
		p,
		&[
			(Some(Pa), &[Pa, Pa]),
			(Some(Pa), &[Pa, By]),
			(Some(Pa), &[Pa, Lau, By]),
			(Some(Pa), &[Pa, Tei, By, Foi]),
			(Some(Pa), &[Pa, Pa, By, Pa]),
			(Some(By), &[By, By]),
			(Some(By), &[By, Pa]),
			(Some(By), &[By, Lau, By]),
			(Some(By), &[Lau, By]),
			(Some(By), &[Tei, By, By, Foi]),
			(Some(Cmevla), &[Cmevla, Cmevla]),
			(Some(Cmevla), &[Cmevla, Cmevla, Cmevla]),
		],
		|t, at, k| !matches!(k, 8 | 9) || !before(t, at, Lau),
	)
}
/// P46: any tense or modal may stand for another
pub fn h_tag(p: [u64; 4]) {
	use Selmaho::*;
	change(
		p,
		&[
			(Some(Pu), &[Pu, Zi]),
			(Some(Pu), &[Pu, Nai]),
			(Some(Pu), &[Pu, Ja, Pu]),
			(Some(Pu), &[Pu, Joi, Pu]),
			(Some(Pu), &[Bai]),
			(Some(Pu), &[Bai, Nai]),
			(Some(Pu), &[Se, Bai]),
			(Some(Pu), &[Va]),
			(Some(Pu), &[Faha]),
			(Some(Pu), &[Faha, Nai]),
			(Some(Pu), &[Va, Faha]),
			(Some(Pu), &[Zeha]),
			(Some(Pu), &[Veha]),
			(Some(Pu), &[Mohi, Faha]),
			(Some(Pu), &[Zaho]),
			(Some(Pu), &[Zaho, Nai]),
			(Some(Pu), &[Caha]),
			(Some(Pu), &[Pu, Pu]),
			(Some(Pu), &[Pu, Zi, Zeha]),
			(Some(Pu), &[Cuhe]),
			(Some(Pu), &[Ki]),
			(Some(Pu), &[Pu, Ki]),
			(Some(Pu), &[Fiho, Gismu, Fehu]),
			(Some(Pu), &[Nahe, Pu]),
			(Some(Pu), &[Nahe, Se, Bai, Nai, Ki]),
			(Some(Pu), &[Pa, Roi]),
			(Some(Pu), &[Pa, Roi, Nai]),
			(Some(Pu), &[Pa, Pa, Roi]),
			(Some(Pu), &[Tahe]),
			(Some(Pu), &[Fehe, Tahe]),
		],
		|t, at, k| (k < 19 || k > 24 || !before(t, at, Nahe)) && (k < 25 || at == 0 || matches!(t[at - 1].selmaho, Koha | Cu | Ku | Gismu)),
	)
}
/// P47: a sumti or a tanru unit may be connected to another
pub fn h_join(p: [u64; 4]) {
	use Selmaho::*;
	change(
		p,
		&[
			(Some(Koha), &[Koha, A, Koha]),
			(Some(Koha), &[Koha, A, Nai, Koha]),
			(Some(Koha), &[Koha, A, Bo, Koha]),
			(Some(Koha), &[Koha, Joi, Koha]),
			(Some(Koha), &[Koha, Bihi, Koha]),
			(Some(Koha), &[Koha, Vuho, Goi, Koha]),
			(Some(Gismu), &[Gismu, Gismu]),
			(Some(Gismu), &[Gismu, Ja, Gismu]),
			(Some(Gismu), &[Gismu, Ja, Nai, Gismu]),
			(Some(Gismu), &[Gismu, Ja, Bo, Gismu]),
			(Some(Gismu), &[Gismu, Joi, Gismu]),
			(Some(Gismu), &[Gismu, Bo, Gismu]),
			(Some(Gismu), &[Gismu, Cei, Gismu]),
			(Some(Gismu), &[Ke, Gismu, Kehe]),
			(Some(Gismu), &[Gismu, Co, Gismu]),
		],
		|t, at, k| {
			// a pro-sumti in a description that has no selbri yet is a possessor
			let mut open = false;
			let mut i = 0;
			while i < t.len() {
				if i < at {
					open = match t[i].selmaho {
						Le | La => true,
						Gismu | Lujvo | Fuhivla | Goha | Me | Nu | Cmevla => false,
						_ => open,
					};
				}
				i += 1;
			}
			(k > 5 || !open) && (k != 13 || !has(t, Giha) && !has(t, Joi) && !has(t, Ja) && !has(t, A)) && (k != 14 || !has(t, Ke) && !has(t, Be))
		},
	)
}
/// P48: a sumti without its terminators may stand where a pro-sumti does before the end of a phrase
pub fn h_open(p: [u64; 4]) {
	use Selmaho::*;
	change(
		p,
		&[
			(Some(Koha), &[Lahe, Koha]),
			(Some(Koha), &[Nahe, Bo, Koha]),
			(Some(Koha), &[Koha, Goi, Koha]),
			(Some(Koha), &[La, Cmevla]),
			(Some(Koha), &[Zo, Koha]),
			(Some(Koha), &[Le, Gismu]),
			(Some(Koha), &[La, Gismu]),
			(Some(Koha), &[Li, Pa]),
			(Some(Koha), &[Lu, Koha, Gismu]),
			(Some(Koha), &[Le, Nu, Koha, Gismu]),
			(Some(Koha), &[Koha, Noi, Koha, Gismu]),
			(Some(Koha), &[Pa, Le, Gismu]),
			(Some(Koha), &[Le, Gismu, Goi, Koha]),
			(Some(Koha), &[Lahe, Le, Gismu]),
			(Some(Koha), &[Le, Koha, Gismu]),
			(Some(Koha), &[Le, Pa, Gismu]),
			(Some(Koha), &[Pa, Gismu]),
			(Some(Koha), &[Pa, Koha]),
			(Some(Koha), &[Koha, A, Le, Gismu]),
			(Some(Koha), &[Koha, Xi, Pa]),
			(Some(Koha), &[By, By]),
		],
		|t, at, k| {
			let (prev, next) = around(t, at, 1);
			k < 5 || (at + 1 == t.len() || matches!(next, Cu | I | Niho | Vau)) && !matches!(prev, Pa | By | Bu | Foi)
		},
	)
}
/// P49: a text may begin and end with more
pub fn h_ends(p: [u64; 4]) {
	use Selmaho::*;
	change(
		p,
		&[
			(None, &[Koha]),
			(None, &[Koha, Koha]),
			(None, &[Le, Gismu, Ku]),
			(None, &[Fa, Koha]),
			(None, &[Pu, Koha]),
			(None, &[Bai, Ku]),
			(None, &[Na, Ku]),
			(None, &[Koha, Zohu]),
			(None, &[I]),
			(None, &[Niho]),
			(None, &[Ui]),
			(None, &[I, Koha, Gismu]),
			(None, &[Fuhe, Ui]),
		],
		|t, at, k| {
			let first = at == 0 && t.len() > 0 && k < 10 && !matches!(t[0].selmaho, Giha | Joi | A | Ja | Pa | Na | Vei | Bahe | Tuhe | Bihi | Se | Bai | Gaho | Sei);
			let last = at == t.len()
				&& at > 0 && (k < 3 || k > 7)
				&& k != 12 && matches!(t[at - 1].selmaho, Gismu | Lujvo | Fuhivla | Goha | Koha | Ku | Cmevla | Kei | Boi | Loho | Lihu | Sehu | Gehu | Kuho | Luhu | Mehu | Beho | Dohu | Toi);
			first || last || at == 0 && t.len() > 0 && k == 10
		},
	)
}
/// where a sentence stops making sense, 99 if it does not
fn stops(c: &[Selmaho]) -> usize {
	let mut t = [Token { experimental: false, selmaho: Selmaho::A, span: Span { start: 0, end: 0 } }; 40];
	let mut i = 0;
	while i < c.len() {
		t[i] = Token { experimental: false, selmaho: c[i], span: Span { start: 2 * i as u32, end: 2 * i as u32 + 1 } };
		i += 1;
	}
	let s = freeze_slice(&t[..c.len()]);
	match Cst::parse(s, arena()) {
		Ok(_) => 99,
		Err(e) => {
			let n = s.len() - e.location.len();
			std::mem::forget(e);
			n
		}
	}
}
/// P50: words of the same function, and words that are quoted, are interchangeable
pub fn h_swap(p: [u64; 4]) {
	use Selmaho::*;
	let t = tokens(p, false);
	let k = sym(3) as usize;
	let w = sym(3) as usize;
	let mask = if p[3] >> 56 == 0 { sym(32) } else { u64::MAX };
	let x = ALL[category()];
	let n = t.len();
	assume(k < 5 && w < 5);
	let by = match k {
		0 => [Gismu, Lujvo, Fuhivla, Gismu, Gismu][w],
		1 => [Ui, Cai, Daho, Fuho, Y][w],
		2 => [Tahe, Zaho, Zaho, Zaho, Zaho][w],
		3 => [Joi, Bihi, Bihi, Bihi, Bihi][w],
		_ => x,
	};
	assume(k != 3 || !has(t, Gaho));
	assume(k != 4 || !has(t, Zoi) && !matches!(x, Bu | Zei | Lehu | Bahe));
	let mut c = [A; 40];
	let (mut zo, mut zei, mut lohu) = (false, false, false);
	let mut any = false;
	let mut i = 0;
	while i < n {
		let s = t[i].selmaho;
		let next = if i + 1 < n { t[i + 1].selmaho } else { A };
		let quoted = (zo || lohu) && !zei && !matches!(s, Bu | Zei | Lehu | Bahe) && !matches!(next, Bu | Zei);
		let same = match k {
			0 => matches!(s, Gismu | Lujvo | Fuhivla),
			1 => matches!(s, Ui | Cai | Daho | Fuho | Y),
			2 => matches!(s, Tahe | Zaho),
			3 => matches!(s, Joi | Bihi),
			_ => quoted,
		};
		let put = same && (mask >> i) & 1 == 1;
		c[i] = if put { by } else { s };
		any |= put && by as u16 != s as u16;
		lohu = lohu && s as u16 != Lehu as u16 || !zo && !zei && s as u16 == Lohu as u16;
		let was = zo;
		zo = !zo && !zei && !lohu && s as u16 == Zo as u16;
		zei = !was && s as u16 == Zei as u16;
		i += 1;
	}
	assume(any);
	show_cats("changed", &c[..n]);
	let mut d = [A; 40];
	let mut i = 0;
	while i < n {
		d[i] = t[i].selmaho;
		i += 1;
	}
	let (a, b) = (stops(&d[..n]), stops(&c[..n]));
	check((a == 99) == (b == 99), 1);
	check(a == b, 2);
	cover(a == 99, 1);
}
/// P3D: at the end of a text a terminator may be left out
pub fn h_elide(p: [u64; 4]) {
	use Selmaho::*;
	let t = tokens(p, false);
	let k = sym(5) as usize;
	let ends = [Ku, Kei, Vau, Kuho, Gehu, Beho, Kehe, Luhu, Tuhu, Tehu, Veho, Mehu, Fehu, Sehu, Lihu, Toi, Dohu, Boi, Loho, Kuhe, Nuhu];
	assume(k < ends.len() && t.len() > 0);
	let last = t[t.len() - 1].selmaho;
	assume(!has(t, Lohu) && !has(t, Zoi) && !matches!(last, Zo | Zei | Bahe));
	assume(k > 0 || matches!(last, Gismu | Lujvo | Fuhivla | Goha | Koha | Cmevla));
	let n = t.len();
	let mut c = [A; 40];
	let mut i = 0;
	while i <= n {
		c[i] = if i < n { t[i].selmaho } else { ends[k] };
		i += 1;
	}
	show_cats("longer", &c[..i]);
	if accepts(&c[..i]) {
		check(accepts(&c[..n]), 1);
		cover(true, 1);
	}
}
/// P3A: an accepted text may be quoted, put in parentheses, continued, and ended
pub fn h_wrap(p: [u64; 4]) {
	use Selmaho::*;
	let t = tokens(p, false);
	let k = sym(3) as usize;
	assume(!has(t, Faho) && (k != 6 || !(has(t, Joi) || has(t, Bihi))));
	let n = t.len();
	let mut c = [A; 40];
	let pre: &[Selmaho] = match k {
		0 => &[Lu],
		1 => &[To],
		2 => &[Koha, To],
		6 => &[Koha, Gismu, I],
		7 => &[Koha, Gismu, Niho],
		_ => &[],
	};
	let post: &[Selmaho] = match k {
		0 => &[Lihu, Cu, Gismu],
		1 => &[Toi, Koha, Gismu],
		2 => &[Toi, Gismu],
		3 => &[I, Koha, Gismu],
		4 => &[Niho, Koha, Gismu],
		5 => &[Faho],
		_ => &[],
	};
	let mut i = 0;
	while i < pre.len() + n + post.len() {
		c[i] = if i < pre.len() {
			pre[i]
		} else if i < pre.len() + n {
			t[i - pre.len()].selmaho
		} else {
			post[i - pre.len() - n]
		};
		i += 1;
	}
	show_cats("becomes", &c[..i]);
	if Cst::parse(t, arena()).map_err(std::mem::forget).is_ok() {
		check(accepts(&c[..i]), 1);
		cover(true, 1);
	}
}

/// P32: of two errors the one that got further is reported; of two as far, what both expected
pub fn h_or(_: [u64; 4]) {
	use nom::error::ParseError;
	use sneturfahi::parse::cst::Error;
	let tok = |s| Token { experimental: false, selmaho: s, span: Span { start: 0, end: 1 } };
	let all: &'static [Token] = freeze_slice(&[tok(Selmaho::A), tok(Selmaho::Bu), tok(Selmaho::Koha), tok(Selmaho::Cu)]);
	let sets: &'static [&'static [Selmaho]] = freeze_slice(&[&[Selmaho::A] as &[Selmaho], &[Selmaho::Ku], &[Selmaho::Bu, Selmaho::Zei]]);
	let (i, j) = (sym(2) as usize, sym(2) as usize);
	let (k, l) = (sym(2) as usize, sym(2) as usize);
	let (g, h) = (sym(2) as usize, sym(2) as usize);
	assume(k < 4 && l < 4 && g < 3 && h < 3);
	universe();
	let make = |k: usize, g: usize| {
		let got = if g < 2 { Some(all[g]) } else { None };
		if k < 3 {
			Error::ExpectedGot { expected: sets[k].into(), got }
		} else {
			Error::Nom(nom::error::ErrorKind::Eof)
		}
	};
	let r = make(k, g).with_location(&all[i..]).or(make(l, h).with_location(&all[j..]));
	let far = if i > j { i } else { j };
	check(r.location.as_ptr() == all[far..].as_ptr() && r.location.len() == 4 - far, 1);
	cover(true, 1);
	let both = i == j && k < 3 && l < 3 && g == h;
	let from_first = i > j;
	match &r.error {
		Error::ExpectedGot { expected, got } => {
			let gi = if from_first { g } else { h };
			let want = if gi < 2 { Some(all[gi]) } else { None };
			check(got.map(|t| t.selmaho as u16) == want.map(|t| t.selmaho as u16), 2);
			// everything expected by the errors that got this far, nothing else
			let (uk, ul) = (k < 3 && (from_first || both), l < 3 && i <= j);
			let mut m = 0;
			let mut s = 0;
			while s < 3 {
				let wanted = (uk && k == s) || (ul && l == s);
				let mut q = 0;
				while q < sets[s].len() {
					let mut found = false;
					let mut e = 0;
					while e < expected.len() {
						found |= expected[e] == sets[s][q];
						e += 1;
					}
					check(found == wanted, 3);
					q += 1;
				}
				m += 1;
				s += 1;
			}
			let _ = m;
			check(if from_first { k < 3 } else { l < 3 || both }, 4);
			cover(both, 2);
		}
		Error::Nom(_) => check(if from_first { k == 3 } else { l == 3 }, 5),
		_ => check(false, 6),
	}
	std::mem::forget(r);
}
