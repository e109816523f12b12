//! Properties of the lexer.
use super::gen::*;
use super::refmorph as m;
use super::vh::*;
use sneturfahi::decompose::{decompose, Decomposer};
use sneturfahi::lex::{lex, Error, Selmaho, Token};
use sneturfahi::span::Span;

/// Reference model of reading a text by words or by pause-delimited chunks.
struct Reader {
	s: &'static str,
	all: Decomposer<'static>,
	upcoming: Option<Span>,
	pos: usize,
	fresh: bool,
}
impl Reader {
	fn new(s: &'static str) -> Self {
		let mut all = decompose(s);
		let upcoming = all.next();
		Reader { s, all, upcoming, pos: 0, fresh: true }
	}
	fn word(&mut self) -> Option<Span> {
		let w = self.upcoming?;
		self.pos = w.end as usize;
		self.fresh = false;
		self.upcoming = self.all.next();
		Some(w)
	}
	/// the rest of the chunk when a word is left in it, otherwise the next chunk
	fn chunk(&mut self) -> Option<Span> {
		let b = self.s.as_bytes();
		let mut from = self.pos;
		let mut inside = self.fresh;
		if let Some(y) = self.upcoming {
			if !self.fresh && b[self.pos..y.start as usize].iter().all(|&c| !m::pause(c)) {
				inside = true;
				from = y.start as usize;
			}
		}
		if !inside {
			while from < b.len() && !m::pause(b[from]) {
				from += 1;
			}
			if from == b.len() {
				return None;
			}
			from += 1;
		}
		let mut to = from;
		while to < b.len() && !m::pause(b[to]) {
			to += 1;
		}
		self.pos = to;
		self.fresh = false;
		while let Some(y) = self.upcoming {
			if y.start as usize >= to {
				break;
			}
			self.upcoming = self.all.next();
		}
		Some(Span { start: from as u32, end: to as u32 })
	}
	fn same(&self, a: Span, b: Span) -> bool {
		let t = self.s.as_bytes();
		let (mut i, mut j) = (a.start as usize, b.start as usize);
		loop {
			while i < a.end as usize && t[i] == b',' {
				i += 1;
			}
			while j < b.end as usize && t[j] == b',' {
				j += 1;
			}
			let (x, y) = (i == a.end as usize, j == b.end as usize);
			if x || y {
				return x && y;
			}
			if t[i] != t[j] {
				return false;
			}
			i += 1;
			j += 1;
		}
	}
}

fn is(t: &Option<Result<Token, Error>>, sel: Selmaho, exp: bool, w: Span) -> bool {
	match t {
		Some(Ok(t)) => t.selmaho == sel && t.experimental == exp && t.span == w,
		_ => false,
	}
}

/// a failed assertion ends the comparison (what follows it is a consequence)
macro_rules! must {
	($c:expr, $id:expr $(,)?) => {{
		let c = $c;
		check(c, $id);
		if !c {
			return;
		}
	}};
}

/// L10-L13: the tokens are those of the reference reading.
/// Assertions 1: words; 10: delimited quotes; 20: pause-delimited quotes; 30: ends and errors.
pub fn h_lex(p: [u64; 4]) {
	let s = text(p);
	let mut r = Reader::new(s);
	let mut it = lex(s);
	loop {
		let w = match r.word() {
			None => {
				must!(it.next().is_none(), 30);
				break;
			}
			Some(w) => w,
		};
		let (sel, exp) = Selmaho::classify(&s[w.start as usize..w.end as usize]);
		match sel {
			Selmaho::Zoi | Selmaho::Muhoi | Selmaho::Sohehai => {
				let mut delim = match r.word() {
					None => {
						must!(matches!(it.next(), Some(Err(Error::DelimitedQuoteMissingSeparator { initiator_span })) if initiator_span == w), 31);
						must!(it.next().is_none(), 32);
						cover(true, 31);
						break;
					}
					Some(d) => d,
				};
				must!(is(&it.next(), sel, exp, w), 10);
				let mut left = if matches!(sel, Selmaho::Sohehai) { 2 } else { 1 };
				let mut first = true;
				let mut ok = true;
				while left > 0 {
					let mut quote: Option<(u32, u32)> = None;
					let mut end = None;
					while let Some(c) = r.chunk() {
						if r.same(delim, c) {
							end = Some(c);
							break;
						}
						quote = Some((quote.map_or(c.start, |q| q.0), c.end));
					}
					let e = match end {
						None => {
							ok = false;
							break;
						}
						Some(e) => e,
					};
					if first {
						must!(is(&it.next(), Selmaho::ZoiDelimiter, false, delim), 11);
					}
					if let Some((a, b)) = quote {
						must!(is(&it.next(), Selmaho::AnyText, false, Span { start: a, end: b }), 12);
						cover(true, 11);
					}
					must!(is(&it.next(), Selmaho::ZoiDelimiter, false, e), 13);
					cover(true, 10);
					delim = e;
					first = false;
					left -= 1;
				}
				if !ok {
					let x = it.next();
					must!(
						matches!(x, Some(Err(Error::DelimitedQuoteUnclosed { initiator_span, starting_delimiter_span }))
						if initiator_span == w && starting_delimiter_span == delim),
						33,
					);
					must!(it.next().is_none(), 34);
					cover(true, 33);
					break;
				}
			}
			Selmaho::Mehoi | Selmaho::Zohoi | Selmaho::Dohoi => {
				must!(is(&it.next(), sel, exp, w), 20);
				match r.chunk() {
					None => {
						must!(matches!(it.next(), Some(Err(Error::PauseDelimitedQuoteEof { initiator_span })) if initiator_span == w), 35);
						must!(it.next().is_none(), 36);
						cover(true, 35);
						break;
					}
					Some(c) => must!(is(&it.next(), Selmaho::AnyText, false, c), 21),
				}
				cover(true, 20);
			}
			Selmaho::Faho | Selmaho::Fahoho => {
				must!(is(&it.next(), sel, exp, w), 37);
				must!(it.next().is_none(), 38);
				must!(it.next().is_none(), 39);
				cover(r.upcoming.is_some(), 37);
				break;
			}
			_ => {
				must!(is(&it.next(), sel, exp, w), 1);
				cover(true, 1);
			}
		}
	}
}

/// L14: token spans are ordered, in bounds, and skip only pauses and commas
pub fn h_tokens(p: [u64; 4]) {
	let s = text(p);
	let b = s.as_bytes();
	let mut last = 0usize;
	let mut ended = false;
	for t in lex(s) {
		check(!ended, 1);
		match t {
			Err(_) => ended = true,
			Ok(t) => {
				let (x, y) = (t.span.start as usize, t.span.end as usize);
				check(x >= last, 2);
				check(y >= x, 3);
				check(y <= b.len(), 4);
				check(y > x || matches!(t.selmaho, Selmaho::AnyText), 5);
				check(b[last..x].iter().all(|&c| c == b',' || m::pause(c)), 6);
				check(matches!(t.selmaho, Selmaho::AnyText) || b[x..y].iter().all(|&c| !m::pause(c)), 7);
				last = y;
				ended = matches!(t.selmaho, Selmaho::Faho | Selmaho::Fahoho);
				cover(true, 1);
			}
		}
	}
	if !ended {
		check(b[last..].iter().all(|&c| c == b',' || m::pause(c)), 8);
	}
}
