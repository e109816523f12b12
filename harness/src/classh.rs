//! Properties of the classification of words.
use super::dict;
use super::gen::*;
use super::refmorph as m;
use super::vh::*;
use sneturfahi::decompose::decompose;
use sneturfahi::lex::{lex, Selmaho};

fn clean(s: &str, out: &mut [u8; 128]) -> usize {
	let mut n = 0;
	for &c in s.as_bytes() {
		if c != b',' {
			out[n] = if c == b'h' { b'\'' } else { c };
			n += 1;
		}
	}
	n
}

fn dict_one(s: &'static str) {
	let mut buf = [0u8; 128];
	let n = clean(s, &mut buf);
	let t = dict::table(&buf[..n]);
	assume(t.is_some());
	universe();
	if let Some((sel, exp)) = t {
		let (a, b) = Selmaho::classify(s);
		check(a == sel, 1);
		check(b == exp, 2);
		cover(true, 1);
	}
}
/// K20, K22: a word of the dictionary has its class and its experimental mark
pub fn h_dict(p: [u64; 4]) {
	let s = text(p);
	dict_one(s);
}
/// the same for words of a given length (any length up to 120), over the 32-letter alphabet or (second argument 1) one without commas
pub fn h_dictn(p: [u64; 4]) {
	let mut a = [0u8; 128];
	let n = p[0] as usize;
	let mut i = 0;
	while i < n {
		let k = sym(5) as usize & 31;
		a[i] = if p[1] == 0 { A5[k] } else { L5[k] };
		i += 1;
	}
	universe();
	let s = freeze(&a[..n]);
	show("word", s);
	dict_one(s);
}

fn reft(s: &'static str) -> &'static m::T {
	let mut t = m::T { b: [0; 40] };
	for (i, &c) in s.as_bytes().iter().enumerate() {
		t.b[i] = if c == 0 { 1 } else { c };
	}
	let sl: &'static [m::T] = freeze_slice(std::slice::from_ref(&t));
	&sl[0]
}

/// K21: a word outside the dictionary is classified by its form
pub fn h_class(p: [u64; 4]) {
	let s = text(p);
	let mut buf = [0u8; 128];
	let n = clean(s, &mut buf);
	assume(dict::table(&buf[..n]).is_none());
	universe();
	let t = reft(s);
	let end = s.len() as u8;
	let want = if m::cmevla(t, 0) == end {
		Selmaho::Cmevla
	} else if m::cmavo_minimal(t, 0) == end {
		Selmaho::UnknownCmavo
	} else if m::gismu(t, 0) == end {
		Selmaho::Gismu
	} else if m::fuhivla(t, 0) == end {
		Selmaho::Fuhivla
	} else if m::lujvo_minimal(t, 0) == end {
		Selmaho::Lujvo
	} else {
		Selmaho::AnyText
	};
	let (a, b) = Selmaho::classify(s);
	check(a == want, 1);
	check(b == matches!(want, Selmaho::UnknownCmavo), 2);
	cover(matches!(want, Selmaho::UnknownCmavo), 1);
	cover(matches!(want, Selmaho::Gismu), 2);
	cover(matches!(want, Selmaho::Fuhivla), 3);
	cover(matches!(want, Selmaho::Lujvo), 4);
	cover(matches!(want, Selmaho::Cmevla), 5);
	cover(matches!(want, Selmaho::AnyText), 6);
}

/// K23: spelling variants of a word have the same class (marked comma, apostrophe or h)
pub fn h_spell(p: [u64; 4]) {
	let mut a = [0u8; 40];
	let (n, mark) = pattern(p, &mut a);
	let mut b = [0u8; 40];
	let mut i = 0;
	while i < n {
		let flip = sym(1) != 0; // asked for on every path, so that the replay stays in step
		let c = if a[i] == b'\'' && flip { b'h' } else { a[i] };
		b[if i < mark { i } else { i + 1 }] = c;
		i += 1;
	}
	b[mark] = b',';
	// a comma inside the word, next to no other comma at its end
	assume(mark > 0 && mark < n && a[n - 1] != b',');
	universe();
	let s = freeze(&a[..n]);
	let t = freeze(&b[..n + 1]);
	show("word", s);
	show("variant", t);
	let (x, y) = (Selmaho::classify(s), Selmaho::classify(t));
	check(x.0 == y.0, 1);
	check(x.1 == y.1, 2);
	cover(!matches!(x.0, Selmaho::AnyText), 1);
}

/// K24: names of classes
pub fn h_names(_: [u64; 4]) {
	let i = sym(8) as usize;
	let j = sym(8) as usize;
	assume(i < dict::ALL.len() && j < dict::ALL.len());
	universe();
	let (a, b) = (dict::ALL[i], dict::ALL[j]);
	let (name, fund) = dict::name(a);
	check(a.as_repr().as_bytes() == name, 1);
	check(a.is_fundamentally_experimental() == fund, 2);
	check(i == j || a.as_repr() != b.as_repr(), 3);
	check((a == b) == (i == j), 4);
	cover(fund, 1);
}

/// K25: a word of the dictionary, as a text, is one token of its class
pub fn h_dictlex(p: [u64; 4]) {
	let s = text(p);
	let mut buf = [0u8; 128];
	let n = clean(s, &mut buf);
	assume(!s.as_bytes().contains(&b','));
	let t = dict::table(&buf[..n]);
	assume(t.is_some());
	universe();
	let mut d = decompose(s);
	let w = d.next();
	check(w.map_or(false, |w| w.start == 0 && w.end as usize == s.len()), 1);
	check(d.next().is_none(), 2);
	if let Some((sel, exp)) = t {
		if !matches!(sel, Selmaho::Zoi | Selmaho::Muhoi | Selmaho::Sohehai) {
			let mut l = lex(s);
			check(matches!(l.next(), Some(Ok(t)) if t.selmaho == sel && t.experimental == exp && t.span.start == 0 && t.span.end as usize == s.len()), 3);
			cover(true, 1);
		}
	}
}
