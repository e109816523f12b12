//! Symbolic inputs.
use super::vh::*;

pub static A5: [u8; 32] = *b"aeiouy',AEIOU. rbdgvjzlmptkfcsxn";
/// every letter in both cases, digits, all pauses, two letters that are not Lojban's
pub static A6: [u8; 64] = *b"aeiouy',AEIOU. rbdgvjzlmptkfcsxnhH?!\t\nY0158RBDGVJZLMPTKFCSXNqw-\r";
pub static V3: [u8; 8] = *b"aeiouyAO";
/// letters without commas
pub static L5: [u8; 32] = *b"aeiouy'hAEIOUbcdfgjklmnprstvxzwq";
pub static P3: [u8; 8] = *b" .\t\n\r?! ";
pub static Q3: [u8; 8] = *b"gy ,a.'G";
pub static C4: [u8; 16] = *b"bcdfgjklmnprstvx";

/// A text from a pattern of at most 32 bytes: `?` is a hole for the 32-letter alphabet, `*` for
/// the 64-letter one, `#` for any ASCII character, `@` for any byte (the whole must be UTF-8),
/// `%` for a vowel, `&` for a consonant; other characters stand for themselves, `_` for a space.
pub fn pattern(p: [u64; 4], out: &mut [u8; 40]) -> (usize, usize) {
	let mut n = 0;
	let mut i = 0;
	let mut mark = 0;
	let mut utf8 = false;
	while i < 32 {
		let c = (p[i / 8] >> (8 * (i % 8))) as u8;
		i += 1;
		if c == 0 {
			break;
		}
		if c == b'^' {
			mark = n;
			continue;
		}
		out[n] = match c {
			b'|' => {
				mark = n;
				P3[sym(3) as usize & 7]
			}
			b'~' => Q3[sym(3) as usize & 7],
			b'?' => A5[sym(5) as usize & 31],
			b'*' => A6[sym(6) as usize & 63],
			b'#' => sym(7) as u8 & 127,
			b'@' => {
				utf8 = true;
				sym(8) as u8
			}
			b'%' => V3[sym(3) as usize & 7],
			b'&' => C4[sym(4) as usize & 15],
			b'_' => b' ',
			c => c,
		};
		n += 1;
	}
	if utf8 {
		assume(std::str::from_utf8(&out[..n]).is_ok());
	}
	(n, mark)
}
pub fn text(p: [u64; 4]) -> &'static str {
	let mut a = [0u8; 40];
	let (n, _) = pattern(p, &mut a);
	universe();
	let s = freeze(&a[..n]);
	show("text", s);
	s
}
