//! Reference morphology: the Lojban word grammar (the PEG of camxes-ilmen with the "minimal"
//! look-ahead this project documents), written over byte positions instead of string slices.
//! A rule maps a position to the position after the match, or to `F`.
//!
//! Commas are transparent; `h` and `'` are the same letter; consonants ignore case.
pub type P = u8;
pub const F: P = 255;

/// Text under analysis: bytes, terminated by zero bytes.
pub struct T {
	pub b: [u8; 40],
}

pub fn pause(c: u8) -> bool {
	matches!(c, b'.' | b'\t' | b'\n' | b'\r' | b'?' | b'!' | b' ')
}

#[inline(never)]
pub fn sk(t: &'static T, i: P) -> P {
	let mut i = i;
	while t.b[i as usize] == b',' {
		i += 1;
	}
	i
}
fn at(t: &'static T, i: P) -> u8 {
	t.b[sk(t, i) as usize]
}
/// end of the pause-delimited chunk
#[inline(never)]
pub fn eof(t: &'static T, i: P) -> P {
	let c = at(t, i);
	if c == 0 || pause(c) {
		i
	} else {
		F
	}
}

macro_rules! seq {
	($t:expr, $i:expr; $($r:expr),* $(,)?) => {{
		let mut p: P = $i;
		$( p = $r($t, p); if p == F { return F; } )*
		p
	}};
}
macro_rules! rule {
	($name:ident = $($r:expr),* $(,)?) => {
		#[inline(never)]
		pub fn $name(t: &'static T, i: P) -> P { seq![t, i; $($r),*] }
	};
}
/// ordered choice
macro_rules! alt {
	($name:ident = $($r:expr),* $(,)?) => {
		#[inline(never)]
		pub fn $name(t: &'static T, i: P) -> P {
			$( let p = $r(t, i); if p != F { return p; } )*
			F
		}
	};
}
/// anonymous helpers
macro_rules! not { ($r:expr) => { (|t: &'static T, i: P| -> P { if $r(t, i) == F { i } else { F } }) }; }
macro_rules! peek { ($r:expr) => { (|t: &'static T, i: P| -> P { if $r(t, i) == F { F } else { i } }) }; }
macro_rules! opt { ($r:expr) => { (|t: &'static T, i: P| -> P { let p = $r(t, i); if p == F { i } else { p } }) }; }
macro_rules! s { ($($r:expr),* $(,)?) => { (|t: &'static T, i: P| -> P { seq![t, i; $($r),*] }) }; }
macro_rules! o { ($($r:expr),* $(,)?) => { (|t: &'static T, i: P| -> P { $( let p = $r(t, i); if p != F { return p; } )* F }) }; }
macro_rules! many { ($name:ident, $r:expr) => {
	#[inline(never)]
	pub fn $name(t: &'static T, i: P) -> P { let p = $r(t, i); if p == F || p == i { i } else { $name(t, p) } }
}; }

macro_rules! letter {
	($name:ident, $($c:pat_param)|+) => {
		#[inline(never)]
		pub fn $name(t: &'static T, i: P) -> P { let j = sk(t, i); if matches!(t.b[j as usize], $($c)|+) { j + 1 } else { F } }
	};
}
letter!(l_h, b'\'' | b'h');
letter!(l_b, b'b' | b'B');
letter!(l_c, b'c' | b'C');
letter!(l_d, b'd' | b'D');
letter!(l_f, b'f' | b'F');
letter!(l_g, b'g' | b'G');
letter!(l_j, b'j' | b'J');
letter!(l_k, b'k' | b'K');
letter!(l_l, b'l' | b'L');
letter!(l_m, b'm' | b'M');
letter!(l_n, b'n' | b'N');
letter!(l_p, b'p' | b'P');
letter!(l_r, b'r' | b'R');
letter!(l_s, b's' | b'S');
letter!(l_t, b't' | b'T');
letter!(l_v, b'v' | b'V');
letter!(l_x, b'x' | b'X');
letter!(l_z, b'z' | b'Z');
letter!(a, b'a' | b'A');
letter!(e, b'e' | b'E');
letter!(i_, b'i' | b'I');
letter!(o_, b'o' | b'O');
letter!(u, b'u' | b'U');
letter!(y, b'y' | b'Y');
letter!(iu, b'i' | b'I' | b'u' | b'U');
letter!(eo, b'e' | b'E' | b'o' | b'O');
letter!(any_vowel, b'a' | b'A' | b'e' | b'E' | b'i' | b'I' | b'o' | b'O' | b'u' | b'U' | b'y' | b'Y');
letter!(capital, b'A' | b'E' | b'I' | b'O' | b'U');
letter!(any_digit, b'0'..=b'9');

// ---- sounds
rule!(h = l_h, peek!(nucleus));
rule!(vowel = any_vowel, not!(nucleus));
rule!(diphthong = o![s![a, iu], s![eo, i_]], not!(nucleus));
alt!(nucleus = vowel, diphthong, s![y, not!(nucleus)]);
rule!(glide = iu, peek!(nucleus));
rule!(digit = any_digit, not!(h), not!(nucleus));

macro_rules! cons {
	($name:ident, $l:ident $(, $n:ident)*) => {
		rule!($name = $l, not!(h), not!(glide), not!($name) $(, not!($n))*);
	};
}
cons!(b, l_b, unvoiced);
cons!(c, l_c, s, x, voiced);
cons!(d, l_d, unvoiced);
cons!(f, l_f, voiced);
cons!(g, l_g, unvoiced);
cons!(j, l_j, z, unvoiced);
cons!(k, l_k, x, voiced);
cons!(l, l_l);
cons!(m, l_m, z);
cons!(n, l_n, affricate);
cons!(p, l_p, voiced);
cons!(r, l_r);
cons!(s, l_s, c, voiced);
cons!(t_, l_t, voiced);
cons!(v, l_v, unvoiced);
cons!(x, l_x, c, k, voiced);
cons!(z, l_z, j, unvoiced);
alt!(voiced = b, d, g, j, v, z);
alt!(unvoiced = c, f, k, p, s, t_, x);
alt!(syllabic = l, m, n, r);
alt!(liquid = l, r);
alt!(consonant = voiced, unvoiced, syllabic);
alt!(affricate = s![t_, o![c, s]], s![d, o![j, z]]);
alt!(sibilant = c, s![s, not!(x)], s![o![j, z], not!(n), not!(liquid)]);
alt!(other = p, k, f, x, b, g, v, m, s![n, not!(liquid)], s![o![t_, d], not!(l)]);
rule!(initial = o![affricate, s![opt!(sibilant), opt!(other), opt!(liquid)]], not!(consonant), not!(glide));
alt!(onset = h, glide, initial);
rule!(stressed = onset, capital);
rule!(cluster = consonant, consonant);
many!(consonants, consonant);

// ---- syllables
rule!(consonantal_syllable = consonant, peek!(syllabic), coda);
alt!(any_syllable = s![onset, nucleus, opt!(coda)], consonantal_syllable);
alt!(coda = s![not!(any_syllable), consonant, peek!(any_syllable)], s![opt!(syllabic), opt!(consonant), eof]);
rule!(syllable = onset, not!(y), nucleus, opt!(coda));
rule!(stress = consonants, opt!(h), opt!(y), syllable, eof);
rule!(explicit_vowel = peek!(stressed), vowel);
alt!(stressed_vowel = explicit_vowel, s![vowel, peek!(stress)]);
rule!(unstressed_vowel = not!(stressed), vowel, not!(stress));
rule!(unstressed_diphthong = not!(stressed), diphthong, not!(stress));
rule!(explicit_diphthong = peek!(stressed), diphthong);
alt!(stressed_diphthong = explicit_diphthong, s![diphthong, peek!(stress)]);
rule!(final_syllable = onset, not!(y), not!(stressed), nucleus, not!(cmevla), peek!(post_word));
alt!(unstressed_syllable = s![not!(stressed), syllable, not!(stress)], consonantal_syllable);
rule!(explicit_syllable = peek!(stressed), syllable);
alt!(stressed_syllable = explicit_syllable, s![syllable, peek!(stress)]);
many!(consonantal_syllables, consonantal_syllable);
many!(unstressed_syllables, unstressed_syllable);

// ---- names
alt!(name_part = nucleus, glide, h, s![consonant, not!(eof)], digit);
many!(name_parts, name_part);
rule!(cmevla = not!(h), name_parts, consonant, eof);

// ---- structure words
rule!(ys = y, ys0);
many!(ys0, y);
many!(nucleus_hs, s![nucleus, h]);
rule!(cmavo_shape = not!(h), not!(cluster), onset, nucleus_hs, o![s![not!(stressed), nucleus], s![nucleus, not!(cluster)]]);
/// the longest of the three shapes
#[inline(never)]
pub fn cmavo_form(t: &'static T, i: P) -> P {
	let mut best = F;
	let d = digit(t, i);
	if d != F {
		best = d;
	}
	let d = ys(t, i);
	if d != F && (best == F || d > best) {
		best = d;
	}
	let d = cmavo_shape(t, i);
	if d != F && (best == F || d > best) {
		best = d;
	}
	best
}
rule!(cmavo_minimal = not!(cvcy_lujvo), cmavo_form);
rule!(cmavo_semi = cmavo_minimal, peek!(post_word));
rule!(cmavo = not!(cmevla), cmavo_semi);

// ---- brivla
rule!(initial_pair = peek!(initial), consonant, consonant, not!(consonant));
rule!(gismu = o![s![initial_pair, stressed_vowel], s![consonant, stressed_vowel, consonant]], peek!(final_syllable), consonant, vowel, peek!(post_word));
rule!(cvc_rafsi = consonant, unstressed_vowel, consonant);
rule!(ccv_rafsi = initial_pair, unstressed_vowel);
alt!(r_hyphen = s![r, peek!(consonant)], s![n, peek!(r)]);
rule!(cvv_rafsi = consonant, o![s![unstressed_vowel, h, unstressed_vowel], unstressed_diphthong], r_hyphen);
rule!(y_less_rafsi = not!(y_rafsi), not!(stressed_y_rafsi), not!(hy_rafsi), not!(stressed_hy_rafsi), o![cvc_rafsi, ccv_rafsi, cvv_rafsi], not!(h));
many!(y_less_rafsis, y_less_rafsi);
rule!(cvv_final_rafsi = consonant, stressed_vowel, h, peek!(final_syllable), vowel, peek!(post_word));
rule!(stressed_cvc_rafsi = consonant, stressed_vowel, consonant);
rule!(stressed_ccv_rafsi = initial_pair, stressed_vowel);
rule!(stressed_cvv_rafsi = consonant, o![s![unstressed_vowel, h, stressed_vowel], stressed_diphthong], opt!(r_hyphen));
alt!(stressed_y_less_rafsi = s![stressed_cvc_rafsi, not!(y)], stressed_ccv_rafsi, stressed_cvv_rafsi);
alt!(long_rafsi = s![initial_pair, unstressed_vowel, consonant], s![consonant, unstressed_vowel, consonant, consonant]);
rule!(hy_rafsi = o![s![long_rafsi, vowel], ccv_rafsi, cvv_rafsi], h, y, opt!(h));
rule!(stressed_hy_rafsi = o![s![long_rafsi, stressed_vowel], stressed_ccv_rafsi, stressed_cvv_rafsi], h, y);
rule!(y_rafsi = o![long_rafsi, cvc_rafsi], y, opt!(h));
alt!(stressed_long_rafsi = s![initial_pair, stressed_vowel, consonant], s![consonant, stressed_vowel, consonant, consonant]);
rule!(stressed_y_rafsi = o![stressed_long_rafsi, stressed_cvc_rafsi], y);
rule!(short_final_rafsi = peek!(final_syllable), o![s![consonant, diphthong], s![initial_pair, vowel]], peek!(post_word));
rule!(rafsi_string = y_less_rafsis, o![
	gismu,
	cvv_final_rafsi,
	s![stressed_y_less_rafsi, short_final_rafsi],
	y_rafsi,
	stressed_y_rafsi,
	s![opt!(stressed_y_less_rafsi), initial_pair, y],
	hy_rafsi,
	stressed_hy_rafsi,
]);
rule!(slinkuhi = not!(rafsi_string), consonant, rafsi_string);
rule!(brivla_head = not!(cmavo), not!(slinkuhi), not!(h), peek!(onset), unstressed_syllables);
rule!(fuhivla_head = not!(rafsi_string), brivla_head);
rule!(fuhivla = fuhivla_head, stressed_syllable, consonantal_syllables, final_syllable);
rule!(brivla_rafsi = peek!(s![syllable, consonantal_syllables, syllable]), brivla_head, h, y, opt!(h));
rule!(fuhivla_rafsi = peek!(unstressed_syllable), fuhivla_head, not!(h), onset, y, opt!(h));
alt!(extended_rafsi = brivla_rafsi, fuhivla_rafsi);
rule!(stressed_brivla_rafsi = peek!(unstressed_syllable), brivla_head, stressed_syllable, h, y);
rule!(stressed_fuhivla_rafsi = fuhivla_head, stressed_syllable, not!(h), onset, y);
alt!(stressed_extended_rafsi = stressed_brivla_rafsi, stressed_fuhivla_rafsi);
alt!(any_extended_rafsi = fuhivla, extended_rafsi, stressed_extended_rafsi);
alt!(initial_rafsi = extended_rafsi, y_rafsi, s![not!(any_extended_rafsi), y_less_rafsi, not!(any_extended_rafsi)]);
many!(initial_rafsis, initial_rafsi);
alt!(stressed_initial_rafsi = stressed_extended_rafsi, stressed_y_rafsi, stressed_y_less_rafsi);
alt!(brivla_core = fuhivla, gismu, cvv_final_rafsi, s![stressed_initial_rafsi, short_final_rafsi]);
rule!(lujvo_minimal = initial_rafsis, brivla_core);
alt!(cvcy_lujvo = s![cvc_rafsi, y, opt!(h), initial_rafsis, brivla_core], s![stressed_cvc_rafsi, y, short_final_rafsi]);
alt!(brivla_minimal = gismu, fuhivla, lujvo_minimal);
alt!(lojban_word = cmevla, cmavo_semi, brivla_minimal);
alt!(post_word = eof, s![not!(nucleus), lojban_word]);

// ---- brivla whose stress is written
rule!(ex_gismu = o![s![initial_pair, explicit_vowel], s![consonant, explicit_vowel, consonant]], peek!(final_syllable), consonant, vowel);
rule!(final_minimal = onset, not!(y), not!(stressed), nucleus);
rule!(ex_fuhivla = fuhivla_head, explicit_syllable, consonantal_syllables, final_minimal);
rule!(ex_cvv_final = consonant, explicit_vowel, h, peek!(final_syllable), vowel, peek!(post_word));
rule!(ex_brivla_rafsi = peek!(unstressed_syllable), brivla_head, explicit_syllable, h, y);
rule!(ex_fuhivla_rafsi = fuhivla_head, explicit_syllable, not!(h), onset, y);
alt!(ex_long = s![initial_pair, explicit_vowel, consonant], s![consonant, explicit_vowel, consonant, consonant]);
rule!(ex_cvc = consonant, explicit_vowel, consonant);
rule!(ex_y = o![ex_long, ex_cvc], y);
rule!(ex_ccv = initial_pair, explicit_vowel);
rule!(ex_cvv = consonant, o![s![unstressed_vowel, h, explicit_vowel], explicit_diphthong], opt!(r_hyphen));
alt!(ex_y_less = s![ex_cvc, not!(y)], ex_ccv, ex_cvv);
alt!(ex_initial = ex_brivla_rafsi, ex_fuhivla_rafsi, ex_y, ex_y_less);
alt!(ex_core = ex_fuhivla, ex_gismu, ex_cvv_final, s![ex_initial, short_final_rafsi]);
rule!(ex_brivla = initial_rafsis, ex_core);

// ---- words of a text
alt!(falls = cmavo_minimal, ex_brivla);
alt!(starts_word = s![not!(nucleus), o![gismu, fuhivla, lujvo_minimal, cmavo_minimal]]);

/// position just after the chunk that contains `i`
#[inline(never)]
pub fn chunk_end(t: &'static T, i: P) -> P {
	let mut i = i;
	while t.b[i as usize] != 0 && !pause(t.b[i as usize]) {
		i += 1;
	}
	i
}
pub fn is_cons(c: u8) -> bool {
	matches!(c | 32, b'b' | b'c' | b'd' | b'f' | b'g' | b'j' | b'k' | b'l' | b'm' | b'n' | b'p' | b'r' | b's' | b't' | b'v' | b'x' | b'z')
		&& c & 64 != 0
}
/// does the chunk end in a consonant?
#[inline(never)]
pub fn is_name(t: &'static T, i: P) -> bool {
	let mut i = i;
	let mut last = 0;
	while t.b[i as usize] != 0 && !pause(t.b[i as usize]) {
		if t.b[i as usize] != b',' {
			last = t.b[i as usize];
		}
		i += 1;
	}
	is_cons(last)
}
/// start of the next word (leading pauses and commas skipped), or F
#[inline(never)]
pub fn word_start(t: &'static T, i: P) -> P {
	let mut i = i;
	while pause(t.b[i as usize]) || t.b[i as usize] == b',' {
		i += 1;
	}
	if t.b[i as usize] == 0 {
		F
	} else {
		i
	}
}
/// end of the word that starts at `i` (the start of a chunk, or the end of an earlier word in it)
#[inline(never)]
pub fn word_end(t: &'static T, i: P) -> P {
	if is_name(t, i) {
		return chunk_end(t, i);
	}
	let q = falls(t, i);
	if q == F {
		return chunk_end(t, i);
	}
	if falls(t, q) != F || starts_word(t, q) != F {
		q
	} else {
		chunk_end(t, i)
	}
}
