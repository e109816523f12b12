//! Runs a harness function natively on concrete inputs: `replay FN ARG ARG ARG ARG -- INPUT...`.
//! Prints `ASSERT n` for every assertion that failed, `COVER n` for every cover point reached,
//! `PANIC message`, and `ASSUME` when the inputs violate an assumption of the harness.
use std::sync::Mutex;

static INPUTS: Mutex<(Vec<u64>, usize)> = Mutex::new((Vec::new(), 0));
static SEEN: Mutex<Vec<(bool, u32)>> = Mutex::new(Vec::new());

#[no_mangle]
pub extern "C" fn vh_sym(width: u32) -> u64 {
	let mut g = INPUTS.lock().unwrap();
	let i = g.1;
	g.1 += 1;
	let v = g.0.get(i).copied().unwrap_or(0);
	if width >= 64 {
		v
	} else {
		v & ((1 << width) - 1)
	}
}
#[no_mangle]
pub extern "C" fn vh_assume(c: bool) {
	if !c {
		println!("ASSUME");
		std::process::exit(3);
	}
}
#[no_mangle]
pub extern "C" fn vh_universe() {}
fn seen(a: bool, id: u32) {
	let mut g = SEEN.lock().unwrap();
	if !g.contains(&(a, id)) {
		g.push((a, id));
		println!("{} {}", if a { "ASSERT" } else { "COVER" }, id);
	}
}
#[no_mangle]
pub extern "C" fn vh_assert(c: bool, id: u32) {
	if !c {
		seen(true, id);
	}
}
#[no_mangle]
pub extern "C" fn vh_cover(c: bool, id: u32) {
	if c {
		seen(false, id);
	}
}
/// # Safety
/// `p` must be valid for `n` bytes.
#[no_mangle]
pub unsafe extern "C" fn vh_const(p: *const u8, n: usize) -> *const u8 {
	let words = vec![0u128; n / 16 + 1].leak();
	std::ptr::copy_nonoverlapping(p, words.as_mut_ptr().cast(), n);
	words.as_ptr().cast()
}

fn main() {
	let a: Vec<String> = std::env::args().skip(1).collect();
	let cut = a.iter().position(|x| x == "--").unwrap_or(a.len());
	let nums = |s: &[String]| s.iter().map(|x| x.parse::<u64>().expect("number")).collect::<Vec<_>>();
	let mut args = nums(&a[1..cut]);
	args.resize(4, 0);
	INPUTS.lock().unwrap().0 = nums(a.get(cut + 1..).unwrap_or(&[]));
	std::panic::set_hook(Box::new(|i| {
		println!("PANIC {}", i.to_string().replace('\n', " "));
	}));
	let name = a[0].clone();
	let t = std::thread::Builder::new()
		.stack_size(1 << 30)
		.spawn(move || std::panic::catch_unwind(|| harness::dispatch(&name, [args[0], args[1], args[2], args[3]])))
		.unwrap();
	match t.join().unwrap() {
		Err(_) => std::process::exit(101),
		Ok(false) => {
			println!("UNKNOWN FUNCTION");
			std::process::exit(2)
		}
		Ok(true) => std::process::exit(if SEEN.lock().unwrap().iter().any(|x| x.0) { 1 } else { 0 }),
	}
}
