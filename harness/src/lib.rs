//! Harnesses: each entry builds a symbolic input, runs the real code and asserts a property.
mod vh;
mod gen;
mod refmorph;
mod text;
mod spanh;
mod dict;
mod classh;
mod lexh;
mod refgram;
mod refgram_table;
mod parse;
pub use vh::dispatch;
