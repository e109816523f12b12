//! Export of verification conditions as an SMT-LIB problem.  The circuit of every function is
//! rebuilt from the operations that produced it during symbolic execution (from its Shannon
//! expansion where an intermediate result of the simplifier was used directly).
use crate::bdd::*;
use crate::fast::HashMap;
use std::fmt::Write;

pub fn name(l: Lit) -> String {
    match l {
        TRUE => "true".into(),
        FALSE => "false".into(),
        _ if l & 1 == 1 => format!("(not n{})", l >> 1),
        _ => format!("n{}", l >> 1),
    }
}

pub struct Export {
    pub text: String,
    pub defs: usize,
    done: HashMap<u32, ()>,
    vars: Vec<u32>,
    pub full: bool,
}

impl Export {
    pub fn new() -> Self {
        Export { text: String::new(), defs: 0, done: HashMap::default(), vars: vec![], full: false }
    }
    /// define everything that `l` needs; false when more than `max` definitions would be needed
    pub fn define(&mut self, b: &Bdd, l: Lit, max: usize) -> bool {
        let mut st = vec![(l >> 1, false)];
        while let Some((id, ready)) = st.pop() {
            if id == 0 || self.done.contains_key(&id) {
                continue;
            }
            if self.defs > max {
                self.full = true;
                return false;
            }
            let g = b.gate(id);
            let (v, lo, hi) = b.shannon(id);
            let isvar = lo == FALSE && hi == TRUE;
            if !ready {
                st.push((id, true));
                match g {
                    Gate::And(x, y) | Gate::Xor(x, y) => st.extend([(x >> 1, false), (y >> 1, false)]),
                    Gate::Ite(x, y, z) => st.extend([(x >> 1, false), (y >> 1, false), (z >> 1, false)]),
                    Gate::None if isvar => {}
                    Gate::None => st.extend([(lo >> 1, false), (hi >> 1, false), (b.var_lit(v) >> 1, false)]),
                }
                continue;
            }
            self.done.insert(id, ());
            self.defs += 1;
            let n = name;
            let _ = match g {
                Gate::And(x, y) => writeln!(self.text, "(define-fun n{} () Bool (and {} {}))", id, n(x), n(y)),
                Gate::Xor(x, y) => writeln!(self.text, "(define-fun n{} () Bool (xor {} {}))", id, n(x), n(y)),
                Gate::Ite(x, y, z) => writeln!(self.text, "(define-fun n{} () Bool (ite {} {} {}))", id, n(x), n(y), n(z)),
                Gate::None if isvar => {
                    self.vars.push(id);
                    writeln!(self.text, "(declare-const n{} Bool)", id)
                }
                Gate::None => writeln!(self.text, "(define-fun n{} () Bool (ite {} {} {}))", id, n(b.var_lit(v)), n(hi), n(lo)),
            };
        }
        true
    }
    pub fn known(&self, l: Lit) -> bool {
        self.done.contains_key(&(l >> 1))
    }
}
