//! SSA values: concrete, bit-vectors of BDD literals, aggregates.
use crate::bdd::*;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Val {
    U,
    C(u32, u128), // width, value
    B(Rc<[Lit]>), // little endian bits
    A(Rc<Vec<Val>>),
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

pub fn cval(w: u32, v: u128) -> Val {
    Val::C(w, v & mask(w))
}

pub fn from_bits(b: Vec<Lit>) -> Val {
    if b.iter().all(|&l| l <= 1) {
        let mut v = 0u128;
        for (i, &l) in b.iter().enumerate() {
            if l == TRUE {
                v |= 1 << i;
            }
        }
        return Val::C(b.len() as u32, v);
    }
    if b.iter().all(|&l| l == UNDEF) {
        return Val::U;
    }
    Val::B(b.into())
}

pub fn bit(v: &Val, i: usize) -> Lit {
    match v {
        Val::U => UNDEF,
        Val::C(_, x) => {
            if x >> i & 1 == 1 {
                TRUE
            } else {
                FALSE
            }
        }
        Val::B(b) => b[i],
        Val::A(_) => panic!("bit of aggregate"),
    }
}

pub fn bits_of(v: &Val, w: u32) -> Vec<Lit> {
    match v {
        Val::U => vec![UNDEF; w as usize],
        Val::C(_, x) => (0..w).map(|i| if x >> i & 1 == 1 { TRUE } else { FALSE }).collect(),
        Val::B(b) => {
            debug_assert_eq!(b.len(), w as usize);
            b.to_vec()
        }
        Val::A(_) => panic!("bits of aggregate"),
    }
}

pub fn ite(b: &mut Bdd, s: Lit, x: &Val, y: &Val) -> Val {
    if s == TRUE {
        return x.clone();
    }
    if s == FALSE {
        return y.clone();
    }
    match (x, y) {
        (Val::U, v) | (v, Val::U) => v.clone(),
        (Val::A(p), Val::A(q)) => {
            if Rc::ptr_eq(p, q) {
                return x.clone();
            }
            Val::A(Rc::new(p.iter().zip(q.iter()).map(|(a, c)| ite(b, s, a, c)).collect()))
        }
        (Val::C(w, p), Val::C(_, q)) => {
            if p == q {
                return x.clone();
            }
            let mut r = Vec::with_capacity(*w as usize);
            for i in 0..*w {
                let (pi, qi) = (p >> i & 1, q >> i & 1);
                r.push(if pi == qi {
                    if pi == 1 {
                        TRUE
                    } else {
                        FALSE
                    }
                } else if pi == 1 {
                    s
                } else {
                    s ^ 1
                });
            }
            from_bits(r)
        }
        (Val::B(p), Val::B(q)) if Rc::ptr_eq(p, q) => x.clone(),
        _ => {
            let w = match (x, y) {
                (Val::B(p), _) => p.len(),
                (_, Val::B(q)) => q.len(),
                _ => panic!("ite kinds"),
            };
            let mut r = Vec::with_capacity(w);
            for i in 0..w {
                let (p, q) = (bit(x, i), bit(y, i));
                r.push(b.ite(s, p, q));
            }
            from_bits(r)
        }
    }
}

/// Enumerate the concrete values of a (partially symbolic) word, with the condition for each.
/// Only values possible under `g` are produced; returns None above the limit.
pub fn enumerate(b: &mut Bdd, v: &Val, g: Lit, limit: usize) -> Option<Vec<(u128, Lit)>> {
    match v {
        Val::C(_, x) => Some(vec![(*x, TRUE)]),
        Val::B(bits) => {
            let mut base = 0u128;
            let mut sym: Vec<usize> = vec![];
            for (i, &l) in bits.iter().enumerate() {
                match l {
                    TRUE => base |= 1 << i,
                    FALSE | UNDEF => {}
                    _ => sym.push(i),
                }
            }
            let mut cur = vec![(base, TRUE, g)];
            for &i in sym.iter().rev() {
                let l = bits[i];
                let mut nxt = Vec::with_capacity(cur.len() * 2);
                for (x, c, gg) in cur {
                    let g1 = b.and(gg, l);
                    if g1 == FALSE {
                        nxt.push((x, c, gg));
                    } else if g1 == gg {
                        nxt.push((x | 1 << i, c, gg));
                    } else {
                        let g0 = b.and(gg, l ^ 1);
                        let c1 = b.and(c, l);
                        let c0 = b.and(c, l ^ 1);
                        nxt.push((x, c0, g0));
                        nxt.push((x | 1 << i, c1, g1));
                    }
                }
                if nxt.len() > limit {
                    return None;
                }
                cur = nxt;
            }
            Some(cur.into_iter().map(|(x, c, _)| (x, c)).collect())
        }
        _ => None,
    }
}

pub fn add(b: &mut Bdd, x: &[Lit], y: &[Lit], mut carry: Lit) -> (Vec<Lit>, Lit) {
    let mut r = Vec::with_capacity(x.len());
    for i in 0..x.len() {
        let (p, q) = (x[i], y[i]);
        let t = b.xor(p, q);
        r.push(b.xor(t, carry));
        // carry = t ? carry : p
        carry = b.ite(t, carry, p);
    }
    (r, carry)
}
pub fn neg_bits(x: &[Lit]) -> Vec<Lit> {
    x.iter().map(|&l| if l == UNDEF { l } else { l ^ 1 }).collect()
}
pub fn ult(b: &mut Bdd, x: &[Lit], y: &[Lit]) -> Lit {
    // from LSB: lt = (x==y)? lt : y
    let mut lt = FALSE;
    for i in 0..x.len() {
        let d = b.xor(x[i], y[i]);
        lt = b.ite(d, y[i], lt);
    }
    lt
}
pub fn eq(b: &mut Bdd, x: &[Lit], y: &[Lit]) -> Lit {
    // constant mismatch first
    for i in 0..x.len() {
        if x[i] <= 1 && y[i] <= 1 && x[i] != y[i] {
            return FALSE;
        }
    }
    let mut r = TRUE;
    for i in (0..x.len()).rev() {
        let d = b.xor(x[i], y[i]);
        if d == UNDEF {
            return UNDEF;
        }
        r = b.and(r, d ^ 1);
        if r == FALSE {
            return FALSE;
        }
    }
    r
}
