//! Reduced ordered BDDs with complement edges, used as the canonical simplifier for path
//! conditions.  Every function keeps the gate that first produced it, so that verification
//! conditions can be exported as circuits for an SMT solver.
pub type Lit = u32;
pub const TRUE: Lit = 0;
pub const FALSE: Lit = 1;
/// An undefined bit (uninitialised memory, poison).  Never stored inside a BDD.
pub const UNDEF: Lit = u32::MAX;

#[derive(Clone, Copy)]
struct Node {
    var: u32,
    lo: Lit, // may be complemented
    hi: Lit, // never complemented
}

#[derive(Clone, Copy, Default)]
struct CacheEnt {
    a: u32,
    b: u32,
    c: u32,
    r: u32,
}

#[derive(Clone, Copy)]
pub enum Gate {
    None,
    And(Lit, Lit),
    Xor(Lit, Lit),
    Ite(Lit, Lit, Lit),
}

pub struct Bdd {
    nodes: Vec<Node>,
    table: Vec<u32>,
    mask: usize,
    cache: Vec<CacheEnt>,
    cmask: usize,
    prov: Vec<u32>, // per node: 0 unset, 1 frozen (Shannon), else index+2 into gates
    gates: Vec<Gate>,
    pub nvars: u32,
    vars: Vec<Lit>,
    pub node_limit: usize,
}

const TERM_VAR: u32 = u32::MAX;
const OP_AND: u32 = 0xffff_fff0;
const OP_XOR: u32 = 0xffff_fff1;
const OP_RESTRICT: u32 = 0xffff_fff2;

#[inline]
fn h3(a: u32, b: u32, c: u32) -> usize {
    let mut x = (a as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15)
        ^ (b as u64).wrapping_mul(0xC2B2_AE3D_27D4_EB4F)
        ^ (c as u64).wrapping_mul(0x1656_67B1_9E37_79F9);
    x ^= x >> 29;
    x = x.wrapping_mul(0xBF58_476D_1CE4_E5B9);
    (x >> 20) as usize
}

impl Bdd {
    pub fn new() -> Self {
        let cap = 1 << 20;
        Bdd {
            nodes: vec![Node { var: TERM_VAR, lo: 0, hi: 0 }],
            table: vec![0; cap],
            mask: cap - 1,
            cache: vec![CacheEnt { a: u32::MAX, b: 0, c: 0, r: 0 }; 1 << 22],
            cmask: (1 << 22) - 1,
            prov: vec![1],
            gates: vec![],
            nvars: 0,
            vars: vec![],
            node_limit: 400_000_000,
        }
    }
    pub fn num_nodes(&self) -> usize {
        self.nodes.len()
    }
    pub fn new_var(&mut self) -> Lit {
        let v = self.nvars;
        self.nvars += 1;
        // variable function: hi = TRUE, lo = FALSE
        let l = self.mk(v, FALSE, TRUE);
        self.vars.push(l);
        l
    }
    pub fn var_lit(&self, v: u32) -> Lit {
        self.vars[v as usize]
    }
    #[inline]
    fn var_of(&self, l: Lit) -> u32 {
        self.nodes[(l >> 1) as usize].var
    }
    pub fn top(&self, l: Lit) -> u32 {
        self.var_of(l)
    }
    #[inline]
    pub fn cof(&self, l: Lit, v: u32) -> (Lit, Lit) {
        let n = &self.nodes[(l >> 1) as usize];
        if n.var == v {
            (n.lo ^ (l & 1), n.hi ^ (l & 1))
        } else {
            (l, l)
        }
    }
    pub fn mk(&mut self, var: u32, lo: Lit, hi: Lit) -> Lit {
        if lo == hi {
            return lo;
        }
        let flip = hi & 1;
        let (lo, hi) = (lo ^ flip, hi ^ flip);
        let mut i = h3(var, lo, hi) & self.mask;
        loop {
            let id = self.table[i];
            if id == 0 {
                break;
            }
            let n = &self.nodes[id as usize];
            if n.var == var && n.lo == lo && n.hi == hi {
                return (id << 1) ^ flip;
            }
            i = (i + 1) & self.mask;
        }
        let id = self.nodes.len() as u32;
        if self.nodes.len() > self.node_limit {
            panic!("BDD node limit");
        }
        self.nodes.push(Node { var, lo, hi });
        self.prov.push(0);
        self.table[i] = id;
        if self.nodes.len() * 2 > self.table.len() {
            self.grow();
        }
        (id << 1) ^ flip
    }
    fn grow(&mut self) {
        let cap = self.table.len() * 2;
        self.table = vec![0; cap];
        self.mask = cap - 1;
        for id in 1..self.nodes.len() {
            let n = self.nodes[id];
            let mut i = h3(n.var, n.lo, n.hi) & self.mask;
            while self.table[i] != 0 {
                i = (i + 1) & self.mask;
            }
            self.table[i] = id as u32;
        }
        if self.cache.len() < cap / 2 && self.cache.len() < (1 << 26) {
            let n = self.cache.len() * 2;
            self.cache = vec![CacheEnt { a: u32::MAX, b: 0, c: 0, r: 0 }; n];
            self.cmask = n - 1;
        }
    }
    #[inline]
    fn cget(&self, a: u32, b: u32, c: u32) -> Option<u32> {
        let e = &self.cache[h3(a, b, c) & self.cmask];
        if e.a == a && e.b == b && e.c == c {
            Some(e.r)
        } else {
            None
        }
    }
    #[inline]
    fn cput(&mut self, a: u32, b: u32, c: u32, r: u32) {
        let i = h3(a, b, c) & self.cmask;
        self.cache[i] = CacheEnt { a, b, c, r };
    }
    fn and_rec(&mut self, a: Lit, b: Lit) -> Lit {
        if a == FALSE || b == FALSE || a == b ^ 1 {
            return FALSE;
        }
        if a == TRUE || a == b {
            return b;
        }
        if b == TRUE {
            return a;
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        if let Some(r) = self.cget(a, b, OP_AND) {
            return r;
        }
        let v = self.var_of(a).min(self.var_of(b));
        let (a0, a1) = self.cof(a, v);
        let (b0, b1) = self.cof(b, v);
        let r0 = self.and_rec(a0, b0);
        let r1 = self.and_rec(a1, b1);
        let r = self.mk(v, r0, r1);
        self.cput(a, b, OP_AND, r);
        r
    }
    fn xor_rec(&mut self, a: Lit, b: Lit) -> Lit {
        let flip = (a ^ b) & 1;
        let (a, b) = (a & !1, b & !1);
        if a == b {
            return FALSE ^ flip;
        }
        if a == TRUE {
            return b ^ 1 ^ flip;
        }
        if b == TRUE {
            return a ^ 1 ^ flip;
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        if let Some(r) = self.cget(a, b, OP_XOR) {
            return r ^ flip;
        }
        let v = self.var_of(a).min(self.var_of(b));
        let (a0, a1) = self.cof(a, v);
        let (b0, b1) = self.cof(b, v);
        let r0 = self.xor_rec(a0, b0);
        let r1 = self.xor_rec(a1, b1);
        let r = self.mk(v, r0, r1);
        self.cput(a, b, OP_XOR, r);
        r ^ flip
    }
    fn ite_rec(&mut self, f: Lit, g: Lit, h: Lit) -> Lit {
        if f == TRUE {
            return g;
        }
        if f == FALSE {
            return h;
        }
        if g == h {
            return g;
        }
        let (mut f, mut g, mut h) = (f, g, h);
        if f & 1 == 1 {
            f ^= 1;
            std::mem::swap(&mut g, &mut h);
        }
        if g == f {
            g = TRUE;
        } else if g == f ^ 1 {
            g = FALSE;
        }
        if h == f {
            h = FALSE;
        } else if h == f ^ 1 {
            h = TRUE;
        }
        if g == h {
            return g;
        }
        if g == TRUE && h == FALSE {
            return f;
        }
        if g == FALSE && h == TRUE {
            return f ^ 1;
        }
        if g == TRUE {
            return self.and_rec(f ^ 1, h ^ 1) ^ 1;
        }
        if g == FALSE {
            return self.and_rec(f ^ 1, h);
        }
        if h == FALSE {
            return self.and_rec(f, g);
        }
        if h == TRUE {
            return self.and_rec(f, g ^ 1) ^ 1;
        }
        if g == h ^ 1 {
            return self.xor_rec(f, h);
        }
        let flip = g & 1;
        g ^= flip;
        h ^= flip;
        if let Some(r) = self.cget(f, g, h) {
            return r ^ flip;
        }
        let v = self.var_of(f).min(self.var_of(g)).min(self.var_of(h));
        let (f0, f1) = self.cof(f, v);
        let (g0, g1) = self.cof(g, v);
        let (h0, h1) = self.cof(h, v);
        let r0 = self.ite_rec(f0, g0, h0);
        let r1 = self.ite_rec(f1, g1, h1);
        let r = self.mk(v, r0, r1);
        self.cput(f, g, h, r);
        r ^ flip
    }
    #[inline]
    fn freeze(&mut self, l: Lit) {
        let p = &mut self.prov[(l >> 1) as usize];
        if *p == 0 {
            *p = 1;
        }
    }
    #[inline]
    fn note(&mut self, r: Lit, g: Gate) {
        match g {
            Gate::And(a, b) | Gate::Xor(a, b) => {
                self.freeze(a);
                self.freeze(b);
            }
            Gate::Ite(a, b, c) => {
                self.freeze(a);
                self.freeze(b);
                self.freeze(c);
            }
            Gate::None => {}
        }
        if r <= 1 {
            return;
        }
        let id = r >> 1;
        let n = &self.nodes[id as usize];
        if n.hi == TRUE && n.lo == FALSE {
            return; // a plain variable
        }
        let g = if r & 1 == 0 {
            g
        } else {
            match g {
                Gate::Xor(a, b) => Gate::Xor(a ^ 1, b),
                Gate::Ite(a, b, c) => Gate::Ite(a, b ^ 1, c ^ 1),
                // !(a & b): keep as ite
                Gate::And(a, b) => Gate::Ite(a, b ^ 1, TRUE),
                Gate::None => Gate::None,
            }
        };
        if self.prov[id as usize] == 0 {
            self.prov[id as usize] = self.gates.len() as u32 + 2;
            self.gates.push(g);
        }
    }
    #[inline]
    pub fn and(&mut self, a: Lit, b: Lit) -> Lit {
        if a == FALSE || b == FALSE {
            return FALSE;
        }
        if a == TRUE {
            return b;
        }
        if b == TRUE || a == b {
            return a;
        }
        if a == UNDEF || b == UNDEF {
            return UNDEF;
        }
        let r = self.and_rec(a, b);
        self.note(r, Gate::And(a, b));
        r
    }
    #[inline]
    pub fn not(&self, a: Lit) -> Lit {
        if a == UNDEF {
            UNDEF
        } else {
            a ^ 1
        }
    }
    #[inline]
    pub fn or(&mut self, a: Lit, b: Lit) -> Lit {
        if a == TRUE || b == TRUE {
            return TRUE;
        }
        if a == FALSE {
            return b;
        }
        if b == FALSE || a == b {
            return a;
        }
        if a == UNDEF || b == UNDEF {
            return UNDEF;
        }
        self.and(a ^ 1, b ^ 1) ^ 1
    }
    #[inline]
    pub fn xor(&mut self, a: Lit, b: Lit) -> Lit {
        if a == UNDEF || b == UNDEF {
            return UNDEF;
        }
        if a <= 1 {
            return if a == TRUE { b ^ 1 } else { b };
        }
        if b <= 1 {
            return if b == TRUE { a ^ 1 } else { a };
        }
        let r = self.xor_rec(a, b);
        self.note(r, Gate::Xor(a, b));
        r
    }
    #[inline]
    pub fn ite(&mut self, f: Lit, g: Lit, h: Lit) -> Lit {
        if g == h || f == TRUE {
            return g;
        }
        if f == FALSE {
            return h;
        }
        if f == UNDEF {
            return UNDEF;
        }
        if g == UNDEF {
            return h;
        }
        if h == UNDEF {
            return g;
        }
        let r = self.ite_rec(f, g, h);
        self.note(r, Gate::Ite(f, g, h));
        r
    }
    pub fn implies(&mut self, a: Lit, b: Lit) -> bool {
        self.and_rec(a, b ^ 1) == FALSE
    }
    /// Coudert-Madre restrict: simplify f using care set c (result agrees with f on c).
    pub fn restrict(&mut self, f: Lit, c: Lit) -> Lit {
        if f <= 1 || c == TRUE || f == UNDEF {
            return f;
        }
        if c == FALSE {
            return f;
        }
        if f == c {
            return TRUE;
        }
        if f == c ^ 1 {
            return FALSE;
        }
        if let Some(r) = self.cget(f, c, OP_RESTRICT) {
            return r;
        }
        let vf = self.var_of(f);
        let vc = self.var_of(c);
        let r = if vc < vf {
            let (c0, c1) = self.cof(c, vc);
            let cc = self.and_rec(c0 ^ 1, c1 ^ 1) ^ 1;
            self.restrict(f, cc)
        } else {
            let (f0, f1) = self.cof(f, vf);
            let (c0, c1) = self.cof(c, vf);
            if c0 == FALSE {
                self.restrict(f1, c1)
            } else if c1 == FALSE {
                self.restrict(f0, c0)
            } else {
                let r0 = self.restrict(f0, c0);
                let r1 = self.restrict(f1, c1);
                self.mk(vf, r0, r1)
            }
        };
        self.cput(f, c, OP_RESTRICT, r);
        r
    }
    pub fn gate(&self, id: u32) -> Gate {
        match self.prov[id as usize] {
            0 | 1 => Gate::None,
            i => self.gates[i as usize - 2],
        }
    }
    pub fn shannon(&self, id: u32) -> (u32, Lit, Lit) {
        let n = &self.nodes[id as usize];
        (n.var, n.lo, n.hi)
    }
    /// One satisfying assignment (variables not mentioned are left out).
    pub fn sat_one(&self, mut l: Lit) -> Option<Vec<(u32, bool)>> {
        if l == FALSE {
            return None;
        }
        let mut out = vec![];
        while l != TRUE {
            let v = self.var_of(l);
            let (l0, l1) = self.cof(l, v);
            if l1 != FALSE {
                out.push((v, true));
                l = l1;
            } else {
                out.push((v, false));
                l = l0;
            }
        }
        Some(out)
    }
}
