//! Persistent symbolic memory.
use crate::bdd::*;
use std::rc::Rc;

pub type Byte = [Lit; 8];
pub const UBYTE: Byte = [UNDEF; 8];

#[derive(Debug)]
pub struct Obj {
    pub b: Vec<Byte>,
}

pub fn const_byte(v: u8) -> Byte {
    let mut r = [FALSE; 8];
    for (i, x) in r.iter_mut().enumerate() {
        if v >> i & 1 == 1 {
            *x = TRUE;
        }
    }
    r
}
pub fn byte_const(b: &Byte) -> Option<u8> {
    let mut v = 0;
    for i in 0..8 {
        match b[i] {
            TRUE => v |= 1 << i,
            FALSE => {}
            _ => return None,
        }
    }
    Some(v)
}

const FAN: usize = 16;
const DEPTH: usize = 6; // 16M slots

#[derive(Clone)]
enum Node {
    Inner([Option<Rc<Node>>; FAN]),
    Leaf([Option<Rc<Obj>>; FAN]),
}

#[derive(Clone, Default)]
pub struct Tree {
    root: Option<Rc<Node>>,
}

fn empty_inner() -> Node {
    Node::Inner(Default::default())
}
fn empty_leaf() -> Node {
    Node::Leaf(Default::default())
}

impl Tree {
    pub fn get(&self, i: u32) -> Option<&Rc<Obj>> {
        let mut n = self.root.as_ref()?;
        for d in (0..DEPTH).rev() {
            let k = (i as usize >> (4 * d)) % FAN;
            match &**n {
                Node::Inner(c) => n = c[k].as_ref()?,
                Node::Leaf(c) => return c[k].as_ref(),
            }
        }
        None
    }
    pub fn set(&mut self, i: u32, o: Option<Rc<Obj>>) {
        let r = self.root.get_or_insert_with(|| Rc::new(empty_inner()));
        Self::set_rec(Rc::make_mut(r), i, DEPTH - 1, o);
    }
    fn set_rec(n: &mut Node, i: u32, d: usize, o: Option<Rc<Obj>>) {
        let k = (i as usize >> (4 * d)) % FAN;
        match n {
            Node::Inner(c) => {
                let s = c[k].get_or_insert_with(|| Rc::new(if d == 1 { empty_leaf() } else { empty_inner() }));
                Self::set_rec(Rc::make_mut(s), i, d - 1, o)
            }
            Node::Leaf(c) => c[k] = o,
        }
    }
    /// mutable access with copy on write
    pub fn get_mut(&mut self, i: u32) -> Option<&mut Vec<Byte>> {
        let r = self.root.as_mut()?;
        let mut n = Rc::make_mut(r);
        for d in (0..DEPTH).rev() {
            let k = (i as usize >> (4 * d)) % FAN;
            match n {
                Node::Inner(c) => n = Rc::make_mut(c[k].as_mut()?),
                Node::Leaf(c) => {
                    let o = c[k].as_mut()?;
                    if Rc::get_mut(o).is_none() {
                        *o = Rc::new(Obj { b: o.b.clone() });
                    }
                    return Some(&mut Rc::get_mut(o).unwrap().b);
                }
            }
        }
        None
    }
    pub fn each(&self, f: &mut dyn FnMut(u32, &Rc<Obj>)) {
        fn go(n: &Node, base: u32, d: usize, f: &mut dyn FnMut(u32, &Rc<Obj>)) {
            match n {
                Node::Inner(c) => {
                    for (k, x) in c.iter().enumerate() {
                        if let Some(x) = x {
                            go(x, base + ((k as u32) << (4 * d)), d - 1, f)
                        }
                    }
                }
                Node::Leaf(c) => {
                    for (k, x) in c.iter().enumerate() {
                        if let Some(x) = x {
                            f(base + k as u32, x)
                        }
                    }
                }
            }
        }
        if let Some(r) = &self.root {
            go(r, 0, DEPTH - 1, f)
        }
    }
    pub fn same(&self, o: &Tree) -> bool {
        match (&self.root, &o.root) {
            (Some(a), Some(b)) => Rc::ptr_eq(a, b),
            (None, None) => true,
            _ => false,
        }
    }
    pub fn merge(b: &mut Bdd, sel: Lit, x: &Tree, y: &Tree) -> Tree {
        if x.same(y) {
            return x.clone();
        }
        match (&x.root, &y.root) {
            (Some(p), Some(q)) => Tree { root: Some(merge_node(b, sel, p, q)) },
            (Some(_), None) => x.clone(),
            _ => y.clone(),
        }
    }
}

pub fn merge_obj(b: &mut Bdd, sel: Lit, x: &Rc<Obj>, y: &Rc<Obj>) -> Rc<Obj> {
    if Rc::ptr_eq(x, y) {
        return x.clone();
    }
    let n = x.b.len().max(y.b.len());
    let mut v = Vec::with_capacity(n);
    let mut same_x = x.b.len() == n;
    for i in 0..n {
        let p = x.b.get(i).copied().unwrap_or(UBYTE);
        let q = y.b.get(i).copied().unwrap_or(UBYTE);
        if p == q {
            v.push(p);
            continue;
        }
        let mut r = p;
        for k in 0..8 {
            r[k] = b.ite(sel, p[k], q[k]);
        }
        if r != p {
            same_x = false;
        }
        v.push(r);
    }
    if same_x {
        return x.clone();
    }
    Rc::new(Obj { b: v })
}

fn merge_node(b: &mut Bdd, sel: Lit, x: &Rc<Node>, y: &Rc<Node>) -> Rc<Node> {
    if Rc::ptr_eq(x, y) {
        return x.clone();
    }
    match (&**x, &**y) {
        (Node::Inner(p), Node::Inner(q)) => {
            let mut r: [Option<Rc<Node>>; FAN] = Default::default();
            for i in 0..FAN {
                r[i] = match (&p[i], &q[i]) {
                    (Some(s), Some(t)) => Some(merge_node(b, sel, s, t)),
                    (Some(s), None) => Some(s.clone()),
                    (None, t) => t.clone(),
                };
            }
            Rc::new(Node::Inner(r))
        }
        (Node::Leaf(p), Node::Leaf(q)) => {
            let mut r: [Option<Rc<Obj>>; FAN] = Default::default();
            for i in 0..FAN {
                r[i] = match (&p[i], &q[i]) {
                    (Some(s), Some(t)) => Some(merge_obj(b, sel, s, t)),
                    (Some(s), None) => Some(s.clone()),
                    (None, t) => t.clone(),
                };
            }
            Rc::new(Node::Leaf(r))
        }
        _ => unreachable!(),
    }
}

/// Mutable program memory of one symbolic state.
#[derive(Clone, Default)]
pub struct Mem {
    pub stack: Tree,
    pub heap: Tree,
    pub glob: Rc<Vec<(u32, Rc<Obj>)>>, // mutable statics and thread-locals that were written (interned)
}
