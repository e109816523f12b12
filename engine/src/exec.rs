//! State-merging symbolic executor for LLVM IR with function summaries.
use crate::bdd::*;
use crate::ir::*;
use crate::mem::*;
use crate::val::{self, *};
use crate::fast::{HashMap, HashSet};
use std::collections::BTreeMap;
use std::rc::Rc;

pub const STACK: u64 = 0x2000_0000_0000;
pub const HEAP: u64 = 0x3000_0000_0000;
pub const FUNCS: u64 = 0x4000_0000_0000;
pub const CONSTS: u64 = 0x1000_0000_0000;
pub const GLOBS: u64 = 0x1800_0000_0000;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Class {
    Stack,
    Heap,
    Const,
    Glob,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum EvKind {
    Assert(u32),
    Panic(String),
    Cover(u32),
}

/// A verification condition: violated iff  g and not c.
#[derive(Clone, Debug)]
pub struct Event {
    pub kind: EvKind,
    pub g: Lit,
    pub c: Lit,
}

#[derive(Debug)]
pub enum Abort {
    NonMemo,
    /// the summary of this one call cannot be used
    NoSummary(&'static str),
    Unsupported(String),
}
pub type R<T> = Result<T, Abort>;

fn unsup<T>(s: impl Into<String>) -> R<T> {
    Err(Abort::Unsupported(s.into()))
}

pub struct Outcome {
    pub guard: Lit,
    pub ret: Val,
    pub mem: Mem,
}

struct Region {
    base: u64,
    size: u64,
}

#[derive(Default)]
struct Space {
    r: Vec<Region>,
    next: u64,
}

impl Space {
    fn alloc(&mut self, org: u64, size: u64, align: u64) -> (u32, u64) {
        if self.next == 0 {
            self.next = org + 4096;
        }
        let al = size.max(16).next_power_of_two().min(1 << 16).max(align);
        let base = (self.next + al - 1) / al * al;
        self.next = base + size + 16;
        self.r.push(Region { base, size });
        (self.r.len() as u32 - 1, base)
    }
    fn find(&self, a: u64) -> Option<u32> {
        let i = self.r.partition_point(|r| r.base <= a);
        if i == 0 {
            return None;
        }
        let r = &self.r[i - 1];
        if a <= r.base + r.size {
            Some(i as u32 - 1)
        } else {
            None
        }
    }
    fn pop_to(&mut self, n: usize) {
        if self.r.len() > n {
            self.next = self.r[n].base;
            self.r.truncate(n);
        }
    }
}

#[derive(Clone)]
struct MemoOut {
    guard: Lit,
    ret: Val,
    sret: Option<Rc<Obj>>,
    outs: Vec<Rc<Obj>>,
    heap: Vec<(u32, Rc<Obj>)>, // allocations that outlive the call
    glob: Rc<Vec<(u32, Rc<Obj>)>>,
}

struct MemoEnt {
    out: Option<MemoOut>,
    events: Rc<Vec<Event>>,
}

/// Memory passed by reference to a summarised function: which bytes are defined.
struct Shape {
    addr: u64,
    len: u64,
    region: u32,
    parts: Vec<u8>, // n: n defined bytes, 16+n: n undefined bytes, 32 j: address of object j
}

/// Could these eight bytes hold an address on the stack?
fn may_be_stack(b: &mut Bdd, w: &[Byte]) -> bool {
    // 0x2000_0000_0000: bit 45 set and bit 44 clear
    let (hi, lo) = (w[5][5], w[5][4]);
    hi != FALSE && hi != UNDEF && lo != TRUE && w[6] == [FALSE; 8] && w[7] == [FALSE; 8] && (lo == UNDEF || !b.implies(hi, lo))
}
fn val_may_be_stack(b: &mut Bdd, v: &Val) -> bool {
    match v {
        Val::C(64, x) => *x >> 44 == 2,
        Val::B(x) if x.len() == 64 => {
            let bytes: Vec<Byte> = x.chunks(8).map(|c| c.try_into().unwrap()).collect();
            may_be_stack(b, &bytes)
        }
        Val::A(p) => p.iter().any(|x| val_may_be_stack(b, x)),
        _ => false,
    }
}
fn obj_may_be_stack(b: &mut Bdd, o: &Obj) -> bool {
    o.b.chunks(8).any(|w| w.len() == 8 && may_be_stack(b, w))
}

type MemoKey = (u32, Vec<u128>, Vec<(u32, usize)>, Vec<u8>, Lit);

pub struct Engine {
    pub m: Module,
    pub b: Bdd,
    funcs: HashMap<Rc<str>, Rc<Func>>,
    resolved: HashMap<Rc<str>, Rc<Func>>, // called name -> what is executed for it
    func_ids: u32,
    glob_addr: HashMap<Rc<str>, u64>,
    glob_defs: Vec<(Rc<str>, GlobalDef)>, // by Glob index
    consts: Space,
    const_obj: Vec<Option<Rc<Obj>>>,
    const_pending: HashMap<u32, Rc<str>>,
    globs: Space,
    glob_init: HashMap<u32, Rc<Obj>>,
    stack: Space,
    heap: Space,
    heap_live: u64,
    fn_addr: Vec<Rc<str>>,
    fn_addr_of: HashMap<Rc<str>, u64>,
    memo: HashMap<MemoKey, Rc<MemoEnt>>,
    in_progress: HashSet<MemoKey>,
    nomemo: HashSet<u32>,
    memo_depth: usize,
    intern: HashMap<Vec<Byte>, Rc<Obj>>,
    pub universe: Lit,
    cut: Lit, // what the last instruction leaves of the path condition (an invalid access ends the path)
    frozen: HashMap<u32, Rc<Obj>>, // arena objects of finished summaries
    arena: HashMap<u32, Lit>, // arena object -> condition under which it was allocated
    overrides: Vec<(Vec<String>, Rc<str>)>,
    override_of: HashMap<Rc<str>, Option<Rc<str>>>,
    pub overridden: HashSet<Rc<str>>,
    pub memo_on: bool,
    pub memo_mem: bool,
    pub events: Vec<Event>,
    pub inputs: Vec<(String, Vec<Lit>)>, // symbolic inputs in creation order
    pub split_limit: usize,
    pub enum_limit: usize,
    pub steps: u64,
    pub max_steps: u64,
    pub calls: u64,
    pub memo_hits: u64,
    pub memo_miss: u64,
    pub encoded: HashSet<Rc<str>>,
    pub stubs: HashSet<String>,
    pub stub_pats: Vec<Vec<String>>,
    depth: usize,
    pub trace: bool,
    callstack: Vec<Rc<str>>,
    err_stack: Vec<Rc<str>>,
    pub prof: BTreeMap<String, (u64, u64, u64)>,
    child_nodes: u64,
    child_ns: u64,
    profiling: bool,
    pub whyp: HashMap<(Rc<str>, u32), u64>,
    pub tprof: HashMap<Rc<str>, (u64, u64)>,
    pub nosum: BTreeMap<String, u64>,
    pub deadline: std::time::Instant,
    pub pruned: u64,
}

struct Pend {
    guard: Lit,
    mem: Mem,
    phis: Vec<Val>,
}

struct Frame {
    f: Rc<Func>,
    env: Vec<Val>,
    pend: Vec<Option<Pend>>,
    ret: Option<(Lit, Val, Mem)>,
    alloca: HashMap<(u32, u32), u64>,
    npend: usize,
}

impl Engine {
    pub fn new(m: Module) -> Self {
        Engine {
            m,
            b: Bdd::new(),
            funcs: HashMap::default(),
            resolved: HashMap::default(),
            func_ids: 0,
            glob_addr: HashMap::default(),
            glob_defs: vec![],
            consts: Space::default(),
            const_obj: vec![],
            const_pending: HashMap::default(),
            globs: Space::default(),
            glob_init: HashMap::default(),
            stack: Space::default(),
            heap: Space::default(),
            heap_live: 0,
            fn_addr: vec![],
            fn_addr_of: HashMap::default(),
            memo: HashMap::default(),
            in_progress: HashSet::default(),
            nomemo: HashSet::default(),
            memo_depth: 0,
            intern: HashMap::default(),
            universe: TRUE,
            cut: TRUE,
            frozen: HashMap::default(),
            arena: HashMap::default(),
            overrides: vec![],
            override_of: HashMap::default(),
            overridden: HashSet::default(),
            memo_on: true,
            memo_mem: std::env::var("MM").is_ok(),
            events: vec![],
            inputs: vec![],
            split_limit: 200,
            enum_limit: 4096,
            steps: 0,
            max_steps: u64::MAX,
            calls: 0,
            memo_hits: 0,
            memo_miss: 0,
            encoded: HashSet::default(),
            stubs: HashSet::default(),
            stub_pats: vec![],
            depth: 0,
            trace: std::env::var("TRACE").is_ok(),
            callstack: vec![],
            err_stack: vec![],
            prof: BTreeMap::new(),
            child_nodes: 0,
            child_ns: 0,
            whyp: HashMap::default(),
            profiling: std::env::var("PROF").is_ok(),
            tprof: HashMap::default(),
            nosum: BTreeMap::new(),
            deadline: std::time::Instant::now() + std::time::Duration::from_secs(36000),
            pruned: 0,
        }
    }

    // ---------------------------------------------------------------- globals
    fn global_addr(&mut self, n: &Rc<str>) -> R<u64> {
        if let Some(a) = self.glob_addr.get(n) {
            return Ok(*a);
        }
        if let Some(t) = self.m.aliases.get(&**n).cloned() {
            let a = self.global_addr(&Rc::from(t.as_str()))?;
            self.glob_addr.insert(n.clone(), a);
            return Ok(a);
        }
        if self.m.has_global(n) {
            let d = self.m.global(n);
            let size = d.ty.size();
            let a = if d.constant {
                let (i, a) = self.consts.alloc(CONSTS, size, 16);
                while self.const_obj.len() <= i as usize {
                    self.const_obj.push(None);
                }
                self.const_pending.insert(i, n.clone());
                a
            } else {
                let (_, a) = self.globs.alloc(GLOBS, size, 16);
                self.glob_defs.push((n.clone(), d));
                a
            };
            self.glob_addr.insert(n.clone(), a);
            return Ok(a);
        }
        // function (defined or declared)
        Ok(self.func_addr(n))
    }
    fn func_addr(&mut self, n: &Rc<str>) -> u64 {
        if let Some(a) = self.fn_addr_of.get(n) {
            return *a;
        }
        let a = FUNCS + 16 * (self.fn_addr.len() as u64 + 1);
        self.fn_addr.push(n.clone());
        self.fn_addr_of.insert(n.clone(), a);
        a
    }
    fn init_obj(&mut self, d: &GlobalDef) -> R<Rc<Obj>> {
        let mut bytes = vec![const_byte(0); d.ty.size() as usize];
        if let Some(i) = &d.init {
            let i = i.clone();
            self.fill(&mut bytes, 0, &d.ty, &i)?;
        } else {
            return unsup("external global");
        }
        Ok(Rc::new(Obj { b: bytes }))
    }
    fn fill(&mut self, out: &mut Vec<Byte>, off: usize, ty: &Ty, o: &Opnd) -> R<()> {
        match o {
            Opnd::Zero => Ok(()),
            Opnd::Bytes(b) => {
                for (i, x) in b.iter().enumerate() {
                    out[off + i] = const_byte(*x);
                }
                Ok(())
            }
            Opnd::Agg(v) => {
                for (i, (t, o)) in v.iter().enumerate() {
                    self.fill(out, off + ty.field_off(i) as usize, t, o)?;
                }
                Ok(())
            }
            Opnd::Undef => {
                for i in 0..ty.size() as usize {
                    out[off + i] = UBYTE;
                }
                Ok(())
            }
            _ => {
                let v = self.konst(ty, o)?;
                self.val_bytes(&v, ty, &mut |i, b| out[off + i] = b);
                Ok(())
            }
        }
    }
    fn const_object(&mut self, i: u32) -> R<Rc<Obj>> {
        if let Some(o) = &self.const_obj[i as usize] {
            return Ok(o.clone());
        }
        let n = self.const_pending[&i].clone();
        let d = self.m.global(&n);
        let o = self.init_obj(&d)?;
        self.const_obj[i as usize] = Some(o.clone());
        Ok(o)
    }
    fn glob_object(&mut self, mem: &Mem, i: u32) -> R<Rc<Obj>> {
        if let Some((_, o)) = mem.glob.iter().find(|(k, _)| *k == i) {
            return Ok(o.clone());
        }
        if let Some(o) = self.glob_init.get(&i) {
            return Ok(o.clone());
        }
        let (n, d) = &self.glob_defs[i as usize];
        let d2 = GlobalDef { ty: d.ty.clone(), init: d.init.clone(), constant: false, tls: d.tls };
        let _ = n;
        let o = self.init_obj(&d2)?;
        let o = self.intern_obj(o);
        self.glob_init.insert(i, o.clone());
        Ok(o)
    }
    fn intern_obj(&mut self, o: Rc<Obj>) -> Rc<Obj> {
        self.intern.entry(o.b.clone()).or_insert(o).clone()
    }
    pub fn new_const(&mut self, bytes: Vec<Byte>) -> u64 {
        let (i, a) = self.consts.alloc(CONSTS, bytes.len() as u64, 16);
        while self.const_obj.len() <= i as usize {
            self.const_obj.push(None);
        }
        self.const_obj[i as usize] = Some(Rc::new(Obj { b: bytes }));
        a
    }

    // ---------------------------------------------------------------- constants
    fn konst(&mut self, ty: &Ty, o: &Opnd) -> R<Val> {
        Ok(match o {
            Opnd::Int(v) => {
                if let Ty::Ptr | Ty::Int(_) | Ty::Float(_) = ty {
                    cval(ty.bits(), *v)
                } else {
                    return unsup("int const of aggregate type");
                }
            }
            Opnd::Global(n) => cval(64, self.global_addr(n)? as u128),
            Opnd::Undef => Val::U,
            Opnd::Zero => self.zero(ty),
            Opnd::Bytes(b) => Val::A(Rc::new(b.iter().map(|&x| cval(8, x as u128)).collect())),
            Opnd::Agg(v) => {
                let mut r = vec![];
                for (t, o) in v.iter() {
                    r.push(self.konst(t, o)?);
                }
                Val::A(Rc::new(r))
            }
            Opnd::Splat(p) => {
                let x = self.konst(&p.0, &p.1)?;
                match ty {
                    Ty::Vec(n, _) => Val::A(Rc::new(vec![x; *n as usize])),
                    _ => return unsup("splat"),
                }
            }
            Opnd::Gep(g) => {
                let (t, ops) = (&g.0, &g.1);
                let mut vals = vec![];
                for (ot, o) in ops {
                    vals.push((ot.clone(), self.konst(ot, o)?));
                }
                self.gep(t, &vals)?
            }
            Opnd::Cast(c) => {
                let v = self.konst(&c.1, &c.2)?;
                match v {
                    Val::C(_, x) => {
                        let x = if c.0 == "sext" { sext(x, c.1.bits()) } else { x };
                        cval(c.3.bits(), x)
                    }
                    v => v,
                }
            }
            Opnd::Bin(p) => {
                let x = self.konst(&p.1, &p.2)?;
                let y = self.konst(&p.1, &p.3)?;
                match (x, y) {
                    (Val::C(w, a), Val::C(_, c)) => cval(
                        w,
                        match p.0.as_str() {
                            "add" => a.wrapping_add(c),
                            "sub" => a.wrapping_sub(c),
                            "xor" => a ^ c,
                            "and" => a & c,
                            "or" => a | c,
                            "mul" => a.wrapping_mul(c),
                            _ => return unsup("const bin"),
                        },
                    ),
                    _ => return unsup("const bin"),
                }
            }
            Opnd::Meta => Val::U,
            Opnd::Reg(_) => return unsup("reg in const"),
        })
    }
    fn zero(&self, ty: &Ty) -> Val {
        if ty.is_agg() {
            let n = ty.nfields();
            Val::A(Rc::new((0..n).map(|i| self.zero(&ty.field_ty(i))).collect()))
        } else {
            cval(ty.bits(), 0)
        }
    }

    fn op(&mut self, fr: &Frame, ty: &Ty, o: &Opnd) -> R<Val> {
        match o {
            Opnd::Reg(r) => Ok(fr.env[*r as usize].clone()),
            Opnd::Int(v) if !ty.is_agg() => Ok(Val::C(ty.bits(), *v)),
            _ => self.konst(ty, o),
        }
    }

    // ---------------------------------------------------------------- memory
    fn locate(&self, a: u64) -> Option<(Class, u32, u64, u64)> {
        let (c, s) = match a >> 40 {
            0x20..=0x2f => (Class::Stack, &self.stack),
            0x30..=0x3f => (Class::Heap, &self.heap),
            0x10..=0x17 => (Class::Const, &self.consts),
            0x18..=0x1f => (Class::Glob, &self.globs),
            _ => return None,
        };
        let i = s.find(a)?;
        let r = &s.r[i as usize];
        Some((c, i, r.base, r.size))
    }
    fn read_obj(&mut self, mem: &Mem, c: Class, i: u32) -> R<Option<Rc<Obj>>> {
        Ok(match c {
            Class::Stack => mem.stack.get(i).cloned(),
            Class::Heap => match mem.heap.get(i) {
                Some(o) => Some(o.clone()),
                None => self.frozen.get(&i).cloned(),
            },
            Class::Const => Some(self.const_object(i)?),
            Class::Glob => Some(self.glob_object(mem, i)?),
        })
    }
    fn read_bytes_at(&mut self, mem: &Mem, a: u64, n: u64) -> R<Option<Vec<Byte>>> {
        if n == 0 {
            return Ok(Some(vec![]));
        }
        let Some((c, i, base, size)) = self.locate(a) else { return Ok(None) };
        if a + n > base + size {
            return Ok(None);
        }
        let Some(o) = self.read_obj(mem, c, i)? else { return Ok(None) };
        let off = (a - base) as usize;
        Ok(Some(o.b[off..off + n as usize].to_vec()))
    }
    /// write; sel = condition under which the write happens (TRUE for unconditional)
    fn write_bytes_at(&mut self, mem: &mut Mem, a: u64, bytes: &[Byte], sel: Lit) -> R<bool> {
        if bytes.is_empty() {
            return Ok(true);
        }
        let Some((c, i, base, size)) = self.locate(a) else { return Ok(false) };
        if a + bytes.len() as u64 > base + size {
            return Ok(false);
        }
        let off = (a - base) as usize;
        if c == Class::Glob {
            let o = self.glob_object(mem, i)?;
            let mut v = o.b.clone();
            self.put(&mut v, off, bytes, sel);
            let o = self.intern_obj(Rc::new(Obj { b: v }));
            let mut g: Vec<(u32, Rc<Obj>)> = (*mem.glob).clone();
            let init_same = self.glob_init.get(&i).map_or(false, |x| Rc::ptr_eq(x, &o));
            match g.iter().position(|(k, _)| *k == i) {
                Some(p) => {
                    if init_same {
                        g.remove(p);
                    } else {
                        g[p].1 = o
                    }
                }
                None => {
                    if !init_same {
                        g.push((i, o));
                        g.sort_by_key(|x| x.0);
                    }
                }
            }
            mem.glob = Rc::new(g);
            return Ok(true);
        }
        if c == Class::Heap && mem.heap.get(i).is_none() && self.frozen.contains_key(&i) {
            return unsup("write to an arena object of a finished call");
        }
        let b = &mut self.b;
        let v = match c {
            Class::Stack => mem.stack.get_mut(i),
            Class::Heap => mem.heap.get_mut(i),
            _ => return Ok(false),
        };
        let Some(v) = v else { return Ok(false) };
        if sel == TRUE {
            v[off..off + bytes.len()].copy_from_slice(bytes);
        } else {
            for (k, nb) in bytes.iter().enumerate() {
                for j in 0..8 {
                    v[off + k][j] = b.ite(sel, nb[j], v[off + k][j]);
                }
            }
        }
        Ok(true)
    }
    fn put(&mut self, v: &mut [Byte], off: usize, bytes: &[Byte], sel: Lit) {
        for (k, nb) in bytes.iter().enumerate() {
            for j in 0..8 {
                v[off + k][j] = self.b.ite(sel, nb[j], v[off + k][j]);
            }
        }
    }
    fn addrs(&mut self, a: &Val, g: Lit, what: &str) -> R<Vec<(u64, Lit)>> {
        match a {
            Val::C(_, x) => Ok(vec![(*x as u64, TRUE)]),
            Val::U => {
                if self.trace {
                    eprintln!("UNDEF pointer {:?}", self.callstack);
                }
                let k = format!("{} via an undefined pointer in {}", what, self.callstack.last().map_or(String::new(), |f| short(f)));
                self.event(EvKind::Panic(k), g, FALSE);
                Ok(vec![])
            }
            _ => match val::enumerate(&mut self.b, a, g, self.enum_limit) {
                Some(v) => Ok(v.into_iter().map(|(x, c)| (x as u64, c)).collect()),
                None => unsup(format!("{}: too many addresses", what)),
            },
        }
    }
    fn read_bytes(&mut self, mem: &Mem, a: &Val, n: u64, g: Lit) -> R<Vec<Byte>> {
        let al = self.addrs(a, g, "read")?;
        let mut acc: Option<Vec<Byte>> = None;
        for (x, c) in al {
            let Some(v) = self.read_bytes_at(mem, x, n)? else {
                let gg = self.b.and(g, c);
                if gg != FALSE {
                    if self.trace {
                        eprintln!("BADREAD {:#x} {} {:?}", x, self.memo_depth, self.callstack.iter().map(|f| short(f)).collect::<Vec<_>>());
                    }
                    self.event(EvKind::Panic(format!("invalid read of {} bytes at {:#x}", n, x)), gg, FALSE);
                    self.cut = self.b.and(self.cut, c ^ 1);
                }
                continue;
            };
            acc = Some(match acc {
                None => v,
                Some(mut o) => {
                    for k in 0..o.len() {
                        for j in 0..8 {
                            o[k][j] = self.b.ite(c, v[k][j], o[k][j]);
                        }
                    }
                    o
                }
            });
        }
        Ok(acc.unwrap_or_else(|| vec![UBYTE; n as usize]))
    }
    fn write_bytes(&mut self, mem: &mut Mem, a: &Val, bytes: &[Byte], g: Lit) -> R<()> {
        let al = self.addrs(a, g, "write")?;
        let single = al.len() == 1;
        for (x, c) in al {
            let sel = if single { TRUE } else { c };
            if !self.write_bytes_at(mem, x, bytes, sel)? {
                let gg = self.b.and(g, c);
                if gg != FALSE {
                    self.event(EvKind::Panic(format!("invalid write of {} bytes at {:#x}", bytes.len(), x)), gg, FALSE);
                    self.cut = self.b.and(self.cut, c ^ 1);
                }
            }
        }
        Ok(())
    }
    fn val_bytes(&self, v: &Val, ty: &Ty, put: &mut dyn FnMut(usize, Byte)) {
        if ty.is_agg() {
            let n = ty.nfields();
            if let Ty::Vec(_, e) = ty {
                if e.bits() % 8 != 0 {
                    // packed i1 vectors
                    let mut bits = vec![];
                    for i in 0..n {
                        let el = match v {
                            Val::A(x) => x[i].clone(),
                            _ => Val::U,
                        };
                        bits.extend(bits_of(&el, e.bits()));
                    }
                    while bits.len() % 8 != 0 {
                        bits.push(FALSE);
                    }
                    for (i, c) in bits.chunks(8).enumerate() {
                        let mut b = UBYTE;
                        b.copy_from_slice(c);
                        put(i, b);
                    }
                    return;
                }
            }
            for i in 0..n {
                let off = ty.field_off(i) as usize;
                let el = match v {
                    Val::A(x) => x[i].clone(),
                    _ => Val::U,
                };
                self.val_bytes(&el, &ty.field_ty(i), &mut |k, b| put(off + k, b));
            }
            return;
        }
        let w = ty.bits();
        let nb = ((w + 7) / 8) as usize;
        match v {
            Val::C(_, x) => {
                for k in 0..nb {
                    put(k, const_byte((x >> (8 * k)) as u8));
                }
            }
            Val::U => {
                for k in 0..nb {
                    put(k, UBYTE);
                }
            }
            Val::B(b) => {
                for k in 0..nb {
                    let mut by = [FALSE; 8];
                    for j in 0..8 {
                        if let Some(l) = b.get(8 * k + j) {
                            by[j] = *l;
                        }
                    }
                    put(k, by);
                }
            }
            Val::A(_) => panic!("agg for scalar"),
        }
    }
    fn bytes_val(&self, b: &[Byte], ty: &Ty) -> Val {
        if ty.is_agg() {
            let n = ty.nfields();
            if let Ty::Vec(_, e) = ty {
                let ew = e.bits();
                if ew % 8 != 0 {
                    let all: Vec<Lit> = b.iter().flatten().copied().collect();
                    return Val::A(Rc::new(
                        (0..n).map(|i| from_bits(all[i * ew as usize..(i + 1) * ew as usize].to_vec())).collect(),
                    ));
                }
            }
            return Val::A(Rc::new(
                (0..n)
                    .map(|i| {
                        let o = ty.field_off(i) as usize;
                        let ft = ty.field_ty(i);
                        self.bytes_val(&b[o..o + ft.store_size() as usize], &ft)
                    })
                    .collect(),
            ));
        }
        let w = ty.bits() as usize;
        // fast constant path
        let mut c = 0u128;
        let mut ok = true;
        for (k, by) in b.iter().enumerate() {
            match byte_const(by) {
                Some(x) => c |= (x as u128) << (8 * k),
                None => {
                    ok = false;
                    break;
                }
            }
        }
        if ok {
            return cval(w as u32, c);
        }
        let mut bits: Vec<Lit> = b.iter().flatten().copied().collect();
        bits.truncate(w);
        from_bits(bits)
    }

    // ---------------------------------------------------------------- events
    fn event(&mut self, kind: EvKind, g: Lit, c: Lit) {
        let kind = match kind {
            EvKind::Panic(s) => {
                let cs = self.err_stack.iter().rev().take(2).map(|s| short(s)).collect::<Vec<_>>().join(" < ");
                EvKind::Panic(format!("{} in {}", s, cs))
            }
            k => k,
        };
        self.events.push(Event { kind, g, c });
    }

    fn get_func(&mut self, n: &Rc<str>) -> Rc<Func> {
        if let Some(f) = self.funcs.get(n) {
            return f.clone();
        }
        self.func_ids += 1;
        let f = Rc::new(self.m.func(n, self.func_ids));
        self.funcs.insert(n.clone(), f.clone());
        f
    }

    // ---------------------------------------------------------------- running
    pub fn run_main(&mut self, name: &str, args: Vec<Val>) -> R<Option<Lit>> {
        let n: Rc<str> = name.into();
        let f = self.get_func(&n);
        let o = self.exec(&f, args, TRUE, Mem::default())?;
        Ok(o.map(|o| o.guard))
    }

    fn exec(&mut self, f: &Rc<Func>, args: Vec<Val>, guard: Lit, mem: Mem) -> R<Option<Outcome>> {
        self.depth += 1;
        if self.depth > 6000 {
            return unsup("recursion too deep (possible non-termination)");
        }
        self.encoded.insert(f.name.clone());
        self.callstack.push(f.name.clone());
        let sp = self.stack.r.len();
        let n0 = self.b.num_nodes() as u64;
        let ch = std::mem::take(&mut self.child_nodes);
        let tm = if self.profiling { Some((std::time::Instant::now(), std::mem::take(&mut self.child_ns))) } else { None };
        let r = self.exec_inner(f, args, guard, mem, sp);
        if let Some((t, c)) = tm {
            let d = t.elapsed().as_nanos() as u64;
            let e = self.tprof.entry(f.name.clone()).or_insert((0, 0));
            e.0 += 1;
            e.1 += d.saturating_sub(self.child_ns);
            self.child_ns = c + d;
        }
        let tot = self.b.num_nodes() as u64 - n0;
        let own = tot - self.child_nodes;
        self.child_nodes = ch + tot;
        if own > 1000 {
            self.prof.entry(f.name.to_string()).or_insert((0, 0, 0)).2 += own;
        }
        if let Err(Abort::Unsupported(_)) = &r {
            if self.err_stack.is_empty() {
                self.err_stack = self.callstack.clone();
            }
        }
        self.stack.pop_to(sp);
        self.depth -= 1;
        if r.is_ok() {
            self.callstack.pop();
        } else if self.memo_depth > 0 || self.trace {
            self.callstack.pop();
        }
        r
    }

    fn exec_inner(&mut self, f: &Rc<Func>, args: Vec<Val>, guard: Lit, mem: Mem, sp: usize) -> R<Option<Outcome>> {
        let mut env = vec![Val::U; f.nregs];
        for (i, a) in args.into_iter().enumerate() {
            if i < f.params.len() {
                env[i] = a;
            }
        }
        let mut fr = Frame {
            f: f.clone(),
            env,
            pend: (0..f.blocks.len()).map(|_| None).collect(),
            ret: None,
            alloca: HashMap::default(),
            npend: 1,
        };
        fr.pend[0] = Some(Pend { guard, mem, phis: vec![] });
        self.run_wto(&mut fr, &f.wto)?;
        Ok(fr.ret.map(|(guard, ret, mut mem)| {
            // drop this frame's stack objects
            let n = self.stack.r.len();
            for i in sp..n {
                if mem.stack.get(i as u32).is_some() {
                    mem.stack.set(i as u32, None);
                }
            }
            Outcome { guard, ret, mem }
        }))
    }

    fn run_wto(&mut self, fr: &mut Frame, w: &[Wto]) -> R<()> {
        for e in w {
            if fr.npend == 0 {
                return Ok(());
            }
            match e {
                Wto::Block(b) => {
                    if fr.pend[*b as usize].is_some() {
                        self.run_block(fr, *b)?;
                    }
                }
                Wto::Loop(l) => loop {
                    if !any_pending(fr, l) {
                        break;
                    }
                    self.run_wto(fr, l)?;
                },
            }
        }
        Ok(())
    }

    fn edge(&mut self, fr: &mut Frame, from: u32, to: u32, guard: Lit, mem: Mem) -> R<()> {
        let f = fr.f.clone();
        let blk = &f.blocks[to as usize];
        let mut vals = Vec::with_capacity(blk.phis.len());
        for p in &blk.phis {
            let o = match p.inc.iter().find(|x| x.0 == from) {
                Some(x) => &x.1,
                None => return unsup("phi without incoming"),
            };
            vals.push(self.op(fr, &p.ty, o)?);
        }
        match fr.pend[to as usize].take() {
            None => {
                fr.npend += 1;
                fr.pend[to as usize] = Some(Pend { guard, mem, phis: vals });
            }
            Some(p) => {
                let g = self.b.or(p.guard, guard);
                let sel = p.guard;
                let mut phis = Vec::with_capacity(vals.len());
                for (a, c) in p.phis.iter().zip(vals.iter()) {
                    phis.push(val::ite(&mut self.b, sel, a, c));
                }
                let mem = self.merge_mem(sel, &p.mem, &mem);
                fr.pend[to as usize] = Some(Pend { guard: g, mem, phis });
            }
        }
        Ok(())
    }

    fn merge_mem(&mut self, sel: Lit, x: &Mem, y: &Mem) -> Mem {
        let stack = Tree::merge(&mut self.b, sel, &x.stack, &y.stack);
        let heap = Tree::merge(&mut self.b, sel, &x.heap, &y.heap);
        let glob = self.merge_glob(sel, &x.glob, &y.glob);
        Mem { stack, heap, glob }
    }
    fn merge_glob(&mut self, sel: Lit, x: &Rc<Vec<(u32, Rc<Obj>)>>, y: &Rc<Vec<(u32, Rc<Obj>)>>) -> Rc<Vec<(u32, Rc<Obj>)>> {
        if Rc::ptr_eq(x, y) || sel == TRUE {
            return x.clone();
        }
        if sel == FALSE {
            return y.clone();
        }
        let mut keys: Vec<u32> = x.iter().chain(y.iter()).map(|k| k.0).collect();
        keys.sort();
        keys.dedup();
        let mut out = vec![];
        for k in keys {
            let a = x.iter().find(|e| e.0 == k).map(|e| e.1.clone()).unwrap_or_else(|| self.glob_init[&k].clone());
            let c = y.iter().find(|e| e.0 == k).map(|e| e.1.clone()).unwrap_or_else(|| self.glob_init[&k].clone());
            let o = merge_obj(&mut self.b, sel, &a, &c);
            let o = self.intern_obj(o);
            if !Rc::ptr_eq(&o, &self.glob_init[&k]) {
                out.push((k, o));
            }
        }
        Rc::new(out)
    }

    fn run_block(&mut self, fr: &mut Frame, bi: u32) -> R<()> {
        self.steps += 1;
        if self.steps & 0xff == 0 && std::time::Instant::now() > self.deadline {
            return unsup("time budget exhausted");
        }
        if self.steps > self.max_steps {
            return unsup("step limit");
        }
        let p = fr.pend[bi as usize].take().unwrap();
        fr.npend -= 1;
        let mut guard = p.guard;
        let mut mem = p.mem;
        let f = fr.f.clone();
        let blk = &f.blocks[bi as usize];
        for (ph, v) in blk.phis.iter().zip(p.phis.into_iter()) {
            fr.env[ph.dst as usize] = v;
        }
        for (dst, inst) in &blk.insts {
            let v = match inst {
                Inst::Call(c) => {
                    match self.call(fr, c, guard, mem)? {
                        None => return Ok(()), // path ends
                        Some(o) => {
                            guard = o.guard;
                            mem = o.mem;
                            if guard == FALSE {
                                return Ok(());
                            }
                            o.ret
                        }
                    }
                }
                _ => self.inst(fr, bi, *dst, inst, guard, &mut mem)?,
            };
            if *dst != u32::MAX {
                fr.env[*dst as usize] = v;
            }
            if self.cut != TRUE {
                guard = self.b.and(guard, self.cut);
                self.cut = TRUE;
                if guard == FALSE {
                    return Ok(());
                }
            }
        }
        match &blk.term {
            Term::Unreachable => {
                // reaching here: undefined behaviour or after a noreturn call
                self.event(EvKind::Panic("unreachable reached".into()), guard, FALSE);
                Ok(())
            }
            Term::Ret(t, o) => {
                let v = match o {
                    Some(o) => self.op(fr, t, o)?,
                    None => Val::U,
                };
                fr.ret = Some(match fr.ret.take() {
                    None => (guard, v, mem),
                    Some((g0, v0, m0)) => {
                        let g = self.b.or(g0, guard);
                        let sel = g0;
                        let v = val::ite(&mut self.b, sel, &v0, &v);
                        let m = self.merge_mem(sel, &m0, &mem);
                        (g, v, m)
                    }
                });
                Ok(())
            }
            Term::Br(l) | Term::Invoke(l) => self.edge(fr, bi, *l, guard, mem),
            Term::CondBr(c, a, b) => {
                let cv = self.op(fr, &Ty::Int(1), c)?;
                let l = bit(&cv, 0);
                if l == UNDEF {
                    if self.trace {
                        eprintln!("UNDEF branch in {} block {} stack {:?}", f.name, bi, self.callstack.iter().map(|x| short(x)).collect::<Vec<_>>());
                    }
                    self.event(EvKind::Panic(format!("branch on an undefined value in {}", short(&f.name))), guard, FALSE);
                    return Ok(());
                }
                if a == b {
                    return self.edge(fr, bi, *a, guard, mem);
                }
                let g1 = self.b.and(guard, l);
                let g0 = self.b.and(guard, l ^ 1);
                if g1 == FALSE {
                    self.pruned_branch(fr, *a, guard, l ^ 1);
                }
                if g0 == FALSE {
                    self.pruned_branch(fr, *b, guard, l);
                }
                if g1 != FALSE && g0 != FALSE {
                    self.edge(fr, bi, *a, g1, mem.clone())?;
                    self.edge(fr, bi, *b, g0, mem)
                } else if g1 != FALSE {
                    self.edge(fr, bi, *a, g1, mem)
                } else {
                    self.edge(fr, bi, *b, g0, mem)
                }
            }
            Term::Switch(t, o, d, cs) => {
                let v = self.op(fr, t, o)?;
                match &v {
                    Val::C(_, x) => {
                        let to = cs.iter().find(|c| c.0 == *x).map(|c| c.1).unwrap_or(*d);
                        return self.edge(fr, bi, to, guard, mem);
                    }
                    Val::U => {
                        self.event(EvKind::Panic(format!("switch on an undefined value in {}", short(&f.name))), guard, FALSE);
                        return Ok(());
                    }
                    _ => {}
                }
                let w = t.bits();
                let bits = bits_of(&v, w);
                let mut rest = guard;
                // group by target
                let mut tgt: Vec<(u32, Lit)> = vec![];
                for (k, l) in cs.iter() {
                    if rest == FALSE {
                        break;
                    }
                    let kb = bits_of(&Val::C(w, *k), w);
                    let e = val::eq(&mut self.b, &bits, &kb);
                    if e == UNDEF {
                        self.event(EvKind::Panic(format!("switch on an undefined value in {}", short(&f.name))), rest, FALSE);
                        return Ok(());
                    }
                    let g = self.b.and(rest, e);
                    if g == FALSE {
                        continue;
                    }
                    rest = self.b.and(rest, e ^ 1);
                    match tgt.iter_mut().find(|x| x.0 == *l) {
                        Some(x) => x.1 = self.b.or(x.1, g),
                        None => tgt.push((*l, g)),
                    }
                }
                if rest != FALSE {
                    match tgt.iter_mut().find(|x| x.0 == *d) {
                        Some(x) => x.1 = self.b.or(x.1, rest),
                        None => tgt.push((*d, rest)),
                    }
                }
                for (l, g) in tgt {
                    self.edge(fr, bi, l, g, mem.clone())?;
                }
                Ok(())
            }
        }
    }

    /// A branch towards a panicking block was found infeasible: record the verification condition
    /// (guard implies c) so that the SMT solver re-decides it.
    fn pruned_branch(&mut self, fr: &Frame, to: u32, g: Lit, c: Lit) {
        self.pruned += 1;
        if c <= 1 {
            return;
        }
        let blk = &fr.f.blocks[to as usize];
        let bad = match blk.insts.last() {
            Some((_, Inst::Call(ci))) => ci.noreturn,
            _ => false,
        };
        if bad || (matches!(blk.term, Term::Unreachable)) {
            self.event(EvKind::Panic("guarded panic".into()), g, c);
        }
    }

    fn gep(&mut self, t: &Ty, ops: &[(Ty, Val)]) -> R<Val> {
        let mut acc = ops[0].1.clone();
        let mut cur = t.clone();
        let mut koff: u64 = 0;
        for (k, (ot, v)) in ops[1..].iter().enumerate() {
            let esz;
            if k == 0 {
                esz = t.size();
            } else {
                match &cur {
                    Ty::Struct(..) => {
                        let i = match v {
                            Val::C(_, x) => *x as usize,
                            _ => return unsup("gep struct index"),
                        };
                        koff = koff.wrapping_add(cur.field_off(i));
                        cur = cur.field_ty(i);
                        continue;
                    }
                    _ => {
                        let e = cur.field_ty(0);
                        esz = e.size();
                        cur = e;
                    }
                }
            }
            match v {
                Val::C(w, x) => {
                    let sx = sext(*x, *w) as u64;
                    koff = koff.wrapping_add(sx.wrapping_mul(esz));
                }
                Val::U => return Ok(Val::U),
                _ => {
                    let w = ot.bits();
                    let mut bits = bits_of(v, w);
                    let s = *bits.last().unwrap();
                    while bits.len() < 64 {
                        bits.push(s);
                    }
                    bits.truncate(64);
                    let prod = self.mul_const(&bits, esz as u128);
                    let ab = bits_of(&acc, 64);
                    let (r, _) = val::add(&mut self.b, &ab, &prod, FALSE);
                    acc = from_bits(r);
                }
            }
        }
        if koff == 0 {
            return Ok(acc);
        }
        Ok(match acc {
            Val::C(w, x) => cval(w, x.wrapping_add(koff as u128)),
            Val::U => Val::U,
            _ => {
                let ab = bits_of(&acc, 64);
                let kb = bits_of(&cval(64, koff as u128), 64);
                from_bits(val::add(&mut self.b, &ab, &kb, FALSE).0)
            }
        })
    }
    fn mul_const(&mut self, x: &[Lit], k: u128) -> Vec<Lit> {
        let w = x.len();
        let mut acc = vec![FALSE; w];
        for i in 0..w.min(128) {
            if k >> i & 1 == 1 {
                let mut sh = vec![FALSE; i];
                sh.extend_from_slice(&x[..w - i]);
                acc = val::add(&mut self.b, &acc, &sh, FALSE).0;
            }
        }
        acc
    }

    fn binop(&mut self, op: BinOp, w: u32, x: &Val, y: &Val, g: Lit) -> R<Val> {
        if let (Val::C(_, a), Val::C(_, c)) = (x, y) {
            let (a, c) = (*a, *c);
            let m = mask(w);
            let r = match op {
                BinOp::Add => a.wrapping_add(c),
                BinOp::Sub => a.wrapping_sub(c),
                BinOp::Mul => a.wrapping_mul(c),
                BinOp::And => a & c,
                BinOp::Or => a | c,
                BinOp::Xor => a ^ c,
                BinOp::Shl => {
                    if c >= w as u128 {
                        return Ok(Val::U);
                    }
                    a << c
                }
                BinOp::LShr => {
                    if c >= w as u128 {
                        return Ok(Val::U);
                    }
                    a >> c
                }
                BinOp::AShr => {
                    if c >= w as u128 {
                        return Ok(Val::U);
                    }
                    ((sext(a, w) as i128) >> c) as u128
                }
                BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem => {
                    if c == 0 {
                        self.event(EvKind::Panic("division by zero".into()), g, FALSE);
                        return Ok(Val::U);
                    }
                    match op {
                        BinOp::UDiv => a / c,
                        BinOp::URem => a % c,
                        BinOp::SDiv => (sext(a, w) as i128).wrapping_div(sext(c, w) as i128) as u128,
                        _ => (sext(a, w) as i128).wrapping_rem(sext(c, w) as i128) as u128,
                    }
                }
            };
            return Ok(Val::C(w, r & m));
        }
        if let (Val::U, _) | (_, Val::U) = (x, y) {
            // x & 0, x * 0 are handled bitwise below; everything else is undefined
            if !matches!(op, BinOp::And | BinOp::Or) {
                return Ok(Val::U);
            }
        }
        let xb = bits_of(x, w);
        let yb = bits_of(y, w);
        let b = &mut self.b;
        Ok(from_bits(match op {
            BinOp::Add => val::add(b, &xb, &yb, FALSE).0,
            BinOp::Sub => val::add(b, &xb, &neg_bits(&yb), TRUE).0,
            BinOp::And => (0..w as usize).map(|i| b.and(xb[i], yb[i])).collect(),
            BinOp::Or => (0..w as usize).map(|i| b.or(xb[i], yb[i])).collect(),
            BinOp::Xor => (0..w as usize).map(|i| b.xor(xb[i], yb[i])).collect(),
            BinOp::Mul => match (x, y) {
                (_, Val::C(_, k)) => self.mul_const(&xb, *k),
                (Val::C(_, k), _) => self.mul_const(&yb, *k),
                _ => return self.enum_bin(op, w, x, y, g),
            },
            BinOp::Shl | BinOp::LShr | BinOp::AShr => match y {
                Val::C(_, k) => {
                    let k = *k as usize;
                    if k >= w as usize {
                        return Ok(Val::U);
                    }
                    shift(op, &xb, k)
                }
                _ => {
                    // barrel shifter
                    let mut cur = xb.clone();
                    let n = (32 - (w - 1).leading_zeros()) as usize;
                    for k in 0..n {
                        let amt = 1usize << k;
                        let sh = if amt < w as usize {
                            shift(op, &cur, amt)
                        } else {
                            vec![FALSE; w as usize]
                        };
                        cur = (0..w as usize).map(|i| self.b.ite(yb[k], sh[i], cur[i])).collect();
                    }
                    cur
                }
            },
            BinOp::UDiv | BinOp::URem => match y {
                Val::C(_, k) if k.is_power_of_two() => {
                    let s = k.trailing_zeros() as usize;
                    if op == BinOp::UDiv {
                        shift(BinOp::LShr, &xb, s)
                    } else {
                        (0..w as usize).map(|i| if i < s { xb[i] } else { FALSE }).collect()
                    }
                }
                _ => return self.enum_bin(op, w, x, y, g),
            },
            BinOp::SDiv | BinOp::SRem => return self.enum_bin(op, w, x, y, g),
        }))
    }
    fn enum_bin(&mut self, op: BinOp, w: u32, x: &Val, y: &Val, g: Lit) -> R<Val> {
        let xs = val::enumerate(&mut self.b, x, g, self.enum_limit);
        let ys = val::enumerate(&mut self.b, y, g, self.enum_limit);
        let (Some(xs), Some(ys)) = (xs, ys) else { return unsup("symbolic mul/div too wide") };
        let mut acc = Val::U;
        for (a, ca) in &xs {
            for (c, cc) in &ys {
                let s = self.b.and(*ca, *cc);
                let gg = self.b.and(g, s);
                if gg == FALSE {
                    continue;
                }
                let v = self.binop(op, w, &Val::C(w, *a), &Val::C(w, *c), gg)?;
                acc = match acc {
                    Val::U => v,
                    o => val::ite(&mut self.b, s, &v, &o),
                };
            }
        }
        Ok(acc)
    }

    pub fn icmp(&mut self, p: Pred, w: u32, x: &Val, y: &Val) -> Lit {
        if let (Val::C(_, a), Val::C(_, c)) = (x, y) {
            let (sa, sc) = (sext(*a, w) as i128, sext(*c, w) as i128);
            let r = match p {
                Pred::Eq => a == c,
                Pred::Ne => a != c,
                Pred::Ult => a < c,
                Pred::Ule => a <= c,
                Pred::Ugt => a > c,
                Pred::Uge => a >= c,
                Pred::Slt => sa < sc,
                Pred::Sle => sa <= sc,
                Pred::Sgt => sa > sc,
                Pred::Sge => sa >= sc,
            };
            return if r { TRUE } else { FALSE };
        }
        if let (Val::U, _) | (_, Val::U) = (x, y) {
            return UNDEF;
        }
        let mut xb = bits_of(x, w);
        let mut yb = bits_of(y, w);
        let b = &mut self.b;
        match p {
            Pred::Eq => val::eq(b, &xb, &yb),
            Pred::Ne => {
                let e = val::eq(b, &xb, &yb);
                b.not(e)
            }
            _ => {
                if matches!(p, Pred::Slt | Pred::Sle | Pred::Sgt | Pred::Sge) {
                    let n = w as usize - 1;
                    xb[n] = b.not(xb[n]);
                    yb[n] = b.not(yb[n]);
                }
                match p {
                    Pred::Ult | Pred::Slt => val::ult(b, &xb, &yb),
                    Pred::Ugt | Pred::Sgt => val::ult(b, &yb, &xb),
                    Pred::Ule | Pred::Sle => {
                        let r = val::ult(b, &yb, &xb);
                        b.not(r)
                    }
                    _ => {
                        let r = val::ult(b, &xb, &yb);
                        b.not(r)
                    }
                }
            }
        }
    }

    fn lanes(&self, v: &Val, n: usize) -> Vec<Val> {
        match v {
            Val::A(x) => x.to_vec(),
            _ => vec![Val::U; n],
        }
    }

    fn cast(&mut self, op: CastOp, t: &Ty, v: Val, t2: &Ty) -> R<Val> {
        if op == CastOp::Bit {
            let mut bytes = vec![UBYTE; t.size() as usize];
            self.val_bytes(&v, t, &mut |i, b| bytes[i] = b);
            return Ok(self.bytes_val(&bytes, t2));
        }
        if let (Ty::Vec(n, e), Ty::Vec(_, e2)) = (t, t2) {
            let l = self.lanes(&v, *n as usize);
            let mut r = vec![];
            for x in l {
                r.push(self.cast(op, e, x, e2)?);
            }
            return Ok(Val::A(Rc::new(r)));
        }
        let (w, w2) = (t.bits(), t2.bits());
        Ok(match v {
            Val::U => Val::U,
            Val::C(_, x) => match op {
                CastOp::SExt => cval(w2, sext(x, w)),
                _ => cval(w2, x),
            },
            Val::B(b) => {
                if w == w2 {
                    return Ok(Val::B(b));
                }
                let mut r = b.to_vec();
                match op {
                    CastOp::Trunc => r.truncate(w2 as usize),
                    CastOp::ZExt | CastOp::Bit => r.resize(w2 as usize, FALSE),
                    CastOp::SExt => {
                        let s = *r.last().unwrap();
                        r.resize(w2 as usize, s)
                    }
                }
                from_bits(r)
            }
            Val::A(_) => return unsup("cast agg"),
        })
    }

    fn inst(&mut self, fr: &mut Frame, bi: u32, dst: u32, inst: &Inst, g: Lit, mem: &mut Mem) -> R<Val> {
        Ok(match inst {
            Inst::Bin(op, t, a, c) => {
                let x = self.op(fr, t, a)?;
                let y = self.op(fr, t, c)?;
                if let Ty::Vec(n, e) = t {
                    let (lx, ly) = (self.lanes(&x, *n as usize), self.lanes(&y, *n as usize));
                    let mut r = vec![];
                    for i in 0..*n as usize {
                        r.push(self.binop(*op, e.bits(), &lx[i], &ly[i], g)?);
                    }
                    Val::A(Rc::new(r))
                } else {
                    self.binop(*op, t.bits(), &x, &y, g)?
                }
            }
            Inst::Icmp(p, t, a, c) => {
                let x = self.op(fr, t, a)?;
                let y = self.op(fr, t, c)?;
                if let Ty::Vec(n, e) = t {
                    let (lx, ly) = (self.lanes(&x, *n as usize), self.lanes(&y, *n as usize));
                    let mut r = vec![];
                    for i in 0..*n as usize {
                        let l = self.icmp(*p, e.bits(), &lx[i], &ly[i]);
                        r.push(from_bits(vec![l]));
                    }
                    Val::A(Rc::new(r))
                } else {
                    let l = self.icmp(*p, t.bits(), &x, &y);
                    from_bits(vec![l])
                }
            }
            Inst::Select(ct, c, a, t, d) => {
                let cv = self.op(fr, ct, c)?;
                let x = self.op(fr, t, a)?;
                let y = self.op(fr, t, d)?;
                if let Ty::Vec(n, _) = ct {
                    let (lc, lx, ly) =
                        (self.lanes(&cv, *n as usize), self.lanes(&x, *n as usize), self.lanes(&y, *n as usize));
                    let mut r = vec![];
                    for i in 0..*n as usize {
                        let l = bit(&lc[i], 0);
                        r.push(if l == UNDEF { Val::U } else { val::ite(&mut self.b, l, &lx[i], &ly[i]) });
                    }
                    Val::A(Rc::new(r))
                } else {
                    let l = bit(&cv, 0);
                    if l == UNDEF {
                        Val::U
                    } else {
                        val::ite(&mut self.b, l, &x, &y)
                    }
                }
            }
            Inst::Cast(op, t, v, t2) => {
                let x = self.op(fr, t, v)?;
                self.cast(*op, t, x, t2)?
            }
            Inst::Freeze(t, v) => {
                let x = self.op(fr, t, v)?;
                self.freeze(t, x)
            }
            Inst::Alloca(t, nt, n, al) => {
                let k = match self.op(fr, nt, n)? {
                    Val::C(_, k) => k as u64,
                    _ => return unsup("dynamic alloca"),
                };
                let size = t.size() * k;
                let a = match fr.alloca.get(&(bi, dst)) {
                    Some(a) => *a,
                    None => {
                        let (_, a) = self.stack.alloc(STACK, size, *al);
                        fr.alloca.insert((bi, dst), a);
                        a
                    }
                };
                let (_, i, _, _) = self.locate(a).unwrap();
                mem.stack.set(i, Some(Rc::new(Obj { b: vec![UBYTE; size as usize] })));
                cval(64, a as u128)
            }
            Inst::Load(t, a) => {
                let av = self.op(fr, &Ty::Ptr, a)?;
                let bytes = self.read_bytes(mem, &av, t.store_size(), g)?;
                self.bytes_val(&bytes, t)
            }
            Inst::Store(t, v, a) => {
                let x = self.op(fr, t, v)?;
                let av = self.op(fr, &Ty::Ptr, a)?;
                let mut bytes = vec![UBYTE; t.store_size() as usize];
                self.val_bytes(&x, t, &mut |i, b| bytes[i] = b);
                self.write_bytes(mem, &av, &bytes, g)?;
                Val::U
            }
            Inst::Gep(t, ops) => {
                let mut v = Vec::with_capacity(ops.len());
                for (ot, o) in ops {
                    v.push((ot.clone(), self.op(fr, ot, o)?));
                }
                self.gep(t, &v)?
            }
            Inst::ExtractV(t, v, ix) => {
                let mut x = self.op(fr, t, v)?;
                for i in ix {
                    x = match x {
                        Val::A(p) => p[*i as usize].clone(),
                        _ => Val::U,
                    };
                }
                x
            }
            Inst::InsertV(t, v, t2, e, ix) => {
                let x = self.op(fr, t, v)?;
                let y = self.op(fr, t2, e)?;
                insert_at(t, x, ix, y)
            }
            Inst::ExtractE(t, v, t2, i) => {
                let x = self.op(fr, t, v)?;
                let iv = self.op(fr, t2, i)?;
                match iv {
                    Val::C(_, k) => match x {
                        Val::A(p) => p[k as usize].clone(),
                        _ => Val::U,
                    },
                    _ => return unsup("symbolic extractelement"),
                }
            }
            Inst::InsertE(t, v, t2, e, t3, i) => {
                let x = self.op(fr, t, v)?;
                let y = self.op(fr, t2, e)?;
                match self.op(fr, t3, i)? {
                    Val::C(_, k) => insert_at(t, x, &[k as u32], y),
                    _ => return unsup("symbolic insertelement"),
                }
            }
            Inst::Shuffle(t, a, c, mt, mk) => {
                let x = self.op(fr, t, a)?;
                let y = self.op(fr, t, c)?;
                let n = t.nfields();
                let (lx, ly) = (self.lanes(&x, n), self.lanes(&y, n));
                let mv = self.op(fr, mt, mk)?;
                let ml = self.lanes(&mv, mt.nfields());
                Val::A(Rc::new(
                    ml.iter()
                        .map(|m| match m {
                            Val::C(_, k) => {
                                let k = *k as usize;
                                if k < n {
                                    lx[k].clone()
                                } else {
                                    ly[k - n].clone()
                                }
                            }
                            _ => Val::U,
                        })
                        .collect(),
                ))
            }
            Inst::Rmw(op, t, a, v) => {
                let av = self.op(fr, &Ty::Ptr, a)?;
                let x = self.op(fr, t, v)?;
                let bytes = self.read_bytes(mem, &av, t.store_size(), g)?;
                let old = self.bytes_val(&bytes, t);
                let w = t.bits();
                let new = match op.as_str() {
                    "xchg" => x,
                    "add" => self.binop(BinOp::Add, w, &old, &x, g)?,
                    "sub" => self.binop(BinOp::Sub, w, &old, &x, g)?,
                    "and" => self.binop(BinOp::And, w, &old, &x, g)?,
                    "or" => self.binop(BinOp::Or, w, &old, &x, g)?,
                    "xor" => self.binop(BinOp::Xor, w, &old, &x, g)?,
                    o => return unsup(format!("atomicrmw {}", o)),
                };
                let mut nb = vec![UBYTE; t.store_size() as usize];
                self.val_bytes(&new, t, &mut |i, b| nb[i] = b);
                self.write_bytes(mem, &av, &nb, g)?;
                old
            }
            Inst::CmpXchg(t, a, c, n) => {
                let av = self.op(fr, &Ty::Ptr, a)?;
                let cv = self.op(fr, t, c)?;
                let nv = self.op(fr, t, n)?;
                let bytes = self.read_bytes(mem, &av, t.store_size(), g)?;
                let old = self.bytes_val(&bytes, t);
                let e = self.icmp(Pred::Eq, t.bits(), &old, &cv);
                if e == UNDEF {
                    return unsup("cmpxchg undef");
                }
                let new = val::ite(&mut self.b, e, &nv, &old);
                let mut nb = vec![UBYTE; t.store_size() as usize];
                self.val_bytes(&new, t, &mut |i, b| nb[i] = b);
                self.write_bytes(mem, &av, &nb, g)?;
                Val::A(Rc::new(vec![old, from_bits(vec![e])]))
            }
            Inst::Fence => Val::U,
            Inst::Unsupported(s) => return unsup(format!("instruction {} in {}", s, fr.f.name)),
            Inst::Call(_) => unreachable!(),
        })
    }

    fn freeze(&self, t: &Ty, v: Val) -> Val {
        match v {
            Val::U => self.zero(t),
            Val::B(b) => from_bits(b.iter().map(|&l| if l == UNDEF { FALSE } else { l }).collect()),
            Val::A(p) => Val::A(Rc::new(p.iter().enumerate().map(|(i, x)| self.freeze(&t.field_ty(i), x.clone())).collect())),
            v => v,
        }
    }

    // ---------------------------------------------------------------- calls
    fn call(&mut self, fr: &mut Frame, c: &Rc<CallInst>, g: Lit, mem: Mem) -> R<Option<Outcome>> {
        let mut args = Vec::with_capacity(c.args.len());
        match &c.callee {
            Callee::Direct(n) if n.starts_with("llvm.") => {
                for (t, o, _) in &c.args {
                    args.push(if *t == Ty::Meta { Val::U } else { self.op(fr, t, o)? });
                }
                return self.intrinsic(n, c, args, g, mem);
            }
            _ => {}
        }
        for (t, o, _) in &c.args {
            args.push(if *t == Ty::Meta { Val::U } else { self.op(fr, t, o)? });
        }
        match &c.callee {
            Callee::Direct(n) => self.call_named(n, c, args, g, mem),
            Callee::Asm => {
                // black_box style empty asm
                Ok(Some(Outcome { guard: g, ret: args.into_iter().next().unwrap_or(Val::U), mem }))
            }
            Callee::Indirect(o) => {
                let p = self.op(fr, &Ty::Ptr, o)?;
                let targets = self.addrs(&p, g, "indirect call")?;
                let mut acc: Option<Outcome> = None;
                for (a, cnd) in targets {
                    let gg = self.b.and(g, cnd);
                    if gg == FALSE {
                        continue;
                    }
                    let idx = (a.wrapping_sub(FUNCS) / 16) as usize;
                    if a < FUNCS || idx == 0 || idx > self.fn_addr.len() {
                        self.event(EvKind::Panic(format!("call of invalid function pointer {:#x}", a)), gg, FALSE);
                        continue;
                    }
                    let n = self.fn_addr[idx - 1].clone();
                    if let Some(o) = self.call_named(&n, c, args.clone(), gg, mem.clone())? {
                        acc = Some(match acc {
                            None => o,
                            Some(p) => {
                                let ng = self.b.or(p.guard, o.guard);
                                let sel = p.guard;
                                let ret = val::ite(&mut self.b, sel, &p.ret, &o.ret);
                                let m = self.merge_mem(sel, &p.mem, &o.mem);
                                Outcome { guard: ng, ret, mem: m }
                            }
                        });
                    }
                }
                Ok(acc)
            }
        }
    }

    fn call_named(&mut self, n: &Rc<str>, c: &Rc<CallInst>, args: Vec<Val>, g: Lit, mem: Mem) -> R<Option<Outcome>> {
        self.calls += 1;
        if c.noreturn {
            self.event(EvKind::Panic(short(n)), g, FALSE);
            return Ok(None);
        }
        if let Some(f) = self.resolved.get(n) {
            let f = f.clone();
            return self.call_func(&f, args, g, mem);
        }
        let mut mem = mem;
        if let Some(o) = self.builtin(n, &args, g, &mut mem)? {
            return Ok(o.map(|(guard, ret)| Outcome { guard, ret, mem }));
        }
        let real: Rc<str> = match self.m.aliases.get(&**n) {
            Some(t) => t.as_str().into(),
            None => n.clone(),
        };
        if !self.m.has_func(&real) {
            return unsup(format!("external function {}", n));
        }
        if self.m.func_noreturn(&real) {
            self.event(EvKind::Panic(short(n)), g, FALSE);
            return Ok(None);
        }
        if self.is_stub(&real) {
            return Ok(Some(Outcome { guard: g, ret: Val::U, mem }));
        }
        let real = match self.override_for(&real) {
            Some(o) => o,
            None => real,
        };
        let f = self.get_func(&real);
        self.resolved.insert(n.clone(), f.clone());
        self.call_func(&f, args, g, mem)
    }

    fn call_func(&mut self, f: &Rc<Func>, args: Vec<Val>, g: Lit, mem: Mem) -> R<Option<Outcome>> {
        if self.memo_on && !self.nomemo.contains(&f.uid) {
            match self.try_memo(f, &args, g, &mem)? {
                Some(r) => return Ok(r),
                None => {}
            }
        }
        self.exec(f, args, g, mem)
    }

    /// `pats` (all contained in the symbol) is replaced by the harness function `by`.
    pub fn add_override(&mut self, pats: &[&str], by: &str) {
        self.overrides.push((pats.iter().map(|s| s.to_string()).collect(), by.into()));
    }
    fn override_for(&mut self, n: &Rc<str>) -> Option<Rc<str>> {
        if let Some(o) = self.override_of.get(n) {
            return o.clone();
        }
        let r = self.overrides.iter().find(|(p, by)| p.iter().all(|s| n.contains(s.as_str())) && **by != **n && self.m.has_func(by)).map(|x| x.1.clone());
        if r.is_some() {
            self.overridden.insert(n.clone());
        }
        self.override_of.insert(n.clone(), r.clone());
        r
    }

    fn is_stub(&mut self, n: &str) -> bool {
        for p in &self.stub_pats {
            if p.iter().all(|s| n.contains(s.as_str())) {
                self.stubs.insert(n.to_string());
                return true;
            }
        }
        false
    }

    fn memoable_ptr(&self, a: u64) -> bool {
        // immutable, function or dangling pointers only
        match self.locate(a) {
            Some((Class::Const, ..)) => true,
            Some((Class::Heap, i, ..)) => self.frozen.contains_key(&i),
            Some(_) => false,
            None => true,
        }
    }

    /// Is this an address of at least `n` bytes?
    fn refers(&self, a: u64, n: u64) -> bool {
        match self.locate(a) {
            Some((_, _, base, size)) => a + n <= base + size,
            None => false,
        }
    }

    /// Ok(None): not applicable, execute inline.
    fn try_memo(&mut self, f: &Rc<Func>, args: &[Val], g: Lit, mem: &Mem) -> R<Option<Option<Outcome>>> {
        let first = if f.params.first().map_or(false, |p| p.1.is_some()) { 1 } else { 0 };
        if args.len() != f.params.len() {
            { self.why(f, 1); return Ok(None) };
        }
        // what has to be concrete: arguments, and the contents of memory passed by reference
        let mut comps: Vec<(Val, bool, u64)> = vec![]; // (value, pointer check, bytes it must refer to)
        let mut objs: Vec<Shape> = vec![];
        let mut argref: Vec<Option<usize>> = vec![];
        for (i, a) in args.iter().enumerate().skip(first) {
            match a {
                Val::C(64, x) if f.params[i].0 == Ty::Ptr && !self.memoable_ptr(*x as u64) => {
                    let pa = f.pattr[i];
                    if !self.memo_mem || pa.deref == 0 || pa.deref > 256 {
                        { self.why(f, 2); return Ok(None) };
                    }
                    match self.shape_obj(&mut objs, *x as u64, pa.deref, true) {
                        Some(j) => argref.push(Some(j)),
                        None => { self.why(f, 3); return Ok(None) },
                    }
                }
                Val::A(_) | Val::U => { self.why(f, 4); return Ok(None) },
                _ => {
                    argref.push(None);
                    comps.push((a.clone(), f.params[i].0 == Ty::Ptr, f.pattr[i].deref))
                }
            }
        }
        let mut j = 0;
        while j < objs.len() {
            let Some(b) = self.read_bytes_at(mem, objs[j].addr, objs[j].len)? else { { self.why(f, 5); return Ok(None) } };
            let mut parts = vec![];
            let mut k = 0;
            while k < b.len() {
                let n = 8.min(b.len() - k);
                let w = &b[k..k + n];
                let undef = w.iter().flatten().filter(|&&l| l == UNDEF).count();
                if undef == 0 {
                    let bits: Vec<Lit> = w.iter().flatten().copied().collect();
                    let v = from_bits(bits);
                    match v {
                        Val::C(64, x) if !self.memoable_ptr(x as u64) => {
                            let Some((Class::Stack, _, base, size)) = self.locate(x as u64) else { { self.why(f, 6); return Ok(None) } };
                            let left = base + size - x as u64;
                            if left == 0 || left > 256 {
                                { self.why(f, 7); return Ok(None) };
                            }
                            let Some(t) = self.shape_obj(&mut objs, x as u64, left, false) else { { self.why(f, 8); return Ok(None) } };
                            parts.push(32);
                            parts.push(t as u8);
                        }
                        v => {
                            comps.push((v, true, 0));
                            parts.push(n as u8);
                        }
                    }
                } else if undef == n * 8 {
                    parts.push(16 + n as u8);
                } else {
                    for y in w {
                        let u = y.iter().filter(|&&l| l == UNDEF).count();
                        if u == 0 {
                            comps.push((from_bits(y.to_vec()), false, 0));
                            parts.push(1);
                        } else if u == 8 {
                            parts.push(17);
                        } else {
                            { self.why(f, 9); return Ok(None) };
                        }
                    }
                }
                k += n;
            }
            objs[j].parts = parts;
            j += 1;
        }
        // enumerate
        let mut combos: Vec<(Vec<u128>, Lit)> = vec![(vec![], TRUE)];
        for (a, isp, _) in &comps {
            if let Val::C(_, x) = a {
                if *isp && !self.memoable_ptr(*x as u64) {
                    { self.why(f, 10); return Ok(None) };
                }
                for c in &mut combos {
                    c.0.push(*x);
                }
                continue;
            }
            let mut nx = vec![];
            for (v, c) in &combos {
                let gg = self.b.and(g, *c);
                let Some(e) = val::enumerate(&mut self.b, a, gg, self.split_limit) else { { self.why(f, 11); return Ok(None) } };
                for (x, cx) in e {
                    if *isp && !self.memoable_ptr(x as u64) {
                        { self.why(f, 12); return Ok(None) };
                    }
                    let cc = self.b.and(*c, cx);
                    let mut v2 = v.clone();
                    v2.push(x);
                    nx.push((v2, cc));
                }
                if nx.len() > self.split_limit {
                    { self.why(f, 13); return Ok(None) };
                }
            }
            combos = nx;
        }
        let gsig: Vec<(u32, usize)> = mem.glob.iter().map(|(i, o)| (*i, Rc::as_ptr(o) as usize)).collect();
        let mut shp: Vec<u8> = objs.iter().flat_map(|s| s.parts.iter().copied().chain([255])).collect();
        shp.extend(argref.iter().map(|r| r.map_or(255, |x| x as u8)));
        let mut ents = vec![];
        let isps: Vec<(bool, u64)> = comps.iter().map(|x| (x.1, x.2)).collect();
        for (v, c) in combos {
            // arguments that refer to arena objects exist only where those were allocated
            let gc = self.b.and(g, c);
            let mut birth = self.universe;
            if let Some((x, _)) = v.iter().zip(isps.iter()).find(|(x, (_, n))| *n > 0 && !self.refers(**x as u64, *n)) {
                if gc != FALSE {
                    self.event(EvKind::Panic(format!("invalid reference {:#x} passed to {}", x, short(&f.name))), gc, FALSE);
                }
                continue;
            }
            for (x, (d, _)) in v.iter().zip(isps.iter()) {
                if *d {
                    if let Some((Class::Heap, i, ..)) = self.locate(*x as u64) {
                        if let Some(&l) = self.arena.get(&i) {
                            // (a pointer that is not to be followed may be a stale one)
                            if self.b.implies(gc, l) {
                                birth = self.b.and(birth, l);
                            }
                        }
                    }
                }
            }
            if birth != self.universe {
                // what belongs to a node is looked at where the node is, nowhere else
                birth = gc;
            }
            let key: MemoKey = (f.uid, v, gsig.clone(), shp.clone(), birth);
            let e = match self.memo.get(&key) {
                Some(e) => {
                    self.memo_hits += 1;
                    e.clone()
                }
                None => {
                    if self.in_progress.contains(&key) {
                        let gg = self.b.and(g, c);
                        self.event(EvKind::Panic(format!("unbounded recursion in {}", short(&f.name))), gg, FALSE);
                        continue;
                    }
                    match self.compute_memo(f, &key, first, &objs, &argref, mem) {
                        Ok(e) => e,
                        Err(Abort::NoSummary(why)) => {
                            self.nomemo.insert(f.uid);
                            *self.nosum.entry(format!("{} {}", short(&f.name), why)).or_insert(0) += 1;
                            { self.why(f, 14); return Ok(None) };
                        }
                        Err(Abort::NonMemo) => {
                            self.nomemo.insert(f.uid);
                            if self.memo_depth > 0 {
                                return Err(Abort::NonMemo);
                            }
                            { self.why(f, 15); return Ok(None) };
                        }
                        Err(e) => return Err(e),
                    }
                }
            };
            ents.push((e, c));
        }
        // combine
        let single = ents.len() == 1;
        let mut acc: Option<MemoOut> = None;
        for (e, c) in &ents {
            if !single {
                let gg = self.b.and(g, *c);
                if gg == FALSE {
                    continue;
                }
            }
            let Some(o) = &e.out else { continue };
            let cg = self.b.and(*c, o.guard);
            acc = Some(match acc {
                None => MemoOut { guard: cg, ..o.clone() },
                Some(a) => {
                    let guard = self.b.or(a.guard, cg);
                    let ret = val::ite(&mut self.b, *c, &o.ret, &a.ret);
                    let sret = match (&o.sret, &a.sret) {
                        (Some(x), Some(y)) => Some(merge_obj(&mut self.b, *c, x, y)),
                        _ => None,
                    };
                    let outs = o.outs.iter().zip(a.outs.iter()).map(|(x, y)| merge_obj(&mut self.b, *c, x, y)).collect();
                    let glob = self.merge_glob(*c, &o.glob, &a.glob);
                    MemoOut { guard, ret, sret, outs, glob, heap: vec![] }
                }
            });
        }
        // events of the summaries are recorded once, under their own (universe) guards; re-guard them
        for (e, c) in &ents {
            for ev in e.events.iter() {
                if ev.c != FALSE {
                    // a side condition that already holds everywhere: nothing more to record
                    continue;
                }
                let a = self.b.and(g, *c);
                let gg = self.b.and(a, ev.g);
                if gg != FALSE {
                    self.events.push(Event { kind: ev.kind.clone(), g: gg, c: FALSE });
                }
            }
        }
        let Some(o) = acc else { return Ok(Some(None)) };
        for (e, _) in &ents {
            if let Some(x) = &e.out {
                if x.heap.iter().any(|(i, _)| mem.heap.get(*i).is_some()) {
                    // the summary's own allocations are still alive from an earlier call
                    { self.why(f, 16); return Ok(None) };
                }
            }
        }
        let ng = self.b.and(g, o.guard);
        if ng == FALSE {
            return Ok(Some(None));
        }
        let mut m2 = mem.clone();
        m2.glob = o.glob;
        for (e, c) in &ents {
            if let Some(x) = &e.out {
                for (i, ob) in &x.heap {
                    // two cases may share an allocation (made by a summary both used)
                    let ob = match m2.heap.get(*i).cloned() {
                        Some(old) => merge_obj(&mut self.b, *c, ob, &old),
                        None => ob.clone(),
                    };
                    m2.heap.set(*i, Some(ob));
                }
            }
        }
        if first == 1 {
            if let Some(x) = o.sret {
                self.write_bytes(&mut m2, &args[0], &x.b, ng)?;
            }
        }
        for (s, x) in objs.iter().zip(o.outs.iter()) {
            let Some(old) = self.read_bytes_at(mem, s.addr, s.len)? else { continue };
            let mut new = x.b.clone();
            let mut off = 0;
            let mut ps = s.parts.iter();
            while let Some(&p) = ps.next() {
                if p == 32 {
                    ps.next();
                    new[off..off + 8].copy_from_slice(&old[off..off + 8]);
                    off += 8;
                } else {
                    off += (p & 15) as usize;
                }
            }
            if old != new {
                self.write_bytes_at(&mut m2, s.addr, &new, TRUE)?;
            }
        }
        Ok(Some(Some(Outcome { guard: ng, ret: o.ret, mem: m2 })))
    }

    /// The allocations that the caller can still reach through the result.
    fn reachable<'a>(&mut self, heap: Vec<(u32, Rc<Obj>)>, ret: &Val, outs: impl Iterator<Item = &'a Rc<Obj>>, g: Lit) -> Vec<(u32, Rc<Obj>)> {
        if heap.is_empty() {
            return heap;
        }
        let mut words: Vec<Val> = vec![];
        fn vals(v: &Val, w: &mut Vec<Val>) {
            match v {
                Val::A(p) => p.iter().for_each(|x| vals(x, w)),
                Val::C(64, _) => w.push(v.clone()),
                Val::B(b) if b.len() == 64 => w.push(v.clone()),
                Val::C(128, x) => w.extend([cval(64, *x), cval(64, *x >> 64)]),
                Val::B(b) if b.len() == 128 => w.extend([from_bits(b[..64].to_vec()), from_bits(b[64..].to_vec())]),
                _ => {}
            }
        }
        fn words_of(o: &Obj, w: &mut Vec<Val>) {
            for c in o.b.chunks_exact(8) {
                if c[5][5] != FALSE && c[5][4] != FALSE {
                    let bits: Vec<Lit> = c.iter().flatten().map(|&l| if l == UNDEF { FALSE } else { l }).collect();
                    // a partly undefined word is not a valid address
                    if c.iter().flatten().all(|&l| l != UNDEF) {
                        w.push(from_bits(bits));
                    }
                }
            }
        }
        vals(ret, &mut words);
        for o in outs {
            words_of(o, &mut words);
        }
        let all: HashMap<u32, Rc<Obj>> = heap.iter().cloned().collect();
        let mut keep: HashSet<u32> = HashSet::default();
        while let Some(w) = words.pop() {
            match &w {
                Val::C(_, x) if *x >> 44 != 3 => continue,
                Val::B(b) if b[44] == FALSE || b[45] == FALSE || b[46] == TRUE || b[47] == TRUE => continue,
                _ => {}
            }
            match val::enumerate(&mut self.b, &w, g, 1024) {
                Some(v) => {
                    for (x, _) in v {
                        if let Some((Class::Heap, i, ..)) = self.locate(x as u64) {
                            if all.contains_key(&i) && keep.insert(i) {
                                words_of(&all[&i], &mut words);
                            }
                        }
                    }
                }
                None => return heap,
            }
        }
        heap.into_iter().filter(|(i, _)| keep.contains(i)).collect()
    }

    fn why(&mut self, f: &Rc<Func>, n: u32) {
        if self.profiling {
            *self.whyp.entry((f.name.clone(), n)).or_insert(0) += 1;
        }
    }

    fn shape_obj(&self, objs: &mut Vec<Shape>, addr: u64, len: u64, arg: bool) -> Option<usize> {
        let (c, region, base, size) = self.locate(addr)?;
        if c != Class::Stack && !(arg && c == Class::Heap) {
            return None;
        }
        if addr + len > base + size || objs.len() > 20 {
            return None;
        }
        if let Some(j) = objs.iter().position(|o| o.region == region) {
            return if objs[j].addr == addr && objs[j].len >= len { Some(j) } else { None };
        }
        objs.push(Shape { addr, len, region, parts: vec![] });
        Some(objs.len() - 1)
    }

    /// An object after the call, with addresses of passed objects translated back to the key's
    /// numbering; None if another stack address may be stored in it.
    fn unslot(&mut self, ob: Rc<Obj>, objs: &[Shape], slots: &[(u32, u64)], k: usize) -> Option<Rc<Obj>> {
        let mut v: Option<Vec<Byte>> = None;
        let mut off = 0;
        let mut refs = HashMap::default();
        let mut ps = objs[k].parts.iter();
        while let Some(&p) = ps.next() {
            if p == 32 {
                refs.insert(off, *ps.next().unwrap() as usize);
                off += 8;
            } else {
                off += (p & 15) as usize;
            }
        }
        for (i, w) in ob.b.chunks(8).enumerate() {
            if w.len() == 8 && may_be_stack(&mut self.b, w) {
                let j = *refs.get(&(i * 8))?;
                let want: Vec<Byte> = (0..8).map(|b| const_byte((slots[j].1 >> (8 * b)) as u8)).collect();
                if w != &want[..] {
                    return None;
                }
                // unchanged reference: marked by undefined bytes, kept by the caller
                v.get_or_insert_with(|| ob.b.clone())[i * 8..i * 8 + 8].copy_from_slice(&[UBYTE; 8]);
            }
        }
        Some(match v {
            Some(b) => Rc::new(Obj { b }),
            None => ob,
        })
    }

    fn compute_memo(&mut self, f: &Rc<Func>, key: &MemoKey, first: usize, objs: &[Shape], argref: &[Option<usize>], mem: &Mem) -> R<Rc<MemoEnt>> {
        self.memo_miss += 1;
        self.in_progress.insert(key.clone());
        self.memo_depth += 1;
        let ev0 = self.events.len();
        let sp = self.stack.r.len();
        let cs = self.callstack.len();
        let dp = self.depth;
        let mut args = vec![];
        let mut m = Mem { stack: Tree::default(), heap: Tree::default(), glob: mem.glob.clone() };
        let mut sret_idx = None;
        if first == 1 {
            let ty = f.params[0].1.clone().unwrap();
            let size = ty.size();
            let (i, a) = self.stack.alloc(STACK, size, 16);
            m.stack.set(i, Some(Rc::new(Obj { b: vec![UBYTE; size as usize] })));
            sret_idx = Some(i);
            args.push(cval(64, a as u128));
        }
        let mut vals = key.1.iter();
        let slots: Vec<(u32, u64)> = objs.iter().map(|o| self.stack.alloc(STACK, o.len, 16)).collect();
        for k in first..f.params.len() {
            match argref[k - first] {
                Some(j) => args.push(cval(64, slots[j].1 as u128)),
                None => args.push(cval(f.params[k].0.bits(), *vals.next().unwrap())),
            }
        }
        for (o, (i, _)) in objs.iter().zip(slots.iter()) {
            let mut bytes: Vec<Byte> = vec![];
            let mut ps = o.parts.iter();
            while let Some(&p) = ps.next() {
                if p == 32 {
                    let x = slots[*ps.next().unwrap() as usize].1;
                    bytes.extend((0..8).map(|i| const_byte((x >> (8 * i)) as u8)));
                } else if p >= 16 {
                    bytes.extend((16..p).map(|_| UBYTE));
                } else {
                    let x = *vals.next().unwrap();
                    bytes.extend((0..p).map(|i| const_byte((x >> (8 * i)) as u8)));
                }
            }
            m.stack.set(*i, Some(Rc::new(Obj { b: bytes })));
        }
        let t0 = self.steps;
        let r = self.exec(f, args, key.4, m);
        self.stack.pop_to(sp);
        self.memo_depth -= 1;
        self.in_progress.remove(key);
        let evs: Vec<Event> = self.events.drain(ev0..).collect();
        match r {
            Err(e) => {
                self.depth = dp;
                if let Abort::NonMemo = e {
                    self.callstack.truncate(cs);
                }
                Err(e)
            }
            Ok(o) => {
                // side conditions (decided valid by the simplifier) are kept for the SMT pass
                for e in &evs {
                    if e.c != FALSE {
                        self.events.push(e.clone());
                    }
                }
                let p = self.prof.entry(f.name.to_string()).or_insert((0, 0, 0));
                p.0 += 1;
                p.1 += self.steps - t0;
                let out = match o {
                    None => None,
                    Some(o) => {
                        let mut live = vec![];
                        o.mem.heap.each(&mut |i, ob| live.push((i, ob.clone())));
                        let mut heap = vec![];
                        if live.iter().any(|(_, ob)| obj_may_be_stack(&mut self.b, ob)) {
                            return Err(Abort::NoSummary("reference to the stack in an allocation"));
                        }
                        for (i, ob) in live {
                            if self.arena.contains_key(&i) {
                                self.frozen.insert(i, ob);
                            } else {
                                heap.push((i, ob));
                            }
                        }
                        let sret = sret_idx.map(|i| o.mem.stack.get(i).unwrap().clone());
                        let mut outs = vec![];
                        for (k, (i, _)) in slots.iter().enumerate() {
                            let ob = o.mem.stack.get(*i).unwrap().clone();
                            // references to the passed objects are translated back
                            outs.push(self.unslot(ob, objs, &slots, k));
                        }
                        if sret.as_ref().map_or(false, |x: &Rc<Obj>| obj_may_be_stack(&mut self.b, x)) || outs.iter().any(|x| x.is_none()) || val_may_be_stack(&mut self.b, &o.ret) {
                            return Err(Abort::NoSummary("reference to the stack in the result"));
                        }
                        let outs: Vec<Rc<Obj>> = outs.into_iter().flatten().collect();
                        let heap = self.reachable(heap, &o.ret, sret.iter().chain(outs.iter()).chain(o.mem.glob.iter().map(|x| &x.1)), o.guard);
                        Some(MemoOut { guard: o.guard, ret: o.ret, sret, outs, glob: o.mem.glob, heap })
                    }
                };
                let bad: Vec<Event> = evs.into_iter().filter(|e| e.c == FALSE).collect();
                let e = Rc::new(MemoEnt { out, events: Rc::new(bad) });
                self.memo.insert(key.clone(), e.clone());
                Ok(e)
            }
        }
    }

    // ---------------------------------------------------------------- builtins
    fn heap_alloc(&mut self, mem: &mut Mem, size: u64, align: u64, zero: bool) -> R<u64> {
        if size > 1 << 24 {
            return unsup("huge allocation");
        }
        let (i, a) = self.heap.alloc(HEAP, size, align.max(16));
        self.heap_live += 1;
        let fill = if zero { const_byte(0) } else { UBYTE };
        mem.heap.set(i, Some(Rc::new(Obj { b: vec![fill; size as usize] })));
        Ok(a)
    }
    fn conc(&mut self, v: &Val, g: Lit, what: &str) -> R<u64> {
        match v {
            Val::C(_, x) => Ok(*x as u64),
            Val::U => unsup(format!("undef {}", what)),
            v => {
                let e = val::enumerate(&mut self.b, v, g, 64);
                match e {
                    Some(e) if e.len() == 1 => Ok(e[0].0 as u64),
                    Some(e) => {
                        // over-approximate sizes by the maximum
                        Ok(e.iter().map(|x| x.0).max().unwrap() as u64)
                    }
                    None => unsup(format!("symbolic {}", what)),
                }
            }
        }
    }
    fn dealloc(&mut self, mem: &mut Mem, p: &Val, g: Lit) -> R<()> {
        let al = self.addrs(p, g, "dealloc")?;
        if al.len() == 1 {
            if let Some((Class::Heap, i, base, _)) = self.locate(al[0].0) {
                if base == al[0].0 {
                    if mem.heap.get(i).is_none() {
                        if self.frozen.contains_key(&i) {
                            return unsup("deallocation of an arena object");
                        }
                        self.event(EvKind::Panic("invalid free".into()), g, FALSE);
                    }
                    mem.heap.set(i, None);
                }
            }
        }
        Ok(())
    }

    fn copy(&mut self, mem: &mut Mem, d: &Val, s: &Val, n: &Val, g: Lit) -> R<()> {
        let ns = match n {
            Val::C(_, x) => vec![(*x as u64, TRUE)],
            Val::U => return unsup("memcpy undef length"),
            _ => match val::enumerate(&mut self.b, n, g, 512) {
                Some(v) => v.into_iter().map(|(x, c)| (x as u64, c)).collect(),
                None => return unsup("memcpy: too many lengths"),
            },
        };
        let single = ns.len() == 1;
        let mut plan = vec![];
        for (k, c) in ns {
            if k == 0 {
                continue;
            }
            if k > 1 << 24 {
                return unsup("memcpy length");
            }
            let gg = if single { g } else { self.b.and(g, c) };
            if gg == FALSE {
                continue;
            }
            let bytes = self.read_bytes(mem, s, k, gg)?;
            plan.push((bytes, c, gg));
        }
        for (bytes, c, gg) in plan {
            if single {
                self.write_bytes(mem, d, &bytes, gg)?;
            } else {
                let al = self.addrs(d, gg, "memcpy")?;
                for (x, ca) in al {
                    let sel = self.b.and(c, ca);
                    if !self.write_bytes_at(mem, x, &bytes, sel)? {
                        let ge = self.b.and(gg, ca);
                        if ge != FALSE {
                            self.event(EvKind::Panic("invalid memcpy write".into()), ge, FALSE);
                        }
                    }
                }
            }
        }
        Ok(())
    }

    fn sym_input(&mut self, what: String, nbits: usize) -> Vec<Lit> {
        // most significant bit first in the order
        let mut bits = vec![FALSE; nbits];
        for i in (0..nbits).rev() {
            bits[i] = self.b.new_var();
        }
        self.inputs.push((what, bits.clone()));
        bits
    }

    #[allow(clippy::type_complexity)]
    fn builtin(&mut self, n: &str, a: &[Val], g: Lit, mem: &mut Mem) -> R<Option<Option<(Lit, Val)>>> {
        let ok = |v: Val| Ok(Some(Some((g, v))));
        if n.starts_with("vh_") {
            match n {
                "vh_sym" => {
                    let w = self.conc(&a[0], g, "width")? as usize;
                    if self.memo_depth > 0 {
                        return Err(Abort::NonMemo);
                    }
                    let bits = self.sym_input(format!("sym{}", w), w);
                    let mut b64 = bits;
                    b64.resize(64, FALSE);
                    return ok(from_bits(b64));
                }
                "vh_assume" => {
                    let l = bit(&a[0], 0);
                    if self.memo_depth > 0 {
                        return Err(Abort::NonMemo);
                    }
                    let ng = self.b.and(g, l);
                    if ng == FALSE {
                        return Ok(Some(None));
                    }
                    return Ok(Some(Some((ng, Val::U))));
                }
                "vh_universe" => {
                    self.universe = g;
                    self.memo.clear();
                    return ok(Val::U);
                }
                "vh_assert" => {
                    if self.memo_depth > 0 {
                        return Err(Abort::NonMemo);
                    }
                    let l = bit(&a[0], 0);
                    let id = self.conc(&a[1], g, "id")? as u32;
                    if l == UNDEF {
                        return unsup("assert on undef");
                    }
                    self.event(EvKind::Assert(id), g, l);
                    return ok(Val::U);
                }
                "vh_cover" => {
                    if self.memo_depth > 0 {
                        return Err(Abort::NonMemo);
                    }
                    let l = bit(&a[0], 0);
                    let id = self.conc(&a[1], g, "id")? as u32;
                    self.event(EvKind::Cover(id), g, self.b.not(l));
                    return ok(Val::U);
                }
                "vh_const" => {
                    // immutable snapshot of (ptr, len)
                    if self.memo_depth > 0 {
                        return Err(Abort::NonMemo);
                    }
                    let len = self.conc(&a[1], g, "len")?;
                    let bytes = self.read_bytes(mem, &a[0], len, g)?;
                    let p = self.new_const(bytes);
                    return ok(cval(64, p as u128));
                }
                "vh_arena_alloc" => {
                    let s = self.conc(&a[0], g, "alloc size")?;
                    let al = self.conc(&a[1], g, "align")?;
                    let p = self.heap_alloc(mem, s, al, false)?;
                    if let Some((_, i, ..)) = self.locate(p) {
                        self.arena.insert(i, g);
                    }
                    return ok(cval(64, p as u128));
                }
                "vh_split" => {
                    // value unchanged; marks intent only
                    return ok(a[0].clone());
                }
                "vh_dump" => {
                    let tag = self.conc(&a[1], g, "tag")?;
                    let e = val::enumerate(&mut self.b, &a[0], g, 64);
                    eprintln!("DUMP {} {:?}", tag, e.map(|v| v.into_iter().map(|x| x.0).collect::<Vec<_>>()));
                    return ok(Val::U);
                }
                _ => {
                    if !self.m.has_func(n) {
                        return unsup(format!("unknown hook {}", n));
                    }
                    return Ok(None);
                }
            }
        }
        let alloc_name = if n.len() > 12 && n.contains("rust") { alloc_kind(n) } else { None };
        match alloc_name.unwrap_or(n) {
            "__rust_no_alloc_shim_is_unstable_v2" => ok(Val::U),
            "__rust_alloc" => {
                let s = self.conc(&a[0], g, "alloc size")?;
                let al = self.conc(&a[1], g, "align")?;
                let p = self.heap_alloc(mem, s, al, false)?;
                ok(cval(64, p as u128))
            }
            "__rust_alloc_zeroed" => {
                let s = self.conc(&a[0], g, "alloc size")?;
                let al = self.conc(&a[1], g, "align")?;
                let p = self.heap_alloc(mem, s, al, true)?;
                ok(cval(64, p as u128))
            }
            "__rust_dealloc" => {
                self.dealloc(mem, &a[0], g)?;
                ok(Val::U)
            }
            "__rust_realloc" => {
                // (ptr, old_size, align, new_size)
                let ns = self.conc(&a[3], g, "alloc size")?;
                let al = self.conc(&a[2], g, "align")?;
                let p = self.heap_alloc(mem, ns, al, false)?;
                let pv = cval(64, p as u128);
                let ol = val::enumerate(&mut self.b, &a[1], g, 64);
                let Some(ol) = ol else { return unsup("realloc old size") };
                let mx = ol.iter().map(|x| x.0).min().unwrap_or(0) as u64;
                let same = ol.len() == 1;
                let len = if same { cval(64, mx.min(ns) as u128) } else { a[1].clone() };
                self.copy(mem, &pv, &a[0], &len, g)?;
                self.dealloc(mem, &a[0], g)?;
                ok(pv)
            }
            "memcpy" | "memmove" => {
                self.copy(mem, &a[0], &a[1], &a[2], g)?;
                ok(a[0].clone())
            }
            "bcmp" | "memcmp" => {
                let r = self.memcmp(mem, &a[0], &a[1], &a[2], g, n == "bcmp")?;
                ok(r)
            }
            "rust_eh_personality" => ok(Val::U),
            _ => Ok(None),
        }
    }

    fn memcmp(&mut self, mem: &Mem, x: &Val, y: &Val, n: &Val, g: Lit, eq_only: bool) -> R<Val> {
        let Some(ns) = val::enumerate(&mut self.b, n, g, 512) else { return unsup("memcmp length") };
        let mut acc = Val::U;
        for (k, c) in ns {
            let gg = self.b.and(g, c);
            if gg == FALSE {
                continue;
            }
            let r = if k == 0 {
                cval(32, 0)
            } else {
                let p = self.read_bytes(mem, x, k as u64, gg)?;
                let q = self.read_bytes(mem, y, k as u64, gg)?;
                if eq_only {
                    let pf: Vec<Lit> = p.iter().flatten().copied().collect();
                    let qf: Vec<Lit> = q.iter().flatten().copied().collect();
                    let e = val::eq(&mut self.b, &pf, &qf);
                    let mut bits = vec![FALSE; 32];
                    bits[0] = self.b.not(e);
                    from_bits(bits)
                } else {
                    // lexicographic, result -1/0/1
                    let mut lt = FALSE;
                    let mut gt = FALSE;
                    for i in (0..k as usize).rev() {
                        let l = val::ult(&mut self.b, &p[i], &q[i]);
                        let h = val::ult(&mut self.b, &q[i], &p[i]);
                        lt = self.b.ite(l, TRUE, lt);
                        lt = self.b.ite(h, FALSE, lt);
                        gt = self.b.ite(h, TRUE, gt);
                        gt = self.b.ite(l, FALSE, gt);
                    }
                    let mut bits = vec![lt; 32];
                    bits[0] = self.b.or(lt, gt);
                    from_bits(bits)
                }
            };
            acc = match acc {
                Val::U => r,
                o => val::ite(&mut self.b, c, &r, &o),
            };
        }
        Ok(acc)
    }

    fn intrinsic(&mut self, n: &str, c: &Rc<CallInst>, a: Vec<Val>, g: Lit, mut mem: Mem) -> R<Option<Outcome>> {
        let name = &n[5..];
        let base = name.split('.').next().unwrap();
        let done = |v: Val, mem: Mem| Ok(Some(Outcome { guard: g, ret: v, mem }));
        match base {
            "lifetime" | "dbg" | "assume" | "experimental" | "prefetch" | "invariant" | "donothing" | "sideeffect" | "va_start" | "va_end" => {
                if name.starts_with("lifetime.start") {
                    let p = a.iter().rev().find_map(|v| if let Val::C(64, x) = v { Some(*x as u64) } else { None });
                    if let Some(x) = p {
                        if let Some((Class::Stack, i, base, _)) = self.locate(x) {
                            if base == x {
                                let sz = self.stack.r[i as usize].size as usize;
                                mem.stack.set(i, Some(Rc::new(Obj { b: vec![UBYTE; sz] })));
                            }
                        }
                    }
                }
                done(Val::U, mem)
            }
            "memcpy" | "memmove" => {
                self.copy(&mut mem, &a[0], &a[1], &a[2], g)?;
                done(Val::U, mem)
            }
            "memset" => {
                let mut by = [UNDEF; 8];
                for (i, x) in by.iter_mut().enumerate() {
                    *x = bit(&a[1], i);
                }
                let Some(ns) = val::enumerate(&mut self.b, &a[2], g, 512) else { return unsup("memset length") };
                let single = ns.len() == 1;
                for (k, cn) in ns {
                    let bytes = vec![by; k as usize];
                    let gg = self.b.and(g, cn);
                    if gg == FALSE || k == 0 {
                        continue;
                    }
                    if single {
                        self.write_bytes(&mut mem, &a[0], &bytes, gg)?;
                    } else {
                        let al = self.addrs(&a[0], gg, "memset")?;
                        for (x, ca) in al {
                            let sel = self.b.and(cn, ca);
                            self.write_bytes_at(&mut mem, x, &bytes, sel)?;
                        }
                    }
                }
                done(Val::U, mem)
            }
            "trap" | "ubsantrap" => {
                self.event(EvKind::Panic("trap".into()), g, FALSE);
                Ok(None)
            }
            "threadlocal" | "expect" | "launder" | "strip" | "ssa" | "annotation" => done(a[0].clone(), mem),
            "is" => done(cval(1, 0), mem),
            "objectsize" => done(cval(64, u64::MAX as u128), mem),
            "vector" => {
                let ty = &c.args.last().unwrap().0;
                let (nl, e) = match ty {
                    Ty::Vec(n, e) => (*n as usize, e.bits()),
                    _ => return unsup(n),
                };
                let lanes = self.lanes(a.last().unwrap(), nl);
                let op = name.split('.').nth(2).unwrap();
                let mut acc = lanes[0].clone();
                for l in &lanes[1..] {
                    acc = match op {
                        "add" => self.binop(BinOp::Add, e, &acc, l, g)?,
                        "or" => self.binop(BinOp::Or, e, &acc, l, g)?,
                        "and" => self.binop(BinOp::And, e, &acc, l, g)?,
                        "xor" => self.binop(BinOp::Xor, e, &acc, l, g)?,
                        _ => return unsup(n),
                    };
                }
                done(acc, mem)
            }
            _ => {
                // elementwise on scalars or vectors
                let ty = c.args[0].0.clone();
                let v = if let Ty::Vec(nl, e) = &ty {
                    let nl = *nl as usize;
                    let cols: Vec<Vec<Val>> = a
                        .iter()
                        .zip(c.args.iter())
                        .map(|(x, t)| if t.0.is_agg() { self.lanes(x, nl) } else { vec![x.clone(); nl] })
                        .collect();
                    let mut r = vec![];
                    for i in 0..nl {
                        let args: Vec<Val> = cols.iter().map(|c| c[i].clone()).collect();
                        r.push(self.scalar_intrinsic(name, base, e.bits(), &args, &c.ret, g)?);
                    }
                    Val::A(Rc::new(r))
                } else {
                    self.scalar_intrinsic(name, base, ty.bits(), &a, &c.ret, g)?
                };
                done(v, mem)
            }
        }
    }

    fn scalar_intrinsic(&mut self, name: &str, base: &str, w: u32, a: &[Val], ret: &Ty, g: Lit) -> R<Val> {
        let parts: Vec<&str> = name.split('.').collect();
        if a.iter().any(|v| matches!(v, Val::U)) {
            return Ok(if ret.is_agg() { Val::A(Rc::new(vec![Val::U, Val::U])) } else { Val::U });
        }
        Ok(match base {
            "umax" | "umin" | "smax" | "smin" => {
                let p = match base {
                    "umax" => Pred::Ugt,
                    "umin" => Pred::Ult,
                    "smax" => Pred::Sgt,
                    _ => Pred::Slt,
                };
                let c = self.icmp(p, w, &a[0], &a[1]);
                val::ite(&mut self.b, c, &a[0], &a[1])
            }
            "ucmp" | "scmp" => {
                let (lt, gt) = if base == "ucmp" { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
                let l = self.icmp(lt, w, &a[0], &a[1]);
                let h = self.icmp(gt, w, &a[0], &a[1]);
                let rw = match ret {
                    Ty::Vec(_, e) => e.bits(),
                    t => t.bits(),
                };
                let x = val::ite(&mut self.b, h, &cval(rw, 1), &cval(rw, 0));
                val::ite(&mut self.b, l, &cval(rw, u128::MAX), &x)
            }
            "abs" => {
                let z = cval(w, 0);
                let c = self.icmp(Pred::Slt, w, &a[0], &z);
                let ng = self.binop(BinOp::Sub, w, &z, &a[0], g)?;
                val::ite(&mut self.b, c, &ng, &a[0])
            }
            "uadd" | "usub" | "sadd" | "ssub" | "umul" | "smul" => {
                let sat = parts[1] == "sat";
                let (r, ov) = self.overflow(base, w, &a[0], &a[1], g)?;
                if sat {
                    match base {
                        "uadd" => val::ite(&mut self.b, ov, &cval(w, u128::MAX), &r),
                        "usub" => val::ite(&mut self.b, ov, &cval(w, 0), &r),
                        _ => return unsup(name),
                    }
                } else {
                    Val::A(Rc::new(vec![r, from_bits(vec![ov])]))
                }
            }
            "ctpop" => {
                let bits = bits_of(&a[0], w);
                let mut acc = cval(w, 0);
                for l in bits {
                    let mut v = vec![FALSE; w as usize];
                    v[0] = l;
                    acc = self.binop(BinOp::Add, w, &acc, &from_bits(v), g)?;
                }
                acc
            }
            "cttz" | "ctlz" => {
                let bits = bits_of(&a[0], w);
                let mut acc = cval(w, w as u128);
                for i in 0..w as usize {
                    // scan so that the decisive bit is applied last
                    let k = w as usize - 1 - i;
                    let (idx, val_) = if base == "cttz" { (k, k) } else { (i, w as usize - 1 - i) };
                    acc = val::ite(&mut self.b, bits[idx], &cval(w, val_ as u128), &acc);
                }
                acc
            }
            "bswap" => {
                let bits = bits_of(&a[0], w);
                let nb = (w / 8) as usize;
                let mut r = vec![];
                for k in (0..nb).rev() {
                    r.extend_from_slice(&bits[8 * k..8 * k + 8]);
                }
                from_bits(r)
            }
            "bitreverse" => {
                let mut bits = bits_of(&a[0], w);
                bits.reverse();
                from_bits(bits)
            }
            "fshl" | "fshr" => {
                let k = match &a[2] {
                    Val::C(_, k) => (*k % w as u128) as usize,
                    _ => return unsup("symbolic funnel shift"),
                };
                let mut cat = bits_of(&a[1], w);
                cat.extend(bits_of(&a[0], w));
                let st = if base == "fshl" { w as usize - k } else { k };
                from_bits(cat[st..st + w as usize].to_vec())
            }
            "ptrmask" => self.binop(BinOp::And, w, &a[0], &a[1], g)?,
            _ => return unsup(format!("intrinsic llvm.{}", name)),
        })
    }

    fn overflow(&mut self, op: &str, w: u32, x: &Val, y: &Val, g: Lit) -> R<(Val, Lit)> {
        if let (Val::C(_, p), Val::C(_, q)) = (x, y) {
            let m = mask(w);
            let (sp, sq) = (sext(*p, w) as i128, sext(*q, w) as i128);
            let (r, o) = match op {
                "uadd" => ((p + q) & m, p + q > m),
                "usub" => (p.wrapping_sub(*q) & m, p < q),
                "umul" => (p.wrapping_mul(*q) & m, p.checked_mul(*q).map_or(true, |v| v > m)),
                "sadd" => ((sp.wrapping_add(sq) as u128) & m, sext((sp.wrapping_add(sq) as u128) & m, w) as i128 != sp.wrapping_add(sq)),
                "ssub" => ((sp.wrapping_sub(sq) as u128) & m, sext((sp.wrapping_sub(sq) as u128) & m, w) as i128 != sp.wrapping_sub(sq)),
                _ => ((sp.wrapping_mul(sq) as u128) & m, sext((sp.wrapping_mul(sq) as u128) & m, w) as i128 != sp.wrapping_mul(sq)),
            };
            return Ok((Val::C(w, r), if o { TRUE } else { FALSE }));
        }
        let xb = bits_of(x, w);
        let yb = bits_of(y, w);
        Ok(match op {
            "uadd" => {
                let (r, c) = val::add(&mut self.b, &xb, &yb, FALSE);
                (from_bits(r), c)
            }
            "usub" => {
                let (r, c) = val::add(&mut self.b, &xb, &neg_bits(&yb), TRUE);
                (from_bits(r), self.b.not(c))
            }
            "sadd" | "ssub" => {
                let mut xe = xb.clone();
                let mut ye = yb.clone();
                xe.push(*xb.last().unwrap());
                ye.push(*yb.last().unwrap());
                let (r, _) = if op == "sadd" {
                    val::add(&mut self.b, &xe, &ye, FALSE)
                } else {
                    val::add(&mut self.b, &xe, &neg_bits(&ye), TRUE)
                };
                let o = self.b.xor(r[w as usize], r[w as usize - 1]);
                (from_bits(r[..w as usize].to_vec()), o)
            }
            "umul" => {
                let (k, sb) = match (x, y) {
                    (Val::C(_, k), _) => (*k, yb),
                    (_, Val::C(_, k)) => (*k, xb),
                    _ => return unsup("symbolic umul overflow"),
                };
                let mut e = sb;
                e.resize((2 * w).min(128) as usize, FALSE);
                let r = self.mul_const(&e, k);
                let mut o = FALSE;
                for l in &r[w as usize..] {
                    o = self.b.or(o, *l);
                }
                (from_bits(r[..w as usize].to_vec()), o)
            }
            _ => return unsup(format!("{} overflow at {:?}", op, g)),
        })
    }

    pub fn callstack_string(&self) -> String {
        self.err_stack.iter().rev().take(12).map(|s| short(s)).collect::<Vec<_>>().join(" < ")
    }
}

fn any_pending(fr: &Frame, l: &[Wto]) -> bool {
    l.iter().any(|e| match e {
        Wto::Block(b) => fr.pend[*b as usize].is_some(),
        Wto::Loop(l) => any_pending(fr, l),
    })
}

pub fn sext(x: u128, w: u32) -> u128 {
    if w >= 128 {
        return x;
    }
    if x >> (w - 1) & 1 == 1 {
        x | !mask(w)
    } else {
        x & mask(w)
    }
}

fn shift(op: BinOp, x: &[Lit], k: usize) -> Vec<Lit> {
    let w = x.len();
    let mut r = vec![FALSE; w];
    for i in 0..w {
        r[i] = match op {
            BinOp::Shl => {
                if i >= k {
                    x[i - k]
                } else {
                    FALSE
                }
            }
            BinOp::LShr => {
                if i + k < w {
                    x[i + k]
                } else {
                    FALSE
                }
            }
            _ => {
                if i + k < w {
                    x[i + k]
                } else {
                    x[w - 1]
                }
            }
        };
    }
    r
}

fn insert_at(t: &Ty, x: Val, ix: &[u32], y: Val) -> Val {
    if ix.is_empty() {
        return y;
    }
    let mut v = match x {
        Val::A(p) => (*p).clone(),
        _ => vec![Val::U; t.nfields()],
    };
    let i = ix[0] as usize;
    let old = std::mem::replace(&mut v[i], Val::U);
    v[i] = insert_at(&if t.is_agg() { t.field_ty(i) } else { t.clone() }, old, &ix[1..], y);
    Val::A(Rc::new(v))
}

fn alloc_kind(n: &str) -> Option<&'static str> {
    for k in [
        "__rust_alloc_zeroed",
        "__rust_no_alloc_shim_is_unstable_v2",
        "__rust_dealloc",
        "__rust_realloc",
        "__rust_alloc",
    ] {
        if n.ends_with(k) {
            return Some(k);
        }
    }
    None
}

/// Readable name from a v0/legacy mangled symbol: the identifier components.
pub fn short(n: &str) -> String {
    if !n.starts_with("_R") && !n.starts_with("_ZN") {
        return n.to_string();
    }
    let b = n.as_bytes();
    let mut i = 2;
    let mut parts = vec![];
    while i < b.len() {
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let st = i;
            while i < b.len() && b[i].is_ascii_digit() {
                i += 1;
            }
            let l: usize = n[st..i].parse().unwrap_or(0);
            let mut s = i;
            if s < b.len() && b[s] == b'_' {
                s += 1;
            }
            if l > 0 && s + l <= b.len() && n.is_char_boundary(s) && n.is_char_boundary(s + l) {
                parts.push(n[s..s + l].to_string());
                i = s + l;
            }
        } else if b[i] == b's' || b[i] == b'C' {
            // disambiguators: skip "s<base62>_"
            if b[i] == b's' {
                let mut j = i + 1;
                while j < b.len() && b[j].is_ascii_alphanumeric() {
                    j += 1;
                }
                if j < b.len() && b[j] == b'_' {
                    i = j + 1;
                    continue;
                }
            }
            i += 1;
        } else {
            i += 1;
        }
    }
    let k = parts.len().saturating_sub(4);
    let r = parts[k..].join("::");
    if r.is_empty() {
        n.to_string()
    } else {
        r
    }
}
