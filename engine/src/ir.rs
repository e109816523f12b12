//! Lazy parser for textual LLVM IR (opaque pointers), enough for rustc output.
use crate::fast::{HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float(u32),
    Arr(u64, Rc<Ty>),
    Vec(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Label,
    Meta,
}

impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Label | Ty::Meta => 0,
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr => 8,
            Ty::Float(w) => (*w as u64) / 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => match &**t {
                Ty::Int(w) => ((n * *w as u64 + 7) / 8).next_power_of_two(),
                t => n * t.size(),
            },
            Ty::Struct(fs, packed) => {
                let mut o = 0;
                let mut ma = 1;
                for f in fs.iter() {
                    let a = if *packed { 1 } else { f.align() };
                    ma = ma.max(a);
                    o = (o + a - 1) / a * a + f.size();
                }
                (o + ma - 1) / ma * ma
            }
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => ((*w as u64) + 7) / 8,
            t => t.size(),
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                b.next_power_of_two().min(16)
            }
            Ty::Ptr => 8,
            Ty::Float(w) => (*w as u64) / 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size().min(16),
            Ty::Struct(fs, packed) => {
                if *packed {
                    1
                } else {
                    fs.iter().map(|f| f.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(fs, packed) => {
                let mut o = 0;
                for (k, f) in fs.iter().enumerate() {
                    let a = if *packed { 1 } else { f.align() };
                    o = (o + a - 1) / a * a;
                    if k == i {
                        return o;
                    }
                    o += f.size();
                }
                panic!("field index")
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => t.size() * i as u64,
            _ => panic!("field_off of {:?}", self),
        }
    }
    pub fn field_ty(&self, i: usize) -> Ty {
        match self {
            Ty::Struct(fs, _) => fs[i].clone(),
            Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
            _ => panic!("field_ty"),
        }
    }
    pub fn nfields(&self) -> usize {
        match self {
            Ty::Struct(fs, _) => fs.len(),
            Ty::Arr(n, _) | Ty::Vec(n, _) => *n as usize,
            _ => panic!("nfields"),
        }
    }
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            Ty::Float(w) => *w,
            t => panic!("bits of {:?}", t),
        }
    }
    pub fn is_agg(&self) -> bool {
        matches!(self, Ty::Arr(..) | Ty::Vec(..) | Ty::Struct(..))
    }
}

/// Constant expression / operand
#[derive(Clone, Debug)]
pub enum Opnd {
    Reg(u32),
    Int(u128),
    Global(Rc<str>),
    Undef,
    Zero,
    Agg(Rc<Vec<(Ty, Opnd)>>),
    Bytes(Rc<Vec<u8>>),
    Gep(Rc<(Ty, Vec<(Ty, Opnd)>)>),
    Cast(Rc<(String, Ty, Opnd, Ty)>),
    Bin(Rc<(String, Ty, Opnd, Opnd)>),
    Splat(Rc<(Ty, Opnd)>),
    Meta,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(Rc<str>),
    Indirect(Opnd),
    Asm,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastOp {
    Trunc,
    ZExt,
    SExt,
    Bit,
}

#[derive(Clone, Debug)]
pub struct CallInst {
    pub callee: Callee,
    pub ret: Ty,
    pub args: Vec<(Ty, Opnd, bool)>, // sret flag
    pub noreturn: bool,
    pub normal: Option<u32>, // invoke
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin(BinOp, Ty, Opnd, Opnd),
    Icmp(Pred, Ty, Opnd, Opnd),
    Select(Ty, Opnd, Opnd, Ty, Opnd), // cond ty, cond, a, ty, b
    Cast(CastOp, Ty, Opnd, Ty),
    Freeze(Ty, Opnd),
    Alloca(Ty, Ty, Opnd, u64),
    Load(Ty, Opnd),
    Store(Ty, Opnd, Opnd),
    Gep(Ty, Vec<(Ty, Opnd)>),
    ExtractV(Ty, Opnd, Vec<u32>),
    InsertV(Ty, Opnd, Ty, Opnd, Vec<u32>),
    ExtractE(Ty, Opnd, Ty, Opnd),
    InsertE(Ty, Opnd, Ty, Opnd, Ty, Opnd),
    Shuffle(Ty, Opnd, Opnd, Ty, Opnd),
    Call(Rc<CallInst>),
    Rmw(String, Ty, Opnd, Opnd),
    CmpXchg(Ty, Opnd, Opnd, Opnd),
    Fence,
    Unsupported(String),
}

#[derive(Clone, Debug)]
pub enum Term {
    Ret(Ty, Option<Opnd>),
    Br(u32),
    CondBr(Opnd, u32, u32),
    Switch(Ty, Opnd, u32, Rc<Vec<(u128, u32)>>),
    Unreachable,
    Invoke(u32), // continue at normal dest after the (last) call instruction
}

#[derive(Debug)]
pub struct Phi {
    pub dst: u32,
    pub ty: Ty,
    pub inc: Vec<(u32, Opnd)>, // pred block, value
}

#[derive(Debug)]
pub struct Block {
    pub phis: Vec<Phi>,
    pub insts: Vec<(u32, Inst)>, // dst (u32::MAX if none)
    pub term: Term,
}

/// What a pointer parameter may be used for.
#[derive(Debug, Clone, Copy, Default, PartialEq)]
pub struct PAttr {
    pub deref: u64,
    pub readonly: bool,
    pub writeonly: bool,
    pub noalias: bool,
    pub nocapture: bool,
}

#[derive(Debug)]
pub struct Func {
    pub name: Rc<str>,
    pub params: Vec<(Ty, Option<Ty>)>, // sret type if any
    pub pattr: Vec<PAttr>,
    pub ret: Ty,
    pub blocks: Vec<Block>,
    pub nregs: usize,
    pub wto: Vec<Wto>,
    pub uid: u32,
}

#[derive(Debug, Clone)]
pub enum Wto {
    Block(u32),
    Loop(Vec<Wto>),
}

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Id(String),     // bare word
    Local(String),  // %x
    GlobalT(String), // @x
    Num(String),
    Str(Vec<u8>, bool), // c"..." flag
    Meta(String),   // !x
    Attr(String),   // #n
    P(char),
    Dots,
}

fn lex_line(s: &str, out: &mut Vec<Tok>) {
    let b = s.as_bytes();
    let mut i = 0;
    let quoted = |i: &mut usize| -> Vec<u8> {
        // at opening quote
        let mut v = vec![];
        *i += 1;
        while b[*i] != b'"' {
            if b[*i] == b'\\' {
                if b[*i + 1] == b'\\' {
                    v.push(b'\\');
                    *i += 2;
                    continue;
                }
                let h = std::str::from_utf8(&b[*i + 1..*i + 3]).unwrap();
                v.push(u8::from_str_radix(h, 16).unwrap());
                *i += 3;
            } else {
                v.push(b[*i]);
                *i += 1;
            }
        }
        *i += 1;
        v
    };
    let isid = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\r' | b'\n' => i += 1,
            b';' => {
                while i < b.len() && b[i] != b'\n' {
                    i += 1;
                }
            }
            b'%' | b'@' => {
                i += 1;
                let name = if b[i] == b'"' {
                    String::from_utf8_lossy(&quoted(&mut i)).into_owned()
                } else {
                    let st = i;
                    while i < b.len() && isid(b[i]) {
                        i += 1;
                    }
                    s[st..i].to_string()
                };
                out.push(if c == b'%' { Tok::Local(name) } else { Tok::GlobalT(name) });
            }
            b'"' => {
                let v = quoted(&mut i);
                out.push(Tok::Str(v, false));
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                i += 1;
                let v = quoted(&mut i);
                out.push(Tok::Str(v, true));
            }
            b'!' => {
                i += 1;
                let st = i;
                while i < b.len() && isid(b[i]) {
                    i += 1;
                }
                out.push(Tok::Meta(s[st..i].to_string()));
            }
            b'#' => {
                i += 1;
                let st = i;
                while i < b.len() && b[i].is_ascii_digit() {
                    i += 1;
                }
                out.push(Tok::Attr(s[st..i].to_string()));
            }
            b'.' if s[i..].starts_with("...") => {
                out.push(Tok::Dots);
                i += 3;
            }
            b'-' | b'0'..=b'9' => {
                let st = i;
                i += 1;
                while i < b.len() && (isid(b[i]) || (b[i] == b'+')) {
                    i += 1;
                }
                out.push(Tok::Num(s[st..i].to_string()));
            }
            c if c.is_ascii_alphabetic() || c == b'_' || c == b'$' || c == b'.' => {
                let st = i;
                while i < b.len() && isid(b[i]) {
                    i += 1;
                }
                out.push(Tok::Id(s[st..i].to_string()));
            }
            c => {
                out.push(Tok::P(c as char));
                i += 1;
            }
        }
    }
}

pub struct Module {
    text: &'static str,
    funcs_at: HashMap<Rc<str>, (usize, usize)>, // byte range of define..}
    globals_at: HashMap<Rc<str>, (usize, usize)>,
    pub aliases: HashMap<String, String>,
    types: HashMap<String, Ty>,
    noreturn_attr: HashSet<String>,
    decl_noreturn: HashSet<String>,
}

pub struct GlobalDef {
    pub ty: Ty,
    pub init: Option<Opnd>,
    pub constant: bool,
    pub tls: bool,
}

struct P<'a> {
    t: &'a [Tok],
    i: usize,
    m: &'a Module,
    regs: HashMap<String, u32>,
    labels: HashMap<String, u32>,
}

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

/// The file, mapped (private, read-only) for the rest of the process.
fn map_file(path: &str) -> &'static str {
    use std::os::fd::AsRawFd;
    let f = std::fs::File::open(path).expect("open .ll");
    let n = f.metadata().expect("stat .ll").len() as usize;
    let b: &'static [u8] = unsafe {
        let p = mmap(std::ptr::null_mut(), n, 1, 0x8002, f.as_raw_fd(), 0);
        assert!(p as isize != -1, "mmap");
        std::slice::from_raw_parts(p, n)
    };
    std::str::from_utf8(b).expect("text of .ll")
}

impl Module {
    pub fn load(path: &str) -> Module {
        let text = map_file(path);
        let mut m = Module {
            text: "",
            funcs_at: HashMap::default(),
            globals_at: HashMap::default(),
            aliases: HashMap::default(),
            types: HashMap::default(),
            noreturn_attr: Default::default(),
            decl_noreturn: Default::default(),
        };
        let mut pos = 0;
        let mut fstart: Option<(usize, Rc<str>)> = None;
        let mut tylines = vec![];
        let mut decls: Vec<(String, String)> = vec![];
        fn gname(l: &str) -> Option<(String, usize)> {
            let at = l.find('@')?;
            let r = &l[at + 1..];
            if r.starts_with('"') {
                let e = r[1..].find('"')? + 1;
                Some((r[1..e].to_string(), at + 1 + e + 1))
            } else {
                let e = r
                    .find(|c: char| !(c.is_ascii_alphanumeric() || c == '_' || c == '.' || c == '$' || c == '-'))
                    .unwrap_or(r.len());
                Some((r[..e].to_string(), at + 1 + e))
            }
        }
        while pos < text.len() {
            if let Some((s, n)) = fstart.take() {
                // a function ends with the first line that starts with a brace
                while let Some(i) = text[pos..].find('}') {
                    pos += i + 1;
                    if text.as_bytes()[pos - 2] == b'\n' {
                        break;
                    }
                }
                pos += text[pos..].find('\n').map_or(text.len() - pos, |i| i + 1);
                m.funcs_at.insert(n, (s, pos));
                continue;
            }
            let st = pos;
            pos += text[pos..].find('\n').map_or(text.len() - pos, |i| i + 1);
            let line = &text[st..pos];
            if line.starts_with("define") {
                let (n, _) = gname(line).unwrap();
                fstart = Some((st, n.into()));
            } else if line.starts_with('@') {
                let (n, e) = gname(line).unwrap();
                if line.contains(" alias ") {
                    let tail = &line[e..];
                    if let Some((tn, _)) = gname(tail) {
                        m.aliases.insert(n.clone(), tn);
                    }
                }
                m.globals_at.insert(n.into(), (st, pos));
            } else if line.starts_with('%') {
                tylines.push(line.to_string());
            } else if line.starts_with("declare") {
                if let Some((n, _)) = gname(line) {
                    let a = line.rfind('#').map(|i| line[i + 1..].trim().to_string()).unwrap_or_default();
                    decls.push((n, a));
                }
            } else if line.starts_with("attributes #") {
                let id = line["attributes #".len()..].split(' ').next().unwrap().to_string();
                if line.split(' ').any(|w| w == "noreturn") {
                    m.noreturn_attr.insert(id);
                }
            }
        }
        for (n, a) in decls {
            let a: String = a.chars().take_while(|c| c.is_ascii_digit()).collect();
            if m.noreturn_attr.contains(&a) {
                m.decl_noreturn.insert(n);
            }
        }
        for l in tylines {
            let mut toks = vec![];
            lex_line(&l, &mut toks);
            if let Tok::Local(n) = &toks[0] {
                let ty = {
                    let mut p = P { t: &toks, i: 3, m: &m, regs: HashMap::default(), labels: HashMap::default() };
                    if p.is_id("opaque") {
                        Ty::Void
                    } else {
                        p.ty()
                    }
                };
                m.types.insert(n.clone(), ty);
            }
        }
        m.text = text;
        m
    }
    pub fn has_func(&self, n: &str) -> bool {
        self.funcs_at.contains_key(n)
    }
    pub fn func_names(&self) -> Vec<Rc<str>> {
        self.funcs_at.keys().cloned().collect()
    }
    pub fn has_global(&self, n: &str) -> bool {
        self.globals_at.contains_key(n)
    }
    pub fn func_noreturn(&self, n: &str) -> bool {
        let (a, b) = self.funcs_at[n];
        let t = &self.text[a..b];
        let l = &t[..t.find('\n').unwrap_or(t.len())];
        for w in l.split(' ') {
            if let Some(r) = w.strip_prefix('#') {
                if self.noreturn_attr.contains(r) {
                    return true;
                }
            }
        }
        false
    }
    pub fn decl_noreturn(&self, n: &str) -> bool {
        self.decl_noreturn.contains(n)
    }
    pub fn global(&self, n: &str) -> GlobalDef {
        let (a, b) = self.globals_at[n];
        let mut toks = vec![];
        lex_line(&self.text[a..b], &mut toks);
        let mut p = P { t: &toks, i: 2, m: self, regs: HashMap::default(), labels: HashMap::default() };
        let mut tls = false;
        let mut ext = false;
        loop {
            match p.peek() {
                Some(Tok::Id(w)) if w == "global" || w == "constant" => break,
                Some(Tok::Id(w)) => {
                    if w == "thread_local" {
                        tls = true;
                    }
                    if w == "external" {
                        ext = true;
                    }
                    p.i += 1;
                    if p.is_p('(') {
                        p.skip_parens();
                    }
                }
                x => panic!("global header {:?} in {}", x, &self.text[a..b]),
            }
        }
        let constant = p.is_id("constant");
        p.i += 1;
        let ty = p.ty();
        let init = if ext { None } else { Some(p.value(&ty)) };
        GlobalDef { ty, init, constant, tls }
    }
    pub fn func(&self, n: &str, uid: u32) -> Func {
        let (a, b) = self.funcs_at[n];
        parse_func(self, &self.text[a..b], n, uid)
    }
}

impl<'a> P<'a> {
    fn peek(&self) -> Option<&'a Tok> {
        self.t.get(self.i)
    }
    fn next(&mut self) -> &'a Tok {
        self.i += 1;
        &self.t[self.i - 1]
    }
    fn is_p(&self, c: char) -> bool {
        matches!(self.peek(), Some(Tok::P(x)) if *x == c)
    }
    fn is_id(&self, s: &str) -> bool {
        matches!(self.peek(), Some(Tok::Id(x)) if x == s)
    }
    fn eat_id(&mut self, s: &str) -> bool {
        if self.is_id(s) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn eat(&mut self, c: char) -> bool {
        if self.is_p(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: char) {
        if !self.eat(c) {
            panic!("expected {:?} got {:?} ctx {:?}", c, self.peek(), &self.t[self.i.saturating_sub(12)..(self.i + 4).min(self.t.len())]);
        }
    }
    fn skip_parens(&mut self) {
        self.expect('(');
        let mut d = 1;
        while d > 0 {
            match self.next() {
                Tok::P('(') => d += 1,
                Tok::P(')') => d -= 1,
                _ => {}
            }
        }
    }
    fn try_ty(&mut self) -> Option<Ty> {
        let save = self.i;
        let t = match self.peek()? {
            Tok::Id(w) => {
                let w = w.as_str();
                if w == "ptr" {
                    self.i += 1;
                    if self.is_id("addrspace") {
                        self.i += 1;
                        self.skip_parens();
                    }
                    Ty::Ptr
                } else if w == "void" {
                    self.i += 1;
                    Ty::Void
                } else if w == "float" {
                    self.i += 1;
                    Ty::Float(32)
                } else if w == "double" {
                    self.i += 1;
                    Ty::Float(64)
                } else if w == "half" {
                    self.i += 1;
                    Ty::Float(16)
                } else if w == "fp128" {
                    self.i += 1;
                    Ty::Float(128)
                } else if w == "label" {
                    self.i += 1;
                    Ty::Label
                } else if w == "metadata" {
                    self.i += 1;
                    Ty::Meta
                } else if w.len() > 1 && w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit()) {
                    self.i += 1;
                    Ty::Int(w[1..].parse().unwrap())
                } else {
                    return None;
                }
            }
            Tok::Local(n) => {
                if let Some(t) = self.m.types.get(n) {
                    self.i += 1;
                    t.clone()
                } else {
                    return None;
                }
            }
            Tok::P('[') => {
                self.i += 1;
                let n = match self.next() {
                    Tok::Num(n) => n.parse().unwrap(),
                    _ => {
                        self.i = save;
                        return None;
                    }
                };
                if !self.eat_id("x") {
                    self.i = save;
                    return None;
                }
                let t = self.ty();
                self.expect(']');
                Ty::Arr(n, Rc::new(t))
            }
            Tok::P('{') => {
                self.i += 1;
                let mut fs = vec![];
                if !self.eat('}') {
                    loop {
                        match self.try_ty() {
                            Some(t) => fs.push(t),
                            None => {
                                self.i = save;
                                return None;
                            }
                        }
                        if !self.eat(',') {
                            break;
                        }
                    }
                    self.expect('}');
                }
                Ty::Struct(Rc::new(fs), false)
            }
            Tok::P('<') => {
                self.i += 1;
                if self.eat('{') {
                    let mut fs = vec![];
                    if !self.is_p('}') {
                        loop {
                            match self.try_ty() {
                                Some(t) => fs.push(t),
                                None => {
                                    self.i = save;
                                    return None;
                                }
                            }
                            if !self.eat(',') {
                                break;
                            }
                        }
                    }
                    if !(self.eat('}') && self.eat('>')) {
                        self.i = save;
                        return None;
                    }
                    Ty::Struct(Rc::new(fs), true)
                } else {
                    let n = match self.next() {
                        Tok::Num(n) => n.parse().unwrap(),
                        _ => {
                            self.i = save;
                            return None;
                        }
                    };
                    if !self.eat_id("x") {
                        self.i = save;
                        return None;
                    }
                    let t = self.ty();
                    self.expect('>');
                    Ty::Vec(n, Rc::new(t))
                }
            }
            _ => return None,
        };
        Some(t)
    }
    fn ty(&mut self) -> Ty {
        match self.try_ty() {
            Some(t) => t,
            None => panic!("type expected at {:?}", &self.t[self.i.saturating_sub(5)..(self.i + 6).min(self.t.len())]),
        }
    }
    fn reg(&mut self, n: &str) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n.to_string()).or_insert(k)
    }
    fn label(&mut self, n: &str) -> u32 {
        match self.labels.get(n) {
            Some(x) => *x,
            None => panic!("unknown label {}", n),
        }
    }
    fn label_op(&mut self) -> u32 {
        let t = self.ty();
        assert!(t == Ty::Label);
        match self.next() {
            Tok::Local(n) => self.label(n),
            x => panic!("label {:?}", x),
        }
    }
    fn num(s: &str) -> u128 {
        if let Some(r) = s.strip_prefix('-') {
            (r.parse::<u128>().unwrap()).wrapping_neg()
        } else if s.starts_with("0x") {
            let h = s[2..].trim_start_matches(|c: char| !c.is_ascii_hexdigit());
            u128::from_str_radix(h, 16).unwrap_or(0)
        } else {
            s.parse::<u128>().unwrap_or(0)
        }
    }
    fn skip_flags(&mut self) {
        while let Some(Tok::Id(w)) = self.peek() {
            match w.as_str() {
                "nuw" | "nsw" | "exact" | "inbounds" | "nusw" | "disjoint" | "nneg" | "samesign" | "fast" | "nnan"
                | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" => self.i += 1,
                "inrange" => {
                    self.i += 1;
                    self.skip_parens();
                }
                _ => break,
            }
        }
    }
    fn value(&mut self, ty: &Ty) -> Opnd {
        match self.next() {
            Tok::Local(n) => Opnd::Reg(self.reg(n)),
            Tok::GlobalT(n) => Opnd::Global(n.as_str().into()),
            Tok::Num(s) => {
                let v = Self::num(s);
                match ty {
                    Ty::Int(w) if *w < 128 => Opnd::Int(v & ((1u128 << w) - 1)),
                    _ => Opnd::Int(v),
                }
            }
            Tok::Str(b, true) => Opnd::Bytes(Rc::new(b.clone())),
            Tok::Meta(_) => {
                if self.is_p('(') {
                    self.skip_parens();
                } else if self.is_p('{') {
                    while !self.eat('}') {
                        self.i += 1;
                    }
                }
                Opnd::Meta
            }
            Tok::P(c) if *c == '[' || *c == '{' || *c == '<' => {
                let packed = *c == '<' && self.eat('{');
                let mut v = vec![];
                let close = match c {
                    '[' => ']',
                    '{' => '}',
                    _ => {
                        if packed {
                            '}'
                        } else {
                            '>'
                        }
                    }
                };
                if !self.is_p(close) {
                    loop {
                        let t = self.ty();
                        let o = self.value(&t);
                        v.push((t, o));
                        if !self.eat(',') {
                            break;
                        }
                    }
                }
                self.expect(close);
                if packed {
                    self.expect('>');
                }
                Opnd::Agg(Rc::new(v))
            }
            Tok::Id(w) => match w.as_str() {
                "true" => Opnd::Int(1),
                "false" | "null" => Opnd::Int(0),
                "undef" | "poison" => Opnd::Undef,
                "zeroinitializer" | "none" => Opnd::Zero,
                "splat" => {
                    self.expect('(');
                    let t = self.ty();
                    let v = self.value(&t);
                    self.expect(')');
                    Opnd::Splat(Rc::new((t, v)))
                }
                "getelementptr" => {
                    self.skip_flags();
                    self.expect('(');
                    let t = self.ty();
                    let mut v = vec![];
                    while self.eat(',') {
                        let t = self.ty();
                        let o = self.value(&t);
                        v.push((t, o));
                    }
                    self.expect(')');
                    Opnd::Gep(Rc::new((t, v)))
                }
                "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "zext" | "sext" | "addrspacecast" => {
                    self.expect('(');
                    let t = self.ty();
                    let v = self.value(&t);
                    assert!(self.eat_id("to"));
                    let t2 = self.ty();
                    self.expect(')');
                    Opnd::Cast(Rc::new((w.clone(), t, v, t2)))
                }
                "add" | "sub" | "xor" | "and" | "or" | "mul" | "shl" => {
                    self.skip_flags();
                    self.expect('(');
                    let t = self.ty();
                    let a = self.value(&t);
                    self.expect(',');
                    let t2 = self.ty();
                    let b = self.value(&t2);
                    self.expect(')');
                    Opnd::Bin(Rc::new((w.clone(), t, a, b)))
                }
                "asm" => Opnd::Meta,
                w => panic!("value {:?} ctx {:?}", w, &self.t[self.i.saturating_sub(8)..(self.i + 6).min(self.t.len())]),
            },
            x => panic!("value {:?} ctx {:?}", x, &self.t[self.i.saturating_sub(8)..(self.i + 6).min(self.t.len())]),
        }
    }
    fn tyval(&mut self) -> (Ty, Opnd) {
        let t = self.ty();
        let v = self.value(&t);
        (t, v)
    }
    /// parameter/return attributes; returns sret type if present
    fn attrs(&mut self) -> Option<Ty> {
        self.pattrs().0
    }
    fn pattrs(&mut self) -> (Option<Ty>, PAttr) {
        let mut pa = PAttr::default();
        let mut sret = None;
        loop {
            match self.peek() {
                Some(Tok::Id(w)) => {
                    let w = w.as_str();
                    if w == "sret" || w == "byval" || w == "elementtype" || w == "inalloca" || w == "byref" {
                        let is = w == "sret";
                        self.i += 1;
                        self.expect('(');
                        let t = self.ty();
                        self.expect(')');
                        if is {
                            sret = Some(t);
                        }
                    } else if w == "align" {
                        self.i += 1;
                        if self.is_p('(') {
                            self.skip_parens();
                        } else {
                            self.i += 1;
                        }
                    } else if matches!(
                        w,
                        "noundef" | "nonnull" | "noalias" | "nofree" | "readonly" | "readnone" | "writeonly" | "writable"
                            | "dead_on_unwind" | "dead_on_return" | "zeroext" | "signext" | "inreg" | "returned" | "immarg" | "nocapture"
                            | "allocptr" | "allocalign" | "swiftself" | "nest" | "noext"
                    ) {
                        match w {
                            "readonly" | "readnone" => pa.readonly = true,
                            "writeonly" => pa.writeonly = true,
                            "noalias" => pa.noalias = true,
                            "nocapture" => pa.nocapture = true,
                            _ => {}
                        }
                        self.i += 1;
                        if w == "dead_on_return" && self.is_p('(') {
                            self.skip_parens();
                        }
                    } else if matches!(
                        w,
                        "dereferenceable" | "dereferenceable_or_null" | "captures" | "initializes" | "range" | "nofpclass" | "alignstack"
                    ) {
                        let dr = w == "dereferenceable";
                        let cp = w == "captures";
                        self.i += 1;
                        let st = self.i;
                        self.skip_parens();
                        if dr {
                            if let Some(Tok::Num(n)) = self.t.get(st + 1) {
                                pa.deref = n.to_string().parse().unwrap_or(0);
                            }
                        }
                        if cp && self.i == st + 3 {
                            if let Some(Tok::Id(x)) = self.t.get(st + 1) {
                                pa.nocapture = x.as_str() == "none";
                            }
                        }
                    } else {
                        break;
                    }
                }
                Some(Tok::Str(_, false)) => {
                    self.i += 1;
                    if self.eat('=') {
                        self.i += 1;
                    }
                }
                _ => break,
            }
        }
        (sret, pa)
    }
    fn cc_and_linkage(&mut self) {
        loop {
            match self.peek() {
                Some(Tok::Id(w)) => match w.as_str() {
                    "internal" | "private" | "external" | "weak" | "linkonce" | "linkonce_odr" | "weak_odr" | "dso_local"
                    | "hidden" | "protected" | "default" | "fastcc" | "coldcc" | "ccc" | "unnamed_addr" | "local_unnamed_addr" | "available_externally"
                    | "preserve_mostcc" | "x86_64_sysvcc" | "tailcc" | "cold" | "nounwind" => self.i += 1,
                    "cc" => self.i += 2,
                    "addrspace" => {
                        self.i += 1;
                        self.skip_parens();
                    }
                    _ => break,
                },
                _ => break,
            }
        }
    }
}

fn parse_func(m: &Module, text: &str, name: &str, uid: u32) -> Func {
    // Split lines: header, then blocks.
    let mut lines = text.lines();
    let header = lines.next().unwrap();
    let mut ht = vec![];
    lex_line(header, &mut ht);
    let mut p = P { t: &ht, i: 1, m, regs: HashMap::default(), labels: HashMap::default() };
    p.cc_and_linkage();
    p.attrs();
    p.cc_and_linkage();
    p.attrs();
    let ret = p.ty();
    match p.next() {
        Tok::GlobalT(_) => {}
        x => panic!("func name {:?}", x),
    }
    p.expect('(');
    let mut params = vec![];
    let mut pattr = vec![];
    let mut nparam = 0;
    if !p.eat(')') {
        loop {
            if matches!(p.peek(), Some(Tok::Dots)) {
                p.i += 1;
            } else {
                let t = p.ty();
                let (s, pa) = p.pattrs();
                pattr.push(pa);
                let n = match p.peek() {
                    Some(Tok::Local(n)) => {
                        let n = n.clone();
                        p.i += 1;
                        n
                    }
                    _ => nparam.to_string(),
                };
                nparam += 1;
                let r = p.reg(&n);
                assert_eq!(r as usize, params.len());
                params.push((t, s));
            }
            if !p.eat(',') {
                break;
            }
        }
        p.expect(')');
    }
    let mut regs = std::mem::take(&mut p.regs);
    // group lines into blocks; join multi-line instructions (switch tables, invoke, landingpad)
    let mut blocks_src: Vec<(String, Vec<String>)> = vec![];
    let mut first = true;
    let body: Vec<&str> = lines.collect();
    let mut li = 0;
    while li < body.len() {
        let l = body[li];
        li += 1;
        if l.starts_with('}') {
            break;
        }
        if l.trim().is_empty() {
            continue;
        }
        if !l.starts_with(' ') {
            // label
            let lab = if l.starts_with('"') {
                let e = l[1..].find('"').unwrap() + 1;
                l[1..e].to_string()
            } else {
                l[..l.find(':').unwrap()].to_string()
            };
            blocks_src.push((lab, vec![]));
            first = false;
            continue;
        }
        if first {
            blocks_src.push((nparam.to_string(), vec![]));
            first = false;
        }
        let mut s = l.to_string();
        let tr = l.trim_start();
        if tr.starts_with("switch ") && !tr.contains(']') {
            loop {
                let l2 = body[li];
                li += 1;
                s.push(' ');
                s.push_str(l2);
                if l2.trim_start().starts_with(']') {
                    break;
                }
            }
        } else if tr.contains("invoke ") && !tr.contains(" unwind label ") {
            let l2 = body[li];
            li += 1;
            s.push(' ');
            s.push_str(l2);
        } else if tr.contains("= landingpad ") {
            while li < body.len() {
                let t2 = body[li].trim_start();
                if t2.starts_with("cleanup") || t2.starts_with("catch ") || t2.starts_with("filter ") {
                    li += 1;
                } else {
                    break;
                }
            }
        }
        blocks_src.last_mut().unwrap().1.push(s);
    }
    let mut labels = HashMap::default();
    for (i, (l, _)) in blocks_src.iter().enumerate() {
        labels.insert(l.clone(), i as u32);
    }
    let mut blocks = vec![];
    for (_, src) in &blocks_src {
        let mut phis = vec![];
        let mut insts = vec![];
        let mut term = None;
        for l in src {
            let mut toks = vec![];
            lex_line(l, &mut toks);
            let mut p = P { t: &toks, i: 0, m, regs: std::mem::take(&mut regs), labels: std::mem::take(&mut labels) };
            parse_inst(&mut p, &mut phis, &mut insts, &mut term);
            regs = p.regs;
            labels = p.labels;
        }
        blocks.push(Block { phis, insts, term: term.unwrap_or(Term::Unreachable) });
    }
    let wto = compute_wto(&blocks);
    Func { name: name.into(), params, pattr, ret, blocks, nregs: regs.len(), wto, uid }
}

fn parse_inst(p: &mut P, phis: &mut Vec<Phi>, insts: &mut Vec<(u32, Inst)>, term: &mut Option<Term>) {
    let mut dst = u32::MAX;
    if let (Some(Tok::Local(n)), Some(Tok::P('='))) = (p.t.first(), p.t.get(1)) {
        dst = p.reg(n);
        p.i = 2;
    }
    if matches!(p.peek(), Some(Tok::P('#'))) || matches!(p.peek(), Some(Tok::Attr(_))) {
        return; // debug records
    }
    let w = match p.next() {
        Tok::Id(w) => w.clone(),
        _ => return,
    };
    let mut opw = w.as_str();
    if matches!(opw, "tail" | "musttail" | "notail") {
        match p.next() {
            Tok::Id(w2) => {
                assert_eq!(w2, "call");
                opw = "call";
            }
            _ => panic!(),
        }
    }
    let inst = match opw {
        "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" => {
            p.skip_flags();
            let t = p.ty();
            let a = p.value(&t);
            p.expect(',');
            let b = p.value(&t);
            let op = match opw {
                "add" => BinOp::Add,
                "sub" => BinOp::Sub,
                "mul" => BinOp::Mul,
                "udiv" => BinOp::UDiv,
                "sdiv" => BinOp::SDiv,
                "urem" => BinOp::URem,
                "srem" => BinOp::SRem,
                "shl" => BinOp::Shl,
                "lshr" => BinOp::LShr,
                "ashr" => BinOp::AShr,
                "and" => BinOp::And,
                "or" => BinOp::Or,
                _ => BinOp::Xor,
            };
            Inst::Bin(op, t, a, b)
        }
        "icmp" => {
            p.skip_flags();
            let pr = match p.next() {
                Tok::Id(w) => match w.as_str() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    _ => panic!("pred"),
                },
                _ => panic!("pred"),
            };
            let t = p.ty();
            let a = p.value(&t);
            p.expect(',');
            let b = p.value(&t);
            Inst::Icmp(pr, t, a, b)
        }
        "select" => {
            p.skip_flags();
            let (ct, c) = p.tyval();
            p.expect(',');
            let (t, a) = p.tyval();
            p.expect(',');
            let (_, b) = p.tyval();
            Inst::Select(ct, c, a, t, b)
        }
        "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" | "addrspacecast" => {
            p.skip_flags();
            let (t, v) = p.tyval();
            assert!(p.eat_id("to"));
            let t2 = p.ty();
            let op = match opw {
                "trunc" => CastOp::Trunc,
                "zext" => CastOp::ZExt,
                "sext" => CastOp::SExt,
                _ => {
                    if t.is_agg() || t2.is_agg() {
                        CastOp::Bit
                    } else if t.bits() > t2.bits() {
                        CastOp::Trunc
                    } else {
                        CastOp::ZExt
                    }
                }
            };
            Inst::Cast(op, t, v, t2)
        }
        "freeze" => {
            let (t, v) = p.tyval();
            Inst::Freeze(t, v)
        }
        "alloca" => {
            let t = p.ty();
            let mut n = (Ty::Int(64), Opnd::Int(1));
            let mut align = t.align();
            while p.eat(',') {
                if p.eat_id("align") {
                    if let Tok::Num(s) = p.next() {
                        align = s.parse().unwrap();
                    }
                } else if matches!(p.peek(), Some(Tok::Meta(_))) {
                    break;
                } else {
                    n = p.tyval();
                }
            }
            Inst::Alloca(t, n.0, n.1, align)
        }
        "load" => {
            while p.eat_id("atomic") || p.eat_id("volatile") {}
            let t = p.ty();
            p.expect(',');
            let (_, a) = p.tyval();
            Inst::Load(t, a)
        }
        "store" => {
            while p.eat_id("atomic") || p.eat_id("volatile") {}
            let (t, v) = p.tyval();
            p.expect(',');
            let (_, a) = p.tyval();
            Inst::Store(t, v, a)
        }
        "getelementptr" => {
            p.skip_flags();
            let t = p.ty();
            let mut v = vec![];
            while p.eat(',') {
                if matches!(p.peek(), Some(Tok::Meta(_))) {
                    break;
                }
                v.push(p.tyval());
            }
            Inst::Gep(t, v)
        }
        "extractvalue" => {
            let (t, v) = p.tyval();
            let mut ix = vec![];
            while p.eat(',') {
                match p.peek() {
                    Some(Tok::Num(s)) => {
                        ix.push(s.parse().unwrap());
                        p.i += 1;
                    }
                    _ => break,
                }
            }
            Inst::ExtractV(t, v, ix)
        }
        "insertvalue" => {
            let (t, v) = p.tyval();
            p.expect(',');
            let (t2, v2) = p.tyval();
            let mut ix = vec![];
            while p.eat(',') {
                match p.peek() {
                    Some(Tok::Num(s)) => {
                        ix.push(s.parse().unwrap());
                        p.i += 1;
                    }
                    _ => break,
                }
            }
            Inst::InsertV(t, v, t2, v2, ix)
        }
        "extractelement" => {
            let (t, v) = p.tyval();
            p.expect(',');
            let (t2, i) = p.tyval();
            Inst::ExtractE(t, v, t2, i)
        }
        "insertelement" => {
            let (t, v) = p.tyval();
            p.expect(',');
            let (t2, e) = p.tyval();
            p.expect(',');
            let (t3, i) = p.tyval();
            Inst::InsertE(t, v, t2, e, t3, i)
        }
        "shufflevector" => {
            let (t, a) = p.tyval();
            p.expect(',');
            let (_, b) = p.tyval();
            p.expect(',');
            let (mt, mk) = p.tyval();
            Inst::Shuffle(t, a, b, mt, mk)
        }
        "phi" => {
            p.skip_flags();
            let ty = p.ty();
            let mut inc = vec![];
            loop {
                p.expect('[');
                let v = p.value(&ty);
                p.expect(',');
                let l = match p.next() {
                    Tok::Local(n) => p.label(n),
                    _ => panic!(),
                };
                p.expect(']');
                inc.push((l, v));
                if !p.eat(',') {
                    break;
                }
                if !p.is_p('[') {
                    break;
                }
            }
            phis.push(Phi { dst, ty, inc });
            return;
        }
        "call" | "invoke" => {
            p.skip_flags();
            p.cc_and_linkage();
            p.attrs();
            p.cc_and_linkage();
            p.attrs();
            let ret = p.ty();
            // function type with varargs: ret (params...)
            if p.is_p('(') {
                p.skip_parens();
            }
            let callee = if p.is_id("asm") {
                while !p.is_p('(') {
                    p.i += 1;
                }
                Callee::Asm
            } else {
                match p.value(&Ty::Ptr) {
                    Opnd::Global(g) => Callee::Direct(g),
                    o => Callee::Indirect(o),
                }
            };
            p.expect('(');
            let mut args = vec![];
            if !p.eat(')') {
                loop {
                    let t = p.ty();
                    if t == Ty::Meta {
                        match p.peek() {
                            Some(Tok::Meta(_)) => {
                                let o = p.value(&t);
                                args.push((t, o, false));
                            }
                            _ => {
                                let (t2, o) = p.tyval();
                                args.push((t2, o, false));
                            }
                        }
                    } else {
                        let s = p.attrs();
                        let o = p.value(&t);
                        args.push((t, o, s.is_some()));
                    }
                    if !p.eat(',') {
                        break;
                    }
                }
                p.expect(')');
            }
            let mut noreturn = false;
            let mut normal = None;
            while let Some(t) = p.peek() {
                match t {
                    Tok::Attr(n) => {
                        if p.m.noreturn_attr.contains(n) {
                            noreturn = true;
                        }
                        p.i += 1;
                    }
                    Tok::Id(w) if w == "noreturn" => {
                        noreturn = true;
                        p.i += 1;
                    }
                    Tok::Id(w) if w == "to" => {
                        p.i += 1;
                        normal = Some(p.label_op());
                        assert!(p.eat_id("unwind"));
                        p.label_op();
                    }
                    _ => p.i += 1,
                }
            }
            if let Callee::Direct(n) = &callee {
                if p.m.decl_noreturn(n) {
                    noreturn = true;
                }
            }
            let c = CallInst { callee, ret, args, noreturn, normal };
            insts.push((dst, Inst::Call(Rc::new(c))));
            if let Some(n) = normal {
                *term = Some(Term::Invoke(n));
            }
            return;
        }
        "atomicrmw" => {
            p.eat_id("volatile");
            let op = match p.next() {
                Tok::Id(w) => w.clone(),
                _ => panic!(),
            };
            let (_, a) = p.tyval();
            p.expect(',');
            let (t, v) = p.tyval();
            Inst::Rmw(op, t, a, v)
        }
        "cmpxchg" => {
            while p.eat_id("weak") || p.eat_id("volatile") {}
            let (_, a) = p.tyval();
            p.expect(',');
            let (t, c) = p.tyval();
            p.expect(',');
            let (_, n) = p.tyval();
            Inst::CmpXchg(t, a, c, n)
        }
        "fence" => Inst::Fence,
        "ret" => {
            let t = p.ty();
            *term = Some(if t == Ty::Void {
                Term::Ret(t, None)
            } else {
                let v = p.value(&t);
                Term::Ret(t, Some(v))
            });
            return;
        }
        "br" => {
            let t = p.ty();
            if t == Ty::Label {
                let l = match p.next() {
                    Tok::Local(n) => p.label(n),
                    _ => panic!(),
                };
                *term = Some(Term::Br(l));
            } else {
                let c = p.value(&t);
                p.expect(',');
                let a = p.label_op();
                p.expect(',');
                let b = p.label_op();
                *term = Some(Term::CondBr(c, a, b));
            }
            return;
        }
        "switch" => {
            let (t, v) = p.tyval();
            p.expect(',');
            let d = p.label_op();
            p.expect('[');
            let mut cs = vec![];
            while !p.eat(']') {
                let (_, o) = p.tyval();
                p.expect(',');
                let l = p.label_op();
                match o {
                    Opnd::Int(i) => cs.push((i, l)),
                    _ => panic!(),
                }
            }
            *term = Some(Term::Switch(t, v, d, Rc::new(cs)));
            return;
        }
        "unreachable" | "resume" => {
            *term = Some(Term::Unreachable);
            return;
        }
        "landingpad" => Inst::Unsupported("landingpad".into()),
        x => Inst::Unsupported(x.to_string()),
    };
    insts.push((dst, inst));
}

pub fn succs(t: &Term) -> Vec<u32> {
    match t {
        Term::Ret(..) | Term::Unreachable => vec![],
        Term::Br(l) | Term::Invoke(l) => vec![*l],
        Term::CondBr(_, a, b) => vec![*a, *b],
        Term::Switch(_, _, d, cs) => {
            let mut v = vec![*d];
            v.extend(cs.iter().map(|c| c.1));
            v
        }
    }
}

/// Bourdoncle's weak topological order.
fn compute_wto(blocks: &[Block]) -> Vec<Wto> {
    struct St<'a> {
        blocks: &'a [Block],
        dfn: Vec<u32>,
        num: u32,
        stack: Vec<u32>,
    }
    fn visit(s: &mut St, v: u32, part: &mut Vec<Wto>) -> u32 {
        s.stack.push(v);
        s.num += 1;
        s.dfn[v as usize] = s.num;
        let mut head = s.num;
        let mut lp = false;
        for w in succs(&s.blocks[v as usize].term) {
            let min = if s.dfn[w as usize] == 0 { visit(s, w, part) } else { s.dfn[w as usize] };
            if min <= head {
                head = min;
                lp = true;
            }
        }
        if head == s.dfn[v as usize] {
            s.dfn[v as usize] = u32::MAX;
            let mut e = s.stack.pop().unwrap();
            if lp {
                while e != v {
                    s.dfn[e as usize] = 0;
                    e = s.stack.pop().unwrap();
                }
                let c = component(s, v);
                part.push(c); // reversed later
            } else {
                part.push(Wto::Block(v));
            }
        }
        head
    }
    fn component(s: &mut St, v: u32) -> Wto {
        let mut part = vec![];
        for w in succs(&s.blocks[v as usize].term) {
            if s.dfn[w as usize] == 0 {
                visit(s, w, &mut part);
            }
        }
        part.reverse();
        let mut l = vec![Wto::Block(v)];
        l.extend(part);
        Wto::Loop(l)
    }
    let mut s = St { blocks, dfn: vec![0; blocks.len()], num: 0, stack: vec![] };
    let mut part = vec![];
    visit(&mut s, 0, &mut part);
    part.reverse();
    part
}
