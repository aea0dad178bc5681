//! Parser for the textual LLVM IR that rustc emits (`--emit=llvm-ir`).
//! It produces a small AST; `lower.rs` turns functions into executable code.
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    F32,
    F64,
    Ptr,
    Arr(u64, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Vec(u64, Box<Ty>),
    Meta,
    Label,
    Other,
}

impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Meta | Ty::Label | Ty::Other => 0,
            Ty::Int(w) => {
                let a = self.align();
                let b = (*w as u64 + 7) / 8;
                (b + a - 1) / a * a
            }
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => {
                if let Ty::Int(w) = **t {
                    return (n * w as u64 + 7) / 8;
                }
                n * t.size()
            }
            Ty::Struct(fs, packed) => {
                let mut off = 0;
                for f in fs {
                    if !packed {
                        let a = f.align();
                        off = (off + a - 1) / a * a;
                    }
                    off += f.size();
                }
                if !packed {
                    let a = self.align();
                    off = (off + a - 1) / a * a;
                }
                off
            }
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = (*w as u64 + 7) / 8;
                b.next_power_of_two().min(16)
            }
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(_, _) => self.size().next_power_of_two(),
            Ty::Struct(fs, packed) => {
                if *packed {
                    1
                } else {
                    fs.iter().map(|f| f.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn field_off(&self, i: usize) -> (u64, &Ty) {
        match self {
            Ty::Struct(fs, packed) => {
                let mut off = 0;
                for (k, f) in fs.iter().enumerate() {
                    if !packed {
                        let a = f.align();
                        off = (off + a - 1) / a * a;
                    }
                    if k == i {
                        return (off, f);
                    }
                    off += f.size();
                }
                panic!("field index")
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => (t.size() * i as u64, t),
            _ => panic!("field_off of {:?}", self),
        }
    }
    /// Scalars of a first-class value: (bits, is_float, byte offset). i128 is two 64-bit scalars.
    pub fn flatten(&self) -> Vec<Scalar> {
        let mut v = Vec::new();
        self.flat(0, &mut v);
        v
    }
    fn flat(&self, off: u64, out: &mut Vec<Scalar>) {
        match self {
            Ty::Int(w) if *w > 64 => {
                let mut left = *w;
                let mut o = off;
                while left > 0 {
                    let b = left.min(64);
                    out.push(Scalar { bits: b as u8, float: false, off: o as u32 });
                    left -= b;
                    o += 8;
                }
            }
            Ty::Int(w) => out.push(Scalar { bits: *w as u8, float: false, off: off as u32 }),
            Ty::Ptr => out.push(Scalar { bits: 64, float: false, off: off as u32 }),
            Ty::F64 => out.push(Scalar { bits: 64, float: true, off: off as u32 }),
            Ty::F32 => out.push(Scalar { bits: 32, float: true, off: off as u32 }),
            Ty::Arr(n, t) => {
                let s = t.size();
                for i in 0..*n {
                    t.flat(off + i * s, out);
                }
            }
            Ty::Vec(n, t) => {
                let s = t.size();
                for i in 0..*n {
                    t.flat(off + i * s, out);
                }
            }
            Ty::Struct(fs, _) => {
                for i in 0..fs.len() {
                    let (o, t) = self.field_off(i);
                    t.flat(off + o, out);
                }
            }
            _ => {}
        }
    }
    pub fn nscalars(&self) -> usize {
        match self {
            Ty::Int(w) => ((*w as usize) + 63) / 64,
            Ty::Ptr | Ty::F32 | Ty::F64 => 1,
            Ty::Arr(n, t) | Ty::Vec(n, t) => *n as usize * t.nscalars(),
            Ty::Struct(fs, _) => fs.iter().map(|f| f.nscalars()).sum(),
            _ => 0,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Scalar {
    pub bits: u8,
    pub float: bool,
    pub off: u32,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Local(String),
    Global(String),
    Int(u128), // two's complement, already masked by the consumer
    Float(u64),
    Undef,
    Zero,
    Splat(Box<Val>),
    Agg(Vec<(Ty, Val)>),
    Bytes(Vec<u8>),
    ConstGep { elem: Ty, base: Box<Val>, idx: Vec<(Ty, Val)> },
    ConstCast(String, Box<(Ty, Val)>, Ty),
    ConstBin(String, Box<(Ty, Val)>, Box<(Ty, Val)>),
    Meta,
}

#[derive(Clone, Debug)]
pub struct Inst {
    pub res: Option<String>,
    pub op: IOp,
    pub line: u32,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Name(String),
    Local(String),
    Val(Val),
    Asm,
}

#[derive(Clone, Debug)]
pub enum IOp {
    Bin(String, Ty, Val, Val),
    Icmp(String, Ty, Val, Val),
    Fcmp(String, Ty, Val, Val),
    Fneg(Ty, Val),
    Cast(String, Ty, Val, Ty),
    Select(Ty, Val, Ty, Val, Val),
    Load(Ty, Val),
    Store(Ty, Val, Val),
    Gep(Ty, Val, Vec<(Ty, Val)>, u64),
    Alloca(Ty, Val, u64),
    Br(String),
    CondBr(Val, String, String),
    Switch(Ty, Val, String, Vec<(Val, String)>),
    Call { ret: Ty, callee: Callee, args: Vec<(Ty, Val)>, invoke: Option<String> },
    Ret(Option<(Ty, Val)>),
    Unreachable,
    Phi(Ty, Vec<(Val, String)>),
    ExtractValue(Ty, Val, Vec<u64>),
    InsertValue(Ty, Val, Ty, Val, Vec<u64>),
    ExtractElement(Ty, Val, Val),
    InsertElement(Ty, Val, Val, Val),
    Shuffle(Ty, Val, Val, Ty, Val),
    Freeze(Ty, Val),
    AtomicRmw(String, Ty, Val, Val),
    CmpXchg(Ty, Val, Val, Val),
    Nop,
    Landing,
    Bad(String),
}

#[derive(Debug)]
pub struct Block {
    pub label: String,
    pub insts: Vec<Inst>,
}

#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub ret: Ty,
    pub params: Vec<(Ty, String)>,
    pub body: (usize, usize), // line range of the body
}

#[derive(Debug)]
pub struct Global {
    pub name: String,
    pub ty: Ty,
    pub init: Option<Val>,
    pub constant: bool,
    pub align: u64,
}

pub struct Module<'a> {
    pub lines: Vec<&'a str>,
    pub funcs: Vec<Func>,
    pub globals: Vec<Global>,
    pub types: HashMap<String, Ty>,
    pub declares: Vec<String>,
    pub aliases: Vec<(String, Val)>,
}

// ---------------------------------------------------------------- tokens

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Local(String),
    Global(String),
    Word(String),
    Int(String),
    Float(u64),
    Str(Vec<u8>),
    P(char),
    Meta,
    Dots,
    Eof,
}

fn is_name(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'.' || c == b'_' || c == b'$' || c == b'-'
}

fn unescape(s: &[u8]) -> Vec<u8> {
    let mut r = Vec::with_capacity(s.len());
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'\\' && i + 2 < s.len() + 0 && i + 2 <= s.len() - 1 {
            let h = (s[i + 1] as char).to_digit(16);
            let l = (s[i + 2] as char).to_digit(16);
            if let (Some(h), Some(l)) = (h, l) {
                r.push((h * 16 + l) as u8);
                i += 3;
                continue;
            }
            if s[i + 1] == b'\\' {
                r.push(b'\\');
                i += 2;
                continue;
            }
        }
        r.push(s[i]);
        i += 1;
    }
    r
}

pub fn tokenize(s: &str) -> Vec<Tok> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = Vec::new();
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b';' => {
                while i < b.len() && b[i] != b'\n' {
                    i += 1;
                }
            }
            b'%' | b'@' => {
                let st = i + 1;
                let name;
                if st < b.len() && b[st] == b'"' {
                    let mut j = st + 1;
                    while b[j] != b'"' {
                        j += 1;
                    }
                    name = String::from_utf8_lossy(&unescape(&b[st + 1..j])).into_owned();
                    i = j + 1;
                } else {
                    let mut j = st;
                    while j < b.len() && is_name(b[j]) {
                        j += 1;
                    }
                    name = s[st..j].to_string();
                    i = j;
                }
                out.push(if c == b'%' { Tok::Local(name) } else { Tok::Global(name) });
            }
            b'"' => {
                let mut j = i + 1;
                while b[j] != b'"' {
                    j += 1;
                }
                out.push(Tok::Str(unescape(&b[i + 1..j])));
                i = j + 1;
            }
            b'!' => {
                // metadata: skip its name / number / string
                i += 1;
                if i < b.len() && b[i] == b'"' {
                    i += 1;
                    while b[i] != b'"' {
                        i += 1;
                    }
                    i += 1;
                } else {
                    while i < b.len() && is_name(b[i]) {
                        i += 1;
                    }
                }
                out.push(Tok::Meta);
            }
            b'#' => {
                i += 1;
                while i < b.len() && is_name(b[i]) {
                    i += 1;
                }
                out.push(Tok::Meta);
            }
            b'.' if s[i..].starts_with("...") => {
                out.push(Tok::Dots);
                i += 3;
            }
            b'+' | b'-' if ["inf", "nan", "qnan", "snan"].iter().any(|w| s[i + 1..].starts_with(w)) => {
                let neg = c == b'-';
                i += 1;
                let st = i;
                while i < b.len() && is_name(b[i]) {
                    i += 1;
                }
                let v = if s[st..i].starts_with("inf") { f64::INFINITY } else { f64::from_bits(0x7ff8_0000_0000_0000) };
                out.push(Tok::Float(v.to_bits() | (neg as u64) << 63));
                if i < b.len() && b[i] == b'(' {
                    while b[i] != b')' {
                        i += 1;
                    }
                    i += 1;
                }
            }
            b'+' | b'-' | b'0'..=b'9' => {
                let st = i;
                i += 1;
                while i < b.len()
                    && (b[i].is_ascii_alphanumeric()
                        || b[i] == b'.'
                        || ((b[i] == b'-' || b[i] == b'+') && (b[i - 1] == b'e' || b[i - 1] == b'E')))
                {
                    i += 1;
                }
                let t = &s[st..i];
                if let Some(h) = t.strip_prefix("0x") {
                    out.push(Tok::Float(u64::from_str_radix(h, 16).unwrap_or(0)));
                } else if t.contains('.') || (t.contains('e') && !t.contains('x')) {
                    out.push(Tok::Float(t.parse::<f64>().unwrap_or(0.0).to_bits()));
                } else {
                    out.push(Tok::Int(t.to_string()));
                }
            }
            _ if is_name(c) => {
                let st = i;
                while i < b.len() && is_name(b[i]) {
                    i += 1;
                }
                let w = &s[st..i];
                if w == "c" && i < b.len() && b[i] == b'"' {
                    continue; // c"..." : the string token follows
                }
                if let Some(h) = w.strip_prefix("f0x") {
                    out.push(Tok::Float(u64::from_str_radix(h, 16).unwrap_or(0)));
                } else {
                    out.push(Tok::Word(w.to_string()));
                }
            }
            _ => {
                out.push(Tok::P(c as char));
                i += 1;
            }
        }
    }
    out
}

pub struct P<'t> {
    pub t: Vec<Tok>,
    pub i: usize,
    pub types: &'t HashMap<String, Ty>,
}

type R<T> = Result<T, String>;

impl<'t> P<'t> {
    pub fn new(s: &str, types: &'t HashMap<String, Ty>) -> P<'t> {
        P { t: tokenize(s), i: 0, types }
    }
    fn peek(&self) -> &Tok {
        self.t.get(self.i).unwrap_or(&Tok::Eof)
    }
    fn peek2(&self) -> &Tok {
        self.t.get(self.i + 1).unwrap_or(&Tok::Eof)
    }
    fn next(&mut self) -> Tok {
        let r = self.t.get(self.i).cloned().unwrap_or(Tok::Eof);
        self.i += 1;
        r
    }
    fn is_p(&self, c: char) -> bool {
        *self.peek() == Tok::P(c)
    }
    fn is_w(&self, w: &str) -> bool {
        matches!(self.peek(), Tok::Word(x) if x == w)
    }
    fn eat_p(&mut self, c: char) -> bool {
        if self.is_p(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn eat_w(&mut self, w: &str) -> bool {
        if self.is_w(w) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn exp_p(&mut self, c: char) -> R<()> {
        if self.eat_p(c) {
            Ok(())
        } else {
            Err(format!("expected '{}' got {:?}", c, self.peek()))
        }
    }
    fn skip_balanced(&mut self) {
        // at an opening bracket
        let mut d = 0;
        loop {
            match self.next() {
                Tok::P('(') | Tok::P('[') | Tok::P('{') => d += 1,
                Tok::P(')') | Tok::P(']') | Tok::P('}') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                Tok::Eof => return,
                _ => {}
            }
        }
    }
    pub fn ty(&mut self) -> R<Ty> {
        let t = match self.next() {
            Tok::Word(w) => match w.as_str() {
                "void" => Ty::Void,
                "ptr" => Ty::Ptr,
                "double" => Ty::F64,
                "float" => Ty::F32,
                "metadata" => Ty::Meta,
                "label" => Ty::Label,
                "opaque" | "half" | "x86_fp80" | "fp128" | "token" => Ty::Other,
                _ => {
                    if let Some(n) = w.strip_prefix('i') {
                        if let Ok(n) = n.parse::<u32>() {
                            return Ok(Ty::Int(n));
                        }
                    }
                    return Err(format!("bad type {}", w));
                }
            },
            Tok::P('[') => {
                let n = self.int()?;
                self.exp_w("x")?;
                let t = self.ty()?;
                self.exp_p(']')?;
                Ty::Arr(n as u64, Box::new(t))
            }
            Tok::P('{') => {
                let f = self.ty_list('}')?;
                Ty::Struct(f, false)
            }
            Tok::P('<') => {
                if self.eat_p('{') {
                    let f = self.ty_list('}')?;
                    self.exp_p('>')?;
                    Ty::Struct(f, true)
                } else {
                    let n = self.int()?;
                    self.exp_w("x")?;
                    let t = self.ty()?;
                    self.exp_p('>')?;
                    Ty::Vec(n as u64, Box::new(t))
                }
            }
            Tok::Local(n) => self.types.get(&n).cloned().unwrap_or(Ty::Other),
            t => return Err(format!("bad type token {:?}", t)),
        };
        if self.is_w("addrspace") {
            self.i += 1;
            self.skip_balanced();
        }
        Ok(t)
    }
    fn ty_list(&mut self, end: char) -> R<Vec<Ty>> {
        let mut v = Vec::new();
        if self.eat_p(end) {
            return Ok(v);
        }
        loop {
            v.push(self.ty()?);
            if self.eat_p(end) {
                return Ok(v);
            }
            self.exp_p(',')?;
        }
    }
    fn exp_w(&mut self, w: &str) -> R<()> {
        if self.eat_w(w) {
            Ok(())
        } else {
            Err(format!("expected {} got {:?}", w, self.peek()))
        }
    }
    fn int(&mut self) -> R<i128> {
        match self.next() {
            Tok::Int(s) => s.parse::<i128>().map_err(|e| e.to_string()),
            t => Err(format!("expected int got {:?}", t)),
        }
    }
    pub fn tyval(&mut self) -> R<(Ty, Val)> {
        let t = self.ty()?;
        self.attrs();
        let v = self.val(&t)?;
        Ok((t, v))
    }
    fn is_val_word(w: &str) -> bool {
        matches!(
            w,
            "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "getelementptr"
                | "inttoptr" | "ptrtoint" | "bitcast" | "splat" | "trunc" | "zext" | "sext" | "add" | "sub" | "xor"
                | "and" | "or" | "mul" | "shl" | "lshr" | "icmp" | "select" | "blockaddress" | "dso_local_equivalent"
                | "no_cfi" | "asm"
        )
    }
    /// Skip parameter attributes up to a value.
    fn attrs(&mut self) {
        loop {
            match self.peek() {
                Tok::Word(w) => {
                    if P::is_val_word(w) {
                        return;
                    }
                    let is_align = w == "align";
                    self.i += 1;
                    if self.is_p('(') {
                        self.skip_balanced();
                    } else if is_align {
                        if let Tok::Int(_) = self.peek() {
                            self.i += 1;
                        }
                    }
                }
                Tok::Str(_) => {
                    // string attribute: "a"="b" ; but c"..." constants also come as Str
                    if *self.peek2() == Tok::P('=') {
                        self.i += 3;
                    } else {
                        return;
                    }
                }
                _ => return,
            }
        }
    }
    pub fn val(&mut self, ty: &Ty) -> R<Val> {
        match self.next() {
            Tok::Local(n) => Ok(Val::Local(n)),
            Tok::Global(n) => Ok(Val::Global(n)),
            Tok::Int(s) => {
                if let Ok(v) = s.parse::<i128>() {
                    Ok(Val::Int(v as u128))
                } else {
                    s.parse::<u128>().map(Val::Int).map_err(|e| e.to_string())
                }
            }
            Tok::Float(f) => Ok(Val::Float(f)),
            Tok::Str(s) => Ok(Val::Bytes(s)),
            Tok::Meta => {
                Ok(Val::Meta)
            }
            Tok::P('[') => self.agg(']'),
            Tok::P('{') => self.agg('}'),
            Tok::P('<') => {
                if self.eat_p('{') {
                    let a = self.agg('}')?;
                    self.exp_p('>')?;
                    Ok(a)
                } else {
                    self.agg('>')
                }
            }
            Tok::Word(w) => match w.as_str() {
                "true" => Ok(Val::Int(1)),
                "false" => Ok(Val::Int(0)),
                "null" | "zeroinitializer" | "none" => Ok(Val::Zero),
                "undef" | "poison" => Ok(Val::Undef),
                "splat" => {
                    self.exp_p('(')?;
                    let (_, v) = self.tyval()?;
                    self.exp_p(')')?;
                    Ok(Val::Splat(Box::new(v)))
                }
                "getelementptr" => {
                    while let Tok::Word(_) = self.peek() {
                        self.i += 1; // inbounds, nuw, nusw
                        if self.is_p('(') && matches!(self.t.get(self.i - 1), Some(Tok::Word(x)) if x == "inrange") {
                            self.skip_balanced();
                        }
                    }
                    self.exp_p('(')?;
                    let elem = self.ty()?;
                    self.exp_p(',')?;
                    let (_, base) = self.tyval()?;
                    let mut idx = Vec::new();
                    while self.eat_p(',') {
                        idx.push(self.tyval()?);
                    }
                    self.exp_p(')')?;
                    Ok(Val::ConstGep { elem, base: Box::new(base), idx })
                }
                "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "zext" | "sext" => {
                    while let Tok::Word(_) = self.peek() {
                        self.i += 1;
                    }
                    self.exp_p('(')?;
                    let tv = self.tyval()?;
                    self.exp_w("to")?;
                    let to = self.ty()?;
                    self.exp_p(')')?;
                    Ok(Val::ConstCast(w, Box::new(tv), to))
                }
                "add" | "sub" | "xor" | "and" | "or" | "mul" | "shl" | "lshr" => {
                    while let Tok::Word(_) = self.peek() {
                        self.i += 1;
                    }
                    self.exp_p('(')?;
                    let a = self.tyval()?;
                    self.exp_p(',')?;
                    let b = self.tyval()?;
                    self.exp_p(')')?;
                    Ok(Val::ConstBin(w, Box::new(a), Box::new(b)))
                }
                "dso_local_equivalent" | "no_cfi" => self.val(ty),
                _ => Err(format!("bad value word {}", w)),
            },
            t => Err(format!("bad value {:?}", t)),
        }
    }
    fn agg(&mut self, end: char) -> R<Val> {
        let mut v = Vec::new();
        if self.eat_p(end) {
            return Ok(Val::Agg(v));
        }
        loop {
            v.push(self.tyval()?);
            if self.eat_p(end) {
                return Ok(Val::Agg(v));
            }
            self.exp_p(',')?;
        }
    }
    fn local(&mut self) -> R<String> {
        match self.next() {
            Tok::Local(n) => Ok(n),
            t => Err(format!("expected local, got {:?}", t)),
        }
    }
    fn label(&mut self) -> R<String> {
        self.exp_w("label")?;
        self.local()
    }
    fn skip_flags(&mut self) {
        while let Tok::Word(w) = self.peek() {
            match w.as_str() {
                "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "fast" | "nnan" | "ninf" | "nsz" | "arcp"
                | "contract" | "afn" | "reassoc" | "inbounds" | "nusw" | "volatile" | "atomic" | "weak" => self.i += 1,
                "inrange" => {
                    self.i += 1;
                    self.skip_balanced();
                }
                _ => return,
            }
        }
    }

    pub fn inst(&mut self, line: u32) -> R<Inst> {
        let mut res = None;
        if let (Tok::Local(n), Tok::P('=')) = (self.peek().clone(), self.peek2().clone()) {
            res = Some(n);
            self.i += 2;
        }
        let op = self.iop()?;
        Ok(Inst { res, op, line })
    }
    fn iop(&mut self) -> R<IOp> {
        let w = match self.next() {
            Tok::Word(w) => w,
            t => return Err(format!("bad instruction start {:?}", t)),
        };
        match w.as_str() {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or"
            | "xor" | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                self.skip_flags();
                let t = self.ty()?;
                let a = self.val(&t)?;
                self.exp_p(',')?;
                let b = self.val(&t)?;
                Ok(IOp::Bin(w, t, a, b))
            }
            "icmp" | "fcmp" => {
                self.skip_flags();
                let p = match self.next() {
                    Tok::Word(p) => p,
                    t => return Err(format!("bad predicate {:?}", t)),
                };
                let t = self.ty()?;
                let a = self.val(&t)?;
                self.exp_p(',')?;
                let b = self.val(&t)?;
                Ok(if w == "icmp" { IOp::Icmp(p, t, a, b) } else { IOp::Fcmp(p, t, a, b) })
            }
            "fneg" => {
                self.skip_flags();
                let (t, v) = self.tyval()?;
                Ok(IOp::Fneg(t, v))
            }
            "trunc" | "zext" | "sext" | "fptrunc" | "fpext" | "fptoui" | "fptosi" | "uitofp" | "sitofp"
            | "ptrtoint" | "inttoptr" | "bitcast" | "addrspacecast" | "ptrtoaddr" => {
                self.skip_flags();
                let t = self.ty()?;
                let v = self.val(&t)?;
                self.exp_w("to")?;
                let to = self.ty()?;
                Ok(IOp::Cast(w, t, v, to))
            }
            "select" => {
                self.skip_flags();
                let (ct, c) = self.tyval()?;
                self.exp_p(',')?;
                let (t, a) = self.tyval()?;
                self.exp_p(',')?;
                let (_, b) = self.tyval()?;
                Ok(IOp::Select(ct, c, t, a, b))
            }
            "load" => {
                self.skip_flags();
                let t = self.ty()?;
                self.exp_p(',')?;
                let (_, p) = self.tyval()?;
                Ok(IOp::Load(t, p))
            }
            "store" => {
                self.skip_flags();
                let (t, v) = self.tyval()?;
                self.exp_p(',')?;
                let (_, p) = self.tyval()?;
                Ok(IOp::Store(t, v, p))
            }
            "getelementptr" => {
                self.skip_flags();
                let t = self.ty()?;
                self.exp_p(',')?;
                let (bt, b) = self.tyval()?;
                if bt != Ty::Ptr {
                    return Err("vector gep".into());
                }
                let mut idx = Vec::new();
                while self.eat_p(',') {
                    if let Tok::Meta = self.peek() {
                        break;
                    }
                    idx.push(self.tyval()?);
                }
                Ok(IOp::Gep(t, b, idx, 0))
            }
            "alloca" => {
                self.skip_flags();
                self.eat_w("inalloca");
                let t = self.ty()?;
                let mut n = Val::Int(1);
                let mut al = t.align();
                while self.eat_p(',') {
                    if self.eat_w("align") {
                        al = self.int()? as u64;
                    } else if let Tok::Meta = self.peek() {
                        break;
                    } else {
                        n = self.tyval()?.1;
                    }
                }
                Ok(IOp::Alloca(t, n, al))
            }
            "br" => {
                if self.is_w("label") {
                    Ok(IOp::Br(self.label()?))
                } else {
                    let (_, c) = self.tyval()?;
                    self.exp_p(',')?;
                    let a = self.label()?;
                    self.exp_p(',')?;
                    let b = self.label()?;
                    Ok(IOp::CondBr(c, a, b))
                }
            }
            "switch" => {
                let (t, v) = self.tyval()?;
                self.exp_p(',')?;
                let d = self.label()?;
                self.exp_p('[')?;
                let mut cs = Vec::new();
                while !self.eat_p(']') {
                    let (_, c) = self.tyval()?;
                    self.exp_p(',')?;
                    cs.push((c, self.label()?));
                }
                Ok(IOp::Switch(t, v, d, cs))
            }
            "tail" | "musttail" | "notail" => {
                self.exp_w("call")?;
                self.call(false)
            }
            "call" => self.call(false),
            "invoke" => self.call(true),
            "ret" => {
                if self.eat_w("void") {
                    Ok(IOp::Ret(None))
                } else {
                    Ok(IOp::Ret(Some(self.tyval()?)))
                }
            }
            "unreachable" => Ok(IOp::Unreachable),
            "resume" => Ok(IOp::Unreachable),
            "phi" => {
                self.skip_flags();
                let t = self.ty()?;
                let mut v = Vec::new();
                loop {
                    self.exp_p('[')?;
                    let x = self.val(&t)?;
                    self.exp_p(',')?;
                    let l = self.local()?;
                    self.exp_p(']')?;
                    v.push((x, l));
                    if !self.is_p(',') || *self.peek2() != Tok::P('[') {
                        break;
                    }
                    self.i += 1;
                }
                Ok(IOp::Phi(t, v))
            }
            "extractvalue" => {
                let (t, v) = self.tyval()?;
                let mut ix = Vec::new();
                while self.is_p(',') && matches!(self.peek2(), Tok::Int(_)) {
                    self.i += 1;
                    ix.push(self.int()? as u64);
                }
                Ok(IOp::ExtractValue(t, v, ix))
            }
            "insertvalue" => {
                let (t, v) = self.tyval()?;
                self.exp_p(',')?;
                let (t2, v2) = self.tyval()?;
                let mut ix = Vec::new();
                while self.is_p(',') && matches!(self.peek2(), Tok::Int(_)) {
                    self.i += 1;
                    ix.push(self.int()? as u64);
                }
                Ok(IOp::InsertValue(t, v, t2, v2, ix))
            }
            "extractelement" => {
                let (t, v) = self.tyval()?;
                self.exp_p(',')?;
                let (_, i) = self.tyval()?;
                Ok(IOp::ExtractElement(t, v, i))
            }
            "insertelement" => {
                let (t, v) = self.tyval()?;
                self.exp_p(',')?;
                let (_, e) = self.tyval()?;
                self.exp_p(',')?;
                let (_, i) = self.tyval()?;
                Ok(IOp::InsertElement(t, v, e, i))
            }
            "shufflevector" => {
                let (t, a) = self.tyval()?;
                self.exp_p(',')?;
                let (_, b) = self.tyval()?;
                self.exp_p(',')?;
                let (mt, m) = self.tyval()?;
                Ok(IOp::Shuffle(t, a, b, mt, m))
            }
            "freeze" => {
                let (t, v) = self.tyval()?;
                Ok(IOp::Freeze(t, v))
            }
            "fence" => Ok(IOp::Nop),
            "landingpad" => Ok(IOp::Landing),
            "atomicrmw" => {
                self.skip_flags();
                let o = match self.next() {
                    Tok::Word(o) => o,
                    t => return Err(format!("bad rmw {:?}", t)),
                };
                let (_, p) = self.tyval()?;
                self.exp_p(',')?;
                let (t, v) = self.tyval()?;
                Ok(IOp::AtomicRmw(o, t, p, v))
            }
            "cmpxchg" => {
                self.skip_flags();
                let (_, p) = self.tyval()?;
                self.exp_p(',')?;
                let (t, e) = self.tyval()?;
                self.exp_p(',')?;
                let (_, n) = self.tyval()?;
                Ok(IOp::CmpXchg(t, p, e, n))
            }
            _ => Ok(IOp::Bad(w)),
        }
    }
    fn call(&mut self, invoke: bool) -> R<IOp> {
        // flags, cc, return attributes
        loop {
            match self.peek() {
                Tok::Word(w) => match w.as_str() {
                    "void" | "ptr" | "double" | "float" | "metadata" => break,
                    x if x.starts_with('i') && x.len() > 1 && x[1..].chars().all(|c| c.is_ascii_digit()) => break,
                    _ => {
                        let is_align = w == "align";
                        self.i += 1;
                        if self.is_p('(') {
                            self.skip_balanced();
                        } else if is_align {
                            if let Tok::Int(_) = self.peek() {
                                self.i += 1;
                            }
                        }
                    }
                },
                _ => break,
            }
        }
        let ret = self.ty()?;
        // vararg function type: i32 (ptr, i32, ...) @f
        if self.is_p('(') {
            self.skip_balanced();
        }
        let callee = match self.next() {
            Tok::Global(n) => Callee::Name(n),
            Tok::Local(n) => Callee::Local(n),
            Tok::Word(w) if w == "asm" => {
                // asm sideeffect "..", ".."(args)
                while !self.is_p('(') && *self.peek() != Tok::Eof {
                    self.i += 1;
                }
                Callee::Asm
            }
            Tok::Word(_) => {
                self.i -= 1;
                Callee::Val(self.val(&Ty::Ptr)?)
            }
            t => return Err(format!("bad callee {:?}", t)),
        };
        self.exp_p('(')?;
        let mut args = Vec::new();
        if !self.eat_p(')') {
            loop {
                let t = self.ty()?;
                self.attrs();
                if t == Ty::Meta {
                    // skip to , or )
                    let mut d = 0;
                    loop {
                        match self.peek() {
                            Tok::P('(') => d += 1,
                            Tok::P(')') if d == 0 => break,
                            Tok::P(')') => d -= 1,
                            Tok::P(',') if d == 0 => break,
                            Tok::Eof => return Err("eof in metadata".into()),
                            _ => {}
                        }
                        self.i += 1;
                    }
                    args.push((Ty::Meta, Val::Meta));
                } else {
                    let v = self.val(&t)?;
                    args.push((t, v));
                }
                if self.eat_p(')') {
                    break;
                }
                self.exp_p(',')?;
            }
        }
        let mut inv = None;
        if invoke {
            while !self.is_w("to") {
                if *self.peek() == Tok::Eof {
                    return Err("invoke without to".into());
                }
                self.i += 1;
            }
            self.i += 1;
            inv = Some(self.label()?);
        }
        Ok(IOp::Call { ret, callee, args, invoke: inv })
    }
}

// ---------------------------------------------------------------- module

pub fn parse_module(text: &str) -> R<Module<'_>> {
    let lines: Vec<&str> = text.lines().collect();
    let mut types: HashMap<String, Ty> = HashMap::new();
    for l in &lines {
        if l.starts_with('%') && l.contains(" = type ") {
            let (n, d) = l.split_once(" = type ").unwrap();
            let name = n.trim_start_matches('%').trim_matches('"').to_string();
            let t = {
                let mut p = P::new(d, &types);
                p.ty()?
            };
            types.insert(name, t);
        }
    }
    let mut funcs = Vec::new();
    let mut globals = Vec::new();
    let mut declares = Vec::new();
    let mut aliases = Vec::new();
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i];
        if l.starts_with("define ") {
            let st = i + 1;
            let mut e = st;
            while lines[e] != "}" {
                e += 1;
            }
            let f = parse_header(l, &types, (st, e)).map_err(|x| format!("line {}: {}", i + 1, x))?;
            funcs.push(f);
            i = e + 1;
            continue;
        }
        if l.starts_with("declare ") {
            let t = tokenize(l);
            for k in t {
                if let Tok::Global(n) = k {
                    declares.push(n);
                    break;
                }
            }
        } else if l.starts_with('@') {
            parse_global(l, &types, &mut globals, &mut aliases).map_err(|x| format!("line {}: {}", i + 1, x))?;
        }
        i += 1;
    }
    Ok(Module { lines, funcs, globals, types, declares, aliases })
}

fn parse_global(l: &str, types: &HashMap<String, Ty>, globals: &mut Vec<Global>, aliases: &mut Vec<(String, Val)>) -> R<()> {
    let mut p = P::new(l, types);
    let name = match p.next() {
        Tok::Global(n) => n,
        t => return Err(format!("global name {:?}", t)),
    };
    p.exp_p('=')?;
    let mut external = false;
    let constant;
    loop {
        match p.next() {
            Tok::Word(w) => match w.as_str() {
                "global" => {
                    constant = false;
                    break;
                }
                "constant" => {
                    constant = true;
                    break;
                }
                "alias" => {
                    let _ = p.ty()?;
                    if p.is_p('(') {
                        p.skip_balanced();
                    }
                    p.exp_p(',')?;
                    let (_, v) = p.tyval()?;
                    aliases.push((name, v));
                    return Ok(());
                }
                "external" | "extern_weak" => external = true,
                _ => {
                    if p.is_p('(') {
                        p.skip_balanced();
                    }
                }
            },
            Tok::Eof => return Err("eof in global".into()),
            _ => {}
        }
    }
    let ty = p.ty()?;
    let init = if external { None } else { Some(p.val(&ty)?) };
    let mut align = ty.align();
    while *p.peek() != Tok::Eof {
        if p.eat_w("align") {
            align = p.int()? as u64;
        } else {
            p.i += 1;
        }
    }
    globals.push(Global { name, ty, init, constant, align });
    Ok(())
}

fn parse_header(l: &str, types: &HashMap<String, Ty>, body: (usize, usize)) -> R<Func> {
    let mut p = P::new(l, types);
    p.i += 1;
    loop {
        match p.peek() {
            Tok::Word(w) => match w.as_str() {
                "void" | "ptr" | "double" | "float" => break,
                x if x.starts_with('i') && x.len() > 1 && x[1..].chars().all(|c| c.is_ascii_digit()) => break,
                _ => {
                    let is_align = w == "align";
                    p.i += 1;
                    if p.is_p('(') {
                        p.skip_balanced();
                    } else if is_align {
                        if let Tok::Int(_) = p.peek() {
                            p.i += 1;
                        }
                    }
                }
            },
            _ => break,
        }
    }
    let ret = p.ty()?;
    let name = match p.next() {
        Tok::Global(n) => n,
        t => return Err(format!("function name {:?}", t)),
    };
    p.exp_p('(')?;
    let mut params = Vec::new();
    let mut auto = 0;
    if !p.eat_p(')') {
        loop {
            if *p.peek() == Tok::Dots {
                p.i += 1;
                p.exp_p(')')?;
                break;
            }
            let t = p.ty()?;
            p.attrs();
            if let Tok::Local(n) = p.peek().clone() {
                p.i += 1;
                params.push((t, n));
            } else {
                params.push((t, auto.to_string()));
                auto += 1;
            }
            if p.eat_p(')') {
                break;
            }
            p.exp_p(',')?;
        }
    }
    Ok(Func { name, ret, params, body })
}

/// Parse the body of one function into blocks.
pub fn parse_body(m: &Module, f: &Func) -> R<Vec<Block>> {
    let mut blocks: Vec<Block> = Vec::new();
    let (st, e) = f.body;
    let mut i = st;
    // implicit entry label
    let mut cur = Block { label: "".into(), insts: Vec::new() };
    let mut first = true;
    let mut buf = String::new();
    while i < e {
        let l = m.lines[i];
        let lno = i as u32 + 1;
        i += 1;
        if l.is_empty() {
            continue;
        }
        let b = l.as_bytes();
        if b[0] == b';' {
            continue;
        }
        if b[0] != b' ' {
            // label
            let name = if b[0] == b'"' {
                let j = l[1..].find('"').unwrap() + 1;
                l[1..j].to_string()
            } else {
                match l.find(':') {
                    Some(j) => l[..j].to_string(),
                    None => return Err(format!("line {}: bad label {}", lno, l)),
                }
            };
            if !(first && cur.insts.is_empty()) {
                blocks.push(cur);
            }
            first = false;
            cur = Block { label: name, insts: Vec::new() };
            continue;
        }
        let tl = l.trim_start();
        if tl.starts_with('#') || tl.starts_with("cleanup") || tl.starts_with("catch") || tl.starts_with("filter") {
            continue; // debug records, landingpad clauses
        }
        if first && cur.insts.is_empty() && blocks.is_empty() {
            // entry without explicit label: its name is the number after params (resolved lazily by lower)
            first = false;
        }
        buf.clear();
        buf.push_str(tl);
        if tl.starts_with("switch ") && tl.ends_with('[') {
            while i < e {
                let x = m.lines[i];
                i += 1;
                buf.push(' ');
                buf.push_str(x);
                if x.trim_start().starts_with(']') {
                    break;
                }
            }
        }
        let is_invoke = tl.starts_with("invoke ") || tl.contains(" = invoke ");
        if is_invoke {
            buf.push(' ');
            buf.push_str(m.lines[i]);
            i += 1;
        }
        let mut p = P::new(&buf, &m.types);
        match p.inst(lno) {
            Ok(x) => cur.insts.push(x),
            Err(er) => {
                cur.insts.push(Inst { res: None, op: IOp::Bad(format!("line {}: {}: {}", lno, er, tl)), line: lno })
            }
        }
    }
    blocks.push(cur);
    Ok(blocks)
}
