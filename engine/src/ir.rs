//! Parser for textual LLVM IR (the subset rustc emits), lazily parsing
//! function bodies into a compact form for the interpreter.

use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Array(u64, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Vec(u32, Box<Ty>),
    Opaque,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Void | Ty::Opaque => 1,
            Ty::Int(b) => match b {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Array(_, t) => t.align(),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            Ty::Vec(_, _) => self.size().next_power_of_two().max(1),
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Opaque => 0,
            Ty::Int(b) => match b {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Array(n, t) => n * t.size(),
            Ty::Struct(f, packed) => {
                let mut off = 0u64;
                for t in f {
                    if !packed {
                        let a = t.align();
                        off = (off + a - 1) / a * a;
                    }
                    off += t.size();
                }
                if !packed {
                    let a = self.align();
                    off = (off + a - 1) / a * a;
                }
                off
            }
            Ty::Vec(n, t) => match **t {
                Ty::Int(1) => (*n as u64 + 7) / 8,
                _ => *n as u64 * t.size(),
            },
        }
    }
    pub fn field_offset(&self, idx: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut off = 0u64;
                for (i, t) in f.iter().enumerate() {
                    if !packed {
                        let a = t.align();
                        off = (off + a - 1) / a * a;
                    }
                    if i == idx {
                        return off;
                    }
                    off += t.size();
                }
                off
            }
            Ty::Array(_, t) | Ty::Vec(_, t) => t.size() * idx as u64,
            _ => 0,
        }
    }
    /// Bit width of a scalar.
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(b) => *b,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => 0,
        }
    }
    pub fn is_scalar(&self) -> bool {
        matches!(self, Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64)
    }
}

/// A constant value.
#[derive(Clone, Debug)]
pub enum Const {
    I(u64),
    W(u128),
    Agg(Vec<Const>),
    Bytes(Vec<u8>),
    Zero,
    Undef,
}

#[derive(Clone, Debug)]
pub enum Op {
    R(u32),
    C(u64),
    K(std::rc::Rc<(Ty, Const)>),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    FAdd,
    FSub,
    FMul,
    FDiv,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastOp {
    Trunc,
    ZExt,
    SExt,
    Bitcast,
    PtrToInt,
    IntToPtr,
    UiToFp,
    SiToFp,
    FpToUi,
    FpToSi,
    FpExt,
    FpTrunc,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum RmwOp {
    Xchg,
    Add,
    Sub,
    And,
    Or,
    Xor,
    Nand,
    Max,
    Min,
    UMax,
    UMin,
}

pub type Reg = u32;
pub type Blk = u32;

#[derive(Clone, Debug)]
pub enum Callee {
    Func(u32),
    Named(std::rc::Rc<str>),
    Indirect(Op),
    Intrinsic(Intr),
    Asm,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Intr {
    Nop,
    Memcpy,
    Memset,
    UMax,
    UMin,
    SMax,
    SMin,
    Ctpop,
    Ctlz,
    Cttz,
    Fshl,
    Fshr,
    UMulO,
    SMulO,
    UAddO,
    SAddO,
    USubO,
    SSubO,
    UAddSat,
    USubSat,
    SAddSat,
    SSubSat,
    UCmp,
    SCmp,
    Bswap,
    BitReverse,
    IsConstant,
    Abs,
    Trap,
    Tls,
    Expect,
    Pause,
    Assume,
    FAbs,
    FMaxNum,
    Unsupported,
}

#[derive(Clone, Debug)]
pub struct Call {
    pub d: Option<Reg>,
    pub callee: Callee,
    pub args: Box<[Op]>,
    pub argw: Box<[u16]>,
    pub ret: Ty,
    /// For invoke: the normal destination.
    pub normal: Option<Blk>,
}

#[derive(Clone, Debug)]
pub enum I {
    Bin { op: BinOp, w: u16, lanes: u16, d: Reg, a: Op, b: Op },
    Icmp { p: Pred, w: u16, lanes: u16, d: Reg, a: Op, b: Op },
    Fcmp { p: std::rc::Rc<str>, w: u16, d: Reg, a: Op, b: Op },
    Select { d: Reg, c: Op, a: Op, b: Op, w: u16, lanes: u16 },
    Cast { op: CastOp, from: Box<Ty>, to: Box<Ty>, d: Reg, a: Op },
    CastS { op: CastOp, fw: u16, tw: u16, d: Reg, a: Op },
    Gep { d: Reg, base: Op, off: i64, idx: Box<[(Op, u64, u16)]> },
    Load { d: Reg, bits: u16, ptr: Op, atomic: bool },
    LoadAgg { d: Reg, ty: Box<Ty>, ptr: Op },
    Store { bits: u16, v: Op, ptr: Op, atomic: bool },
    StoreAgg { ty: Box<Ty>, v: Op, ptr: Op },
    Alloca { d: Reg, size: u64, align: u64 },
    Call(Box<Call>),
    Br(Blk),
    CondBr { c: Op, t: Blk, f: Blk },
    Switch { w: u16, v: Op, def: Blk, cases: Box<[(u64, Blk)]> },
    Ret(Option<Op>),
    Unreachable,
    ExtractValue { d: Reg, a: Op, path: Box<[u32]> },
    InsertValue { d: Reg, a: Op, v: Op, path: Box<[u32]>, ty: Box<Ty> },
    ExtractElement { d: Reg, a: Op, i: Op },
    InsertElement { d: Reg, a: Op, v: Op, i: Op, lanes: u16 },
    Shuffle { d: Reg, a: Op, b: Op, mask: Box<[u32]>, lanes: u16 },
    AtomicRmw { op: RmwOp, d: Reg, bits: u16, ptr: Op, v: Op },
    CmpXchg { d: Reg, bits: u16, ptr: Op, c: Op, n: Op },
    Copy { d: Reg, a: Op },
    Fence,
    LandingPad,
}

#[derive(Debug, Default)]
pub struct Block {
    pub phis: Vec<(Reg, Vec<(Blk, Op)>)>,
    pub insts: Vec<I>,
}

#[derive(Debug)]
pub struct Body {
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub ninsts: usize,
}

pub struct Func {
    pub name: &'static str,
    pub params: Vec<(Ty, &'static str)>,
    pub ret: Ty,
    pub text: Option<&'static str>,
    pub body: Option<&'static Body>,
    pub addr: u64,
    pub vararg: bool,
}

pub struct Global {
    pub name: &'static str,
    pub ty: Ty,
    pub addr: u64,
    pub size: u64,
    pub tls: bool,
    pub tls_off: u64,
    pub init: Option<&'static str>,
    pub align: u64,
    pub constant: bool,
}

pub struct Module {
    pub funcs: Vec<Func>,
    pub fidx: HashMap<&'static str, u32>,
    pub globals: Vec<Global>,
    pub gidx: HashMap<&'static str, u32>,
    pub types: HashMap<&'static str, &'static str>,
    pub globals_end: u64,
    pub tls_size: u64,
    pub aliases: HashMap<&'static str, &'static str>,
}

pub const FUNC_BASE: u64 = 0x0010_0000;
pub const GLOBAL_BASE: u64 = 0x1000_0000;

pub struct P<'m> {
    s: &'static [u8],
    i: usize,
    m: &'m Module,
}

fn err(s: &[u8], i: usize, msg: &str) -> ! {
    let a = i.saturating_sub(80);
    let b = (i + 120).min(s.len());
    panic!(
        "IR parse error: {} near: {} <<HERE>> {}",
        msg,
        String::from_utf8_lossy(&s[a..i]),
        String::from_utf8_lossy(&s[i..b])
    );
}

fn is_id(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'m> P<'m> {
    fn ws(&mut self) {
        loop {
            while self.i < self.s.len() && (self.s[self.i] as char).is_ascii_whitespace() {
                self.i += 1;
            }
            if self.i < self.s.len() && self.s[self.i] == b';' {
                while self.i < self.s.len() && self.s[self.i] != b'\n' {
                    self.i += 1;
                }
                continue;
            }
            break;
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        if self.i < self.s.len() {
            self.s[self.i]
        } else {
            0
        }
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: u8) {
        if !self.eat(c) {
            err(self.s, self.i, &format!("expected '{}'", c as char));
        }
    }
    fn peek_word(&mut self) -> &'static str {
        self.ws();
        let st = self.i;
        let mut j = st;
        while j < self.s.len() && (self.s[j].is_ascii_alphanumeric() || self.s[j] == b'_' || self.s[j] == b'.') {
            j += 1;
        }
        std::str::from_utf8(&self.s[st..j]).unwrap()
    }
    fn word(&mut self) -> &'static str {
        let w = self.peek_word();
        self.i += w.len();
        w
    }
    fn eat_word(&mut self, w: &str) -> bool {
        if self.peek_word() == w {
            self.i += w.len();
            true
        } else {
            false
        }
    }
    /// After % or @ sigil.
    fn name(&mut self) -> &'static str {
        if self.s[self.i] == b'"' {
            let st = self.i + 1;
            let mut j = st;
            while self.s[j] != b'"' {
                j += 1;
            }
            self.i = j + 1;
            std::str::from_utf8(&self.s[st..j]).unwrap()
        } else {
            let st = self.i;
            let mut j = st;
            while j < self.s.len() && is_id(self.s[j]) {
                j += 1;
            }
            self.i = j;
            std::str::from_utf8(&self.s[st..j]).unwrap()
        }
    }
    /// Go to the next line, unless lookahead already did.
    fn end_line(&mut self) {
        let mut j = self.i.min(self.s.len());
        while j > 0 && (self.s[j - 1] == b' ' || self.s[j - 1] == b'\t') {
            j -= 1;
        }
        if j == 0 || self.s[j - 1] != b'\n' {
            self.skip_line();
        }
    }
    fn skip_line(&mut self) {
        while self.i < self.s.len() && self.s[self.i] != b'\n' {
            self.i += 1;
        }
    }
    /// Skip a balanced parenthesised group.
    fn skip_parens(&mut self) {
        self.expect(b'(');
        let mut depth = 1;
        while depth > 0 {
            match self.s[self.i] {
                b'(' => depth += 1,
                b')' => depth -= 1,
                b'"' => {
                    self.i += 1;
                    while self.s[self.i] != b'"' {
                        self.i += 1;
                    }
                }
                _ => (),
            }
            self.i += 1;
        }
    }
    fn uint(&mut self) -> u64 {
        self.ws();
        let mut v = 0u64;
        let st = self.i;
        while self.i < self.s.len() && self.s[self.i].is_ascii_digit() {
            v = v * 10 + (self.s[self.i] - b'0') as u64;
            self.i += 1;
        }
        if st == self.i {
            err(self.s, self.i, "expected number");
        }
        v
    }
    fn try_ty(&mut self) -> Option<Ty> {
        let c = self.peek();
        let save = self.i;
        let t = match c {
            b'[' => {
                self.i += 1;
                let n = self.uint();
                if !self.eat_word("x") {
                    err(self.s, self.i, "array type");
                }
                let t = self.ty();
                self.expect(b']');
                Ty::Array(n, Box::new(t))
            }
            b'{' => {
                self.i += 1;
                let mut f = vec![];
                if !self.eat(b'}') {
                    loop {
                        f.push(self.ty());
                        if !self.eat(b',') {
                            break;
                        }
                    }
                    self.expect(b'}');
                }
                Ty::Struct(f, false)
            }
            b'<' => {
                self.i += 1;
                if self.peek() == b'{' {
                    self.i += 1;
                    let mut f = vec![];
                    if !self.eat(b'}') {
                        loop {
                            f.push(self.ty());
                            if !self.eat(b',') {
                                break;
                            }
                        }
                        self.expect(b'}');
                    }
                    self.expect(b'>');
                    Ty::Struct(f, true)
                } else {
                    let n = self.uint();
                    if !self.eat_word("x") {
                        err(self.s, self.i, "vector type");
                    }
                    let t = self.ty();
                    self.expect(b'>');
                    Ty::Vec(n as u32, Box::new(t))
                }
            }
            b'%' => {
                self.i += 1;
                let n = self.name();
                match self.m.types.get(n) {
                    Some(t) => {
                        let mut p = P { s: t.as_bytes(), i: 0, m: self.m };
                        if p.peek_word() == "opaque" {
                            Ty::Opaque
                        } else {
                            p.ty()
                        }
                    }
                    None => {
                        self.i = save;
                        return None;
                    }
                }
            }
            _ => {
                let w = self.peek_word();
                let t = match w {
                    "void" => Ty::Void,
                    "ptr" => Ty::Ptr,
                    "float" => Ty::F32,
                    "double" => Ty::F64,
                    "metadata" | "token" | "label" => Ty::Opaque,
                    _ if w.len() > 1
                        && w.as_bytes()[0] == b'i'
                        && w.as_bytes()[1..].iter().all(|c| c.is_ascii_digit()) =>
                    {
                        Ty::Int(w[1..].parse().unwrap())
                    }
                    _ => return None,
                };
                self.i += w.len();
                t
            }
        };
        Some(t)
    }
    fn ty(&mut self) -> Ty {
        match self.try_ty() {
            Some(t) => t,
            None => err(self.s, self.i, "type"),
        }
    }
    /// Skip parameter / return attributes.
    fn attrs(&mut self) {
        loop {
            let c = self.peek();
            if c == b'"' {
                // string attribute
                self.i += 1;
                while self.s[self.i] != b'"' {
                    self.i += 1;
                }
                self.i += 1;
                if self.eat(b'=') {
                    self.expect(b'"');
                    while self.s[self.i] != b'"' {
                        self.i += 1;
                    }
                    self.i += 1;
                }
                continue;
            }
            let w = self.peek_word();
            match w {
                "noundef" | "nonnull" | "noalias" | "nofree" | "readonly" | "readnone" | "writeonly"
                | "zeroext" | "signext" | "inreg" | "returned" | "nocapture" | "immarg" | "nest"
                | "swiftself" | "allocptr" | "allocalign" | "dead_on_unwind" | "writable" | "noext"
                | "fastcc" | "coldcc" | "ccc" | "preserve_mostcc" | "preserve_allcc" | "tailcc" | "nsw" | "nuw"
                | "dead_on_return" => {
                    self.i += w.len();
                    if w == "dead_on_return" && self.peek() == b'(' {
                        self.skip_parens();
                    }
                }
                "align" => {
                    self.i += w.len();
                    if self.peek() == b'(' {
                        self.skip_parens();
                    } else {
                        self.uint();
                    }
                }
                "dereferenceable" | "dereferenceable_or_null" | "captures" | "range" | "sret" | "byval"
                | "initializes" | "nofpclass" | "elementtype" | "byref" | "inalloca" | "preallocated" | "alignstack" => {
                    self.i += w.len();
                    self.skip_parens();
                }
                "cc" => {
                    self.i += 2;
                    self.uint();
                }
                _ => break,
            }
        }
    }
    fn global_addr(&mut self, n: &'static str) -> u64 {
        let n = *self.m.aliases.get(n).unwrap_or(&n);
        if let Some(f) = self.m.fidx.get(n) {
            return self.m.funcs[*f as usize].addr;
        }
        if let Some(g) = self.m.gidx.get(n) {
            let g = &self.m.globals[*g as usize];
            return g.addr;
        }
        panic!("unknown global {}", n)
    }
    /// Parse a constant of type ty.
    pub fn constant(&mut self, ty: &Ty) -> Const {
        let c = self.peek();
        match c {
            b'@' => {
                self.i += 1;
                let n = self.name();
                Const::I(self.global_addr(n))
            }
            b'c' if self.s[self.i + 1] == b'"' => {
                self.i += 2;
                let mut v = vec![];
                while self.s[self.i] != b'"' {
                    if self.s[self.i] == b'\\' {
                        if self.s[self.i + 1] == b'\\' {
                            v.push(b'\\');
                            self.i += 2;
                        } else {
                            let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
                            v.push(u8::from_str_radix(h, 16).unwrap());
                            self.i += 3;
                        }
                    } else {
                        v.push(self.s[self.i]);
                        self.i += 1;
                    }
                }
                self.i += 1;
                Const::Bytes(v)
            }
            b'[' | b'{' => {
                self.i += 1;
                let close = if c == b'[' { b']' } else { b'}' };
                self.const_list(close)
            }
            b'<' => {
                self.i += 1;
                if self.peek() == b'{' {
                    self.i += 1;
                    let l = self.const_list(b'}');
                    self.expect(b'>');
                    l
                } else {
                    self.const_list(b'>')
                }
            }
            b'-' | b'+' | b'0'..=b'9' => {
                // integer or float
                let st = self.i;
                if c == b'-' || c == b'+' {
                    self.i += 1;
                }
                while self.i < self.s.len()
                    && (self.s[self.i].is_ascii_alphanumeric() || self.s[self.i] == b'.' || self.s[self.i] == b'+' || (self.s[self.i] == b'-' && (self.s[self.i - 1] | 32) == b'e'))
                {
                    self.i += 1;
                }
                let t = std::str::from_utf8(&self.s[st..self.i]).unwrap();
                match ty {
                    Ty::F64 | Ty::F32 => {
                        let bits = if let Some(h) = t.strip_prefix("0x") {
                            u64::from_str_radix(h, 16).unwrap()
                        } else {
                            t.trim_start_matches('+').parse::<f64>().unwrap_or(f64::NAN).to_bits()
                        };
                        if *ty == Ty::F32 {
                            Const::I((f64::from_bits(bits) as f32).to_bits() as u64)
                        } else {
                            Const::I(bits)
                        }
                    }
                    _ => {
                        let b = ty.bits();
                        let v: i128 = match t.parse::<i128>() {
                            Ok(v) => v,
                            Err(_) => t.parse::<u128>().unwrap() as i128,
                        };
                        if b > 64 {
                            Const::W(v as u128)
                        } else {
                            Const::I(mask(v as u64, b))
                        }
                    }
                }
            }
            _ => {
                let w = self.word();
                match w {
                    "true" => Const::I(1),
                    "false" => Const::I(0),
                    "null" | "zeroinitializer" => {
                        if ty.is_scalar() && ty.bits() <= 64 {
                            Const::I(0)
                        } else {
                            Const::Zero
                        }
                    }
                    "none" => Const::Zero,
                    "undef" | "poison" => {
                        if ty.is_scalar() && ty.bits() <= 64 {
                            Const::I(0)
                        } else {
                            Const::Undef
                        }
                    }
                    "splat" => {
                        self.expect(b'(');
                        let t = self.ty();
                        let v = self.constant(&t);
                        self.expect(b')');
                        let n = match ty {
                            Ty::Vec(n, _) => *n as usize,
                            _ => err(self.s, self.i, "splat"),
                        };
                        Const::Agg(vec![v; n])
                    }
                    "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "ptrtoaddr" => {
                        self.expect(b'(');
                        let t = self.ty();
                        let v = self.constant(&t);
                        if !self.eat_word("to") {
                            err(self.s, self.i, "to");
                        }
                        let t2 = self.ty();
                        self.expect(b')');
                        match v {
                            Const::I(x) => Const::I(mask(x, t2.bits())),
                            v => v,
                        }
                    }
                    "getelementptr" => {
                        loop {
                            let w = self.peek_word();
                            match w {
                                "inbounds" | "nuw" | "nusw" => self.i += w.len(),
                                "inrange" => {
                                    self.i += w.len();
                                    self.skip_parens();
                                }
                                _ => break,
                            }
                        }
                        self.expect(b'(');
                        let t = self.ty();
                        self.expect(b',');
                        let pt = self.ty();
                        let base = match self.constant(&pt) {
                            Const::I(x) => x,
                            _ => err(self.s, self.i, "gep base"),
                        };
                        let mut off = base;
                        let mut first = true;
                        let mut cur = t;
                        while self.eat(b',') {
                            let it = self.ty();
                            let iv = match self.constant(&it) {
                                Const::I(x) => sext(x, it.bits()),
                                _ => err(self.s, self.i, "gep idx"),
                            };
                            if first {
                                off = off.wrapping_add((iv as u64).wrapping_mul(cur.size()));
                                first = false;
                            } else {
                                match cur.clone() {
                                    Ty::Struct(f, _) => {
                                        off = off.wrapping_add(cur.field_offset(iv as usize));
                                        cur = f[iv as usize].clone();
                                    }
                                    Ty::Array(_, t) | Ty::Vec(_, t) => {
                                        off = off.wrapping_add((iv as u64).wrapping_mul(t.size()));
                                        cur = *t;
                                    }
                                    _ => err(self.s, self.i, "gep"),
                                }
                            }
                        }
                        self.expect(b')');
                        Const::I(off)
                    }
                    "add" | "sub" | "xor" | "mul" | "shl" | "and" | "or" => {
                        loop {
                            let w = self.peek_word();
                            if w == "nuw" || w == "nsw" || w == "disjoint" {
                                self.i += w.len();
                            } else {
                                break;
                            }
                        }
                        self.expect(b'(');
                        let t = self.ty();
                        let a = self.constant(&t);
                        self.expect(b',');
                        let t2 = self.ty();
                        let b = self.constant(&t2);
                        self.expect(b')');
                        let (a, b) = match (a, b) {
                            (Const::I(a), Const::I(b)) => (a, b),
                            _ => err(self.s, self.i, "const arith"),
                        };
                        let r = match w {
                            "add" => a.wrapping_add(b),
                            "sub" => a.wrapping_sub(b),
                            "xor" => a ^ b,
                            "mul" => a.wrapping_mul(b),
                            "and" => a & b,
                            "or" => a | b,
                            _ => a.wrapping_shl(b as u32),
                        };
                        Const::I(mask(r, t.bits()))
                    }
                    "f0x" => err(self.s, self.i, "float form"),
                    _ => {
                        if let Some(h) = w.strip_prefix("f0x") {
                            return Const::I(u64::from_str_radix(h, 16).unwrap());
                        }
                        err(self.s, self.i, &format!("constant word {:?}", w))
                    }
                }
            }
        }
    }
    fn const_list(&mut self, close: u8) -> Const {
        let mut v = vec![];
        if self.eat(close) {
            return Const::Agg(v);
        }
        loop {
            let t = self.ty();
            v.push(self.constant(&t));
            if !self.eat(b',') {
                break;
            }
        }
        self.expect(close);
        Const::Agg(v)
    }
}

pub fn mask(v: u64, bits: u32) -> u64 {
    if bits >= 64 {
        v
    } else {
        v & ((1u64 << bits) - 1)
    }
}
pub fn sext(v: u64, bits: u32) -> i64 {
    if bits >= 64 || bits == 0 {
        v as i64
    } else {
        ((v << (64 - bits)) as i64) >> (64 - bits)
    }
}

impl Module {
    pub fn parse(text: &'static str) -> Module {
        let mut m = Module {
            funcs: vec![],
            fidx: HashMap::new(),
            globals: vec![],
            gidx: HashMap::new(),
            types: HashMap::new(),
            globals_end: 0,
            tls_size: 0,
            aliases: HashMap::new(),
        };
        let s = text.as_bytes();
        let mut pos = 0;
        // pass 1: record definitions
        let mut raw_funcs: Vec<(usize, usize, Option<(usize, usize)>)> = vec![];
        let mut raw_globals: Vec<(usize, usize)> = vec![];
        while pos < s.len() {
            let eol = memchr(b'\n', s, pos).unwrap_or(s.len());
            let line = &s[pos..eol];
            if line.starts_with(b"define ") {
                // find end: line that is exactly "}"
                let mut p = eol + 1;
                let body_start = p;
                loop {
                    let e = memchr(b'\n', s, p).unwrap_or(s.len());
                    if e == p + 1 && s[p] == b'}' {
                        raw_funcs.push((pos, eol, Some((body_start, p))));
                        pos = e + 1;
                        break;
                    }
                    p = e + 1;
                    if p >= s.len() {
                        panic!("unterminated function");
                    }
                }
                continue;
            } else if line.starts_with(b"declare ") {
                raw_funcs.push((pos, eol, None));
            } else if line.starts_with(b"@") {
                raw_globals.push((pos, eol));
            } else if line.starts_with(b"%") {
                if let Some(k) = text[pos..eol].find(" = type ") {
                    let n = text[pos + 1..pos + k].trim_matches('"');
                    m.types.insert(n, &text[pos + k + 8..eol]);
                }
            }
            pos = eol + 1;
        }
        // functions
        for (a, b, body) in raw_funcs {
            let f = {
                let mut p = P { s, i: a, m: &m };
                p.word(); // define / declare
                loop {
                    // linkage etc. until type
                    p.attrs();
                    let w = p.peek_word();
                    match w {
                        "internal" | "private" | "external" | "weak" | "weak_odr" | "linkonce" | "linkonce_odr"
                        | "dso_local" | "hidden" | "protected" | "default" | "unnamed_addr" | "local_unnamed_addr"
                        | "extern_weak" | "available_externally" => {
                            p.i += w.len();
                        }
                        _ => break,
                    }
                }
                p.attrs();
                let ret = p.ty();
                p.expect(b'@');
                let name = p.name();
                p.expect(b'(');
                let mut params = vec![];
                let mut vararg = false;
                let mut n = 0usize;
                if !p.eat(b')') {
                    loop {
                        if p.peek() == b'.' {
                            p.i += 3;
                            vararg = true;
                            break;
                        }
                        let t = p.ty();
                        p.attrs();
                        let pn = if p.eat(b'%') {
                            p.name()
                        } else {
                            Box::leak(n.to_string().into_boxed_str())
                        };
                        n += 1;
                        params.push((t, pn));
                        if !p.eat(b',') {
                            break;
                        }
                    }
                    p.expect(b')');
                }
                let _ = b;
                Func {
                    name,
                    params,
                    ret,
                    text: body.map(|(x, y)| &text[x..y]),
                    body: None,
                    addr: FUNC_BASE + 16 * m.funcs.len() as u64,
                    vararg,
                }
            };
            m.fidx.insert(f.name, m.funcs.len() as u32);
            m.funcs.push(f);
        }
        // globals
        let mut addr = GLOBAL_BASE;
        let mut tls = 0u64;
        for (a, b) in raw_globals {
            let g = {
                let mut p = P { s: &s[..b], i: a + 1, m: &m };
                let name = p.name();
                p.expect(b'=');
                let mut is_tls = false;
                let mut external = false;
                let mut constant = false;
                let mut alias = false;
                loop {
                    let w = p.word();
                    match w {
                        "thread_local" => {
                            is_tls = true;
                            if p.peek() == b'(' {
                                p.skip_parens();
                            }
                        }
                        "external" | "extern_weak" => external = true,
                        "global" => break,
                        "constant" => {
                            constant = true;
                            break;
                        }
                        "alias" => {
                            alias = true;
                            break;
                        }
                        "addrspace" => p.skip_parens(),
                        "" => err(p.s, p.i, "global"),
                        _ => (),
                    }
                }
                if alias {
                    let _t = p.ty();
                    p.expect(b',');
                    let _t = p.ty();
                    p.expect(b'@');
                    let target = p.name();
                    m.aliases.insert(name, target);
                    continue;
                }
                let ty = p.ty();
                let init_at = p.i;
                // find alignment
                let line = &text[a..b];
                let align = match line.rfind(", align ") {
                    Some(k) => {
                        let t = &line[k + 8..];
                        let e = t.find(|c: char| !c.is_ascii_digit()).unwrap_or(t.len());
                        t[..e].parse::<u64>().unwrap()
                    }
                    None => ty.align(),
                };
                let size = ty.size();
                let mut tls_off = 0;
                let gaddr;
                if is_tls {
                    tls = (tls + align - 1) / align * align;
                    tls_off = tls;
                    tls += size.max(1);
                }
                {
                    addr = (addr + align - 1) / align * align;
                    gaddr = addr;
                    addr += size.max(1);
                }
                Global {
                    name,
                    ty,
                    addr: gaddr,
                    size,
                    tls: is_tls,
                    tls_off,
                    init: if external { None } else { Some(&text[init_at..b]) },
                    align,
                    constant,
                }
            };
            m.gidx.insert(g.name, m.globals.len() as u32);
            m.globals.push(g);
        }
        m.globals_end = addr + 64;
        m.tls_size = (tls + 63) / 64 * 64;
        m
    }

    /// Calls `f(addr, bytes)` for all global initialisers.
    pub fn init_globals(&self, f: &mut dyn FnMut(u64, &[u8])) {
        for g in &self.globals {
            if let Some(t) = g.init {
                let mut p = P { s: t.as_bytes(), i: 0, m: self };
                let c = p.constant(&g.ty);
                let mut buf = vec![0u8; g.size as usize];
                write_const(&g.ty, &c, &mut buf);
                f(g.addr, &buf);
            }
        }
    }

    pub fn body(&mut self, f: u32) -> &'static Body {
        if let Some(b) = self.funcs[f as usize].body {
            return b;
        }
        let b: &'static Body = Box::leak(Box::new(parse_body(self, f)));
        self.funcs[f as usize].body = Some(b);
        b
    }
}

fn memchr(c: u8, s: &[u8], from: usize) -> Option<usize> {
    s[from..].iter().position(|x| *x == c).map(|x| x + from)
}

pub fn write_const(ty: &Ty, c: &Const, buf: &mut [u8]) {
    match c {
        Const::Zero | Const::Undef => (),
        Const::Bytes(v) => buf[..v.len()].copy_from_slice(v),
        Const::W(v) => {
            let n = ty.size() as usize;
            buf[..n].copy_from_slice(&v.to_le_bytes()[..n]);
        }
        Const::I(v) => {
            let n = ty.size() as usize;
            buf[..n].copy_from_slice(&v.to_le_bytes()[..n]);
        }
        Const::Agg(v) => match ty {
            Ty::Struct(f, _) => {
                for (i, x) in v.iter().enumerate() {
                    let o = ty.field_offset(i) as usize;
                    write_const(&f[i], x, &mut buf[o..]);
                }
            }
            Ty::Array(_, t) | Ty::Vec(_, t) => {
                let sz = t.size() as usize;
                for (i, x) in v.iter().enumerate() {
                    write_const(t, x, &mut buf[i * sz..]);
                }
            }
            _ => panic!("write_const"),
        },
    }
}

struct BP<'m> {
    p: P<'m>,
    regs: HashMap<&'static str, u32>,
    labels: HashMap<&'static str, u32>,
    nlabels: u32,
}

impl<'m> BP<'m> {
    fn reg(&mut self, n: &'static str) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n).or_insert(k)
    }
    fn label(&mut self, n: &'static str) -> u32 {
        if let Some(x) = self.labels.get(n) {
            return *x;
        }
        let k = self.nlabels;
        self.nlabels += 1;
        self.labels.insert(n, k);
        k
    }
    fn label_ref(&mut self) -> u32 {
        if !self.p.eat_word("label") {
            err(self.p.s, self.p.i, "label");
        }
        self.p.expect(b'%');
        let n = self.p.name();
        self.label(n)
    }
    fn operand(&mut self, ty: &Ty) -> Op {
        if self.p.peek() == b'%' {
            self.p.i += 1;
            let n = self.p.name();
            return Op::R(self.reg(n));
        }
        let c = self.p.constant(ty);
        match c {
            Const::I(x) => Op::C(x),
            c => Op::K(std::rc::Rc::new((ty.clone(), c))),
        }
    }
    fn ty_operand(&mut self) -> (Ty, Op) {
        let t = self.p.ty();
        self.p.attrs();
        let o = self.operand(&t);
        (t, o)
    }
}

fn lanes_of(t: &Ty) -> (u16, u16) {
    match t {
        Ty::Vec(n, t) => (*n as u16, t.bits() as u16),
        t => (0, t.bits() as u16),
    }
}

fn intrinsic(n: &str) -> Option<Intr> {
    let n = n.strip_prefix("llvm.")?;
    Some(
        if n.starts_with("memcpy") || n.starts_with("memmove") {
            Intr::Memcpy
        } else if n.starts_with("memset") {
            Intr::Memset
        } else if n.starts_with("lifetime") || n.starts_with("experimental.noalias") || n.starts_with("dbg") || n.starts_with("invariant") || n.starts_with("donothing") || n.starts_with("prefetch") || n.starts_with("fake.use") {
            Intr::Nop
        } else if n.starts_with("assume") {
            Intr::Assume
        } else if n.starts_with("umax") {
            Intr::UMax
        } else if n.starts_with("umin") {
            Intr::UMin
        } else if n.starts_with("smax") {
            Intr::SMax
        } else if n.starts_with("smin") {
            Intr::SMin
        } else if n.starts_with("ctpop") {
            Intr::Ctpop
        } else if n.starts_with("ctlz") {
            Intr::Ctlz
        } else if n.starts_with("cttz") {
            Intr::Cttz
        } else if n.starts_with("fshl") {
            Intr::Fshl
        } else if n.starts_with("fshr") {
            Intr::Fshr
        } else if n.starts_with("umul.with") {
            Intr::UMulO
        } else if n.starts_with("smul.with") {
            Intr::SMulO
        } else if n.starts_with("uadd.with") {
            Intr::UAddO
        } else if n.starts_with("sadd.with") {
            Intr::SAddO
        } else if n.starts_with("usub.with") {
            Intr::USubO
        } else if n.starts_with("ssub.with") {
            Intr::SSubO
        } else if n.starts_with("uadd.sat") {
            Intr::UAddSat
        } else if n.starts_with("usub.sat") {
            Intr::USubSat
        } else if n.starts_with("sadd.sat") {
            Intr::SAddSat
        } else if n.starts_with("ssub.sat") {
            Intr::SSubSat
        } else if n.starts_with("ucmp") {
            Intr::UCmp
        } else if n.starts_with("scmp") {
            Intr::SCmp
        } else if n.starts_with("bswap") {
            Intr::Bswap
        } else if n.starts_with("bitreverse") {
            Intr::BitReverse
        } else if n.starts_with("is.constant") {
            Intr::IsConstant
        } else if n.starts_with("abs") {
            Intr::Abs
        } else if n.starts_with("trap") || n.starts_with("ubsantrap") {
            Intr::Trap
        } else if n.starts_with("threadlocal.address") {
            Intr::Tls
        } else if n.starts_with("expect") {
            Intr::Expect
        } else if n.starts_with("x86.sse2.pause") {
            Intr::Pause
        } else if n.starts_with("fabs") {
            Intr::FAbs
        } else if n.starts_with("maximumnum") || n.starts_with("maxnum") {
            Intr::FMaxNum
        } else {
            Intr::Unsupported
        },
    )
}

fn pred(w: &str) -> Pred {
    match w {
        "eq" => Pred::Eq,
        "ne" => Pred::Ne,
        "ult" => Pred::Ult,
        "ule" => Pred::Ule,
        "ugt" => Pred::Ugt,
        "uge" => Pred::Uge,
        "slt" => Pred::Slt,
        "sle" => Pred::Sle,
        "sgt" => Pred::Sgt,
        "sge" => Pred::Sge,
        _ => panic!("pred {}", w),
    }
}

fn parse_body(m: &Module, f: u32) -> Body {
    let func = &m.funcs[f as usize];
    let text = func.text.expect("no body");
    let mut b = BP {
        p: P { s: text.as_bytes(), i: 0, m },
        regs: HashMap::new(),
        labels: HashMap::new(),
        nlabels: 0,
    };
    let mut unnamed = 0;
    for (_, n) in &func.params {
        b.reg(n);
        if n.bytes().all(|c| c.is_ascii_digit()) {
            unnamed += 1;
        }
    }
    let mut blocks: Vec<(u32, Block)> = vec![];
    // entry label
    let first_is_label = {
        let save = b.p.i;
        b.p.ws();
        let l = b.p.i;
        let e = memchr(b'\n', b.p.s, l).unwrap_or(b.p.s.len());
        let line = &text[l..e];
        b.p.i = save;
        is_label(line)
    };
    if !first_is_label {
        let n: &'static str = Box::leak(format!("{}", unnamed).into_boxed_str());
        let id = b.label(n);
        blocks.push((id, Block::default()));
    }
    let mut ninsts = 0;
    loop {
        b.p.ws();
        if b.p.i >= b.p.s.len() {
            break;
        }
        // label?
        {
            let l = b.p.i;
            let e = memchr(b'\n', b.p.s, l).unwrap_or(b.p.s.len());
            let line = &text[l..e];
            if is_label(line) {
                let n = b.p.name();
                b.p.expect(b':');
                b.p.skip_line();
                let id = b.label(n);
                blocks.push((id, Block::default()));
                continue;
            }
        }
        ninsts += 1;
        let mut dest: Option<u32> = None;
        if b.p.peek() == b'%' {
            b.p.i += 1;
            let n = b.p.name();
            dest = Some(b.reg(n));
            b.p.expect(b'=');
        }
        let mut w = b.p.word();
        if w == "tail" || w == "musttail" || w == "notail" {
            w = b.p.word();
        }
        let d = dest.unwrap_or(u32::MAX);
        let inst: I = match w {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or"
            | "xor" | "fadd" | "fsub" | "fmul" | "fdiv" => {
                loop {
                    let k = b.p.peek_word();
                    match k {
                        "nuw" | "nsw" | "exact" | "disjoint" | "fast" | "nnan" | "ninf" | "nsz" | "arcp"
                        | "contract" | "afn" | "reassoc" => b.p.i += k.len(),
                        _ => break,
                    }
                }
                let t = b.p.ty();
                let x = b.operand(&t);
                b.p.expect(b',');
                let y = b.operand(&t);
                let (lanes, bits) = lanes_of(&t);
                let op = match w {
                    "add" => BinOp::Add,
                    "sub" => BinOp::Sub,
                    "mul" => BinOp::Mul,
                    "udiv" => BinOp::UDiv,
                    "sdiv" => BinOp::SDiv,
                    "urem" => BinOp::URem,
                    "srem" => BinOp::SRem,
                    "shl" => BinOp::Shl,
                    "lshr" => BinOp::LShr,
                    "ashr" => BinOp::AShr,
                    "and" => BinOp::And,
                    "or" => BinOp::Or,
                    "xor" => BinOp::Xor,
                    "fadd" => BinOp::FAdd,
                    "fsub" => BinOp::FSub,
                    "fmul" => BinOp::FMul,
                    _ => BinOp::FDiv,
                };
                I::Bin { op, w: bits, lanes, d, a: x, b: y }
            }
            "icmp" => {
                b.p.eat_word("samesign");
                let pr = pred(b.p.word());
                let t = b.p.ty();
                let x = b.operand(&t);
                b.p.expect(b',');
                let y = b.operand(&t);
                let (lanes, bits) = lanes_of(&t);
                I::Icmp { p: pr, w: bits, lanes, d, a: x, b: y }
            }
            "fcmp" => {
                let pr = b.p.word();
                let t = b.p.ty();
                let x = b.operand(&t);
                b.p.expect(b',');
                let y = b.operand(&t);
                I::Fcmp { p: pr.into(), w: t.bits() as u16, d, a: x, b: y }
            }
            "select" => {
                let (ct, c) = b.ty_operand();
                b.p.expect(b',');
                let (t, x) = b.ty_operand();
                b.p.expect(b',');
                let (_, y) = b.ty_operand();
                let (lanes, _) = lanes_of(&ct);
                I::Select { d, c, a: x, b: y, w: t.bits() as u16, lanes }
            }
            "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "uitofp" | "sitofp" | "fptoui"
            | "fptosi" | "fpext" | "fptrunc" | "ptrtoaddr" => {
                loop {
                    let k = b.p.peek_word();
                    match k {
                        "nuw" | "nsw" | "nneg" => b.p.i += k.len(),
                        _ => break,
                    }
                }
                let (from, a) = b.ty_operand();
                if !b.p.eat_word("to") {
                    err(b.p.s, b.p.i, "to");
                }
                let to = b.p.ty();
                let op = match w {
                    "trunc" => CastOp::Trunc,
                    "zext" => CastOp::ZExt,
                    "sext" => CastOp::SExt,
                    "bitcast" => CastOp::Bitcast,
                    "ptrtoint" | "ptrtoaddr" => CastOp::PtrToInt,
                    "inttoptr" => CastOp::IntToPtr,
                    "uitofp" => CastOp::UiToFp,
                    "sitofp" => CastOp::SiToFp,
                    "fptoui" => CastOp::FpToUi,
                    "fptosi" => CastOp::FpToSi,
                    "fpext" => CastOp::FpExt,
                    _ => CastOp::FpTrunc,
                };
                if from.is_scalar() && to.is_scalar() {
                    I::CastS { op, fw: from.bits() as u16, tw: to.bits() as u16, d, a }
                } else {
                    I::Cast { op, from: Box::new(from), to: Box::new(to), d, a }
                }
            }
            "getelementptr" => {
                loop {
                    let k = b.p.peek_word();
                    match k {
                        "inbounds" | "nuw" | "nusw" => b.p.i += k.len(),
                        _ => break,
                    }
                }
                let t = b.p.ty();
                b.p.expect(b',');
                let (_, base) = b.ty_operand();
                let mut off = 0i64;
                let mut idx = vec![];
                let mut cur = t;
                let mut first = true;
                while b.p.peek() == b',' {
                    // may be attachments: ", !dbg"
                    let save = b.p.i;
                    b.p.i += 1;
                    if b.p.peek() == b'!' {
                        b.p.i = save;
                        break;
                    }
                    let (it, iv) = b.ty_operand();
                    let scale;
                    if first {
                        scale = cur.size();
                        first = false;
                    } else {
                        match cur.clone() {
                            Ty::Struct(f, _) => {
                                let k = match iv {
                                    Op::C(k) => k as usize,
                                    _ => err(b.p.s, b.p.i, "struct gep"),
                                };
                                off += cur.field_offset(k) as i64;
                                cur = f[k].clone();
                                continue;
                            }
                            Ty::Array(_, t) | Ty::Vec(_, t) => {
                                scale = t.size();
                                cur = *t;
                            }
                            _ => err(b.p.s, b.p.i, "gep type"),
                        }
                    }
                    match iv {
                        Op::C(k) => off = off.wrapping_add(sext(k, it.bits()).wrapping_mul(scale as i64)),
                        iv => idx.push((iv, scale, it.bits() as u16)),
                    }
                }
                match (&base, idx.is_empty()) {
                    (Op::C(x), true) => I::Copy { d, a: Op::C(x.wrapping_add(off as u64)) },
                    _ => I::Gep { d, base, off, idx: idx.into_boxed_slice() },
                }
            }
            "load" => {
                let atomic = b.p.eat_word("atomic");
                b.p.eat_word("volatile");
                let t = b.p.ty();
                b.p.expect(b',');
                let (_, ptr) = b.ty_operand();
                if t.is_scalar() {
                    I::Load { d, bits: t.bits() as u16, ptr, atomic }
                } else {
                    I::LoadAgg { d, ty: Box::new(t), ptr }
                }
            }
            "store" => {
                let atomic = b.p.eat_word("atomic");
                b.p.eat_word("volatile");
                let (t, v) = b.ty_operand();
                b.p.expect(b',');
                let (_, ptr) = b.ty_operand();
                if t.is_scalar() {
                    I::Store { bits: t.bits() as u16, v, ptr, atomic }
                } else {
                    I::StoreAgg { ty: Box::new(t), v, ptr }
                }
            }
            "alloca" => {
                let t = b.p.ty();
                let mut n = 1;
                let mut align = t.align();
                while b.p.eat(b',') {
                    if b.p.eat_word("align") {
                        align = b.p.uint();
                    } else if b.p.peek() == b'!' {
                        break;
                    } else {
                        let (_, c) = b.ty_operand();
                        match c {
                            Op::C(k) => n = k,
                            _ => err(b.p.s, b.p.i, "dynamic alloca"),
                        }
                    }
                }
                I::Alloca { d, size: t.size() * n, align }
            }
            "call" | "invoke" => {
                loop {
                    let k = b.p.peek_word();
                    match k {
                        "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" => {
                            b.p.i += k.len()
                        }
                        _ => break,
                    }
                }
                b.p.attrs();
                let ret = b.p.ty();
                // optional function type in parens (varargs)
                if b.p.peek() == b'(' {
                    b.p.skip_parens();
                }
                let callee = if b.p.eat_word("asm") {
                    // asm [sideeffect] "..", ".."(args)
                    while b.p.peek() != b'"' {
                        b.p.word();
                    }
                    b.p.i += 1;
                    let st = b.p.i;
                    while b.p.s[b.p.i] != b'"' {
                        b.p.i += 1;
                    }
                    let t = &text[st..b.p.i];
                    b.p.i += 1;
                    b.p.expect(b',');
                    b.p.expect(b'"');
                    while b.p.s[b.p.i] != b'"' {
                        b.p.i += 1;
                    }
                    b.p.i += 1;
                    if t.is_empty() {
                        Callee::Intrinsic(Intr::Nop)
                    } else {
                        Callee::Asm
                    }
                } else if b.p.peek() == b'@' {
                    b.p.i += 1;
                    let n = b.p.name();
                    let n = *m.aliases.get(n).unwrap_or(&n);
                    if let Some(i) = intrinsic(n) {
                        if i == Intr::Unsupported {
                            Callee::Named(n.into())
                        } else {
                            Callee::Intrinsic(i)
                        }
                    } else {
                        match m.fidx.get(n) {
                            Some(f) => Callee::Func(*f),
                            None => Callee::Named(n.into()),
                        }
                    }
                } else {
                    let o = b.operand(&Ty::Ptr);
                    Callee::Indirect(o)
                };
                b.p.expect(b'(');
                let mut args = vec![];
                let mut argw = vec![];
                if !b.p.eat(b')') {
                    loop {
                        let t = b.p.ty();
                        if t == Ty::Opaque {
                            // metadata argument: skip to , or )
                            let mut depth = 0;
                            loop {
                                let c = b.p.s[b.p.i];
                                if c == b'(' {
                                    depth += 1
                                }
                                if c == b')' {
                                    if depth == 0 {
                                        break;
                                    }
                                    depth -= 1
                                }
                                if c == b',' && depth == 0 {
                                    break;
                                }
                                b.p.i += 1;
                            }
                            args.push(Op::C(0));
                            argw.push(0);
                        } else {
                            b.p.attrs();
                            let o = b.operand(&t);
                            argw.push(t.bits() as u16);
                            args.push(o);
                        }
                        if !b.p.eat(b',') {
                            break;
                        }
                    }
                    b.p.expect(b')');
                }
                let mut normal = None;
                if w == "invoke" {
                    // skip to "to label"
                    loop {
                        let k = b.p.peek();
                        if k == b'#' {
                            b.p.i += 1;
                            b.p.uint();
                        } else if k == b'[' {
                            while b.p.s[b.p.i] != b']' {
                                b.p.i += 1;
                            }
                            b.p.i += 1;
                        } else {
                            break;
                        }
                    }
                    if !b.p.eat_word("to") {
                        err(b.p.s, b.p.i, "invoke to");
                    }
                    normal = Some(b.label_ref());
                    if !b.p.eat_word("unwind") {
                        err(b.p.s, b.p.i, "invoke unwind");
                    }
                    b.label_ref();
                }
                I::Call(Box::new(Call {
                    d: dest,
                    callee,
                    args: args.into_boxed_slice(),
                    argw: argw.into_boxed_slice(),
                    ret,
                    normal,
                }))
            }
            "br" => {
                if b.p.peek_word() == "label" {
                    I::Br(b.label_ref())
                } else {
                    let (_, c) = b.ty_operand();
                    b.p.expect(b',');
                    let t = b.label_ref();
                    b.p.expect(b',');
                    let f = b.label_ref();
                    I::CondBr { c, t, f }
                }
            }
            "switch" => {
                let (t, v) = b.ty_operand();
                b.p.expect(b',');
                let def = b.label_ref();
                b.p.expect(b'[');
                let mut cases = vec![];
                while !b.p.eat(b']') {
                    let (_, c) = b.ty_operand();
                    b.p.expect(b',');
                    let l = b.label_ref();
                    match c {
                        Op::C(x) => cases.push((x, l)),
                        _ => err(b.p.s, b.p.i, "switch case"),
                    }
                }
                I::Switch { w: t.bits() as u16, v, def, cases: cases.into_boxed_slice() }
            }
            "ret" => {
                let t = b.p.ty();
                if t == Ty::Void {
                    I::Ret(None)
                } else {
                    let o = b.operand(&t);
                    I::Ret(Some(o))
                }
            }
            "unreachable" => I::Unreachable,
            "phi" => {
                let t = b.p.ty();
                let mut inc = vec![];
                loop {
                    b.p.expect(b'[');
                    let v = b.operand(&t);
                    b.p.expect(b',');
                    b.p.expect(b'%');
                    let n = b.p.name();
                    let l = b.label(n);
                    b.p.expect(b']');
                    inc.push((l, v));
                    if b.p.peek() == b',' {
                        let save = b.p.i;
                        b.p.i += 1;
                        if b.p.peek() == b'!' {
                            b.p.i = save;
                            break;
                        }
                    } else {
                        break;
                    }
                }
                b.p.end_line();
                blocks.last_mut().unwrap().1.phis.push((d, inc));
                continue;
            }
            "extractvalue" => {
                let (_, a) = b.ty_operand();
                let mut path = vec![];
                while b.p.peek() == b',' {
                    let save = b.p.i;
                    b.p.i += 1;
                    if b.p.peek() == b'!' {
                        b.p.i = save;
                        break;
                    }
                    path.push(b.p.uint() as u32);
                }
                I::ExtractValue { d, a, path: path.into_boxed_slice() }
            }
            "insertvalue" => {
                let (t, a) = b.ty_operand();
                b.p.expect(b',');
                let (_, v) = b.ty_operand();
                let mut path = vec![];
                while b.p.peek() == b',' {
                    let save = b.p.i;
                    b.p.i += 1;
                    if b.p.peek() == b'!' {
                        b.p.i = save;
                        break;
                    }
                    path.push(b.p.uint() as u32);
                }
                I::InsertValue { d, a, v, path: path.into_boxed_slice(), ty: Box::new(t) }
            }
            "extractelement" => {
                let (_, a) = b.ty_operand();
                b.p.expect(b',');
                let (_, i) = b.ty_operand();
                I::ExtractElement { d, a, i }
            }
            "insertelement" => {
                let (t, a) = b.ty_operand();
                b.p.expect(b',');
                let (_, v) = b.ty_operand();
                b.p.expect(b',');
                let (_, i) = b.ty_operand();
                I::InsertElement { d, a, v, i, lanes: lanes_of(&t).0 }
            }
            "shufflevector" => {
                let (t, a) = b.ty_operand();
                b.p.expect(b',');
                let (_, bb) = b.ty_operand();
                b.p.expect(b',');
                let mt = b.p.ty();
                let c = b.p.constant(&mt);
                let n = match mt {
                    Ty::Vec(n, _) => n,
                    _ => 0,
                };
                let mask = match c {
                    Const::Zero | Const::Undef => vec![0; n as usize],
                    Const::Agg(v) => v
                        .iter()
                        .map(|x| match x {
                            Const::I(x) => *x as u32,
                            _ => 0,
                        })
                        .collect(),
                    _ => err(b.p.s, b.p.i, "shuffle mask"),
                };
                I::Shuffle { d, a, b: bb, mask: mask.into_boxed_slice(), lanes: lanes_of(&t).0 }
            }
            "atomicrmw" => {
                b.p.eat_word("volatile");
                let op = match b.p.word() {
                    "xchg" => RmwOp::Xchg,
                    "add" => RmwOp::Add,
                    "sub" => RmwOp::Sub,
                    "and" => RmwOp::And,
                    "or" => RmwOp::Or,
                    "xor" => RmwOp::Xor,
                    "nand" => RmwOp::Nand,
                    "max" => RmwOp::Max,
                    "min" => RmwOp::Min,
                    "umax" => RmwOp::UMax,
                    "umin" => RmwOp::UMin,
                    x => panic!("atomicrmw {}", x),
                };
                let (_, ptr) = b.ty_operand();
                b.p.expect(b',');
                let (t, v) = b.ty_operand();
                I::AtomicRmw { op, d, bits: t.bits() as u16, ptr, v }
            }
            "cmpxchg" => {
                b.p.eat_word("weak");
                b.p.eat_word("volatile");
                let (_, ptr) = b.ty_operand();
                b.p.expect(b',');
                let (t, c) = b.ty_operand();
                b.p.expect(b',');
                let (_, n) = b.ty_operand();
                I::CmpXchg { d, bits: t.bits() as u16, ptr, c, n }
            }
            "freeze" => {
                let (_, a) = b.ty_operand();
                I::Copy { d, a }
            }
            "fence" => I::Fence,
            "landingpad" => {
                b.p.ty();
                b.p.end_line();
                // clauses on following lines
                loop {
                    let k = b.p.peek_word();
                    if k == "cleanup" || k == "catch" || k == "filter" {
                        b.p.skip_line();
                    } else {
                        break;
                    }
                }
                blocks.last_mut().unwrap().1.insts.push(I::LandingPad);
                continue;
            }
            "resume" => I::LandingPad,
            _ => err(b.p.s, b.p.i, &format!("unknown instruction {}", w)),
        };
        b.p.end_line();
        blocks.last_mut().unwrap().1.insts.push(inst);
    }
    let n = b.nlabels as usize;
    let mut out: Vec<Block> = (0..n).map(|_| Block::default()).collect();
    for (id, blk) in blocks {
        out[id as usize] = blk;
    }
    Body { nregs: b.regs.len() as u32, blocks: out, ninsts }
}

fn is_label(line: &str) -> bool {
    // "name:" possibly followed by comment
    let b = line.as_bytes();
    if b.is_empty() {
        return false;
    }
    if b[0] == b'"' {
        if let Some(k) = line[1..].find('"') {
            return line[k + 2..].starts_with(':');
        }
        return false;
    }
    let mut i = 0;
    while i < b.len() && is_id(b[i]) {
        i += 1;
    }
    i > 0 && i < b.len() && b[i] == b':'
}
