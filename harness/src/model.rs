//! An independent model of Lua 5.0 and 5.1 binary chunks: data types, encoder and strict decoder.
//! It shares no code with lunify; formats are described with lunify's public `Format` type only.

use lunify::{lua50, lua51, BitWidth, Endianness, Format, InstructionLayout, OperandType, Settings};

// ---------------------------------------------------------------- layouts and settings

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Op4 {
    O,
    A,
    B,
    C,
}

/// An instruction layout: operands from the lowest bit upwards, with their sizes.
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Lay {
    pub order: [(Op4, u64); 4],
}

impl Lay {
    pub const fn new(order: [(Op4, u64); 4]) -> Self {
        Lay { order }
    }
    pub const L51: Lay = Lay::new([(Op4::O, 6), (Op4::A, 8), (Op4::C, 9), (Op4::B, 9)]);
    pub const L50: Lay = Lay::new([(Op4::O, 6), (Op4::C, 9), (Op4::B, 9), (Op4::A, 8)]);

    pub fn spec(&self) -> [OperandType; 4] {
        self.order.map(|(op, size)| match op {
            Op4::O => OperandType::Opcode(size),
            Op4::A => OperandType::A(size),
            Op4::B => OperandType::B(size),
            Op4::C => OperandType::C(size),
        })
    }
    pub fn lunify(&self) -> InstructionLayout {
        InstructionLayout::from_specification(self.spec()).expect("layout accepted")
    }
    pub fn size(&self, op: Op4) -> u64 {
        self.order.iter().find(|(o, _)| *o == op).unwrap().1
    }
    pub fn pos(&self, op: Op4) -> u64 {
        let mut p = 0;
        for (o, s) in self.order {
            if o == op {
                return p;
            }
            p += s;
        }
        unreachable!()
    }
    pub fn total(&self) -> u64 {
        self.order.iter().map(|(_, s)| s).sum()
    }
    pub fn bx_size(&self) -> u64 {
        self.size(Op4::B) + self.size(Op4::C)
    }
    pub fn bx_pos(&self) -> u64 {
        self.pos(Op4::B).min(self.pos(Op4::C))
    }
    pub fn max(&self, op: Op4) -> u64 {
        (1u64 << self.size(op)) - 1
    }
    pub fn max_bx(&self) -> u64 {
        (1u64 << self.bx_size()) - 1
    }
    /// MAXARG_sBx of Lua: half of MAXARG_Bx.
    pub fn bias(&self) -> i64 {
        (self.max_bx() >> 1) as i64
    }
    pub fn const_bit(&self) -> u64 {
        1 << (self.size(Op4::B) - 1)
    }
    pub fn get(&self, word: u64, op: Op4) -> u64 {
        (word >> self.pos(op)) & self.max(op)
    }
    pub fn get_bx(&self, word: u64) -> u64 {
        (word >> self.bx_pos()) & self.max_bx()
    }
}

#[derive(Clone, PartialEq, Debug)]
pub struct Consts {
    pub sig: String,
    pub stack: u64,
    pub fpf: u64,
    pub lay: Lay,
}

/// The three groups of compile constants, convertible to lunify's `Settings`.
#[derive(Clone, PartialEq, Debug)]
pub struct Sett {
    pub l50: Consts,
    pub l51: Consts,
    pub out: Consts,
}

impl Default for Sett {
    fn default() -> Self {
        let c51 = Consts { sig: "\x1bLua".into(), stack: 250, fpf: 50, lay: Lay::L51 };
        Sett {
            l50: Consts { sig: "\x1bLua".into(), stack: 250, fpf: 32, lay: Lay::L50 },
            l51: c51.clone(),
            out: c51,
        }
    }
}

impl Sett {
    pub fn lunify(&self) -> Settings<'_> {
        Settings {
            lua50: lua50::Settings {
                stack_limit: self.l50.stack,
                fields_per_flush: self.l50.fpf,
                binary_signature: &self.l50.sig,
                layout: self.l50.lay.lunify(),
            },
            lua51: self.l51.lunify51(),
            output: self.out.lunify51(),
        }
    }
}

impl Consts {
    pub fn lunify51(&self) -> lua51::Settings<'_> {
        lua51::Settings {
            stack_limit: self.stack,
            fields_per_flush: self.fpf,
            binary_signature: &self.sig,
            layout: self.lay.lunify(),
        }
    }
}

pub fn width(w: BitWidth) -> usize {
    match w {
        BitWidth::Bit32 => 4,
        BitWidth::Bit64 => 8,
    }
}

pub fn fmt_str(f: &Format) -> String {
    format!(
        "fmt{} {} int{} size{} ins{} num{}{}",
        f.format,
        if f.endianness == Endianness::Little { "LE" } else { "BE" },
        width(f.integer_width),
        width(f.size_t_width),
        width(f.instruction_width),
        width(f.number_width),
        if f.is_number_integral { "i" } else { "f" }
    )
}

pub fn lay_str(l: &Lay) -> String {
    l.order.iter().map(|(o, s)| format!("{o:?}{s}")).collect::<Vec<_>>().join("-")
}

pub fn cons_str(c: &Consts) -> String {
    format!("sig={:?} stack={} fpf={} lay={}", c.sig, c.stack, c.fpf, lay_str(&c.lay))
}

// ---------------------------------------------------------------- instructions

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum M {
    N,
    U,
    R,
    K,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Abc(M, M),
    Abx,
    Asbx,
}

use Kind::*;
use M::*;

pub struct OpInfo {
    pub name: &'static str,
    pub kind: Kind,
    /// Whether the instruction uses A.
    pub a: bool,
}

const fn op(name: &'static str, kind: Kind, a: bool) -> OpInfo {
    OpInfo { name, kind, a }
}

pub static OPS51: [OpInfo; 38] = [
    op("MOVE", Abc(R, N), true),
    op("LOADK", Abx, true),
    op("LOADBOOL", Abc(U, U), true),
    op("LOADNIL", Abc(R, N), true),
    op("GETUPVAL", Abc(U, N), true),
    op("GETGLOBAL", Abx, true),
    op("GETTABLE", Abc(R, K), true),
    op("SETGLOBAL", Abx, true),
    op("SETUPVAL", Abc(U, N), true),
    op("SETTABLE", Abc(K, K), true),
    op("NEWTABLE", Abc(N, N), true), // size hints
    op("SELF", Abc(R, K), true),
    op("ADD", Abc(K, K), true),
    op("SUB", Abc(K, K), true),
    op("MUL", Abc(K, K), true),
    op("DIV", Abc(K, K), true),
    op("MOD", Abc(K, K), true),
    op("POW", Abc(K, K), true),
    op("UNM", Abc(R, N), true),
    op("NOT", Abc(R, N), true),
    op("LEN", Abc(R, N), true),
    op("CONCAT", Abc(R, R), true),
    op("JMP", Asbx, false),
    op("EQ", Abc(K, K), true),
    op("LT", Abc(K, K), true),
    op("LE", Abc(K, K), true),
    op("TEST", Abc(N, U), true),
    op("TESTSET", Abc(R, U), true),
    op("CALL", Abc(U, U), true),
    op("TAILCALL", Abc(U, U), true),
    op("RETURN", Abc(U, N), true),
    op("FORLOOP", Asbx, true),
    op("FORPREP", Asbx, true),
    op("TFORLOOP", Abc(N, U), true),
    op("SETLIST", Abc(U, U), true),
    op("CLOSE", Abc(N, N), true),
    op("CLOSURE", Abx, true),
    op("VARARG", Abc(U, N), true),
];

pub static OPS50: [OpInfo; 35] = [
    op("MOVE", Abc(R, N), true),
    op("LOADK", Abx, true),
    op("LOADBOOL", Abc(U, U), true),
    op("LOADNIL", Abc(R, N), true),
    op("GETUPVAL", Abc(U, N), true),
    op("GETGLOBAL", Abx, true),
    op("GETTABLE", Abc(R, K), true),
    op("SETGLOBAL", Abx, true),
    op("SETUPVAL", Abc(U, N), true),
    op("SETTABLE", Abc(K, K), true),
    op("NEWTABLE", Abc(N, N), true),
    op("SELF", Abc(R, K), true),
    op("ADD", Abc(K, K), true),
    op("SUB", Abc(K, K), true),
    op("MUL", Abc(K, K), true),
    op("DIV", Abc(K, K), true),
    op("POW", Abc(K, K), true),
    op("UNM", Abc(R, N), true),
    op("NOT", Abc(R, N), true),
    op("CONCAT", Abc(R, R), true),
    op("JMP", Asbx, false),
    op("EQ", Abc(K, K), true),
    op("LT", Abc(K, K), true),
    op("LE", Abc(K, K), true),
    op("TEST", Abc(R, U), true),
    op("CALL", Abc(U, U), true),
    op("TAILCALL", Abc(U, U), true),
    op("RETURN", Abc(U, N), true),
    op("FORLOOP", Asbx, true),
    op("TFORLOOP", Abc(N, U), true),
    op("TFORPREP", Asbx, true),
    op("SETLIST", Abx, true),
    op("SETLISTO", Abx, true),
    op("CLOSE", Abc(N, N), true),
    op("CLOSURE", Abx, true),
];

/// Opcode numbers by name.
pub fn o51(name: &str) -> u8 {
    OPS51.iter().position(|o| o.name == name).unwrap() as u8
}
pub fn o50(name: &str) -> u8 {
    OPS50.iter().position(|o| o.name == name).unwrap() as u8
}

/// Register/constant operand.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Rk {
    pub k: bool,
    pub v: u64,
}

pub fn r(v: u64) -> Rk {
    Rk { k: false, v }
}
pub fn k(v: u64) -> Rk {
    Rk { k: true, v }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Args {
    Abc(Rk, Rk),
    Abx(u64),
    Asbx(i64),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Ins {
    pub op: u8,
    pub a: u64,
    pub args: Args,
}

impl Ins {
    pub fn abc(op: u8, a: u64, b: u64, c: u64) -> Ins {
        Ins { op, a, args: Args::Abc(r(b), r(c)) }
    }
    pub fn rk(op: u8, a: u64, b: Rk, c: Rk) -> Ins {
        Ins { op, a, args: Args::Abc(b, c) }
    }
    pub fn abx(op: u8, a: u64, bx: u64) -> Ins {
        Ins { op, a, args: Args::Abx(bx) }
    }
    pub fn sbx(op: u8, a: u64, sbx: i64) -> Ins {
        Ins { op, a, args: Args::Asbx(sbx) }
    }
    pub fn b(&self) -> u64 {
        match self.args {
            Args::Abc(b, _) => b.v,
            _ => 0,
        }
    }
    pub fn c(&self) -> u64 {
        match self.args {
            Args::Abc(_, c) => c.v,
            _ => 0,
        }
    }
    pub fn bx(&self) -> u64 {
        match self.args {
            Args::Abx(v) => v,
            _ => 0,
        }
    }
    pub fn show(&self, ops: &[OpInfo]) -> String {
        let rk = |x: Rk| if x.k { format!("k{}", x.v) } else { format!("{}", x.v) };
        let name = ops.get(self.op as usize).map_or("?", |o| o.name);
        match self.args {
            Args::Abc(b, c) => format!("{name} {} {} {}", self.a, rk(b), rk(c)),
            Args::Abx(v) => format!("{name} {} bx{v}", self.a),
            Args::Asbx(v) => format!("{name} {} s{v}", self.a),
        }
    }
    /// The same instruction with the parts its opcode does not use blanked.
    pub fn canon51(&self) -> Ins {
        let info = &OPS51[self.op as usize];
        let mut i = *self;
        if !info.a {
            i.a = 0;
        }
        if let (Abc(mb, mc), Args::Abc(b, c)) = (info.kind, i.args) {
            let blank = |m: M, x: Rk| if m == N { r(0) } else { x };
            i.args = Args::Abc(blank(mb, b), blank(mc, c));
        }
        i
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ver {
    V50,
    V51,
}

impl Ver {
    pub fn ops(self) -> &'static [OpInfo] {
        match self {
            Ver::V50 => &OPS50,
            Ver::V51 => &OPS51,
        }
    }
    pub fn byte(self) -> u8 {
        match self {
            Ver::V50 => 0x50,
            Ver::V51 => 0x51,
        }
    }
}

/// Encodes an instruction; None when a value does not fit.
pub fn encode_ins(i: &Ins, ver: Ver, cons: &Consts) -> Option<u64> {
    let lay = &cons.lay;
    let info = &ver.ops()[i.op as usize];
    let put = |op: Op4, v: u64| (v <= lay.max(op)).then(|| v << lay.pos(op));
    let mut w = put(Op4::O, i.op as u64)? | put(Op4::A, i.a)?;
    match (info.kind, i.args) {
        (Abc(mb, mc), Args::Abc(b, c)) => {
            let rk = |m: M, x: Rk| -> Option<u64> {
                // a register this high would be read as a constant
                let registers = if ver == Ver::V50 { cons.stack } else { lay.const_bit() };
                match ver {
                    _ if m == K && !x.k => (x.v < registers).then_some(x.v),
                    Ver::V50 => Some(if x.k { x.v + cons.stack } else { x.v }),
                    Ver::V51 => {
                        if x.k {
                            (x.v < lay.const_bit()).then_some(x.v | lay.const_bit())
                        } else {
                            Some(x.v)
                        }
                    }
                }
            };
            w |= put(Op4::B, rk(mb, b)?)? | put(Op4::C, rk(mc, c)?)?;
        }
        (Abx, Args::Abx(v)) => {
            if v > lay.max_bx() {
                return None;
            }
            w |= v << lay.bx_pos();
        }
        (Asbx, Args::Asbx(v)) => {
            let raw = v.checked_add(lay.bias())?;
            if raw < 0 || raw as u64 > lay.max_bx() {
                return None;
            }
            w |= (raw as u64) << lay.bx_pos();
        }
        _ => panic!("operand shape of {} does not match", info.name),
    }
    Some(w)
}

pub fn decode_ins(w: u64, ver: Ver, cons: &Consts) -> Result<Ins, String> {
    let lay = &cons.lay;
    let op = lay.get(w, Op4::O);
    let Some(info) = ver.ops().get(op as usize) else {
        return Err(format!("opcode {op}"));
    };
    let used = lay.total();
    if used < 64 && w >> used != 0 {
        return Err(format!("bits beyond the layout in {w:#x}"));
    }
    let a = lay.get(w, Op4::A);
    let args = match info.kind {
        Abc(mb, mc) => {
            let rk = |m: M, v: u64| match (m, ver) {
                (K, Ver::V50) if v >= cons.stack => k(v - cons.stack),
                (K, Ver::V51) if v & lay.const_bit() != 0 => k(v ^ lay.const_bit()),
                _ => r(v),
            };
            Args::Abc(rk(mb, lay.get(w, Op4::B)), rk(mc, lay.get(w, Op4::C)))
        }
        Abx => Args::Abx(lay.get_bx(w)),
        Asbx => Args::Asbx(lay.get_bx(w) as i64 - lay.bias()),
    };
    Ok(Ins { op: op as u8, a, args })
}

// ---------------------------------------------------------------- chunks

/// The bytes of a string including the terminating zero; empty = absent.
pub type LStr = Vec<u8>;

pub fn lstr(s: &[u8]) -> LStr {
    let mut v = s.to_vec();
    v.push(0);
    v
}

#[derive(Clone, Copy, Debug)]
pub enum Num {
    F(f64),
    I(i64),
}

impl PartialEq for Num {
    fn eq(&self, o: &Self) -> bool {
        match (self, o) {
            (Num::F(a), Num::F(b)) => a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()),
            (Num::I(a), Num::I(b)) => a == b,
            _ => false,
        }
    }
}

#[derive(Clone, PartialEq, Debug)]
pub enum Const {
    Nil,
    Bool(bool),
    Num(Num),
    Str(LStr),
}

#[derive(Clone, PartialEq, Debug)]
pub struct Local {
    pub name: LStr,
    pub start: i64,
    pub end: i64,
}

#[derive(Clone, PartialEq, Debug, Default)]
pub struct Proto {
    pub source: LStr,
    pub line: i64,
    pub last_line: i64,
    pub nups: u8,
    pub nparams: u8,
    pub vararg: u8,
    pub maxstack: u8,
    pub code: Vec<Ins>,
    pub consts: Vec<Const>,
    pub protos: Vec<Proto>,
    pub lines: Vec<i64>,
    pub locals: Vec<Local>,
    pub upnames: Vec<LStr>,
}

impl Proto {
    pub fn depth(&self) -> usize {
        1 + self.protos.iter().map(|p| p.depth()).max().unwrap_or(0)
    }
    pub fn ins_count(&self) -> usize {
        self.code.len() + self.protos.iter().map(|p| p.ins_count()).sum::<usize>()
    }
    pub fn walk<'a>(&'a self, f: &mut dyn FnMut(&'a Proto)) {
        f(self);
        for p in &self.protos {
            p.walk(f);
        }
    }
    pub fn any(&self, f: &mut dyn FnMut(&Proto) -> bool) -> bool {
        f(self) || self.protos.iter().any(|p| p.any(f))
    }
}

pub fn show_proto(p: &Proto, ver: Ver, indent: usize) -> String {
    let pad = " ".repeat(indent);
    let mut s = format!(
        "{pad}function src={:?} lines {}..{} ups={} params={} vararg={} stack={}\n",
        String::from_utf8_lossy(&p.source),
        p.line,
        p.last_line,
        p.nups,
        p.nparams,
        p.vararg,
        p.maxstack
    );
    for (pc, i) in p.code.iter().enumerate() {
        s += &format!("{pad} [{pc}] {} @{}\n", i.show(ver.ops()), p.lines.get(pc).copied().unwrap_or(-1));
    }
    for (n, c) in p.consts.iter().enumerate() {
        let t = match c {
            Const::Str(b) if b.len() > 60 => format!("Str({} bytes)", b.len()),
            Const::Str(b) => format!("Str({:?})", String::from_utf8_lossy(b)),
            other => format!("{other:?}"),
        };
        s += &format!("{pad} k{n} {t}\n");
    }
    for l in &p.locals {
        s += &format!("{pad} local {:?} {}..{}\n", String::from_utf8_lossy(&l.name), l.start, l.end);
    }
    for u in &p.upnames {
        s += &format!("{pad} up {:?}\n", String::from_utf8_lossy(u));
    }
    for q in &p.protos {
        s += &show_proto(q, ver, indent + 2);
    }
    s
}

/// What a byte range of an encoded chunk holds; used to aim corruptions.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Field {
    Signature,
    Version,
    Format,
    Endian,
    IntWidth,
    SizeWidth,
    InsWidth,
    NumWidth,
    NumKind,
    OpSizes,
    TestNum,
    StrLen,
    StrData,
    Int,
    Byte,
    Count,
    Instruction,
    ConstTag,
    ConstBool,
    Number,
}

pub struct Enc<'a> {
    pub out: Vec<u8>,
    pub map: Vec<(usize, usize, Field)>,
    fmt: &'a Format,
    cons: &'a Consts,
    ver: Ver,
    pub bad: Option<String>,
}

impl<'a> Enc<'a> {
    fn mark(&mut self, start: usize, f: Field) {
        let len = self.out.len() - start;
        self.map.push((start, len, f));
    }
    fn raw(&mut self, v: u64, w: usize) {
        for i in 0..w {
            let at = if self.fmt.endianness == Endianness::Little { i } else { w - 1 - i };
            self.out.push((v >> (8 * at)) as u8);
        }
    }
    fn byte(&mut self, v: u8, f: Field) {
        self.out.push(v);
        self.mark(self.out.len() - 1, f);
    }
    fn int(&mut self, v: i64, f: Field) {
        if self.fmt.integer_width == BitWidth::Bit32 && i32::try_from(v).is_err() {
            self.bad = Some(format!("integer {v} does not fit"));
        }
        let s = self.out.len();
        self.raw(v as u64, width(self.fmt.integer_width));
        self.mark(s, f);
    }
    fn string(&mut self, b: &[u8]) {
        let s = self.out.len();
        self.raw(b.len() as u64, width(self.fmt.size_t_width));
        self.mark(s, Field::StrLen);
        if !b.is_empty() {
            let s = self.out.len();
            self.out.extend_from_slice(b);
            self.mark(s, Field::StrData);
        }
    }
    fn number(&mut self, n: Num) {
        let s = self.out.len();
        let w = width(self.fmt.number_width);
        match (n, self.fmt.is_number_integral) {
            (Num::F(v), false) => {
                if w == 4 {
                    self.raw((v as f32).to_bits() as u64, 4)
                } else {
                    self.raw(v.to_bits(), 8)
                }
            }
            (Num::I(v), true) => {
                if w == 4 && i32::try_from(v).is_err() {
                    self.bad = Some(format!("number {v} does not fit"));
                }
                self.raw(v as u64, w)
            }
            _ => self.bad = Some("number kind does not match the format".into()),
        }
        self.mark(s, Field::Number);
    }
    fn code(&mut self, p: &Proto) {
        self.int(p.code.len() as i64, Field::Count);
        for i in &p.code {
            let s = self.out.len();
            match encode_ins(i, self.ver, self.cons) {
                Some(w) => {
                    if self.fmt.instruction_width == BitWidth::Bit32 && w > u32::MAX as u64 {
                        self.bad = Some(format!("{} does not fit the instruction word", i.show(self.ver.ops())));
                    }
                    self.raw(w, width(self.fmt.instruction_width));
                }
                None => {
                    self.bad = Some(format!("{} does not fit the layout", i.show(self.ver.ops())));
                    self.raw(0, width(self.fmt.instruction_width));
                }
            }
            self.mark(s, Field::Instruction);
        }
    }
    fn consts(&mut self, p: &Proto) {
        self.int(p.consts.len() as i64, Field::Count);
        for c in &p.consts {
            match c {
                Const::Nil => self.byte(0, Field::ConstTag),
                Const::Bool(b) => {
                    self.byte(1, Field::ConstTag);
                    self.byte(*b as u8, Field::ConstBool);
                }
                Const::Num(n) => {
                    self.byte(3, Field::ConstTag);
                    self.number(*n);
                }
                Const::Str(b) => {
                    self.byte(4, Field::ConstTag);
                    self.string(b);
                }
            }
        }
    }
    fn protos(&mut self, p: &Proto) {
        self.int(p.protos.len() as i64, Field::Count);
        for q in &p.protos {
            self.proto(q);
        }
    }
    fn debug(&mut self, p: &Proto) {
        self.int(p.lines.len() as i64, Field::Count);
        for l in &p.lines {
            self.int(*l, Field::Int);
        }
        self.int(p.locals.len() as i64, Field::Count);
        for l in &p.locals {
            self.string(&l.name);
            self.int(l.start, Field::Int);
            self.int(l.end, Field::Int);
        }
        self.int(p.upnames.len() as i64, Field::Count);
        for u in &p.upnames {
            self.string(u);
        }
    }
    fn proto(&mut self, p: &Proto) {
        self.string(&p.source);
        self.int(p.line, Field::Int);
        if self.ver == Ver::V51 {
            self.int(p.last_line, Field::Int);
        }
        for b in [p.nups, p.nparams, p.vararg, p.maxstack] {
            self.byte(b, Field::Byte);
        }
        if self.ver == Ver::V51 {
            self.code(p);
            self.consts(p);
            self.protos(p);
            self.debug(p);
        } else {
            self.debug(p);
            self.consts(p);
            self.protos(p);
            self.code(p);
        }
    }
}

/// Encodes a chunk; `bad` is set when the program does not fit the format.
pub fn encode<'a>(p: &Proto, ver: Ver, fmt: &'a Format, cons: &'a Consts) -> Enc<'a> {
    let mut e = Enc { out: Vec::new(), map: Vec::new(), fmt, cons, ver, bad: None };
    e.out.extend_from_slice(cons.sig.as_bytes());
    e.mark(0, Field::Signature);
    e.byte(ver.byte(), Field::Version);
    if ver == Ver::V51 {
        e.byte(fmt.format, Field::Format);
    }
    e.byte((fmt.endianness == Endianness::Little) as u8, Field::Endian);
    e.byte(width(fmt.integer_width) as u8, Field::IntWidth);
    e.byte(width(fmt.size_t_width) as u8, Field::SizeWidth);
    e.byte(width(fmt.instruction_width) as u8, Field::InsWidth);
    if ver == Ver::V50 {
        for op in [Op4::O, Op4::A, Op4::B, Op4::C] {
            e.byte(cons.lay.size(op) as u8, Field::OpSizes);
        }
    }
    e.byte(width(fmt.number_width) as u8, Field::NumWidth);
    if ver == Ver::V51 {
        e.byte(fmt.is_number_integral as u8, Field::NumKind);
    } else {
        let s = e.out.len();
        let w = width(fmt.number_width);
        let v = 3.14159265358979323846E7f64;
        let raw = match (fmt.is_number_integral, w) {
            (true, _) => v as i64 as u64,
            (false, 4) => (v as f32).to_bits() as u64,
            (false, _) => v.to_bits(),
        };
        e.raw(raw, w);
        e.mark(s, Field::TestNum);
    }
    e.proto(p);
    e
}

pub struct Dec<'a> {
    data: &'a [u8],
    pos: usize,
    fmt: Format,
    cons: &'a Consts,
    ver: Ver,
    depth: usize,
}

pub type DResult<T> = Result<T, String>;

impl<'a> Dec<'a> {
    fn take(&mut self, n: usize) -> DResult<&'a [u8]> {
        if n > self.data.len() - self.pos {
            return Err(format!("truncated at {} (need {n})", self.pos));
        }
        let s = &self.data[self.pos..self.pos + n];
        self.pos += n;
        Ok(s)
    }
    fn byte(&mut self) -> DResult<u8> {
        Ok(self.take(1)?[0])
    }
    fn raw(&mut self, w: usize) -> DResult<u64> {
        let little = self.fmt.endianness == Endianness::Little;
        let b = self.take(w)?;
        let mut v = 0u64;
        for i in 0..w {
            let at = if little { i } else { w - 1 - i };
            v |= (b[i] as u64) << (8 * at);
        }
        Ok(v)
    }
    fn int(&mut self) -> DResult<i64> {
        let w = width(self.fmt.integer_width);
        let v = self.raw(w)?;
        Ok(if w == 4 { v as u32 as i32 as i64 } else { v as i64 })
    }
    fn count(&mut self) -> DResult<usize> {
        let n = self.int()?;
        if n < 0 || n as usize > self.data.len() {
            return Err(format!("bad count {n}"));
        }
        Ok(n as usize)
    }
    fn string(&mut self) -> DResult<LStr> {
        let n = self.raw(width(self.fmt.size_t_width))?;
        if n > self.data.len() as u64 {
            return Err(format!("string length {n}"));
        }
        Ok(self.take(n as usize)?.to_vec())
    }
    fn number(&mut self) -> DResult<Num> {
        let w = width(self.fmt.number_width);
        let v = self.raw(w)?;
        Ok(match (self.fmt.is_number_integral, w) {
            (true, 4) => Num::I(v as u32 as i32 as i64),
            (true, _) => Num::I(v as i64),
            (false, 4) => Num::F(f32::from_bits(v as u32) as f64),
            (false, _) => Num::F(f64::from_bits(v)),
        })
    }
    fn code(&mut self) -> DResult<Vec<Ins>> {
        let n = self.count()?;
        let mut v = Vec::with_capacity(n);
        for _ in 0..n {
            let w = self.raw(width(self.fmt.instruction_width))?;
            v.push(decode_ins(w, self.ver, self.cons)?);
        }
        Ok(v)
    }
    fn consts(&mut self) -> DResult<Vec<Const>> {
        let n = self.count()?;
        let mut v = Vec::with_capacity(n);
        for _ in 0..n {
            v.push(match self.byte()? {
                0 => Const::Nil,
                // an interpreter takes any byte but zero for true
                1 => Const::Bool(self.byte()? != 0),
                3 => Const::Num(self.number()?),
                4 => Const::Str(self.string()?),
                t => return Err(format!("constant type {t}")),
            });
        }
        Ok(v)
    }
    fn protos(&mut self) -> DResult<Vec<Proto>> {
        let n = self.count()?;
        (0..n).map(|_| self.proto()).collect()
    }
    fn debug(&mut self, p: &mut Proto) -> DResult<()> {
        let n = self.count()?;
        p.lines = (0..n).map(|_| self.int()).collect::<DResult<_>>()?;
        let n = self.count()?;
        p.locals = (0..n)
            .map(|_| Ok(Local { name: self.string()?, start: self.int()?, end: self.int()? }))
            .collect::<DResult<_>>()?;
        let n = self.count()?;
        p.upnames = (0..n).map(|_| self.string()).collect::<DResult<_>>()?;
        Ok(())
    }
    fn proto(&mut self) -> DResult<Proto> {
        self.depth += 1;
        if self.depth > 1000 {
            return Err("nesting".into());
        }
        let mut p = Proto { source: self.string()?, line: self.int()?, ..Default::default() };
        p.last_line = if self.ver == Ver::V51 { self.int()? } else { p.line };
        p.nups = self.byte()?;
        p.nparams = self.byte()?;
        p.vararg = self.byte()?;
        p.maxstack = self.byte()?;
        if self.ver == Ver::V51 {
            p.code = self.code()?;
            p.consts = self.consts()?;
            p.protos = self.protos()?;
            self.debug(&mut p)?;
        } else {
            self.debug(&mut p)?;
            p.consts = self.consts()?;
            p.protos = self.protos()?;
            p.code = self.code()?;
        }
        self.depth -= 1;
        Ok(p)
    }
}

fn bw(b: u8) -> DResult<BitWidth> {
    match b {
        4 => Ok(BitWidth::Bit32),
        8 => Ok(BitWidth::Bit64),
        _ => Err(format!("width {b}")),
    }
}

/// Strictly decodes a whole chunk: every byte must be accounted for.
pub fn decode(data: &[u8], ver: Ver, cons: &Consts) -> DResult<(Format, Proto)> {
    let mut d = Dec { data, pos: 0, fmt: Format::default(), cons, ver, depth: 0 };
    if d.take(cons.sig.len())? != cons.sig.as_bytes() {
        return Err("signature".into());
    }
    let v = d.byte()?;
    if v != ver.byte() {
        return Err(format!("version {v:#x}"));
    }
    let format = if ver == Ver::V51 { d.byte()? } else { 0 };
    let endianness = match d.byte()? {
        0 => Endianness::Big,
        1 => Endianness::Little,
        e => return Err(format!("endianness {e}")),
    };
    let integer_width = bw(d.byte()?)?;
    let size_t_width = bw(d.byte()?)?;
    let instruction_width = bw(d.byte()?)?;
    if ver == Ver::V50 {
        for op in [Op4::O, Op4::A, Op4::B, Op4::C] {
            let s = d.byte()?;
            if s as u64 != cons.lay.size(op) {
                return Err(format!("operand size {s}"));
            }
        }
    }
    let number_width = bw(d.byte()?)?;
    d.fmt = Format { format, endianness, integer_width, size_t_width, instruction_width, number_width, is_number_integral: false };
    if ver == Ver::V51 {
        d.fmt.is_number_integral = match d.byte()? {
            0 => false,
            1 => true,
            b => return Err(format!("integral flag {b}")),
        };
    } else {
        let w = width(number_width);
        let raw = d.raw(w)?;
        let int = if w == 4 { raw as u32 as i32 as i64 } else { raw as i64 };
        d.fmt.is_number_integral = int == 31415926;
    }
    let p = d.proto()?;
    if d.pos != data.len() {
        return Err(format!("{} bytes left over", data.len() - d.pos));
    }
    Ok((d.fmt, p))
}
