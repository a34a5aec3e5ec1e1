//! Generators shared by several properties: formats, layouts, compile constants, structured random chunks.

use lunify::{BitWidth, Endianness, Format};

use crate::engine::Src;
use crate::model::*;

pub fn bit_width(s: &mut Src) -> BitWidth {
    if s.coin() {
        BitWidth::Bit64
    } else {
        BitWidth::Bit32
    }
}

pub fn format(s: &mut Src) -> Format {
    let format = match s.weighted(&[8, 1]) {
        0 => 0,
        _ => s.below(256) as u8,
    };
    Format {
        format,
        endianness: if s.coin() { Endianness::Big } else { Endianness::Little },
        integer_width: bit_width(s),
        size_t_width: bit_width(s),
        instruction_width: bit_width(s),
        number_width: bit_width(s),
        is_number_integral: s.chance(1, 4),
    }
}

/// All distinct operand orders that keep B and C adjacent.
pub fn orders() -> Vec<[Op4; 4]> {
    let all = [Op4::O, Op4::A, Op4::B, Op4::C];
    let mut out = Vec::new();
    for i in 0..4 {
        for j in 0..4 {
            for k in 0..4 {
                let l = 6usize.wrapping_sub(i + j + k);
                if i == j || j == k || i == k || l > 3 || l == i || l == j || l == k {
                    continue;
                }
                let o = [all[i], all[j], all[k], all[l]];
                let pb = o.iter().position(|x| *x == Op4::B).unwrap() as i32;
                let pc = o.iter().position(|x| *x == Op4::C).unwrap() as i32;
                if (pb - pc).abs() == 1 {
                    out.push(o);
                }
            }
        }
    }
    out
}

/// An acceptable layout of at most `limit` bits in total.
pub fn layout(s: &mut Src, limit: u64, default: Lay) -> Lay {
    if s.chance(1, 3) {
        return default;
    }
    let orders = orders();
    let order = *s.pick(&orders);
    let same = s.coin();
    let mut sizes = [6u64, 7, 8, 8];
    let mut spare = limit - 29;
    for i in [2usize, 3, 1, 0] {
        let min = sizes[i];
        let extra = match s.weighted(&[3, 3, 1]) {
            0 => s.below(spare.min(2) + 1),
            1 => s.below(spare.min(31 - min) + 1),
            _ => spare.min(31 - min),
        };
        sizes[i] += extra;
        spare -= extra;
    }
    if same {
        let m = sizes[2].min(sizes[3]);
        sizes[2] = m;
        sizes[3] = m;
    }
    Lay {
        order: order.map(|o| {
            (
                o,
                sizes[match o {
                    Op4::O => 0,
                    Op4::A => 1,
                    Op4::B => 2,
                    Op4::C => 3,
                }],
            )
        }),
    }
}

pub fn layout_for(s: &mut Src, f: &Format, default: Lay) -> Lay {
    layout(s, if f.instruction_width == BitWidth::Bit32 { 32 } else { 64 }, default)
}

pub const SIGS: [&str; 6] = ["\x1bLua", "\x1bLuo", "X", "\x1bMOSS", "sig\u{e9}nature", "\x1bLu"];

pub fn signature(s: &mut Src) -> String {
    match s.weighted(&[6, 2, 1, 2, 1, 1, 1]) {
        6 => {
            let n = if s.coin() { s.us(1, 8) } else { s.us(1, 300) };
            let first = if s.coin() { "\x1b" } else { "" };
            (0..n).fold(first.to_string(), |sig, _| sig + *s.pick(&["Q", "L", "7", "%", "\u{e9}", "\u{4e2d}"]))
        }
        n => SIGS[n].to_string(),
    }
}

/// Two input signatures of which neither is a proper prefix of the other, plus an output signature.
pub fn signatures(s: &mut Src) -> (String, String, String) {
    let a = signature(s);
    let b = signature(s);
    let b = if a != b && (a.starts_with(b.as_str()) || b.starts_with(a.as_str())) { a.clone() } else { b };
    let o = signature(s);
    (a, b, o)
}

/// Number domains of a format.
pub fn num(s: &mut Src, f: &Format) -> Num {
    let w32 = f.number_width == BitWidth::Bit32;
    if f.is_number_integral {
        let max = if w32 { i32::MAX as i64 } else { i64::MAX };
        let v = s.edgy(max as u64) as i64;
        Num::I(match s.weighted(&[3, 2]) {
            0 => v,
            _ => -v - s.below(2).min((v < max) as u64) as i64,
        })
    } else {
        let v = float(s);
        Num::F(if w32 { v as f32 as f64 } else { v })
    }
}

pub fn float(s: &mut Src) -> f64 {
    let v = match s.weighted(&[4, 4, 3, 2, 2, 2]) {
        0 => s.below(100) as f64,
        1 => s.below(4096) as f64 / 64.0,
        2 => {
            let bit = s.below(80) as i32;
            let off = s.range(-2, 2) as f64;
            2f64.powi(bit) + off
        }
        3 => f64::from_bits(s.u64()),
        4 => *s.pick(&[
            0.1,
            3.14159265358979,
            1e300,
            1e-300,
            5e-324,
            f64::MAX,
            f64::MIN_POSITIVE,
            f64::INFINITY,
            f64::NAN,
            9223372036854775807.0,
            4294967296.0,
            2147483648.0,
            16777217.0,
            3.4028234663852886e38,
            3.5e38,
            31415926.535897933,
        ]),
        _ => f32::from_bits(s.below(1 << 32) as u32) as f64,
    };
    if s.chance(1, 3) {
        -v
    } else {
        v
    }
}

/// The numbers an output format can hold for a given input number; None when the conversion has to fail.
pub fn convert_num(n: Num, out: &Format) -> Option<Vec<Num>> {
    let w32 = out.number_width == BitWidth::Bit32;
    if out.is_number_integral {
        let v = match n {
            Num::I(v) => v,
            Num::F(v) => {
                if v != v.trunc() || !v.is_finite() || v < -9223372036854775808.0 || v >= 9223372036854775808.0 {
                    return None;
                }
                v as i64
            }
        };
        if w32 && i32::try_from(v).is_err() {
            return None;
        }
        Some(vec![Num::I(v)])
    } else {
        Some(match n {
            Num::F(v) => vec![Num::F(if w32 { v as f32 as f64 } else { v })],
            Num::I(v) => {
                if w32 {
                    vec![Num::F(v as f32 as f64), Num::F(v as f64 as f32 as f64)]
                } else {
                    vec![Num::F(v as f64)]
                }
            }
        })
    }
}

pub fn string(s: &mut Src) -> LStr {
    let n = match s.weighted(&[6, 3, 2, 1]) {
        0 => s.us(0, 4),
        1 => s.us(0, 24),
        2 => s.us(120, 300),
        _ => {
            let n = match s.chance(1, 10) {
                true => ((1i64 << s.range(8, 16)) + s.range(-3, 2)) as usize,
                false => s.us(250, 4000),
            };
            let b = s.below(256) as u8;
            let mut v = vec![b; n];
            let at = s.below(n as u64) as usize;
            v[at] = s.below(256) as u8;
            v.push(0);
            return v;
        }
    };
    let mode = s.below(3);
    let mut v: Vec<u8> = (0..n)
        .map(|_| match mode {
            0 => b"abcxyz_ 09"[s.below(10) as usize],
            1 => s.below(256) as u8,
            _ => [0u8, 0x7f, 0x80, 0xc3, 0xa9, 0xff, 0xfe, 0xe2, 0x82, 0xac][s.below(10) as usize],
        })
        .collect();
    v.push(0);
    v
}

/// Limits a random program has to respect.
#[derive(Clone, Debug)]
pub struct Lim {
    pub ver: Ver,
    pub a: u64,
    pub b: u64,
    pub c: u64,
    /// Registers stay below this.
    pub reg: u64,
    /// Functions may claim a stack up to this.
    pub stack: u64,
    pub kidx: u64,
    pub bx: u64,
    pub sbx: i64,
    pub int: i64,
    pub numf: Format,
    pub numf_out: Format,
    pub size: usize,
    pub setlist: bool,
    pub strip: Option<bool>,
    pub numbers_exact: bool,
}

impl Lim {
    /// What fits both the input (version `ver`) and the output.
    pub fn both(ver: Ver, fin: &Format, cin: &Consts, fout: &Format, cout: &Consts) -> Lim {
        let (li, lo) = (&cin.lay, &cout.lay);
        let reg_in = match ver {
            Ver::V50 => cin.stack,
            Ver::V51 => li.const_bit(),
        };
        let reg = reg_in.min(lo.const_bit()).min(li.max(Op4::A) + 1).min(lo.max(Op4::A) + 1).min(250);
        let kin = match ver {
            Ver::V50 => li.max(Op4::B).min(li.max(Op4::C)) - cin.stack,
            Ver::V51 => li.const_bit() - 1,
        };
        // C may be narrower than B: a constant must fit both fields with the constant bit set
        let kfield = |l: &Lay| {
            let m = l.max(Op4::B).min(l.max(Op4::C));
            if m >= l.const_bit() {
                Some((m ^ l.const_bit()).min(l.const_bit() - 1))
            } else {
                None
            }
        };
        let kout = kfield(lo);
        let kin = match ver {
            Ver::V50 => Some(kin),
            Ver::V51 => kfield(li),
        };
        let kidx = match (kin, kout) {
            (Some(a), Some(b)) => a.min(b),
            _ => u64::MAX,
        };
        let i32s = fin.integer_width == BitWidth::Bit32 || fout.integer_width == BitWidth::Bit32;
        Lim {
            ver,
            a: li.max(Op4::A).min(lo.max(Op4::A)),
            b: li.max(Op4::B).min(lo.max(Op4::B)),
            c: li.max(Op4::C).min(lo.max(Op4::C)),
            reg: reg.min(li.max(Op4::C) + 1).min(lo.max(Op4::C) + 1).min(cin.stack).min(cout.stack),
            stack: cin.stack.min(cout.stack).min(250),
            kidx,
            bx: li.max_bx().min(lo.max_bx()),
            sbx: li.bias().min(lo.bias()),
            int: if i32s { i32::MAX as i64 } else { i64::MAX },
            numf: *fin,
            numf_out: *fout,
            size: 24,
            setlist: true,
            strip: None,
            numbers_exact: true,
        }
    }
}

pub fn rk(s: &mut Src, l: &Lim) -> Rk {
    if l.kidx != u64::MAX && s.coin() {
        k(s.edgy(l.kidx))
    } else {
        r(s.edgy(l.reg - 1))
    }
}

/// One structurally valid instruction at `pc` of `len`.
pub fn instruction(s: &mut Src, l: &Lim, pc: usize, len: usize) -> Ins {
    let ops = l.ver.ops();
    let mut op = s.below(ops.len() as u64) as u8;
    if !l.setlist && ops[op as usize].name.starts_with("SETLIST") {
        op = 0;
    }
    let info = &ops[op as usize];
    let a = if !info.a {
        0
    } else if matches!(info.name, "EQ" | "LT" | "LE") {
        s.below(2)
    } else {
        s.edgy(l.a.min(l.reg - 1))
    };
    let args = match info.kind {
        Kind::Abx => Args::Abx(s.edgy(l.bx)),
        Kind::Asbx => {
            let lo = (-(pc as i64) - 1).max(-l.sbx);
            let hi = (len as i64 - 2 - pc as i64).min(l.sbx);
            let lo = lo.min(hi);
            // the target is an instruction of the function
            Args::Asbx(s.range(lo.max(-(pc as i64) - 1), hi.max(lo)))
        }
        Kind::Abc(mb, mc) => {
            let one = |m: M, max: u64, s: &mut Src| match m {
                M::N => r(0),
                M::U => r(s.edgy(max)),
                M::R => r(s.edgy(l.reg - 1)),
                M::K => rk(s, l),
            };
            let mut b = one(mb, l.b, s);
            let mut c = one(mc, l.c, s);
            if info.name == "NEWTABLE" {
                b = r(s.edgy(l.b));
                c = r(s.edgy(l.c));
            }
            if info.name == "SETLIST" && c.v == 0 {
                c = r(1);
            }
            Args::Abc(b, c)
        }
    };
    let mut i = Ins { op, a, args };
    fit(s, l, &mut i, pc);
    i
}

/// Keeps what the instruction touches below the register limit and loops going backwards.
fn fit(s: &mut Src, l: &Lim, i: &mut Ins, pc: usize) {
    let reg = l.reg;
    let name = l.ver.ops()[i.op as usize].name;
    let (mut b, mut c) = match i.args {
        Args::Abc(b, c) => (b, c),
        _ => (r(0), r(0)),
    };
    match name {
        "LOADNIL" => b.v = b.v.max(i.a),
        "SELF" => i.a = i.a.min(reg - 2),
        "CALL" | "TAILCALL" => {
            b.v = b.v.min(reg - i.a);
            c.v = c.v.min(reg - i.a + 1);
        }
        "RETURN" | "VARARG" => b.v = b.v.min(reg - i.a + 1),
        "TFORLOOP" => {
            i.a = i.a.min(reg - 5);
            c.v = c.v.min(reg - 3 - i.a);
            if l.ver == Ver::V51 {
                c.v = c.v.max(1);
            }
        }
        "CONCAT" => {
            if b.v > c.v {
                std::mem::swap(&mut b, &mut c);
            }
        }
        "SETLIST" if l.ver == Ver::V51 => b.v = b.v.min(reg - 1 - i.a),
        "FORLOOP" | "FORPREP" => i.a = i.a.min(reg - 4),
        "TFORPREP" => i.a = i.a.min(reg - 3),
        _ => {}
    }
    if let Args::Abc(..) = i.args {
        i.args = Args::Abc(b, c);
    }
    if name == "FORLOOP" && l.ver == Ver::V50 {
        if l.sbx >= 1 {
            i.args = Args::Asbx(s.range((-(pc as i64) - 1).max(-l.sbx), -1));
        }
    }
}

pub fn int(s: &mut Src, l: &Lim) -> i64 {
    s.edgy(l.int as u64) as i64
}

/// A structurally valid random function: arbitrary opcodes and operands, jumps inside the code.
pub fn proto(s: &mut Src, whole: &Lim, depth: usize) -> Proto {
    // functions of one chunk need not be of one size
    let small;
    let l = if whole.reg > 8 && s.chance(1, 3) {
        small = Lim { reg: s.edgy(whole.reg - 8) + 8, ..whole.clone() };
        &small
    } else {
        whole
    };
    let n = match s.weighted(&[4, 4, 1]) {
        0 => s.us(1, 4),
        1 => s.us(1, l.size),
        _ => s.us(1, l.size * 4),
    };
    let strip = l.strip.unwrap_or_else(|| s.chance(1, 3));
    let mut p = Proto {
        source: match s.weighted(&[2, 2, 1]) {
            0 => lstr(b"@test.lua"),
            1 => Vec::new(),
            _ => string(s),
        },
        line: int(s, l),
        last_line: 0,
        nups: match s.weighted(&[4, 4, 1]) {
            0 => s.below(4) as u8,
            1 => s.edgy(60) as u8,
            _ => s.edgy(255) as u8,
        },
        nparams: if s.coin() { s.below(4) as u8 } else { s.edgy(l.reg.saturating_sub(4)) as u8 },
        vararg: match l.ver {
            Ver::V51 => *s.pick(&[0u8, 2, 3, 7, 1, 4, 6, 5]),
            Ver::V50 => s.below(2) as u8,
        },
        maxstack: if s.coin() { l.reg.min(250) as u8 } else { (l.stack - s.edgy(l.stack - l.reg.min(l.stack))) as u8 },
        ..Default::default()
    };
    if l.ver == Ver::V51 {
        p.last_line = int(s, l);
    } else {
        p.last_line = p.line;
    }
    p.code = (0..n).map(|pc| instruction(s, l, pc, n)).collect();
    let nk = match s.weighted(&[3, 2, 1]) {
        0 => s.us(0, 3),
        1 => s.us(0, 12),
        _ => s.us(0, 60),
    };
    for _ in 0..nk {
        let c = match s.weighted(&[1, 1, 4, 4]) {
            0 => Const::Nil,
            1 => Const::Bool(s.coin()),
            2 => {
                let n = num(s, &l.numf);
                Const::Num(match convert_num(n, &l.numf_out) {
                    Some(v) if !l.numbers_exact || num_equal(n, v[0]) => n,
                    _ => {
                        let small = s.below(100) as i64;
                        if l.numf.is_number_integral {
                            Num::I(small)
                        } else {
                            Num::F(small as f64)
                        }
                    }
                })
            }
            _ => Const::Str(string(s)),
        };
        p.consts.push(c);
    }
    if !strip {
        p.lines = (0..n).map(|_| if s.chance(1, 8) { int(s, l) } else { s.range(0, 200) }).collect();
        let nl = s.us(0, 4);
        for _ in 0..nl {
            let start = s.range(0, n as i64);
            let end = s.range(start, n as i64);
            let name = if s.chance(1, 8) { Vec::new() } else { string(s) };
            p.locals.push(Local { name, start, end });
        }
        for _ in 0..p.nups {
            p.upnames.push(if s.chance(1, 8) { Vec::new() } else { string(s) });
        }
        if s.chance(1, 5) {
            strip_some(s, &mut p);
        }
    }
    if depth > 0 {
        let (np, below) = match s.weighted(&[60, 30, 8, 2]) {
            3 => (s.range(3, 8), (depth - 1).min(1)),
            n => (n as i64, depth - 1),
        };
        for _ in 0..np {
            let q = match p.protos.last() {
                Some(last) if s.chance(1, 6) => {
                    let last = last.clone();
                    sibling(s, whole, last)
                }
                _ => proto(s, whole, below),
            };
            p.protos.push(q);
        }
    }
    p
}

/// Each kind of debug information may be missing on its own.
/// A function that is the same as another one but for a detail.
fn sibling(s: &mut Src, l: &Lim, mut p: Proto) -> Proto {
    let pc = s.us(0, p.code.len() - 1);
    match s.below(10) {
        0 => p.upnames.iter_mut().for_each(|n| *n = string(s)),
        1 => p.locals.iter_mut().for_each(|n| n.name = string(s)),
        2 => p.source = string(s),
        3 => {
            p.line = int(s, l);
            p.last_line = if l.ver == Ver::V51 { int(s, l) } else { p.line };
        }
        4 => p.lines.iter_mut().for_each(|n| *n = s.range(0, 200)),
        5 => p.consts.reverse(),
        6 => p.consts.push(Const::Bool(s.coin())),
        7 => p.code[pc] = Ins::abc(0, 0, 0, 0),
        8 => strip_some(s, &mut p),
        _ => p.protos.clear(),
    }
    p
}

pub fn strip_some(s: &mut Src, p: &mut Proto) {
    if s.coin() {
        p.lines.clear();
    }
    if s.coin() {
        p.locals.clear();
    }
    if s.coin() {
        p.upnames.clear();
    }
    if s.chance(1, 4) {
        p.source.clear();
    }
}

/// The same mathematical value.
pub fn num_equal(a: Num, b: Num) -> bool {
    match (a, b) {
        (Num::I(x), Num::I(y)) => x == y,
        (Num::F(x), Num::F(y)) => x == y || (x.is_nan() && y.is_nan()),
        (Num::I(x), Num::F(y)) | (Num::F(y), Num::I(x)) => {
            y == y.trunc() && y >= -9223372036854775808.0 && y < 9223372036854775808.0 && y as i64 == x
        }
    }
}

// ---------------------------------------------------------------- comparison

#[derive(Clone, Copy)]
pub struct Cmp {
    pub fout: Format,
    /// Compare instructions one to one.
    pub code: bool,
}

fn bytes_eq(what: &str, a: &LStr, b: &LStr) -> Result<(), String> {
    if a == b {
        return Ok(());
    }
    let head = |v: &LStr| {
        let n = v.len().min(40);
        format!("{} bytes {:02x?}", v.len(), &v[..n])
    };
    Err(format!("{what}: expected {} got {}", head(a), head(b)))
}

/// The output function holds the same program as the input function (both Lua 5.1 models).
pub fn same_proto(path: &str, a: &Proto, b: &Proto, cmp: &Cmp) -> Result<(), String> {
    let e = |what: &str, x: String, y: String| if x == y { Ok(()) } else { Err(format!("{path}: {what}: expected {x} got {y}")) };
    bytes_eq(&format!("{path}: source"), &a.source, &b.source)?;
    e("line defined", a.line.to_string(), b.line.to_string())?;
    e("last line defined", a.last_line.to_string(), b.last_line.to_string())?;
    e("upvalue count", a.nups.to_string(), b.nups.to_string())?;
    e("parameter count", a.nparams.to_string(), b.nparams.to_string())?;
    e("vararg flag", a.vararg.to_string(), b.vararg.to_string())?;
    if cmp.code {
        e("stack size", a.maxstack.to_string(), b.maxstack.to_string())?;
        e("instruction count", a.code.len().to_string(), b.code.len().to_string())?;
        for (pc, (x, y)) in a.code.iter().zip(&b.code).enumerate() {
            e(&format!("instruction {pc}"), x.canon51().show(&OPS51), y.canon51().show(&OPS51))?;
        }
        e("line info", format!("{:?}", a.lines), format!("{:?}", b.lines))?;
        for (n, (x, y)) in a.locals.iter().zip(&b.locals).enumerate() {
            e(&format!("local {n} range"), format!("{}..{}", x.start, x.end), format!("{}..{}", y.start, y.end))?;
        }
    }
    e("constant count", a.consts.len().to_string(), b.consts.len().to_string())?;
    for (n, (x, y)) in a.consts.iter().zip(&b.consts).enumerate() {
        same_const(&format!("{path}: constant {n}"), x, y, &cmp.fout)?;
    }
    e("local count", a.locals.len().to_string(), b.locals.len().to_string())?;
    for (n, (x, y)) in a.locals.iter().zip(&b.locals).enumerate() {
        bytes_eq(&format!("{path}: local {n}"), &x.name, &y.name)?;
    }
    e("upvalue name count", a.upnames.len().to_string(), b.upnames.len().to_string())?;
    for (n, (x, y)) in a.upnames.iter().zip(&b.upnames).enumerate() {
        bytes_eq(&format!("{path}: upvalue {n}"), x, y)?;
    }
    e("function count", a.protos.len().to_string(), b.protos.len().to_string())?;
    for (n, (x, y)) in a.protos.iter().zip(&b.protos).enumerate() {
        same_proto(&format!("{path}.{n}"), x, y, cmp)?;
    }
    Ok(())
}

pub fn same_const(path: &str, x: &Const, y: &Const, fout: &Format) -> Result<(), String> {
    match (x, y) {
        (Const::Num(n), Const::Num(m)) => match convert_num(*n, fout) {
            Some(options) if options.iter().any(|o| o == m) => Ok(()),
            // integer zero and negative zero are one value
            Some(options) if options.iter().any(|o| num_equal(*o, *m) && !matches!((o, m), (Num::F(_), Num::F(_)))) => Ok(()),
            options => Err(format!("{path}: {n:?} became {m:?} (representable as {options:?})")),
        },
        (Const::Str(a), Const::Str(b)) => bytes_eq(path, a, b),
        _ if x == y => Ok(()),
        _ => Err(format!("{path}: expected {x:?} got {y:?}")),
    }
}
