//! C03: any byte sequence is converted or rejected, never a crash.
//!
//! The oracle is the absence of panics (overflow checks and debug assertions are on), aborts, stack
//! overflows, runaway allocation (6 GB address space per worker) and runaway time (40 s of CPU per case).

use lunify::{BitWidth, Endianness, InstructionLayout, LunifyError, OperandType};

use super::structural::{both_versions, key, small_chunk};
use super::vmp::{low_opt, real_setup};
use super::*;
use crate::gen;
use crate::lowgen;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C03",
        parts: vec![
            part("havoc", havoc, 400_000, 8_000_000, "one to eight byte-level mutations of a generated chunk, a generated program or a genuine chunk; non-trivial when the result gets past the header, keyed by input bytes and settings"),
            part("fields", fields, 300_000, 6_000_000, "one to four integer, count, length or instruction fields of a valid chunk replaced by extreme values; non-trivial always, keyed by input bytes and settings"),
            part("soup", soup, 400_000, 8_000_000, "functions of arbitrary instructions with arbitrary operands, jumps to anywhere, arbitrary list-flush sizes, stack limits and layouts; non-trivial when the code holds an instruction that conversion rewrites, keyed by input bytes and settings"),
            Part { shrink: 60, ..part("nesting", nesting, 800, 8_000, "functions nested one to 60000 deep, whole or cut short, converted on a thread with the usual 2 MB of stack; non-trivial when nested deeper than 100, keyed by depth, version and format") },
            part("layouts", layouts, 400_000, 20_000_000, "a layout specification of any four operands and any sizes; non-trivial always, keyed by the specification"),
            part("raw", raw, 200_000, 6_000_000, "random bytes, alone, behind a signature or behind a valid header; non-trivial when behind a valid header, keyed by input bytes"),
        ],
        findings: vec![],
        assumptions: vec!["settings a build of Lua can have: list-flush sizes of at least one, stack limits below 256", "time quadratic in the size of the code is not held against the conversion"],
    }]
}

const CORPUS: [&[u8]; 11] = [
    include_bytes!("../../corpus/32bit.luab"),
    include_bytes!("../../corpus/big_endian.luab"),
    include_bytes!("../../corpus/constants.luab"),
    include_bytes!("../../corpus/custom_signature.luab"),
    include_bytes!("../../corpus/dynamic_table.luab"),
    include_bytes!("../../corpus/empty.luab"),
    include_bytes!("../../corpus/for_loop.luab"),
    include_bytes!("../../corpus/large_table.luab"),
    include_bytes!("../../corpus/little_endian.luab"),
    include_bytes!("../../corpus/lua50.luab"),
    include_bytes!("../../corpus/variadic.luab"),
];

/// Wild but valid compile constants.
fn wild(s: &mut Src, sett: &mut Sett) {
    for c in [&mut sett.l50, &mut sett.l51, &mut sett.out] {
        match s.weighted(&[4, 3, 1]) {
            0 => {}
            1 => c.fpf = 1 + s.edgy(300),
            _ => c.fpf = 1 + s.edgy(u32::MAX as u64),
        }
        if s.chance(1, 4) {
            c.stack = 1 + s.edgy(254);
        }
    }
}

fn is_header_error(e: &LunifyError) -> bool {
    matches!(
        e,
        LunifyError::IncorrectSignature
            | LunifyError::UnsupportedVersion(_)
            | LunifyError::InvaildEndianness(_)
            | LunifyError::UnsupportedInstructionFormat(_)
            | LunifyError::UnsupportedSizeTWidth(_)
            | LunifyError::UnsupportedIntegerWidth(_)
            | LunifyError::UnsupportedInstructionWidth(_)
            | LunifyError::UnsupportedNumberWidth(_)
    )
}

fn note(c: &mut Case, r: &Result<Vec<u8>, LunifyError>) {
    c.label(match r {
        Ok(_) => "accepted",
        Err(LunifyError::InputTooShort) => "too short",
        Err(LunifyError::InputTooLong) => "too long",
        Err(LunifyError::InvalidOpcode(_)) => "invalid opcode",
        Err(LunifyError::InvalidConstantType(_)) => "invalid constant type",
        Err(LunifyError::StackTooLarge(_)) => "stack too large",
        Err(LunifyError::ValueTooBigForOperand) => "value too big",
        Err(LunifyError::UnexpectedForwardJump) => "forward loop",
        Err(LunifyError::FunctionNestingTooDeep) => "nesting too deep",
        Err(e) if is_header_error(e) => "header rejected",
        Err(_) => "other error",
    });
}

fn put(out: &mut [u8], v: u64, w: usize, e: Endianness) {
    let n = out.len().min(w);
    for (i, b) in out.iter_mut().take(n).enumerate() {
        let at = if e == Endianness::Little { i } else { w - 1 - i };
        *b = (v >> (8 * at)) as u8;
    }
}

fn wild_int(s: &mut Src, len: usize) -> u64 {
    match s.weighted(&[4, 4, 3, 3, 3, 3]) {
        0 => s.below(4),
        1 => [u64::MAX, i64::MAX as u64, i64::MIN as u64, u32::MAX as u64, i32::MAX as u64, i32::MIN as u32 as u64, 0x7fff_ffff_ffff_fff0, 0xffff_ffff_0000_0000][s.below(8) as usize],
        2 => s.below(len as u64 + 4),
        3 => 0u64.wrapping_sub(s.below(len as u64 + 4)),
        4 => s.edgy(u64::MAX),
        _ => 1 << s.below(64),
    }
}

pub fn havoc_input(s: &mut Src, c: &mut Case) -> (Setup, Vec<u8>) {
    let mut map = Vec::new();
    let (mut st, mut input) = match s.weighted(&[5, 4, 3]) {
        0 => {
            let (st, _, input, m) = small_chunk(s);
            map = m;
            c.label("random chunk");
            (st, input)
        }
        1 => {
            let ver = both_versions(s);
            let st = real_setup(s, ver, false);
            let o = low_opt(s);
            let low = lowgen::low(s, &st, &o);
            let e = encode(&low.main, ver, &st.fin, st.cin());
            map = e.map;
            c.label("generated program");
            let out = e.out;
            (st, out)
        }
        _ => {
            let at = s.below(CORPUS.len() as u64) as usize;
            let mut st = setup(s, Ver::V51, &Want { same_fpf: false, real: false });
            let genuine = Sett::default();
            if s.chance(3, 4) {
                st.sett.l50 = genuine.l50;
                st.sett.l51 = genuine.l51;
                if at == 3 {
                    st.sett.l51.sig = "\x1bLul".into();
                }
            }
            c.label("genuine chunk");
            (st, CORPUS[at].to_vec())
        }
    };
    if s.chance(1, 3) {
        wild(s, &mut st.sett);
    }
    if s.chance(1, 6) {
        st.fout = gen::format(s);
    }
    let rounds = 1 + s.edgy(7);
    for _ in 0..rounds {
        if input.is_empty() {
            break;
        }
        let n = input.len() as u64;
        let at = if !map.is_empty() && s.coin() {
            let m = map[s.below(map.len() as u64) as usize].0;
            m.min(input.len() - 1)
        } else {
            s.below(n) as usize
        };
        let e = if s.coin() { st.fin.endianness } else { Endianness::Little };
        match s.weighted(&[4, 3, 3, 3, 2, 2, 5, 1]) {
            0 => input[at] = s.below(256) as u8,
            1 => input[at] ^= 1 << s.below(8),
            2 => {
                let k = 1 + s.edgy(15) as usize;
                let b = s.bytes(k);
                input.splice(at..at, b);
            }
            3 => {
                let k = (1 + s.edgy(31) as usize).min(input.len() - at);
                input.drain(at..at + k);
            }
            4 => {
                let k = (1 + s.edgy(63) as usize).min(input.len() - at);
                let copy = input[at..at + k].to_vec();
                let to = s.below(n) as usize;
                input.splice(to..to, copy);
            }
            5 => {
                let other = CORPUS[s.below(CORPUS.len() as u64) as usize];
                let from = s.below(other.len() as u64) as usize;
                let k = (1 + s.edgy(200) as usize).min(other.len() - from);
                input.splice(at.., other[from..from + k].iter().copied());
            }
            6 => {
                let v = wild_int(s, input.len());
                let w = if s.coin() { 4 } else { 8 };
                put(&mut input[at..], v, w, e);
            }
            _ => input.truncate(at),
        }
    }
    (st, input)
}

fn havoc(s: &mut Src, c: &mut Case) -> Result<(), Failure> {
    let (st, input) = havoc_input(s, c);
    c.key = key(&input, &st);
    c.sample = Some(st.describe() + "input " + &hex(&input));
    let r = st.convert(&input)?;
    c.nontrivial = !matches!(&r, Err(e) if is_header_error(e));
    note(c, &r);
    Ok(())
}

fn fields(s: &mut Src, c: &mut Case) -> Result<(), Failure> {
    let (mut st, _, mut input, map) = small_chunk(s);
    if s.chance(1, 3) {
        wild(s, &mut st.sett);
    }
    let targets: Vec<usize> = (0..map.len())
        .filter(|&i| matches!(map[i].2, Field::StrLen | Field::Int | Field::Byte | Field::Count | Field::Instruction | Field::Number | Field::ConstBool))
        .collect();
    let rounds = 1 + s.below(4);
    for _ in 0..rounds {
        let (at, len, kind) = map[*s.pick(&targets)];
        let v = wild_int(s, input.len());
        put(&mut input[at..at + len], v, len, st.fin.endianness);
        c.label(match kind {
            Field::StrLen => "string length",
            Field::Int => "integer",
            Field::Byte => "byte",
            Field::Count => "count",
            Field::Instruction => "instruction",
            _ => "number or boolean",
        });
    }
    c.nontrivial = true;
    c.key = key(&input, &st);
    c.sample = Some(st.describe() + "input " + &hex(&input));
    let r = st.convert(&input)?;
    note(c, &r);
    Ok(())
}

/// Also tells whether an instruction is rewritten.
pub fn soup_input(s: &mut Src, c: &mut Case) -> (Setup, Vec<u8>, bool) {
    let ver = both_versions(s);
    let mut st = setup(s, ver, &Want { same_fpf: false, real: false });
    wild(s, &mut st.sett);
    if s.chance(1, 3) {
        // operands as wide as they can be
        st.fin.instruction_width = BitWidth::Bit64;
        let lay = gen::layout(s, 64, Lay::L51);
        st.sett.l50.lay = lay;
        st.sett.l51.lay = lay;
    }
    let lay = st.cin().lay;
    let ops = ver.ops();
    let hot: Vec<u8> = (0..ops.len() as u8)
        .filter(|&o| {
            let n = ops[o as usize].name;
            n.starts_with("SETLIST") || ["FORLOOP", "FORPREP", "TFORLOOP", "TFORPREP", "NEWTABLE", "LOADNIL", "CLOSURE", "CALL", "VARARG", "JMP", "TEST", "SUB"].contains(&n)
        })
        .collect();
    let mut p = Proto::default();
    p.nparams = s.edgy(255) as u8;
    p.vararg = s.edgy(255) as u8;
    p.maxstack = s.edgy(255) as u8;
    p.nups = s.edgy(255) as u8;
    let n = match s.weighted(&[6, 3, 1]) {
        0 => s.us(0, 12),
        1 => s.us(10, 60),
        _ => s.us(60, 300),
    };
    let registers = if s.coin() { 12 } else { lay.max(Op4::A).min(300) };
    let tame = s.chance(2, 3);
    let mut words = Vec::new();
    let mut rewritten = false;
    for _ in 0..n {
        let op = if s.chance(3, 5) { *s.pick(&hot) } else { s.below(ops.len() as u64) as u8 };
        let name = ops[op as usize].name;
        rewritten |= name.starts_with("SETLIST") || ["FORLOOP", "TFORLOOP", "TFORPREP"].contains(&name);
        let value = |s: &mut Src, o: Op4| -> u64 {
            let max = lay.max(o);
            match if tame { 0 } else { s.weighted(&[5, 3, 1]) } {
                0 => s.below(registers.min(max) + 1),
                1 => s.edgy(max),
                _ => s.below(max + 1),
            }
        };
        let a = value(s, Op4::A);
        let mut w = (op as u64) << lay.pos(Op4::O) | a << lay.pos(Op4::A);
        if s.chance(2, 5) {
            // near values for Bx and sBx
            let bx = match s.weighted(&[4, 3, 1]) {
                0 => (lay.bias() + s.range(-(n as i64) - 4, n as i64 + 4)) as u64,
                1 => s.below(200),
                _ => s.edgy(lay.max_bx()),
            };
            w |= (bx & lay.max_bx()) << lay.bx_pos();
        } else {
            w |= value(s, Op4::B) << lay.pos(Op4::B) | value(s, Op4::C) << lay.pos(Op4::C);
        }
        words.push(w);
    }
    // the instructions are written into placeholders of the right size
    p.code = (0..n).map(|_| Ins::abc(0, 0, 0, 0)).collect();
    if s.coin() {
        p.lines = (0..n + s.us(0, 2)).map(|i| i as i64).collect();
    }
    if s.chance(1, 3) {
        let count = s.us(1, 4);
        for _ in 0..count {
            p.locals.push(Local { name: lstr(b"x"), start: s.range(-2, n as i64 + 3), end: s.range(-2, n as i64 + 3) });
        }
    }
    p.consts.push(Const::Nil);
    let e = encode(&p, ver, &st.fin, st.cin());
    let mut input = e.out;
    let places: Vec<(usize, usize)> = e.map.iter().filter(|m| m.2 == Field::Instruction).map(|m| (m.0, m.1)).collect();
    for (&(at, len), &w) in places.iter().zip(&words) {
        put(&mut input[at..at + len], w, len, st.fin.endianness);
    }
    c.label_if(ver == Ver::V50, "lua 5.0");
    (st, input, rewritten)
}

fn soup(s: &mut Src, c: &mut Case) -> Result<(), Failure> {
    let (st, input, rewritten) = soup_input(s, c);
    c.nontrivial = rewritten;
    c.key = key(&input, &st);
    c.sample = Some(st.describe() + "input " + &hex(&input));
    let r = st.convert(&input)?;
    note(c, &r);
    Ok(())
}

fn nesting(s: &mut Src, c: &mut Case) -> Result<(), Failure> {
    let ver = both_versions(s);
    let mut st = setup(s, ver, &Want { same_fpf: true, real: true });
    if ver == Ver::V51 && st.fin == st.fout {
        st.fout.format = st.fin.format.wrapping_add(1);
    }
    let depth = match s.weighted(&[2, 2, 3]) {
        0 => s.us(1, 150),
        1 => s.us(150, 260),
        _ => s.us(260, 60_000),
    };
    // the stack of a Rust thread
    let small = 2 << 20;
    let cut = s.chance(1, 3);
    // the bytes in front of and behind the nested function are those around a marker
    let inner = Proto { source: lstr(b"!marker!"), ..Proto::default() };
    let outer = Proto { protos: vec![inner.clone()], ..Proto::default() };
    let one = encode(&inner, ver, &st.fin, st.cin());
    let two = encode(&outer, ver, &st.fin, st.cin());
    let (one, two) = (one.out, two.out);
    let header = one.iter().zip(&two).take_while(|(a, b)| a == b).count();
    let find = |v: &[u8]| v.windows(8).position(|w| w == b"!marker!").unwrap();
    let start_one = find(&one);
    let start_two = find(&two);
    // length field in front of the name
    let len_field = crate::model::width(st.fin.size_t_width);
    let body = &one[start_one - len_field..];
    let head_len = start_one - len_field;
    assert!(header >= head_len.min(header));
    let before = &two[head_len..start_two - len_field];
    let after = &two[start_two - len_field + body.len()..];
    let mut input = one[..head_len].to_vec();
    for _ in 1..depth {
        input.extend_from_slice(before);
    }
    if !cut {
        input.extend_from_slice(body);
        for _ in 1..depth {
            input.extend_from_slice(after);
        }
    }
    c.nontrivial = depth > 100;
    c.key = fnv(format!("{depth} {cut} {ver:?} {}", fmt_str(&st.fin)).as_bytes());
    c.sample = Some(st.describe() + &format!("{depth} nested functions, {} bytes, cut short: {cut}", input.len()));
    c.label_if(ver == Ver::V50, "lua 5.0");
    c.label_if(cut, "cut short");
    if GENERATE_ONLY.with(|g| g.get()) {
        return fail("generate only", "");
    }
    let r = std::thread::scope(|scope| {
        std::thread::Builder::new().stack_size(small).spawn_scoped(scope, || st.convert(&input)).unwrap().join().unwrap()
    })?;
    note(c, &r);
    Ok(())
}

fn layouts(s: &mut Src, c: &mut Case) -> Result<(), Failure> {
    let spec: Vec<OperandType> = (0..4)
        .map(|_| {
            let kind = s.below(4);
            let n = match s.weighted(&[4, 2, 3]) {
                0 => s.below(40),
                1 => s.below(130),
                _ => s.edgy(u64::MAX),
            };
            match kind {
                0 => OperandType::Opcode(n),
                1 => OperandType::A(n),
                2 => OperandType::B(n),
                _ => OperandType::C(n),
            }
        })
        .collect();
    let spec = [spec[0], spec[1], spec[2], spec[3]];
    c.nontrivial = true;
    c.key = fnv(format!("{spec:?}").as_bytes());
    c.sample = Some(format!("{spec:?}"));
    if GENERATE_ONLY.with(|g| g.get()) {
        return Ok(());
    }
    match std::panic::catch_unwind(|| InstructionLayout::from_specification(spec)) {
        Ok(r) => {
            c.label_if(r.is_ok(), "accepted");
            Ok(())
        }
        Err(_) => fail(format!("from_specification panicked: {}", PANIC.with(|p| p.borrow().clone())), format!("{spec:?}")),
    }
}

fn raw(s: &mut Src, c: &mut Case) -> Result<(), Failure> {
    let ver = both_versions(s);
    let mut st = setup(s, ver, &Want { same_fpf: false, real: false });
    wild(s, &mut st.sett);
    let kind = s.weighted(&[1, 2, 5]);
    let mut input = Vec::new();
    match kind {
        0 => {}
        1 => input.extend_from_slice(st.cin().sig.as_bytes()),
        _ => {
            let p = Proto { source: lstr(b"!marker!"), ..Proto::default() };
            let e = encode(&p, ver, &st.fin, st.cin()).out;
            let at = e.windows(8).position(|w| w == b"!marker!").unwrap() - crate::model::width(st.fin.size_t_width);
            input.extend_from_slice(&e[..at]);
        }
    }
    let n = s.edgy(400) as usize;
    if kind == 2 && s.chance(2, 3) {
        // mostly small integers, so that counts and lengths are met
        while input.len() < n {
            let w = if s.coin() { 4 } else { 8 };
            let v = match s.weighted(&[6, 1, 2]) {
                0 => s.below(5),
                1 => wild_int(s, n),
                _ => s.below(256),
            };
            if s.chance(1, 4) {
                input.push(v as u8);
            } else {
                let mut b = vec![0; w];
                put(&mut b, v, w, st.fin.endianness);
                input.extend(b);
            }
        }
    } else {
        let b = s.bytes(n);
        input.extend(b);
    }
    c.nontrivial = kind == 2;
    c.key = fnv(&input);
    c.sample = Some(st.describe() + "input " + &hex(&input));
    let r = st.convert(&input)?;
    note(c, &r);
    Ok(())
}
