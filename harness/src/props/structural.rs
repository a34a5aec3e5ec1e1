//! C01, C02, C03, C04, C11 (exact fit), C12, C13, C15, C16.

use lunify::{BitWidth, Endianness, Format, InstructionLayout, LunifyError, OperandType};

use super::*;
use crate::gen::{self, Cmp, Lim};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            parts: vec![part(
                "random",
                c01_random,
                40_000,
                4_000_000,
                "a random 5.1 function tree (all opcodes, edge operands) between two random formats and layouts; non-trivial when the two sides differ in format, layout or signature and the tree holds at least one instruction, keyed by input bytes and output description",
            ),
            part(
                "huge",
                c01_huge,
                1_000,
                100_000,
                "a random 5.1 function tree, one list of which (instructions, constants, functions, lines, locals, upvalue names) has up to 262 143 entries, at powers of two and around them; non-trivial when the list has more than 255 entries and the two sides differ, keyed by input bytes and output description",
            )],
            findings: vec![("page-word-opcode", findings::page_word_opcode)],
            assumptions: vec!["the list-flush sizes of input and output are the same here (C07 covers different ones)", "line numbers, counts and sizes fit a signed 32-bit integer when a side uses 4-byte integers"],
        },
        Prop {
            id: "C02",
            parts: vec![part(
                "random",
                c02_random,
                40_000,
                4_000_000,
                "a random 5.0 or 5.1 chunk; non-trivial when the conversion succeeds, keyed by output bytes",
            ),
            part(
                "huge",
                c02_huge,
                1_000,
                100_000,
                "a random 5.0 or 5.1 chunk, one list of which has up to 262 143 entries; non-trivial when the conversion succeeds and the list has more than 255 entries, keyed by output bytes",
            )],
            findings: vec![],
            assumptions: vec![],
        },
        Prop {
            id: "C04",
            parts: vec![
                part("truncate", c04_truncate, 4_000, 400_000, "a random valid chunk cut at every point (or at 400 sampled points) and extended; non-trivial when at least ten cuts were tried, keyed by chunk"),
                part("corrupt", c04_corrupt, 40_000, 4_000_000, "one header field, opcode or constant tag of a valid chunk replaced by an invalid value; non-trivial always, keyed by chunk, field and value"),
            ],
            findings: vec![],
            assumptions: vec![],
        },
        Prop {
            id: "C12",
            parts: vec![part(
                "numbers",
                c12_numbers,
                60_000,
                6_000_000,
                "a chunk of either version with one to six edge-biased number constants between all number types; non-trivial when the number types differ or a value is not a small integer, keyed by values and types",
            )],
            findings: vec![],
            assumptions: vec!["a float that overflows a 4-byte float may become infinity or be rejected", "the largest 64-bit integer may be rejected for a float output"],
        },
        Prop {
            id: "C13",
            parts: vec![part(
                "strings",
                c13_strings,
                30_000,
                3_000_000,
                "a chunk of either version with random byte strings as constants, source, local and upvalue names; non-trivial when a string holds a byte outside ASCII, a zero or is longer than 255, keyed by the strings",
            )],
            findings: vec![],
            assumptions: vec![],
        },
        Prop {
            id: "C15",
            parts: vec![
                part("specification", c15_spec, 200_000, 20_000_000, "a random operand specification, valid or near-valid; non-trivial always, keyed by the specification"),
                part("repack", c15_repack, 40_000, 4_000_000, "5.1 code with extreme operands between two random layouts, with and without fit; non-trivial when the layouts differ, keyed by code and layouts"),
                part("repack50", c15_repack50, 20_000, 2_000_000, "5.0 code without rewritten opcodes between two random layouts; non-trivial when it converts, keyed by code and layouts"),
            ],
            findings: vec![],
            assumptions: vec![],
        },
    ]
}

pub fn both_versions(s: &mut Src) -> Ver {
    if s.coin() {
        Ver::V50
    } else {
        Ver::V51
    }
}

/// Bytes identifying a case.
pub fn key(input: &[u8], st: &Setup) -> u64 {
    let mut v = input.to_vec();
    v.extend_from_slice(st.describe().as_bytes());
    fnv(&v)
}

pub fn label_setup(c: &mut Case, st: &Setup) {
    c.label_if(st.ver == Ver::V50, "lua 5.0");
    c.label_if(st.ver == Ver::V51, "lua 5.1");
    c.label_if(st.fin == st.fout, "same format");
    c.label_if(st.fin.endianness != st.fout.endianness, "endianness differs");
    c.label_if(st.fin.integer_width != st.fout.integer_width, "integer width differs");
    c.label_if(st.fin.size_t_width != st.fout.size_t_width, "size_t width differs");
    c.label_if(st.fin.instruction_width != st.fout.instruction_width, "instruction width differs");
    c.label_if(st.fin.number_width != st.fout.number_width, "number width differs");
    c.label_if(st.fin.is_number_integral != st.fout.is_number_integral, "number kind differs");
    c.label_if(st.cin().lay != st.sett.out.lay, "layout differs");
    c.label_if(st.cin().sig != st.sett.out.sig, "signature differs");
}

/// Checks the output header and decodes the output strictly.
pub fn decode_out(out: &[u8], st: &Setup, detail: &dyn Fn() -> String) -> Result<Proto, Failure> {
    match decode(out, Ver::V51, &st.sett.out) {
        Ok((f, p)) => {
            if f != st.fout {
                return fail(
                    format!("output header says {} instead of {}", fmt_str(&f), fmt_str(&st.fout)),
                    st.describe() + &detail() + "output: " + &hex(out),
                );
            }
            Ok(p)
        }
        Err(e) => fail(format!("the output does not decode: {e}"), st.describe() + &detail() + "output: " + &hex(out)),
    }
}

// ---------------------------------------------------------------- C01

fn c01_random(s: &mut Src, c: &mut Case) -> Result<(), Failure> {
    let st = setup(s, Ver::V51, &Want { same_fpf: true, real: true });
    let mut p = random_chunk(s, &st, |_| {}, 3);
    if s.chance(1, 12) {
        // counts are not negative, but a line may be any integer
        let l = -1 - s.edgy(i32::MAX as u64) as i64;
        match s.below(3) {
            0 => p.line = l,
            1 => p.last_line = l,
            _ => p.lines.iter_mut().step_by(2).for_each(|x| *x = l),
        }
        c.label("negative line");
    }
    let mut input = encode_ok(&p, &st);
    if s.chance(1, 4) {
        // an interpreter takes any byte but zero for true
        let e = encode(&p, st.ver, &st.fin, st.cin());
        for &(start, _, field) in &e.map {
            if matches!(field, Field::ConstBool) && input[start] == 1 && s.coin() {
                input[start] = s.range(2, 255) as u8;
                c.label("true as another byte than one");
            }
        }
    }
    label_setup(c, &st);
    c.label_if(p.lines.is_empty(), "stripped root");
    c.label_if(p.depth() > 1, "nested");
    c.nontrivial = st.fin != st.fout || st.cin().lay != st.sett.out.lay || st.cin().sig != st.sett.out.sig;
    c.key = key(&input, &st);
    let detail = || show_proto(&p, Ver::V51, 0);
    c.sample = Some(st.describe() + &detail());
    let out = st.must(&input, detail)?;
    let q = decode_out(&out, &st, &detail)?;
    let cmp = Cmp { fout: st.fout, code: true };
    if let Err(e) = gen::same_proto("main", &p, &q, &cmp) {
        return fail(e, st.describe() + &detail());
    }
    Ok(())
}

// ---------------------------------------------------------------- C02

fn c02_random(s: &mut Src, c: &mut Case) -> Result<(), Failure> {
    let ver = both_versions(s);
    let st = setup(s, ver, &Want { same_fpf: false, real: true });
    let exact = s.chance(3, 4);
    let p = random_chunk(
        s,
        &st,
        |l| {
            l.setlist = st.sett.l51.fpf == st.sett.out.fpf && ver == Ver::V51;
            l.numbers_exact = exact;
            if ver == Ver::V50 {
                l.reg = (l.reg / 2).max(8);
            }
        },
        3,
    );
    let input = encode_ok(&p, &st);
    label_setup(c, &st);
    let detail = || show_proto(&p, ver, 0);
    match st.convert(&input)? {
        Ok(out) => {
            c.nontrivial = true;
            c.key = fnv(&out);
            c.sample = Some(st.describe() + &detail() + "output " + &hex(&out));
            decode_out(&out, &st, &detail)?;
            if ver == Ver::V51 && st.fin == st.fout && st.sett.l51 == st.sett.out && out != input {
                return fail(
                    "a Lua 5.1 chunk that already has the requested format and constants changed",
                    st.describe() + &detail() + "input " + &hex(&input) + "\noutput " + &hex(&out),
                );
            }
            c.label_if(out == input, "unchanged");
            let prefix = st.sett.out.sig.as_bytes();
            if !out.starts_with(prefix) || out[prefix.len()] != 0x51 {
                return fail("signature or version byte", st.describe());
            }
            Ok(())
        }
        Err(e) => {
            c.label("rejected");
            // what fits both sides has to convert
            let explained = match e {
                LunifyError::FloatPrecisionLoss | LunifyError::IntegerOverflow => !exact,
                LunifyError::ValueTooBigForOperand | LunifyError::StackTooLarge(_) => ver == Ver::V50,
                _ => false,
            };
            if !explained {
                return fail(format!("a chunk that fits the output is rejected with {e:?}"), st.describe() + &detail());
            }
            Ok(())
        }
    }
}

// ---------------------------------------------------------------- long lists

/// A length around a power of two.
pub fn huge_length(s: &mut Src) -> usize {
    match s.weighted(&[2, 3, 4, 2]) {
        0 => s.us(250, 260),
        1 => s.us(32_760, 32_775),
        2 => s.us(65_530, 65_545),
        _ => *s.pick(&[511, 513, 1023, 1025, 4097, 16_385, 40_000, 70_000, 100_000, 131_071, 131_073, 200_000, 262_143]),
    }
}

/// Makes one list of one function of the chunk long; returns its name and length.
pub fn inflate(s: &mut Src, p: &mut Proto, lim: &Lim) -> (&'static str, usize) {
    let mut p = p;
    while !p.protos.is_empty() && s.chance(1, 3) {
        let n = s.us(0, p.protos.len() - 1);
        p = &mut p.protos[n];
    }
    let n = huge_length(s);
    let (mov, ret) = match lim.ver {
        Ver::V50 => (o50("MOVE"), o50("RETURN")),
        Ver::V51 => (o51("MOVE"), o51("RETURN")),
    };
    // plain instructions that show where they are
    let base = (lim.reg / 2).max(1);
    let code = |n: usize| -> Vec<Ins> {
        let mut v: Vec<Ins> = (0..n - 1).map(|i| Ins::abc(mov, i as u64 % base, i as u64 / base % base, 0)).collect();
        v.push(Ins::abc(ret, 0, 1, 0));
        v
    };
    match s.below(6) {
        0 => {
            p.code = code(n);
            p.lines.clear();
            p.locals.clear();
            ("instructions", n)
        }
        1 => {
            p.code = code(n);
            p.lines = (0..n as i64).map(|i| i % lim.int.min(1 << 20)).collect();
            p.locals.clear();
            ("lines", n)
        }
        2 => {
            let length = p.code.len() as i64;
            p.locals = (0..n)
                .map(|i| Local { name: lstr(format!("v{i}").as_bytes()), start: i as i64 % length, end: length })
                .collect();
            ("locals", n)
        }
        3 => {
            // a number and its neighbour are never equal
            p.consts = (0..n)
                .map(|i| match i % 4 {
                    0 => Const::Str(lstr(format!("k{i}").as_bytes())),
                    1 => Const::Bool(i % 8 > 3),
                    2 => Const::Num(if lim.numf.is_number_integral { Num::I(i as i64 % 1000) } else { Num::F((i % 1000) as f64) }),
                    _ => Const::Str(lstr(&[b'a' + (i / 4 % 26) as u8])),
                })
                .collect();
            ("constants", n)
        }
        4 => {
            let mut child = Proto { source: Vec::new(), maxstack: 2, ..Default::default() };
            child.code = code(1);
            p.protos = (0..n)
                .map(|i| {
                    let mut c = child.clone();
                    c.line = i as i64;
                    c.last_line = c.line;
                    c.nparams = (i % 2) as u8;
                    c
                })
                .collect();
            ("functions", n)
        }
        _ => {
            // there are never more than upvalues
            let n = s.us(120, 255);
            p.nups = n as u8;
            p.upnames = (0..n).map(|i| lstr(format!("u{i}").as_bytes())).collect();
            ("upvalue names", n)
        }
    }
}

/// A setup and a chunk with one long list.
pub fn huge_chunk(s: &mut Src, ver: Ver, c: &mut Case) -> (Setup, Proto, String, usize) {
    let st = setup(s, ver, &Want { same_fpf: true, real: true });
    let mut lim = Lim::both(st.ver, &st.fin, st.cin(), &st.fout, &st.sett.out);
    lim.size = 6;
    lim.setlist = ver == Ver::V51;
    if ver == Ver::V50 {
        lim.reg = (lim.reg / 2).max(8);
    }
    let mut p = gen::proto(s, &lim, 2);
    let (list, n) = inflate(s, &mut p, &lim);
    c.label(list);
    c.label_if(n > 255, "more than 255 entries");
    c.label_if(n > 32_767, "more than 32767 entries");
    c.label_if(n > 65_535, "more than 65535 entries");
    label_setup(c, &st);
    let what = format!("{n} {list}\n");
    (st, p, what, n)
}

fn c01_huge(s: &mut Src, c: &mut Case) -> Result<(), Failure> {
    let (st, p, what, n) = huge_chunk(s, Ver::V51, c);
    let input = encode_ok(&p, &st);
    c.nontrivial = n > 255 && (st.fin != st.fout || st.cin().lay != st.sett.out.lay || st.cin().sig != st.sett.out.sig);
    c.key = key(&input, &st);
    let detail = || what.clone();
    c.sample = Some(st.describe() + &what);
    let out = st.must(&input, detail)?;
    let q = decode_out(&out, &st, &detail)?;
    if let Err(e) = gen::same_proto("main", &p, &q, &Cmp { fout: st.fout, code: true }) {
        let e: String = e.chars().take(300).collect();
        return fail(e, st.describe() + &what);
    }
    Ok(())
}

fn c02_huge(s: &mut Src, c: &mut Case) -> Result<(), Failure> {
    let ver = if s.chance(3, 4) { Ver::V50 } else { Ver::V51 };
    let (st, p, what, n) = huge_chunk(s, ver, c);
    let input = encode_ok(&p, &st);
    let detail = || what.clone();
    match st.convert(&input)? {
        Ok(out) => {
            c.nontrivial = n > 255;
            c.key = fnv(&out);
            c.sample = Some(st.describe() + &what);
            decode_out(&out, &st, &detail).map(|_| ())
        }
        Err(LunifyError::ValueTooBigForOperand | LunifyError::StackTooLarge(_)) if ver == Ver::V50 => {
            c.label("rejected");
            Ok(())
        }
        Err(e) => fail(format!("a chunk that fits the output is rejected with {e:?}"), st.describe() + &what),
    }
}

// ---------------------------------------------------------------- C04

pub fn small_chunk(s: &mut Src) -> (Setup, Proto, Vec<u8>, Vec<(usize, usize, Field)>) {
    let ver = both_versions(s);
    let mut st = setup(s, ver, &Want { same_fpf: true, real: true });
    // decoding must be needed
    if ver == Ver::V51 && st.fin == st.fout {
        st.fout.format = st.fin.format.wrapping_add(1);
    }
    let p = random_chunk(
        s,
        &st,
        |l| {
            l.size = 8;
            l.setlist = ver == Ver::V51;
            if ver == Ver::V50 {
                l.reg = (l.reg / 2).max(8);
            }
        },
        2,
    );
    let e = encode(&p, ver, &st.fin, st.cin());
    (st.clone(), p, e.out, e.map)
}

fn c04_truncate(s: &mut Src, c: &mut Case) -> Result<(), Failure> {
    let (st, p, input, _) = small_chunk(s);
    let picks: Vec<u64> = (0..400).map(|_| if input.len() > 400 { s.below(input.len() as u64) } else { 0 }).collect();
    let extra = s.us(1, 12);
    let extra = s.bytes(extra);
    label_setup(c, &st);
    let detail = || show_proto(&p, st.ver, 0);
    if let Err(e) = st.convert(&input)? {
        if st.ver == Ver::V50 && matches!(e, LunifyError::ValueTooBigForOperand | LunifyError::StackTooLarge(_)) {
            c.discard = true;
            return Ok(());
        }
        return fail(format!("the whole chunk is rejected with {e:?}"), st.describe() + &detail());
    }
    let sig = st.cin().sig.len();
    let points: Vec<usize> = if input.len() <= 400 { (0..input.len()).collect() } else { picks.iter().map(|&v| v as usize).collect() };
    for &at in &points {
        let r = st.convert(&input[..at])?;
        let want = if at < sig { LunifyError::IncorrectSignature } else { LunifyError::InputTooShort };
        // a chunk that ends right behind its signature may count as having no signature
        if r == Err(want) || (at == sig && r == Err(LunifyError::IncorrectSignature)) {
            continue;
        }
        let r = r.map(|v| v.len());
        return fail(format!("the first {at} of {} bytes give {r:?} instead of {want:?}", input.len()), st.describe() + &detail() + "input " + &hex(&input));
    }
    let mut long = input.clone();
    for (n, b) in extra.iter().enumerate() {
        long.push(*b);
        let r = st.convert(&long)?;
        if r != Err(LunifyError::InputTooLong) {
            let r = r.map(|v| v.len());
            return fail(format!("{} surplus bytes give {r:?} instead of InputTooLong", n + 1), st.describe() + &detail());
        }
    }
    c.nontrivial = points.len() >= 10;
    c.key = key(&input, &st);
    c.sample = Some(format!("{}{} cuts of {} bytes, up to {} surplus bytes\n{}", st.describe(), points.len(), input.len(), extra.len(), detail()));
    Ok(())
}

fn c04_corrupt(s: &mut Src, c: &mut Case) -> Result<(), Failure> {
    let (st, p, mut input, map) = small_chunk(s);
    let detail = || show_proto(&p, st.ver, 0);
    let interesting: Vec<Field> = [
        Field::Signature,
        Field::Version,
        Field::Endian,
        Field::IntWidth,
        Field::SizeWidth,
        Field::InsWidth,
        Field::NumWidth,
        Field::OpSizes,
        Field::Instruction,
        Field::ConstTag,
    ]
    .into_iter()
    .filter(|f| map.iter().any(|(_, _, g)| g == f))
    .collect();
    let field = *s.pick(&interesting);
    let places: Vec<(usize, usize)> = map.iter().filter(|(_, _, g)| *g == field).map(|(a, b, _)| (*a, *b)).collect();
    let (start, len) = *s.pick(&places);
    let raw = s.below(256) as u8;
    let at = s.below(len as u64) as usize;
    let opv = s.below(1 << 20);
    label_setup(c, &st);
    let before = st.convert(&input)?;
    if before.is_err() {
        c.discard = true;
        return Ok(());
    }
    let avoid = |bad: &[u8]| {
        let mut v = raw;
        while bad.contains(&v) {
            v = v.wrapping_add(1);
        }
        v
    };
    let want = match field {
        Field::Signature => {
            let old = input[start + at];
            input[start + at] = avoid(&[old]);
            c.label("signature");
            // the corrupted text may happen to start with the other accepted signature
            if [&st.sett.l50.sig, &st.sett.l51.sig].iter().any(|g| input.starts_with(g.as_bytes())) {
                c.discard = true;
                return Ok(());
            }
            LunifyError::IncorrectSignature
        }
        Field::Version => {
            input[start] = avoid(&[0x50, 0x51]);
            c.label("version");
            LunifyError::UnsupportedVersion(input[start])
        }
        Field::Endian => {
            input[start] = avoid(&[0, 1]);
            c.label("endianness");
            LunifyError::InvaildEndianness(input[start])
        }
        Field::IntWidth => {
            input[start] = avoid(&[4, 8]);
            c.label("integer width");
            LunifyError::UnsupportedIntegerWidth(input[start])
        }
        Field::SizeWidth => {
            input[start] = avoid(&[4, 8]);
            c.label("size_t width");
            LunifyError::UnsupportedSizeTWidth(input[start])
        }
        Field::InsWidth => {
            input[start] = avoid(&[4, 8]);
            c.label("instruction width");
            LunifyError::UnsupportedInstructionWidth(input[start])
        }
        Field::NumWidth => {
            input[start] = avoid(&[4, 8]);
            c.label("number width");
            LunifyError::UnsupportedNumberWidth(input[start])
        }
        Field::OpSizes => {
            let old = input[start];
            input[start] = avoid(&[old]);
            c.label("operand sizes");
            let first = map.iter().find(|(_, _, g)| *g == Field::OpSizes).unwrap().0;
            LunifyError::UnsupportedInstructionFormat(input[first..first + 4].try_into().unwrap())
        }
        Field::ConstTag => {
            input[start] = avoid(&[0, 1, 3, 4]);
            c.label("constant type");
            LunifyError::InvalidConstantType(input[start])
        }
        _ => {
            c.label("opcode");
            let lay = &st.cin().lay;
            let known = st.ver.ops().len() as u64;
            let op = known + opv % (lay.max(Op4::O) + 1 - known);
            let little = st.fin.endianness == Endianness::Little;
            let byte = |i: usize| if little { start + i } else { start + len - 1 - i };
            let mut w = 0u64;
            for i in 0..len {
                w |= (input[byte(i)] as u64) << (8 * i);
            }
            w = w & !(lay.max(Op4::O) << lay.pos(Op4::O)) | op << lay.pos(Op4::O);
            for i in 0..len {
                input[byte(i)] = (w >> (8 * i)) as u8;
            }
            LunifyError::InvalidOpcode(op)
        }
    };
    c.nontrivial = true;
    c.key = key(&input, &st);
    c.sample = Some(format!("{}{want:?} in {}", st.describe(), hex(&input)));
    let r = st.convert(&input)?;
    if r != Err(want) {
        let r = r.map(|v| v.len());
        return fail(format!("{field:?} at byte {start} gives {r:?} instead of {want:?}"), st.describe() + &detail() + "input " + &hex(&input));
    }
    Ok(())
}

// ---------------------------------------------------------------- C12

/// The smallest valid function of a version.
pub fn trivial(ver: Ver) -> Proto {
    let ret = if ver == Ver::V50 { o50("RETURN") } else { o51("RETURN") };
    Proto { maxstack: 2, code: vec![Ins::abc(ret, 0, 1, 0)], lines: vec![1], line: 0, ..Default::default() }
}

fn c12_numbers(s: &mut Src, c: &mut Case) -> Result<(), Failure> {
    let ver = both_versions(s);
    let st = setup(s, ver, &Want { same_fpf: true, real: true });
    let mut p = trivial(ver);
    let n = s.us(1, 6);
    let in32 = st.fin.number_width == BitWidth::Bit32;
    for _ in 0..n {
        let v = match s.weighted(&[3, 2]) {
            0 => gen::num(s, &st.fin),
            _ => {
                // near the limits of the output type
                let base = *s.pick(&[31u32, 32, 24, 53, 63, 62]);
                let off = s.range(-3, 3);
                let v = (1i128 << base) + off as i128;
                let v = if s.coin() { -v } else { v };
                if st.fin.is_number_integral {
                    let (lo, hi) = if in32 { (i32::MIN as i128, i32::MAX as i128) } else { (i64::MIN as i128, i64::MAX as i128) };
                    Num::I(v.clamp(lo, hi) as i64)
                } else {
                    let f = v as f64 + if s.chance(1, 6) { 0.5 } else { 0.0 };
                    Num::F(if in32 { f as f32 as f64 } else { f })
                }
            }
        };
        p.consts.push(Const::Num(v));
    }
    if s.coin() {
        let mut q = trivial(ver);
        q.consts = p.consts.clone();
        p.protos.push(q);
    }
    let input = encode_ok(&p, &st);
    label_setup(c, &st);
    let detail = || show_proto(&p, ver, 0);
    c.nontrivial = st.fin.number_width != st.fout.number_width
        || st.fin.is_number_integral != st.fout.is_number_integral
        || p.consts.iter().any(|k| !matches!(k, Const::Num(Num::F(v)) if v.fract() == 0.0 && v.abs() < 1000.0));
    c.key = key(&input, &st);
    c.sample = Some(st.describe() + &detail());
    let mut must_fail = false;
    let mut may_fail = false;
    for k in &p.consts {
        let Const::Num(v) = k else { continue };
        match gen::convert_num(*v, &st.fout) {
            None => must_fail = true,
            Some(o) => {
                if let (Num::F(x), Num::F(y)) = (*v, o[0]) {
                    may_fail |= x.is_finite() && y.is_infinite();
                }
                may_fail |= !st.fout.is_number_integral && matches!(v, Num::I(i64::MAX));
            }
        }
    }
    c.label_if(must_fail, "not representable");
    match st.convert(&input)? {
        Ok(out) => {
            if must_fail {
                let shown = decode(&out, Ver::V51, &st.sett.out).map(|(_, q)| show_proto(&q, Ver::V51, 0)).unwrap_or_default();
                return fail("a constant the output type cannot represent was converted", st.describe() + &detail() + "became\n" + &shown);
            }
            let q = decode_out(&out, &st, &detail)?;
            if let Err(e) = gen::same_proto("main", &lift(&p, ver), &q, &Cmp { fout: st.fout, code: false }) {
                return fail(e, st.describe() + &detail());
            }
            Ok(())
        }
        Err(LunifyError::FloatPrecisionLoss | LunifyError::IntegerOverflow) if must_fail || may_fail => Ok(()),
        Err(e) => fail(format!("representable constants are rejected with {e:?}"), st.describe() + &detail()),
    }
}

/// The Lua 5.1 view of a 5.0 function's header and constants.
fn lift(p: &Proto, ver: Ver) -> Proto {
    let mut q = p.clone();
    if ver == Ver::V50 {
        if q.vararg != 0 {
            q.vararg |= 2;
        }
        q.last_line = q.line;
        q.protos = p.protos.iter().map(|x| lift(x, ver)).collect();
    }
    q
}

// ---------------------------------------------------------------- C13

fn c13_strings(s: &mut Src, c: &mut Case) -> Result<(), Failure> {
    let ver = both_versions(s);
    let st = setup(s, ver, &Want { same_fpf: true, real: true });
    let long = s.chance(1, 60);
    let depth = s.us(0, 2);
    let mut p = string_proto(s, ver, depth);
    if long {
        let n = if s.chance(1, 4) { s.us(65_000, 400_000) } else { ((1i64 << s.range(14, 18)) + s.range(-2, 2)) as usize };
        let text = vec![s.below(256) as u8; n];
        match s.below(4) {
            0 => p.source = text,
            1 if !p.locals.is_empty() => p.locals[0].name = text,
            2 if !p.upnames.is_empty() => p.upnames[0] = text,
            _ => p.consts.push(Const::Str(text)),
        }
    }
    let input = encode_ok(&p, &st);
    label_setup(c, &st);
    c.label_if(long, "long string");
    let detail = || show_proto(&p, ver, 0);
    let mut strings: Vec<LStr> = Vec::new();
    p.walk(&mut |f| {
        strings.push(f.source.clone());
        strings.extend(f.consts.iter().filter_map(|k| if let Const::Str(b) = k { Some(b.clone()) } else { None }));
        strings.extend(f.locals.iter().map(|l| l.name.clone()));
        strings.extend(f.upnames.iter().cloned());
    });
    c.nontrivial = strings.iter().any(|b| b.iter().any(|&x| x >= 0x80) || b.len() > 256 || b[..b.len().max(1) - 1].contains(&0));
    c.key = fnv(&strings.concat()) ^ fnv(st.describe().as_bytes());
    c.sample = Some(format!("{}{} strings\n{}", st.describe(), strings.len(), detail().chars().take(1500).collect::<String>()));
    let out = st.must(&input, detail)?;
    let q = decode_out(&out, &st, &detail)?;
    if let Err(e) = gen::same_proto("main", &lift(&p, ver), &q, &Cmp { fout: st.fout, code: false }) {
        return fail(e, st.describe() + &detail());
    }
    Ok(())
}

fn string_proto(s: &mut Src, ver: Ver, depth: usize) -> Proto {
    let mut p = trivial(ver);
    let text = |s: &mut Src| if s.chance(1, 10) { Vec::new() } else { gen::string(s) };
    p.source = text(s);
    for _ in 0..s.us(0, 5) {
        let b = text(s);
        p.consts.push(Const::Str(b.clone()));
        if s.chance(1, 4) && !b.is_empty() {
            // a near twin: one byte differs by its top bit
            let mut t = b;
            let at = s.below(t.len() as u64) as usize;
            t[at] ^= 0x80;
            p.consts.push(Const::Str(t));
        }
    }
    for _ in 0..s.us(0, 3) {
        let name = text(s);
        p.locals.push(Local { name, start: 0, end: 1 });
    }
    p.nups = s.below(4) as u8;
    if s.coin() {
        for _ in 0..p.nups {
            p.upnames.push(text(s));
        }
    }
    if depth > 0 {
        for _ in 0..s.us(0, 2) {
            p.protos.push(string_proto(s, ver, depth - 1));
        }
    }
    p
}

// ---------------------------------------------------------------- C15

fn c15_spec(s: &mut Src, c: &mut Case) -> Result<(), Failure> {
    let orders = gen::orders();
    let mut spec: Vec<(u64, u64)> = if s.chance(2, 3) {
        s.pick(&orders).iter().map(|o| (*o as u64, 0)).collect()
    } else {
        (0..4).map(|_| (s.below(4), 0)).collect()
    };
    for o in spec.iter_mut() {
        let min = [6u64, 7, 8, 8][o.0 as usize];
        o.1 = match s.weighted(&[6, 6, 4, 2, 2, 1]) {
            0 => min + s.below(3),
            1 => s.range(min as i64, 31) as u64,
            2 => s.range(10, 22) as u64,
            3 => s.range(min as i64 - 2, min as i64) as u64,
            4 => s.range(29, 34) as u64,
            _ => s.edgy(u64::MAX),
        };
    }
    let spec4 = [0, 1, 2, 3].map(|i: usize| match spec[i].0 {
        0 => OperandType::Opcode(spec[i].1),
        1 => OperandType::A(spec[i].1),
        2 => OperandType::B(spec[i].1),
        _ => OperandType::C(spec[i].1),
    });
    c.nontrivial = true;
    c.key = fnv(format!("{spec4:?}").as_bytes());
    c.sample = Some(format!("{spec4:?}"));
    let once = (0..4).all(|k| spec.iter().filter(|o| o.0 == k).count() == 1);
    let sizes = spec.iter().all(|&(k, n)| n >= [6, 7, 8, 8][k as usize] && n < 32);
    let pb = spec.iter().position(|o| o.0 == 2);
    let pc = spec.iter().position(|o| o.0 == 3);
    let adjacent = matches!((pb, pc), (Some(b), Some(c)) if b.abs_diff(c) == 1);
    let fits = sizes && spec.iter().map(|o| o.1).sum::<u64>() <= 64;
    let accept = once && sizes && adjacent && fits;
    c.label_if(accept, "acceptable");
    if GENERATE_ONLY.with(|g| g.get()) {
        return Ok(());
    }
    let r = match std::panic::catch_unwind(|| InstructionLayout::from_specification(spec4)) {
        Ok(r) => r,
        Err(_) => return fail(format!("from_specification panicked on {spec4:?}: {}", PANIC.with(|p| p.borrow().clone())), ""),
    };
    match (accept, &r) {
        (true, Ok(_)) | (false, Err(LunifyError::InvalidInstructionLayout)) => Ok(()),
        _ => fail(format!("{spec4:?} gives {r:?}, expected {}", if accept { "a layout" } else { "InvalidInstructionLayout" }), ""),
    }
}

/// A layout that need not fit the word of the format.
fn any_layout(s: &mut Src, f: &Format, d: Lay) -> Lay {
    if s.chance(1, 8) {
        gen::layout(s, 64, d)
    } else {
        gen::layout_for(s, f, d)
    }
}

/// A TESTSET of a register that no build with this layout has (registers stay below BITRK).
fn unreal_register(code: &[Ins], cons: &Consts) -> bool {
    code.iter().any(|i| i.op == o51("TESTSET") && matches!(i.args, Args::Abc(b, _) if b.v >= cons.lay.const_bit()))
}

fn c15_repack(s: &mut Src, c: &mut Case) -> Result<(), Failure> {
    let mut st = setup(s, Ver::V51, &Want { same_fpf: true, real: false });
    st.sett.out.lay = any_layout(s, &st.fout, Lay::L51);
    st.fin.number_width = st.fout.number_width;
    st.fin.is_number_integral = st.fout.is_number_integral;
    // limits of the input alone, or of both sides
    let wide = s.chance(1, 2);
    let n = if s.chance(1, 6) { s.us(1, 40_000) } else { s.us(1, 10) };
    let mut lim = if wide { Lim::both(Ver::V51, &st.fin, st.cin(), &st.fin, st.cin()) } else { Lim::both(Ver::V51, &st.fin, st.cin(), &st.fout, &st.sett.out) };
    lim.int = i32::MAX as i64;
    if wide && lim.kidx != u64::MAX {
        lim.kidx = lim.kidx.min(1 << 12);
    }
    let mut p = trivial(Ver::V51);
    let fill = Ins::abc(o51("MOVE"), 0, 0, 0);
    p.code = vec![fill; n];
    p.lines.clear();
    let interesting = s.us(1, 8);
    for _ in 0..interesting {
        let pc = s.below(n as u64) as usize;
        p.code[pc] = gen::instruction(s, &lim, pc, n);
    }
    if s.coin() {
        // the extreme jumps the distance allows
        let hi = (n as i64 - 2).min(lim.sbx);
        p.code[0] = Ins::sbx(o51("JMP"), 0, hi.max(-1));
        let last = n - 1;
        p.code[last] = Ins::sbx(o51("JMP"), 0, -(n as i64).min(lim.sbx));
    }
    p.maxstack = 250;
    st.sett.out.stack = 250;
    st.sett.l51.stack = 250;
    let e = encode(&p, Ver::V51, &st.fin, st.cin());
    if e.bad.is_some() {
        c.discard = true;
        return Ok(());
    }
    let input = e.out;
    label_setup(c, &st);
    c.label_if(n > 1000, "long code");
    c.nontrivial = st.cin().lay != st.sett.out.lay;
    c.key = key(&input, &st);
    let detail = || {
        let list: Vec<String> = p.code.iter().enumerate().filter(|(_, i)| **i != fill).map(|(pc, i)| format!("[{pc}] {}", i.show(&OPS51))).collect();
        format!("{n} instructions\n{}\n", list.join("\n"))
    };
    c.sample = Some(st.describe() + &detail());
    let mut canon = p.clone();
    canon.code = p.code.iter().map(|i| i.canon51()).collect();
    for i in canon.code.iter_mut() {
        if i.op == o51("NEWTABLE") {
            i.args = Args::Abc(r(0), r(0));
        }
    }
    let expected = encode(&canon, Ver::V51, &st.fout, &st.sett.out);
    c.label_if(expected.bad.is_some(), "does not fit");
    let unreal = unreal_register(&canon.code, &st.sett.out);
    match st.convert(&input)? {
        Ok(out) => {
            if let Some(bad) = expected.bad {
                return fail(format!("converted although {bad}"), st.describe() + &detail());
            }
            let q = decode_out(&out, &st, &detail)?;
            for (pc, (x, y)) in p.code.iter().zip(&q.code).enumerate() {
                if x.canon51() != y.canon51() {
                    return fail(format!("instruction {pc}: expected {} got {}", x.show(&OPS51), y.show(&OPS51)), st.describe() + &detail());
                }
            }
            if p.code.len() != q.code.len() {
                return fail("instruction count", st.describe() + &detail());
            }
            Ok(())
        }
        Err(LunifyError::ValueTooBigForOperand) if expected.bad.is_some() || unreal => Ok(()),
        Err(e) => fail(format!("rejected with {e:?}, expected {:?}", expected.bad), st.describe() + &detail()),
    }
}

/// Opcodes of 5.0 that map to one 5.1 instruction.
pub fn direct50(name: &str) -> Option<&'static str> {
    Some(match name {
        "FORLOOP" | "TFORLOOP" | "TFORPREP" | "SETLIST" | "SETLISTO" => return None,
        "TEST" => "TESTSET",
        n => OPS51.iter().find(|o| o.name == n)?.name,
    })
}

fn c15_repack50(s: &mut Src, c: &mut Case) -> Result<(), Failure> {
    let mut st = setup(s, Ver::V50, &Want { same_fpf: true, real: false });
    st.sett.out.lay = any_layout(s, &st.fout, Lay::L51);
    st.sett.l50.stack = st.sett.l50.stack.min(st.sett.l50.lay.max(Op4::B).min(st.sett.l50.lay.max(Op4::C)));
    st.sett.out.stack = 250;
    st.fin.number_width = st.fout.number_width;
    st.fin.is_number_integral = st.fout.is_number_integral;
    let wide = s.chance(1, 2);
    let mut lim = Lim::both(Ver::V50, &st.fin, st.cin(), &st.fout, &st.sett.out);
    if wide {
        let (a, b, cc) = (st.cin().lay.max(Op4::A), st.cin().lay.max(Op4::B), st.cin().lay.max(Op4::C));
        lim.a = a;
        lim.b = b;
        lim.c = cc;
        lim.bx = st.cin().lay.max_bx();
        lim.sbx = st.cin().lay.bias();
        lim.kidx = b.min(cc) - st.cin().stack;
    }
    let n = s.us(1, 12);
    let mut p = trivial(Ver::V50);
    p.lines.clear();
    p.code = (0..n)
        .map(|pc| {
            let i = gen::instruction(s, &lim, pc, n);
            match direct50(OPS50[i.op as usize].name) {
                Some(_) => i,
                None => Ins::abc(o50("MOVE"), 0, 0, 0),
            }
        })
        .collect();
    p.maxstack = lim.reg.min(250) as u8;
    if s.coin() {
        p.lines = vec![1; n];
    }
    let e = encode(&p, Ver::V50, &st.fin, st.cin());
    if e.bad.is_some() {
        c.discard = true;
        return Ok(());
    }
    let input = e.out;
    let mut want = p.clone();
    want.code = p
        .code
        .iter()
        .map(|i| {
            let name = direct50(OPS50[i.op as usize].name).unwrap();
            let mut j = Ins { op: o51(name), ..*i };
            if name == "NEWTABLE" {
                j.args = Args::Abc(r(0), r(0));
            }
            j.canon51()
        })
        .collect();
    let expected = encode(&want, Ver::V51, &st.fout, &st.sett.out);
    label_setup(c, &st);
    c.label_if(expected.bad.is_some(), "does not fit");
    let unreal = unreal_register(&want.code, &st.sett.out);
    c.key = key(&input, &st);
    let detail = || show_proto(&p, Ver::V50, 0);
    c.sample = Some(st.describe() + &detail());
    match st.convert(&input)? {
        Ok(out) => {
            c.nontrivial = true;
            if let Some(bad) = expected.bad {
                return fail(format!("converted although {bad}"), st.describe() + &detail());
            }
            let q = decode_out(&out, &st, &detail)?;
            let a: Vec<String> = want.code.iter().map(|i| i.show(&OPS51)).collect();
            let b: Vec<String> = q.code.iter().map(|i| if i.op == o51("NEWTABLE") { Ins::abc(i.op, i.a, 0, 0) } else { i.canon51() }.show(&OPS51)).collect();
            if a != b {
                let at = a.iter().zip(&b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
                return fail(
                    format!("instruction {at}: expected {:?} got {:?}", a.get(at), b.get(at)),
                    st.describe() + &detail() + &show_proto(&q, Ver::V51, 0),
                );
            }
            Ok(())
        }
        Err(LunifyError::ValueTooBigForOperand) if expected.bad.is_some() || unreal => Ok(()),
        Err(LunifyError::StackTooLarge(_)) => Ok(()),
        Err(e) => fail(format!("rejected with {e:?}, expected {:?}", expected.bad), st.describe() + &detail()),
    }
}
