//! C11: limits are respected or reported, never silently exceeded.
//!
//! Oracle: the same input is also converted for an output with room for everything. What comes out says
//! what has to be held, so the conversion for the limited output has to succeed exactly when all of it fits
//! (judged by the model), and has to hold the same code. The limited output is also checked against the
//! rules of the byte code verifier, and executed where the input is executable.

use lunify::{BitWidth, LunifyError};

use super::structural::{both_versions, decode_out, key, label_setup};
use super::vmp::{low_opt, options, real_setup, same_numbers};
use super::*;
use crate::gen::{self, Cmp, Lim};
use crate::luagen;
use crate::lowgen;
use crate::vm::*;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C11",
        parts: vec![
            part("code", code, 60_000, 3_000_000, "executable generated byte code of either version converted for a build with a smaller stack limit, operands or instruction word; non-trivial when something is rewritten, keyed by code and builds"),
            part("programs", programs, 40_000, 1_500_000, "a generated program compiled for a build with more room than the output; non-trivial when it has more than ten instructions, keyed by code and builds"),
            part("random", random, 120_000, 8_000_000, "random functions of either version at the limits of the input, converted for an output with other limits; non-trivial always, keyed by code and builds"),
            Part { shrink: 200, ..part("large", large, 2_500, 150_000, "functions with jumps around the jump limit over rewritten code, constants around the index limit, constructors around the page limit or registers around the stack limit; non-trivial always, keyed by code and builds") },
        ],
        findings: vec![],
        assumptions: vec!["stack limits below 256", "registers stay below the constant bit of the output layout"],
    }]
}

const ROOM: Lay = Lay { order: [(Op4::O, 8), (Op4::A, 9), (Op4::B, 23), (Op4::C, 23)] };

/// Highest register an output instruction touches.
fn touched(i: &Ins) -> Option<u64> {
    let (b, c) = match i.args {
        Args::Abc(b, c) => (b, c),
        _ => (r(0), r(0)),
    };
    let mut top = Some(i.a);
    let mut up = |x: Rk| {
        if !x.k {
            top = Some(top.map_or(x.v, |t: u64| t.max(x.v)));
        }
    };
    match OPS51[i.op as usize].name {
        "MOVE" | "LOADNIL" | "UNM" | "NOT" | "LEN" | "TESTSET" => up(b),
        "GETTABLE" | "ADD" | "SUB" | "MUL" | "DIV" | "MOD" | "POW" | "SETTABLE" | "CONCAT" => {
            up(b);
            up(c)
        }
        "SELF" => {
            up(b);
            up(c);
            up(r(i.a + 1))
        }
        "JMP" => return None,
        "EQ" | "LT" | "LE" => {
            top = None;
            let mut up = |x: Rk| {
                if !x.k {
                    top = Some(top.map_or(x.v, |t: u64| t.max(x.v)));
                }
            };
            up(b);
            up(c)
        }
        "CALL" | "TAILCALL" => {
            if b.v > 1 {
                up(r(i.a + b.v - 1))
            }
            if c.v > 2 {
                up(r(i.a + c.v - 2))
            }
        }
        "RETURN" => {
            if b.v < 2 {
                return None;
            }
            up(r(i.a + b.v - 2))
        }
        "VARARG" => {
            if b.v > 2 {
                up(r(i.a + b.v - 2))
            }
        }
        "FORLOOP" | "FORPREP" => up(r(i.a + 3)),
        "TFORLOOP" => up(r(i.a + 2 + c.v)),
        "SETLIST" => up(r(i.a + b.v)),
        _ => {}
    }
    top
}

fn registers(path: &str, p: &Proto, limit: u64) -> Result<(), String> {
    if p.maxstack as u64 > limit {
        return Err(format!("{path}: a stack of {} where {limit} is the limit", p.maxstack));
    }
    for (pc, i) in p.code.iter().enumerate() {
        if let Some(t) = touched(i) {
            if t >= p.maxstack as u64 {
                return Err(format!("{path}: instruction {pc} {} touches register {t}, the stack has {}", i.show(&OPS51), p.maxstack));
            }
        }
    }
    for (n, q) in p.protos.iter().enumerate() {
        registers(&format!("{path}.{n}"), q, limit)?;
    }
    Ok(())
}

/// Converts for the limited and for a roomy output and compares; gives the limited output.
fn judge(c: &mut Case, input: &[u8], st: &Setup, detail: &dyn Fn() -> String) -> Result<Option<(Vec<u8>, Proto)>, Failure> {
    let mut roomy = st.clone();
    roomy.fout.instruction_width = BitWidth::Bit64;
    roomy.sett.out.lay = ROOM;
    roomy.sett.out.stack = 255;
    // decoding is needed on this side too
    roomy.sett.out.sig = "roomy".into();
    let all = roomy.convert(input)?;
    let got = st.convert(input)?;
    let all = match all {
        Ok(v) => decode_out(&v, &roomy, detail)?,
        Err(e) => {
            c.label("fits nowhere");
            if matches!(e, LunifyError::StackTooLarge(n) if n <= 255) {
                return fail(format!("an output with a stack of 255 is rejected with {e:?}"), st.describe() + &detail());
            }
            return match got {
                Ok(_) => fail(format!("converted, although an output with more room is rejected with {e:?}"), st.describe() + &detail()),
                Err(_) => Ok(None),
            };
        }
    };
    let bad = encode(&all, Ver::V51, &st.fout, &st.sett.out).bad;
    let limit = st.sett.out.stack;
    let tall = all.any(&mut |p| p.maxstack as u64 > limit);
    let high = all.any(&mut |p| p.code.iter().any(|i| i.op == o51("TESTSET") && i.b() >= st.sett.out.lay.const_bit()));
    c.label_if(bad.is_some(), "operand does not fit");
    c.label_if(tall, "stack does not fit");
    match got {
        Ok(v) => {
            c.label("accepted");
            if let Some(bad) = bad {
                return fail(format!("converted although the output can't hold it: {bad}"), st.describe() + &detail() + "--- wanted\n" + &show_proto(&all, Ver::V51, 0));
            }
            if tall {
                return fail(format!("converted although it needs a larger stack than {limit}"), st.describe() + &detail() + "--- wanted\n" + &show_proto(&all, Ver::V51, 0));
            }
            let q = decode_out(&v, st, detail)?;
            if let Err(m) = gen::same_proto("main", &all, &q, &Cmp { fout: st.fout, code: true }) {
                return fail(format!("the limited output holds something else: {m}"), st.describe() + &detail() + "--- converted code\n" + &show_proto(&q, Ver::V51, 0));
            }
            Ok(Some((v, q)))
        }
        Err(e) => {
            let explained = match e {
                LunifyError::ValueTooBigForOperand => bad.is_some() || high,
                LunifyError::StackTooLarge(n) => tall && n > limit,
                _ => false,
            };
            if !explained {
                return fail(
                    format!("rejected with {e:?}, expected {}", bad.or(tall.then(|| "StackTooLarge".into())).unwrap_or_else(|| "success".into())),
                    st.describe() + &detail() + "--- wanted\n" + &show_proto(&all, Ver::V51, 0),
                );
            }
            Ok(None)
        }
    }
}

/// A smaller output.
fn tighten(s: &mut Src, st: &mut Setup, stacks: bool) {
    let o = &mut st.sett.out;
    if s.chance(2, 3) {
        let (a, b, c) = *s.pick(&[(7, 8, 8), (8, 8, 8), (7, 8, 9), (8, 9, 9), (7, 9, 9), (8, 8, 10)]);
        let orders = gen::orders();
        let order = *s.pick(&orders);
        o.lay = Lay {
            order: order.map(|x| {
                (
                    x,
                    match x {
                        Op4::O => 6,
                        Op4::A => a,
                        Op4::B => b,
                        Op4::C => c,
                    },
                )
            }),
        };
        if s.coin() {
            st.fout.instruction_width = BitWidth::Bit32;
        }
    } else if s.coin() {
        // a layout that may be wider than the instructions
        st.sett.out.lay = gen::layout(s, 40, Lay::L51);
    }
    let o = &mut st.sett.out;
    if stacks {
        o.stack = match s.weighted(&[3, 3, 2]) {
            0 => s.range(2, 30) as u64,
            1 => s.range(10, 80) as u64,
            _ => s.range(2, 250) as u64,
        };
    }
    o.stack = o.stack.min(o.lay.max(Op4::A)).min(o.lay.const_bit());
}

fn vm_fit(st: &Setup) -> bool {
    st.sett.out.lay.bx_size() <= 30 && (st.fout.instruction_width == BitWidth::Bit64 || st.sett.out.lay.total() <= 32)
}

fn run_both(st: &Setup, chunk: &[u8], out: &[u8], steps: i64, detail: &dyn Fn() -> String) -> Result<(), Failure> {
    if !vm_fit(st) {
        return Ok(());
    }
    let (x, y) = match st.ver {
        Ver::V50 => (Build::lua50(&st.fin, &st.sett.l50), Build::lua51(&st.fout, &st.sett.out).no_variable_info()),
        Ver::V51 => (Build::lua51(&st.fin, &st.sett.l51).no_variable_info(), Build::lua51(&st.fout, &st.sett.out).no_variable_info()),
    };
    let opts = RunOpts { norm0: true, steps, ..RunOpts::default() };
    let reference = x.run(chunk, "t", &opts);
    match reference.status {
        Status::LoadError => panic!("the reference does not load: {}\n{}{}", reference.trace, st.describe(), detail()),
        Status::Memory => return Ok(()),
        _ => {}
    }
    let got = y.run(out, "t", &RunOpts { steps: reference.steps * 16 + 20_000, mem: opts.mem * 4, ..opts });
    if got.status == Status::LoadError {
        return fail(format!("the byte code verifier rejects the output: {}", got.trace), st.describe() + &detail());
    }
    let same = match reference.status {
        Status::Budget => {
            let end = reference.trace.rfind("error(").unwrap_or(reference.trace.len());
            got.trace.starts_with(&reference.trace[..end])
        }
        _ => got.status == reference.status && got.trace == reference.trace,
    };
    if !same {
        return fail(format!("{:?} instead of {:?}: {}", got.status, reference.status, diff(&reference.trace, &got.trace)), st.describe() + &detail());
    }
    Ok(())
}

fn code(s: &mut Src, c: &mut Case) -> Result<(), Failure> {
    let ver = both_versions(s);
    let mut st = real_setup(s, ver, false);
    same_numbers(&mut st);
    let o = low_opt(s);
    let low = lowgen::low(s, &st, &o);
    tighten(s, &mut st, true);
    let e = encode(&low.main, ver, &st.fin, st.cin());
    if e.bad.is_some() {
        c.discard = true;
        return Ok(());
    }
    let chunk = e.out;
    c.nontrivial = low.rewritten > 0;
    c.key = key(&chunk, &st);
    let detail = || format!("--- input code\n{}", show_proto(&low.main, ver, 0));
    c.sample = Some((st.describe() + &detail()).chars().take(2500).collect());
    label_setup(c, &st);
    if let Some((out, q)) = judge(c, &chunk, &st, &detail)? {
        if let Err(m) = registers("main", &q, st.sett.out.stack) {
            return fail(m, st.describe() + &detail() + "--- converted code\n" + &show_proto(&q, Ver::V51, 0));
        }
        run_both(&st, &chunk, &out, 2000, &detail)?;
    }
    Ok(())
}

fn programs(s: &mut Src, c: &mut Case) -> Result<(), Failure> {
    let ver = both_versions(s);
    let mut st = real_setup(s, ver, false);
    same_numbers(&mut st);
    let mut o = options(s, &st);
    for w in o.w.iter_mut().take(6) {
        *w = s.below(6) as u32;
    }
    if s.chance(1, 3) {
        o.pad = s.us(1, 190);
    }
    if s.chance(1, 3) {
        o.consts = s.us(1, 400);
    }
    let strip = s.chance(1, 3);
    let prog = luagen::program(s, &o);
    tighten(s, &mut st, true);
    let x = match ver {
        Ver::V50 => Build::lua50(&st.fin, &st.sett.l50),
        Ver::V51 => Build::lua51(&st.fin, &st.sett.l51),
    };
    let Ok(chunk) = x.compile(prog.text.as_bytes(), "@t.lua", strip) else {
        c.discard = true;
        return Ok(());
    };
    let proto = match decode(&chunk, ver, st.cin()) {
        Ok((_, p)) => p,
        Err(e) => panic!("the model rejects a compiled chunk: {e}"),
    };
    c.nontrivial = proto.ins_count() > 10;
    c.key = key(&chunk, &st);
    label_setup(c, &st);
    let detail = || format!("--- program\n{}\n--- input code\n{}", prog.text, show_proto(&proto, ver, 0));
    c.sample = Some((st.describe() + &prog.text).chars().take(2500).collect());
    if let Some((out, q)) = judge(c, &chunk, &st, &detail)? {
        if let Err(m) = registers("main", &q, st.sett.out.stack) {
            return fail(m, st.describe() + &detail() + "--- converted code\n" + &show_proto(&q, Ver::V51, 0));
        }
        run_both(&st, &chunk, &out, 20_000, &detail)?;
    }
    Ok(())
}

/// Moves loops to the highest registers Lua 5.0 allows them.
fn raise(s: &mut Src, p: &mut Proto, ver: Ver) {
    let ops = ver.ops();
    let top = p.maxstack as u64;
    for i in p.code.iter_mut() {
        let room = match (ver, ops[i.op as usize].name) {
            (Ver::V50, "FORLOOP" | "TFORPREP") => 3,
            (Ver::V51, "FORLOOP" | "FORPREP") => 4,
            _ => continue,
        };
        if s.coin() {
            i.a = top - room;
        }
    }
    for q in p.protos.iter_mut() {
        raise(s, q, ver);
    }
}

/// Lowers the stack of some functions as far as their code allows.
fn random(s: &mut Src, c: &mut Case) -> Result<(), Failure> {
    let ver = both_versions(s);
    let mut st = setup(s, ver, &Want { same_fpf: true, real: true });
    same_numbers(&mut st);
    let mut lim = if s.chance(1, 4) {
        Lim::both(ver, &st.fin, st.cin(), &st.fout, &st.sett.out)
    } else {
        // only the input limits it
        let mut wide = st.sett.out.clone();
        wide.lay = ROOM;
        wide.stack = 250;
        let mut f = st.fout;
        f.instruction_width = BitWidth::Bit64;
        Lim::both(ver, &st.fin, st.cin(), &f, &wide)
    };
    lim.a = lim.a.min(ROOM.max(Op4::A));
    lim.b = lim.b.min(ROOM.max(Op4::B));
    lim.c = lim.c.min(ROOM.max(Op4::C));
    lim.bx = lim.bx.min(ROOM.max_bx() - 100);
    lim.sbx = lim.sbx.min(ROOM.bias() - 2000);
    if lim.kidx != u64::MAX {
        lim.kidx = lim.kidx.min(ROOM.const_bit() - 1);
    }
    lim.int = i32::MAX as i64;
    lim.setlist = ver == Ver::V51;
    if s.coin() {
        lim.reg = lim.reg.min(s.range(8, 60) as u64);
    }
    if s.coin() && lim.kidx != u64::MAX {
        lim.kidx = lim.kidx.min(200);
        lim.bx = lim.bx.min(60_000);
    }
    let stacks = s.coin();
    tighten(s, &mut st, stacks);
    if s.chance(1, 3) {
        // exactly at the limit, or next to it
        st.sett.out.stack = (lim.reg + s.below(6)).saturating_sub(2).clamp(1, 255);
    }
    let mut p = gen::proto(s, &lim, 2);
    raise(s, &mut p, ver);
    let e = encode(&p, ver, &st.fin, st.cin());
    if e.bad.is_some() {
        c.discard = true;
        return Ok(());
    }
    let input = e.out;
    c.nontrivial = true;
    c.key = key(&input, &st);
    label_setup(c, &st);
    if ver == Ver::V51 && st.fin == st.fout && st.sett.l51 == st.sett.out {
        // returned as it is
        c.discard = true;
        return Ok(());
    }
    let detail = || format!("--- input code\n{}", show_proto(&p, ver, 0));
    c.sample = Some((st.describe() + &detail()).chars().take(2500).collect());
    if let Some((_, q)) = judge(c, &input, &st, &detail)? {
        if let Err(m) = registers("main", &q, st.sett.out.stack) {
            return fail(m, st.describe() + &detail() + "--- converted code\n" + &show_proto(&q, Ver::V51, 0));
        }
    }
    Ok(())
}

fn large(s: &mut Src, c: &mut Case) -> Result<(), Failure> {
    let kind = s.weighted(&[4, 2, 3, 4]);
    let ver = if kind == 1 || s.chance(3, 4) { Ver::V50 } else { Ver::V51 };
    let mut st = real_setup(s, ver, false);
    same_numbers(&mut st);
    let lay = Lay { order: [(Op4::O, 6), (Op4::C, 14), (Op4::B, 14), (Op4::A, 8)] };
    st.fin.instruction_width = BitWidth::Bit64;
    st.sett.l50.lay = lay;
    st.sett.l51.lay = lay;
    st.sett.l50.stack = 250;
    st.sett.l51.stack = 250;
    let small = *s.pick(&[(8u64, 8u64), (8, 8), (8, 9), (9, 9)]);
    st.fout.instruction_width = if s.coin() { BitWidth::Bit32 } else { BitWidth::Bit64 };
    let orders = gen::orders();
    let order = *s.pick(&orders);
    st.sett.out.lay = Lay {
        order: order.map(|x| {
            (
                x,
                match x {
                    Op4::O => 6,
                    Op4::A => 8,
                    Op4::B => small.0,
                    Op4::C => small.1,
                },
            )
        }),
    };
    st.sett.out.stack = 250.min(st.sett.out.lay.const_bit());
    let op = |n: &str| if ver == Ver::V50 { o50(n) } else { o51(n) };
    let mut p = Proto { source: lstr(b"@t.lua"), maxstack: 20, ..Proto::default() };
    let fill = Ins::abc(op("MOVE"), 0, 0, 0);
    let ret = Ins::abc(op("RETURN"), 0, 1, 0);
    let bias = st.sett.out.lay.bias();
    match kind {
        0 => {
            c.label("jump distance");
            // a jump over or back over code that grows
            let grow = s.us(0, 12);
            let n = (bias - s.range(-20, 14 * 12)).max(30) as usize;
            p.code = vec![fill; n];
            for _ in 0..grow {
                let at = s.below(n as u64) as usize;
                p.code[at] = match (ver, s.below(2)) {
                    (Ver::V50, 0) => Ins::sbx(op("TFORPREP"), 2, 0),
                    (Ver::V50, _) => Ins::abc(op("TFORLOOP"), 2, 0, s.below(5)),
                    _ => fill,
                };
            }
            let at = s.below(6) as usize;
            let back = s.coin();
            if back {
                let i = p.code.len() - at - 1;
                let to = s.below(6) as i64;
                p.code[i] = Ins::sbx(if s.chance(1, 3) && ver == Ver::V50 { op("FORLOOP") } else { op("JMP") }, 4, to - i as i64 - 1);
            } else {
                let to = n as i64 - s.below(6) as i64;
                p.code[at] = Ins::sbx(op("JMP"), 0, to - at as i64 - 1);
            }
            for i in p.code.iter_mut() {
                if i.op == op("JMP") {
                    i.a = 0;
                }
            }
            p.code.push(ret);
        }
        1 => {
            c.label("constants");
            // new constants around the largest index
            let max = st.sett.out.lay.max_bx();
            let n = max as i64 + 1 - s.range(-3, 12);
            p.consts = vec![Const::Bool(true); n as usize];
            let loops = s.us(1, 5);
            for _ in 0..loops {
                p.code.push(match s.below(4) {
                    0 => Ins::sbx(op("FORLOOP"), 3, -1),
                    1 => Ins::abc(op("TFORLOOP"), 3, 0, 2),
                    2 => Ins::sbx(op("TFORPREP"), 3, 0),
                    _ => Ins::abx(op("LOADK"), 1, n as u64 - 1 - s.below(4)),
                });
            }
            p.code.push(ret);
        }
        2 => {
            c.label("pages");
            // a constructor around the largest page number
            let fpf = *s.pick(&[1u64, 2, 4]);
            let fpf_out = *s.pick(&[1u64, 2, 3, 4, 7]);
            st.sett.l50.fpf = fpf;
            st.sett.l51.fpf = fpf;
            st.sett.out.fpf = fpf_out;
            let max = st.sett.out.lay.max(Op4::C);
            let n = (max * fpf_out + s.below(12)).saturating_sub(6).max(1);
            p.code.push(Ins::abc(op("NEWTABLE"), 0, 0, 0));
            for i in 0..n {
                p.code.push(Ins::abx(op("LOADK"), 1 + i % fpf, 0));
                if i % fpf == fpf - 1 || i == n - 1 {
                    p.code.push(match ver {
                        Ver::V50 => Ins::abx(op("SETLIST"), 0, i),
                        Ver::V51 => Ins::abc(op("SETLIST"), 0, 1 + i % fpf, 1 + i / fpf),
                    });
                }
            }
            p.consts.push(Const::Nil);
            p.code.push(ret);
        }
        _ => {
            c.label("registers");
            let limit = st.sett.out.stack.min(60 + s.below(200));
            st.sett.out.stack = limit;
            let near = |s: &mut Src, slack: i64| (limit as i64 - s.range(0, slack)).max(0) as u64;
            let n = s.us(1, 4);
            for _ in 0..n {
                match (ver, s.below(6)) {
                    (Ver::V50, 0) => {
                        let a = near(s, 8);
                        p.code.push(Ins::sbx(op("FORLOOP"), a, -1));
                    }
                    (Ver::V50, 1) => {
                        let k = s.below(12);
                        let a = near(s, 10 + 2 * k as i64);
                        p.code.push(Ins::abc(op("TFORLOOP"), a, 0, k));
                    }
                    (Ver::V50, 2) => {
                        let a = near(s, 8);
                        p.code.push(Ins::sbx(op("TFORPREP"), a, 0));
                    }
                    (_, 3) => {
                        let a = near(s, 20);
                        let k = 1 + s.below(12);
                        let fpf = st.cin().fpf;
                        p.code.push(Ins::abc(op("NEWTABLE"), a, 0, 0));
                        for i in 0..k {
                            p.code.push(Ins::abc(op("LOADNIL"), a + 1 + i % fpf, a + 1 + i % fpf, 0));
                            if i % fpf == fpf - 1 || i == k - 1 {
                                p.code.push(match ver {
                                    Ver::V50 => Ins::abx(op("SETLIST"), a, i),
                                    Ver::V51 => Ins::abc(op("SETLIST"), a, 1 + i % fpf, 1 + i / fpf),
                                });
                            }
                        }
                    }
                    (_, 4) => {
                        let a = near(s, 8);
                        let k = s.below(6);
                        p.code.push(Ins::abc(op("CALL"), a, 1, k));
                    }
                    _ => {
                        let a = near(s, 4);
                        p.code.push(Ins::abc(op("LOADNIL"), a.saturating_sub(s.below(3)), a, 0));
                    }
                }
            }
            if ver == Ver::V50 && s.coin() {
                p.vararg = 1;
                p.nparams = near(s, 6) as u8;
            }
            p.code.push(ret);
            // Lua 5.0 needs no more than this
            let mut top = 2.max(p.nparams as u64 + p.vararg as u64);
            for i in &p.code {
                let n = ver.ops()[i.op as usize].name;
                top = top.max(match n {
                    "FORLOOP" | "TFORPREP" => i.a + 3,
                    "TFORLOOP" => i.a + 6 + i.c(),
                    "LOADNIL" => i.b() + 1,
                    "CALL" => i.a + i.c().max(2) - 1,
                    _ => i.a + 1,
                });
            }
            p.maxstack = top.min(250) as u8;
            if top > 250 {
                c.discard = true;
                return Ok(());
            }
        }
    }
    if s.coin() {
        p.lines = vec![1; p.code.len()];
    }
    let e = encode(&p, ver, &st.fin, st.cin());
    if e.bad.is_some() {
        c.discard = true;
        return Ok(());
    }
    let input = e.out;
    c.nontrivial = true;
    c.key = key(&input, &st);
    let detail = || format!("--- input code\n{}", show_proto(&p, ver, 0).chars().take(4000).collect::<String>());
    c.sample = Some((st.describe() + &detail()).chars().take(1200).collect());
    if let Some((_, q)) = judge(c, &input, &st, &detail)? {
        if let Err(m) = registers("main", &q, st.sett.out.stack) {
            return fail(m, st.describe() + &detail() + "--- converted code\n" + &show_proto(&q, Ver::V51, 0).chars().take(4000).collect::<String>());
        }
        let count = q.consts.len() as u64;
        for i in &q.code {
            if matches!(OPS51[i.op as usize].name, "LOADK" | "GETGLOBAL" | "SETGLOBAL") && i.bx() >= count.max(1) {
                return fail(format!("{} has no constant of that index, there are {count}", i.show(&OPS51)), st.describe() + &detail());
            }
        }
    }
    Ok(())
}
