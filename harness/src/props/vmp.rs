//! C05 to C10, C14: generated Lua programs, executed before and after conversion.

use lunify::BitWidth;

use super::*;
use crate::lowgen::{self, Low, LowOpt};
use crate::luagen::{self, Opt};
use crate::vm::*;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C05",
            parts: vec![part("programs", c05, 100_000, 3_000_000, "a generated Lua 5.1 program compiled by one build, converted and run by another; non-trivial when the builds differ and the run records at least three events, keyed by program and builds")],
            findings: vec![("page-word", findings::page_word), ("page-word-opcode", findings::page_word_opcode)],
            assumptions: vec![],
        },
        Prop {
            id: "C06",
            parts: vec![part("programs", c06, 100_000, 3_000_000, "a generated Lua 5.0 program run as Lua 5.0 code and converted; non-trivial when the run records at least three events, keyed by program and builds")],
            findings: vec![("arg-n", findings::arg_n), ("type-next", findings::type_next), ("loop-exit", findings::loop_exit), ("loop-globals", findings::loop_globals)],
            assumptions: vec![],
        },
        Prop {
            id: "C07",
            parts: vec![
                part("constructors51", c07_51, 50_000, 1_500_000, "a generated Lua 5.1 program full of table constructors around the page boundaries of both flush sizes, which differ; non-trivial when a constructor has more than one element, keyed by program and builds"),
                part("constructors50", c07_50, 50_000, 1_500_000, "the same for Lua 5.0"),
                part("huge", c07_huge, 3_000, 60_000, "a program with one constructor of up to 25000 elements, so that it has up to as many pages as the operand can count; non-trivial when it has more than ten pages"),
                part("code", c07_code, 60_000, 2_000_000, "generated byte code of either version with constructors whose elements contain jumps, surrounded by jumps; non-trivial when it has a constructor and three events or more"),
            ],
            findings: vec![("page-word", findings::page_word)],
            assumptions: vec![],
        },
        Prop {
            id: "C08",
            parts: vec![
                part("loops", c08, 80_000, 2_500_000, "a generated Lua 5.0 program full of loops; non-trivial when it contains at least two loops, keyed by program and builds"),
                part("nest", texts::c08_nest, 40_000, 1_500_000, "loops nested up to twelve deep, of up to 36 variables or 300 iterations, over unusual numbers; non-trivial when there are two loops and three events or more"),
                part("code", c08_code, 60_000, 2_500_000, "generated Lua 5.0 byte code full of loops on arbitrary registers, also entered and left by jumps; non-trivial when it has a loop and three events or more"),
            ],
            findings: vec![("type-next", findings::type_next), ("loop-exit", findings::loop_exit), ("loop-globals", findings::loop_globals), ("loop-variable", findings::loop_variable)],
            assumptions: vec![],
        },
        Prop {
            id: "C09",
            parts: vec![part("many", texts::c09_many, 40_000, 1_500_000, "vararg functions of up to 120 parameters called with up to 220 arguments, nils among them; non-trivial when a call records two events or more"),
                part("varargs", c09, 80_000, 3_000_000, "a generated Lua 5.0 program full of vararg functions; non-trivial when it contains a vararg function, keyed by program and builds")],
            findings: vec![("arg-n", findings::arg_n)],
            assumptions: vec![],
        },
        Prop {
            id: "C10",
            parts: vec![
                part("jumps50", c10_50, 120_000, 3_000_000, "a generated Lua 5.0 function with jumps between arbitrary points and instructions that are rewritten; non-trivial when it has three jumps or more, a rewritten instruction and three events or more, keyed by code and builds"),
                part("jumps51", c10_51, 60_000, 2_000_000, "the same for Lua 5.1 code whose table constructors are rewritten because the flush sizes differ"),
                part("long", c10_long, 10_000, 200_000, "the same with thousands of instructions between jumps and their targets; non-trivial when the longest jump exceeds 200 instructions"),
                part("programs", c10_text, 15_000, 800_000, "a generated Lua 5.0 or 5.1 program full of conditions, breaks and loops; non-trivial when it has three such statements or more"),
            ],
            findings: vec![("loadbool-skip", findings::loadbool_skip)],
            assumptions: vec![],
        },
        Prop {
            id: "C14",
            parts: vec![
                part("programs50", c14_50, 60_000, 2_000_000, "a generated Lua 5.0 program whose functions record their named locals, lines and error positions; non-trivial when it has debug information and records three events or more"),
                part("programs51", c14_51, 40_000, 1_500_000, "the same for Lua 5.1"),
                part("code", c14_code, 60_000, 2_500_000, "generated byte code of either version whose locals start and end anywhere, observed from calls; non-trivial when it has debug information, a rewritten instruction and three events or more"),
                part("lines", c14_lines, 60_000, 2_500_000, "generated byte code of either version with a line of its own per instruction; non-trivial when it has a rewritten instruction, keyed by code and builds"),
                part("huge", c14_huge, 1_000, 100_000, "a function of either version with up to 262 143 instructions that are not rewritten, a line for each and up to 70 000 locals; lines and ranges have to stay; non-trivial when there are more than 255 of one, keyed by the chunk and builds"),
            ],
            findings: vec![],
            assumptions: vec![],
        },
    ]
}

/// Layouts and formats real builds can have.
fn real_layout(s: &mut Src, f: &Format, default: Lay) -> Lay {
    if s.chance(1, 3) {
        return default;
    }
    let orders = gen::orders();
    let order = *s.pick(&orders);
    let (o, a, b, c);
    if f.instruction_width == BitWidth::Bit32 {
        (o, a, b, c) = *s.pick(&[(6, 8, 9, 9), (6, 7, 9, 9), (6, 8, 8, 8), (7, 7, 9, 9), (6, 7, 9, 10), (6, 8, 8, 10), (8, 8, 8, 8), (6, 8, 9, 9)]);
    } else {
        o = s.range(6, 8) as u64;
        a = s.range(7, 10) as u64;
        b = s.range(8, 15) as u64;
        c = if s.chance(1, 4) { s.range(b as i64, 15) as u64 } else { b };
    }
    Lay {
        order: order.map(|x| {
            (
                x,
                match x {
                    Op4::O => o,
                    Op4::A => a,
                    Op4::B => b,
                    Op4::C => c,
                },
            )
        }),
    }
}

pub fn real_setup(s: &mut Src, ver: Ver, same_fpf: bool) -> Setup {
    let mut st = setup(s, ver, &Want { same_fpf: true, real: false });
    let mut fout = st.fout;
    if s.coin() {
        fout.number_width = st.fin.number_width;
        fout.is_number_integral = st.fin.is_number_integral;
    }
    st.fout = fout;
    st.sett.l50.lay = real_layout(s, &st.fin, Lay::L50);
    st.sett.l51.lay = real_layout(s, &st.fin, Lay::L51);
    st.sett.out.lay = real_layout(s, &st.fout, Lay::L51);
    st.sett.l50.stack = 250;
    if s.chance(1, 4) {
        st.sett.l50.stack = s.range(100, 250) as u64;
    }
    st.sett.l51.stack = 250;
    st.sett.out.stack = 250;
    let fpfs = [50u64, 32, 1, 2, 3, 4, 5, 7, 8, 16, 20, 25, 49, 51, 60, 100];
    st.sett.l51.fpf = *s.pick(&fpfs);
    st.sett.out.fpf = *s.pick(&fpfs);
    if same_fpf {
        st.sett.out.fpf = st.sett.l51.fpf;
    }
    st.sett.l50.fpf = *s.pick(&[32u64, 8, 4, 2, 1, 16, 64]);
    for c in [&mut st.sett.l50, &mut st.sett.l51, &mut st.sett.out] {
        c.stack = c.stack.min(c.lay.max(Op4::A)).min(c.lay.const_bit());
        c.fpf = c.fpf.min(c.stack / 2).min(c.lay.max(Op4::B)).max(1);
    }
    st.sett.l50.fpf = 1 << st.sett.l50.fpf.ilog2();
    st.sett.l50.stack = st.sett.l50.stack.min(st.sett.l50.lay.max(Op4::C) - 16);
    unrelated(s, &mut st.sett, ver);
    st
}

/// Whether everything certainly fits the output, so that the conversion has to succeed.
pub fn fits(p: &Proto, st: &Setup) -> Result<(), String> {
    let out = &st.sett.out;
    let lo = &out.lay;
    let ops = st.ver.ops();
    let kmax = lo.max(Op4::B).min(lo.max(Op4::C));
    let kmax = if kmax >= lo.const_bit() { (kmax ^ lo.const_bit()).min(lo.const_bit() - 1) } else { 0 };
    let mut bad = None;
    p.walk(&mut |p| {
        let mut say = |m: String| {
            if bad.is_none() {
                bad = Some(m)
            }
        };
        let mut extra = 0;
        let mut length = 10;
        // nested constructors grow independently of each other
        let tables: std::collections::HashSet<u64> = p.code.iter().filter(|i| ops[i.op as usize].name.starts_with("SETLIST")).map(|i| i.a).collect();
        let mut stack = p.maxstack as u64 + 1;
        for i in &p.code {
            let name = ops[i.op as usize].name;
            length += match name {
                "FORLOOP" => 5,
                "TFORPREP" => 15,
                "TFORLOOP" => 15 + i.c() as i64,
                _ => 2,
            };
            match name {
                "FORLOOP" => {
                    extra += 1;
                    stack = stack.max(i.a + 4);
                }
                "TFORPREP" => extra += 6,
                "TFORLOOP" => stack = stack.max(i.a + 2 * (i.c() + 1) + 6),
                "SETLIST" | "SETLISTO" => {
                    let total = match st.ver {
                        Ver::V50 => i.bx() + 1,
                        Ver::V51 => i.c() * st.cin().fpf,
                    };
                    let open = name == "SETLISTO" || st.ver == Ver::V51 && i.b() == 0;
                    let pages = total.div_ceil(out.fpf) + open as u64;
                    if pages > lo.max(Op4::C) {
                        say(format!("page {pages}"));
                    }
                    if st.ver == Ver::V50 || st.cin().fpf != out.fpf {
                        stack = stack.max(p.maxstack as u64 + tables.len() as u64 * out.fpf + 1);
                    }
                    continue;
                }
                _ => {}
            }
            if i.a > lo.max(Op4::A) {
                say(format!("A of {}", i.show(ops)));
            }
            match i.args {
                Args::Abc(b, c) => {
                    for (rk, op) in [(b, Op4::B), (c, Op4::C)] {
                        if rk.k && rk.v > kmax || !rk.k && rk.v > lo.max(op).min(lo.const_bit()) && name != "NEWTABLE" {
                            say(format!("operand of {}", i.show(ops)));
                        }
                    }
                }
                Args::Abx(v) => {
                    if v + 8 > lo.max_bx() {
                        say(format!("Bx of {}", i.show(ops)));
                    }
                }
                _ => {}
            }
        }
        if length > lo.bias() {
            say("long code".into());
        }
        if (p.consts.len() + extra) as u64 > lo.max_bx() {
            say("many constants".into());
        }
        if p.vararg != 0 {
            stack = stack.max(p.nparams as u64 + 4);
        }
        if stack > out.stack {
            say(format!("stack of {stack}"));
        }
    });
    bad.map_or(Ok(()), Err)
}

pub struct Shot {
    pub prog: luagen::Program,
    pub reference: Outcome,
    pub events: usize,
}

/// Compiles a program, converts it and compares the executions.
pub fn differential(s: &mut Src, c: &mut Case, st: &Setup, opt: &Opt, strip: bool) -> Result<Option<Shot>, Failure> {
    let prog = luagen::program(s, opt);
    differential_text(c, st, prog, strip, RunOpts::default().steps)
}

pub fn differential_text(c: &mut Case, st: &Setup, prog: luagen::Program, strip: bool, steps: i64) -> Result<Option<Shot>, Failure> {
    let text = prog.text.clone();
    let t0 = std::time::Instant::now();
    let (x, y) = match st.ver {
        Ver::V50 => (Build::lua50(&st.fin, &st.sett.l50), Build::lua51(&st.fout, &st.sett.out).no_variable_info()),
        Ver::V51 => (Build::lua51(&st.fin, &st.sett.l51), Build::lua51(&st.fout, &st.sett.out)),
    };
    let chunk = match x.compile(text.as_bytes(), "@t.lua", strip) {
        Ok(v) => v,
        Err(m) => {
            if !m.contains("too complex") && !m.contains("too many") && !m.contains("overflow") && !m.contains("has more than") {
                panic!("generated program does not compile: {m}\n{text}");
            }
            c.discard = true;
            return Ok(None);
        }
    };
    let proto = match decode(&chunk, st.ver, st.cin()) {
        Ok((_, p)) => p,
        Err(e) => panic!("the model rejects a compiled chunk: {e}\n{}{text}", st.describe()),
    };
    let detail = || format!("{}strip: {strip}\n--- program\n{text}\n--- input code\n{}", st.describe(), show_proto(&proto, st.ver, 0));
    let certain = fits(&proto, st);
    let opts = RunOpts { norm0: true, steps, ..RunOpts::default() };
    let reference = match st.ver {
        Ver::V50 => x.run(&chunk, "t", &opts),
        Ver::V51 => match y.compile(text.as_bytes(), "@t.lua", strip) {
            Ok(native) => y.run(&native, "t", &opts),
            Err(_) => {
                c.discard = true;
                return Ok(None);
            }
        },
    };
    match reference.status {
        Status::LoadError => panic!("the reference does not load: {}\n{}", reference.trace, detail()),
        Status::Budget | Status::Memory => {
            c.label("over budget");
            c.discard = true;
            return Ok(None);
        }
        _ => {}
    }
    if reference.trace.contains("stack overflow") {
        // how deep calls can nest depends on how many frames of the interpreter a statement takes
        c.label("over budget");
        c.discard = true;
        return Ok(None);
    }
    if std::env::var("LV_SLOW").is_ok() && t0.elapsed().as_millis() > 700 {
        eprintln!("SLOW {:?} steps {} trace {} chunk {}\n{text}", t0.elapsed(), reference.steps, reference.trace.len(), chunk.len());
    }
    let events = reference.trace.lines().count();
    c.key = fnv(&[chunk.as_slice(), st.describe().as_bytes()].concat());
    c.sample = Some(st.describe() + &text + "--- trace\n" + &reference.trace.chars().take(600).collect::<String>());
    let out = match st.convert(&chunk)? {
        Ok(v) => v,
        Err(e) => {
            if let Err(why) = certain {
                let _ = why;
                c.label("does not fit");
                c.discard = true;
                return Ok(None);
            }
            return fail(format!("conversion failed with {e:?}"), detail());
        }
    };
    let got = y.run(&out, "t", &opts.converted(&reference));
    if got.status != reference.status || got.trace != reference.trace {
        let converted = match decode(&out, Ver::V51, &st.sett.out) {
            Ok((_, q)) => show_proto(&q, Ver::V51, 0),
            Err(e) => format!("(the output does not decode: {e})\n"),
        };
        return fail(
            format!("{:?} instead of {:?}: {}", got.status, reference.status, diff(&reference.trace, &got.trace)),
            format!("{}--- converted code\n{converted}--- expected trace\n{}--- trace\n{}", detail(), cut(&reference.trace), cut(&got.trace)),
        );
    }
    Ok(Some(Shot { prog, reference, events }))
}

pub struct LowShot {
    pub low: Low,
    pub events: usize,
    pub reference: Outcome,
}

/// Executes generated byte code before and after conversion. When the budget of the reference runs out, the
/// converted code has to show the same behaviour up to there.
pub fn differential_low(s: &mut Src, c: &mut Case, st: &Setup, o: &LowOpt) -> Result<Option<LowShot>, Failure> {
    let mut low = lowgen::low(s, st, o);
    if st.ver == Ver::V50 && s.chance(1, 12) && take_name(s, st, &mut low.main)? {
        c.label("uses a name the conversion would choose");
    }
    let e = encode(&low.main, st.ver, &st.fin, st.cin());
    if e.bad.is_some() {
        c.label("input does not fit");
        c.discard = true;
        return Ok(None);
    }
    let chunk = e.out;
    let detail = || format!("{}--- input code\n{}", st.describe(), show_proto(&low.main, st.ver, 0));
    let (x, y) = match st.ver {
        Ver::V50 => (Build::lua50(&st.fin, &st.sett.l50), Build::lua51(&st.fout, &st.sett.out).no_variable_info()),
        Ver::V51 => (Build::lua51(&st.fin, &st.sett.l51), Build::lua51(&st.fout, &st.sett.out)),
    };
    let opts = RunOpts { norm0: true, steps: 4000, ..RunOpts::default() };
    let reference = x.run(&chunk, "t", &opts);
    match reference.status {
        Status::LoadError => panic!("the reference does not load: {}\n{}", reference.trace, detail()),
        Status::Memory => {
            c.discard = true;
            return Ok(None);
        }
        _ => {}
    }
    if reference.trace.contains("stack overflow") {
        c.discard = true;
        return Ok(None);
    }
    c.label_if(reference.status == Status::Budget, "does not end");
    c.label_if(reference.status == Status::RunError, "ends in an error");
    c.key = fnv(&[chunk.as_slice(), st.describe().as_bytes()].concat());
    c.sample = Some(detail().chars().take(3000).collect::<String>() + "--- trace\n" + &reference.trace.chars().take(600).collect::<String>());
    let certain = fits(&low.main, st);
    let out = match st.convert(&chunk)? {
        Ok(v) => v,
        Err(e) => {
            if certain.is_err() {
                c.label("does not fit");
                c.discard = true;
                return Ok(None);
            }
            return fail(format!("conversion failed with {e:?}"), detail());
        }
    };
    let got = y.run(&out, "t", &RunOpts { steps: reference.steps * 16 + 20_000, mem: opts.mem * 4, ..opts });
    let same = match reference.status {
        Status::Budget => {
            let end = reference.trace.rfind("error(").unwrap_or(reference.trace.len());
            got.trace.starts_with(&reference.trace[..end])
        }
        _ => got.status == reference.status && got.trace == reference.trace,
    };
    if !same {
        let converted = match decode(&out, Ver::V51, &st.sett.out) {
            Ok((_, q)) => show_proto(&q, Ver::V51, 0),
            Err(e) => format!("(the output does not decode: {e})\n"),
        };
        return fail(
            format!("{:?} instead of {:?}: {}", got.status, reference.status, diff(&reference.trace, &got.trace)),
            format!("{}--- converted code\n{converted}--- expected trace\n{}--- trace\n{}", detail(), cut(&reference.trace), cut(&got.trace)),
        );
    }
    let events = reference.trace.lines().count();
    Ok(Some(LowShot { low, events, reference }))
}

/// Renames a global of the function to one of the names that conversion adds to it.
fn take_name(s: &mut Src, st: &Setup, main: &mut Proto) -> Result<bool, Failure> {
    let e = encode(main, st.ver, &st.fin, st.cin());
    if e.bad.is_some() {
        return Ok(false);
    }
    let Ok(out) = st.convert(&e.out)? else {
        return Ok(false);
    };
    let Ok((_, q)) = decode(&out, Ver::V51, &st.sett.out) else {
        return Ok(false);
    };
    let (p, q) = (&mut main.protos[0], &q.protos[0]);
    let old = p.consts.len();
    let known = [lstr(b"type"), lstr(b"table"), lstr(b"next")];
    let added: Vec<&Const> = q.consts.iter().skip(old).filter(|k| matches!(k, Const::Str(n) if !known.contains(n))).collect();
    let glob = Const::Str(lstr(b"glob"));
    let Some(at) = p.consts.iter().position(|k| *k == glob) else {
        return Ok(false);
    };
    if added.is_empty() {
        return Ok(false);
    }
    p.consts[at] = added[s.below(added.len() as u64) as usize].clone();
    Ok(true)
}

fn cut(s: &str) -> String {
    s.chars().take(6000).collect()
}

/// Options every differential property shares.
pub fn options(s: &mut Src, st: &Setup) -> Opt {
    let mut o = Opt::default();
    o.v50 = st.ver == Ver::V50;
    let (a, b) = (NumKind::of(&st.fin), NumKind::of(&st.fout));
    o.exact = a != b || matches!(a, NumKind::I32 | NumKind::I64);
    o.flush = [st.cin().fpf as usize, st.sett.out.fpf as usize];
    o.big = 130;
    o.newlines = s.chance(3, 4);
    if s.chance(1, 8) {
        o.pad = s.us(1, 90);
    }
    if s.chance(1, 8) {
        o.consts = s.us(1, 300);
    }
    o.fuel = s.us(10, 120) as i32;
    o
}

fn c05(s: &mut Src, c: &mut Case) -> Result<(), Failure> {
    let st = real_setup(s, Ver::V51, false);
    let mut o = options(s, &st);
    for w in o.w.iter_mut().take(6) {
        *w = s.below(6) as u32;
    }
    let strip = s.chance(1, 3);
    if let Some(shot) = differential(s, c, &st, &o, strip)? {
        c.nontrivial = shot.events >= 3 && (st.fin != st.fout || st.sett.l51 != st.sett.out);
        label(c, &shot, &st, strip);
    }
    Ok(())
}

pub fn label(c: &mut Case, shot: &Shot, st: &Setup, strip: bool) {
    c.label_if(strip, "stripped");
    c.label_if(shot.reference.status == Status::RunError, "ends in an error");
    c.label_if(shot.reference.trace.contains("(false,"), "caught error");
    c.label_if(shot.prog.loops > 0, "loops");
    c.label_if(shot.prog.varargs > 0, "varargs");
    c.label_if(shot.prog.closures > 0, "closures");
    c.label_if(shot.prog.max_ctor as u64 > st.cin().fpf, "constructor longer than an input page");
    c.label_if(shot.prog.max_ctor as u64 > st.sett.out.fpf, "constructor longer than an output page");
    c.label_if(NumKind::of(&st.fin) != NumKind::of(&st.fout), "number type differs");
    c.label_if(st.cin().lay != st.sett.out.lay, "layout differs");
    c.label_if(shot.events >= 20, "20 events or more");
}

fn c06(s: &mut Src, c: &mut Case) -> Result<(), Failure> {
    let st = real_setup(s, Ver::V50, false);
    let mut o = options(s, &st);
    for w in o.w.iter_mut().take(6) {
        *w = s.below(6) as u32;
    }
    let strip = s.chance(1, 3);
    if let Some(shot) = differential(s, c, &st, &o, strip)? {
        c.nontrivial = shot.events >= 3;
        label(c, &shot, &st, strip);
    }
    Ok(())
}

fn constructors(s: &mut Src, c: &mut Case, ver: Ver) -> Result<(), Failure> {
    let st = real_setup(s, ver, false);
    let mut o = options(s, &st);
    o.w = [12, 1, 3, 3, 0, 2, 0];
    let strip = s.chance(1, 4);
    if let Some(shot) = differential(s, c, &st, &o, strip)? {
        c.nontrivial = shot.prog.max_ctor > 1;
        label(c, &shot, &st, strip);
    }
    Ok(())
}

fn c07_51(s: &mut Src, c: &mut Case) -> Result<(), Failure> {
    constructors(s, c, Ver::V51)
}

fn c07_50(s: &mut Src, c: &mut Case) -> Result<(), Failure> {
    constructors(s, c, Ver::V50)
}

/// One constructor with as many pages as can be.
fn c07_huge(s: &mut Src, c: &mut Case) -> Result<(), Failure> {
    use std::fmt::Write;
    let ver = if s.coin() { Ver::V50 } else { Ver::V51 };
    let st = real_setup(s, ver, false);
    let (fin, fout) = (st.cin().fpf, st.sett.out.fpf);
    let page = match s.weighted(&[2, 2, 1]) {
        0 => s.edgy(511),
        1 => s.edgy(st.sett.out.lay.max(Op4::C)) + 1,
        _ => s.range(1, 300) as u64,
    };
    let unit = if s.coin() { fin } else { fout };
    let mut n = (page * unit) as i64 + s.range(-2, 3);
    n = n.clamp(1, 25_600);
    if ver == Ver::V51 {
        // more pages than the operand holds are a known finding; the call at the end adds an element
        n = n.min((st.sett.l51.lay.max(Op4::C) * fin) as i64 - 1);
    }
    let n = n as usize;
    let mut t = String::new();
    if s.coin() {
        t.push_str("local x0, x1, x2 = 1, 2, 3\n");
    }
    t.push_str("local g, n, h = 5, nil, 6\nlocal function f(...) return 7, nil, 9 end\nlocal t = {");
    let plain = s.chance(1, 4);
    let every = *s.pick(&[40u64, 12, 300]);
    for i in 0..n {
        if i > 0 {
            t.push(if i % 40 == 0 { '\n' } else { ',' });
            if i % 40 == 0 {
                t.pop();
                t.push_str(",\n");
            }
        }
        if plain || !s.chance(1, every) {
            let _ = write!(t, "{}", (i * 7 + i / 50) % 43);
            continue;
        }
        match s.below(9) {
            0 => t.push('n'),
            1 => t.push_str("g"),
            2 => t.push_str("(f())"),
            3 => t.push_str("g and 3 or 4"),
            4 => t.push_str("n or h"),
            5 => {
                let m = s.us(0, 5);
                t.push('{');
                for j in 0..m {
                    let _ = write!(t, "{j},");
                }
                t.push('}');
            }
            6 => t.push_str("k = g, 8"),
            7 => t.push_str("g == 5"),
            _ => t.push_str("g + h"),
        }
    }
    match s.below(4) {
        0 => t.push_str(", f()"),
        1 => t.push_str(","),
        _ => {}
    }
    t.push_str("}\n");
    let last = n + 4;
    let _ = write!(
        t,
        "emit(g, n, h, t.k)\nlocal a, b, c, w = 0, 0, 0, 1\nfor i = 1, {last} do local v = t[i] if v == nil then c = c + 1 elseif type(v) == 'number' then a = a + v * w else b = b + w end w = w + 1 if w > 5 then w = 1 end end\nemit(a, b, c)\nemit(t[0], t[1], t[2]"
    );
    for _ in 0..30 {
        let unit = if s.coin() { fin } else { fout };
        let at = (s.below(n as u64 / unit + 2) * unit) as i64 + s.range(-1, 2);
        let _ = write!(t, ", t[{}]", at.max(0));
    }
    for at in n.saturating_sub(3)..n + 5 {
        let _ = write!(t, ", t[{at}]");
    }
    t.push_str(")\n");
    let strip = s.chance(1, 4);
    let prog = luagen::Program { text: t, max_ctor: n, loops: 0, varargs: 0, closures: 0, jumps: 0 };
    if let Some(shot) = differential_text(c, &st, prog, strip, 2_000_000)? {
        let pages = n as u64 / fin.max(fout);
        c.nontrivial = pages > 10;
        label(c, &shot, &st, strip);
        c.label_if(n as u64 / fout > 255, "more than 255 output pages");
        c.label_if(n as u64 / fin > 255, "more than 255 input pages");
        c.label_if(n > 10_000, "more than 10000 elements");
    }
    Ok(())
}

fn c08(s: &mut Src, c: &mut Case) -> Result<(), Failure> {
    let st = real_setup(s, Ver::V50, false);
    let mut o = options(s, &st);
    o.w = [1, 14, 1, 2, 2, 2, 0];
    let strip = s.chance(1, 4);
    if let Some(shot) = differential(s, c, &st, &o, strip)? {
        c.nontrivial = shot.prog.loops > 1;
        label(c, &shot, &st, strip);
    }
    Ok(())
}

fn c09(s: &mut Src, c: &mut Case) -> Result<(), Failure> {
    let st = real_setup(s, Ver::V50, false);
    let mut o = options(s, &st);
    o.w = [2, 2, 4, 8, 2, 2, 0];
    let strip = s.chance(1, 4);
    if let Some(shot) = differential(s, c, &st, &o, strip)? {
        c.nontrivial = shot.prog.varargs > 0;
        label(c, &shot, &st, strip);
    }
    Ok(())
}

pub fn low_opt(s: &mut Src) -> LowOpt {
    LowOpt {
        atoms: if s.chance(1, 8) { s.us(20, 70) } else { s.us(2, 26) },
        cond: s.us(2, 8) as u32,
        numeric_for: s.below(5) as u32,
        generic_for: s.below(5) as u32,
        ctor: s.below(5) as u32,
        closure: s.below(3) as u32,
        pad: s.below(2) as u32,
        max_pad: 60,
        loc: false,
    }
}

pub fn same_numbers(st: &mut Setup) {
    st.fout.number_width = st.fin.number_width;
    st.fout.is_number_integral = st.fin.is_number_integral;
}

pub fn low_label(c: &mut Case, shot: &LowShot) {
    c.label_if(shot.low.ctors > 0, "constructors");
    c.label_if(shot.low.loops > 0, "loops");
    c.label_if(shot.low.backward > 0, "backward jumps");
    c.label_if(shot.low.longest > 200, "jump over 200 instructions");
    c.label_if(shot.low.longest > 1000, "jump over 1000 instructions");
    c.label_if(shot.events >= 20, "20 events or more");
    c.label_if(shot.events < 3, "less than 3 events");
}

fn c10_low(s: &mut Src, c: &mut Case, ver: Ver, long: bool) -> Result<(), Failure> {
    let mut st = real_setup(s, ver, false);
    same_numbers(&mut st);
    let mut o = low_opt(s);
    if long {
        o.pad = 12;
        o.atoms += 4;
        o.max_pad = if s.chance(1, 30) { s.us(20_000, 36_000) } else { *s.pick(&[400usize, 1200, 4000]) };
    }
    if let Some(shot) = differential_low(s, c, &st, &o)? {
        c.nontrivial = shot.low.jumps >= 3 && shot.low.rewritten > 0 && shot.events >= 3 && (!long || shot.low.longest > 200);
        low_label(c, &shot);
    }
    Ok(())
}

fn c10_50(s: &mut Src, c: &mut Case) -> Result<(), Failure> {
    c10_low(s, c, Ver::V50, false)
}

fn c10_51(s: &mut Src, c: &mut Case) -> Result<(), Failure> {
    c10_low(s, c, Ver::V51, false)
}

fn c10_long(s: &mut Src, c: &mut Case) -> Result<(), Failure> {
    let ver = if s.chance(2, 3) { Ver::V50 } else { Ver::V51 };
    c10_low(s, c, ver, true)
}

fn c10_text(s: &mut Src, c: &mut Case) -> Result<(), Failure> {
    let ver = if s.chance(2, 3) { Ver::V50 } else { Ver::V51 };
    let st = real_setup(s, ver, false);
    let mut o = options(s, &st);
    o.w = [2, 5, 2, 2, 1, 12, 0];
    let strip = s.chance(1, 4);
    if let Some(shot) = differential(s, c, &st, &o, strip)? {
        c.nontrivial = shot.prog.jumps >= 3;
        label(c, &shot, &st, strip);
    }
    Ok(())
}

fn c14_text(s: &mut Src, c: &mut Case, ver: Ver) -> Result<(), Failure> {
    let st = real_setup(s, ver, false);
    let mut o = options(s, &st);
    for w in o.w.iter_mut().take(6) {
        *w = s.below(6) as u32;
    }
    o.w[4] += 3;
    o.w[6] = 6;
    o.probes = true;
    o.newlines = true;
    let strip = s.chance(1, 6);
    if let Some(shot) = differential(s, c, &st, &o, strip)? {
        c.nontrivial = !strip && shot.events >= 3;
        label(c, &shot, &st, strip);
        c.label_if(shot.reference.trace.contains("\nl@"), "records named locals");
        c.label_if(shot.reference.trace.contains("i(Lua"), "records lines of callers");
    }
    Ok(())
}

fn c14_50(s: &mut Src, c: &mut Case) -> Result<(), Failure> {
    c14_text(s, c, Ver::V50)
}

fn c14_51(s: &mut Src, c: &mut Case) -> Result<(), Failure> {
    c14_text(s, c, Ver::V51)
}

fn c14_code(s: &mut Src, c: &mut Case) -> Result<(), Failure> {
    let ver = if s.chance(2, 3) { Ver::V50 } else { Ver::V51 };
    let mut st = real_setup(s, ver, false);
    same_numbers(&mut st);
    let mut o = low_opt(s);
    o.loc = true;
    if let Some(shot) = differential_low(s, c, &st, &o)? {
        c.nontrivial = !shot.low.main.lines.is_empty() && shot.low.rewritten > 0 && shot.events >= 3;
        low_label(c, &shot);
        c.label_if(shot.reference.trace.contains("\nl@"), "records named locals");
    }
    Ok(())
}

/// What becomes of an instruction that is not the subject of a rule of its own.
fn main_opcodes(name: &str) -> &'static [&'static str] {
    match name {
        "TEST" => &["TESTSET"],
        "SUB" => &["SUB", "FORPREP"],
        "TFORLOOP" => &["TFORLOOP", "CALL"],
        "TFORPREP" => &["JMP"],
        "SETLIST" | "SETLISTO" => &[],
        _ => &["="],
    }
}

fn c14_lines(s: &mut Src, c: &mut Case) -> Result<(), Failure> {
    let ver = if s.chance(2, 3) { Ver::V50 } else { Ver::V51 };
    let mut st = real_setup(s, ver, false);
    same_numbers(&mut st);
    let o = low_opt(s);
    let mut low = lowgen::low(s, &st, &o);
    let stripped = low.main.lines.is_empty();
    fn number(p: &mut Proto, next: &mut i64, step: i64) {
        for l in p.lines.iter_mut() {
            *l = *next;
            *next += step;
        }
        for q in p.protos.iter_mut() {
            number(q, next, step);
        }
    }
    // growing, so that the order of instructions is visible too
    number(&mut low.main, &mut 10, 1);
    let e = encode(&low.main, ver, &st.fin, st.cin());
    if e.bad.is_some() {
        c.discard = true;
        return Ok(());
    }
    let detail = || format!("{}--- input code\n{}", st.describe(), show_proto(&low.main, ver, 0));
    c.key = fnv(&[e.out.as_slice(), st.describe().as_bytes()].concat());
    c.sample = Some(detail().chars().take(3000).collect());
    let out = match st.convert(&e.out)? {
        Ok(v) => v,
        Err(x) => {
            if fits(&low.main, &st).is_ok() {
                return fail(format!("conversion failed with {x:?}"), detail());
            }
            c.label("does not fit");
            c.discard = true;
            return Ok(());
        }
    };
    let q = match decode(&out, Ver::V51, &st.sett.out) {
        Ok((_, q)) => q,
        Err(m) => return fail(format!("the output does not decode: {m}"), detail()),
    };
    c.nontrivial = low.rewritten > 0;
    c.label_if(stripped, "stripped");
    if let Err(m) = same_lines("main", &low.main, &q, ver) {
        return fail(m, format!("{}--- converted code\n{}", detail(), show_proto(&q, Ver::V51, 0)));
    }
    Ok(())
}

fn same_lines(path: &str, p: &Proto, q: &Proto, ver: Ver) -> Result<(), String> {
    let e = |what: &str, x: String, y: String| if x == y { Ok(()) } else { Err(format!("{path}: {what}: expected {x} got {y}")) };
    e("source", format!("{:?}", p.source), format!("{:?}", q.source))?;
    e("line defined", p.line.to_string(), q.line.to_string())?;
    if ver == Ver::V51 {
        e("last line defined", p.last_line.to_string(), q.last_line.to_string())?;
    } else if q.last_line < q.line {
        return Err(format!("{path}: the last line {} is above the first line {}", q.last_line, q.line));
    }
    e("upvalue names", format!("{:?}", p.upnames), format!("{:?}", q.upnames))?;
    e("local names", format!("{:?}", p.locals.iter().map(|l| &l.name).collect::<Vec<_>>()), format!("{:?}", q.locals.iter().map(|l| &l.name).collect::<Vec<_>>()))?;
    for l in &q.locals {
        if l.start > l.end || l.end > q.code.len() as i64 {
            return Err(format!("{path}: a local is active from {} to {} in {} instructions", l.start, l.end, q.code.len()));
        }
    }
    if p.lines.is_empty() {
        e("line count", "0".into(), q.lines.len().to_string())?;
    } else {
        e("line count", q.code.len().to_string(), q.lines.len().to_string())?;
        if let Some(n) = q.lines.windows(2).position(|w| w[0] > w[1]) {
            return Err(format!("{path}: instruction {} has line {} and is followed by line {}", n, q.lines[n], q.lines[n + 1]));
        }
        if let Some(l) = q.lines.iter().find(|l| !p.lines.contains(l)) {
            return Err(format!("{path}: line {l} is not in the input"));
        }
        for (pc, i) in p.code.iter().enumerate() {
            let name = ver.ops()[i.op as usize].name;
            let want = match ver {
                Ver::V50 => main_opcodes(name),
                Ver::V51 if name == "SETLIST" => &[],
                Ver::V51 => &["="],
            };
            let there: Vec<&str> = q.lines.iter().zip(&q.code).filter(|(l, _)| **l == p.lines[pc]).map(|(_, i)| OPS51[i.op as usize].name).collect();
            if !want.is_empty() && !there.iter().any(|n| if want[0] == "=" { *n == name } else { want.contains(n) }) {
                return Err(format!("{path}: line {} of instruction {pc} ({name}) is not on any such instruction but on {there:?}", p.lines[pc]));
            }
        }
    }
    e("function count", p.protos.len().to_string(), q.protos.len().to_string())?;
    for (n, (x, y)) in p.protos.iter().zip(&q.protos).enumerate() {
        same_lines(&format!("{path}.{n}"), x, y, ver)?;
    }
    Ok(())
}

fn c14_huge(s: &mut Src, c: &mut Case) -> Result<(), Failure> {
    use super::structural::huge_length;
    let ver = if s.chance(2, 3) { Ver::V50 } else { Ver::V51 };
    let st = setup(s, ver, &Want { same_fpf: true, real: true });
    let n = if s.coin() { huge_length(s) } else { s.us(1, 40) };
    let m = if s.coin() { huge_length(s).min(70_000) } else { s.us(0, 20) };
    let (mov, ret) = match ver {
        Ver::V50 => (o50("MOVE"), o50("RETURN")),
        Ver::V51 => (o51("MOVE"), o51("RETURN")),
    };
    let mut p = Proto { source: lstr(b"@huge"), maxstack: 4, line: 1, last_line: 1, ..Default::default() };
    p.code = (0..n - 1).map(|i| Ins::abc(mov, i as u64 % 3, i as u64 / 3 % 3, 0)).collect();
    p.code.push(Ins::abc(ret, 0, 1, 0));
    let step = s.range(1, 9);
    p.lines = (0..n as i64).map(|i| i / step).collect();
    let length = n as i64;
    let stride = s.range(1, 1000);
    p.locals = (0..m as i64)
        .map(|i| {
            let start = i * stride % length;
            Local { name: lstr(format!("v{i}").as_bytes()), start, end: start + (length - start) / 2 }
        })
        .collect();
    let e = encode(&p, ver, &st.fin, st.cin());
    if e.bad.is_some() {
        c.discard = true;
        return Ok(());
    }
    let detail = || format!("{}{n} instructions, {m} locals\n", st.describe());
    c.key = fnv(&[e.out.as_slice(), st.describe().as_bytes()].concat());
    c.sample = Some(detail());
    c.nontrivial = n > 255 || m > 255;
    c.label_if(n > 65_535, "more than 65535 lines");
    c.label_if(m > 65_535, "more than 65535 locals");
    let out = match st.convert(&e.out)? {
        Ok(v) => v,
        Err(x) => return fail(format!("conversion failed with {x:?}"), detail()),
    };
    let q = match decode(&out, Ver::V51, &st.sett.out) {
        Ok((_, q)) => q,
        Err(m) => return fail(format!("the output does not decode: {m}"), detail()),
    };
    let first = |what: &str, n: Option<usize>| match n {
        Some(n) => fail(format!("{what} {n} changed"), detail()),
        None => Ok(()),
    };
    if q.lines.len() != n || q.locals.len() != m {
        return fail(format!("{} lines and {} locals", q.lines.len(), q.locals.len()), detail());
    }
    first("line", p.lines.iter().zip(&q.lines).position(|(a, b)| a != b))?;
    first("local", p.locals.iter().zip(&q.locals).position(|(a, b)| a != b))
}

fn c07_code(s: &mut Src, c: &mut Case) -> Result<(), Failure> {
    let ver = if s.coin() { Ver::V50 } else { Ver::V51 };
    let mut st = real_setup(s, ver, false);
    same_numbers(&mut st);
    let mut o = low_opt(s);
    o.ctor = 16;
    if let Some(shot) = differential_low(s, c, &st, &o)? {
        c.nontrivial = shot.low.ctors > 0 && shot.events >= 3;
        low_label(c, &shot);
    }
    Ok(())
}

fn c08_code(s: &mut Src, c: &mut Case) -> Result<(), Failure> {
    let mut st = real_setup(s, Ver::V50, false);
    same_numbers(&mut st);
    let mut o = low_opt(s);
    o.numeric_for = 8;
    o.generic_for = 6;
    if let Some(shot) = differential_low(s, c, &st, &o)? {
        c.nontrivial = shot.low.loops > 0 && shot.events >= 3;
        low_label(c, &shot);
    }
    Ok(())
}
