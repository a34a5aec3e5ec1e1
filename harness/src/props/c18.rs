//! C18: every function keeps what both versions express alike, and is converted on its own.

use super::structural::{both_versions, decode_out, direct50, key, label_setup};
use super::vmp::{low_opt, real_setup, same_numbers};
use super::*;
use crate::lowgen;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C18",
        parts: vec![
            part("direct", direct, 40_000, 2_000_000, "a random tree of Lua 5.0 functions whose instructions all have a direct Lua 5.1 counterpart; non-trivial when there are two functions or a constant, keyed by chunk and builds"),
            part("mixed", mixed, 40_000, 2_000_000, "a random tree of Lua 5.0 functions of any instructions, or generated executable byte code; non-trivial when it converts and has both instructions that are carried over and instructions that are rewritten, keyed by chunk and builds"),
            part("deep", deep, 1_500, 100_000, "a chain of up to 190 functions inside each other, or up to 300 side by side; non-trivial when four deep or with two side by side, keyed by chunk and builds"),
            part("alone", alone, 30_000, 1_500_000, "a random tree of functions of either version, some of which may not fit the output, and each of them as a chunk of its own; non-trivial when there are two functions or more, keyed by chunk and builds"),
        ],
        findings: vec![],
        assumptions: vec!["a local variable active from the first instruction on is a parameter or arg"],
    }]
}

/// What Lua 5.1 code made of nothing but direct counterparts has to be.
fn upcast(p: &Proto) -> Proto {
    let mut q = p.clone();
    q.code = p
        .code
        .iter()
        .map(|i| {
            let name = direct50(OPS50[i.op as usize].name).unwrap();
            let mut j = Ins { op: o51(name), ..*i };
            if name == "NEWTABLE" {
                j.args = Args::Abc(r(0), r(0));
            }
            j.canon51()
        })
        .collect();
    if p.vararg != 0 {
        q.vararg |= 2;
    }
    q.protos = p.protos.iter().map(upcast).collect();
    q
}

fn each(p: &mut Proto, f: &mut dyn FnMut(&mut Proto)) {
    f(p);
    p.protos.iter_mut().for_each(|q| each(q, f));
}

/// Replaces the instructions that have no direct counterpart.
fn express_directly(p: &mut Proto, arg: bool) {
    each(p, &mut |q| {
        for i in q.code.iter_mut() {
            if direct50(OPS50[i.op as usize].name).is_none() {
                *i = Ins::abc(o50("MOVE"), i.a, 0, 0);
            }
        }
        if !arg {
            q.vararg = 0;
        }
        // what starts at the first instruction are parameters
        for (n, l) in q.locals.iter_mut().enumerate() {
            if l.start == 0 && n >= q.nparams as usize {
                l.start = 1;
                l.end = l.end.max(1);
            }
        }
    });
}

fn direct(s: &mut Src, c: &mut Case) -> Result<(), Failure> {
    let st = setup(s, Ver::V50, &Want { same_fpf: false, real: true });
    let mut p = random_chunk(s, &st, |_| {}, 3);
    let arg = s.chance(1, 2);
    express_directly(&mut p, arg);
    let input = encode_ok(&p, &st);
    label_setup(c, &st);
    let detail = || show_proto(&p, Ver::V50, 0);
    c.nontrivial = !p.protos.is_empty() || !p.consts.is_empty();
    c.key = key(&input, &st);
    c.label_if(p.vararg != 0, "vararg main function");
    c.sample = Some(st.describe() + &detail());
    let out = st.must(&input, detail)?;
    let q = decode_out(&out, &st, &detail)?;
    same_direct("main", &upcast(&p), &q, &st).or_else(|m| fail(m, st.describe() + &detail() + "--- converted\n" + &show_proto(&q, Ver::V51, 0)))
}

/// The instructions that collect the extra arguments.
const PROLOGUE: usize = 4;

fn same_direct(path: &str, want: &Proto, got: &Proto, st: &Setup) -> Result<(), String> {
    let e = |what: &str, x: String, y: String| if x == y { Ok(()) } else { Err(format!("{path}: {what}: expected {x} got {y}")) };
    declared(path, want, got, st)?;
    e("constant count", want.consts.len().to_string(), got.consts.len().to_string())?;
    let extra = if want.vararg != 0 { PROLOGUE.min(got.code.len()) } else { 0 };
    let needed = if want.vararg != 0 { want.maxstack.max(want.nparams + 3) } else { want.maxstack };
    if got.maxstack < want.maxstack || got.maxstack > needed {
        return Err(format!("{path}: stack size {} became {}", want.maxstack, got.maxstack));
    }
    e("instruction count", want.code.len().to_string(), (got.code.len() - extra).to_string())?;
    for (pc, (x, y)) in want.code.iter().zip(&got.code[extra..]).enumerate() {
        let y = if y.op == o51("NEWTABLE") { Ins::abc(y.op, y.a, 0, 0) } else { *y };
        e(&format!("instruction {pc}"), x.show(&OPS51), y.canon51().show(&OPS51))?;
    }
    if want.lines.is_empty() {
        e("line count", "0".into(), got.lines.len().to_string())?;
    } else {
        e("lines", format!("{:?}", want.lines), format!("{:?}", &got.lines[extra..]))?;
    }
    for (n, (x, y)) in want.locals.iter().zip(&got.locals).enumerate() {
        let moved = |v: i64| if v == 0 { 0 } else { v + extra as i64 };
        e(&format!("local {n} range"), format!("{}..{}", moved(x.start), moved(x.end)), format!("{}..{}", y.start, y.end))?;
    }
    for (n, (x, y)) in want.protos.iter().zip(&got.protos).enumerate() {
        same_direct(&format!("{path}.{n}"), x, y, st)?;
    }
    Ok(())
}

/// What a function declares, whatever becomes of its code.
fn declared(path: &str, want: &Proto, got: &Proto, st: &Setup) -> Result<(), String> {
    let e = |what: &str, x: String, y: String| if x == y { Ok(()) } else { Err(format!("{path}: {what}: expected {x} got {y}")) };
    let text = |v: &LStr| format!("{:02x?}", v);
    e("source", text(&want.source), text(&got.source))?;
    e("line defined", want.line.to_string(), got.line.to_string())?;
    e("upvalue count", want.nups.to_string(), got.nups.to_string())?;
    e("parameter count", want.nparams.to_string(), got.nparams.to_string())?;
    e("vararg flag", want.vararg.to_string(), got.vararg.to_string())?;
    e("function count", want.protos.len().to_string(), got.protos.len().to_string())?;
    if got.consts.len() < want.consts.len() {
        return Err(format!("{path}: {} constants became {}", want.consts.len(), got.consts.len()));
    }
    for (n, (x, y)) in want.consts.iter().zip(&got.consts).enumerate() {
        gen::same_const(&format!("{path}: constant {n}"), x, y, &st.fout)?;
    }
    e("upvalue names", format!("{:02x?}", want.upnames), format!("{:02x?}", got.upnames))?;
    let names = |p: &Proto| p.locals.iter().map(|l| text(&l.name)).collect::<Vec<_>>().join(" ");
    e("local names", names(want), names(got))?;
    if got.maxstack < want.maxstack {
        return Err(format!("{path}: stack size {} became {}", want.maxstack, got.maxstack));
    }
    Ok(())
}

fn number(p: &mut Proto, next: &mut i64) {
    for l in p.lines.iter_mut() {
        *l = *next;
        *next += 1;
    }
    for q in p.protos.iter_mut() {
        number(q, next);
    }
}

fn mixed(s: &mut Src, c: &mut Case) -> Result<(), Failure> {
    let (st, mut p) = match s.coin() {
        true => {
            let st = setup(s, Ver::V50, &Want { same_fpf: true, real: true });
            let mut p = random_chunk(s, &st, |l| l.reg = (l.reg / 2).max(8), 2);
            if st.sett.l50.fpf != st.sett.out.fpf || s.chance(2, 3) {
                each(&mut p, &mut |q| {
                    for i in q.code.iter_mut().filter(|i| OPS50[i.op as usize].name.starts_with("SETLIST")) {
                        *i = Ins::abc(o50("MOVE"), i.a, 0, 0);
                    }
                });
            }
            (st, p)
        }
        false => {
            let mut st = real_setup(s, Ver::V50, false);
            same_numbers(&mut st);
            st.sett.out.fpf = st.sett.l50.fpf;
            let o = low_opt(s);
            let low = lowgen::low(s, &st, &o);
            (st, low.main)
        }
    };
    each(&mut p, &mut |q| {
        if q.lines.is_empty() {
            q.lines = vec![0; q.code.len()];
        }
    });
    // a line for every instruction, so that it can be found again
    number(&mut p, &mut 10);
    let e = encode(&p, Ver::V50, &st.fin, st.cin());
    if e.bad.is_some() {
        c.discard = true;
        return Ok(());
    }
    let detail = || show_proto(&p, Ver::V50, 0);
    label_setup(c, &st);
    c.key = key(&e.out, &st);
    c.sample = Some(st.describe() + &detail());
    let out = match st.convert(&e.out)? {
        Ok(v) => v,
        Err(LunifyError::ValueTooBigForOperand | LunifyError::StackTooLarge(_)) => {
            c.label("rejected");
            return Ok(());
        }
        Err(x) => return fail(format!("rejected with {x:?}"), st.describe() + &detail()),
    };
    let q = decode_out(&out, &st, &detail)?;
    let mut seen = (0, 0);
    let result = same_mixed("main", &p, &q, &st, &mut seen);
    c.nontrivial = seen.0 > 0 && seen.1 > 0;
    c.label_if(seen.1 > 0, "rewritten instructions");
    result.or_else(|m| fail(m, st.describe() + &detail() + "--- converted\n" + &show_proto(&q, Ver::V51, 0)))
}

fn same_mixed(path: &str, p: &Proto, q: &Proto, st: &Setup, seen: &mut (usize, usize)) -> Result<(), String> {
    let mut want = p.clone();
    if p.vararg != 0 {
        want.vararg |= 2;
    }
    declared(path, &want, q, st)?;
    let set_lists = p.code.iter().any(|i| OPS50[i.op as usize].name.starts_with("SETLIST"));
    if q.lines.len() != q.code.len() {
        return Err(format!("{path}: {} lines for {} instructions", q.lines.len(), q.code.len()));
    }
    for (pc, i) in p.code.iter().enumerate() {
        let Some(name) = direct50(OPS50[i.op as usize].name) else {
            seen.1 += 1;
            continue;
        };
        seen.0 += 1;
        let there: Vec<Ins> = q.lines.iter().zip(&q.code).filter(|(l, _)| **l == p.lines[pc]).map(|(_, i)| *i).collect();
        let plain = |i: &Ins| {
            let mut i = i.canon51();
            // values move when they are added to their table earlier or later
            let moves = set_lists && OPS51[i.op as usize].name != "JMP";
            if moves {
                return Ins { op: i.op, a: 0, args: Args::Abx(0) }.show(&OPS51);
            }
            if OPS51[i.op as usize].name == "NEWTABLE" {
                i.args = Args::Abc(r(0), r(0));
            }
            // where jumps lead is another property
            if let Args::Asbx(_) = i.args {
                i.args = Args::Asbx(0);
            }
            i.show(&OPS51)
        };
        // a jump may be extended by a loop, a subtraction become the preparation of one
        let wanted = plain(&Ins { op: o51(name), ..*i });
        let kept = there.iter().filter(|j| plain(j) == wanted).count();
        let loops = p.code.iter().any(|i| OPS50[i.op as usize].name == "FORLOOP");
        if kept == 0 && !(loops && matches!(name, "SUB" | "JMP")) {
            let there: Vec<String> = there.iter().map(|i| i.show(&OPS51)).collect();
            return Err(format!("{path}: instruction {pc} should be carried over as {wanted}, but its line holds {there:?}"));
        }
    }
    for (n, (x, y)) in p.protos.iter().zip(&q.protos).enumerate() {
        same_mixed(&format!("{path}.{n}"), x, y, st, seen)?;
    }
    Ok(())
}

/// The functions of a chunk, outer ones first.
fn flat<'a>(p: &'a Proto, out: &mut Vec<&'a Proto>) {
    out.push(p);
    p.protos.iter().for_each(|q| flat(q, out));
}

/// Functions inside functions as deep as Lua compiles and loads them, or many side by side.
fn deep(s: &mut Src, c: &mut Case) -> Result<(), Failure> {
    let ver = both_versions(s);
    let st = setup(s, ver, &Want { same_fpf: true, real: true });
    let mut lim = gen::Lim::both(ver, &st.fin, st.cin(), &st.fout, &st.sett.out);
    lim.size = 3;
    lim.setlist = ver == Ver::V51 && st.sett.l51.fpf == st.sett.out.fpf;
    let depth = if s.chance(1, 4) { s.us(1, 3) } else { s.us(2, 190) };
    let width = if s.chance(1, 4) { s.us(2, 300) } else { 0 };
    let at = s.us(0, depth - 1);
    let mut p = gen::proto(s, &lim, 0);
    for n in 1..depth {
        let mut q = gen::proto(s, &lim, 0);
        if s.chance(1, 10) {
            q.protos.push(gen::proto(s, &lim, 0));
        }
        q.protos.push(p);
        if n == at {
            q.protos.extend((0..width).map(|_| gen::proto(s, &lim, 0)));
        }
        p = q;
    }
    let arg = s.coin();
    if ver == Ver::V50 {
        express_directly(&mut p, arg);
    }
    let input = encode_ok(&p, &st);
    label_setup(c, &st);
    let detail = || {
        let mut all = Vec::new();
        flat(&p, &mut all);
        format!("{} functions, {depth} deep, the first of them\n{}", all.len(), show_proto(&Proto { protos: Vec::new(), ..p.clone() }, ver, 0))
    };
    c.nontrivial = depth > 3 || width > 1;
    c.key = key(&input, &st);
    c.label_if(depth >= 100, "100 functions deep or more");
    c.label_if(width >= 100, "100 functions side by side or more");
    c.sample = Some(st.describe() + &detail());
    let out = st.must(&input, detail)?;
    let q = decode_out(&out, &st, &detail)?;
    let same = match ver {
        Ver::V50 => same_direct("main", &upcast(&p), &q, &st),
        Ver::V51 => gen::same_proto("main", &p, &q, &gen::Cmp { fout: st.fout, code: true }),
    };
    same.or_else(|m| fail(m, st.describe() + &detail()))
}

fn alone(s: &mut Src, c: &mut Case) -> Result<(), Failure> {
    let ver = both_versions(s);
    let exact = s.chance(4, 5);
    let tight = s.chance(1, 3);
    let same = ver == Ver::V51 && s.coin();
    let st = setup(s, ver, &Want { same_fpf: same, real: true });
    let p = random_chunk(
        s,
        &st,
        |l| {
            l.numbers_exact = exact;
            l.setlist = ver == Ver::V51 && st.sett.l51.fpf == st.sett.out.fpf;
            if ver == Ver::V50 && !tight {
                l.reg = (l.reg / 2).max(8);
            }
        },
        4,
    );
    let input = encode_ok(&p, &st);
    let detail = || show_proto(&p, ver, 0);
    label_setup(c, &st);
    c.key = key(&input, &st);
    c.nontrivial = !p.protos.is_empty();
    c.sample = Some(st.describe() + &detail());
    let mut st = st;
    if s.chance(1, 3) {
        // a limit one of the functions just fits or just misses
        let (which, less) = (s.below(1 << 16) as usize, s.below(2));
        let limit = std::mem::replace(&mut st.sett.out.stack, 255);
        st.sett.out.stack = match st.convert(&input)? {
            Ok(out) => {
                let q = decode_out(&out, &st, &detail)?;
                let mut converted = Vec::new();
                flat(&q, &mut converted);
                (converted[which % converted.len()].maxstack as u64).saturating_sub(less)
            }
            Err(_) => limit,
        };
    }
    let st = st;
    let whole = st.convert(&input)?;
    let q = match &whole {
        Ok(out) => Some(decode_out(out, &st, &detail)?),
        Err(_) => None,
    };
    let mut functions = Vec::new();
    flat(&p, &mut functions);
    let mut converted = Vec::new();
    if let Some(q) = &q {
        flat(q, &mut converted);
        if converted.len() != functions.len() {
            return fail(format!("{} functions became {}", functions.len(), converted.len()), st.describe() + &detail());
        }
    }
    let mut errors = Vec::new();
    for (n, f) in functions.iter().enumerate() {
        let single = Proto { protos: Vec::new(), ..(*f).clone() };
        match st.convert(&encode_ok(&single, &st))? {
            Ok(out) => {
                let g = decode_out(&out, &st, &detail)?;
                if let Some(whole) = converted.get(n) {
                    let whole = Proto { protos: Vec::new(), ..(*whole).clone() };
                    let (a, b) = (show_proto(&whole, Ver::V51, 0), show_proto(&g, Ver::V51, 0));
                    if a != b || encode(&whole, Ver::V51, &st.fout, &st.sett.out).out != encode(&g, Ver::V51, &st.fout, &st.sett.out).out {
                        return fail(
                            format!("function {n} is converted differently on its own"),
                            format!("{}{}--- within the chunk\n{a}--- on its own\n{b}", st.describe(), detail()),
                        );
                    }
                }
            }
            Err(e) => errors.push((n, e)),
        }
    }
    c.label_if(!errors.is_empty(), "a function does not fit");
    match (&whole, errors.first()) {
        (Ok(_), Some((n, e))) => fail(format!("the chunk converts but function {n} on its own gives {e:?}"), st.describe() + &detail()),
        (Err(e), None) => fail(format!("every function converts on its own but the chunk gives {e:?}"), st.describe() + &detail()),
        (Err(e), Some(_)) if !errors.iter().any(|(_, x)| x == e) => {
            fail(format!("the chunk gives {e:?}, its functions {errors:?}"), st.describe() + &detail())
        }
        _ => Ok(()),
    }
}
