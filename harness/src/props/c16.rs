//! C16: conversion is deterministic, path-independent and idempotent.

use lunify::{BitWidth, LunifyError};

use super::structural::{both_versions, key, label_setup};
use super::vmp::{low_opt, options, real_setup, same_numbers};
use super::*;
use crate::gen;
use crate::lowgen;
use crate::luagen;
use crate::vm::*;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C16",
        parts: vec![
            part("paths", paths, 140_000, 6_000_000, "a random chunk, generated byte code or compiled program of either version converted directly, through one or two intermediate formats, and again; non-trivial when an intermediate format differs from both ends, keyed by input and formats"),
            part("repeat", repeat, 10_000, 600_000, "a batch of up to eight conversions of all kinds, valid and damaged, repeated in another order and from four threads at once; non-trivial when at least two conversions of the batch succeed, keyed by the inputs"),
        ],
        findings: vec![],
        assumptions: vec!["intermediate formats use one of the two number types involved, the list-flush size of the input or of the output and its stack limit, and have room for every operand"],
    }]
}

/// An executable or structural chunk with its conversion.
pub fn any_chunk(s: &mut Src, c: &mut Case, fpf: bool) -> Option<(Setup, Vec<u8>)> {
    let ver = both_versions(s);
    match s.weighted(&[4, 4, 2]) {
        0 => {
            let st = setup(s, ver, &Want { same_fpf: !fpf, real: true });
            let p = random_chunk(
                s,
                &st,
                |l| {
                    l.int = l.int.min(i32::MAX as i64);
                    // what an intermediate format has room for
                    l.a = l.a.min(511);
                    l.b = l.b.min((1 << 23) - 1);
                    l.c = l.c.min((1 << 23) - 1);
                    l.bx = l.bx.min((1 << 45) - 1);
                    l.sbx = l.sbx.min((1 << 44) - 1);
                    if l.kidx != u64::MAX {
                        l.kidx = l.kidx.min((1 << 22) - 1);
                    }
                    l.setlist = ver == Ver::V51 && st.sett.l51.fpf == st.sett.out.fpf;
                    if ver == Ver::V50 {
                        l.reg = (l.reg / 2).max(8);
                    }
                },
                2,
            );
            c.label("random chunk");
            let e = encode(&p, ver, &st.fin, st.cin());
            let (out, bad) = (e.out, e.bad);
            bad.is_none().then_some((st, out))
        }
        1 => {
            let mut st = real_setup(s, ver, false);
            same_numbers(&mut st);
            let o = low_opt(s);
            let low = lowgen::low(s, &st, &o);
            c.label("generated byte code");
            let e = encode(&low.main, ver, &st.fin, st.cin());
            let (out, bad) = (e.out, e.bad);
            bad.is_none().then_some((st, out))
        }
        _ => {
            let st = real_setup(s, ver, false);
            let mut o = options(s, &st);
            for w in o.w.iter_mut().take(6) {
                *w = s.below(6) as u32;
            }
            let strip = s.chance(1, 3);
            let prog = luagen::program(s, &o);
            c.label("compiled program");
            let x = match ver {
                Ver::V50 => Build::lua50(&st.fin, &st.sett.l50),
                Ver::V51 => Build::lua51(&st.fin, &st.sett.l51),
            };
            x.compile(prog.text.as_bytes(), "@t.lua", strip).ok().map(|v| (st, v))
        }
    }
}

/// A step to an intermediate format: `from` is what the bytes are in now.
fn middle(s: &mut Src, st: &Setup, fpf: u64) -> (lunify::Format, Consts) {
    let mut f = gen::format(s);
    f.instruction_width = BitWidth::Bit64;
    f.number_width = st.fout.number_width;
    f.is_number_integral = st.fout.is_number_integral;
    if s.coin() {
        f.number_width = st.fin.number_width;
        f.is_number_integral = st.fin.is_number_integral;
    }
    let orders = gen::orders();
    let order = *s.pick(&orders);
    let big = s.below(4);
    let lay = Lay {
        order: order.map(|o| {
            (
                o,
                match o {
                    Op4::O => 6 + big.min(1),
                    Op4::A => 9,
                    Op4::B => 23,
                    Op4::C => 23 + big.min(2),
                },
            )
        }),
    };
    (f, Consts { sig: gen::signature(s), stack: st.sett.out.stack, fpf, lay })
}

pub fn bytes(r: &Result<Vec<u8>, LunifyError>) -> String {
    match r {
        Ok(v) => hex(v),
        Err(e) => format!("{e:?}"),
    }
}

fn paths(s: &mut Src, c: &mut Case) -> Result<(), Failure> {
    let Some((st, input)) = any_chunk(s, c, true) else {
        c.discard = true;
        return Ok(());
    };
    let steps = 1 + s.below(2);
    let first = if st.ver == Ver::V51 && s.coin() { st.sett.l51.fpf } else { st.sett.out.fpf };
    let mut chain = vec![middle(s, &st, first)];
    if steps == 2 {
        // numbers have to go on from what the first step made of them
        let second = if first != st.sett.out.fpf && s.coin() { first } else { st.sett.out.fpf };
        let mut m = middle(s, &st, second);
        let f = chain[0].0;
        if (f.number_width, f.is_number_integral) == (st.fout.number_width, st.fout.is_number_integral) {
            m.0.number_width = f.number_width;
            m.0.is_number_integral = f.is_number_integral;
        }
        chain.push(m);
    }
    c.key = key(&input, &st);
    label_setup(c, &st);
    let path: String = chain.iter().map(|(f, k)| format!("through {} {}\n", fmt_str(f), cons_str(k))).collect();
    c.sample = Some(st.describe() + &path + "input " + &hex(&input));
    let detail = |what: &str| format!("{}{path}input {}\n{what}", st.describe(), hex(&input));
    let direct = st.convert(&input)?;
    c.label_if(direct.is_err(), "rejected");
    c.nontrivial = direct.is_ok();
    let identity = st.ver == Ver::V51 && direct.as_ref() == Ok(&input);
    let mut now = input.clone();
    let mut cin = st.cin().clone();
    let mut ver = st.ver;
    let mut result = Ok(());
    for (n, (f, k)) in chain.iter().chain(std::iter::once(&(st.fout, st.sett.out.clone()))).enumerate() {
        let mut sett = st.sett.clone();
        match ver {
            Ver::V50 => sett.l50 = cin.clone(),
            Ver::V51 => sett.l51 = cin.clone(),
        }
        if n > 0 {
            // only Lua 5.1 from here on
            sett.l50.sig = sett.l51.sig.clone();
        }
        sett.out = k.clone();
        match convert(&now, f, &sett)? {
            Ok(v) => now = v,
            Err(e) => {
                result = Err((n, e));
                break;
            }
        }
        cin = k.clone();
        ver = Ver::V51;
    }
    match (&direct, result) {
        (Ok(v), Ok(())) => {
            if identity {
                // nothing was decoded: size hints and unused bits are still there
                c.label("direct result is the input");
                let a = decode(v, Ver::V51, &st.sett.out);
                let b = decode(&now, Ver::V51, &st.sett.out);
                if let (Ok((fa, a)), Ok((fb, b))) = (a, b) {
                    let cmp = gen::Cmp { fout: st.fout, code: true };
                    let r = gen::same_proto("main", &a, &b, &cmp);
                    if fa != fb || r.is_err() {
                        return fail(format!("the way round changes the chunk: {r:?}"), detail(&bytes(&Ok(now))));
                    }
                    return Ok(());
                }
                return fail("the result does not decode", detail(&bytes(&Ok(now))));
            }
            if *v != now {
                let at = v.iter().zip(&now).position(|(a, b)| a != b).unwrap_or(v.len().min(now.len()));
                return fail(format!("the way round differs from byte {at}"), detail(&format!("direct {}\nround {}", hex(v), hex(&now))));
            }
        }
        (Ok(_), Err((n, e))) => return fail(format!("step {n} of the way round is rejected with {e:?}, the direct conversion is not"), detail("")),
        (Err(e), Ok(())) => return fail(format!("the direct conversion is rejected with {e:?}, the way round is not"), detail(&bytes(&Ok(now)))),
        (Err(_), Err(_)) => return Ok(()),
    }
    // converting a result again changes nothing
    let v = direct.unwrap();
    let mut again = st.clone();
    again.sett.l51 = st.sett.out.clone();
    again.sett.l50.sig = st.sett.out.sig.clone();
    let r = again.convert(&v)?;
    if r.as_ref() != Ok(&v) {
        return fail("converting the result again changes it", detail(&format!("once {}\ntwice {}", hex(&v), bytes(&r))));
    }
    // not even when it is decoded
    again.sett.out.sig = format!("{}+", st.sett.out.sig);
    match again.convert(&v)? {
        Ok(w) => {
            let n = st.sett.out.sig.len();
            let tail = &w[(n + 1).min(w.len())..];
            if tail != &v[n..] && !identity {
                return fail("decoding and writing the result again changes it", detail(&format!("once {}\ntwice {}", hex(&v), hex(&w))));
            }
        }
        Err(e) => return fail(format!("the result is rejected with {e:?} when it is converted again"), detail(&hex(&v))),
    }
    Ok(())
}

fn repeat(s: &mut Src, c: &mut Case) -> Result<(), Failure> {
    let n = s.us(2, 8);
    let mut batch: Vec<(Setup, Vec<u8>)> = Vec::new();
    for _ in 0..n {
        if let Some((st, mut input)) = any_chunk(s, c, true) {
            if s.chance(1, 4) && !input.is_empty() {
                let at = s.below(input.len() as u64) as usize;
                input[at] = s.below(256) as u8;
                c.label("damaged");
            }
            batch.push((st, input));
        }
    }
    let mut order: Vec<usize> = (0..batch.len()).collect();
    for i in (1..order.len()).rev() {
        order.swap(i, s.below(i as u64 + 1) as usize);
    }
    c.labels.sort();
    c.labels.dedup();
    if batch.len() < 2 {
        c.discard = true;
        return Ok(());
    }
    c.key = batch.iter().fold(0, |k, (st, i)| k ^ key(i, st));
    c.sample = Some(batch.iter().map(|(st, i)| st.describe() + &hex(i)).collect::<Vec<_>>().join("\n").chars().take(2500).collect());
    let mut first = Vec::new();
    for (st, i) in &batch {
        first.push(st.convert(i)?);
    }
    c.nontrivial = first.iter().filter(|r| r.is_ok()).count() >= 2;
    let check = |at: usize, r: &Result<Vec<u8>, LunifyError>, how: &str| {
        if *r == first[at] {
            return Ok(());
        }
        let (st, i) = &batch[at];
        fail(
            format!("the same conversion gives another result {how}"),
            format!("{}input {}\nfirst {}\nthen {}", st.describe(), hex(i), bytes(&first[at]), bytes(r)),
        )
    };
    for &at in &order {
        check(at, &batch[at].0.convert(&batch[at].1)?, "in another order")?;
    }
    let results: Vec<Vec<(usize, Result<Result<Vec<u8>, LunifyError>, Failure>)>> = std::thread::scope(|scope| {
        let handles: Vec<_> = (0..4usize)
            .map(|t| {
                let (order, batch) = (&order, &batch);
                scope.spawn(move || {
                    let mut out = Vec::new();
                    for i in 0..order.len() {
                        let at = order[(i + t) % order.len()];
                        out.push((at, batch[at].0.convert(&batch[at].1)));
                    }
                    out
                })
            })
            .collect();
        handles.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for list in results {
        for (at, r) in list {
            check(at, &r?, "in another thread")?;
        }
    }
    Ok(())
}
