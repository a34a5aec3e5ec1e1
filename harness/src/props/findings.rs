//! Minimal reproductions of the listed findings. Each says whether the defect still occurs.

use lunify::BitWidth;

use super::*;
use crate::vm::*;

/// Whether a Lua 5.0 program behaves differently after conversion.
fn text_differs(text: &str) -> bool {
    let st = Setup { ver: Ver::V50, fin: Format::default(), fout: Format::default(), sett: Sett::default() };
    let (x, y) = (Build::lua50(&st.fin, &st.sett.l50).with_arg_n(), Build::lua51(&st.fout, &st.sett.out).no_variable_info());
    let chunk = x.compile(text.as_bytes(), "@t.lua", false).expect("the program of a finding compiles");
    differs(&st, &chunk, &x, &y)
}

fn differs(st: &Setup, chunk: &[u8], x: &Build, y: &Build) -> bool {
    let opts = RunOpts { norm0: true, ..RunOpts::default() };
    let reference = x.run(chunk, "t", &opts);
    match st.convert(chunk) {
        Ok(Ok(out)) => {
            let got = y.run(&out, "t", &opts.converted(&reference));
            got.status != reference.status || got.trace != reference.trace
        }
        _ => true,
    }
}

/// `arg.n` is nil.
pub fn arg_n() -> bool {
    text_differs("local function f(...) emit(arg.n) end f(1, nil, 3)")
}

/// The loop over a table calls the global `type`.
pub fn type_next() -> bool {
    text_differs("type = function() return 1 end for k, v in {7} do emit(k, v) end")
}

/// The replacements of loops store in global variables, which a metatable of the globals notices.
pub fn loop_globals() -> bool {
    text_differs("setmetatable(_G, {__newindex = function(t, k, v) emit(k) rawset(t, k, v) end}) for i = 1, 2 do emit(i) end")
}

/// The variable of a generic loop with a single variable keeps its last value.
pub fn loop_exit() -> bool {
    text_differs("local f for k in pairs({7}) do f = function() return k end end emit(f())")
}

/// The loop variable is not checked at the end of an iteration.
pub fn loop_variable() -> bool {
    text_differs("emit(try(function() for i = 1, 3 do i = {} end end))")
}

/// Page numbers in an instruction word of their own.
pub fn page_word() -> bool {
    let mut st = Setup { ver: Ver::V51, fin: Format::default(), fout: Format::default(), sett: Sett::default() };
    st.sett.l51.fpf = 1;
    let (x, y) = (Build::lua51(&st.fin, &st.sett.l51), Build::lua51(&st.fout, &st.sett.out));
    let values: Vec<String> = (1..=600).map(|n| (n % 200).to_string()).collect();
    let text = format!("local t = {{{}}} emit(t[1], t[511], t[512], t[600])", values.join(","));
    let chunk = x.compile(text.as_bytes(), "@t.lua", false).expect("the program of a finding compiles");
    differs(&st, &chunk, &x, &y)
}

/// The same with pages of the same length, where an instruction word is read as an opcode.
pub fn page_word_opcode() -> bool {
    let mut st = Setup { ver: Ver::V51, fin: Format::default(), fout: Format::default(), sett: Sett::default() };
    st.sett.l51.fpf = 1;
    st.sett.out.fpf = 1;
    st.fout.size_t_width = BitWidth::Bit32;
    let x = Build::lua51(&st.fin, &st.sett.l51);
    let values: Vec<String> = (1..=600).map(|n| (n % 200).to_string()).collect();
    let text = format!("local t = {{{}}} emit(t[1], t[511], t[512], t[600])", values.join(","));
    let chunk = x.compile(text.as_bytes(), "@t.lua", false).expect("the program of a finding compiles");
    !matches!(st.convert(&chunk), Ok(Ok(_)))
}

/// LOADBOOL with C set skips one instruction of the converted code, not the one of the input.
pub fn loadbool_skip() -> bool {
    let st = Setup { ver: Ver::V50, fin: Format::default(), fout: Format::default(), sett: Sett::default() };
    let op = o50;
    let p = Proto {
        maxstack: 12,
        consts: vec![Const::Str(lstr(b"emit")), Const::Num(Num::F(1.0)), Const::Str(lstr(b"type"))],
        code: vec![
            Ins::abx(op("GETGLOBAL"), 0, 2),
            Ins::abc(op("LOADNIL"), 1, 6, 0),
            Ins::abc(op("NEWTABLE"), 3, 0, 0),
            Ins::abc(op("LOADBOOL"), 1, 1, 1),
            // skipped
            Ins::sbx(op("TFORPREP"), 3, 0),
            Ins::abx(op("GETGLOBAL"), 6, 0),
            Ins::abx(op("GETGLOBAL"), 7, 2),
            Ins::abc(op("MOVE"), 8, 3, 0),
            Ins::abc(op("CALL"), 7, 2, 2),
            Ins::abc(op("CALL"), 6, 2, 1),
            Ins::abc(op("RETURN"), 0, 1, 0),
        ],
        lines: vec![1; 11],
        ..Proto::default()
    };
    let e = encode(&p, Ver::V50, &st.fin, st.cin());
    let (x, y) = (Build::lua50(&st.fin, &st.sett.l50), Build::lua51(&st.fout, &st.sett.out).no_variable_info());
    differs(&st, &e.out, &x, &y)
}
