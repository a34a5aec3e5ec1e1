//! Programs built for one feature: deeply nested loops, and vararg functions with many arguments.

use std::fmt::Write;

use super::vmp::*;
use super::*;
use crate::luagen::Program;
use crate::vm::*;

struct Nest<'a> {
    s: &'a mut Src,
    t: String,
    v50: bool,
    kind: NumKind,
    exact: bool,
    /// Numeric locals in scope.
    locals: Vec<String>,
    ids: usize,
    loops: usize,
    most: usize,
    /// Results of the iterators.
    results: usize,
    level: usize,
    oneline: bool,
    wide: usize,
}

impl Nest<'_> {
    fn fresh(&mut self) -> String {
        self.ids += 1;
        format!("n{}", self.ids)
    }

    fn nl(&mut self) {
        self.t.push(if self.oneline { ' ' } else { '\n' });
    }

    /// Records some of the locals.
    fn show(&mut self, more: &[String]) {
        let mut list: Vec<String> = more.to_vec();
        let n = self.locals.len();
        for _ in 0..self.s.us(0, 6.min(n)) {
            let i = self.s.below(n as u64) as usize;
            list.push(self.locals[i].clone());
        }
        let _ = write!(self.t, "emit({})", list.join(", "));
        self.nl();
    }

    fn literal(&self, v: f64) -> String {
        if v == v.trunc() && v.abs() < 1e15 {
            format!("{}", v as i64)
        } else {
            format!("{v:e}")
        }
    }

    fn value(&mut self, v: f64) -> String {
        let t = self.literal(v);
        match self.s.below(8) {
            0 => format!("\"{t}\""),
            1 => format!("p({t})"),
            2 => format!("(p({t}))"),
            3 => format!("{} + 1", self.literal(v - 1.0)),
            _ => t,
        }
    }

    fn statement(&mut self, depth: usize, budget: usize, inside: bool) {
        let w = [4, if depth > 0 { 8 } else { 0 }, 2, 2, 3, if inside { 1 } else { 0 }, 1];
        match self.s.weighted(&w) {
            0 => self.show(&[]),
            1 => self.a_loop(depth, budget),
            2 => {
                let name = self.fresh();
                let v = self.s.range(-9, 9);
                let _ = write!(self.t, "local {name} = {v}");
                self.nl();
                self.locals.push(name);
            }
            3 => {
                if !self.locals.is_empty() {
                    let i = self.s.below(self.locals.len() as u64) as usize;
                    let l = self.locals[i].clone();
                    let _ = write!(self.t, "{l} = {l} + 1");
                    self.nl();
                }
            }
            4 => {
                // a block with locals of its own
                self.t.push_str(*self.s.pick(&["do", "if p(1) then", "if not p() then", "repeat"]));
                let until = self.t.ends_with("repeat");
                self.nl();
                let mark = self.locals.len();
                let n = self.s.us(1, 3);
                for _ in 0..n {
                    self.statement(depth.saturating_sub(1), budget, false);
                }
                self.locals.truncate(mark);
                self.t.push_str(if until { "until true" } else { "end" });
                self.nl();
            }
            5 => {
                self.t.push_str("if p(false) then break end");
                self.nl();
            }
            _ => {
                let _ = write!(self.t, "local function f{}(a) return a", self.ids);
                self.t.push_str(" end");
                self.nl();
            }
        }
    }

    fn a_loop(&mut self, depth: usize, budget: usize) {
        self.loops += 1;
        self.level += 1;
        self.most = self.most.max(self.level);
        let mark = self.locals.len();
        let most = if budget > 100 && depth <= 2 && self.s.chance(1, 4) { budget.min(300) } else { budget.min(4) };
        let k = match self.s.weighted(&[1, 3, 3]) {
            0 => 0,
            1 => 1.min(most),
            _ => self.s.us(0, most),
        };
        let left = budget / k.max(1);
        let mut captured = None;
        match self.s.weighted(&[5, 6, 1]) {
            0 => {
                let (start, step) = if self.exact || self.s.coin() || matches!(self.kind, NumKind::I32 | NumKind::I64) {
                    (self.s.range(-300, 300) as f64, *self.s.pick(&[1.0, 1.0, -1.0, 2.0, -3.0, 7.0, -100.0]))
                } else if self.kind == NumKind::F64 {
                    *self.s.pick(&[(0.5, 0.25), (1e15, 3.0), (-1e15, 0.5), (0.0, 1e-3), (1e-3, -1e-3), (9007199254740990.0, 1.0), (1e300, 1e299), (-0.5, -1.5), (3.0, 1e10)])
                } else {
                    *self.s.pick(&[(0.5, 0.25), (8388600.0, 1.0), (0.0, 0.125), (-0.5, -1.5), (3.0, 65536.0)])
                };
                let last = match k {
                    0 => start - step,
                    _ => start + step * (k - 1) as f64,
                };
                let limit = if k > 0 && step.abs() >= 1.0 && step.abs() < 1e6 && self.s.coin() { last + step / 2.0 } else { last };
                let limit = if self.exact || matches!(self.kind, NumKind::I32 | NumKind::I64) { limit.trunc() } else { limit };
                let (a, b) = (self.value(start), self.value(limit));
                let c = if step == 1.0 && self.s.coin() { String::new() } else { format!(", {}", self.value(step)) };
                let name = self.fresh();
                let _ = write!(self.t, "for {name} = {a}, {b}{c} do");
                self.nl();
                self.show(&[name.clone()]);
                if self.s.chance(1, 4) {
                    let _ = write!(self.t, "keep = function() return {name} end");
                    self.nl();
                    captured = Some("keep");
                }
                if self.s.chance(1, 8) && step.abs() < 1e6 {
                    let _ = write!(self.t, "{name} = {name} + {}", if step > 0.0 { "2" } else { "-2" });
                    self.nl();
                }
                self.locals.push(name);
            }
            1 => {
                let n = match self.s.weighted(&[2, 3, 3, 2]) {
                    _ if self.wide > 0 => std::mem::take(&mut self.wide),
                    0 => 1,
                    1 => 2,
                    2 => self.s.us(3, 8),
                    _ => self.s.us(3, 36),
                };
                let names: Vec<String> = (0..n).map(|_| self.fresh()).collect();
                let from = match self.s.weighted(&[5, 2, 2, if self.v50 { 3 } else { 0 }, 1]) {
                    0 => format!("many({k})"),
                    1 => "pairs(tab)".into(),
                    2 => "next, tab".into(),
                    3 => "tab".into(),
                    _ => format!("ret(many({k}), 7, 8)"),
                };
                let _ = write!(self.t, "for {} in {from} do", names.join(", "));
                self.nl();
                self.show(&names);
                if n > 1 && self.s.chance(1, 4) {
                    let _ = write!(self.t, "keep = function() return {} end", names[n - 1]);
                    self.nl();
                    captured = Some("keep");
                }
                if self.s.chance(1, 4) && n > 1 {
                    let _ = write!(self.t, "{} = {}", names[n - 1], names[0]);
                    self.nl();
                }
            }
            _ => {
                let name = self.fresh();
                let _ = write!(self.t, "local {name} = 0");
                self.nl();
                let _ = write!(self.t, "while {name} < {k} do {name} = {name} + 1");
                self.nl();
                self.locals.push(name);
            }
        }
        let n = match self.s.weighted(&[1, 3, 2]) {
            0 => 0,
            1 => 1,
            _ => self.s.us(1, 4),
        };
        for i in 0..n {
            if i == 0 && depth > 1 && self.s.chance(3, 4) {
                self.a_loop(depth - 1, left);
            } else {
                self.statement(depth - 1, left, true);
            }
        }
        if self.s.chance(1, 6) {
            self.t.push_str(*self.s.pick(&["break ", "if p(1) then break end ", "do break end "]));
        }
        self.t.push_str("end");
        self.nl();
        self.locals.truncate(mark);
        self.level -= 1;
        if let Some(k) = captured {
            let _ = write!(self.t, "if {k} then emit({k}()) end");
            self.nl();
        }
        if self.s.coin() {
            self.show(&[]);
        }
    }
}

/// Loops in loops, with many variables, many iterations and unusual numbers.
pub fn c08_nest(s: &mut Src, c: &mut Case) -> Result<(), Failure> {
    let st = real_setup(s, Ver::V50, false);
    let kind = NumKind::of(&st.fin);
    let exact = kind != NumKind::of(&st.fout);
    let wide = if s.chance(1, 12) { s.us(37, 116) } else { 0 };
    let results = if wide > 0 { s.us(wide - 3, wide + 2) } else { s.us(1, 40) };
    let oneline = s.chance(1, 5);
    let mut g = Nest { s, t: String::new(), v50: true, kind, exact, locals: vec![], ids: 0, loops: 0, most: 0, results, level: 0, oneline, wide };
    let mut list = String::new();
    for j in 0..g.results {
        let _ = match (j * 5 + g.results) % 7 {
            3 => write!(list, ", nil"),
            5 => write!(list, ", false"),
            _ => write!(list, ", i + {}", j % 40 + 1),
        };
    }
    let first = *g.s.pick(&["i", "i", "i < 3 and i", "'k'", "false"]);
    let _ = writeln!(g.t, "function many(k) local i = 0 return function(a, b) emit(a, b) i = i + 1 if i <= k then return {first}{list} end end end");
    g.t.push_str("tab = {5, 6, x = 7}\n");
    let inside = g.s.chance(1, 2);
    if inside {
        g.t.push_str("local function main(q, r)\n");
        g.locals.push("q".into());
        g.locals.push("r".into());
    }
    let n = g.s.us(0, 6);
    for _ in 0..n {
        let name = g.fresh();
        let _ = write!(g.t, "local {name} = {}\n", n);
        g.locals.push(name);
    }
    let depth = if wide > 0 { g.s.us(1, 2) } else { g.s.us(1, 12) };
    let m = g.s.us(1, 3);
    for _ in 0..m {
        g.a_loop(depth, 300);
    }
    g.show(&[]);
    if inside {
        g.t.push_str("return q end\nemit(main(1, 2))\n");
    }
    let (loops, most, text) = (g.loops, g.most, g.t);
    let strip = s.chance(1, 4);
    let prog = Program { text, max_ctor: 0, loops, varargs: 0, closures: 0, jumps: 0 };
    if let Some(shot) = differential_text(c, &st, prog, strip, RunOpts::default().steps)? {
        c.nontrivial = loops > 1 && shot.events >= 3;
        label(c, &shot, &st, strip);
        c.label_if(wide > 0, "a generic loop of 37 variables or more");
        c.label_if(most >= 4, "four loops deep or more");
        c.label_if(most >= 8, "eight loops deep or more");
        c.label_if(shot.events >= 200, "200 events or more");
    }
    Ok(())
}

/// Vararg functions with many parameters, called with many arguments.
pub fn c09_many(s: &mut Src, c: &mut Case) -> Result<(), Failure> {
    let st = real_setup(s, Ver::V50, false);
    let mut t = String::new();
    t.push_str("g = 3\nlocal u1, u2 = 10, 20\nkept = {}\n");
    let functions = s.us(1, 3);
    let mut calls = 0;
    let mut widest = 0;
    for f in 0..functions {
        let np = match s.weighted(&[4, 2, 1]) {
            0 => s.us(0, 4),
            1 => s.us(0, 20),
            _ => s.us(20, 120),
        };
        let plain = s.chance(1, 6);
        let mut params: Vec<String> = (0..np).map(|i| format!("a{i}")).collect();
        let names = params.clone();
        if !plain {
            params.push("...".into());
        }
        let head = match s.below(4) {
            0 => format!("f{f} = function({})", params.join(", ")),
            1 => format!("local function f{f}({})", params.join(", ")),
            _ => format!("function f{f}({})", params.join(", ")),
        };
        let _ = writeln!(t, "{head}");
        // what the very first instruction is
        let opening = s.below(7);
        match opening {
            0 => t.push_str("while true do\nif u1 > 12 then break end u1 = u1 + 1\n"),
            1 => t.push_str("repeat u1 = u1 - 1\n"),
            2 => t.push_str("for i = 1, 2 do emit(i)\n"),
            3 => t.push_str("for k, v in pairs({4}) do emit(k, v)\n"),
            4 => t.push_str("local l1, l2 emit(l1, l2)\n"),
            5 => t.push_str("local l1 = {...}\n"),
            _ => {}
        }
        if opening == 5 {
            // `...` is no expression in Lua 5.0
            let cut = t.len() - "local l1 = {...}\n".len();
            t.truncate(cut);
            t.push_str("local l1 = {1, 2}\n");
        }
        let some = |s: &mut Src| if names.is_empty() { "nil".to_string() } else { names[s.below(names.len() as u64) as usize].clone() };
        let body = s.us(1, 5);
        for _ in 0..body {
            match s.below(9) {
                0 if !names.is_empty() => {
                    for chunk in names.chunks(20) {
                        let _ = writeln!(t, "emit({})", chunk.join(", "));
                    }
                }
                1 if !plain => {
                    let _ = writeln!(t, "emit(arg)");
                }
                2 if !plain => {
                    let at = s.edgy(200);
                    let _ = writeln!(t, "arg[{at}] = {} emit(arg[{at}])", some(s));
                }
                3 if !plain => {
                    let _ = writeln!(t, "kept[f{f}] = function() return arg, {} end", some(s));
                }
                4 => {
                    let _ = writeln!(t, "local x = {} emit(x, {})", some(s), some(s));
                }
                5 if !plain => {
                    let _ = writeln!(t, "for i = 0, {} do if arg[i] ~= nil then emit(i, arg[i]) end end", s.us(0, 12));
                }
                6 if !plain => {
                    let _ = writeln!(t, "emit(arg == old) old = arg");
                }
                7 if !plain => {
                    let _ = writeln!(t, "local h = function(...) emit(arg[1], arg[2]) return arg end emit(h(arg[1], {})) emit(arg ~= h())", some(s));
                }
                _ => {
                    let _ = writeln!(t, "if u2 > 15 then u2 = u2 - 1 else u2 = u2 + 2 end emit(u1, u2)");
                }
            }
        }
        if s.chance(1, 3) && !plain {
            let _ = writeln!(t, "if g > 0 then g = g - 1 emit(f{f}({}arg[2], arg[1])) end", if np > 0 { "a0, " } else { "" });
        }
        match opening {
            0 => t.push_str("end\n"),
            1 => t.push_str("until u1 < 10\n"),
            2 | 3 => t.push_str("end\n"),
            _ => {}
        }
        match s.below(4) {
            0 if !plain => t.push_str("return arg\n"),
            1 if !plain => {
                let _ = writeln!(t, "return arg[1], {}, arg[2]", some(s));
            }
            2 if !plain => t.push_str("return ret(arg)\n"),
            _ => {}
        }
        t.push_str("end\n");
        let n = s.us(1, 4);
        for _ in 0..n {
            let given = match s.weighted(&[3, 3, 2]) {
                0 => np + s.us(0, 6),
                1 => s.us(0, np + 3),
                _ => (np + s.us(0, 130)).min(220),
            };
            let nils = *s.pick(&[1000u64, 6, 2]);
            let args: Vec<String> = (0..given).map(|i| if s.chance(1, nils) { "nil".to_string() } else { format!("{}", (i * 3 + f) % 60) }).collect();
            let mut args = args.join(", ");
            if s.chance(1, 5) {
                if !args.is_empty() {
                    args.push_str(", ");
                }
                args.push_str("ret(1, nil, 3)");
            }
            calls += 1;
            widest = widest.max(given.saturating_sub(np));
            let _ = match s.below(4) {
                0 => writeln!(t, "emit(f{f}({args}))"),
                1 => writeln!(t, "emit(try(f{f}{}{args}))", if args.is_empty() { "" } else { ", " }),
                2 => writeln!(t, "do local x, y, z = f{f}({args}) emit(x, y, z) end"),
                _ => writeln!(t, "f{f}({args})"),
            };
            if s.chance(1, 3) {
                let _ = writeln!(t, "if kept[f{f}] then emit(kept[f{f}]()) end");
            }
        }
    }
    t.push_str("emit(u1, u2, g)\n");
    let strip = s.chance(1, 4);
    let prog = Program { text: t, max_ctor: 0, loops: 0, varargs: functions, closures: 0, jumps: 0 };
    if let Some(shot) = differential_text(c, &st, prog, strip, RunOpts::default().steps)? {
        c.nontrivial = calls > 0 && shot.events >= 2;
        label(c, &shot, &st, strip);
        c.label_if(widest > 20, "more than 20 extra arguments");
        c.label_if(widest > 60, "more than 60 extra arguments");
    }
    Ok(())
}
