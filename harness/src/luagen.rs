//! Generator of Lua source programs. Scopes and rough types are tracked, so that most programs run far
//! before (or instead of) ending in an error; everything observable goes through emit / p / loc / inf.

use crate::engine::Src;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ty {
    Num,
    Str,
    Tab,
    Fun,
    Any,
}

#[derive(Clone)]
struct Var {
    name: String,
    ty: Ty,
    /// What a statement may do to it: 0 nothing, 1 assign, 2 advance up (loop variable), 3 advance down
    assign: u8,
    /// Out of reach for nested functions.
    nocap: bool,
}

#[derive(Clone)]
pub struct Opt {
    /// Stay inside Lua 5.0.
    pub v50: bool,
    /// Only arithmetic that every number type computes alike.
    pub exact: bool,
    pub fuel: i32,
    /// Flush sizes constructor lengths cluster around.
    pub flush: [usize; 2],
    /// Longest constructor.
    pub big: usize,
    /// Weights: constructors, loops, varargs, closures, errors, jumps, probes (loc and inf).
    pub w: [u32; 7],
    /// Leading locals that push everything else up the stack.
    pub pad: usize,
    /// Unused constants in front of everything else.
    pub consts: usize,
    pub newlines: bool,
    /// Observe names of locals.
    pub probes: bool,
}

impl Default for Opt {
    fn default() -> Self {
        Opt { v50: false, exact: false, fuel: 60, flush: [50, 50], big: 120, w: [4, 4, 3, 4, 3, 5, 0], pad: 0, consts: 0, newlines: true, probes: false }
    }
}

struct Fun {
    vararg: bool,
    /// Additional arguments are in the table `arg`, as in Lua 5.0.
    old: bool,
    loops: u32,
    locals: usize,
    /// Scope index at which this function starts.
    base: usize,
}

pub struct Gen<'a> {
    s: &'a mut Src,
    o: Opt,
    out: String,
    scope: Vec<Var>,
    funs: Vec<Fun>,
    fuel: i32,
    ids: usize,
    noline: u32,
    globals: Vec<(String, Ty)>,
    pub uses: Vec<&'static str>,
    pub ctors: usize,
    pub max_ctor: usize,
    pub loops: usize,
    pub varargs: usize,
    pub closures: usize,
    pub jumps: usize,
}

pub struct Program {
    pub text: String,
    pub max_ctor: usize,
    pub loops: usize,
    pub varargs: usize,
    pub closures: usize,
    pub jumps: usize,
}

const STRS: [&str; 19] =
    ["\"a\"", "\"\"", "'xyz'", "\"10\"", "\"k1\"", "\"caf\\195\\169\"", "\"\\0z\\255\"", "\"a longer string constant, longer than forty bytes\"", "\"7\"", " [[raw]] ", "\"type\"", "\"n\\\\w\\n\"",
     "\"next_item\"", "'types'", "\"tables\"", "\"table\"", "\"next\"", "\"typ\"", "'nex'"];

pub fn program(s: &mut Src, o: &Opt) -> Program {
    let mut g = Gen {
        s,
        o: o.clone(),
        out: String::new(),
        scope: Vec::new(),
        funs: vec![Fun { vararg: !o.v50, old: o.v50, loops: 0, locals: 0, base: 0 }],
        fuel: o.fuel,
        ids: 0,
        noline: 0,
        globals: vec![("g1".into(), Ty::Num), ("g2".into(), Ty::Any), ("g3".into(), Ty::Str), ("g4".into(), Ty::Tab)],
        uses: Vec::new(),
        ctors: 0,
        max_ctor: 0,
        loops: 0,
        varargs: 0,
        closures: 0,
        jumps: 0,
    };
    g.out.push_str("g1, g3, g4 = 4, \"gs\", {5, 6, k1 = 7}\n");
    if o.consts > 0 {
        g.out.push_str("local pad = function() ");
        // the constants of this function only
        g.out.push_str("end\n");
        let n = o.consts;
        let mut text = String::from("if g9 then emit(");
        for i in 0..n {
            if i > 0 {
                text.push_str(if i % 20 == 0 { ") emit(" } else { "," });
            }
            text.push_str(&format!("{}", 5000 + i));
        }
        text.push_str(") end\n");
        g.out.push_str(&text);
    }
    g.pad();
    let n = g.s.us(2, 10);
    g.block_body(n, true);
    let mut prelude = String::new();
    for (name, text) in PRELUDE {
        if g.uses.contains(name) || (*name == "mt" && g.uses.contains(&"mk")) {
            prelude.push_str(text);
        }
    }
    prelude.push_str(&g.out);
    Program { text: prelude, max_ctor: g.max_ctor, loops: g.loops, varargs: g.varargs, closures: g.closures, jumps: g.jumps }
}

const PRELUDE: &[(&str, &str)] = &[
    ("num", "function num(x) if type(x) == 'number' then return x end return 3 end\n"),
    ("lim", "function lim(x) if x > 1000 or x < -1000 then return 7 end return x end\n"),
    ("iter", "function iter(n) local i = 0 return function(a, b) i = i + 1 if i <= n then return i, i + 10, 'v' .. i, nil, i + 20, i + 30 end end end\n"),
    ("walk", "function walk(n, i) if i < n then return i + 1, 'w' end end\n"),
    (
        "mt",
        "mt = {__index = function(t, k) emit('index', k) return k end, __newindex = function(t, k, v) emit('newindex', k, v) rawset(t, k, v) end, __call = function(self, ...) return ret(self, 5) end, __add = function(a, b) emit('add') return 1 end, __concat = function(a, b) emit('concat') return 'c' end, __lt = function(a, b) emit('lt') return true end, __le = function(a, b) emit('le') return false end, __eq = function(a, b) emit('eq') return true end, __unm = function(a) emit('unm') return 2 end}\n",
    ),
    ("mk", "function mk(n) return setmetatable({n}, mt) end\n"),
    ("obj", "obj = {v = 3, m = function(self, a, b) emit('m', a, b) return self.v, a end, c = function(self, ...) return 6 end}\n"),
];

impl<'a> Gen<'a> {
    fn raw(&mut self, t: &str) {
        self.out.push_str(t);
    }

    /// Whitespace at a place where a line may end.
    fn sp(&mut self) {
        if self.o.newlines && self.noline == 0 && self.s.chance(1, 12) {
            self.out.push('\n');
        } else {
            self.out.push(' ');
        }
    }

    fn nl(&mut self) {
        if self.s.chance(1, 8) && self.o.newlines {
            self.out.push(' ');
        } else {
            self.out.push('\n');
        }
        if self.o.newlines && self.s.chance(1, 16) {
            self.out.push('\n');
        }
    }

    fn fresh(&mut self) -> String {
        self.ids += 1;
        format!("v{}", self.ids)
    }

    fn fun(&mut self) -> &mut Fun {
        self.funs.last_mut().unwrap()
    }

    fn pad(&mut self) {
        let n = self.o.pad;
        if n == 0 {
            return;
        }
        self.raw("local ");
        for i in 0..n {
            if i > 0 {
                self.raw(", ");
            }
            let name = format!("x{i}");
            self.raw(&name);
        }
        self.raw("\n");
        self.fun().locals += n;
    }

    /// Scope indexes of usable variables of a type.
    fn vars(&self, ok: impl Fn(&Var) -> bool) -> Vec<usize> {
        let mut out: Vec<usize> = Vec::new();
        let mut seen: Vec<&str> = Vec::new();
        for (i, v) in self.scope.iter().enumerate().rev() {
            if seen.contains(&v.name.as_str()) {
                continue;
            }
            seen.push(&v.name);
            if ok(v) && !(v.nocap && i < self.funs.last().unwrap().base) {
                out.push(i);
            }
            if out.len() >= 12 {
                break;
            }
        }
        out
    }

    fn var_of(&mut self, ty: Ty) -> Option<String> {
        let mut v: Vec<String> = self.vars(|v| v.ty == ty).into_iter().map(|i| self.scope[i].name.clone()).collect();
        v.extend(self.globals.iter().filter(|g| g.1 == ty).map(|g| g.0.clone()));
        if v.is_empty() {
            return None;
        }
        let i = self.s.below(v.len() as u64) as usize;
        Some(v[i].clone())
    }

    fn used(&mut self, name: &'static str) {
        if !self.uses.contains(&name) {
            self.uses.push(name);
        }
    }

    fn literal_num(&mut self) {
        let t = if self.o.exact {
            self.s.below(12).to_string()
        } else {
            match self.s.weighted(&[6, 2, 1]) {
                0 => self.s.below(12).to_string(),
                1 => self.s.pick(&["0.5", "1.25", "100", "1e3", "255", "0.1"]).to_string(),
                _ => self.s.pick(&["1e15", "123456789", "2e-3", "4294967296", "65535.5"]).to_string(),
            }
        };
        self.raw(&t);
    }

    fn num(&mut self, d: u32) {
        self.fuel -= 1;
        let simple = d == 0 || self.fuel <= 0;
        let k = if simple { self.s.weighted(&[3, 4]) } else { self.s.weighted(&[3, 5, 6, 2, 2, 2, 1, 1, 1]) };
        match k {
            0 => self.literal_num(),
            1 => match self.var_of(Ty::Num) {
                Some(n) => self.raw(&n),
                None => self.literal_num(),
            },
            2 => {
                let ops: &[&str] = if self.o.exact {
                    &["+", "-"]
                } else if self.o.v50 {
                    &["+", "-", "*", "/", "^"]
                } else {
                    &["+", "-", "*", "/", "%", "^"]
                };
                let op = *self.s.pick(ops);
                if self.o.exact {
                    self.used("lim");
                    self.raw("lim(");
                } else {
                    self.raw("(");
                }
                self.num(d - 1);
                self.sp();
                self.raw(op);
                self.sp();
                self.num(d - 1);
                self.raw(")");
            }
            3 => {
                // no negative zero
                self.raw(if self.o.exact { "(0 - " } else { "(-" });
                self.num(d - 1);
                self.raw(")");
            }
            4 => {
                self.raw("p(");
                self.num(d - 1);
                self.raw(")");
            }
            5 => {
                self.used("num");
                self.raw("num(");
                self.any(d - 1);
                self.raw(")");
            }
            6 => {
                // never nil or false
                self.raw("(");
                self.cond(d - 1);
                self.raw(" and ");
                self.num(d - 1);
                self.raw(" or ");
                self.num(d - 1);
                self.raw(")");
            }
            7 if !self.o.v50 => {
                self.raw("#");
                self.raw("(");
                self.str(d - 1);
                self.raw(")");
            }
            _ => {
                self.raw("(\"");
                let n = self.s.below(20).to_string();
                self.raw(&n);
                self.raw("\" + ");
                self.num(d - 1);
                self.raw(")");
            }
        }
    }

    fn str(&mut self, d: u32) {
        self.fuel -= 1;
        let simple = d == 0 || self.fuel <= 0;
        match if simple { self.s.weighted(&[3, 2]) } else { self.s.weighted(&[4, 3, 3, 1, 1]) } {
            0 => {
                let t = *self.s.pick(&STRS);
                self.raw(t);
            }
            1 => match self.var_of(Ty::Str) {
                Some(n) => self.raw(&n),
                None => self.raw("\"s\""),
            },
            2 => {
                let n = self.s.us(2, 4);
                self.raw("(");
                for i in 0..n {
                    if i > 0 {
                        self.raw(" ..");
                        self.sp();
                    }
                    if self.s.chance(1, 4) && !self.o.exact {
                        self.num(0);
                    } else {
                        self.str(d - 1);
                    }
                }
                self.raw(")");
            }
            3 => {
                self.raw("p(");
                self.str(d - 1);
                self.raw(")");
            }
            _ => {
                self.raw("type(");
                self.any(d - 1);
                self.raw(")");
            }
        }
    }

    /// A condition.
    fn cond(&mut self, d: u32) {
        self.fuel -= 1;
        self.jumps += 1;
        let simple = d == 0 || self.fuel <= 0;
        match if simple { self.s.weighted(&[2, 2, 1, 0, 0, 0, 0, 1]) } else { self.s.weighted(&[4, 3, 1, 3, 3, 2, 2, 2]) } {
            7 => {
                // against a constant; `true`, `false` and `nil` end up in the table of constants
                let op = *self.s.pick(&[" == ", " ~= "]);
                let t = *self.s.pick(&["false", "nil", "true", "\"a\"", "2", "\"\""]);
                if self.s.chance(1, 4) {
                    self.raw(t);
                    self.raw(op);
                    self.any(d.saturating_sub(1));
                } else {
                    self.any(d.saturating_sub(1));
                    self.raw(op);
                    self.raw(t);
                }
            }
            0 => {
                let d = d.saturating_sub(1);
                self.num(d);
                let op = *self.s.pick(&[" < ", " <= ", " > ", " >= ", " == ", " ~= "]);
                self.raw(op);
                self.num(d);
            }
            1 => self.any(d.min(1)),
            2 => {
                let t = *self.s.pick(&["true", "false", "nil"]);
                self.raw(t);
            }
            3 => {
                self.raw("(");
                self.cond(d - 1);
                self.raw(" and");
                self.sp();
                self.cond(d - 1);
                self.raw(")");
            }
            4 => {
                self.raw("(");
                self.cond(d - 1);
                self.raw(" or");
                self.sp();
                self.cond(d - 1);
                self.raw(")");
            }
            5 => {
                self.raw("not (");
                self.cond(d - 1);
                self.raw(")");
            }
            _ => {
                self.any(d - 1);
                let op = *self.s.pick(&[" == ", " ~= "]);
                self.raw(op);
                self.any(d - 1);
            }
        }
    }

    /// Any value; no error unless `risky`.
    fn any(&mut self, d: u32) {
        self.fuel -= 1;
        let simple = d == 0 || self.fuel <= 0;
        let w = self.o.w;
        match if simple { self.s.weighted(&[2, 2, 3, 2]) } else { self.s.weighted(&[3, 2, 3, 1, 2, 2, w[0], w[3], 3, w[2], 1, 1]) } {
            0 => self.num(d.min(2)),
            1 => self.str(d.min(2)),
            2 => match self.var_of(Ty::Any) {
                Some(n) => self.raw(&n),
                None => self.raw("nil"),
            },
            3 => {
                let t = *self.s.pick(&["nil", "true", "false"]);
                self.raw(t);
            }
            4 => {
                // comparison or logic as a value
                self.raw("(");
                self.cond(d - 1);
                self.raw(")");
            }
            5 => {
                self.tab(d - 1);
            }
            6 => {
                if self.s.chance(1, 3) {
                    self.ctor(d - 1);
                } else {
                    self.index(d - 1);
                }
            }
            7 => {
                if self.s.chance(1, 3) {
                    self.function(d - 1, false);
                } else {
                    self.fun_value(d - 1);
                }
            }
            8 => self.call(d - 1),
            9 => {
                if self.fun().vararg {
                    self.varargs += 1;
                    if self.fun().old {
                        if !self.o.v50 && self.s.chance(1, 4) {
                            self.raw("arg.n");
                            return;
                        }
                        let i = self.s.range(0, 5);
                        self.raw(&format!("arg[{i}]"));
                    } else {
                        self.raw("(...)");
                    }
                } else {
                    self.raw("nil");
                }
            }
            10 => {
                self.raw("(");
                self.any(d - 1);
                let t = *self.s.pick(&[" and ", " or "]);
                self.raw(t);
                self.any(d - 1);
                self.raw(")");
            }
            _ => self.obj(d - 1),
        }
    }

    /// An expression on an object with metamethods.
    fn obj(&mut self, d: u32) {
        self.used("mk");
        self.used("mt");
        match self.s.below(8) {
            0 => {
                self.raw("(mk(1) + ");
                self.num(d.min(1));
                self.raw(")");
            }
            1 => {
                self.raw("(mk(2) .. ");
                self.str(d.min(1));
                self.raw(" .. mk(3))");
            }
            2 => {
                let t = *self.s.pick(&["(mk(1) < mk(2))", "(mk(1) <= mk(2))", "(mk(1) == mk(1))", "(mk(1) > mk(2))", "(mk(1) ~= mk(1))"]);
                self.raw(t);
            }
            3 => self.raw("(-mk(1))"),
            4 => {
                self.raw("mk(1).f");
            }
            5 => {
                self.raw("mk(1)(");
                self.any(d.min(1));
                self.raw(")");
            }
            6 => {
                self.raw("mk(4)[");
                self.str(d.min(1));
                self.raw("]");
            }
            _ => {
                self.used("obj");
                self.raw("obj:m(");
                self.args(d.min(2));
                self.raw(")");
            }
        }
    }

    fn tab_var(&mut self) -> String {
        self.var_of(Ty::Tab).unwrap_or_else(|| "g4".into())
    }

    fn tab(&mut self, d: u32) {
        if d == 0 || self.s.chance(2, 3) {
            let t = self.tab_var();
            self.raw(&t);
        } else {
            self.ctor(d);
        }
    }

    /// Something that is indexed.
    fn index(&mut self, d: u32) {
        let t = self.tab_var();
        self.raw(&t);
        match self.s.below(4) {
            0 => {
                let t = *self.s.pick(&[".k1", ".k2", ".x", ".n1", ".next_item", ".typed", ".table"]);
                self.raw(t);
            }
            1 => {
                let n = self.s.below(6);
                self.raw(&format!("[{n}]"));
            }
            2 => {
                self.raw("[");
                self.num(d.min(1));
                self.raw("]");
            }
            _ => {
                self.raw("[");
                self.str(d.min(1));
                self.raw("]");
            }
        }
    }

    fn fun_value(&mut self, d: u32) {
        match self.var_of(Ty::Fun) {
            Some(n) if d == 0 || self.s.chance(3, 4) => self.raw(&n),
            _ => {
                let t = *self.s.pick(&["emit", "ret", "type", "tostring"]);
                self.raw(t);
            }
        }
    }

    /// A call expression with any number of results.
    fn call(&mut self, d: u32) {
        match self.s.weighted(&[3, 3, 2, 2, 1]) {
            0 => {
                self.raw("p(");
                self.args(d);
                self.raw(")");
            }
            1 => match self.var_of(Ty::Fun) {
                // calls inside nested loops multiply
                Some(n) if self.fun().loops < 2 || self.s.chance(1, 3) => {
                    self.raw(&n);
                    self.raw("(");
                    self.args(d);
                    self.raw(")");
                }
                _ => {
                    self.raw("ret(");
                    self.args(d);
                    self.raw(")");
                }
            },
            2 => {
                self.raw("ret(");
                self.args(d);
                self.raw(")");
            }
            3 => {
                self.used("obj");
                self.raw("obj");
                let t = *self.s.pick(&[":m(", ":c(", ".m(obj, "]);
                self.raw(t);
                if t.ends_with(' ') {
                    self.any(d.min(1));
                } else {
                    self.args(d);
                }
                self.raw(")");
            }
            _ => {
                let t = *self.s.pick(&["tostring(", "rawequal(1, ", "select(1, ", "type("]);
                if t.starts_with("sel") && self.o.v50 {
                    self.raw("ret(");
                } else {
                    self.raw(t);
                }
                self.num(d.min(1));
                self.raw(")");
            }
        }
    }

    fn open(&mut self, d: u32) {
        if self.fun().vararg && !self.fun().old && self.s.chance(1, 2) {
            self.varargs += 1;
            self.raw("...");
        } else {
            self.call(d);
        }
    }

    fn args(&mut self, d: u32) {
        let n = self.s.weighted(&[2, 4, 4, 2, 1]);
        for i in 0..n {
            if i > 0 {
                self.raw(",");
                self.sp();
            }
            if i + 1 == n && self.s.chance(1, 4) && d > 0 {
                self.open(d - 1);
            } else {
                self.any(d.saturating_sub(1));
            }
        }
    }

    /// A table constructor.
    pub fn ctor(&mut self, d: u32) {
        self.ctors += 1;
        let small = self.funs.len() > 3 || self.fuel <= 0 || d == 0;
        let f = *self.s.pick(&self.o.flush.clone());
        let n = match if small { self.s.weighted(&[3, 5]) } else { self.s.weighted(&[2, 6, 1 + self.o.w[0], 1]) } {
            0 => 0,
            1 => self.s.us(1, 6),
            2 => {
                let m = self.s.us(1, 3) as i64 * f as i64 + self.s.range(-2, 2);
                (m.max(0) as usize).min(self.o.big)
            }
            _ => self.s.us(0, self.o.big),
        };
        self.max_ctor = self.max_ctor.max(n);
        self.ctor_n(d, n);
    }

    fn key(&mut self, d: u32) {
        match self.s.below(4) {
            0 | 1 => {
                let n = self.s.below(6);
                self.raw(&format!("k{n} = "));
            }
            2 => {
                let t = *self.s.pick(&["[\"x y\"] = ", "[true] = ", "[-1] = ", "[1000000] = ", "[0] = "]);
                self.raw(t);
            }
            _ => {
                self.raw("[");
                if d > 0 {
                    self.raw("p(");
                    self.str(d - 1);
                    self.raw(")");
                } else {
                    self.str(0);
                }
                self.raw("] = ");
            }
        }
    }

    fn ctor_n(&mut self, d: u32, n: usize) {
        self.raw("{");
        let rich = self.s.below(4);
        let keyed = self.s.chance(1, 3);
        let mut i = 0;
        let mut first = true;
        while i < n {
            if !first {
                self.raw(if i % 17 == 3 { ";" } else { "," });
                self.sp();
            }
            first = false;
            if keyed && self.s.chance(1, 5) {
                self.key(d.min(1));
                self.element(d.min(1), rich, i);
                continue;
            }
            if i + 1 == n && self.s.chance(1, 4) {
                self.open(d.min(2));
                i += 1;
                break;
            }
            self.element(d, rich, i);
            i += 1;
        }
        if keyed && self.s.chance(1, 2) {
            if !first {
                self.raw(", ");
            }
            self.key(d.min(1));
            self.element(d.min(1), rich, i);
        }
        if n > 0 && self.s.chance(1, 8) {
            self.raw(",");
        }
        self.raw("}");
    }

    fn element(&mut self, d: u32, rich: u64, i: usize) {
        // the fuel of a long constructor is bounded by keeping most elements cheap
        let cheap = self.s.below(10) >= rich * 2 + 1 || self.fuel <= 0;
        if cheap {
            match self.s.weighted(&[5, 2, 2, 1]) {
                0 => self.raw(&format!("{}", (i + 1) % 100)),
                1 => self.raw("nil"),
                2 => match self.var_of(Ty::Any) {
                    Some(n) => self.raw(&n),
                    None => self.raw("false"),
                },
                _ => match self.var_of(Ty::Num) {
                    Some(n) => self.raw(&n),
                    None => self.raw("true"),
                },
            }
            return;
        }
        self.fuel -= 1;
        match self.s.below(9) {
            0 => {
                self.raw("p(");
                self.any(d.min(1));
                self.raw(")");
            }
            1 => {
                self.raw("(");
                self.cond(d.min(2));
                self.raw(")");
            }
            2 => {
                self.cond(d.min(1));
                let t = *self.s.pick(&[" and ", " or "]);
                self.raw(t);
                self.any(d.min(1));
            }
            3 => {
                let n = self.s.us(0, 4);
                self.ctor_n(d.saturating_sub(1).min(1), n);
            }
            4 => {
                if self.funs.len() < 4 {
                    self.function(d.min(1), true);
                } else {
                    self.raw("7");
                }
            }
            5 => self.call(d.min(1)),
            6 => self.index(d.min(1)),
            7 => {
                if d > 0 && self.s.chance(1, 3) {
                    let f = *self.s.pick(&self.o.flush.clone());
                    let n = (f as i64 + self.s.range(-1, 2)).max(0) as usize;
                    let n = n.min(self.o.big);
                    self.ctors += 1;
                    self.ctor_n(d.saturating_sub(1).min(1), n);
                } else {
                    self.num(d.min(2));
                }
            }
            _ => self.str(d.min(2)),
        }
    }

    /// A function expression without the keyword `local`.
    fn function(&mut self, d: u32, tiny: bool) {
        self.raw("function");
        self.function_rest(d, tiny, None);
    }

    fn function_rest(&mut self, _d: u32, tiny: bool, own: Option<String>) {
        self.closures += 1;
        let np = self.s.weighted(&[3, 4, 3, 1]);
        let vararg = self.s.below(10) < 1 + 2 * self.o.w[2].min(4) as u64;
        let old = vararg && (self.o.v50 || self.s.chance(1, 3));
        let scope = self.scope.len();
        self.raw("(");
        let mut params = Vec::new();
        for i in 0..np {
            if i > 0 {
                self.raw(", ");
            }
            let n = if i > 0 && self.s.chance(1, 12) { params[0] } else { self.ids + 1 };
            let _ = n;
            let name = self.fresh();
            self.raw(&name);
            params.push(self.ids);
            self.scope.push(Var { name, ty: Ty::Any, assign: 1, nocap: false });
        }
        let _ = own;
        if vararg {
            if np > 0 {
                self.raw(", ");
            }
            self.raw("...");
            self.varargs += 1;
            // the table is only made in functions that do not use `...`; otherwise the name holds nil
            let ty = if old { Ty::Tab } else { Ty::Any };
            self.scope.push(Var { name: "arg".into(), ty, assign: 0, nocap: false });
        }
        self.raw(")");
        self.sp();
        self.funs.push(Fun { vararg, old, loops: 0, locals: np + 1, base: scope });
        if self.o.pad > 0 && self.s.chance(1, 4) {
            self.pad();
        }
        let n = if tiny || self.fuel <= 0 { self.s.us(0, 1) } else { self.s.us(0, 5) };
        if vararg && self.s.chance(2, 3) {
            let t = if old { "emit(arg)\n" } else { "emit(...)\n" };
            self.raw(t);
        }
        self.block_body(n, true);
        self.funs.pop();
        self.scope.truncate(scope);
        self.raw("end");
    }

    /// Statements up to the end of a block; `last` allows a closing return or break.
    fn block_body(&mut self, n: usize, last: bool) {
        let scope = self.scope.len();
        let locals = self.fun().locals;
        for _ in 0..n {
            self.statement();
            if self.fuel <= 0 {
                break;
            }
        }
        if last {
            let in_loop = self.fun().loops > 0;
            let ret = if self.funs.len() == 1 { 1 } else { 9 };
            match self.s.weighted(&[20, ret, if in_loop { 5 } else { 0 }]) {
                1 => {
                    self.raw("return ");
                    match self.s.below(4) {
                        0 => {}
                        1 => self.open(1),
                        _ => self.args(2),
                    }
                    self.nl();
                }
                2 => {
                    self.raw("break");
                    self.nl();
                }
                _ => {}
            }
        }
        self.scope.truncate(scope);
        self.fun().locals = locals;
    }

    fn declare(&mut self, ty: Ty, assign: u8) -> String {
        // shadow an existing variable sometimes
        let name = match self.scope.last() {
            Some(v) if v.assign > 0 && self.s.chance(1, 10) => v.name.clone(),
            _ => self.fresh(),
        };
        self.fun().locals += 1;
        self.scope.push(Var { name: name.clone(), ty, assign, nocap: false });
        name
    }

    fn of(&mut self, ty: Ty, d: u32) {
        match ty {
            Ty::Num => self.num(d),
            Ty::Str => self.str(d),
            Ty::Tab => {
                if self.s.chance(3, 4) {
                    self.ctor(d);
                } else {
                    self.tab(d);
                }
            }
            Ty::Fun => {
                if self.s.chance(3, 4) && self.funs.len() < 4 {
                    self.function(d, false);
                } else {
                    self.fun_value(0);
                }
            }
            Ty::Any => self.any(d),
        }
    }

    fn ty(&mut self) -> Ty {
        let w = self.o.w;
        [Ty::Num, Ty::Str, Ty::Any, Ty::Tab, Ty::Fun][self.s.weighted(&[4, 2, 4, w[0], w[3]])]
    }

    fn statement(&mut self) {
        self.fuel -= 1;
        let w = self.o.w;
        let full = self.fun().locals >= 60 + self.o.pad.min(100);
        let k = self.s.weighted(&[
            if full { 0 } else { 6 },              // 0 local
            6,                                     // 1 assignment
            8,                                     // 2 call, emit
            1,                                     // 3 do
            2 + w[5],                              // 4 if
            1 + w[5] / 2,                          // 5 while
            1 + w[5] / 2,                          // 6 repeat
            1 + w[1],                              // 7 numeric for
            1 + w[1],                              // 8 generic for
            1 + w[3],                              // 9 local function, function
            w[4],                                  // 10 try
            w[0],                                  // 11 constructor, emitted
            if self.o.probes { 2 + w[6] } else { 0 }, // 12 probes
        ]);
        match k {
            0 => {
                // the right hand side does not see the new names
                let n = self.s.weighted(&[6, 2, 1]) + 1;
                let tys: Vec<Ty> = (0..n).map(|_| if n == 1 { self.ty() } else { *self.s.pick(&[Ty::Any, Ty::Num]) }).collect();
                let before = self.out.len();
                let _ = before;
                self.raw("local ");
                let mark = self.out.len();
                // generate the values first, then splice the names in
                let mut m = n;
                if self.s.chance(1, 8) {
                    m = self.s.us(0, n + 1);
                }
                if m > 0 {
                    self.raw(" =");
                    self.sp();
                }
                for i in 0..m {
                    if i > 0 {
                        self.raw(",");
                        self.sp();
                    }
                    if i + 1 == m && m < n {
                        self.open(1);
                    } else {
                        let t = tys.get(i).copied().unwrap_or(Ty::Any);
                        self.of(t, 3);
                    }
                }
                let names: Vec<String> = (0..n)
                    .map(|i| {
                        let ty = if i < m && !(i + 1 == m && m < n) { tys[i] } else { Ty::Any };
                        self.declare(ty, 1)
                    })
                    .collect();
                let names = names.join(", ");
                self.out.insert_str(mark, &names);
            }
            1 => {
                let n = self.s.weighted(&[6, 2, 1]) + 1;
                let mut tys = Vec::new();
                for i in 0..n {
                    if i > 0 {
                        self.raw(", ");
                    }
                    let t = self.target();
                    tys.push(t);
                }
                self.raw(" = ");
                let step = tys.iter().position(|t| t.1 >= 2);
                for (i, (ty, _, name)) in tys.clone().into_iter().enumerate() {
                    if i > 0 {
                        self.raw(", ");
                    }
                    if Some(i) == step || tys[i].1 >= 2 {
                        let up = tys[i].1 == 2;
                        let k = self.s.below(3);
                        self.raw(&format!("{name} {} {k}", if up { "+" } else { "-" }));
                    } else if i + 1 == n && ty == Ty::Any && self.s.chance(1, 4) {
                        self.open(1);
                    } else if ty == Ty::Any && self.s.chance(1, 6) {
                        let t = *self.s.pick(&["false", "nil", "true"]);
                        self.raw(t);
                    } else {
                        self.of(ty, 3);
                    }
                }
            }
            2 => match self.s.weighted(&[5, 2, 1, 1, 4]) {
                4 => {
                    let f = self.var_of(Ty::Fun).unwrap_or("p".into());
                    if self.s.coin() {
                        self.raw(&format!("emit({f}("));
                        self.args(3);
                        self.raw("))");
                    } else {
                        self.raw(&format!("{f}("));
                        self.args(3);
                        self.raw(")");
                    }
                }
                0 => {
                    self.raw("emit(");
                    self.args(3);
                    self.raw(")");
                }
                1 => self.call(3),
                2 => {
                    self.used("obj");
                    self.raw("obj:m(");
                    self.args(2);
                    self.raw(")");
                }
                _ => {
                    self.raw("emit(ret(");
                    self.args(3);
                    self.raw("))");
                }
            },
            3 => {
                self.raw("do");
                self.sp();
                let n = self.s.us(0, 4);
                self.block_body(n, false);
                self.raw("end");
            }
            4 => {
                self.raw("if ");
                self.cond(3);
                self.raw(" then");
                self.sp();
                let n = self.s.us(0, 3);
                self.block_body(n, true);
                if self.s.chance(1, 4) {
                    self.raw("elseif ");
                    self.cond(2);
                    self.raw(" then");
                    self.sp();
                    let n = self.s.us(0, 2);
                    self.block_body(n, true);
                }
                if self.s.chance(1, 2) {
                    self.raw("else");
                    self.sp();
                    let n = self.s.us(0, 3);
                    self.block_body(n, true);
                }
                self.raw("end");
            }
            5 => {
                self.loops += 1;
                let scope = self.scope.len();
                let v = self.fresh();
                let n = self.s.range(0, 4);
                self.raw(&format!("local {v} = 0 while {v} < {n}"));
                self.scope.push(Var { name: v.clone(), ty: Ty::Num, assign: 0, nocap: false });
                self.fun().locals += 1;
                if self.s.coin() {
                    self.raw(" and ");
                    self.cond(2);
                }
                self.raw(" do");
                self.sp();
                self.raw(&format!("{v} = {v} + 1"));
                self.nl();
                self.body();
                self.raw("end");
                let _ = scope;
            }
            6 => {
                self.loops += 1;
                let v = self.fresh();
                let n = self.s.range(0, 3);
                self.raw(&format!("local {v} = 0 repeat"));
                self.scope.push(Var { name: v.clone(), ty: Ty::Num, assign: 0, nocap: false });
                self.fun().locals += 1;
                self.sp();
                self.raw(&format!("{v} = {v} + 1"));
                self.nl();
                self.fun().loops += 1;
                let scope = self.scope.len();
                let m = self.s.us(0, 3);
                // like block_body, but the locals stay visible in the condition
                for _ in 0..m {
                    self.statement();
                }
                self.fun().loops -= 1;
                if self.o.v50 {
                    self.scope.truncate(scope);
                }
                self.raw(&format!("until {v} > {n}"));
                if self.s.coin() {
                    self.raw(" or ");
                    self.cond(2);
                }
                self.scope.truncate(scope);
            }
            7 => self.numeric_for(),
            8 => self.generic_for(),
            9 => {
                if self.funs.len() >= 4 {
                    self.raw("emit(1)");
                } else if full || self.s.chance(1, 3) {
                    let n = self.s.below(3);
                    let name = format!("f{n}");
                    self.raw(&format!("function {name}"));
                    self.function_rest(3, false, None);
                    if !self.globals.iter().any(|g| g.0 == name) {
                        self.globals.push((name, Ty::Any));
                    }
                } else {
                    let name = self.fresh();
                    self.raw(&format!("local function {name}"));
                    self.function_rest(3, false, None);
                    self.fun().locals += 1;
                    self.scope.push(Var { name: name.clone(), ty: Ty::Fun, assign: 0, nocap: false });
                    if self.s.chance(2, 3) {
                        self.nl();
                        self.raw(&format!("emit({name}("));
                        self.args(2);
                        self.raw("))");
                    }
                }
            }
            10 => {
                self.raw("emit(try(");
                if self.funs.len() < 4 {
                    self.raw("function()");
                    self.sp();
                    let scope = self.scope.len();
                    self.funs.push(Fun { vararg: false, old: false, loops: 0, locals: 0, base: scope });
                    let n = self.s.us(0, 2);
                    self.block_body(n, false);
                    self.risky();
                    self.nl();
                    self.funs.pop();
                    self.scope.truncate(scope);
                    self.raw("end");
                } else {
                    self.raw("ret");
                }
                if self.s.coin() {
                    self.raw(", ");
                    self.any(1);
                }
                self.raw("))");
            }
            11 => {
                if full {
                    self.raw("emit(");
                    self.ctor(3);
                    self.raw(")");
                } else {
                    self.raw("local ");
                    let mark = self.out.len();
                    self.raw(" =");
                    self.sp();
                    self.ctor(3);
                    let name = self.declare(Ty::Tab, 1);
                    self.out.insert_str(mark, &name);
                    self.nl();
                    self.raw(&format!("emit({name})"));
                }
            }
            _ => {
                let t = *self.s.pick(&["loc()", "loc()", "inf()"]);
                self.raw(t);
            }
        }
        if self.s.chance(1, 12) {
            self.raw(";");
        }
        self.nl();
    }

    /// A statement that may raise an error.
    fn risky(&mut self) {
        match self.s.below(10) {
            0 => {
                self.raw("local e =");
                self.sp();
                self.any(1);
                self.raw(" +");
                self.sp();
                self.any(1);
            }
            1 => {
                self.raw("local e = ");
                self.any(1);
                self.raw(" ..");
                self.sp();
                self.any(1);
            }
            2 => {
                let t = self.var_of(Ty::Any).unwrap_or("g2".into());
                self.raw(&format!("emit({t}.x"));
                self.raw(",");
                self.sp();
                self.any(1);
                self.raw(")");
            }
            3 => {
                let t = self.var_of(Ty::Any).unwrap_or("g2".into());
                self.raw(&format!("{t}("));
                self.args(2);
                self.raw(")");
            }
            4 => {
                self.raw("if ");
                self.any(1);
                self.raw(" <");
                self.sp();
                self.any(1);
                self.raw(" then emit(1) end");
            }
            5 => {
                self.raw("error(");
                self.any(1);
                let t = *self.s.pick(&[")", ", 1)", ", 2)"]);
                self.raw(t);
            }
            6 => {
                self.raw("emit(-g2)");
            }
            7 => {
                let t = self.var_of(Ty::Any).unwrap_or("g2".into());
                self.raw(&format!("{t}.x"));
                self.raw(" =");
                self.sp();
                self.any(1);
            }
            8 => {
                // limit and step are checked at one instruction that has the line of the header
                self.noline += 1;
                let v = self.fresh();
                let init = self.s.pick(&["1", "\"1\"", "2"]).to_string();
                self.raw(&format!("for {v} = {init}, "));
                self.any(0);
                if self.s.coin() {
                    self.raw(", ");
                    let t = *self.s.pick(&["1", "2", "\"2\"", "0.5", "-1", "\"-1\""]);
                    let t = if self.o.exact && t == "0.5" { "3" } else { t };
                    self.raw(t);
                }
                self.raw(&format!(" do emit({v}) if {v} > 5 or {v} < -5 then break end end"));
                self.noline -= 1;
            }
            _ => {
                self.raw("return ");
                let t = self.var_of(Ty::Any).unwrap_or("g2".into());
                self.raw(&format!("{t}("));
                self.args(1);
                self.raw(")");
            }
        }
    }

    /// An assignment target: its type, how it may change, and its text.
    fn target(&mut self) -> (Ty, u8, String) {
        let k = self.s.weighted(&[5, 2, 3]);
        match k {
            0 => {
                let v = self.vars(|v| v.assign > 0);
                if !v.is_empty() {
                    let i = v[self.s.below(v.len() as u64) as usize];
                    let var = self.scope[i].clone();
                    self.raw(&var.name);
                    return (var.ty, var.assign, var.name);
                }
                self.raw("g2");
                (Ty::Any, 1, "g2".into())
            }
            1 => {
                let (n, t) = self.s.pick(&[("g1", Ty::Num), ("g2", Ty::Any), ("g3", Ty::Str), ("g4", Ty::Tab)]).to_owned();
                self.raw(n);
                (t, 1, n.into())
            }
            _ => {
                self.index(1);
                (Ty::Any, 1, String::new())
            }
        }
    }

    fn body(&mut self) {
        self.fun().loops += 1;
        let n = if self.fuel <= 0 { 0 } else { self.s.us(0, 3) };
        self.block_body(n, true);
        self.fun().loops -= 1;
    }

    fn numeric_for(&mut self) {
        self.loops += 1;
        self.raw("for ");
        let mark = self.out.len();
        self.raw(" =");
        self.noline += 1;
        self.raw(" ");
        let down = self.s.chance(1, 3);
        let a = self.s.range(-2, 4);
        let span = self.s.range(-1, 4);
        let frac = !self.o.exact && self.s.chance(1, 5);
        let (a, b) = if down { (a, a - span) } else { (a, a + span) };
        match self.s.below(5) {
            0 => self.raw(&format!("p({a})")),
            1 => self.raw(&format!("\"{a}\"")),
            _ => self.raw(&format!("{a}")),
        }
        self.raw(",");
        self.raw(" ");
        match self.s.below(5) {
            0 => self.raw(&format!("p({b})")),
            1 => self.raw(&format!("\"{b}\"")),
            _ => self.raw(&format!("{b}")),
        }
        if down || frac || self.s.chance(1, 4) {
            let k = if frac { "0.75".to_string() } else { self.s.range(1, 3).to_string() };
            self.raw(", ");
            let t = format!("{}{k}", if down { "-" } else { "" });
            match self.s.below(4) {
                0 => self.raw(&format!("p({t})")),
                1 => self.raw(&format!("\"{t}\"")),
                _ => self.raw(&t),
            }
        }
        self.noline -= 1;
        self.raw(" do");
        self.sp();
        let scope = self.scope.len();
        let assign = if self.s.chance(1, 3) {
            if down {
                3
            } else {
                2
            }
        } else {
            0
        };
        let name = self.declare(Ty::Num, assign);
        self.fun().locals += 3;
        self.out.insert_str(mark, &name);
        if self.s.coin() {
            self.raw(&format!("emit({name})"));
            self.nl();
        }
        if self.s.chance(1, 6) && self.funs.len() < 4 {
            // capture the loop variable
            self.closures += 1;
            self.raw(&format!("g2 = function() return {name} end"));
            self.nl();
        }
        self.body();
        self.raw("end");
        self.scope.truncate(scope);
    }

    fn generic_for(&mut self) {
        self.loops += 1;
        let n = self.s.weighted(&[3, 4, 2, 1, 1]) + 1;
        self.raw("for ");
        let mark = self.out.len();
        self.raw(" in ");
        let mut control = 0;
        match self.s.weighted(&[3, 3, 2, 3, 2, if self.o.v50 { 4 } else { 0 }, 1]) {
            0 => {
                self.raw("pairs(");
                self.tab(2);
                self.raw(")");
            }
            1 => {
                self.raw("ipairs(");
                self.tab(2);
                self.raw(")");
            }
            2 => {
                self.raw("next,");
                self.sp();
                self.tab(2);
            }
            3 => {
                self.used("iter");
                let k = self.s.below(4);
                self.raw(&format!("iter({k})"));
                control = 1;
            }
            4 => {
                self.used("walk");
                let k = self.s.below(4);
                if self.s.chance(1, 3) {
                    self.raw(&format!("ret(walk, {k}, 0, p(9))"));
                } else {
                    self.raw(&format!("walk, {k}, 0"));
                }
            }
            5 => {
                self.tab(2);
                if self.s.chance(1, 4) {
                    self.raw(", p(8)");
                }
            }
            _ => {
                self.used("iter");
                self.raw("ret(iter(2), 5,");
                self.sp();
                self.any(1);
                self.raw(")");
                control = 1;
            }
        }
        self.raw(" do");
        self.sp();
        let scope = self.scope.len();
        let mut names = Vec::new();
        for i in 0..n {
            let name = self.fresh();
            self.fun().locals += 1;
            self.scope.push(Var { name: name.clone(), ty: Ty::Any, assign: if i == 0 { control } else { 1 }, nocap: n == 1 && self.o.v50 });
            names.push(name);
        }
        self.fun().locals += 3;
        self.out.insert_str(mark, &names.join(", "));
        if self.s.chance(2, 3) {
            self.raw(&format!("emit({})", names.join(", ")));
            self.nl();
        }
        if self.s.chance(1, 6) && self.funs.len() < 4 && (n > 1 || !self.o.v50) {
            self.closures += 1;
            let k = self.s.below(names.len() as u64) as usize;
            let name = names[k].clone();
            self.raw(&format!("g2 = function() return {name} end"));
            self.nl();
        }
        self.body();
        self.raw("end");
        self.scope.truncate(scope);
    }
}
