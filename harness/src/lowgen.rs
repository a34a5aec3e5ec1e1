//! Generator of executable byte code: functions no compiler would write, with arbitrary control flow
//! between well-defined points, whose every observable is deterministic.

use crate::engine::Src;
use crate::gen::Lim;
use crate::model::*;
use crate::props::Setup;

#[derive(Default)]
pub struct Low {
    pub main: Proto,
    pub jumps: usize,
    pub backward: usize,
    /// Instructions that conversion replaces.
    pub rewritten: usize,
    pub longest: i64,
    pub ctors: usize,
    pub loops: usize,
}

/// Weights of the atoms.
#[derive(Clone)]
pub struct LowOpt {
    pub atoms: usize,
    pub cond: u32,
    pub numeric_for: u32,
    pub generic_for: u32,
    pub ctor: u32,
    pub closure: u32,
    pub pad: u32,
    pub max_pad: usize,
    pub loc: bool,
}

struct Label {
    pc: usize,
    path: Vec<usize>,
}

enum Goal {
    Label(usize),
    Forward,
    Backward,
    Any,
}

struct Jump {
    pc: usize,
    path: Vec<usize>,
    goal: Goal,
}

struct Fun {
    code: Vec<Ins>,
    lines: Vec<i64>,
    line: i64,
    consts: Vec<Const>,
    protos: Vec<Proto>,
    labels: Vec<Label>,
    jumps: Vec<Jump>,
    path: Vec<usize>,
    next_path: usize,
    /// Program counters that FORLOOP instructions jump to.
    for_targets: Vec<usize>,
    /// Labels that are not reached from the instruction in front of them.
    landings: Vec<usize>,
    top: u64,
}

struct G<'a> {
    s: &'a mut Src,
    ver: Ver,
    fpf: u64,
    integral: bool,
    kidx: u64,
    bias: i64,
    o: LowOpt,
    f: Fun,
    nums: Vec<u64>,
    bools: Vec<u64>,
    probes: Vec<u64>,
    loop_zone: u64,
    tfor_zone: u64,
    temp: u64,
    nups: u8,
    vararg: bool,
    tag: i64,
    depth_for: u64,
    depth_tfor: u64,
    out: Low,
}

const FOR_DEPTH: u64 = 2;
const FOR_SIZE: u64 = 4;
const TFOR_DEPTH: u64 = 2;
const TFOR_SIZE: u64 = 8;

impl Fun {
    fn new() -> Fun {
        Fun {
            code: vec![],
            lines: vec![],
            line: 1,
            consts: vec![],
            protos: vec![],
            labels: vec![],
            jumps: vec![],
            path: vec![],
            next_path: 0,
            for_targets: vec![],
            landings: vec![],
            top: 0,
        }
    }
}

impl G<'_> {
    fn op(&self, name: &str) -> u8 {
        match self.ver {
            Ver::V50 => o50(name),
            Ver::V51 => o51(name),
        }
    }
    fn v50(&self) -> bool {
        self.ver == Ver::V50
    }
    fn push(&mut self, i: Ins) {
        self.f.code.push(i);
        let line = self.f.line;
        self.f.lines.push(line);
    }
    fn abc(&mut self, name: &str, a: u64, b: u64, c: u64) {
        let op = self.op(name);
        self.push(Ins::abc(op, a, b, c));
    }
    fn abx(&mut self, name: &str, a: u64, bx: u64) {
        let op = self.op(name);
        self.push(Ins::abx(op, a, bx));
    }
    fn pc(&self) -> usize {
        self.f.code.len()
    }
    fn jump(&mut self, name: &str, a: u64, goal: Goal) {
        let op = self.op(name);
        let (pc, path) = (self.pc(), self.f.path.clone());
        self.f.jumps.push(Jump { pc, path, goal });
        self.push(Ins::sbx(op, a, 0));
    }
    fn label(&mut self) -> usize {
        let (pc, path) = (self.pc(), self.f.path.clone());
        self.f.labels.push(Label { pc, path });
        self.f.labels.len() - 1
    }
    /// A label nothing else jumps to, placed later.
    fn hidden(&mut self) -> usize {
        self.f.labels.push(Label { pc: usize::MAX, path: vec![usize::MAX] });
        self.f.labels.len() - 1
    }
    fn place(&mut self, label: usize) {
        self.f.labels[label].pc = self.pc();
    }
    fn touch(&mut self, r: u64) {
        self.f.top = self.f.top.max(r + 1);
    }

    fn number(&self, v: i64) -> Const {
        if self.integral {
            Const::Num(Num::I(v))
        } else {
            Const::Num(Num::F(v as f64 / 2.0))
        }
    }
    fn k(&mut self, c: Const) -> u64 {
        match self.f.consts.iter().position(|x| *x == c) {
            Some(i) => i as u64,
            None => {
                if self.s.chance(1, 10) {
                    // a constant nothing refers to, of a kind the conversion may look for
                    let v = match self.s.below(9) {
                        0 => Const::Nil,
                        1 | 2 => Const::Bool(false),
                        3 => Const::Bool(true),
                        4 => Const::Str(lstr(b"")),
                        5 => Const::Str(lstr(b"type")),
                        6 | 7 => {
                            // names that nearly are one the conversion looks for
                            let near: [&[u8]; 10] = [b"types", b"typ", b"next_item", b"nex", b"tables", b"tabl", b"Type", b"next\0", b"_next", b"table "];
                            Const::Str(lstr(*self.s.pick(&near)))
                        }
                        _ => Const::Str(lstr(b"next")),
                    };
                    self.f.consts.push(v);
                }
                self.f.consts.push(c);
                self.f.consts.len() as u64 - 1
            }
        }
    }
    fn kstr(&mut self, s: &str) -> u64 {
        self.k(Const::Str(lstr(s.as_bytes())))
    }
    fn small(&mut self) -> i64 {
        self.s.range(-3, 9)
    }
    fn loadk(&mut self, a: u64, v: i64) {
        let c = self.number(v);
        let k = self.k(c);
        self.abx("LOADK", a, k);
    }
    fn num(&mut self) -> u64 {
        *self.s.pick(&self.nums)
    }
    /// A numeric register or constant.
    fn rk(&mut self) -> Rk {
        if self.s.coin() {
            let v = self.small();
            let c = self.number(v);
            let i = self.k(c);
            if i <= self.kidx {
                return k(i);
            }
        }
        r(self.num())
    }
    fn one(&mut self) -> Rk {
        let c = self.number(1);
        let i = self.k(c);
        if i <= self.kidx {
            k(i)
        } else {
            r(self.num())
        }
    }
    fn new_line(&mut self) {
        match self.s.weighted(&[4, 3, 1]) {
            0 => {}
            1 => self.f.line += 1,
            _ => self.f.line = self.s.range(1, 90),
        }
    }

    /// emit(tag, registers...)
    fn probe(&mut self, regs: &[u64]) {
        let t = self.temp;
        let e = self.kstr("emit");
        self.abx("GETGLOBAL", t, e);
        self.tag += 1;
        let tag = self.tag % 40;
        self.loadk(t + 1, tag);
        for (n, &x) in regs.iter().enumerate() {
            self.abc("MOVE", t + 2 + n as u64, x, 0);
        }
        self.touch(t + 2 + regs.len() as u64);
        self.abc("CALL", t, regs.len() as u64 + 2, 1);
    }

    fn probe_some(&mut self) {
        let all = self.probes.clone();
        let n = self.s.us(0, 3.min(all.len()));
        let regs: Vec<u64> = (0..n).map(|_| *self.s.pick(&all)).collect();
        self.probe(&regs);
        if self.o.loc && self.s.chance(1, 3) {
            let t = self.temp;
            let n = *self.s.pick(&["loc", "inf"]);
            let g = self.kstr(n);
            self.abx("GETGLOBAL", t, g);
            self.abc("CALL", t, 1, 1);
        }
    }

    fn numop(&mut self) {
        let a = self.num();
        match self.s.below(5) {
            0 => {
                let v = self.small();
                self.loadk(a, v);
            }
            1 => {
                let b = self.num();
                self.abc("MOVE", a, b, 0);
            }
            2 | 3 => {
                let name = *self.s.pick(&["ADD", "SUB"]);
                let one = self.one();
                let one = if one.k { one } else { r(a) };
                if one.k {
                    let op = self.op(name);
                    self.push(Ins::rk(op, a, r(a), one));
                } else {
                    self.loadk(a, 3);
                }
            }
            _ => {
                let b = self.num();
                self.abc("UNM", a, b, 0);
            }
        }
    }

    fn boolop(&mut self) {
        let a = *self.s.pick(&self.bools);
        match self.s.below(4) {
            0 => {
                let b = self.s.below(2);
                self.abc("LOADBOOL", a, b, 0);
            }
            1 => self.abc("LOADNIL", a, a, 0),
            2 => {
                let b = *self.s.pick(&self.bools);
                self.abc("NOT", a, b, 0);
            }
            _ => {
                let b = *self.s.pick(&self.bools);
                self.abc("MOVE", a, b, 0);
            }
        }
    }

    /// A comparison or test; the following instruction has to be a jump.
    fn condition(&mut self) {
        let a = self.s.below(2);
        match self.s.below(4) {
            0..=2 => {
                let name = *self.s.pick(&["EQ", "LT", "LE"]);
                let op = self.op(name);
                let (b, c) = (self.rk(), self.rk());
                self.push(Ins::rk(op, a, b, c));
            }
            _ => {
                let (x, y) = (*self.s.pick(&self.bools), *self.s.pick(&self.bools));
                if self.v50() {
                    self.abc("TEST", x, y, a);
                } else if self.s.coin() {
                    self.abc("TEST", x, 0, a);
                } else {
                    self.abc("TESTSET", x, y, a);
                }
            }
        }
    }

    fn goal(&mut self) -> Goal {
        match self.s.weighted(&[6, 1]) {
            0 => Goal::Forward,
            _ => Goal::Any,
        }
    }

    fn branch(&mut self) {
        match self.s.weighted(&[5, 2, 3]) {
            0 => {
                self.condition();
                let g = self.goal();
                self.jump("JMP", 0, g);
            }
            1 => {
                let g = self.goal();
                self.jump("JMP", 0, g);
            }
            _ => {
                // a backward jump that is taken a limited number of times
                let f = self.loop_zone + FOR_SIZE * FOR_DEPTH;
                let one = self.one();
                if !one.k {
                    return self.numop();
                }
                let (sub, lt) = (self.op("SUB"), self.op("LT"));
                self.push(Ins::rk(sub, f, r(f), one));
                self.push(Ins::rk(lt, 1, one, r(f)));
                self.jump("JMP", 0, Goal::Backward);
            }
        }
    }

    fn numeric_for(&mut self, atoms: usize) {
        self.out.loops += 1;
        let a = self.loop_zone + FOR_SIZE * self.depth_for;
        let start = self.s.range(-2, 4);
        let steps = self.s.range(-1, 5);
        let step = *self.s.pick(&[2i64, 1, -1, -2, 3, 1]);
        self.loadk(a, start);
        if self.s.chance(1, 4) {
            let x = self.num();
            self.abc("MOVE", a + 1, x, 0);
        } else {
            let extra = self.s.below(2) as i64;
            self.loadk(a + 1, start + steps * step + extra);
        }
        self.loadk(a + 2, step);
        let l = self.hidden();
        if self.v50() {
            let op = self.op("SUB");
            self.push(Ins::rk(op, a, r(a), r(a + 2)));
            self.jump("JMP", 0, Goal::Label(l));
        } else {
            self.jump("FORPREP", a, Goal::Label(l));
        }
        let body = self.hidden();
        self.place(body);
        let pc = self.pc();
        self.f.for_targets.push(pc);
        if atoms > 0 {
            let i = if self.v50() { a } else { a + 3 };
            // the body may be entered from elsewhere, so that the variable of 5.1 is not shown there
            if self.v50() || self.s.chance(1, 3) {
                self.probe(&[i]);
            }
            self.depth_for += 1;
            self.region(atoms);
            self.depth_for -= 1;
        }
        self.place(l);
        self.jump("FORLOOP", a, Goal::Label(body));
        self.out.rewritten += self.v50() as usize;
    }

    /// A point that code does not fall into, like the body of a loop.
    fn landing(&mut self) {
        self.jump("JMP", 0, Goal::Forward);
        let l = self.label();
        self.f.landings.push(l);
        self.numop();
    }

    /// FORLOOP without preparation, back to some earlier point.
    fn raw_forloop(&mut self) {
        let first = self.nums[0];
        let n = self.nums.len() as u64;
        if n < 4 {
            return self.numop();
        }
        let a = first + self.s.below(n - 3);
        let path = self.f.path.clone();
        let eligible: Vec<usize> = self
            .f
            .landings
            .iter()
            .copied()
            .filter(|&i| {
                let l = &self.f.labels[i];
                l.pc < self.pc() && path.starts_with(&l.path) && !self.f.for_targets.contains(&l.pc) && self.pc() - l.pc < self.bias as usize
            })
            .collect();
        if eligible.is_empty() {
            return self.landing();
        }
        let l = *self.s.pick(&eligible);
        let pc = self.f.labels[l].pc;
        self.f.for_targets.push(pc);
        self.jump("FORLOOP", a, Goal::Label(l));
        self.out.loops += 1;
        self.out.rewritten += self.v50() as usize;
    }

    fn iterator(&mut self) -> u64 {
        // function(s, i) i = i + 1; if s < i then return nil end; return i, s, ... end
        let sub = |n: &str, ver: Ver| match ver {
            Ver::V50 => o50(n),
            Ver::V51 => o51(n),
        };
        let v = self.ver;
        let one = self.number(1);
        let n = self.s.us(1, 4) as u64;
        let mut code = vec![
            Ins::abx(sub("LOADK", v), 2, 0),
            Ins::rk(sub("ADD", v), 1, r(1), r(2)),
            Ins::rk(sub("LT", v), 1, r(0), r(1)),
            Ins::sbx(sub("JMP", v), 0, n as i64 + 1),
        ];
        for i in 0..n {
            code.push(Ins::abc(sub("MOVE", v), 2 + i, if i == 0 { 1 } else { i % 2 }, 0));
        }
        code.push(Ins::abc(sub("RETURN", v), 2, n + 1, 0));
        code.push(Ins::abc(sub("LOADNIL", v), 2, 2, 0));
        code.push(Ins::abc(sub("RETURN", v), 2, 2, 0));
        code.push(Ins::abc(sub("RETURN", v), 0, 1, 0));
        let p = Proto { nparams: 2, maxstack: 8, lines: (0..code.len() as i64).map(|i| 100 + i).collect(), code, consts: vec![one], source: lstr(b"@low"), ..Default::default() };
        self.f.protos.push(p);
        self.f.protos.len() as u64 - 1
    }

    fn generic_for(&mut self, atoms: usize) {
        self.out.loops += 1;
        let a = self.tfor_zone + TFOR_SIZE * self.depth_tfor;
        let vars = self.s.us(1, 4) as u64;
        self.touch(a + 2 * vars + 8);
        let mode = self.s.below(if self.v50() { 3 } else { 2 });
        match mode {
            0 => {
                let p = self.iterator();
                self.abx("CLOSURE", a, p);
                let n = self.s.range(0, 8);
                self.loadk(a + 1, n);
                self.loadk(a + 2, 0);
            }
            _ => {
                let t = if mode == 1 { a + 1 } else { a };
                if mode == 1 {
                    let g = self.kstr("next");
                    self.abx("GETGLOBAL", a, g);
                }
                self.abc("NEWTABLE", t, 0, 0);
                let n = self.s.us(0, 3);
                for i in 0..n {
                    let (x, y) = (self.number(2 * i as i64 + 2), self.num());
                    let key = self.k(x);
                    self.abx("LOADK", self.temp, key);
                    let op = self.op("SETTABLE");
                    self.push(Ins::rk(op, t, r(self.temp), r(y)));
                }
                self.touch(self.temp);
                if mode == 1 {
                    self.abc("LOADNIL", a + 2, a + 2, 0);
                } else {
                    // what TFORPREP leaves alone
                    self.abc("LOADNIL", a + 1, a + 2, 0);
                }
            }
        }
        let id = self.f.next_path;
        self.f.next_path += 1;
        let l = self.hidden();
        self.f.path.push(id);
        if self.v50() {
            self.jump("TFORPREP", a, Goal::Label(l));
            self.out.rewritten += 1;
        } else {
            self.jump("JMP", 0, Goal::Label(l));
        }
        let body = self.hidden();
        self.place(body);
        if atoms > 0 || self.s.coin() {
            let first = if self.v50() { a + 2 } else { a + 3 };
            let shown: Vec<u64> = (0..vars.min(3)).map(|i| first + i).collect();
            self.probe(&shown);
            self.depth_tfor += 1;
            self.region(atoms);
            self.depth_tfor -= 1;
        }
        self.place(l);
        self.new_line();
        self.abc("TFORLOOP", a, 0, if self.v50() { vars - 1 } else { vars });
        self.out.rewritten += (self.v50() && vars > 1) as usize;
        self.jump("JMP", 0, Goal::Label(body));
        self.f.path.pop();
    }

    /// Evaluates something into register `t`, possibly with jumps inside.
    fn element(&mut self, t: u64, nest: usize) {
        self.touch(t + 5);
        match self.s.below(if nest > 0 { 9 } else { 8 }) {
            0 | 1 => {
                self.tag += 1;
                let tag = self.tag % 40;
                self.loadk(t, tag)
            }
            2 => {
                let x = self.num();
                self.abc("MOVE", t, x, 0);
            }
            3 => {
                // comparison as a value
                let a = self.s.below(2);
                let name = *self.s.pick(&["EQ", "LT", "LE"]);
                let op = self.op(name);
                let (b, c) = (self.rk(), self.rk());
                self.push(Ins::rk(op, a, b, c));
                let op = self.op("JMP");
                self.push(Ins::sbx(op, 0, 1));
                self.abc("LOADBOOL", t, 0, 1);
                self.abc("LOADBOOL", t, 1, 0);
            }
            4 => {
                // x and y
                let x = *self.s.pick(&self.bools);
                let (n, y) = (self.s.below(2), self.num());
                if self.v50() {
                    self.abc("TEST", t, x, n);
                } else {
                    self.abc("TESTSET", t, x, n);
                }
                let op = self.op("JMP");
                self.push(Ins::sbx(op, 0, 1));
                self.abc("MOVE", t, y, 0);
            }
            5 => {
                let g = self.kstr("ret");
                self.abx("GETGLOBAL", t, g);
                let v = self.small();
                self.loadk(t + 1, v);
                self.abc("CALL", t, 2, 2);
            }
            6 => {
                // both branches of a condition
                self.condition_without_set();
                let op = self.op("JMP");
                self.push(Ins::sbx(op, 0, 2));
                self.loadk(t, 5);
                self.push(Ins::sbx(op, 0, 1));
                self.loadk(t, 7);
            }
            7 => self.abc("LOADNIL", t, t, 0),
            _ => self.constructor(t, 3, nest - 1),
        }
    }

    fn condition_without_set(&mut self) {
        let name = *self.s.pick(&["EQ", "LT", "LE"]);
        let op = self.op(name);
        let (a, b, c) = (self.s.below(2), self.rk(), self.rk());
        self.push(Ins::rk(op, a, b, c));
    }

    fn constructor(&mut self, t: u64, most: usize, nest: usize) {
        self.out.ctors += 1;
        let n = match self.s.weighted(&[3, 2]) {
            0 => self.s.us(1, most),
            _ => ((self.fpf as usize) * self.s.us(1, 2) + self.s.us(0, 2)).clamp(2, most + 1) - 1,
        } as u64;
        self.abc("NEWTABLE", t, 0, 0);
        let open = self.s.chance(1, 4);
        let mut i = 0;
        while i < n {
            let slot = t + 1 + i % self.fpf;
            self.touch(slot + 4);
            if open && i + 1 == n && self.vararg && !self.v50() && self.s.coin() {
                self.abc("VARARG", slot, 0, 0);
                self.abc("SETLIST", t, 0, i / self.fpf + 1);
                self.out.rewritten += 1;
                return;
            }
            if open && i + 1 == n {
                let g = self.kstr("ret");
                self.abx("GETGLOBAL", slot, g);
                let count = self.s.below(4);
                for x in 0..count {
                    self.loadk(slot + 1 + x, x as i64);
                }
                self.touch(slot + 1 + count);
                self.abc("CALL", slot, count + 1, 0);
                if self.v50() {
                    self.abx("SETLISTO", t, i);
                } else {
                    self.abc("SETLIST", t, 0, i / self.fpf + 1);
                }
                self.out.rewritten += 1;
                return;
            }
            // several nil elements are one instruction, as compilers do it
            let room = (self.fpf - i % self.fpf).min(n - i).min(if open { (n - i).saturating_sub(1).max(1) } else { 9 });
            if room > 1 && self.s.chance(1, 8) {
                let count = self.s.range(2, room as i64) as u64;
                self.touch(slot + count);
                self.abc("LOADNIL", slot, slot + count - 1, 0);
                i += count;
            } else {
                self.element(slot, nest);
                i += 1;
            }
            if i % self.fpf == 0 || i == n {
                let last = i - 1;
                if self.v50() {
                    self.abx("SETLIST", t, last);
                } else {
                    self.abc("SETLIST", t, last % self.fpf + 1, last / self.fpf + 1);
                }
                self.out.rewritten += 1;
            }
        }
    }

    fn constructor_atom(&mut self) {
        let t = self.temp;
        let most = if self.s.chance(1, 6) { 40 } else { 12 };
        let nest = self.s.us(0, 2);
        let t2 = t + 2;
        let e = self.kstr("emit");
        self.abx("GETGLOBAL", t, e);
        self.tag += 1;
        let tag = self.tag % 40;
        self.loadk(t + 1, tag);
        self.constructor(t2, most, nest);
        self.abc("CALL", t, 3, 1);
    }

    fn closure(&mut self) {
        let t = self.temp;
        let ver = self.ver;
        let op = |n: &str| match ver {
            Ver::V50 => o50(n),
            Ver::V51 => o51(n),
        };
        let n = self.s.us(1, 3);
        let mut code = vec![];
        for u in 0..n as u64 {
            code.push(Ins::abc(op("GETUPVAL"), 0, u, 0));
            code.push(Ins::abx(op("LOADK"), 1, 1));
            code.push(Ins::rk(op(if u == 0 { "ADD" } else { "SUB" }), 0, r(0), r(1)));
            code.push(Ins::abc(op("SETUPVAL"), 0, u, 0));
            code.push(Ins::abx(op("GETGLOBAL"), 1, 0));
            code.push(Ins::abc(op("MOVE"), 2, 0, 0));
            code.push(Ins::abc(op("CALL"), 1, 2, 1));
        }
        code.push(Ins::abc(op("RETURN"), 0, 2, 0));
        code.push(Ins::abc(op("RETURN"), 0, 1, 0));
        let p = Proto {
            source: lstr(b"@low"),
            nups: n as u8,
            maxstack: 4,
            lines: (0..code.len() as i64).map(|i| 200 + i).collect(),
            code,
            consts: vec![Const::Str(lstr(b"emit")), self.number(1)],
            upnames: vec![],
            ..Default::default()
        };
        self.f.protos.push(p);
        let index = self.f.protos.len() as u64 - 1;
        self.abx("CLOSURE", t, index);
        let first = self.nums[0];
        for _ in 0..n {
            if self.nups > 0 && self.s.chance(1, 4) {
                self.abc("GETUPVAL", 0, 0, 0);
            } else {
                let x = self.num();
                self.abc("MOVE", 0, x, 0);
            }
        }
        self.touch(t + 4);
        if self.s.coin() {
            let g = self.kstr("saved");
            self.abx("SETGLOBAL", t, g);
        }
        if self.s.coin() {
            self.abc("CALL", t, 1, 1);
        }
        if self.s.coin() {
            let x = first + self.s.below(self.nums.len() as u64);
            self.abc("CLOSE", x, 0, 0);
        }
    }

    fn leave(&mut self) {
        let t = self.temp;
        if self.s.coin() {
            let n = self.s.us(0, 3) as u64;
            for i in 0..n {
                let x = *self.s.pick(&self.probes);
                self.abc("MOVE", t + i, x, 0);
            }
            self.touch(t + n);
            self.abc("RETURN", t, n + 1, 0);
        } else {
            let g = self.kstr("ret");
            self.abx("GETGLOBAL", t, g);
            let x = self.num();
            self.abc("MOVE", t + 1, x, 0);
            self.touch(t + 2);
            self.abc("TAILCALL", t, 2, 0);
            self.abc("RETURN", t, 0, 0);
        }
    }

    fn atom(&mut self, inner: usize) {
        let t = self.temp;
        let o = &self.o;
        let nested_for = if self.depth_for < FOR_DEPTH { o.numeric_for } else { 0 };
        let nested_tfor = if self.depth_tfor < TFOR_DEPTH { o.generic_for } else { 0 };
        let w = [4, 2, 6, o.cond, nested_for, nested_tfor, o.ctor, o.closure, o.pad, 1, 1, 2, 2, o.numeric_for, (o.numeric_for + 1) / 2];
        match self.s.weighted(&w) {
            0 => self.numop(),
            1 => self.boolop(),
            2 => self.probe_some(),
            3 => self.branch(),
            4 => self.numeric_for(inner),
            5 => self.generic_for(inner),
            6 => self.constructor_atom(),
            7 => self.closure(),
            8 => {
                let w = if self.o.pad > 4 { [1, 2] } else { [6, 1] };
                let n = match self.s.weighted(&w) {
                    0 => self.s.us(1, 20),
                    _ => self.s.us(20, self.o.max_pad.max(20)),
                };
                let x = self.num();
                for _ in 0..n {
                    self.abc("MOVE", x, x, 0);
                }
            }
            9 => self.leave(),
            10 => {
                let b = *self.s.pick(&self.bools);
                let v = self.s.below(2);
                self.abc("LOADBOOL", b, v, 1);
                let x = self.num();
                let y = self.small();
                self.loadk(x, y);
                // a skip over the last instruction has to stay inside
                let x = self.num();
                self.abc("MOVE", x, x, 0);
            }
            11 => {
                let g = self.kstr("glob");
                if self.s.coin() {
                    let x = self.num();
                    self.abx("SETGLOBAL", x, g);
                } else {
                    let x = self.num();
                    self.abx("GETGLOBAL", x, g);
                }
            }
            12 => {
                if self.nups > 0 && self.s.coin() {
                    let x = self.num();
                    if self.s.coin() {
                        self.abc("GETUPVAL", x, 0, 0);
                    } else {
                        self.abc("SETUPVAL", x, 0, 0);
                    }
                } else {
                    let g = self.kstr("saved");
                    self.abx("GETGLOBAL", t, g);
                    self.touch(t);
                    self.abc("CALL", t, 1, 1);
                }
            }
            13 => self.raw_forloop(),
            _ => self.landing(),
        }
    }

    fn region(&mut self, atoms: usize) {
        let mut left = atoms;
        while left > 0 {
            self.label();
            self.new_line();
            let inner = self.s.us(0, left / 2);
            self.atom(inner);
            left -= 1 + inner.min(left - 1) / 2;
        }
    }

    fn resolve(&mut self) {
        let jumps = std::mem::take(&mut self.f.jumps);
        for j in jumps {
            let target = match j.goal {
                Goal::Label(l) => self.f.labels[l].pc,
                goal => {
                    let eligible: Vec<usize> = self
                        .f
                        .labels
                        .iter()
                        .filter(|l| {
                            j.path.starts_with(&l.path)
                                && match goal {
                                    Goal::Forward => l.pc > j.pc,
                                    Goal::Backward => l.pc <= j.pc,
                                    _ => true,
                                }
                                && (l.pc as i64 - j.pc as i64).abs() < self.bias
                        })
                        .map(|l| l.pc)
                        .collect();
                    if eligible.is_empty() {
                        j.pc + 1
                    } else {
                        // near ones are simpler
                        match goal {
                            Goal::Backward => eligible[eligible.len() - 1 - self.s.below(eligible.len() as u64) as usize],
                            _ => eligible[self.s.below(eligible.len() as u64) as usize],
                        }
                    }
                }
            };
            let d = target as i64 - j.pc as i64 - 1;
            self.f.code[j.pc].args = Args::Asbx(d);
            self.out.jumps += 1;
            self.out.backward += (d < 0) as usize;
            self.out.longest = self.out.longest.max(d.abs());
        }
    }
}

/// A chunk whose main function calls a generated function a few times.
pub fn low(s: &mut Src, st: &Setup, o: &LowOpt) -> Low {
    let lim = Lim::both(st.ver, &st.fin, st.cin(), &st.fout, &st.sett.out);
    let ver = st.ver;
    let nparams = s.below(4);
    let vararg = s.chance(1, 3);
    let nups = s.below(2) as u8;
    let bias = st.cin().lay.bias();
    let mut g = G {
        s,
        ver,
        fpf: st.cin().fpf,
        integral: st.fin.is_number_integral,
        kidx: if lim.kidx == u64::MAX { 0 } else { lim.kidx },
        bias,
        o: o.clone(),
        f: Fun::new(),
        nums: vec![],
        bools: vec![],
        probes: vec![],
        loop_zone: 0,
        tfor_zone: 0,
        temp: 0,
        nups,
        vararg,
        tag: 0,
        depth_for: 0,
        depth_tfor: 0,
        out: Low::default(),
    };
    if lim.kidx == u64::MAX {
        // no operand can be a constant
        g.f.consts.push(Const::Nil);
        g.kidx = 0;
    }
    let arg = (vararg && g.v50()) as u64;
    let mut next = nparams + arg;
    let count = g.s.us(4, 8) as u64;
    let gap = if g.s.chance(1, 8) { g.s.us(0, 30) as u64 } else { 0 };
    g.nums = (next..next + count).collect();
    next += count;
    g.bools = vec![next, next + 1];
    next += 2 + gap;
    g.loop_zone = next;
    // the last one bounds backward jumps
    next += FOR_SIZE * FOR_DEPTH + 1;
    let persistent = next;
    g.tfor_zone = next;
    next += TFOR_SIZE * TFOR_DEPTH;
    g.temp = next + if g.v50() { 0 } else { 1 };
    g.probes = g.nums.clone();
    g.probes.extend(&g.bools);
    if arg > 0 {
        g.probes.push(nparams);
    }
    g.probes.extend(0..nparams);
    let temp = g.temp;
    g.touch(temp + 6);

    // some constants that take the small indices
    let filler = if g.s.chance(1, 6) { g.s.us(0, 300) } else { 0 };
    for i in 0..filler {
        g.f.consts.push(Const::Str(lstr(format!("k{i}").as_bytes())));
    }

    // every register gets a value; the very first instruction is a target too
    g.label();
    let first = nparams + arg;
    g.abc("LOADNIL", first, g.temp - 1, 0);
    for i in 0..g.nums.len() {
        let v = g.small();
        g.loadk(g.nums[i], v);
    }
    for b in g.bools.clone() {
        let v = g.s.below(2);
        g.abc("LOADBOOL", b, v, 0);
    }
    for i in 0..FOR_SIZE * FOR_DEPTH + 1 {
        let v = if i == FOR_SIZE * FOR_DEPTH { g.s.range(2, 20) } else { 2 };
        g.loadk(g.loop_zone + i, v);
    }
    let gl = g.kstr("glob");
    g.abx("SETGLOBAL", g.nums[0], gl);
    let rt = g.kstr("emit");
    g.abx("GETGLOBAL", g.temp, rt);
    let sv = g.kstr("saved");
    g.abx("SETGLOBAL", g.temp, sv);
    g.region(o.atoms);
    g.label();
    let all = g.probes.clone();
    g.probe(&all);
    g.touch(temp + 2 + all.len() as u64);
    let (f, c) = (g.nums[0], g.nums.len().min(3) as u64);
    g.abc("RETURN", f, c + 1, 0);
    g.label();
    g.abc("RETURN", 0, 1, 0);
    g.resolve();

    let strip = g.s.chance(1, 4);
    let end = g.f.code.len() as i64;
    let mut locals = vec![];
    if !strip {
        // parameters, then persistent registers from growing positions
        let mut start = 0;
        for i in 0..persistent {
            let name = if i < nparams {
                format!("p{i}")
            } else if i == nparams && arg > 0 {
                "arg".to_string()
            } else {
                // positions around jumps and rewritten code
                if g.s.chance(1, 2) {
                    let most = (end - start - 1).max(0).min(if g.s.coin() { 5 } else { 60 });
                    start += g.s.range(0, most);
                }
                format!("r{i}")
            };
            let begin = if i < nparams + arg { 0 } else { start.max(1) };
            start = start.max(begin);
            locals.push((name, begin, end));
        }
        // close from the top
        let mut until = end;
        for l in locals.iter_mut().skip((nparams + arg) as usize).rev() {
            if g.s.chance(1, 3) {
                let room = (until - l.1 - 1).max(0);
                until -= g.s.range(0, room.min(20));
            }
            l.2 = until.max(l.1);
        }
    }
    let Low { jumps, backward, rewritten, longest, ctors, loops, .. } = g.out;
    let mut fun = Proto {
        source: if strip { Vec::new() } else { lstr(b"@low") },
        line: 3,
        last_line: if ver == Ver::V51 { 90 } else { 3 },
        nups,
        nparams: nparams as u8,
        vararg: match (vararg, ver) {
            (false, _) => 0,
            (true, Ver::V50) => 1,
            (true, Ver::V51) => 2,
        },
        maxstack: (g.f.top + 1).min(250) as u8,
        code: std::mem::take(&mut g.f.code),
        consts: std::mem::take(&mut g.f.consts),
        protos: std::mem::take(&mut g.f.protos),
        lines: if strip { vec![] } else { std::mem::take(&mut g.f.lines) },
        locals: locals.into_iter().map(|(n, start, end)| Local { name: lstr(n.as_bytes()), start, end }).collect(),
        upnames: if strip || nups == 0 { vec![] } else { vec![lstr(b"up")] },
    };

    if !strip && g.s.chance(1, 6) {
        crate::gen::strip_some(g.s, &mut fun);
    }

    // the main function: up = 3; f = function; emit(f(args)) several times
    g.f = Fun::new();
    g.loadk(0, 3);
    g.abx("CLOSURE", 1, 0);
    if nups > 0 {
        g.abc("MOVE", 0, 0, 0);
    }
    let calls = g.s.us(1, 3);
    for _ in 0..calls {
        g.f.line += 1;
        let e = g.kstr("emit");
        g.abx("GETGLOBAL", 2, e);
        g.abc("MOVE", 3, 1, 0);
        let n = if vararg { g.s.us(0, 7) as u64 } else { nparams };
        // parameters are numbers
        let n = n.max(nparams);
        for i in 0..n {
            let v = g.small();
            g.loadk(4 + i, v);
        }
        g.abc("CALL", 3, n + 1, 0);
        g.abc("CALL", 2, 0, 1);
    }
    g.abc("RETURN", 0, 1, 0);
    let code = std::mem::take(&mut g.f.code);
    let lines = if strip { vec![] } else { std::mem::take(&mut g.f.lines) };
    let main = Proto {
        source: lstr(b"@low"),
        vararg: if ver == Ver::V51 { 2 } else { 0 },
        maxstack: 14,
        code,
        lines,
        consts: std::mem::take(&mut g.f.consts),
        protos: vec![fun],
        ..Default::default()
    };
    Low { main, jumps, backward, rewritten, longest, ctors, loops }
}
