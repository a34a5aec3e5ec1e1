//! Bindings to the instrumented Lua builds in /verif/vm.

use std::os::raw::{c_char, c_int, c_longlong};

use lunify::{BitWidth, Endianness, Format};

use crate::model::*;

#[repr(C)]
#[derive(Clone, Copy)]
pub struct LVConf {
    sig: [u8; 1024],
    siglen: c_int,
    maxstack: c_int,
    fpf: c_int,
    size: [c_int; 4],
    pos: [c_int; 5],
    max_a: c_int,
    max_b: c_int,
    max_c: c_int,
    max_bx: c_int,
    max_sbx: c_int,
    max_rk: c_int,
    mode50: c_int,
    d_little: c_int,
    d_int: c_int,
    d_size: c_int,
    d_instr: c_int,
    d_format: c_int,
    l50: [c_int; 4],
    l50_pos: [c_int; 5],
    novarinfo: c_int,
    vararg_arg: c_int,
    no_arg_n: c_int,
}

#[repr(C)]
struct LVRun {
    steps: c_longlong,
    mem: usize,
    lines: c_int,
    norm0: c_int,
    status: c_int,
}

#[repr(C)]
struct LVBuf {
    p: *mut u8,
    n: usize,
    cap: usize,
}

macro_rules! decl {
    ($($compile:ident $run:ident $free:ident),*) => {
        extern "C" {
            $(
            fn $compile(conf: *const LVConf, src: *const c_char, n: usize, name: *const c_char, strip: c_int, out: *mut LVBuf) -> c_int;
            fn $run(conf: *const LVConf, run: *mut LVRun, chunk: *const c_char, n: usize, name: *const c_char, out: *mut LVBuf) -> c_int;
            fn $free(b: *mut LVBuf);
            )*
        }
    };
}

decl!(lv_d_compile lv_d_run lv_d_free, lv_f_compile lv_f_run lv_f_free, lv_l_compile lv_l_run lv_l_free, lv_i_compile lv_i_run lv_i_free);

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum NumKind {
    F64,
    F32,
    I64,
    I32,
}

impl NumKind {
    pub fn of(f: &Format) -> NumKind {
        match (f.is_number_integral, f.number_width) {
            (false, BitWidth::Bit64) => NumKind::F64,
            (false, BitWidth::Bit32) => NumKind::F32,
            (true, BitWidth::Bit64) => NumKind::I64,
            (true, BitWidth::Bit32) => NumKind::I32,
        }
    }
}

/// A Lua build: number type plus compile constants.
#[derive(Clone)]
pub struct Build {
    pub kind: NumKind,
    pub conf: LVConf,
}

fn layout_fields(l: &Lay) -> ([c_int; 4], [c_int; 5]) {
    let order = [Op4::O, Op4::A, Op4::B, Op4::C];
    let size = order.map(|o| l.size(o) as c_int);
    let p = order.map(|o| l.pos(o) as c_int);
    (size, [p[0], p[1], p[2], p[3], l.bx_pos() as c_int])
}

impl Build {
    fn base(fmt: &Format, cons: &Consts) -> LVConf {
        let mut sig = [0u8; 1024];
        sig[..cons.sig.len()].copy_from_slice(cons.sig.as_bytes());
        LVConf {
            sig,
            siglen: cons.sig.len() as c_int,
            maxstack: cons.stack as c_int,
            fpf: cons.fpf as c_int,
            size: [0; 4],
            pos: [0; 5],
            max_a: 0,
            max_b: 0,
            max_c: 0,
            max_bx: 0,
            max_sbx: 0,
            max_rk: 0,
            mode50: 0,
            d_little: (fmt.endianness == Endianness::Little) as c_int,
            d_int: width(fmt.integer_width) as c_int,
            d_size: width(fmt.size_t_width) as c_int,
            d_instr: width(fmt.instruction_width) as c_int,
            d_format: fmt.format as c_int,
            l50: [0; 4],
            l50_pos: [0; 5],
            novarinfo: 0,
            vararg_arg: 1,
            no_arg_n: 0,
        }
    }

    /// A Lua 5.1 build with the given format and constants (Bx of at most 30 bits).
    pub fn lua51(fmt: &Format, cons: &Consts) -> Build {
        let l = &cons.lay;
        assert!(l.bx_size() <= 30);
        let mut c = Self::base(fmt, cons);
        (c.size, c.pos) = layout_fields(l);
        c.max_a = l.max(Op4::A).min(255) as c_int;
        c.max_b = l.max(Op4::B) as c_int;
        c.max_c = l.max(Op4::C) as c_int;
        c.max_bx = l.max_bx() as c_int;
        c.max_sbx = l.bias() as c_int;
        c.max_rk = (l.const_bit() - 1) as c_int;
        if l.size(Op4::C) < l.size(Op4::B) {
            // real Lua cannot be built with such a layout unless constants never go to C
            c.max_rk = -1;
        }
        Build { kind: NumKind::of(fmt), conf: c }
    }

    /// A Lua 5.0 build: compiles to and executes Lua 5.0 code.
    pub fn lua50(fmt: &Format, cons: &Consts) -> Build {
        let l = &cons.lay;
        assert!(l.bx_size() <= 30);
        let mut c = Self::base(fmt, cons);
        // internal instructions are wide; the limits are those of the 5.0 layout
        c.size = [6, 8, 20, 20];
        c.pos = [0, 8, 36, 16, 16];
        c.max_a = 255;
        c.max_b = l.max(Op4::B) as c_int;
        c.max_c = l.max(Op4::C) as c_int;
        c.max_bx = l.max_bx() as c_int;
        c.max_sbx = l.bias() as c_int;
        c.max_rk = l.max(Op4::B).min(l.max(Op4::C)) as c_int - cons.stack as c_int;
        c.mode50 = 1;
        (c.l50, c.l50_pos) = layout_fields(l);
        c.novarinfo = 1;
        c.no_arg_n = 1;
        Build { kind: NumKind::of(fmt), conf: c }
    }

    /// Sets the field `n` of `arg` like Lua 5.0 does.
    pub fn with_arg_n(mut self) -> Build {
        self.conf.no_arg_n = 0;
        self
    }

    pub fn no_variable_info(mut self) -> Build {
        self.conf.novarinfo = 1;
        self
    }

    pub fn compile(&self, source: &[u8], name: &str, strip: bool) -> Result<Vec<u8>, String> {
        let name = format!("{name}\0");
        let mut b = LVBuf { p: std::ptr::null_mut(), n: 0, cap: 0 };
        let args = (&self.conf as *const LVConf, source.as_ptr() as *const c_char, source.len(), name.as_ptr() as *const c_char, strip as c_int);
        let bp = &mut b as *mut LVBuf;
        let st = unsafe {
            match self.kind {
                NumKind::F64 => lv_d_compile(args.0, args.1, args.2, args.3, args.4, bp),
                NumKind::F32 => lv_f_compile(args.0, args.1, args.2, args.3, args.4, bp),
                NumKind::I64 => lv_l_compile(args.0, args.1, args.2, args.3, args.4, bp),
                NumKind::I32 => lv_i_compile(args.0, args.1, args.2, args.3, args.4, bp),
            }
        };
        let v = take(self.kind, b);
        if st == 0 {
            Ok(v)
        } else {
            Err(String::from_utf8_lossy(&v).into_owned())
        }
    }

    pub fn run(&self, chunk: &[u8], name: &str, opts: &RunOpts) -> Outcome {
        let name = format!("{name}\0");
        let mut b = LVBuf { p: std::ptr::null_mut(), n: 0, cap: 0 };
        let mut run = LVRun { steps: opts.steps, mem: opts.mem, lines: opts.lines as c_int, norm0: opts.norm0 as c_int, status: 0 };
        let rp = &mut run as *mut LVRun;
        let bp = &mut b as *mut LVBuf;
        let c = &self.conf as *const LVConf;
        let (p, n, m) = (chunk.as_ptr() as *const c_char, chunk.len(), name.as_ptr() as *const c_char);
        unsafe {
            match self.kind {
                NumKind::F64 => lv_d_run(c, rp, p, n, m, bp),
                NumKind::F32 => lv_f_run(c, rp, p, n, m, bp),
                NumKind::I64 => lv_l_run(c, rp, p, n, m, bp),
                NumKind::I32 => lv_i_run(c, rp, p, n, m, bp),
            };
        }
        let v = take(self.kind, b);
        Outcome {
            status: match run.status {
                0 => Status::Ok,
                1 => Status::LoadError,
                2 => Status::RunError,
                3 => Status::Budget,
                _ => Status::Memory,
            },
            trace: String::from_utf8_lossy(&v).into_owned(),
            steps: run.steps,
        }
    }
}

fn take(kind: NumKind, mut b: LVBuf) -> Vec<u8> {
    unsafe {
        let v = if b.p.is_null() { Vec::new() } else { std::slice::from_raw_parts(b.p, b.n).to_vec() };
        match kind {
            NumKind::F64 => lv_d_free(&mut b),
            NumKind::F32 => lv_f_free(&mut b),
            NumKind::I64 => lv_l_free(&mut b),
            NumKind::I32 => lv_i_free(&mut b),
        }
        v
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Status {
    Ok,
    LoadError,
    RunError,
    Budget,
    Memory,
}

#[derive(Clone, PartialEq, Debug)]
pub struct Outcome {
    pub status: Status,
    pub trace: String,
    pub steps: i64,
}

#[derive(Clone, Copy)]
pub struct RunOpts {
    pub steps: i64,
    pub mem: usize,
    pub lines: bool,
    pub norm0: bool,
}

impl Default for RunOpts {
    fn default() -> Self {
        RunOpts { steps: 200_000, mem: 64 << 20, lines: true, norm0: false }
    }
}

impl RunOpts {
    /// The allowance of a converted program, given what the reference used.
    pub fn converted(&self, reference: &Outcome) -> RunOpts {
        RunOpts { steps: reference.steps * 16 + 100_000, mem: self.mem * 4, ..*self }
    }
}

/// First difference between two traces, for messages.
pub fn diff(a: &str, b: &str) -> String {
    for (n, (x, y)) in a.lines().zip(b.lines()).enumerate() {
        if x != y {
            let cut = |s: &str| s.chars().take(300).collect::<String>();
            return format!("event {n}: expected {} got {}", cut(x), cut(y));
        }
    }
    format!("expected {} events got {}", a.lines().count(), b.lines().count())
}
