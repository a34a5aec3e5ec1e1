//! The listed properties as executable checks.

use std::cell::{Cell, RefCell};

use lunify::{unify, Format, LunifyError};

use crate::engine::*;
use crate::gen;
use crate::model::*;

pub mod c03;
pub mod c11;
pub mod c16;
pub mod c17;
pub mod c18;
pub mod findings;
pub mod structural;
pub mod selftest;
pub mod texts;
pub mod vmp;

pub struct Part {
    pub name: &'static str,
    pub run: CaseFn,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    /// Attempts spent on shrinking a failure.
    pub shrink: usize,
}

pub struct Prop {
    pub id: &'static str,
    pub parts: Vec<Part>,
    pub findings: Vec<(&'static str, fn() -> bool)>,
    pub assumptions: Vec<&'static str>,
}

pub fn part(name: &'static str, run: CaseFn, quick: u64, thorough: u64, rule: &'static str) -> Part {
    Part { name, run, quick, thorough, rule, shrink: 3000 }
}

pub fn all() -> Vec<Prop> {
    let mut v = Vec::new();
    v.extend(structural::props());
    v.extend(c03::props());
    v.extend(c11::props());
    v.extend(c16::props());
    v.extend(c17::props());
    v.extend(c18::props());
    v.extend(vmp::props());
    v.sort_by_key(|p| p.id);
    v
}

thread_local! {
    /// Set while only the choices of a case are wanted; the code under test is not called then.
    pub static GENERATE_ONLY: Cell<bool> = const { Cell::new(false) };
    pub static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

/// One conversion, with everything needed to describe it.
#[derive(Clone)]
pub struct Setup {
    pub ver: Ver,
    pub fin: Format,
    pub fout: Format,
    pub sett: Sett,
}

impl Setup {
    pub fn cin(&self) -> &Consts {
        match self.ver {
            Ver::V50 => &self.sett.l50,
            Ver::V51 => &self.sett.l51,
        }
    }
    pub fn describe(&self) -> String {
        format!(
            "version {:?}\ninput:  {}\n        {}\noutput: {}\n        {}\n",
            self.ver,
            fmt_str(&self.fin),
            cons_str(self.cin()),
            fmt_str(&self.fout),
            cons_str(&self.sett.out)
        )
    }
    pub fn convert(&self, input: &[u8]) -> Result<Result<Vec<u8>, LunifyError>, Failure> {
        convert(input, &self.fout, &self.sett)
    }
    /// Converts, expecting success.
    pub fn must(&self, input: &[u8], detail: impl Fn() -> String) -> Result<Vec<u8>, Failure> {
        match self.convert(input)? {
            Ok(v) => Ok(v),
            Err(e) => fail(format!("conversion failed with {e:?}"), self.describe() + &detail()),
        }
    }
}

pub fn hex(b: &[u8]) -> String {
    let n = b.len().min(600);
    let mut s: String = b[..n].iter().map(|x| format!("{x:02x}")).collect();
    if b.len() > n {
        s += &format!("... ({} bytes)", b.len());
    }
    s
}

/// Calls the code under test; a panic is a failure of whatever property is being checked.
pub fn convert(input: &[u8], fout: &Format, sett: &Sett) -> Result<Result<Vec<u8>, LunifyError>, Failure> {
    if GENERATE_ONLY.with(|g| g.get()) {
        return fail("generate only", "");
    }
    let settings = sett.lunify();
    match std::panic::catch_unwind(|| unify(input, fout, &settings)) {
        Ok(r) => Ok(r),
        Err(_) => fail(
            format!("conversion panicked: {}", PANIC.with(|p| p.borrow().clone())),
            format!(
                "output: {}\n5.0: {}\n5.1: {}\nout: {}\ninput: {}\n",
                fmt_str(fout),
                cons_str(&sett.l50),
                cons_str(&sett.l51),
                cons_str(&sett.out),
                hex(input)
            ),
        ),
    }
}

pub struct Want {
    /// Input and output flush sizes are the same.
    pub same_fpf: bool,
    /// Layouts a real interpreter could be built with.
    pub real: bool,
}

/// Random formats, layouts, signatures and constants around one conversion of a chunk of version `ver`.
pub fn setup(s: &mut Src, ver: Ver, want: &Want) -> Setup {
    let mut fin = gen::format(s);
    let mut fout = gen::format(s);
    let same = s.chance(1, 6);
    if same {
        fout = fin;
    }
    if ver == Ver::V50 {
        // not part of a 5.0 header
        fin.format = 0;
    }
    let (sig50, sig51, sigo) = gen::signatures(s);
    let mut sett = Sett::default();
    sett.l50.sig = sig50;
    sett.l51.sig = sig51;
    sett.out.sig = sigo;
    sett.l50.lay = gen::layout_for(s, &fin, Lay::L50);
    sett.l51.lay = gen::layout_for(s, &fin, Lay::L51);
    sett.out.lay = gen::layout_for(s, &fout, Lay::L51);
    if s.chance(1, 4) {
        sett.out.lay = sett.l51.lay;
        sett.out.sig = sett.l51.sig.clone();
        if fout.instruction_width != fin.instruction_width {
            fout.instruction_width = fin.instruction_width;
        }
    }
    let fpf = *s.pick(&[50u64, 32, 1, 2, 4, 8, 16, 50]);
    sett.l51.fpf = fpf;
    sett.out.fpf = fpf;
    sett.l50.fpf = *s.pick(&[32u64, 8, 4, 2, 1, 64]);
    if !want.same_fpf && s.chance(1, 2) {
        sett.out.fpf = *s.pick(&[50u64, 32, 1, 2, 3, 7, 8, 16, 49, 51, 100, 255]);
    }
    if s.chance(1, 4) {
        sett.l50.stack = s.range(100, 250) as u64;
    }
    if want.real {
        for c in [&mut sett.l50, &mut sett.l51, &mut sett.out] {
            // MAXSTACK has to be addressable
            c.stack = c.stack.min(c.lay.max(Op4::A)).min(c.lay.const_bit());
        }
        sett.l50.stack = sett.l50.stack.min(sett.l50.lay.max(Op4::C) - 4);
    }
    unrelated(s, &mut sett, ver);
    Setup { ver, fin, fout, sett }
}

/// The constants of the version that is not the input's may be anything.
pub fn unrelated(s: &mut Src, sett: &mut Sett, ver: Ver) {
    if s.coin() {
        return;
    }
    let c = match ver {
        Ver::V50 => &mut sett.l51,
        Ver::V51 => &mut sett.l50,
    };
    c.stack = s.range(1, 255) as u64;
    c.fpf = *s.pick(&[1u64, 2, 4, 8, 16, 32, 64, 128]);
}

/// A random well-formed chunk of the setup's version that fits both sides.
pub fn random_chunk(s: &mut Src, st: &Setup, tune: impl Fn(&mut gen::Lim), depth: usize) -> Proto {
    let mut lim = gen::Lim::both(st.ver, &st.fin, st.cin(), &st.fout, &st.sett.out);
    tune(&mut lim);
    gen::proto(s, &lim, depth)
}

pub fn encode_ok(p: &Proto, st: &Setup) -> Vec<u8> {
    let e = encode(p, st.ver, &st.fin, st.cin());
    if let Some(bad) = e.bad {
        panic!("generated chunk does not fit its own format: {bad}\n{}{}", st.describe(), show_proto(p, st.ver, 0));
    }
    e.out
}
