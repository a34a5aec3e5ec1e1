//! Converts what the lines of its standard input ask for; answers on standard error, because the library's
//! debug feature prints to standard output. Built with different features of the library by check.sh.
//!
//! A request is a list of words:
//!   output format: format endianness int size_t instruction number integral
//!   three times (5.0, 5.1, output): signature(hex, '-' for none) stack flush then four times (operand size)
//!   error to round-trip: kind value
//!   input in hex ('-' for none)

use std::io::{BufRead, Write};
use std::sync::atomic::{AtomicU64, Ordering};

use lunify::{unify, BitWidth, Endianness, Format, InstructionLayout, LunifyError, OperandType, Settings};

static REQUEST: AtomicU64 = AtomicU64::new(0);

extern "C" {
    fn clock_gettime(clock: i32, ts: *mut [i64; 2]) -> i32;
}

fn cpu() -> f64 {
    let mut ts = [0i64; 2];
    unsafe { clock_gettime(2, &mut ts) };
    ts[0] as f64 + ts[1] as f64 / 1e9
}

fn unhex(s: &str) -> Vec<u8> {
    if s == "-" {
        return Vec::new();
    }
    let d = |c: u8| (c as char).to_digit(16).unwrap() as u8;
    s.as_bytes().chunks(2).map(|p| d(p[0]) << 4 | d(p[1])).collect()
}

fn answer(r: &Result<Vec<u8>, LunifyError>) -> String {
    match r {
        Ok(v) => {
            let mut s = String::from("ok ");
            for b in v {
                s += &format!("{b:02x}");
            }
            s
        }
        Err(e) => format!("err {e:?}"),
    }
}

struct Words<'a>(std::str::SplitAsciiWhitespace<'a>);

impl<'a> Words<'a> {
    fn word(&mut self) -> &'a str {
        self.0.next().expect("another word")
    }
    fn n(&mut self) -> u64 {
        self.word().parse().expect("a number")
    }
    fn width(&mut self) -> BitWidth {
        (self.n() as u8).try_into().expect("a width")
    }
}

struct Raw {
    sig: String,
    stack: u64,
    flush: u64,
    spec: [OperandType; 4],
}

fn consts(w: &mut Words) -> Raw {
    let sig = String::from_utf8(unhex(w.word())).unwrap();
    let (stack, flush) = (w.n(), w.n());
    let spec = [(); 4].map(|_| {
        let op = w.word();
        let size = w.n();
        match op {
            "O" => OperandType::Opcode(size),
            "A" => OperandType::A(size),
            "B" => OperandType::B(size),
            _ => OperandType::C(size),
        }
    });
    Raw { sig, stack, flush, spec }
}

fn error(kind: u64, value: u64) -> LunifyError {
    use LunifyError::*;
    let b = value as u8;
    match kind % 19 {
        0 => InvalidInstructionLayout,
        1 => IncorrectSignature,
        2 => UnsupportedVersion(b),
        3 => InvaildEndianness(b),
        4 => UnsupportedInstructionFormat((value as u32).to_le_bytes()),
        5 => UnsupportedSizeTWidth(b),
        6 => UnsupportedIntegerWidth(b),
        7 => UnsupportedInstructionWidth(b),
        8 => UnsupportedNumberWidth(b),
        9 => InvalidOpcode(value),
        10 => InvalidConstantType(b),
        11 => FloatPrecisionLoss,
        12 => IntegerOverflow,
        13 => InputTooShort,
        14 => InputTooLong,
        15 => StackTooLarge(value),
        16 => ValueTooBigForOperand,
        17 => UnexpectedForwardJump,
        _ => FunctionNestingTooDeep,
    }
}

#[cfg(feature = "serde")]
mod round {
    use serde::de::DeserializeOwned;
    use serde::Serialize;

    use super::*;

    /// Both formats for values that own everything.
    pub fn owned<T: Serialize + DeserializeOwned + PartialEq + std::fmt::Debug>(v: &T) -> Result<T, String> {
        let bytes = bincode::serialize(v).map_err(|e| format!("{v:?} is not serialised: {e}"))?;
        let b: T = bincode::deserialize(&bytes).map_err(|e| format!("{v:?} is not deserialised: {e}"))?;
        let text = serde_json::to_string(v).map_err(|e| format!("{v:?} is not serialised to JSON: {e}"))?;
        let j: T = serde_json::from_str(&text).map_err(|e| format!("{v:?} is not deserialised from {text}: {e}"))?;
        let value = serde_json::to_value(v).map_err(|e| format!("{v:?} is not serialised to a JSON value: {e}"))?;
        let o: T = serde_json::from_value(value).map_err(|e| format!("{v:?} is not deserialised from a JSON value: {e}"))?;
        for (x, how) in [(&b, "bincode"), (&j, "JSON"), (&o, "a JSON value")] {
            if x != v {
                return Err(format!("{v:?} becomes {x:?} through {how}"));
            }
        }
        Ok(b)
    }

    /// Settings borrow their signatures from the serialised form. Returns the answers of conversions with what came
    /// back, and whether JSON refused to lend a signature that is written with escapes.
    pub fn settings(input: &[u8], format: &Format, s: &Settings) -> Result<bool, String> {
        let f = owned(format)?;
        owned(&s.lua50.layout)?;
        let direct = unify(input, format, s);
        if let Err(e) = &direct {
            owned(e)?;
        }
        let bytes = bincode::serialize(s).map_err(|e| format!("{s:?} is not serialised: {e}"))?;
        let b: Settings = bincode::deserialize(&bytes).map_err(|e| format!("{s:?} is not deserialised: {e}"))?;
        if b != *s {
            return Err(format!("{s:?} becomes {b:?} through bincode"));
        }
        if unify(input, &f, &b) != direct {
            return Err(format!("{b:?} convert differently once deserialised"));
        }
        let text = serde_json::to_string(s).map_err(|e| format!("{s:?} is not serialised to JSON: {e}"))?;
        match serde_json::from_str::<Settings>(&text) {
            Ok(j) => {
                if j != *s {
                    return Err(format!("{s:?} becomes {j:?} through JSON"));
                }
                if unify(input, &f, &j) != direct {
                    return Err(format!("{j:?} convert differently once deserialised from JSON"));
                }
                Ok(false)
            }
            Err(e) => {
                let escapes = [s.lua50.binary_signature, s.lua51.binary_signature, s.output.binary_signature]
                    .iter()
                    .any(|x| x.chars().any(|c| c.is_control() || c == '"' || c == '\\'));
                match escapes {
                    true => Ok(true),
                    false => Err(format!("{s:?} is not deserialised from {text}: {e}")),
                }
            }
        }
    }
}

fn request(line: &str) -> String {
    let mut w = Words(line.split_ascii_whitespace());
    let format = Format {
        format: w.n() as u8,
        endianness: if w.n() == 0 { Endianness::Big } else { Endianness::Little },
        integer_width: w.width(),
        size_t_width: w.width(),
        instruction_width: w.width(),
        number_width: w.width(),
        is_number_integral: w.n() == 1,
    };
    let [a, b, c] = [consts(&mut w), consts(&mut w), consts(&mut w)];
    let e = error(w.n(), w.n());
    let input = unhex(w.word());
    let lay = |r: &Raw| InstructionLayout::from_specification(r.spec).expect("a valid layout");
    let new51 = |r: &'static Raw| lunify::lua51::Settings {
        stack_limit: r.stack,
        fields_per_flush: r.flush,
        binary_signature: &r.sig,
        layout: lay(r),
    };
    // leaked on purpose: a few hundred bytes per request
    let [a, b, c]: [&'static Raw; 3] = [Box::leak(Box::new(a)), Box::leak(Box::new(b)), Box::leak(Box::new(c))];
    let settings = Settings {
        lua50: lunify::lua50::Settings { stack_limit: a.stack, fields_per_flush: a.flush, binary_signature: &a.sig, layout: lay(a) },
        lua51: new51(b),
        output: new51(c),
    };
    let _ = (&e, c);
    #[cfg(feature = "serde")]
    {
        for r in [a, b, c] {
            for o in &r.spec {
                if let Err(t) = round::owned(o) {
                    return format!("bad {t}");
                }
            }
        }
        if let Err(t) = round::owned(&e) {
            return format!("bad {t}");
        }
        match round::settings(&input, &format, &settings) {
            Err(t) => return format!("bad {t}"),
            Ok(true) => return format!("escaped {}", answer(&unify(&input, &format, &settings))),
            Ok(false) => {}
        }
    }
    answer(&unify(&input, &format, &settings))
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    std::thread::spawn(|| {
        let (mut seen, mut since) = (u64::MAX, 0.0);
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let now = REQUEST.load(Ordering::Relaxed);
            if now != seen {
                (seen, since) = (now, cpu());
            } else if cpu() - since > 40.0 {
                std::process::exit(97);
            }
        }
    });
    for line in std::io::stdin().lock().lines() {
        let Ok(line) = line else { return };
        REQUEST.fetch_add(1, Ordering::Relaxed);
        let r = std::panic::catch_unwind(|| request(&line)).unwrap_or_else(|e| {
            let text = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()));
            format!("panic {}", text.unwrap_or_default())
        });
        let r = r.replace('\n', " ") + "\n";
        if std::io::stderr().lock().write_all(r.as_bytes()).is_err() {
            return;
        }
    }
}
