//! C17: optional features do not change conversion; serialised settings round-trip.
//!
//! The library built with other features runs in child processes (the crate in /verif/variant, built by check.sh);
//! each case sends the same conversion to all of them and compares the answers with the harness's own build.

use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStderr, ChildStdin, Command, Stdio};

use super::c03::{havoc_input, soup_input};
use super::c16::{any_chunk, bytes};
use super::structural::{key, label_setup};
use super::*;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C17",
        parts: vec![
            part("valid", valid, 26_000, 1_500_000, "a random chunk, generated byte code or compiled program of either version, converted by the library built without features, with debug, with serde, and with both, settings and formats also after a round trip through bincode and JSON; non-trivial when the conversion succeeds, keyed by input and settings"),
            part("invalid", invalid, 26_000, 1_500_000, "a mutated chunk or a function of arbitrary instructions, likewise; non-trivial when the conversion is rejected, keyed by input and settings"),
        ],
        findings: vec![("json-escaped-signature", json_escaped)],
        assumptions: vec!["the library's integration feature (the author's test runner around a bundled Lua) is not a feature of the conversion", "settings whose signature needs an escape in JSON (a known finding) go through bincode only"],
    }]
}

const VARIANTS: [&str; 4] = ["plain", "debug", "serde", "both"];

struct Server {
    child: Child,
    to: ChildStdin,
    from: BufReader<ChildStderr>,
}

thread_local! {
    static SERVERS: RefCell<[Option<Server>; 4]> = const { RefCell::new([None, None, None, None]) };
}

fn binary(name: &str) -> std::path::PathBuf {
    let dir = std::env::var_os("VERIF_DIR")
        .map(std::path::PathBuf::from)
        .unwrap_or_else(|| std::path::Path::new(env!("CARGO_MANIFEST_DIR")).parent().unwrap().to_path_buf());
    dir.join(".target/variants").join(format!("variant-{name}"))
}

/// The answer of one build; an error when its process ends.
fn ask(which: usize, line: &str) -> Result<String, String> {
    SERVERS.with(|s| {
        let slot = &mut s.borrow_mut()[which];
        if slot.is_none() {
            let mut child = Command::new(binary(VARIANTS[which]))
                .stdin(Stdio::piped())
                .stdout(Stdio::null())
                .stderr(Stdio::piped())
                .spawn()
                .unwrap_or_else(|e| panic!("{}: {e}; check.sh builds it", binary(VARIANTS[which]).display()));
            let to = child.stdin.take().unwrap();
            let from = BufReader::new(child.stderr.take().unwrap());
            *slot = Some(Server { child, to, from });
        }
        let server = slot.as_mut().unwrap();
        let sent = server.to.write_all(line.as_bytes());
        let mut answer = String::new();
        let _ = server.from.read_line(&mut answer);
        if sent.is_err() || !answer.ends_with('\n') {
            let _ = server.child.kill();
            let status = server.child.wait();
            *slot = None;
            return Err(format!("{status:?} {answer}"));
        }
        answer.pop();
        Ok(answer)
    })
}

fn words(out: &mut String, c: &Consts) {
    let sig: String = c.sig.bytes().map(|b| format!("{b:02x}")).collect();
    *out += &format!(" {} {} {}", if sig.is_empty() { "-" } else { &sig }, c.stack, c.fpf);
    for (o, n) in c.lay.order {
        let o = match o {
            Op4::O => "O",
            Op4::A => "A",
            Op4::B => "B",
            Op4::C => "C",
        };
        *out += &format!(" {o} {n}");
    }
}

fn line(st: &Setup, error: (u64, u64), input: &[u8]) -> String {
    let f = &st.fout;
    let w = crate::model::width;
    let mut out = format!(
        "{} {} {} {} {} {} {}",
        f.format,
        (f.endianness == lunify::Endianness::Little) as u8,
        w(f.integer_width),
        w(f.size_t_width),
        w(f.instruction_width),
        w(f.number_width),
        f.is_number_integral as u8
    );
    words(&mut out, &st.sett.l50);
    words(&mut out, &st.sett.l51);
    words(&mut out, &st.sett.out);
    out += &format!(" {} {} ", error.0, error.1);
    if input.is_empty() {
        out += "-";
    }
    for b in input {
        out += &format!("{b:02x}");
    }
    out + "\n"
}

fn all_builds(s: &mut Src, c: &mut Case, st: &Setup, input: &[u8]) -> Result<Result<Vec<u8>, LunifyError>, Failure> {
    let error = (s.below(19), s.edgy(u64::MAX));
    let line = line(st, error, input);
    c.sample = Some(st.describe() + &format!("error to round-trip {error:?}\ninput ") + &hex(input));
    let detail = |more: String| format!("{}error to round-trip {error:?}\ninput {}\n{more}", st.describe(), hex(input));
    let base = st.convert(input)?;
    let want = match &base {
        Ok(v) => format!("ok {}", v.iter().map(|b| format!("{b:02x}")).collect::<String>()),
        Err(e) => format!("err {e:?}"),
    };
    let mut escaped = false;
    for (which, name) in VARIANTS.iter().enumerate() {
        let answer = match ask(which, &line) {
            Ok(a) => a,
            Err(e) => return fail(format!("the {name} build ends the process: {e}"), detail(bytes(&base))),
        };
        let answer = match answer.strip_prefix("escaped ") {
            Some(rest) => {
                escaped = true;
                rest.to_string()
            }
            None => answer,
        };
        if let Some(what) = answer.strip_prefix("bad ") {
            return fail(format!("the {name} build does not round-trip: {what}"), detail(String::new()));
        }
        if answer != want {
            return fail(
                format!("the {name} build gives another result than the build without features"),
                detail(format!("without {}\n{name} {}", want.chars().take(2000).collect::<String>(), answer.chars().take(2000).collect::<String>())),
            );
        }
    }
    c.label_if(!escaped, "settings through JSON");
    Ok(base)
}

/// Signatures JSON writes without escapes, most of the time.
fn plain_signatures(s: &mut Src, st: &mut Setup, input: &mut Vec<u8>) {
    if !s.chance(3, 4) {
        return;
    }
    let names = ["Lua+", "LUA", "XYZ~", "\u{e9}\u{20ac}", "#"];
    let a = *s.pick(&names);
    let out = *s.pick(&names);
    let old = st.cin().sig.clone();
    if input.starts_with(old.as_bytes()) {
        input.splice(..old.len(), a.bytes());
    }
    st.sett.l50.sig = a.into();
    st.sett.l51.sig = a.into();
    st.sett.out.sig = out.into();
}

fn valid(s: &mut Src, c: &mut Case) -> Result<(), Failure> {
    let fpf = s.coin();
    let Some((mut st, mut input)) = any_chunk(s, c, fpf) else {
        c.discard = true;
        return Ok(());
    };
    plain_signatures(s, &mut st, &mut input);
    c.key = key(&input, &st);
    label_setup(c, &st);
    let r = all_builds(s, c, &st, &input)?;
    c.nontrivial = r.is_ok();
    Ok(())
}

fn invalid(s: &mut Src, c: &mut Case) -> Result<(), Failure> {
    let (mut st, mut input) = if s.coin() {
        havoc_input(s, c)
    } else {
        let (st, input, _) = soup_input(s, c);
        c.label("arbitrary instructions");
        (st, input)
    };
    plain_signatures(s, &mut st, &mut input);
    c.key = key(&input, &st);
    let r = all_builds(s, c, &st, &input)?;
    c.nontrivial = r.is_err();
    c.label_if(r.is_ok(), "accepted");
    Ok(())
}

/// The default settings do not come back from JSON.
fn json_escaped() -> bool {
    let st = Setup { ver: Ver::V51, fin: Format::default(), fout: Format::default(), sett: Sett::default() };
    let p = Proto { source: lstr(b"x"), maxstack: 2, ..Proto::default() };
    let input = encode(&p, Ver::V51, &st.fin, st.cin()).out;
    matches!(ask(2, &line(&st, (0, 0), &input)), Ok(a) if a.starts_with("escaped "))
}
