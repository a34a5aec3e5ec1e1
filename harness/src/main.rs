mod engine;
mod gen;
mod guide;
mod lowgen;
mod luagen;
mod model;
mod props;
mod run;
mod vm;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let words: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let code = match words.as_slice() {
        ["check", id, rest @ ..] => run::check(id, rest),
        ["worker", rest @ ..] => run::worker(rest),
        ["exec", id, part, file] => run::exec(id, part, file),
        ["finding", id, sig] => {
            // 10 when the defect occurs
            let all = props::all();
            let found = all.iter().filter(|p| p.id == *id).flat_map(|p| &p.findings).find(|f| f.0 == *sig);
            found.map_or(2, |(_, reproduce)| if reproduce() { 10 } else { 0 })
        }
        ["replay", file] => run::replay(file),
        ["selftest"] => props::selftest::run(),
        ["dump", id, part, index] => run::dump(id, part, index),
        ["compile", version, file, out, rest @ ..] => {
            // a chunk in the default format, optionally with another list-flush size
            let mut cons = model::Sett::default().l51;
            let v50 = *version == "5.0";
            if v50 {
                cons = model::Sett::default().l50;
            }
            if let Some(n) = rest.first() {
                cons.fpf = n.parse().unwrap();
            }
            let fmt = lunify::Format::default();
            let build = if v50 { vm::Build::lua50(&fmt, &cons) } else { vm::Build::lua51(&fmt, &cons) };
            match build.compile(&std::fs::read(file).unwrap(), "@demo.lua", false) {
                Ok(chunk) => {
                    std::fs::write(out, chunk).unwrap();
                    0
                }
                Err(e) => {
                    eprintln!("{e}");
                    1
                }
            }
        }
        ["list"] => {
            for p in props::all() {
                println!("{} {}", p.id, p.parts.iter().map(|q| q.name).collect::<Vec<_>>().join(" "));
            }
            0
        }
        _ => {
            eprintln!("usage: harness check ID | replay FILE | compile 5.0|5.1 SOURCE OUT | selftest | list");
            2
        }
    };
    std::process::exit(code);
}
