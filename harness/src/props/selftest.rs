//! Checks the machinery itself against the genuine chunks of /repo/test_files.

use crate::model::*;
use crate::vm::*;
use lunify::{BitWidth, Endianness, Format};

pub fn run() -> i32 {
    let mut bad = 0;
    let repo = concat!(env!("CARGO_MANIFEST_DIR"), "/../../repo");
    let repo = if std::path::Path::new("/repo/test_files").exists() { "/repo" } else { repo };
    let f = |name: &str| std::fs::read(format!("{repo}/test_files/{name}.luab")).unwrap();
    let src = |name: &str| std::fs::read(format!("{repo}/test_source/{name}.lua")).unwrap();
    let fmt = Format { endianness: Endianness::Little, integer_width: BitWidth::Bit32, size_t_width: BitWidth::Bit64, instruction_width: BitWidth::Bit64, ..Format::default() };
    let sett = Sett::default();
    for (name, chunkname) in [
        ("dynamic_table", "@test/listO.lua"),
        ("empty", "@test/empty.lua"),
        ("for_loop", "@test/for.lua"),
        ("large_table", "@test/large_table.lua"),
        ("lua50", "@test/lua50.lua"),
        ("variadic", "@test/variardic.lua"),
    ] {
        let genuine = f(name);
        let p = match decode(&genuine, Ver::V50, &sett.l50).map(|x| x.1) {
            Ok(p) => p,
            Err(e) => {
                println!("{name}: the model rejects the genuine chunk: {e}");
                bad += 1;
                continue;
            }
        };
        let again = encode(&p, Ver::V50, &fmt, &sett.l50).out;
        if again != genuine {
            println!("{name}: re-encoding the genuine 5.0 chunk differs");
            bad += 1;
        }
        let b = Build::lua50(&fmt, &sett.l50);
        match b.compile(&src(name), chunkname, false) {
            Err(e) => {
                println!("{name}: {e}");
                bad += 1;
            }
            Ok(c) => {
                if c == genuine {
                    println!("{name}: byte-identical to the genuine 5.0 chunk");
                } else {
                    match decode(&c, Ver::V50, &sett.l50).map(|x| x.1) {
                        Err(e) => {
                            println!("{name}: model rejects own 5.0 chunk: {e}");
                            bad += 1;
                        }
                        Ok(q) => {
                            let (x, y) = (plain(&p), plain(&q));
                            if x == y {
                                println!("{name}: same as the genuine 5.0 chunk except for encoding details");
                                let at = c.iter().zip(&genuine).position(|(a, b)| a != b);
                                println!("   first byte difference {at:?} of {} / {}", c.len(), genuine.len());
                            } else {
                                println!("{name}: DIFFERS\n{}\n{x}\n{y}", diff(&x, &y));
                                bad += 1;
                            }
                        }
                    }
                }
            }
        }
    }
    bad
}

/// Without the size hints of tables.
fn plain(p: &Proto) -> String {
    let text = show_proto(p, Ver::V50, 0);
    text.lines().map(|l| if l.contains("] NEWTABLE") { &l[..l.find("NEWTABLE").unwrap() + 10] } else { l }).collect::<Vec<_>>().join("\n")
}
