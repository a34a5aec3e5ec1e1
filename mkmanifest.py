#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties."""
import json,os
os.chdir(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l)['id'] for l in open('properties.jsonl')]
CHUNK="structured random chunks (choice-sequence property testing with shrinking) against an independent model and codec of Lua 5.0/5.1 chunks"
VM="generated Lua programs, differential execution in instrumented Lua VMs (choice-sequence property testing with shrinking)"
T={
 "C01":(CHUNK,"Every generated chunk is decoded from the output by an independent decoder and compared field by field, also with lists of up to 262 143 entries. Assumes the model of the chunk format, which the self-test checks against genuine chunks and a real Lua."),
 "C02":(CHUNK,"The output of every accepted random chunk of both versions is parsed strictly by an independent decoder under the requested header; byte identity is required when format and constants match. Lists reach 262 143 entries."),
 "C04":("typed corruption and truncation at every byte of generated chunks (property testing), expected error from the encoder's field map","Every prefix of generated chunks and every kind of corrupted field is judged; the expected error is computed from what was corrupted."),
 "C12":("generated number constants around every representability edge (property testing) against exact arithmetic","All combinations of width and kind; numbers concentrated on edges. i64::MAX to float may be an error, f64 beyond f32 may be infinite or an error."),
 "C13":("generated byte strings at every string position (property testing), compared byte for byte","Strings of arbitrary bytes up to a few hundred bytes, some of 64 KiB."),
 "C15":("generated layout specifications and layouts (property testing) against an independent acceptance predicate and instruction codec","All specifications with four operands are generated, at every size class; every opcode is re-packed between random layouts."),
 "C05":(VM,"A program compiled by one build of Lua 5.1 and converted must leave the same event trace (probed calls, values, error messages with line numbers) as the same source compiled natively by the output build. Programs of up to about a hundred statements, bounded steps."),
 "C06":(VM,"The reference is a Lua 5.0 virtual machine (5.0 mode of the instrumented VM); the converted chunk runs in an ordinary Lua 5.1 VM of the output build. Programs avoid library functions that differ between the versions."),
 "C07":(VM,"Constructors of up to 130 elements of every kind around the page boundaries of differing flush sizes, compared through recorded events, and single constructors of up to 25000 elements that reach the last page an operand can name."),
 "C08":(VM,"Generated loops compared iteration by iteration, with every visible local recorded, also nested 12 deep among 36 variables, generic loops with up to 116 variables. Known findings (for-loop variables that are not numbers, TFORPREP relying on globals, captured single loop variables after the loop) are excluded by construction and reported."),
 "C09":(VM,"Vararg functions called with varying numbers of arguments (up to 120 parameters and 220 arguments); parameters, arg and the other locals are recorded. arg.n is a known finding."),
 "C10":("generated byte code with arbitrary jumps, differential execution in instrumented Lua VMs (choice-sequence property testing with shrinking)","Functions with jumps between arbitrary statement boundaries over and into rewritten instructions, up to 36000 instructions apart, run before and after conversion. Jumps into the middle of a table constructor, and LOADBOOL skipping an instruction that is expanded (known finding), are not generated; no compiler emits them."),
 "C14":("generated programs and byte code observing lines, locals and stack information of themselves, differential execution (choice-sequence property testing with shrinking)","Lines of every call and error, named locals with their values and the debug information of the callers are compared between input and converted code, and every instruction's line is checked structurally, up to 262 143 lines and 70 000 locals."),
 "C03":("mutated, hostile and random byte strings, arbitrary instructions and layouts (structure-aware fuzzing) with overflow checks, memory and time limits","Crashes, panics, overflows, runaway memory or time on byte-level mutations of chunks, extreme field values, arbitrary instructions, deep nesting, any layout specification and raw bytes. Settings are those a build of Lua can have."),
 "C11":("generated programs and byte code converted to narrow output formats (property testing); a conversion to a roomy format predicts what has to fit","Success is required when everything fits and an error when it does not, registers and stack size of the result are checked instruction by instruction, and accepted code runs in the output build."),
 "C16":("metamorphic property testing: repeated, reordered, concurrent, chained and idempotent conversions compared byte for byte","Chains go through one or two intermediate formats that can hold every value; batches are repeated in another order and from four threads at once."),
 "C18":("structured random function trees (choice-sequence and coverage-guided property testing with shrinking) against an independent model, and the metamorphic relation between a function within a chunk and on its own","Trees four deep with up to eight functions side by side. Instructions around rewritten ones are found by their line numbers; operands of instructions between moved list values and jump distances are left to C07 and C10."),
 "C17":("differential property testing of four feature builds of the library in separate processes, with bincode and JSON round trips","Builds without features, with debug, with serde and with both answer the same conversions; formats, settings, layouts, operand types and errors are serialised and compared. Signatures that JSON has to escape are a known finding."),
}
N={}
exec(open('claims.py').read()) if os.path.exists('claims.py') else None
checks=[];na=[]
for p in props:
    if p in T:
        t,n=T[p]
        checks.append({"property":p,"quick_cmd":f"./check.sh {p}","thorough_cmd":f"VERIF_TIER=thorough ./check.sh {p}","evidence_file":f"evidence/{p}.json","technique":t,"level":"exploration","level_note":n})
    else:
        na.append({"property":p,"reason":N.get(p,"check under construction")})
m={"version":1,"setup_cmd":"true","checks":checks,"not_applicable":na}
json.dump(m,open('MANIFEST.json','w'),indent=1); open('MANIFEST.json','a').write("\n")
