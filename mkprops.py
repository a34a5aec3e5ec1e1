import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))

SER=["src/serialization/stream.rs","src/serialization/writer.rs","src/serialization/macros.rs"]
p("C01","Lua 5.1 re-encoding is lossless",
 "Converting any well-formed Lua 5.1 chunk, in any supported combination of endianness and integer, size_t, instruction and number widths, to any output format gives a chunk that, decoded by its own header, holds the same program: the same tree of functions with the same instructions (opcode and every operand that opcode uses), the same constants in the same order, parameter count, vararg flags, upvalue count, stack size and debug information. Only table pre-sizing hints and operand bits that the opcode does not use may differ, as long as every value fits the output format.",
 ["inputs","configurations"],"every well-formed Lua 5.1 function tree, times every input format, times every output format",
 "The tests convert a handful of sample files and mostly only look at whether conversion returned Ok or whether a global ends up as 9; 64 input formats times 64 output formats, all 38 opcodes and all operand values are out of their reach.",
 ["src/lib.rs","src/function/mod.rs","src/function/instruction/lua51.rs"]+SER,
 [("ByteStream/ByteWriter","src/serialization"),("Function::from_byte_stream / write","src/function/mod.rs"),("lua_instructions! decode/encode","src/function/instruction/macros.rs")],
 ["unify()"])
p("C02","The result is always a Lua 5.1 chunk in the requested format",
 "Every successful conversion, of Lua 5.0 or Lua 5.1 input, returns exactly one Lua 5.1 chunk: the output signature, version 0x51, a header equal to the requested format, a body that decodes completely under that header and nothing after it. This also holds when the input's own format equals the requested one; a Lua 5.1 input that already has the requested format and the output's compile constants comes back byte for byte unchanged.",
 ["inputs","configurations"],"every valid chunk of either version, every requested format, every pair of input and output compile constants",
 "In test builds the shortcut for matching formats is compiled out, so no test ever executes it; only the default output format plus one variation is ever requested.",
 ["src/lib.rs","src/format/mod.rs","src/format/endianness.rs","src/format/width.rs","src/format/version.rs"],
 [("unify early return","src/lib.rs"),("Format::from_byte_stream / write","src/format/mod.rs")],["unify()"])
p("C03","Any byte sequence is converted or rejected, never a crash",
 "For every byte sequence, however malformed, truncated or adversarial, and every output format and valid settings, conversion terminates with a result or an error value: it never panics, aborts, overflows the stack or loops without bound, and building an instruction layout from any specification never panics either.",
 ["inputs","configurations"],"every byte string, every output format, every settings value whose layouts the library accepted",
 "Tests feed a few hand-picked malformed headers; they never reach malformed bodies, hostile lengths, invalid jumps, deep nesting or odd list-store instructions.",
 ["src/lib.rs","src/serialization/stream.rs","src/function/mod.rs","src/function/builder.rs","src/function/upcast.rs","src/function/convert.rs","src/function/instruction/operand/layout.rs"],
 [("bounds checks of ByteStream","src/serialization/stream.rs"),("FunctionBuilder::jump_destination","src/function/builder.rs")],["unify()","InstructionLayout::from_specification()"])
p("C04","Malformed input is rejected with the error that names its defect",
 "When conversion has to decode a chunk, a chunk cut short anywhere after its signature is reported as too short, one with bytes left over as too long, and an unknown signature, version, endianness, width, 5.0 operand-size header, opcode or constant type is reported as exactly that error, carrying the offending value; a corruption of one such field is never accepted silently. A prefix of a valid chunk is never accepted.",
 ["inputs","fault_sequences"],"every well-formed chunk of both versions, every cut point, every single corruption of a checked field anywhere in the function tree",
 "Tests check each error once at a fixed, shallow place; they do not cut or corrupt inside nested functions, at every offset, or in every format.",
 ["src/error.rs","src/lib.rs","src/format/mod.rs","src/serialization/stream.rs","src/function/mod.rs","src/function/instruction/macros.rs"],
 [("LunifyError","src/error.rs"),("InputTooShort / InputTooLong checks","src/serialization/stream.rs, src/lib.rs")],["unify()"])
p("C05","Lua 5.1 programs behave the same after conversion between builds",
 "A Lua 5.1 program compiled by one build of Lua 5.1 and converted with matching settings runs on another build of Lua 5.1 (different endianness-independent widths, list-flush size, operand layout, binary signature or number width) with the same observable behaviour: same calls with the same arguments in the same order, same results, same error positions. This holds for code with or without debug information.",
 ["programs","configurations"],"every Lua 5.1 source program, every pair of (input build, output build), stripped or not",
 "The tests execute seven converted files and check one global; none runs converted code on a differently configured VM, and none is stripped.",
 ["src/function/convert.rs","src/function/builder.rs","src/function/mod.rs","src/function/instruction/settings.rs","src/function/instruction/operand/mode.rs"],
 [("convert","src/function/convert.rs"),("FunctionBuilder","src/function/builder.rs"),("settings-driven operand decode/encode","src/function/instruction/operand")],["unify()","execution by the Lua 5.1 VM"])
p("C06","Lua 5.0 programs behave the same after conversion to Lua 5.1",
 "A program compiled to Lua 5.0 byte code, converted with matching settings and run by the Lua 5.1 VM, shows the behaviour Lua 5.0 gives it: the same calls with the same arguments in the same order, the same results, and errors at the same places, whatever mix of expressions, closures and upvalues, methods, loops, tables, multiple assignment and varargs it uses, with or without debug information.",
 ["programs","configurations"],"every Lua 5.0 source program that does not inspect the global table or use operations that Lua 5.1's library itself changed, every input format, any 5.0 operand layout and stack limit",
 "Five small Lua 5.0 files are executed by the tests; combinations of constructs, nesting, stripped code and other input formats are not.",
 ["src/function/upcast.rs","src/function/builder.rs","src/function/constant.rs","src/function/mod.rs","src/function/instruction/lua50.rs"],
 [("upcast","src/function/upcast.rs"),("ConstantManager","src/function/constant.rs")],["unify()","execution by the Lua 5.1 VM"])
p("C07","Table constructors keep every element at its index",
 "A table constructor of any length, for any input and output list-flush size (equal, smaller or larger), in Lua 5.0 or Lua 5.1 code, builds the same table after conversion: every positional element at its index, including when elements are calls, nested constructors, closures, logical or comparison expressions or nil, when keyed fields are interleaved, and when the last element is an open call or vararg.",
 ["programs","configurations"],"every constructor shape and length around and across page boundaries, every pair of flush sizes",
 "Unit tests convert lists of 4, 6, 9 and 20 plain constants for one pair of flush sizes; exact multiples, open tails, keyed fields and compound elements at page boundaries are not sampled.",
 ["src/function/upcast.rs","src/function/convert.rs","src/function/builder.rs","src/function/instruction/lua51.rs"],
 [("SETLIST re-paging","src/function/upcast.rs, src/function/convert.rs"),("stack_destination, move_stack_accesses","src/function/instruction")],["unify()","execution by the Lua 5.1 VM"])
p("C08","Converted Lua 5.0 loops iterate exactly as in Lua 5.0",
 "Numeric and generic for loops of Lua 5.0 code run the same iterations with the same loop variables after conversion: any start, limit and step (including zero-trip, negative and fractional), any number of iteration variables, iterator functions or plain tables, empty bodies, breaks, nesting, and assignment to or capture of loop variables. Apart from the loop's own registers, no register that Lua 5.0 leaves alone in the loop changes its value.",
 ["programs","inputs"],"every loop nest, every start/limit/step, every iterator and variable count, every register assignment",
 "Three loops are executed by the tests, all non-empty, with one or two variables and constant bounds.",
 ["src/function/upcast.rs","src/function/builder.rs","src/function/constant.rs"],
 [("FORLOOP / TFORLOOP / TFORPREP expansion","src/function/upcast.rs"),("last_instruction_offset, insert_extra_instruction","src/function/builder.rs")],["unify()","execution by the Lua 5.1 VM"])
p("C09","Lua 5.0 vararg functions receive their extra arguments in arg",
 "In a converted Lua 5.0 vararg function, for every number of fixed parameters and every number of passed arguments, the parameters hold the leading arguments and the local arg is a fresh table whose entry i is the i-th extra argument (nil entries included); the rest of the function, its jumps and its other locals are unaffected, and functions that are not vararg are left alone.",
 ["programs","inputs"],"every parameter count, argument count and argument value, every function body including ones that jump back to their first instruction",
 "One test calls one vararg function with two parameters and three extra arguments.",
 ["src/function/upcast.rs","src/function/mod.rs"],
 [("vararg prologue","src/function/upcast.rs"),("is_variadic |= 2","src/function/mod.rs")],["unify()","execution by the Lua 5.1 VM"])
p("C10","Jumps reach the corresponding instruction after code is rewritten",
 "However many instructions conversion inserts, removes or replaces, every jump, loop back-edge and conditional skip of the input leads to the code that corresponds to its original target, forwards and backwards, for every jump distance, including jumps to the first instruction, to a rewritten instruction and over rewritten regions. Executing converted code therefore follows the same path as the input code.",
 ["programs","inputs"],"every control-flow graph over rewritten and plain instructions, in 5.0 code and in 5.1 code with different flush sizes",
 "Unit tests check the jump arithmetic on builders of two or three instructions; no test has a jump to a removed instruction, a zero-distance jump or nested rewritten regions.",
 ["src/function/builder.rs","src/function/upcast.rs","src/function/convert.rs"],
 [("line_weight, final_offset, is_fixed","src/function/builder.rs")],["unify()","execution by a reference interpreter and by the Lua 5.1 VM"])
p("C11","Limits are respected or reported, never silently exceeded",
 "Code accepted by conversion is valid for the target: every operand and constant index fits its field and is encoded without truncation, every register the code touches lies below the function's declared stack size, and that size does not exceed the output stack limit, so the target's byte code verifier accepts it. When a program needs a value, stack slot or instruction word that the output cannot hold, conversion fails with the matching error instead of emitting altered code.",
 ["inputs","configurations"],"every program near the limits (constant indices, registers, jump distances, stack depth), every output layout, instruction width and stack limit",
 "Two tests check one overflow each in isolation; no test goes through a whole conversion near a limit or with layouts narrower or wider than the input's.",
 ["src/function/builder.rs","src/function/instruction/operand/layout.rs","src/function/instruction/operand/mode.rs","src/serialization/writer.rs"],
 [("OperandLayout::put","src/function/instruction/operand/layout.rs"),("FunctionBuilder::finalize stack check","src/function/builder.rs")],["unify()","Lua 5.1 byte code verifier"])
p("C12","Number constants keep their value or the conversion fails",
 "Every number constant keeps its exact value whenever the output number type can represent it, for every combination of input and output number width and float or integer representation, and the representation of a Lua 5.0 input is recognised from its header for both widths. A constant that an integer output type cannot represent makes the conversion fail; it is never wrapped, truncated or saturated to another number (a float output type may round to the nearest value).",
 ["inputs","configurations"],"every 32/64 bit float and integer value, every input and output number representation, both versions",
 "Tests convert the number 9 and a few constructed values; no boundary value passes through a whole conversion and 5.0's number detection is tested for one width.",
 ["src/number.rs","src/format/mod.rs","src/serialization/stream.rs","src/serialization/writer.rs"],
 [("Number::as_integer / as_float","src/number.rs"),("5.0 test number","src/format/mod.rs")],["unify()"])
p("C13","Strings are preserved byte for byte",
 "Every string in a chunk (constants, source names, local and upvalue names) of either version has the same bytes and the same length after conversion, whatever bytes it contains (embedded zeros, bytes above 127, invalid UTF-8), whatever its length, absent strings stay absent, and string constants that differ stay different.",
 ["inputs","configurations"],"every byte string at every place a string can occur, every size_t width and endianness",
 "All strings in the tests are short ASCII.",
 ["src/serialization/stream.rs","src/serialization/writer.rs","src/function/constant.rs"],
 [("ByteStream::string / ByteWriter::string","src/serialization")],["unify()"])
p("C14","Debug information stays attached to the right code",
 "After conversion every instruction that comes from an input instruction carries that instruction's line number, inserted instructions carry the line of code next to them, function line ranges, local variable names and upvalue names are kept, and stripped functions stay stripped and complete. Runtime errors and debug.getinfo in converted code report the lines the input code would report.",
 ["programs","inputs"],"every program with arbitrary line numbers, stripped and unstripped, of both versions, including heavily rewritten functions",
 "Line information is only looked at in builder unit tests with two or three instructions; no test has stripped input.",
 ["src/function/builder.rs","src/function/mod.rs","src/function/local.rs","src/function/upcast.rs","src/function/convert.rs"],
 [("line_info in FunctionBuilder","src/function/builder.rs")],["unify()","debug.getinfo and error messages in the Lua 5.1 VM"])
p("C15","Every accepted instruction layout is honoured exactly",
 "An instruction layout is accepted exactly when it names each operand once, respects the documented size limits, keeps B and C adjacent and fits an instruction word; with any accepted input and output layouts, converting re-packs every opcode, operand, constant flag and signed jump from one layout to the other without changing its value, or fails when it does not fit.",
 ["configurations","inputs"],"every permutation and size of the four operands for input 5.0, input 5.1 and output layouts, every instruction",
 "Tests build one valid layout and five invalid ones and never convert with a custom layout.",
 ["src/function/instruction/operand/layout.rs","src/function/instruction/operand/mod.rs","src/function/instruction/operand/mode.rs","src/function/instruction/lua51.rs"],
 [("InstructionLayout::from_specification","src/function/instruction/operand/layout.rs"),("constant bit","src/function/instruction/lua51.rs")],["unify()","InstructionLayout::from_specification()"])
p("C16","Conversion is deterministic, path-independent and idempotent",
 "The same input, format and settings always give the same result, in any order of calls and from any number of threads at once. Converting through an intermediate format that can hold every value gives the same bytes as converting directly, and converting a result again to the same format changes nothing.",
 ["histories","inputs","schedules"],"every sequence and interleaving of conversions, every chain of formats, both input versions",
 "Every test performs one isolated conversion.",
 ["src/lib.rs","src/function/mod.rs","src/function/constant.rs"],
 [("unify is a pure function","src/lib.rs")],["unify()"])
p("C17","Optional features do not change conversion; serialised settings round-trip",
 "Building the library with its debug or serde feature gives the same result or error for every input, format and settings as building it without. With serde, every format, settings value, layout and error that is serialised and deserialised again compares equal to the original and converts identically.",
 ["configurations","inputs"],"every feature combination, every input, every Format, Settings, InstructionLayout, OperandType and LunifyError value",
 "Tests are built with one feature set only and never serialise anything.",
 ["Cargo.toml","src/lib.rs","src/function/mod.rs","src/format/mod.rs","src/error.rs","src/function/instruction/settings.rs"],
 [("#[cfg(feature = \"debug\")] blocks","src/**"),("serde derives","src/**")],["unify()","Serialize/Deserialize impls"])
p("C18","Functions keep what both versions express alike and are converted independently",
 "For Lua 5.0 as for Lua 5.1 input the tree of functions keeps its shape, and each function keeps its source name, line, parameter count, upvalue count and names, local names, and its constants at their indices (conversion only appends constants). Instructions with a direct Lua 5.1 counterpart are carried over one to one, in order and with their operands, and code made only of such instructions gains nothing except the collection of extra arguments in vararg functions. What becomes of a function does not depend on the functions around it: nested anywhere or as a chunk of its own it gives the same function, and a chunk converts exactly if all its functions do.",
 ["inputs","configurations"],"every tree of functions of both versions, every mix of instructions that are carried over and instructions that are rewritten",
 "Tests convert a handful of complete files and single instructions; none relates the conversion of a function to that of its parent, children or siblings.",
 ["src/function/mod.rs","src/function/upcast.rs","src/function/convert.rs","src/function/constant.rs","src/function/builder.rs"],
 [("Function::from_byte_stream","src/function/mod.rs"),("one-to-one arms of the upcast","src/function/upcast.rs"),("appended constants","src/function/constant.rs")],["unify()"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
