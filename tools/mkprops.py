#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run after editing it)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, claim=None, note=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text},
                  why_tests_cant=why, anchors={"files": files, "mechanism": [{"name": mech, "where": ", ".join(files)}], **({"state": state} if state else {})},
                  claim=claim, note=note))


TRACE = "TLA+ specification of the language, engines and functions; TLC validates traces recorded from the real library against it"
prop("P01", "Operators compute what their types define",
     "For every operator, every pair of operand types it accepts and every operand value for which it is defined, a compiled expression yields exactly the value of promoting the operands to the common type (by the signedness of each operand's own type) and applying two's-complement or IEEE-754 arithmetic, comparison, or byte-string/list concatenation and comparison there. The value does not depend on whether operands are literals or run-time values, nor on how the expression is nested.",
     ["inputs", "programs"], "all expressions over all operator/type combinations and all operand values (undefined integer cases excluded; fast fp mode only where results are exact)",
     "Tests sample a few values per type, mostly small and of equal signedness; mixed-sign promotion of u8 into i16 was wrong and passed them all.",
     ["src/codegen/codegen.cc", "src/codegen/binary_op_codegen.cc", "src/codegen/unary_op_codegen.cc", "src/codegen/const_value_codegen.cc", "src/type.cc"],
     "numeric type promotion and conversion in CodeGen, operator lowering to IR, LLVM O3", TRACE,
     "Every recorded result is recomputed by the specification (Word/Ieee/Lang); exhaustive over operator x type pair, sampled over values and nesting; thorough sweeps all 8-bit operand pairs. Trusts TLC, the driver's encoding of values, and that LLVM's behaviour on unsampled values follows the sampled ones.")
prop("P02", "Exactly the well-typed programs compile, with the right result type",
     "Compile accepts a program if and only if the typing rules of the language accept it, rejects all others with a parse error and never crashes, miscompiles to an internal error or loops, whatever tree it is given. An accepted program reports the result type the rules give it.",
     ["programs"], "all finite program trees: every construct with every combination of operand types, arities, names, literals",
     "Tests try a handful of ill-typed programs; the space of operand types and nestings is combinatorial.",
     ["src/validator.cc", "src/function_registry.cc", "src/type.cc", "src/exec_node.cc"], "Validator visitor, NumericType promotion, function lookup by signature", TRACE,
     "Elab in Lang.tla decides acceptance of each program; exhaustive over construct x operand types at depth 1, random edits of well-typed programs beyond.")
prop("P03", "Each effect happens exactly when and as often as program order says",
     "Executing a program performs the stores and error reports of its calls in program order, each exactly as often as evaluation reaches it: and/or evaluate their right side only when needed, if and switch evaluate only the conditions up to the first true one and the selected value, if-blocks run only the selected body. Optimization, repetition of equal calls, and nesting never add, drop, repeat or reorder an effect.",
     ["programs", "inputs"], "all programs and all truth assignments of their conditions",
     "Tests check final values of a few shapes; lost or duplicated effects under nesting and optimization are invisible to them.",
     ["src/codegen/binary_op_codegen.cc", "src/codegen/if_codegen.cc", "src/codegen/switch_codegen.cc", "src/codegen/if_block_codegen.cc", "src/codegen/function_codegen.cc", "src/function_registry.cc", "src/jit_core.cc"],
     "control-flow lowering, function attributes given to LLVM, O3 pipeline", TRACE,
     "The evaluator Ev threads a store log and an error list; the recorded log of each run must equal it. Sampled programs, several inputs each.")
prop("P04", "Variables follow lexical scoping and never leak",
     "A variable read yields the value last assigned on the executed path in the scopes that enclose it; assignments to outer variables inside an if-block body persist exactly when that body ran, and names introduced inside stay inside. Constants are never reassigned, types never change, and the entries of a batch never see, shadow or constrain each other's variables.",
     ["programs", "inputs"], "all programs of nested sequences, isolated sequences and if-blocks, all branch outcomes, and all batches of them",
     "Tests use a few fixed shapes; a merge of branch values after a condition with control flow failed to compile, and batch entries shared declarations, with all tests passing.",
     ["src/scope_stack.h", "src/validator.cc", "src/codegen/if_block_codegen.cc", "src/codegen/no_op_codegen.cc", "src/codegen/ref_node_codegen.cc", "src/jit_core.cc"],
     "ScopeStack in Validator and CodeGen, PHI merging after if-blocks", TRACE,
     "Scopes are modelled as a stack of maps in both Elab and Ev; every variable is dumped after statements and compared. Sampled programs.")
prop("P05", "Engines hold exactly the program last compiled or loaded",
     "At every point of any sequence of compile, load, save, execute and query calls, on any mix of engines, each engine behaves as the program of its own last successful compile or load (in all entries, counts and types); a failed compile leaves it uncompiled (an empty batch is refused without effect), a failed load leaves it unchanged. Calls that need a program, or an entry that does not exist, return a runtime error without side effects, and no call ever affects another engine.",
     ["histories"], "all sequences of operations on several engines, artifacts and registries, with succeeding and failing calls interleaved",
     "Tests run single short scripts; histories in which failures precede use (execute after failed load or failed batch compile) crashed with all tests passing.",
     ["src/exec_engine.cc", "src/batch_exec_engine.cc", "src/jit_core.cc", "include/exec_engine.h", "include/batch_exec_engine.h"],
     "JitCore ownership, entry pointer tables, LoadObject/BuildAndLink failure paths",
     "TLA+ engine state machine, model-checked with TLC; its behaviours replayed into the real engines and validated by TLC trace checking",
     "EngineMC is explored exhaustively for small constants; every transition of its state graph (a seeded sample of them in the quick tier) is replayed on the real library along a shortest path, then long random behaviours; results are validated against the same operators.")
prop("P06", "Errors are reported completely, once, to the right execution",
     "An execution fails with a runtime error if and only if its context held or it reported an error, and the message lists all of them in order; a later execution of any program in the same or another context is unaffected. Executing all entries of a batch runs every entry, whatever fails, and reports each failing entry's errors in entry order; a context passed in is left empty.",
     ["histories", "programs"], "all sequences of executions of programs with and without errors over shared, reused and fresh contexts, single and batch",
     "Tests check one failing call at a time; leaks between executions appear only in sequences.",
     ["include/exec_options.h", "src/exec_engine.cc", "src/batch_exec_engine.cc", "src/codegen/function_codegen.cc"],
     "ExecContext error list, per-entry status aggregation", TRACE,
     "Contexts are sequences of held errors in the specification; each execution's status and error list must equal the specified one. Random histories.")
prop("P07", "A saved artifact reloads as the same program",
     "Bytes written by saving a compiled engine, loaded into any engine of the same kind with a registry that provides the called functions, give an engine that returns the same types, values, stores and errors for every input as the original; this survives destroying the original engine and registry, saving repeatedly, into a used string, and loading any number of times. Only an engine whose program came from a compile with saving enabled can save, and saving never changes the engine.",
     ["programs", "histories", "inputs"], "all programs (single and batch, every constant and function kind), all histories of save and load between engines",
     "Tests reload a few expressions once; every constant kind, function kind and batch shape takes its own path through relocation.",
     ["src/compiled_artifact.cc", "src/exec_engine.cc", "src/batch_exec_engine.cc", "src/jit_core.cc", "src/codegen/const_global_emit.cc", "src/function_registry.cc"],
     "object capture in the ORC transform layer, artifact serialization, symbol mapping", TRACE,
     "After a load, the specification expects of the loading engine exactly the elaborated program of the saving one; random programs over all node and value kinds.")
prop("P08", "Damaged or foreign artifacts are refused and change nothing",
     "Loading bytes that are not a complete, well-formed artifact of the right kind, format version, LLVM version, target and CPU fails with an error - except that each of the last three is ignored when its check is disabled - whatever the bytes around the embedded object code are: no crash, no out-of-bounds read, no unbounded allocation. (Flips confined to the object code itself are out of scope: the format carries no checksum of it.) A refused load leaves the engine's current program intact.",
     ["inputs", "fault_sequences"], "all byte strings: every truncation, extension, field edit and splice of valid artifacts, and all combinations of disabled checks",
     "Tests flip a few header fields; sizes that overflow and counts beyond the blob crashed the process with all tests passing.",
     ["src/compiled_artifact.cc", "src/compiled_artifact.h", "src/exec_engine.cc", "src/batch_exec_engine.cc"],
     "ArtifactReader bounds checks, header comparison with the host",
     "TLA+ specification of the artifact format as a byte parser; TLC decides each mutated blob and validates the recorded load result",
     "The byte layout is specified and TLC decides acceptability of each mutated header/trailer (object bytes, which carry no checksum, are never altered in place). Systematic over fields and truncation points, sampled over values; run under AddressSanitizer.")
prop("P09", "The arena never hands out overlapping, misaligned or stale memory",
     "Every non-empty allocation since the last reset is disjoint from every other, aligned as requested and keeps its content until the next reset, for every mix of sizes and alignments; objects created in it are destroyed exactly once, in reverse order, at reset or destruction. Impossible requests yield null without disturbing anything, and accounting of total and available bytes is consistent.",
     ["histories"], "all sequences of allocate, create, reset and destroy with arbitrary sizes, alignments and chunk sizes",
     "Tests allocate in a few fixed patterns; overlap arises from particular size/remaining-space combinations.",
     ["include/arena.h", "src/arena.cc"], "bump allocation over chunk list, finalizer list",
     "TLA+ arena specification (disjointness, alignment, lifetimes), model-checked and validated by TLC on recorded allocation traces",
     "ArenaTrace constrains only observable addresses, contents and destructor calls; systematic boundary sizes plus random sequences.")
prop("P10", "A call runs the function registered for exactly its name and types",
     "For every sequence of registrations, a call or lookup resolves to the function most recently and successfully registered under exactly that name and parameter types, with that registration's return type, kind and context convention; anything else is rejected. A registration that is refused (null, or duplicate without override) changes nothing, and declaring a function commutative or context-taking never changes the result of a call.",
     ["histories", "programs"], "all sequences of registrations, overrides and lookups over all registration kinds, names and parameter types, and programs calling them",
     "Tests register distinct functions once; overriding with another return type kept the old type with all tests passing.",
     ["src/function_registry.cc", "include/function_registry.h", "src/codegen/function_codegen.cc", "src/validator.cc", "src/jit_core.cc"],
     "signature map, legacy and context signatures, attributes, commutative canonicalization",
     "TLA+ registry specification; TLC validates registration, lookup, compile and call traces",
     "RegistryTrace models the map from signatures to registrations; random and systematic histories with calls whose results identify the implementation that ran.")
prop("P11", "Scalar numeric built-ins return their documented values",
     "Every scalar numeric built-in returns, for every argument type and value in its documented domain, the documented mathematical result in the documented type.",
     ["inputs"], "all argument types and values of the scalar built-ins",
     "Tests call each function on one or two values.",
     ["src/function/math_function_init.cc", "doc/function.md"], "C implementations and intrinsics registered per type", TRACE,
     "Exact for abs, min, max, rounding, sqrt and casts; exp, log*, sin, cos, tan and pow within 2^-45 (f64) or 2^-20 (f32) of a 115-bit evaluation in the specification, exactly by rule at infinities, NaN, zeros and outside the domain.")
prop("P12", "String built-ins and string comparison are exact on all byte strings",
     "Every string built-in returns the documented result for all byte strings, including empty ones and ones with zero or non-ASCII bytes, and never modifies its arguments.",
     ["inputs"], "all byte strings up to the sampled lengths, all argument combinations",
     "Tests use a few ASCII words.",
     ["src/function/string_function_init.cc", "src/function/murmurhash3.cc", "doc/function.md"], "C implementations over StringStruct with arena results", TRACE,
     "Byte-exact recomputation by the specification; text rendered from a float must read back as exactly that float. Also run under AddressSanitizer.")
prop("P13", "List lookup, filtering, transformation and sorting are exact",
     "Every list built-in that searches, filters, converts, reorders, removes duplicates, splits or slices returns the documented list for all lists, including empty ones, duplicates, unequal lengths and out-of-range positions (which are reported as errors where documented), and never modifies its arguments.",
     ["inputs"], "all lists and element types, all index values",
     "Tests use one or two short lists per function and type.",
     ["src/function/list_basic.cc", "src/function/list_indexing.cc", "doc/function.md"], "per-type template instantiations", TRACE,
     "Recomputed by the specification; all element types, systematic small lists plus random ones.")
prop("P14", "Aggregation and grouping are exact",
     "Every aggregation and group-by built-in returns the documented value for all lists, of every element type, including empty lists and lists whose lengths differ (reported as errors where documented); group keys keep first-appearance order and every element is counted in exactly one group.",
     ["inputs"], "all lists, element types and groupings", "Tests use one or two short lists per function.",
     ["src/function/list_aggregation.cc", "src/function/list_group.cc", "doc/function.md"], "per-type template instantiations", TRACE,
     "Recomputed by the specification; floating sums only where exact.")
prop("P15", "Element-wise list built-ins agree with the scalar operations",
     "Every element-wise list built-in (arithmetic, comparison, bitmap, conditional) yields, at every position and for every list length, what the scalar operation yields on the corresponding elements; bitmaps hold exactly one bit per element in the documented order and nothing else is written; unequal lengths are reported as errors.",
     ["inputs"], "all lists and lengths (in particular around multiples of 8 and of the vector width), all element types",
     "Tests use short lists of a fixed length; vectorized kernels and bitmap packing differ at boundaries.",
     ["src/function/list_arithmetic.cc", "src/function/list_comparison.cc", "doc/function.md"], "vectorizable kernels, bitmap packing", TRACE,
     "Recomputed by the specification at lengths around vector and byte boundaries.")
prop("P16", "Source text denotes one program, whatever its layout",
     "Every well-formed expression text compiles to the program its grammar gives it: operator precedence and associativity, literal values of every type exactly as written, comments and whitespace ignored. Text outside the grammar, or with literals that do not fit, is rejected with a parse error; no text crashes the compiler (nesting deeper than the stack allows aside).",
     ["inputs", "programs"], "all texts: all token sequences, literals of all types, arbitrary bytes",
     "Tests try each operator pair and a few literals.",
     ["athena/token.ll", "athena/parser.yy", "athena/ast_builder.cc", "athena/athena.cc"], "flex scanner, bison grammar, AST builder",
     "TLA+ specification of lexer and grammar; TLC parses each text and validates what the compiled text computed",
     "The specification lexes, parses and evaluates the same text; generated from trees (printed with minimal or redundant parentheses), token soups, and byte noise.")
prop("P17", "A pipeline runs every statement with the effects of its source order",
     "A compiled pipeline runs every statement of every source exactly once per execution, reading the variables in scope in its own source; grouping sources that share inputs changes nothing but speed, effects keep their order within each source, and no source sees another's variables.",
     ["programs", "histories"], "all sets of pipeline sources with variables, if-blocks and stores",
     "Tests use a few fixed pipelines.",
     ["athena/pipeline_grouper.cc", "athena/dsu.cc", "athena/athena.cc", "athena/parser.yy"], "grouping by shared subtrees, batch engine",
     TRACE, "Observed stores must be an interleaving the specification allows.")
prop("P18", "Concurrent executions are independent",
     "Executions of the same or different compiled engines by any number of threads, each with its own context or none, give each caller exactly the results, stores and errors it would have got alone, under every interleaving, and no execution waits for another one.",
     ["schedules"], "all interleavings of executions of shared engines, with contexts reused across executions",
     "Tests are single-threaded.",
     ["src/exec_engine.cc", "src/batch_exec_engine.cc", "include/exec_options.h", "src/arena.cc", "src/function"], "read-only engine during execution, per-call context",
     "TLC enumerates interleavings of a concurrency model; each is enforced on real threads through scheduling points and the recorded results are validated",
     "All interleavings of the scheduling points for small thread/step counts, plus free-running stress under ThreadSanitizer.")
prop("P19", "Diagnostics point at the offending source",
     "Every rejection of a source text, or of a program tree whose nodes carry source positions, names the line and column where the construct at fault begins, quotes every line that construct touches verbatim and underlines exactly that construct, for every layout of the text and whatever was compiled before. The fault is the first token with which the text cannot continue, else (in pipelines) the first read of a variable that nothing before it defines, else the first construct in program order that breaks a typing rule. A fault without a position is reported as one line.",
     ["inputs", "histories"], "all texts with an error at any position, preceded by any layout, comments and earlier compilations; all trees with any positions",
     "Tests check a few one-line messages.",
     ["src/diagnostic.cc", "src/validator.cc", "athena/token.cc", "athena/parser.cc", "athena/ast_builder.cc", "src/function_registry.cc"], "bison locations, node locations, Validator failures, Diagnostic::Render",
     "TLA+ specification of the grammar, typing rules and source positions; TLC computes the report each rejected text must get and compares the recorded bytes",
     "Everything but the wording of the message is compared byte for byte. Faults of every kind injected into random programs with random layout; raw trees; the renderer on its own. Sampled.")
prop("P20", "Inputs and constants are never modified, and results are self-contained",
     "Executing never changes the caller's arguments or the program's own constants, so any repetition of an execution on the same inputs gives the same result, and a returned result does not change when the context, engine or inputs are later reused or destroyed.",
     ["histories", "inputs"], "all programs and all sequences of repeated executions", "Tests execute once.",
     ["src/codegen/const_global_emit.cc", "src/codegen/const_list_value_codegen.cc", "src/execute_dispatch.h", "src/function"], "constant globals, arena results, result boxing", TRACE,
     "Argument buffers with guard bytes are compared before and after; repeated executions must give the specified values again.")
prop("P21", "A cloned program is the same program and shares nothing",
     "Cloning a program tree or any part of it, complete or not, yields a tree that prints the same and keeps every operator, constant, name, let mark, isolation and source position, so it compiles to the same program or is rejected with the same report. The two share nothing: whatever is later appended to, relocated in, compiled from or destroyed of one does not show in the other, nor in an engine that was compiled from either; compiling a tree does not change what it means. Trees that print the same have the same shape, operators, names and let marks.",
     ["histories", "programs"], "all program trees and all sequences of making, cloning, appending, relocating, printing, compiling and destroying",
     "Tests clone a few nodes once; sharing shows only when one of the two is changed or destroyed afterwards.",
     ["src/exec_node.cc", "include/exec_node.h", "src/validator.cc", "src/batch_exec_engine.cc"], "Clone and ToString of every node, AppendArgs, SetLocation",
     "TLA+ specification of trees as values, model-checked with TLC; its behaviours replayed on the real library and validated by TLC trace checking",
     "TreeMC is explored exhaustively for two places and one engine, its transitions replayed (a seeded sample in the quick tier); random longer histories over all node kinds with positions, single and batch, also under AddressSanitizer.")

TODO = {}
if __name__ == "__main__":
    sys.path.insert(0, V + "/lib")
    import checks
    with open(V + "/properties.jsonl", "w") as f:
        for p in P:
            f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
    m = {"version": 1, "setup_cmd": "python3 lib/build.py", "checks": [], "not_applicable": [],
         "notes": "TLA+ / TLC; see DESIGN.md. No hooks in /repo: everything is observed through the public API."}
    for p in P:
        if p["id"] in checks.CHECKS:
            m["checks"].append({"property": p["id"], "quick_cmd": f"python3 run.py {p['id']}",
                                "thorough_cmd": f"python3 run.py {p['id']} thorough", "technique": p["claim"],
                                "level": "model_checking", "level_note": p["note"]})
        else:
            m["not_applicable"].append({"property": p["id"], "reason": "no check built yet; work in progress"})
    json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
    assert all(len(p["title"]) <= 80 for p in P)
    print(len(m["checks"]), "claimed", [x["property"] for x in m["not_applicable"]])
