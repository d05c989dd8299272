"""Writes properties.jsonl (kept as code so that the list is reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe="",state=None,hook=""):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":w} for n,w in state]
    if observe: a["observe_at"]=[observe]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","The interpreter and the native-code executor give the same behaviour",
"Any program that compiles behaves identically whether it is run by the register virtual machine or by the x86-64 JIT: same result value and type, same final values of global variables, same output and calls into the host, and the same class of runtime error raised at the same point. Neither executor crashes the host or hangs on a program the other one finishes.",
["programs","inputs","configurations"],"all compilable, deterministic programs; both executors; every optimisation level",
"The tests run a fixed set of ~1000 programs on both executors and compare with one literal each; instruction selection, register tracking and peephole rewriting depend on combinations of operations, operand kinds and register pressure that no fixed list covers.",
["NULLC/Executor_RegVm.cpp","NULLC/Executor_X86.cpp","NULLC/CodeGenRegVm_X86.cpp","NULLC/CodeGen_X86.cpp","NULLC/Translator_X86.cpp","NULLC/Instruction_X86.cpp"],
[("register VM instruction loop","Executor_RegVm.cpp RunCode"),("JIT lowering of each VM instruction","CodeGenRegVm_X86.cpp GenCodeCmd*"),("register value tracking and redundant load/store removal","CodeGen_X86.cpp EMIT_OP_*, Invalidate*"),("x86 encoding","Translator_X86.cpp x86*")],
"nullcRun result, globals, output, last error")

p("C02","Optimisation level never changes what a program does",
"A program built at any optimisation level (none, default or full) has the same observable behaviour: same result, globals, output, calls into the host and the same runtime error, if any. Raising the level also never turns a program that compiles into one that does not, or the reverse.",
["programs","configurations"],"all compilable, deterministic programs at optimisation levels 0, 1 and 2",
"Optimisation passes (peephole, constant propagation, load/store forwarding, common subexpressions, dead code, inlining, control-flow simplification, register allocation) interact; tests check a handful of hand-picked shapes.",
["NULLC/InstructionTreeVm.cpp","NULLC/InstructionTreeVmCommon.cpp","NULLC/InstructionTreeRegVmLower.cpp"],
[("SSA optimisation passes","InstructionTreeVm.cpp Run*"),("lowering and register allocation","InstructionTreeRegVmLower.cpp"),("level selection","nullc.cpp nullcSetOptimizationLevel")],
"nullcRun result, globals, output, last error per level")

p("C03","Arithmetic and conversions follow the documented numeric rules",
"Every expression over the built-in numeric types evaluates to the value given by the documented promotion, priority, associativity, conversion and wrap-around rules, with operands evaluated left to right and logical operators short-circuiting. Assignment, modify-assignment, increment and decrement convert back to the type of the destination, and number, character and boolean literals denote exactly the written value.",
["programs","inputs"],"all expression trees over bool/char/short/int/long/float/double variables, literals and constants, with all operators, at boundary and ordinary values",
"Tests check single operators on a few values; mixed types, nested priorities, boundary values and destination conversions multiply beyond any table.",
["NULLC/ExpressionTree.cpp","NULLC/ParseTree.cpp","NULLC/Lexer.cpp","NULLC/InstructionTreeVm.cpp","NULLC/Executor_RegVm.cpp","NULLC/CodeGenRegVm_X86.cpp"],
[("operator parsing and priorities","ParseTree.cpp ParseArithmetic / GetBinaryOpPrecedence"),("binary operator typing","ExpressionTree.cpp CreateBinaryOp"),("implicit casts","ExpressionTree.cpp CreateCast"),("numeric literals","ExpressionTree.cpp AnalyzeNumber"),("power of integers","Executor_Common.cpp VmIntPow / VmLongPow")],
"values passed to the host, returned value")

p("C04","Compile-time evaluation gives the run-time value",
"Whatever the compiler evaluates itself has the value the same code produces when executed: constant expressions in array sizes, enumeration values, class constants, default and static conditions, and functions evaluated at compile time. The stand-alone evaluators of the expression tree and of the intermediate code, whenever they produce an answer, produce the answer execution produces, and never crash the host.",
["programs","inputs"],"all programs accepted by an evaluator; all constant expressions in constant contexts",
"The evaluators are separate implementations of the language; tests compare them on fixed programs only.",
["NULLC/ExpressionEval.cpp","NULLC/InstructionTreeVmEval.cpp","NULLC/InstructionTreeVm.cpp"],
[("expression evaluator","ExpressionEval.cpp Evaluate*"),("IR evaluator","InstructionTreeVmEval.cpp EvaluateInstruction"),("constant folding pass","InstructionTreeVm.cpp RunConstantPropagation")],
"nullcTestEvaluate* result against nullcRun result; values of constant contexts")

p("C05","The compiler survives any source text and explains every rejection",
"For any text given as source, compilation terminates and either succeeds or reports an error that names a line inside the text, without crashing, corrupting memory or exhausting the stack of the host. After a rejected text the next valid program compiles and runs as if the bad one had never been seen.",
["inputs","histories"],"all byte strings as source text, as main program or as module",
"Rejection tests are a fixed list of ill-formed programs with exact messages; recovery paths of the parser and analyser after errors are reached by combinations of mistakes nobody listed.",
["NULLC/Lexer.cpp","NULLC/ParseTree.cpp","NULLC/ExpressionTree.cpp","NULLC/Compiler.cpp","NULLC/TypeTree.cpp"],
[("lexing","Lexer.cpp Lexify"),("parser error recovery","ParseTree.cpp Report / Check*"),("analysis error recovery","ExpressionTree.cpp Report / ReportAt / Stop"),("error formatting","Compiler.cpp, ParseTree.cpp AddErrorLocationInfo")],
"nullcBuild return value, nullcGetLastError, process status")

p("C06","Faulting scripts raise reported errors and never take the host down",
"An out-of-range index, null access, division by zero, failed conversion of a generic reference or array, missing return, call of a null function, bad allocation size, or runaway recursion stops the script with an error naming the fault, with a call stack whose lines are the lines of the active calls. Memory outside the faulting object is untouched, effects before the fault stay visible and the same host can go on to run other code.",
["programs","fault_sequences","configurations"],"all programs that fault, any faulting operation at any call depth, in any context (global code, function, method, closure, coroutine, nested through the host); both executors; every optimisation level",
"Fault tests check one fault each in one position; detection is re-implemented per instruction, per executor and may be optimised away.",
["NULLC/Executor_RegVm.cpp","NULLC/Executor_X86.cpp","NULLC/CodeGenRegVm_X86.cpp","NULLC/StdLib.cpp","NULLC/Executor_Common.cpp"],
[("bounds and null checks","Executor_RegVm.cpp rviIndex/rviNullCheck..., CodeGenRegVm_X86.cpp GenCodeCmdIndex..."),("signal handlers","Executor_X86.cpp CanWeHandleSEH / HandleError"),("conversion checks","Executor_RegVm.cpp rviConvertPtr, rviCheckRet"),("call stack report","Executor_Common.cpp PrintStackFrame")],
"nullcRun status, nullcGetLastError, later runs")

p("C07","Garbage collection keeps exactly what is reachable",
"Collecting at any moment never changes what a program computes: every object reachable from globals, locals, temporaries, closures, coroutine state, generic references, arrays and containers keeps its contents and identity. Objects that are no longer reachable are reclaimed by a collection, and the finalizer of a class that has one runs exactly once per object, only after the object became unreachable or when finalisation is requested.",
["programs","histories","schedules"],"all object graphs and mutation histories, with a collection forced at any subset of program points and under any memory pressure",
"Tests collect at a few fixed places on fixed shapes; which slots are scanned depends on type layout, executor and frame layout.",
["NULLC/StdLib.cpp","NULLC/Executor_Common.cpp","Modules/std/gc.nc"],
[("root marking","Executor_Common.cpp MarkUsedBlocks"),("object traversal","Executor_Common.cpp GC::CheckPointer..."),("block allocator and sweep","StdLib.cpp NULLC::AllocObject, CollectMemory, ObjectBlockPool"),("finalizers","StdLib.cpp FinalizeObject / finalizeList")],
"values read after collections, finalizer call log, GC.UsedMemory")

p("C08","Closures, coroutines and local functions keep their own captured state",
"A function value sees exactly the variables of the activation that created it, shared with that activation and with other closures over the same variable while it lives and kept after it ends; every loop iteration and call creates fresh variables. A coroutine resumes where it last yielded with its locals intact, restarts after returning, and separately created instances do not interfere.",
["programs","histories"],"all nestings of function literals, local functions, loops and coroutines, and all call/resume orders",
"Capture lists, upvalue closing and coroutine state saving are compiler generated per nesting shape; tests cover a few shapes and call orders.",
["NULLC/ExpressionTree.cpp","NULLC/TypeTree.cpp","NULLC/InstructionTreeVm.cpp","NULLC/StdLib.cpp"],
[("closure context construction","ExpressionTree.cpp CreateFunctionContext*, GetFunctionUpvalue"),("closing of upvalues","ExpressionTree.cpp CreateBlockUpvalueClose..., __closeUpvalue"),("coroutine state","ExpressionTree.cpp coroutine state handling; VM_INST_YIELD/UNYIELD")],
"values returned by calls, traces")

p("C09","Splitting a program into modules or precompiling it changes nothing",
"A program behaves the same whether its declarations are written in one file, are moved to modules that are imported from source, or are imported from previously saved bytecode of those modules, also when modules import modules and when the same module is reached through several paths. A saved bytecode image can be reloaded, linked and run any number of times with the behaviour of the original.",
["programs","histories","configurations"],"all ways of distributing declarations over modules; all orders of loading; source and binary form",
"Import re-creates types, functions, generics, typedefs, namespaces, constants and default arguments from a binary image; tests import a few fixed declarations.",
["NULLC/Bytecode.cpp","NULLC/BinaryCache.cpp","NULLC/Compiler.cpp","NULLC/ExpressionTree.cpp","NULLC/Linker.cpp"],
[("bytecode writer","Compiler.cpp GetBytecode"),("module import","ExpressionTree.cpp ImportModule*"),("binary cache","BinaryCache.cpp"),("linking and relocation","Linker.cpp LinkCode")],
"behaviour of the combined program")

p("C10","Host calls leave no trace: each build and run starts clean",
"What a program does depends only on its source, the modules loaded and the selected settings, not on what the same host compiled, ran, failed or cleaned before. Compile errors, runtime errors, cleared errors, executor switches, and full termination and re-initialisation all leave the system ready to give the same results as a fresh process.",
["histories","fault_sequences","configurations"],"all sequences of API calls (initialise, load, remove, compile, link, run, call, clean, switch executor/level, terminate) including failing ones",
"Tests run each program in a mostly fixed sequence; state kept in globals, caches, pools and executors is only exercised in that order.",
["NULLC/nullc.cpp","NULLC/BinaryCache.cpp","NULLC/Linker.cpp","NULLC/StdLib.cpp","NULLC/Executor_X86.cpp","NULLC/Executor_RegVm.cpp"],
[("API state","nullc.cpp namespace NULLC"),("executor reset","Executor_*.cpp ClearNative/InitExecution"),("memory reset","StdLib.cpp ClearMemory/ResetMemory")],
"results of a probe program after the history compared with a fresh process")

p("C11","Values cross the host boundary unchanged",
"Arguments passed from script to a bound host function, its return value, arguments passed by the host to a script function, script results and global variables read or written by the host arrive bit-for-bit unchanged for every signature over numeric types, references, arrays, function values, generic references and small classes by value. Direct and wrapped bindings of the same function agree on both executors, and re-entrant calls (script to host to script) keep both sides intact.",
["inputs","programs","configurations"],"all supported signatures and argument values, both binding kinds, both executors, nested calls",
"The parameter classification into integer/floating/stack slots depends on the whole signature; tests bind a few dozen signatures.",
["NULLC/Executor_RegVm.cpp","NULLC/Executor_X86.cpp","NULLC/Executor_Common.cpp","NULLC/nullbind.h","NULLC/nullc.cpp","external/dyncall"],
[("external call from VM","Executor_RegVm.cpp ExecCall / external call via dyncall"),("external call from JIT","CodeGenRegVm_X86.cpp call wrappers"),("argument packing of host calls","Executor_Common.cpp GetArgumentVector"),("result retrieval","nullc.cpp nullcGetResult*")],
"values recorded by the host functions, nullcGetResult*, nullcGetGlobal")

p("C12","Standard containers behave as the abstract sequences and maps they name",
"For any sequence of operations, the vector, list, hash map, map and generic array-style containers of the standard library report the contents, sizes, lookups and iteration results of the corresponding abstract sequence or dictionary. Misuse such as reading past the end or from an empty container is reported as an error and leaves the container usable.",
["histories","inputs"],"all operation sequences over element types, including growth, removal, clearing and iteration",
"Tests run short fixed sequences; growth, rehash collisions and removal from chains need long or adversarial histories.",
["Modules/std/vector.nc","Modules/std/list.nc","Modules/std/hashmap.nc","Modules/std/map.nc","NULLC/includes/vector.cpp","NULLC/StdLib.cpp"],
[("vector growth and access","Modules/std/vector.nc"),("list links","Modules/std/list.nc"),("hash buckets","Modules/std/hashmap.nc"),("binary tree map","Modules/std/map.nc")],
"values reported by the script after every operation")

p("C13","String, algorithm, math and range functions compute their documented functions",
"String search, comparison, concatenation, slicing, trimming and number formatting, sorting and the other sequence algorithms, ranges, bit and math functions return, for every input, what their documentation says. Sorting yields an ordered permutation of its input for any comparison that is an ordering.",
["inputs"],"all argument values accepted by the library functions",
"Tests check a few literals per function; empty, one-element, repeated and boundary inputs and combinations are where implementations differ.",
["Modules/std/string.nc","Modules/std/algorithm.nc","Modules/std/range.nc","Modules/std/math.nc","NULLC/includes/string.cpp","NULLC/includes/math.cpp","NULLC/StdLib.cpp"],
[("string module","Modules/std/string.nc, includes/string.cpp"),("algorithms","Modules/std/algorithm.nc"),("number/string conversion","StdLib.cpp int::str, StrToInt...")],
"values returned")

p("C14","What is written through file, memory and text streams is what is read back",
"Data written to a file, memory block or string stream by any sequence of typed and array writes, seeks and partial reads is read back as a byte-exact model of the stream predicts, with positions, sizes and end-of-file as documented. Console output shows each value in the documented textual form and integers print and parse back to themselves in any supported base.",
["histories","inputs"],"all operation sequences on a stream and all values written",
"Tests write and read back one or two values.",
["NULLC/includes/file.cpp","NULLC/includes/memory.cpp","NULLC/includes/io.cpp","Modules/std/file.nc","Modules/std/memory.nc","Modules/std/stringio.nc","Modules/std/io.nc"],
[("file object","includes/file.cpp"),("memory block access","includes/memory.cpp"),("console formatting","includes/io.cpp"),("string streams","Modules/std/stringio.nc")],
"bytes on disk, values read back, captured output")

p("C15","Translated C++ has the behaviour of the script",
"For any program the translator accepts, the generated C++ compiles against the shipped runtime and produces the same output and result as running the program. A program that cannot be translated is refused with an error instead of being mistranslated.",
["programs"],"all compilable programs in the translatable language (evaluation order of side effects inside one call's arguments excepted, where C++ leaves it open)",
"Translation tests are disabled in the default test run; when enabled they check the fixed test programs only.",
["NULLC/ExpressionTranslate.cpp","NULLC/translation/runtime.cpp","NULLC/translation/runtime.h"],
[("expression translation","ExpressionTranslate.cpp Translate*"),("C++ runtime","translation/runtime.cpp")],
"stdout of the compiled translation against nullcRun")

p("C16","Run-time type information tells the truth",
"The type of a value held in a generic reference or array, type queries and comparisons, sizes, member names, types and values obtained by reflection, array lengths, function signatures and class hierarchy all agree with the declarations of the program. Converting a value to a generic reference or array and back yields the same object and value, and converting it to any other type is refused.",
["programs","inputs"],"all declared types (classes, arrays, references, functions, enumerations, nested) and values of them",
"Type tables are generated per program; alignment, padding, hash lookup and index translation across modules are only checked on a few types.",
["NULLC/includes/typeinfo.cpp","Modules/std/typeinfo.nc","NULLC/StdLib.cpp","NULLC/Linker.cpp","NULLC/TypeTree.cpp"],
[("type table export","Compiler.cpp GetBytecode"),("reflection","includes/typeinfo.cpp"),("auto ref/auto[] operations","StdLib.cpp")],
"values reported by script reflection against the declarations")

p("C17","Generic instantiation and overload choice equal hand-written code",
"Calling a generic function or using a generic class behaves exactly like calling or using a hand-written copy with the type arguments substituted, for explicit and inferred arguments. Among overloads, the call goes to the one the documented rules select, independent of declaration order, and an ambiguous or unmatched call is rejected with an error.",
["programs"],"all generic functions, generic classes and overload sets over the type system and all argument combinations",
"Tests use fixed pairs of overloads; selection depends on the entire candidate set and argument list.",
["NULLC/ExpressionTree.cpp","NULLC/TypeTree.cpp"],
[("overload rating","ExpressionTree.cpp GetFunctionRating, SelectBestFunction"),("generic matching","ExpressionTree.cpp MatchGenericType"),("instantiation","ExpressionTree.cpp CreateGenericFunctionInstance / CreateGenericClassInstance")],
"traces of which function ran and what it computed")

p("C18","Debugging a program does not change what it does",
"Running with any set of breakpoints and any sequence of continue and step commands gives the same result, output and errors as running without a debugger. A breakpoint on an executed line is hit each time control reaches it, stepping visits lines in execution order, and removing breakpoints restores full speed behaviour.",
["programs","schedules","histories"],"all programs, breakpoint sets and step command sequences (register VM)",
"There is a handful of debugger tests with fixed breakpoints.",
["NULLC/nullc_debug.h","NULLC/nullc.cpp","NULLC/Executor_RegVm.cpp"],
[("breakpoint patching","Executor_RegVm.cpp AddBreakpoint, rviNop handling in RunCode"),("source mapping","nullc.cpp nullcDebug*")],
"hit sequence and final behaviour")

p("C19","Layout, comments and naming of source text do not change a program",
"Re-spacing a program, inserting comments or line breaks between tokens, adding redundant parentheses, renaming its identifiers consistently, or wrapping its code in an extra block or function leaves its behaviour unchanged. Error messages and run-time call stacks follow the moved text: the reported line is always the line the construct is now on.",
["programs","inputs"],"all programs and all behaviour-preserving rewrites of their text",
"Tests compile each program in exactly one layout.",
["NULLC/Lexer.cpp","NULLC/ParseTree.cpp","NULLC/ExpressionTree.cpp","NULLC/Compiler.cpp"],
[("tokenisation","Lexer.cpp Lexify"),("name lookup","ExpressionTree.cpp LookupVariable...; hashes in TypeTree/StrAlgo"),("location bookkeeping","Compiler.cpp source info, ParseTree.cpp AddErrorLocationInfo")],
"behaviour and error positions before and after the rewrite")

p("C20","Statements, classes, arrays and references have value and reference semantics",
"Assignment copies classes and fixed-size arrays, references and unsized arrays alias their target, and control statements (conditionals, loops with multi-level break and continue, switch, for-each, early return) execute exactly the documented statements in order. Member functions, constructors, operator overloads, properties, default, named and variable arguments act on exactly the objects passed to them.",
["programs","inputs"],"all programs over these statements and types",
"Tests check each construct in isolation, not nested in each other.",
["NULLC/ExpressionTree.cpp","NULLC/InstructionTreeVm.cpp","NULLC/InstructionTreeRegVmLower.cpp","NULLC/Executor_RegVm.cpp"],
[("statement analysis","ExpressionTree.cpp Analyze*"),("control flow lowering","InstructionTreeVm.cpp CompileVm*"),("copy operations","Executor_RegVm.cpp rviMemCopy, rviLoad*/rviStore*")],
"trace, result and globals against a reference interpreter")

p("C21","Memory and stack limits set by the host are honoured",
"A script never uses more managed memory than the configured limit: an allocation that would exceed it fails with a reported out-of-memory error after trying to reclaim garbage, and programs whose live data fits keep running no matter how much garbage they make. Recursion deeper than the stack allows is reported as an error, and the host and later runs are unaffected.",
["programs","configurations","fault_sequences"],"all limits, allocation patterns and recursion shapes",
"Tests set one limit and allocate once.",
["NULLC/StdLib.cpp","NULLC/Executor_RegVm.cpp","NULLC/Executor_X86.cpp","NULLC/nullc.cpp"],
[("memory limit","StdLib.cpp NULLC::AllocObject globalMemoryLimit"),("stack limits","Executor_*.cpp call stack / register overflow checks")],
"error or success against the size model, used memory, later runs")

p("C22","Virtual calls, events and function replacement reach the right function",
"A call through a base-class reference runs the function of the object's dynamic type, generic-reference calls dispatch on the held type, and event lists call exactly the currently attached handlers in order. After a host or script replaces a function by another of the same type, every later call, direct or through function values, runs the replacement, and everything else is untouched.",
["programs","histories"],"all class hierarchies, overriding sets, handler attach/detach histories and replacement histories",
"Tests build two-level hierarchies and one replacement.",
["NULLC/StdLib.cpp","NULLC/ExpressionTree.cpp","NULLC/Executor_RegVm.cpp","NULLC/Executor_X86.cpp","Modules/std/event.nc","NULLC/includes/dynamic.cpp"],
[("virtual tables","ExpressionTree.cpp CreateVirtualTable..., StdLib.cpp __redirect"),("function redirect","nullc.cpp nullcSetFunction / nullcRedirectFunction, dynamic.cpp override")],
"traces of which function ran")

p("C23","Compilation and execution are deterministic",
"Compiling the same source with the same settings and modules always yields the same bytecode, listing and errors, and running it always yields the same behaviour, in any process and after any number of repetitions. Memory addresses, previous allocations and hash-table state never show through.",
["histories","configurations","programs"],"all programs and repetitions, in fresh and used processes, with different memory layouts",
"Tests compile each program a fixed number of times and never compare images.",
["NULLC/Compiler.cpp","NULLC/Linker.cpp","NULLC/InstructionTreeVm.cpp","NULLC/nullc.cpp"],
[("bytecode writer","Compiler.cpp GetBytecode"),("IR ids and ordering","InstructionTreeVm.cpp")],
"bytes of the image, behaviour")

p("C24","The command line tools do what the library does and fail loudly",
"Compiling modules into a library file and running a script against that library gives the result of importing the module sources, and the runner's output and reported result are those of the script on either executor. Truncated, missing or foreign input files and scripts with errors produce an error message and a failing exit status, never a crash.",
["inputs","configurations"],"all module sets, option combinations and damaged inputs",
"No test runs the command line tools.",
["nullcl/main.cpp","nullc_exec/main.cpp"],
[("module library writer","nullcl/main.cpp"),("script runner","nullc_exec/main.cpp")],
"stdout, exit status, produced files")

p("C25","The language server answers every request and mirrors the documents",
"For any sequence of editor messages the language server stays alive, answers each request exactly once with a well-formed reply carrying the request's id, and reports for each open document the diagnostics the compiler gives for the document's current text. Definitions, references and highlights it returns denote occurrences of the identifier asked about.",
["histories","inputs"],"all message sequences over documents being opened, edited, queried and closed, including ill-formed documents and positions outside of the text",
"There are no tests of the language server.",
["vscode/nullc_lang_server/handler.cpp","vscode/nullc_lang_server/main.cpp","vscode/nullc_lang_server/document.h"],
[("message framing","vscode/nullc_lang_server/main.cpp"),("request handlers","vscode/nullc_lang_server/handler.cpp")],
"messages on stdout")
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
