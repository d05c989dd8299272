B = "Bounded by the generator (lib/langgen.py): program size, depth and step count; sampled, not exhaustive. "
TECH = {
 "C01": "property-based testing: generated programs, differential oracle register VM vs JIT at each optimization level",
 "C02": "property-based testing: generated programs, optimization levels compared with a reference interpreter",
 "C03": "property-based testing: generated numeric expressions on edge values against a reference evaluator",
 "C04": "property-based testing: generated constants against a reference evaluator; whole programs run by both evaluators compared with execution",
 "C05": "fuzzing: structured mutation, generation and nesting of source texts; invariants no crash, located error, compiler usable afterwards",
 "C06": "property-based testing: generated faulting programs, reference interpreter and constructed call-stack oracle",
 "C08": "property-based testing: generated closures and coroutines against a reference interpreter",
 "C20": "property-based testing: generated programs against a reference interpreter",
 "C19": 'property-based testing: metamorphic relation between layouts, names and parenthesisations of one program, lines judged through a one-token-per-line variant',
 "C23": 'property-based testing: repeated compilation and runs in processes with different memory contents and history compared byte for byte',
 "C10": 'model-based generation of host-call histories, differential oracle against a fresh process',
 "C09": 'metamorphic: generated and corpus programs cut into modules at random item boundaries, loaded from source, from saved bytecode, from bytecode made by another process or through the module cache at mixed optimization levels, against the one-file program (and the reference interpreter for generated programs); saved linked images run again',
 "C12": 'model-based testing: generated operation histories on the std containers compared with Python models of the containers',
 "C13": 'property-based testing: generated calls of the string, algorithm, math, range and formatting functions compared with reference definitions in Python',
 "C22": 'model-based testing: generated class hierarchies, handler histories and replacement histories compared with a model of the function that has to run',
 "C07": 'property-based testing: generated programs with collections inserted at random statements and expressions (or forced by a small memory limit) compared with a reference interpreter; model-based testing of object graphs with finalizers',
 "C17": 'property-based testing: generated generic functions and classes compared with hand-written copies; overload sets compared with a model of the documented selection under permuted declarations',
 "C16": 'model-based property testing: reflection queries on generated type declarations against a model of the declarations',
 "C11": 'model-based property testing: generated host functions of a family of signatures called from scripts and script functions called from the host, compared with the values the generator passed',
 "C18": 'stateful property testing: random breakpoint sets, step command sequences and breakpoint changes at stops against a model over the full instruction trace; marked-line programs with predicted stops',
 "C15": "property-based testing: generated programs translated, compiled against the shipped runtime and run, against a reference interpreter",
 "C24": 'model-based property testing: generated module splits through nullcl and nullc_exec against the library API, damaged libraries, generated argument lists and file names against a model of the tools',
 "C21": 'property-based testing with derived memory and stack bounds and a post-condition on later programs',
 "C14": 'stateful model-based testing against byte-exact stream models (memory blocks, files on disk, console)',
 "C25": "stateful model-based generation of editor histories driven into the language server (address sanitizer), with a client-side document model, the compiler's own analysis, a fresh server and generated occurrence tables as oracles",
}
NOTE = {
 "C01": B + "After a fault variables are not compared; call stack, fault kind and host calls are.",
 "C02": B + "Faulting reads whose value is unused may be removed by the optimizer (accepted only when the rest of the run does not depend on the value).",
 "C03": "Conversions of doubles outside the integer range and shift counts outside the width have no documented value and are not evaluated.",
 "C04": B + "An expression the compiler declines to evaluate is accepted (counted as refused).",
 "C05": "Sampled texts; a text over 1500 elements or levels that the compiler does not finish within the time limit is not judged (compile time is quadratic there).",
 "C06": B + "Call stacks are compared line by line with optimization off (all levels for planned faults).",
 "C08": B,
 "C20": B,
 "C19": B + 'Corpus snippets are re-laid out but not renamed.',
 "C23": B + '',
 "C10": B + 'Generated histories of up to 12 host calls (build, run, rerun, save and link bytecode, clean, terminate and initialise, failed builds and runs, failed bytecode and listing requests, configuration changes) in one process; every checked step is compared with the same step in a fresh process.',
 "C09": B + 'Items keep their order; prototypes stay with their implementation; a return of the top level stays in the main program. One open finding: classes local to functions of modules are identified by name only (known_findings.json).',
 "C12": B + 'Histories of up to about 60 operations over vector, list, hashmap, array wrappers and their iterators; both executors and all optimization levels are sampled.',
 "C13": B + 'Strings up to 8 characters, arrays up to 150 elements; transcendental functions within 4 units in the last place.',
 "C22": B + 'Up to 7 classes in several trees, 3 virtual methods, 6 replaceable functions, two events with up to 7 handlers, histories of up to 40 operations.',
 "C07": B + 'Graph histories of up to 45 operations over six roots, closures, coroutines, generic references, containers and interior references.',
 "C17": B + 'Type arguments are numeric types, generic class instances, arrays and functions; a generic reference passed to a generic ref parameter and nullptr passed to a generic parameter are not judged.',
 "C16": B + 'type descriptions are computed from the declarations by the generator, and not read back from the compiler',
 "C11": 'the family covers numeric, reference, array, function, auto ref and class parameters in generated combinations; both bindings (direct and wrapped) of each signature, both executors; the host side is a generated C++ file (lib/interop.py)',
 "C18": B + "register VM only (the JIT executor refuses breakpoints); the model's instruction order comes from a run with a breakpoint on every instruction, which is itself compared with the run without a debugger; line programs have an independent prediction",
 "C15": "one C++ compilation for every case; the programs of the language generator (classes, arrays, references, closures, coroutines, numeric code) with host calls; programs that fault are not judged (the runtime has no call stacks); modules of the standard library are not used",
 "C24": 'programs come from the C09 generator; damage is limited to truncation, missing/foreign files, sizes and module names of the container (bytecode carries no checksum, so changed bytes inside of it are not judged); -x (compile and link with gcc) and -p are not exercised',
 "C21": B + 'Programs that keep a bounded amount of live data and produce garbage worth several times the limit, programs that grow without bound, single large arrays around the limit (and around 2^31 bytes), recursion of ten shapes around a set stack size, and global variables around the stack size. Endings are predicted from lower and upper bounds of what objects and frames cost; inside the gap between the bounds both endings are accepted. After the error the same program is run again, a caught error leaves a usable program, and a later program runs in the same process.',
 "C14": B + 'Histories of up to 40 operations over three memory blocks, two file objects (several files in a scratch directory, all access modes, seeks past the end, writes and reads across buffer sizes) and the console with captured output and given input. The model is byte-exact: values read, positions, sizes, end-of-file flags, bytes of the files on disk at the end and all of the output are compared.',
 "C25": B + 'histories of up to 16 messages over up to 4 ASCII documents (corpus programs, rejected programs, structured programs; incremental and full edits, positions in and outside of the text, every request kind, ids of every JSON kind) and structured documents with unique names queried at every occurrence; malformed JSON and missing parameters are out of scope',
}
