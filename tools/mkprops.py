"""Writes /verif/properties.jsonl (kept as code so that it stays one valid JSON object per line)."""
import json, os

P = []


def p(id, title, statement, over, text, why, files, mechanism, observe, state=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(zip(("name", "meaning", "where"), s)) for s in state],
                               mechanism=[dict(name=n, where=w) for n, w in mechanism],
                               observe_at=observe, hook_needed=hook)))


p("C01", "`tealish format` never loses or tears the user's source file",
  "At every instant of a `tealish format FILE` run, and after it ends in any way (normal exit, killed, interrupted, failing or short read/write, full disk, power loss), FILE holds either its complete previous text or the complete formatted text of that text, with its permission bits kept. "
  "Exit status 0 means FILE holds the complete formatted text; a program that does not parse leaves FILE byte-identical and gives a non-zero status, and so does an interruption unless the complete formatted text was already in place.",
  ["crash_points", "fault_sequences", "schedules", "inputs"],
  "every source file, every system call at which a crash, signal or I/O error can strike, every reader or saver running at the same time",
  "The tests call reformat_program on a handful of strings; nothing runs the command's read/rewrite cycle, let alone under a crash or a full disk.",
  ["tealish/cli.py", "tealish/__init__.py", "tealish/utils.py"],
  [("format command: read, reformat, write back", "tealish/cli.py:format"), ("reformat_program", "tealish/__init__.py")],
  ["bytes and mode of FILE after every system call", "exit status"])

p("C02", "A build artefact on disk is always the old one or the complete new one",
  "While `tealish compile` or `tealish build` runs and after it ends in any way (killed, interrupted, I/O error, full disk, power loss), each of the files .teal, .teal.tok and .map.json holds either exactly what it held before or the complete new artefact of the source being compiled. "
  "An artefact that existed before the run is never missing, empty or truncated, and none ever holds partial or foreign bytes.",
  ["crash_points", "fault_sequences", "schedules", "inputs"],
  "every program, every pre-existing output state, every crash point and I/O error, every observer reading between two system calls",
  "No test runs the command line; the tests only compare the strings returned by the compiler.",
  ["tealish/cli.py", "tealish/build.py", "tealish/utils.py"],
  [("_build writes .teal, .tok, .map.json", "tealish/cli.py:_build")],
  ["bytes of build/*.teal, *.teal.tok, *.map.json after every system call, and every content a power failure could leave"])

p("C03", "A build reports success exactly when it produced complete, matching output",
  "`tealish compile`/`tealish build` exits 0 only if every requested artefact of every requested source was written completely and all artefacts of a source belong together: TEAL compiled from one snapshot of the source, bytecode exactly as returned by the assembler for that TEAL, and a valid JSON map whose program counters match that bytecode's map and whose TEAL lines match that TEAL. "
  "If the assembler fails in any way (unreachable, HTTP error, reset or truncated answer, missing fields, goal missing, failing, killed or leaving no output) the exit status is non-zero and .teal.tok and .map.json stay untouched. "
  "With no fault, valid sources build with status 0 and invalid ones do not.",
  ["fault_sequences", "schedules", "inputs"],
  "every failure of the assembler, network, disk or source file at every point of the build, and every concurrent save of the source",
  "Neither cli.py nor build.py is executed by any test; no test talks to an assembler, real or fake.",
  ["tealish/cli.py", "tealish/build.py", "tealish/utils.py", "tealish/__init__.py"],
  [("_build error paths", "tealish/cli.py:_build"), ("assemble_with_goal / assemble_with_algod", "tealish/build.py"),
   ("TealishMap.update_from_teal_sourcemap/as_dict", "tealish/utils.py"), ("TealishCompiler.get_map", "tealish/__init__.py")],
  ["exit status", "final bytes of the artefacts", "TEAL received and answers sent by the assembler"])

p("C04", "Concurrent tealish invocations do not mix or damage each other's results",
  "Any number of tealish commands (compile, build with goal or algod, format, inspect) running at the same time on one machine, in the same or different directories, leave for each source exactly the artefacts some serial execution of the successful ones could leave, file by file; a command whose sources and outputs nobody else touches ends exactly as if it ran alone. "
  "No bytecode, TEAL or map of one program ever appears under another program's name, and none fails merely because another one is running.",
  ["schedules", "histories", "inputs"],
  "every interleaving of the system calls of concurrent invocations and of the assemblers they start",
  "Tests run one call at a time in one process; interference needs two processes and a particular interleaving.",
  ["tealish/build.py", "tealish/cli.py", "tealish/utils.py"],
  [("assemble_with_goal's output files", "tealish/build.py"), ("_build's output directory and files", "tealish/cli.py:_build")],
  ["final artefacts and exit status of every invocation"],
  [("goal output file", "where the assembler leaves bytecode and map for tealish to collect", "tealish/build.py:assemble_with_goal")])

p("C05", "A compilation's result depends only on its own source, not on history",
  "Within one process, compile_program, reformat_program and inspect_program return for a source exactly what they return in a fresh process (or fail with the same error), whatever was compiled before, in which order, whether it succeeded or failed, and however the steps of other compiler objects are interleaved. "
  "In particular compiling a directory gives each file the artefacts it gets when compiled alone, in whatever order the directory is listed, and names declared by one program are never visible in another.",
  ["histories", "schedules", "inputs", "programs"],
  "every sequence and interleaving of operations on every mix of valid and invalid programs sharing names, and every directory enumeration order",
  "Tests do compile many programs in one process but compare only outputs that happen not to depend on earlier ones; no test varies the order.",
  ["tealish/__init__.py", "tealish/types.py", "tealish/nodes.py", "tealish/scope.py", "tealish/base.py", "tealish/expression_nodes.py", "tealish/tx_expressions.py", "tealish/stdlib.py", "tealish/cli.py"],
  [("per-compiler state", "tealish/__init__.py:TealishCompiler"), ("struct registry", "tealish/types.py"), ("per-node scopes", "tealish/scope.py")],
  ["return values and exceptions of the API", "artefacts of a directory build"],
  [("struct registry", "structs known to the compilation in progress", "tealish/types.py")])

p("C06", "Compilations in different threads do not affect each other",
  "When several threads call compile_program, reformat_program or inspect_program at the same time, each call returns exactly what it returns alone, or raises the same error, under every thread interleaving, and no call blocks for ever.",
  ["schedules", "inputs", "programs"],
  "every preemption of one thread by another inside the compiler or its expression parser",
  "All tests are single-threaded.",
  ["tealish/__init__.py", "tealish/types.py", "tealish/tx_expressions.py", "tealish/expression_nodes.py", "tealish/nodes.py"],
  [("parse_expression and its shared metamodel", "tealish/tx_expressions.py"), ("struct registry", "tealish/types.py")],
  ["return values and exceptions of concurrent API calls"],
  [("expression metamodel", "one textX metamodel shared by all compilations", "tealish/tx_expressions.py")])

p("C07", "An interrupted compilation raises, and leaves no trace on later ones",
  "If an exception strikes a compile, reformat or inspect call at an arbitrary instant (Ctrl-C, MemoryError, a timeout signal, stack exhaustion), the call either raises or returns exactly the correct result, never a partial or altered one. "
  "Every later call in the same process behaves exactly as in a process where the interruption never happened.",
  ["fault_sequences", "crash_points", "histories", "programs"],
  "every instant of the call at which an asynchronous exception can be delivered, every exception kind, every following operation",
  "No test injects an exception; the instants are as many as the bytecodes executed.",
  ["tealish/__init__.py", "tealish/nodes.py", "tealish/expression_nodes.py", "tealish/tx_expressions.py", "tealish/types.py"],
  [("exception handlers in process() and the node classes", "tealish/nodes.py, tealish/__init__.py"), ("parse_expression", "tealish/tx_expressions.py")],
  ["return value or exception of the interrupted call and of every later call"])

p("C08", "A reused compiler object never yields duplicated or partial output",
  "On one TealishCompiler object, any sequence of parse, process, compile, reformat, get_map and get_structs, including repeating a call and retrying after one failed or was interrupted, gives from each successful compile or reformat exactly the result of a fresh compiler on the same source, with the matching map and structs after a successful compile. "
  "A program that does not compile never compiles on a retry.",
  ["histories", "fault_sequences", "programs"],
  "every call sequence up to the bound on every program, with failures and interruptions placed anywhere in it",
  "Tests call each method at most once, in one order, on a fresh object.",
  ["tealish/__init__.py", "tealish/nodes.py", "tealish/base.py"],
  [("TealishCompiler.parse/process/compile/reformat", "tealish/__init__.py")],
  ["return values of the compiler object's public methods"],
  [("writer, nodes, line_no, processed", "progress of one compilation", "tealish/__init__.py:TealishCompiler")])

p("C09", "Installing a langspec is all-or-nothing and never bricks the tool",
  "`tealish langspec fetch`/`update` leaves langspec.json either as it was (or absent) or holding one complete, usable langspec, at every instant and after any crash, power loss, network failure, bad answer, or I/O error; exit status 0 means the fetched spec is installed. "
  "Every tealish command started at any moment before, during or after it starts up and uses wholly the old or wholly the new spec.",
  ["crash_points", "fault_sequences", "schedules"],
  "every crash point, network and disk fault, malformed answer and concurrent tealish start during an install",
  "No test fetches a langspec or starts the tool with a local one.",
  ["tealish/cli.py", "tealish/langspec.py"],
  [("langspec_fetch", "tealish/cli.py"), ("fetch_langspec, local_lang_spec", "tealish/langspec.py")],
  ["bytes of langspec.json after every system call", "exit status of commands started at every moment"],
  [("langspec.json", "project-local langspec read at every start of the tool", "tealish/langspec.py")])

p("C10", "Rerunning after any crash or failure converges to the clean result",
  "After any sequence of compile, build and format runs that were killed, interrupted, hit I/O errors or a power loss, one further undisturbed run of the command exits 0 and leaves exactly the outputs it would have left on a machine where the earlier runs never happened. "
  "Debris of earlier runs (temporary files, half-made directories, old artefacts) never blocks it or leaks into its result.",
  ["crash_points", "fault_sequences", "histories"],
  "every history of disturbed runs followed by an undisturbed one",
  "Needs persistent state left by crashed processes; tests have none.",
  ["tealish/cli.py", "tealish/build.py", "tealish/utils.py"],
  [("output directory creation and file replacement", "tealish/cli.py:_build"), ("assembler scratch files", "tealish/build.py")],
  ["exit status and final files of the recovery run"])

p("C11", "Commands end within bounded time when a network peer stalls",
  "If the algod node or the langspec server stops responding at any point (no answer to the connection, silence before, within or after headers or body), `tealish build` and `tealish langspec` commands still end within 10 minutes, with a non-zero status unless the complete answer had arrived, and leave existing artefacts and langspec.json untouched.",
  ["fault_sequences", "schedules"],
  "every point of the exchange at which the peer can fall silent",
  "No test uses the network or a clock.",
  ["tealish/build.py", "tealish/langspec.py", "tealish/cli.py"],
  [("AlgodClient.compile", "tealish/build.py:assemble_with_algod"), ("requests.get", "tealish/langspec.py:fetch_langspec")],
  ["simulated time at exit", "exit status", "artefacts"])

p("C12", "Output is byte-identical whatever the environment the tool runs in",
  "For the same source, local langspec and assembler answers, the artefacts, formatted text and inspect output are byte-identical whatever the hash seed, directory enumeration order, process id, clock, locale encoding, umask, working directory, spelling of the path, or sizes in which reads and writes are split.",
  ["configurations", "schedules", "programs"],
  "every combination of the environment's sources of nondeterminism on every program",
  "Tests run in one environment and never compare two.",
  ["tealish/__init__.py", "tealish/nodes.py", "tealish/cli.py", "tealish/build.py", "tealish/scope.py", "tealish/utils.py", "tealish/expression_nodes.py", "tealish/stdlib.py"],
  [("code generation and formatting", "tealish/nodes.py, tealish/expression_nodes.py"), ("file reading and writing", "tealish/cli.py"), ("scratch slot and label assignment", "tealish/scope.py, tealish/nodes.py")],
  ["bytes of every output"])

p("C13", "Commands write only their documented outputs and leave no debris",
  "compile and build create or change nothing but build/<name>.teal, .teal.tok and .map.json beside each source, format nothing but the named file, langspec fetch/update nothing but ./langspec.json, and inspect, stats and langspec diff nothing at all, under every fault, including failing runs and Ctrl-C. "
  "When a command ends by itself, on success or failure, no temporary file or directory of its making remains.",
  ["fault_sequences", "configurations", "schedules", "inputs"],
  "every command, input, directory content and fault",
  "No test runs the commands, so nothing looks at the file system.",
  ["tealish/cli.py", "tealish/build.py", "tealish/utils.py", "tealish/langspec.py"],
  [("all file writes of the commands", "tealish/cli.py"), ("assembler scratch files", "tealish/build.py")],
  ["the complete file tree before, during and after every run"])


def na(id, title, statement, why, files, mech):
    p(id, title, statement, ["programs"], "every Tealish program (and langspec, where one is named)",
      why, files, mech, ["returned value of the API call"])


na("C20", "Compiled TEAL computes what the Tealish program means",
   "For every program that compiles, executing the TEAL gives the result the language documentation assigns to the Tealish source: evaluation order, control flow, stack effects, logs, state and failures.",
   "Needs every program and every AVM input; the tests compare TEAL text for about ninety small samples.",
   ["tealish/nodes.py", "tealish/expression_nodes.py"], [("write_teal of every node", "tealish/nodes.py")])
na("C21", "The formatter preserves meaning and is idempotent",
   "For every program that formats, the formatted text compiles to the same TEAL instructions as the original, keeps every comment, and formatting it again changes nothing.",
   "Needs every program and layout; the tests cover a few samples.",
   ["tealish/nodes.py", "tealish/expression_nodes.py"], [("tealish() of every node", "tealish/nodes.py")])
na("C22", "Source maps attribute each TEAL line and pc to the right Tealish line",
   "For every program and assembler map, a program counter resolves to the Tealish line whose construct emitted that instruction, and its error message is the one asserted on that line.",
   "Needs every program; the tests do not check a map against generated code.",
   ["tealish/utils.py", "tealish/__init__.py"], [("TealishMap", "tealish/utils.py"), ("TealWriter.write", "tealish/__init__.py")])
na("C23", "Type checking accepts only programs whose values have the declared types",
   "For every accepted program no opcode, assignment, call or struct access receives a value of another declared type or byte size, and every violation is reported as a compile error.",
   "Needs every program; the tests have a few type-error cases.",
   ["tealish/types.py", "tealish/expression_nodes.py", "tealish/nodes.py"], [("process() of every node", "tealish/nodes.py")])
na("C24", "Live variables never share a scratch slot",
   "For every program two variables that are live at the same time, including across function calls, are stored in different scratch slots within 0..255.",
   "Needs every nesting of scopes and calls; the tests check single samples.",
   ["tealish/scope.py", "tealish/nodes.py"], [("slot allocation", "tealish/scope.py")])
na("C25", "Every emitted branch target exists exactly once",
   "For every program that compiles, every label is defined once and every branch or callsub in the TEAL refers to a defined label.",
   "Needs every combination of constructs and names.",
   ["tealish/nodes.py"], [("label generation", "tealish/nodes.py")])
na("C26", "Routers dispatch each ABI method and OnCompletion to its handler only",
   "For every contract with a router, a call reaches a public function exactly when selector, OnCompletion and create status match, with arguments decoded per ARC-4.",
   "Needs every signature set.",
   ["tealish/nodes.py"], [("router nodes", "tealish/nodes.py")])
na("C27", "Standard library functions agree with their documented meaning",
   "For every argument value each standard library function returns what its documentation states or fails.",
   "Needs every argument value.",
   ["tealish/stdlib.py"], [("stdlib functions", "tealish/stdlib.py")])
na("C28", "Struct and box field accesses address the field's own bytes",
   "For every struct the field offsets and sizes partition the encoding and each read or write touches exactly its field's bytes.",
   "Needs every struct definition.",
   ["tealish/types.py", "tealish/nodes.py"], [("StructField offset/size", "tealish/types.py")])
na("C29", "Minifying or stripping comments keeps the TEAL program",
   "For every TEAL program minify_teal and strip_comments return a program assembling to the same bytecode, with a correct line map.",
   "Needs every TEAL program, including string literals containing // or label names.",
   ["tealish/utils.py"], [("minify_teal, strip_comments", "tealish/utils.py")])
na("C30", "Diagnostics name the offending line and construct",
   "For every rejected program the error is a ParseError or CompileError naming the line of the offending construct, never an internal exception.",
   "Needs every invalid program.",
   ["tealish/errors.py", "tealish/nodes.py", "tealish/expression_nodes.py"], [("CompileError/ParseError", "tealish/errors.py")])
na("C31", "Opcode calls are checked against the active langspec",
   "For every langspec and opcode use, argument count, types, immediates and field names are accepted exactly as the langspec allows and typed as it says.",
   "Needs every opcode and langspec.",
   ["tealish/langspec.py", "tealish/expression_nodes.py"], [("Op, LangSpec lookups", "tealish/langspec.py")])

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(here + "/properties.jsonl", "w") as f:
        for x in P:
            f.write(json.dumps(x) + "\n")
