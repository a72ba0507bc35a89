import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),obs=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=None)))
S,CR,I,PG,H,C,F="schedules","crash_points","inputs","programs","histories","configurations","fault_sequences"

p("C01","DirWalker visits every entry of a tree exactly once",
 "When a directory walk finishes without an error, its handler has been called exactly once for the root directory, for every directory and for every non-directory entry below it (dot files, empty directories and oddly named entries included), with the entry's path (joined to the root) and the right directory flag, and for nothing else. Symbolic links are reported as non-directories and never followed, and walking again with the same walker again visits everything exactly once. A walk over a readable tree that nobody stops does finish without an error, and walks have no data races or panics.",
 [S,I,C,H],"every goroutine schedule, every directory tree (shape, width, depth, names, symlinks), every worker count >= 0 (0 means the default), storage of any speed, any number of successive walks",
 "The one test walks one small fixture tree under whatever schedule the Go runtime happens to pick; a lost or doubled queue entry needs a particular interleaving of workers.",
 ["util/walkdir.go"],[("job queue + per-directory WaitGroup","util/walkdir.go:walk,push,shift")],
 [("dirs","queue of directories still to read","util/walkdir.go"),("wg","directories not yet finished","util/walkdir.go")],["handler calls","Walk return"])

p("C02","DirWalker handler order: directory first, files in lexical order",
 "During a directory walk the handler call for a directory happens before (and has returned before) the handler call of anything inside that directory starts. The non-directory entries of one directory are handled one after the other in lexical order of their names, never concurrently with each other, whatever the number of workers.",
 [S,I,C],"every schedule, every tree, every worker count, handlers that block or take arbitrarily long",
 "The test fixes one tree and does not control scheduling; an ordering violation needs a worker that is delayed inside a handler while another one runs ahead.",
 ["util/walkdir.go"],[("directory handler is called synchronously before children are queued","util/walkdir.go:walk")],(),["handler start/return events"])

p("C03","Walk always returns, and Err tells why it stopped",
 "Walk returns after finitely many steps for every tree, schedule and worker count >= 1, even when directories cannot be read, when several workers fail at once, or when handlers or other goroutines call Stop any number of times, before, during or after the walk (a Stop call itself also always returns). Err is nil exactly when every directory was read and nobody stopped that walk, and otherwise it is one of the errors that a failed directory read or a Stop call actually produced. A Stop call while no walk is in progress has no effect on later walks, and none of this panics or races.",
 [S,F,C,H],"every schedule; unreadable, vanished or non-directory paths at any position; any number of concurrent or repeated Stop calls with distinct errors; repeated walks",
 "Deadlocks need the failing worker to be the only/last one able to make progress, or two stop requests in flight; the tests never make a directory read fail and call Stop once, from one handler, under one schedule.",
 ["util/walkdir.go"],[("stop/fin signalling between workers and Walk","util/walkdir.go:Walk,Stop,walk")],
 [("err","reason of the stop","util/walkdir.go")],["Walk return","Stop return","Err"])

p("C04","Nothing of a walk runs on after Walk has returned",
 "When Walk returns, whether the walk completed, failed or was stopped, no handler call of that walk is in progress or starts afterwards. Every goroutine the walk started terminates without outside help, so repeated walks do not accumulate goroutines.",
 [S,F,H],"every schedule, every failure or stop point, any sequence of walks",
 "The tests end the process right after the walk; leaked workers and late handler calls are invisible to them and depend on the schedule.",
 ["util/walkdir.go"],[("fin broadcast and worker shutdown","util/walkdir.go:Walk")],(),["handler calls after return","live goroutines at quiescence"])

p("C05","LruCache is a linearizable, race-free key/value store",
 "Concurrent HasKey, Get and Set calls on one LRU cache behave as if executed one at a time in an order consistent with real time: a Get returns the value of the latest Set of that key that has not been evicted, or the zero value when the key is absent, and never a value of another key or an overwritten value. The cache has no data races, and no operation panics or blocks forever.",
 [S,H,C],"every schedule of any number of goroutines, every operation history, every capacity and clear amount",
 "There are no tests of the cache; check-then-act windows need two goroutines interleaved inside one call.",
 ["util/lru.go","util/map.go"],[("RWMutex around the ordered store","util/lru.go")],
 [("store","key -> list element, list is recency order","util/lru.go, util/map.go")],["return values of HasKey/Get/Set"])

p("C06","LruCache never exceeds its capacity and evicts the oldest used",
 "At no time does an LRU cache of capacity 1 or more report more than `cap` keys as present. Inserting a new key into a full cache evicts exactly the configured clear amount (a third of the capacity when unset or larger than the capacity, and at least one) of the least recently used keys, where setting or getting a key counts as a use and a presence test does not; evicted keys are reported absent, and updating a present key evicts nothing.",
 [S,H,C],"every operation history from any number of goroutines, every capacity >= 1 and clear amount",
 "There are no tests of the cache; whether the bound holds depends on capacity/clear combinations and on histories that fill the cache repeatedly, possibly from two goroutines at once.",
 ["util/lru.go","util/map.go"],[("eviction loop in Set","util/lru.go:Set"),("recency list","util/map.go:OrderedMap")],(),["HasKey/Get results over all keys"])

p("C07","ParseCache parses each key at most once",
 "For every key, the registered parser's Parse is invoked at most once over the whole life of a parse cache, with the file, code, read-file flag and business data of a request for that key, however many goroutines ask for the key before, while or after it is parsed, and also when its result is nil. Requests for distinct keys each get their own invocation of the parser of the requested type.",
 [S,H],"every schedule of requesting goroutines and parser goroutines, every request history, parsers that take arbitrarily long",
 "There are no tests; a duplicate parse needs two requests interleaved between lookup and insertion.",
 ["parseutil/cache.go"],[("store of pending/finished entries under a lock","parseutil/cache.go:Parse")],
 [("store","key -> pending future or result","parseutil/cache.go")],["Parser.Parse invocations"])

p("C08","Every ParseCache request receives its key's result",
 "Every request to a parse cache, issued before, during or after the parse of its key, returns without waiting for any parse, and the future it returns eventually yields exactly the value the parser returned for that key (nil included), regardless of how many other requesters of the same key there are and of whether they ever read their futures. A parser that is slow or stuck on one key never delays requests for other keys, and the cache has no data races or panics.",
 [S,H,F],"every schedule, any number of requesters per key, stalled parsers, requesters that abandon their future",
 "There are no tests; lost wake-ups need at least two requesters sharing a pending entry.",
 ["parseutil/cache.go"],[("future hand-out and delivery","parseutil/cache.go:Parse")],(),["values received from futures","Parse return"])

p("C09","UnTarGz success means the whole archive is on disk",
 "When unpacking a gzipped tarball reports success, every directory and regular file of the archive exists under the target directory with exactly its content, and the archive was read and verified to its end (a truncated or corrupted tarball, or one whose stored checksum does not match, is reported as an error). Any read, write, create or close failure on the way is reported as an error, and on every outcome all files it opened have been closed, with only a bounded number open at any time. Without any fault a valid archive is unpacked successfully.",
 [F,I,CR],"every archive, every position of a truncation, flipped byte, short read, read/write/close error or full disk",
 "No test covers it; it depends on where in the I/O sequence a fault lands.",
 ["util/shell.go"],[("error propagation in the copy loop; draining the gzip stream","util/shell.go:UnTarGz")],(),["returned error","target tree","open descriptors"])

p("C10","UnTarGz never writes outside the target directory",
 "Whatever the entry names in a tarball (parent-directory components, absolute paths, embedded or trailing dots, links), unpacking it creates, truncates or modifies no file or directory outside the target directory. An archive that would escape is reported as an error, while names that merely look unusual but stay inside are unpacked.",
 [I,F],"every archive, including hostile ones, combined with any I/O fault sequence",
 "No test covers it; the space of names is unbounded and the effect is on the file system.",
 ["util/shell.go"],[("path join and containment check","util/shell.go:UnTarGz")],(),["every mutating file-system call"])

p("C11","Unpacking again after a crash yields the exact tree",
 "If unpacking a tarball is interrupted at any point, by a process crash, a power loss that drops or tears unsynchronised writes, or an I/O error, then running it again without faults on the same target reports success and leaves every archived file with exactly its content: no stale, truncated, torn or merged files remain among the archive's entries.",
 [CR,F,H],"every crash point in the system-call sequence, every subset of unsynced writes lost or torn, repeated crashes",
 "No test covers it; needs a crash between two particular system calls.",
 ["util/shell.go"],[("truncate-and-rewrite of every entry","util/shell.go:UnTarGz")],(),["target tree after re-run"])

p("C12","Download success means the complete body was saved",
 "When a download reports success, the server answered with a success (2xx) status and the destination file holds exactly the bytes of the response body. A refused or broken connection, an error status, a body cut short, or any create, write or close failure on the destination is reported as an error, and on every outcome the response body and the destination file have been closed. Without any fault a download of a 2xx response succeeds, however slowly it arrives.",
 [F,S,I],"every position of a connection or disk fault, every chunking and delay of the body, every status code and size",
 "There is no test (it needs a network); correctness depends on where a fault lands.",
 ["util/shell.go"],[("error propagation around io.Copy","util/shell.go:Download")],(),["returned error","destination file","open bodies and descriptors"])

p("C13","The CLI's claims and exit status are true",
 "Running the CLI on a file prints that a result was saved (or copied) only when that really happened: the named file then exists next to the input and holds the complete, valid ESTree JSON of the input, in profiling mode as well. If the input is missing, unreadable or not parsable, or the result cannot be written completely, the process reports the problem on standard error and exits with a non-zero status, and it never modifies the input file (an input named like one of the profiles, cpu.prof or heap.out, excepted). Without any fault a parsable input is processed successfully.",
 [F,I,C],"every source file (valid or not), every file-system fault at any call, every flag combination",
 "The CLI has no tests; silent success needs a failing write or a parse failure.",
 ["cli/ast.go","cli/main.go"],[("error propagation from parse/convert/write to exit status","cli/ast.go:Process,printJsAst")],(),["exit status","stdout/stderr","file system"])

p("C14","Concurrent and successive parses do not influence each other",
 "Parsing a source gives the same AST, ESTree JSON, scopes and comments, or the same error, no matter which other sources are being parsed at the same time on other goroutines, what was parsed before (including failed or panicked parses, also by the same parser object if it was set up anew for this source), and whether parser options are shared between the parsers. Parsers have no data races with each other, and a parser never modifies the options it was given.",
 [S,H,PG,C],"every interleaving of any number of parser instances over every program, every parse history, shared or separate option objects",
 "Tests parse one source at a time with fresh options and never under the race detector; a leak through package-level or shared state needs an interleaving or a particular history.",
 ["ecma/parser/","ecma/estree/","span/"],[("all parser state is per instance; package-level tables are read-only","ecma/parser/parser.go, ecma/parser/lexer.go")],(),["AST JSON","errors","race reports"])

p("C15","A finished AST may be read by any number of goroutines",
 "Once parsed, one AST together with its parser's results (symbol table, source, comments) can be converted to ESTree, walked, turned into control-flow graphs, constant-evaluated, and queried for names, branches and function dependencies from any number of goroutines at the same time. Each reader obtains the same result as when it runs alone, there are no data races, and neither the AST nor the variables given to an evaluation are modified by reading it.",
 [S,PG],"every interleaving of any mix of readers over every program",
 "Tests only ever read an AST from one goroutine; a hidden cache or mutation in a reader shows only under concurrency.",
 ["ecma/estree/","ecma/walk/","ecma/analysis/","ecma/exec/","ecma/astutil/","span/"],[("readers keep their state in their own context objects","ecma/walk/ctx.go, ecma/estree/convert.go")],(),["reader results","race reports"])

p("C16","Results are a function of the input, not of chance",
 "The AST, ESTree JSON, syntax-error message, control-flow graph in DOT form, function dependency graph, constant-evaluation results and name-collection results for a given source and options are identical on every run. They do not depend on hash-map iteration order, memory addresses, the wall clock, random numbers or the environment.",
 [H,PG,S],"every program, every hash-map iteration order at every iteration, every clock reading",
 "A test run samples one random iteration order per map; a result that depends on it shows up as an occasional flake on particular programs.",
 ["ecma/analysis/graph.go","ecma/analysis/ctrlflow.go","ecma/parser/","ecma/estree/","ecma/exec/","ecma/astutil/"],[("ordered traversal of edges and names","ecma/analysis/graph.go")],(),["serialised results"])

p("C17","Walk contexts and evaluators are isolated from each other",
 "Listeners and visitors registered on one walk context are called only for walks with that context: never for walks with another context, created earlier or later, running concurrently or afterwards. Each walk delivers the same events in the same order as when it is the only one in the process, and walks with separate contexts have no data races. What a listener is told about an event (its node and ancestors) stays so after the call. A context used for another walk delivers the same node events again (scope ids are numbered on). Evaluators with separate nodes or contexts give the results they give alone and never modify the variables they are given.",
 [S,H,PG],"every interleaving of creating, configuring and running any number of walk contexts over every program",
 "Tests create one context at a time and look at one event; leakage through package-level listener tables needs two contexts.",
 ["ecma/walk/ctx.go","ecma/walk/visitor.go"],[("per-context copies of the default listener and visitor tables","ecma/walk/ctx.go:NewWalkCtx")],
 [("DefaultListeners","package-level defaults copied into each context","ecma/walk/visitor.go")],["listener calls"])

p("C18","Stopping a walk stops it at once and cleanly",
 "When a listener stops a walk at any event, no further node is entered: after that the walk delivers exactly the leave events of the nodes that are currently open, innermost first, and returns. The events delivered up to the stop are exactly those of the undisturbed walk.",
 [F,PG,H],"every program and every event at which a cancellation can arrive, from any listener",
 "Tests stop at one hand-picked node kind; there are as many stop points as events and every node kind has its own visitor code.",
 ["ecma/walk/ctx.go","ecma/walk/visitor.go"],[("stop flag consulted between child visits","ecma/walk/ctx.go:VisitNode,VisitNodes")],(),["event sequence"])

p("C19","Code generators are reproducible and report failed writes",
 "Running a code generator twice on the same definitions writes byte-identical output, independent of hash-map order, and the output of the visitor generator defines, for every declared node type, a visitor that visits the declared children in the declared order. If the definitions cannot be read or the output file cannot be written completely, the generator reports the problem on standard error and exits with a non-zero status, and a later run without faults writes the full output again. (A generator whose target file does not exist does nothing, by design.)",
 [F,H,I],"every hash-map iteration order, every fault position in the file-system calls",
 "The generators have no tests; order dependence is random per run and write failures never happen in a test run.",
 ["script/visitor_gen/main.go","script/nodetype_gen/main.go","script/html_entity/main.go","script/macro/parse.go","util/shell.go"],[("template over definition maps, WriteFile","script/visitor_gen/main.go:main")],(),["generated file","exit status"])

# not applicable
p("C20","ESTree output conforms to the ESTree specification",
 "For every syntactically valid JavaScript/TypeScript/JSX program the ESTree JSON is the tree other ESTree producers give.",
 [PG],"every program","Fixtures sample a few thousand programs.",["ecma/parser/","ecma/estree/"],[("parser and converter","ecma/parser/, ecma/estree/")])
p("C21","Parsing any input terminates with an AST or a syntax error",
 "For every byte sequence the parser returns an AST or a positioned syntax error, without panicking or looping forever.",
 [I],"every byte string","Tests sample inputs.",["ecma/parser/"],[("error returns and panic recovery","ecma/parser/parser.go")])
p("C22","Source ranges and line/column positions are exact",
 "Every node's range and line/column location delimit exactly the source text the node was parsed from.",
 [PG],"every program and line-terminator mix","Tests check a few positions.",["span/source.go","ecma/parser/"],[("position bookkeeping","span/source.go")])
p("C23","Control-flow graphs contain exactly the possible paths",
 "Every possible execution path of a function is a path of its control-flow graph, and unreachable code is flagged.",
 [PG],"every program","Tests compare some graphs.",["ecma/analysis/ctrlflow.go"],[("graph builder","ecma/analysis/ctrlflow.go")])
p("C24","Constant evaluation agrees with JavaScript semantics",
 "Whenever the evaluator yields a value for an expression, JavaScript would yield the same value.",
 [PG],"every expression","Tests sample expressions.",["ecma/exec/"],[("evaluator","ecma/exec/")])
p("C25","Stripping JSON comments preserves the JSON value",
 "Removing comments from commented JSON leaves the value unchanged, comment-like text in strings included.",
 [I],"every commented JSON text","Tests sample inputs.",["util/str.go"],[("comment scanner","util/str.go:RemoveJsonComments")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
print(len(P),[x['title'] for x in P if len(x['title'])>80])
