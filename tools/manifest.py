import json
D="seeded deterministic simulation"
def c(p,tech,note): return dict(property=p,quick_cmd="bash run.sh %s quick"%p,thorough_cmd="bash run.sh %s thorough"%p,technique=tech,level="exploration",level_note=note)
common=" Seeded search, not exhaustive: it assumes the simulated scheduler, channels, locks, map order and file system behave like the real ones (DESIGN.md lists real code and stubs per check)."
checks=[
c("C01",D+": random schedules and trees, exactly-once check of the recorded handler calls, race detector build","Every simulated walk's handler calls compared with the tree."+common),
c("C02",D+": random schedules, order check over stamped handler start/return events","Order checked over the recorded history of each run."+common),
c("C03",D+": random schedules with injected read failures and Stop calls; bounded-liveness and error provenance check, race detector build","Deadlock is detected exactly within a run; liveness means within 400,000 scheduler steps."+common),
c("C04",D+": as C03, run to quiescence; late-handler and goroutine-leak check","Leaks are tasks still blocked when nothing can run any more."+common),
c("C05",D+": concurrent histories checked for linearizability against a reference LRU model, race detector build","Linearizability decided per history (up to 24 overlapping operations)."+common),
c("C06",D+": sequential and concurrent histories against a reference LRU model, capacity checked at every step","Reference model covers every capacity/clear combination up to 12."+common),
c("C07",D+": random schedules of requesters and stalled parsers; exactly-once check of parser invocations, race detector build","Invocations counted over the whole history of a cache."+common),
c("C08",D+": random schedules with stalled parsers and abandoned futures; delivery and non-blocking check, race detector build","Liveness: within the step limit once nothing but stalled parsers is left."+common),
c("C09",D+": I/O fault injection into UnTarGz, tree compared with the archive","Archives are generated (formats, sizes, corruption); faults hit random file system calls."+common),
c("C10",D+": hostile archives and I/O faults; every mutating file system call checked for containment","Only file system calls made through os are observed; nothing touches the real disk."+common),
c("C11",D+": crash and power loss at random system calls, then re-run; durable-state check","Power loss drops or tears unsynced data of the in-memory disk."+common),
c("C12",D+": network and disk fault injection into Download, file compared with the response body","The HTTP client is real above the transport; the server is simulated."+common),
c("C13",D+": the CLI as a simulated process with I/O faults, kill points and clipboard failures; claims, exit status and files checked","The main package runs unmodified apart from instrumentation; reference JSON comes from the library."+common),
c("C14",D+": interleaved parser instances with shared options compared with parsing alone; cross-process digests; race detector build","Preemption at function entries and loop heads; finer interleavings through the race detector."+common),
c("C15",D+": interleaved readers of one AST compared with reading alone; AST dump before and after; race detector build","As C14."+common),
c("C16",D+": permuted hash-map iteration order, clock, random numbers and allocation; results compared across orders and processes","Every map range in the module is permuted by seed; address dependence is covered by differing allocation histories."+common),
c("C17",D+": interleaved walk contexts and evaluators compared with running alone; race detector build","As C14."+common),
c("C18",D+": a stop injected at a random event of a walk; event sequence compared with the undisturbed walk","All node kinds that occur in the corpus."+common),
c("C19",D+": the generators as simulated processes under permuted map order, I/O and network faults, kill points; outputs and exit status checked","gofmt is stood in for by go/format."+common),
]
pure=" is a pure function of its input: one goroutine, no clock, I/O, randomness or other party, so there is no schedule or fault for a simulator to choose."
na=[("C20","Conversion to ESTree"+pure+" Deciding it needs an independent parser as an oracle."),
("C21","Parsing one input"+pure+" It is a question for fuzzing or proof over inputs."),
("C22","Position bookkeeping"+pure),
("C23","Building a control-flow graph"+pure+" (Its dependence on map order is C16.)"),
("C24","Constant evaluation"+pure),
("C25","Stripping JSON comments"+pure)]
json.dump(dict(version=1,setup_cmd="bash run.sh setup",checks=checks,not_applicable=[dict(property=a,reason=b) for a,b in na],
 notes="No hooks in /repo: the instrumented sources are generated from /repo's working tree on every check and enter the build through go build -overlay. Replay a violation with: bash run.sh replay FILE"),open('/verif/MANIFEST.json','w'),indent=1)
