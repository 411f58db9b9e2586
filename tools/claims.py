MC = "model_checking"
STATE = "explicit-state bounded model checking: exhaustive enumeration of operation sequences executed on the real code in lockstep with a reference model"
PROG = "bounded model checking: exhaustive enumeration of programs (templates) and of the states they run in, each executed on the real planner and interpreter in lockstep with a reference model of the language"
N = "Complete within the bounds reported in the evidence; trusts the reference interpreter (mc/ref), which shares no code with velty and is replayed against it on every explored program."
CLAIMS = {
 "C22": (MC, STATE, "Complete within the stated bounds; trusts strconv and html.EscapeString as the oracle."),
}
for p in ["C01","C02","C03","C04","C05","C06","C07","C08","C09","C10","C11","C12","C13","C14","C17","C18","C19","C20","C21","C23","C24","C25"]: CLAIMS[p] = (MC, PROG, N)
CONC = "stateless model checking of the implementation: exhaustive enumeration of the schedules of goroutines under a controlled scheduler with a bounded number of preemptions (sources instrumented at check time), and of operation histories, against a reference model, every schedule watched by the race detector"
for p in ["C15", "C16"]: CLAIMS[p] = (MC, CONC, "Complete within the bounds reported in the evidence; trusts the reference interpreter, the shims of sync.Mutex, RWMutex, Once and Pool (mc/sched), and the race detector.")
NOT_APPLICABLE = {}
