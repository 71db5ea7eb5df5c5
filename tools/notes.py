SM = "stateful property-based testing against an exact model"
LIN = "generated programs and schedules judged by a linearizability oracle"
SCH = "generated schedules on an instrumented runtime (virtual threads, atomics, locks and clock) with an invariant oracle"
TECH = {
 "C01": f"{LIN}, plus {SM}; weak-memory loads generated",
 "C02": f"{SM}; random concurrent histories judged by linearizability",
 "C03": "generated schedules and weak-memory reads with vector-clock race detection and guard-exclusivity invariants",
 "C04": "generated schedules with stopped threads and held guards; step-bound oracle",
 "C05": f"{SM} and generated schedules; element ledger oracle",
 "C06": f"{SM} and generated schedules; policy-call log oracle",
 "C07": f"{LIN}, plus {SM}",
 "C08": f"{SCH}; {SM} for hand-polled futures",
 "C09": f"{SCH}; {SM} for hand-polled futures",
 "C10": f"{SCH}; {SM} for hand-polled futures",
 "C11": f"{SM} and {SCH}; freed memory quarantined and poisoned",
 "C12": f"{SCH} on a virtual clock",
 "C13": f"{SM}; {LIN}",
 "C14": f"{SM}; {LIN}",
 "C15": "differential property-based testing, static against dynamic; generated split schedules",
 "C16": "generated histories and schedules under a counting allocator",
 "C17": "panic injection into generated histories and schedules, judged by model and invariants",
 "C18": f"{SM} of the line of waiting senders",
 "C19": "generated type matrix; compile-time trait probes compared with a soundness oracle",
 "C20": "metamorphic property-based testing: through the guard against directly on the element",
 "C21": "the queue and async channel suites on builds without std",
 "C22": "property-based testing of the policies against the documented bounds",
}
GEN = ("Random search: it found no counterexample in the reported number of generated cases, which is evidence and not proof. "
       "Failures shrink to a replay file (vh replay FILE). ")
HOOKN = "Trusts the cfg(thingbuf_vp) shims to behave like the primitives they replace, and the harness's models. "
NOTE = {p: GEN + HOOKN for p in TECH}
NOTE["C03"] += "The memory model covers release/acquire, relaxed, fences and RMW chains by per-location histories; not load buffering or consume."
NOTE["C04"] += "The step bound is a constant per operation, far above what any operation here needs."
NOTE["C19"] = "Every public type is probed with every combination of Send/Sync element and policy types; the oracle table was derived by hand. Trusts rustc's trait solver."
NOTE["C20"] = GEN
NOTE["C22"] = GEN
NA = {}
