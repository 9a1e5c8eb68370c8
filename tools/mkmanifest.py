#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json for every property that has a harness class."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("model-based random testing against a reference state machine", "exact callback trace, state and queue compared with an independent model for generated configurations and histories"),
 "C02": ("property-based testing over generated schedules (deterministic cooperative scheduler on instrumented bytecode), history oracle", "each recorded history must decompose into contiguous per-event blocks predicted by the model"),
 "C03": ("property-based testing over generated schedules and histories, plus real-thread fuzzing, history oracle", "stop/end/start/fire races under generated schedules; nothing after the end but the one event in flight"),
 "C04": ("property-based testing over generated schedules and incomplete configurations, model oracle", "racing start calls, early fires, incomplete configurations"),
 "C05": ("metamorphic property-based testing (resumed machine vs machine that reached the state)", "two machines compared over generated prefixes and suffixes"),
 "C06": ("property-based testing over payload histories and schedules, payload identity oracle", "every callback's payload object compared with the one at fire time"),
 "C07": ("fault-injecting model-based random testing, sequential and over generated schedules", "throwing callbacks placed at random, trace compared with the model including failures"),
 "C08": ("model-based random testing, generated schedules, real-thread fuzzing", "exact rejections when sequential; waiting-interval invariant under schedules"),
 "C09": ("model-based random testing, generated schedules, real-thread fuzzing", "exact drops when sequential; waiting-interval invariant under schedules"),
 "C10": ("model-based random testing of configuration call sequences", "accept/reject of every call and the resulting behaviour compared with a model of the rules"),
 "C11": ("differential property-based testing (several machines vs each alone), generated schedules", "every machine's trace must equal its solo model trace"),
 "C12": ("model-based random testing, generated schedules, real-thread fuzzing", "set model when sequential, interval invariant when concurrent, throwing listeners"),
 "C13": ("model-based random testing of application histories with injected subsystem failures, generated schedules", "lifecycle model compared call by call"),
 "C14": ("property-based testing over generated schedules with deadlock detection", "start() returns iff the application is over"),
 "C15": ("property-based testing over generated schedules, real polling threads", "monotonicity and coherence of status reads"),
 "C16": ("property-based testing of equality, hash and copy laws", "laws over generated names, payloads, instances; machines configured with equal instances"),
 "C17": ("property-based testing over names, factories and generated schedules; real-thread fuzzing", "names unique and as requested, daemon, one thread per machine"),
 "C18": ("model-based random testing of captured log lines", "exact lines predicted from the model for generated names and histories"),
 "C19": ("combinatorial property-based testing of collaborator configurations, model oracle", "who was called, on which thread, in every combination"),
 "C20": ("model-based random testing, generated schedules", "exact count when quiet, interval bound otherwise"),
 "C21": ("property-based testing of nested guards and throwables, directly and inside machines", "direct model of the guard; machine trace compared with the reference model"),
 "C22": ("property-based testing over generated schedules with callbacks held up, deadlock oracle", "callbacks are held up until every other thread has made all its calls; a call that waits for one shows as a deadlock"),
 "C23": ("property-based testing of reachability over generated histories (weak references, garbage collection)", "payloads, exceptions, listeners, contexts and machines must be collectable when done with, a few excepted"),
}
TRUST = (" Exploration: holds for the cases generated (counts, rule and samples in the evidence file), not proved. "
         "Trusted: the harness (model, scheduler, instrumentation), javac and the JVM; generated schedules are "
         "sequentially consistent with scheduling points at field accesses, monitors and java.util calls.")
checks = []
for k, (t, n) in T.items():
    if os.path.exists(f"{V}/harness/props/vp/props/{k}.java"):
        checks.append(dict(property=k, quick_cmd=f"./check.sh {k} quick", thorough_cmd=f"./check.sh {k} thorough",
            evidence_file=f"evidence/{k}.json", technique=t, level="exploration", level_note=n + "." + TRUST))
na = []
ids = [json.loads(l)["id"] for l in open(f"{V}/properties.jsonl")]
for i in ids:
    if i not in [c["property"] for c in checks]:
        na.append(dict(property=i, reason="check under construction"))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
    notes="Known and fixed findings: known-findings.txt. No hooks: the harness instruments compiled classes itself."),
    open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
