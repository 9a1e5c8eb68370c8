#!/usr/bin/env python3
"""probes.py [-t] [-j N] [NAME...]: small property-breaking edits (no demonstrations), each applied in a scratch copy
and run against its property's check. Prints which are caught. -t also says whether the existing tests notice."""
import os, subprocess, sys, shutil, runpy
from concurrent.futures import ThreadPoolExecutor
V = "/tmp/verif.%d" % os.getpid()  # a fixed copy, so that the harness can be edited meanwhile
os.makedirs(V + "/evidence")
subprocess.run(["cp", "-r", "/verif/check.sh", "/verif/harness", "/verif/known-findings.txt", V], check=True)
import atexit
atexit.register(shutil.rmtree, V, True)
SRC = "src/main/java/com/webotech/statemachine/"
P = {}
def p(name, *edits): P[name] = edits
SM, TT, DS, DD, FA = "GenericStateMachine.java", "strategy/TransitionTask.java", "strategy/DefaultEventStrategy.java", "strategy/DropDuplicateEventStrategy.java", "strategy/EventProcessingStrategyFactory.java"
MC, NS, NE, TH = "MultiConsumerStateMachineListener.java", "NamedState.java", "NamedStateEvent.java", "util/Threads.java"
AS, AC, LU, LL, HE = "service/AbstractAppService.java", "service/AbstractAppContext.java", "service/LifecycleStateMachineUtil.java", "LoggingStateMachineListener.java", "HandleExceptionAction.java"
PO, DU, MP = "strategy/EventMachinePairPool.java", "strategy/DefaultUnexpectedFlowListener.java", "strategy/EventMachinePair.java"
for f in sorted(os.listdir(os.path.dirname(os.path.abspath(__file__)))):
    if f.startswith("set") and f.endswith(".py"):
        exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), f)).read())

def one(name):
    w = f"/tmp/probew/{name}"
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    if TESTS:
        subprocess.run(f"cp -a /repo/. {w}/", shell=True, check=True)
    else:
        shutil.copytree("/repo/src", w + "/src")
    for f, old, new in P[name]:
        q = f"{w}/{SRC}{f}"
        s = open(q).read()
        if s.count(old) != 1:
            print(name, "BADEDIT", f, s.count(old), old[:80], flush=True)
            return
        open(q, "w").write(s.replace(old, new))
    prop = name.split("-")[0].upper()
    env = dict(os.environ, VP_REPO=w)
    r = subprocess.run(f"timeout 800 {V}/check.sh {prop} quick", shell=True, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    out = [l for l in r.stdout.splitlines() if not l.startswith("VIOLATION") and "quick:" not in l]
    t = ""
    if TESTS:
        sp = runpy.run_path("/verif" + "/tools/plant/plant.py", run_name="x")
        pass
    print(name, {0: "MISSED", 1: "caught"}.get(r.returncode, "RC%d" % r.returncode), t, (out or [""])[0][:150] if r.returncode else "", flush=True)
    if r.returncode not in (0, 1): print(r.stdout[-1500:])
    shutil.rmtree(w, ignore_errors=True)

args = sys.argv[1:]
TESTS = False
j = 2
if "-j" in args:
    k = args.index("-j"); j = int(args[k + 1]); del args[k:k + 2]
names = [n for n in P if not args or any(n == a or n.startswith(a + "-") for a in args)]
with ThreadPoolExecutor(j) as ex:
    list(ex.map(one, names))
