#!/usr/bin/env python3
"""Writes and validates the planted bugs: plant.py [--no-tests] [ID...]
Each plants/<ID>.py defines PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (Java source)."""
import json, os, shutil, subprocess, sys, runpy
HERE = os.path.dirname(os.path.abspath(__file__))
SEED = "/verif/seeded"
W = "/tmp/plantw"
B = "src/main/java/com/webotech/statemachine/"
ENV = dict(os.environ, JAVA_HOME="/usr/lib/jvm/java-17-openjdk-amd64",
           PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
DEMO_SH = '''#!/bin/bash
# exit 0 when the property holds in this scenario, 1 when it is broken; run in the repository after the build
D=$(cd "$(dirname "$0")" && pwd)
J=$(find /root/.m2/repository/org/apache/logging/log4j/log4j-api -name 'log4j-api-*.jar' | grep -v sources | head -1)
exec timeout 200 java -Dlog4j2.loggerContextFactory=org.apache.logging.log4j.simple.SimpleLoggerContextFactory \\
  -Dorg.apache.logging.log4j.simplelog.level=OFF -cp "$PWD/target/classes:$J" "$D/Demo.java"
'''
HEAD = '''import com.webotech.statemachine.*;
import com.webotech.statemachine.api.*;
import com.webotech.statemachine.strategy.*;
import com.webotech.statemachine.service.*;
import com.webotech.statemachine.service.api.*;
import com.webotech.statemachine.util.*;
import java.util.*;
import java.util.concurrent.*;
import java.util.concurrent.atomic.*;

public class Demo {

  static void check(boolean ok, String what) {
    if (!ok) {
      System.out.println("BROKEN: " + what);
      Runtime.getRuntime().halt(1);
    }
  }

  static void await(Callable<Boolean> c, String what) throws Exception {
    long end = System.nanoTime() + 20_000_000_000L;
    while (!c.call()) {
      check(System.nanoTime() < end, what);
      Thread.sleep(2);
    }
  }

  static void ok() {
    System.out.println("held");
    Runtime.getRuntime().halt(0);
  }
'''
def sh(cmd, cwd=None, timeout=600):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
def build():
    r = sh("mvn -o -q -B -ntp -Dversions.skip=true -Denforcer.skip -DskipTests test-compile", W)
    return r.returncode == 0, r.stdout
def tests():
    shutil.rmtree(W + "/target/surefire-reports", ignore_errors=True)
    sh("mvn -o -B -ntp -Dversions.skip=true -Denforcer.skip -fae -Dmaven.test.failure.ignore=true "
       "-Dsurefire.rerunFailingTestsCount=0 '-Dtest=!StateMachineIntegrationTest' test", W)
    sh(f"python3 /opt/vp/results.py /tmp/plant-res.json 'junit:{W}/target/surefire-reports/TEST-*.xml'")
    d = json.load(open("/tmp/plant-res.json"))
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    p = set(d.get("passed", []))
    return [s for s in stable if s not in p]
def main():
    args = sys.argv[1:]
    notests = "--no-tests" in args
    ids = [a for a in args if not a.startswith("--")] or sorted(f[:-3] for f in os.listdir(HERE + "/plants") if f.endswith(".py"))
    if not os.path.isdir(W):
        subprocess.run(["cp", "-a", "/repo", W], check=True)
    for i in ids:
        sh("git checkout -q -f -- . ", W); sh("git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", W)
        m = runpy.run_path(f"{HERE}/plants/{i}.py")
        d = f"{SEED}/{i}"
        os.makedirs(d, exist_ok=True)
        open(d + "/Demo.java", "w").write(HEAD + m["DEMO"] + "}\n")
        open(d + "/demo.sh", "w").write(m.get("DEMO_SH", DEMO_SH)); os.chmod(d + "/demo.sh", 0o755)
        ok, out = build()
        assert ok, out
        c = sh(f"bash {d}/demo.sh", W)
        bad = []
        if c.returncode != 0: bad.append("demo fails on clean: " + c.stdout[-1500:])
        for f, old, new in m["EDITS"]:
            p = f"{W}/{B}{f}"
            s = open(p).read()
            assert s.count(old) == 1, (i, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = sh("git diff", W).stdout
        open(d + "/patch.diff", "w").write(diff)
        json.dump(dict(property=m["PROPERTY"], needs=m["NEEDS"], what_it_breaks=m["BREAKS"]), open(d + "/meta.json", "w"), indent=1)
        ok, out = build()
        if not ok: bad.append("does not compile: " + out[-1500:])
        else:
            c = sh(f"bash {d}/demo.sh", W)
            if c.returncode == 0: bad.append("demo passes with the patch")
            elif "BROKEN" not in c.stdout: bad.append("demo fails oddly: " + c.stdout[-1500:])
            if not notests:
                miss = tests()
                if miss: bad.append("tests fail: " + str(miss))
        print(i, "OK" if not bad else "BAD " + " | ".join(bad), flush=True)
    sh("git checkout -q -f -- .", W)
main()
