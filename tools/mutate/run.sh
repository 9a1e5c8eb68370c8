#!/bin/bash
# run.sh WORKDIR [FROM [TO]]: mutants of /repo (made once by Mutate into WORKDIR/m), each against all checks
# with small counts; results in WORKDIR/res (number, killed-by or SURVIVED or NOCOMPILE, where, what)
W=$1; FROM=${2:-0}; TO=${3:-99999}
BC=/opt/veriftools/java/bytecode
SRC=/repo/src/main/java/com/webotech/statemachine
L=$(ls /root/.m2/repository/org/apache/logging/log4j/log4j-api/*/log4j-api-*.jar | head -1)
mkdir -p $W
if [ ! -d $W/m ]; then
  mkdir -p $W/cls; javac -nowarn -cp $BC/javaparser-core-3.26.4.jar -d $W/cls "$(dirname "$0")/Mutate.java" && java -cp $BC/javaparser-core-3.26.4.jar:$W/cls Mutate $SRC $W/m || exit 1
fi
# a fixed copy of the harness, so that it can be edited meanwhile
if [ ! -d $W/verif ]; then mkdir $W/verif; (cd /verif; git archive HEAD | tar x -C $W/verif); fi
order() {
  case $1 in
    service/*) echo C13 C14 C17 C18 C11 C15 C19;;
    Multi*) echo C12;;
    Logging*) echo C18;;
    HandleEx*) echo C21;;
    Named*) echo C16 C01 C06 C05 C18;;
    util/*) echo C17 C19;;
    strategy/DropDup*) echo C09 C18 C20 C08 C06;;
    strategy/*) echo C01 C02 C19 C08 C20 C18 C06 C07 C17 C09;;
    *) echo C01 C10 C04 C03 C18 C15 C05;;
  esac
}
for f in $W/m/*.mut; do
  i=$(basename $f .mut); [ $((10#$i)) -ge $FROM ] && [ $((10#$i)) -lt $TO ] || continue
  grep -q "^$i " $W/res 2>/dev/null && continue
  rel=$(sed -n 1p $f); line=$(sed -n 2p $f); desc=$(sed -n 3p $f | cut -c1-160)
  R=$W/r.$FROM; rm -rf "$R"; mkdir -p $R; cp -r /repo/src $R/
  tail -n +4 $f > $R/src/main/java/com/webotech/statemachine/$rel
  rm -rf "$R/out"; mkdir $R/out
  if ! javac -nowarn -proc:none -Xlint:none -cp $L -d $R/out $(find $R/src/main/java -name '*.java') >/dev/null 2>&1; then echo "$i NOCOMPILE $rel:$line $desc" >> $W/res; continue; fi
  first=$(order $rel); rest=""
  for p in C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23; do case " $first " in *" $p "*) ;; *) rest="$rest $p";; esac; done
  by=SURVIVED
  for p in $first $rest; do
    VP_REPO=$R VP_SCALE=${SCALE:-0.2} timeout 300 $W/verif/check.sh $p quick >$R/log 2>&1; rc=$?
    if [ $rc -ne 0 ]; then by="$p/rc$rc"; break; fi
  done
  echo "$i $by $rel:$line $desc" >> $W/res
done
rm -rf "$W/r.$FROM"
