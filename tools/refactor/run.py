#!/usr/bin/env python3
"""run.py [NAME...] [-- CHECK...]: applies each behaviour-preserving edit of /repo in a scratch copy and runs
the checks there; every one must stay quiet."""
import os, subprocess, sys, shutil
V = "/tmp/verif.%d" % os.getpid()  # a fixed copy, so that the harness can be edited meanwhile
os.makedirs(V + "/evidence")
subprocess.run(["cp", "-r", "/verif/check.sh", "/verif/harness", "/verif/known-findings.txt", V], check=True)
import atexit
atexit.register(shutil.rmtree, V, True)
SRC = "src/main/java/com/webotech/statemachine/"
R = {}
def r(name, *edits): R[name] = edits

SM, TT, DS, DD, FA = "GenericStateMachine.java", "strategy/TransitionTask.java", "strategy/DefaultEventStrategy.java", "strategy/DropDuplicateEventStrategy.java", "strategy/EventProcessingStrategyFactory.java"
MC, NS, NE, TH = "MultiConsumerStateMachineListener.java", "NamedState.java", "NamedStateEvent.java", "util/Threads.java"
AS, AC, LU, LL, HE = "service/AbstractAppService.java", "service/AbstractAppContext.java", "service/LifecycleStateMachineUtil.java", "LoggingStateMachineListener.java", "HandleExceptionAction.java"
PO = "strategy/EventMachinePairPool.java"

r("start-helpers", (SM, """    for (Entry<State<T, S>, Map<StateEvent<S>, State<T, S>>> entry : this.states.entrySet()) {
      State<T, S> key = entry.getKey();
      for (Entry<StateEvent<S>, State<T, S>> entry1 : entry.getValue().entrySet()) {
        if (entry1.getValue() == null) {
          throw new IllegalStateException(
              "State " + key.getName() + " dose not transition when a " + entry1.getKey().getName()
                  + " event is received");
        }
      }
    }
    if (startFrom(initState)) {
      notifyStateMachineListener(false, noState, immediateEvent, initState);
      initState.onEntry(immediateEvent, this);
      notifyStateMachineListener(true, noState, immediateEvent, initState);
      if (endState.equals(states.get(initState).get(immediateEvent))) {
        stop();
      }
    } else {
      throw new IllegalStateException("The state machine has already been started");
    }
  }
""", """    this.states.forEach((key, outcomes) -> outcomes.forEach((ev, to) -> assertOutcome(key, ev, to)));
    if (!startFrom(initState)) {
      throw new IllegalStateException("The state machine has already been started");
    }
    enterInitial(initState);
  }

  private void assertOutcome(State<T, S> key, StateEvent<S> ev, State<T, S> to) {
    if (to == null) {
      throw new IllegalStateException(
          "State " + key.getName() + " dose not transition when a " + ev.getName()
              + " event is received");
    }
  }

  private void enterInitial(State<T, S> state) {
    notifyStateMachineListener(false, noState, immediateEvent, state);
    state.onEntry(immediateEvent, this);
    notifyStateMachineListener(true, noState, immediateEvent, state);
    boolean endsAtOnce = endState.equals(states.get(state).get(immediateEvent));
    if (endsAtOnce) {
      stop();
    }
  }
"""))
r("locks", (SM, "    synchronized (isEnded) {\n      if (isStarted()) {\n        return false;\n      }\n      isEnded.set(false);\n      currentState = state;\n      isStarted.set(true);\n      return true;\n    }\n",
"    stateLock.lock();\n    try {\n      boolean first = !isStarted();\n      if (first) {\n        isEnded.set(false);\n        currentState = state;\n        isStarted.set(true);\n      }\n      return first;\n    } finally {\n      stateLock.unlock();\n    }\n"),
 (SM, "    synchronized (isEnded) {\n      if (!isEnded.get()) {\n        currentState = state;\n        isEnded.set(state.equals(endState));\n      }\n    }\n",
"    stateLock.lock();\n    try {\n      if (isEnded.get()) {\n        return;\n      }\n      currentState = state;\n      isEnded.set(state.equals(endState));\n    } finally {\n      stateLock.unlock();\n    }\n"),
 (SM, "  private final AtomicBoolean isStarted;\n", "  private final java.util.concurrent.locks.ReentrantLock stateLock = new java.util.concurrent.locks.ReentrantLock();\n  private final AtomicBoolean isStarted;\n"))
r("volatile-flags", (SM, "  private final AtomicBoolean isStarted;\n  private final AtomicBoolean isEnded;\n", "  private final Object guard = new Object();\n  private volatile boolean started;\n  private volatile boolean ended;\n"),
 (SM, "    isStarted = new AtomicBoolean(false);\n    isEnded = new AtomicBoolean(false);\n", ""),
 (SM, "import java.util.concurrent.atomic.AtomicBoolean;\n", ""),
 (SM, "isEnded.set(false)", "ended = false"), (SM, "isStarted.set(true)", "started = true"),
 (SM, "isStarted.get()", "started"), (SM, "return isEnded.get()", "return ended"), (SM, "!isEnded.get()", "!ended"), (SM, "isEnded.set(state.equals(endState))", "ended = state.equals(endState)"),
 (SM, "synchronized (isEnded)", "synchronized (guard)"))
r("fire-reordered", (SM, """    if (!isStarted()) {
      unexpectedFlowListener.onEventBeforeMachineStart(stateEvent, this);
    } else if (isStarted() && isEnded()) {
      unexpectedFlowListener.onEventAfterMachineEnd(stateEvent, this);
    } else {
      eventProcessingStrategy.processEvent(stateEvent, this);
    }
""", """    if (!isStarted()) {
      unexpectedFlowListener.onEventBeforeMachineStart(stateEvent, this);
      return;
    }
    if (!isEnded()) {
      eventProcessingStrategy.processEvent(stateEvent, this);
      return;
    }
    unexpectedFlowListener.onEventAfterMachineEnd(stateEvent, this);
"""), (SM, """    if (listener != null) {
      if (fromState == null) {
        fromState = this.noState;
      }
""", """    if (listener == null) {
      return;
    }
    {
      fromState = fromState != null ? fromState : this.noState;
"""))
r("dsl-helper", *[(SM, "    this.states.get(this.markedState).put(this.markedEvent, %s);\n    this.markedState = null;\n    this.markedEvent = null;\n    return this;\n" % x, "    return outcome(%s);\n" % x) for x in ("state", "this.noopState")],
 (SM, "  private void assertNotReservedState(", """  private StateMachine<T, S> outcome(State<T, S> to) {
    Map<StateEvent<S>, State<T, S>> row = this.states.get(this.markedState);
    row.put(this.markedEvent, to);
    this.markedEvent = null;
    this.markedState = null;
    return this;
  }

  private void assertNotReservedState("""),
 (SM, "    if (reservedStateNames.stream().anyMatch(r -> r.equals(state.getName()))) {\n", "    boolean reserved = false;\n    for (String r : reservedStateNames) {\n      reserved |= r.equals(state.getName());\n    }\n    if (reserved) {\n"))
r("dsl-order", (SM, "    assertNotReservedState(state);\n    assertInitStateDefined(true);\n    assertMarkedStateDefined(false);\n", "    assertInitStateDefined(true);\n    assertMarkedStateDefined(false);\n    assertNotReservedState(state);\n"),
 (SM, "    states.put(initState, new HashMap<>());\n    states.put(endState, noTransitionMap);\n    states.put(noState, noTransitionMap);\n    states.put(noopState, noTransitionMap);\n", "    for (State<T, S> s : List.of(noopState, noState, endState)) {\n      states.put(s, noTransitionMap);\n    }\n    states.put(initState, new HashMap<>());\n"),
 (SM, "new HashMap<>(), stateMachineListener,", "new java.util.LinkedHashMap<>(), stateMachineListener,"))
r("task-restructured", (TT, """    State<T, S> toState = states.get(machine.getCurrentState()).get(event);
    if (toState == null) {
      unmappedEventHandler.accept(event, machine);
      return;
    }
    if (machine.getNoopState().equals(toState)) {
      // No transition but notify the listener so it can tell a StateEvent was received
      machine.notifyStateMachineListener(false, machine.getCurrentState(), event, toState);
      machine.notifyStateMachineListener(true, machine.getCurrentState(), event, toState);
      return;
    }
    State<T, S> fromState = machine.getCurrentState();
    machine.notifyStateMachineListener(false, fromState, event, toState);
    machine.getCurrentState().onExit(event, machine);
    machine.updateCurrentState(toState);
    machine.getCurrentState().onEntry(event, machine);
    machine.notifyStateMachineListener(true, fromState, event, toState);
    if (states.get(toState) == null || machine.getEndState()
        .equals(states.get(toState).get(machine.getImmediateEvent()))) {
      machine.stop();
    }
  }
""", """    State<T, S> fromState = machine.getCurrentState();
    State<T, S> toState = states.get(fromState).get(event);
    if (toState == null) {
      unmappedEventHandler.accept(event, machine);
    } else {
      machine.notifyStateMachineListener(false, fromState, event, toState);
      boolean moves = !toState.equals(machine.getNoopState());
      if (moves) {
        move(event, machine, fromState, toState);
      }
      machine.notifyStateMachineListener(true, fromState, event, toState);
      if (moves && isTerminal(toState, machine)) {
        machine.stop();
      }
    }
  }

  private void move(StateEvent<S> event, GenericStateMachine<T, S> machine, State<T, S> fromState,
      State<T, S> toState) {
    machine.getCurrentState().onExit(event, machine);
    machine.updateCurrentState(toState);
    machine.getCurrentState().onEntry(event, machine);
  }

  private boolean isTerminal(State<T, S> state, GenericStateMachine<T, S> machine) {
    Map<StateEvent<S>, State<T, S>> outcomes = states.get(state);
    return outcomes == null
        || machine.getEndState().equals(outcomes.get(machine.getImmediateEvent()));
  }
"""))
r("no-pool", (PO, "    EventMachinePair<T, S> eventMachinePair = pool.poll();\n    if (eventMachinePair == null) {\n      eventMachinePair = new EventMachinePair<>();\n    }\n    return eventMachinePair;\n", "    return new EventMachinePair<>();\n"),
 (PO, "      pool.offer(eventMachinePair);\n", "      pool.clear();\n"))
r("ds-loop", (DS, "      while (processNextEvent(stateMachine)) {\n        // process all queued events\n      }\n", "      boolean more;\n      do {\n        more = processNextEvent(stateMachine);\n      } while (more);\n"),
 (DS, """      EventMachinePair<T, S> consumedPair = eventQueue.poll();
      if (consumedPair == null) {
        return false;
      }
      StateEvent<S> event""", """      EventMachinePair<T, S> consumedPair = eventQueue.isEmpty() ? null : eventQueue.poll();
      if (consumedPair == null) {
        return false;
      }
      StateEvent<S> event"""),
 (DS, "    if (stateEvent.getPayload() != null || stateEvent instanceof NamedStateEvent) {", "    boolean copy = stateEvent instanceof NamedStateEvent || stateEvent.getPayload() != null;\n    if (copy) {"),
 (DS, "    eventQueue.offer(inboundPair);", "    eventQueue.add(inboundPair);"))
r("ds-one-per-task", (DS, "      while (processNextEvent(stateMachine)) {\n        // process all queued events\n      }\n", "      processNextEvent(stateMachine);\n"))
r("ds-reentrant", (DS, "    synchronized (stateMachine) {", "    processLock.lock();\n    try { synchronized (stateMachine) {"),
 (DS, "      return true;\n    }\n  }\n\n  @Override\n  public void setStates", "      return true;\n    } } finally {\n      processLock.unlock();\n    }\n  }\n\n  @Override\n  public void setStates"),
 (DS, "  private final int maxQueueSize;\n", "  private final int maxQueueSize;\n  private final java.util.concurrent.locks.ReentrantLock processLock = new java.util.concurrent.locks.ReentrantLock();\n"))
r("dd-loop", (DD, "      isDuplicate = eventQueue.stream().map(EventMachinePair::getStateEvent)\n          .anyMatch(queued -> queued != null && queued.equals(stateEvent));\n", "      boolean found = false;\n      for (EventMachinePair<T, S> en : eventQueue) {\n        StateEvent<S> queued = en.getStateEvent();\n        if (!found && queued != null && queued.equals(stateEvent)) {\n          found = true;\n        }\n      }\n      isDuplicate = found;\n"),
 (DD, """    if (isDuplicate) {
      logger.info(EVENT_ALREADY_IN_QUEUE_WILL_DROP_IT, stateEvent);
    } else {
      defaultStrategy.processIfOffered(isOffered, stateEvent, stateMachine);
    }
""", """    if (!isDuplicate) {
      defaultStrategy.processIfOffered(isOffered, stateEvent, stateMachine);
      return;
    }
    logger.info(EVENT_ALREADY_IN_QUEUE_WILL_DROP_IT, stateEvent);
"""))
r("factory-queue", (FA, "return eventQueue == null ? new ConcurrentLinkedQueue<>() : eventQueue;", "return eventQueue != null ? eventQueue : new java.util.concurrent.LinkedBlockingQueue<>();"),
 (FA, "import java.util.concurrent.ConcurrentLinkedQueue;\n", ""),
 (FA, "      if (unexpectedFlowListener == null) {\n        unexpectedFlowListener = new DefaultUnexpectedFlowListener<>();\n      }\n      return unexpectedFlowListener;", "      return unexpectedFlowListener == null ? new DefaultUnexpectedFlowListener<>()\n          : unexpectedFlowListener;"))
r("factory-pool", (FA, "defaultExecutor = Executors.newSingleThreadExecutor(\n", "defaultExecutor = new java.util.concurrent.ThreadPoolExecutor(1, 1, 0L, java.util.concurrent.TimeUnit.MILLISECONDS, new java.util.concurrent.LinkedBlockingQueue<>(),\n"))
r("factory-inline", (FA, "    return new DropDuplicateEventStrategy<>(newDefaultStrategy(config));\n", "    DefaultEventStrategy<T, S> delegate = newDefaultStrategy(config);\n    return new DropDuplicateEventStrategy<>(delegate);\n"),
 (FA, "Threads.newNamedDaemonThreadFactory(threadName == null ? \"state-machine\" : threadName,", "Threads.newNamedDaemonThreadFactory(java.util.Optional.ofNullable(threadName).orElse(\"state-machine\"),"))
r("fanout-cow", (MC, "this.consumers = new ConcurrentHashMap<>();", "this.consumers = new java.util.concurrent.CopyOnWriteArraySet<>();"),
 (MC, "  private final Map<StateMachineListener<T, S>, StateMachineListener<T, S>> consumers;", "  private final java.util.Set<StateMachineListener<T, S>> consumers;"),
 (MC, "return this.consumers.putIfAbsent(stateMachineListener, stateMachineListener) == null;", "return this.consumers.add(stateMachineListener);"),
 (MC, "return this.consumers.remove(stateMachineListener) != null;", "return this.consumers.remove(stateMachineListener);"),
 (MC, "consumers.values()", "consumers"), (MC, "import java.util.Map;\n", ""), (MC, "import java.util.concurrent.ConcurrentHashMap;\n", ""))
r("fanout-snapshot", (MC, "consumers.values()", "new java.util.ArrayList<>(consumers.keySet())"),
 (MC, "    Stream.of(listeners).filter(Objects::nonNull).forEach(this::add);\n", "    for (StateMachineListener<T, S> l : listeners) {\n      if (l != null) {\n        add(l);\n      }\n    }\n"), (MC, "import java.util.Objects;\n", ""), (MC, "import java.util.stream.Stream;\n", ""))
r("state-loops", (NS, "    this.entryActions.forEach(a -> a.execute(stateEvent, stateMachine));\n", "    runAll(this.entryActions, stateEvent, stateMachine);\n"),
 (NS, "    this.exitActions.forEach(a -> a.execute(stateEvent, stateMachine));\n  }\n", "    runAll(this.exitActions, stateEvent, stateMachine);\n  }\n\n  private void runAll(List<StateAction<T, S>> actions, StateEvent<S> e, StateMachine<T, S> m) {\n    for (StateAction<T, S> a : actions) {\n      a.execute(e, m);\n    }\n  }\n"),
 (NS, "    if (this == o) {\n      return true;\n    }\n    if (o == null || getClass() != o.getClass()) {\n      return false;\n    }\n    NamedState<?, ?> that = (NamedState<?, ?>) o;\n    return Objects.equals(name, that.name);\n", "    return o instanceof NamedState && Objects.equals(name, ((NamedState<?, ?>) o).name);\n"),
 (NE, "return Objects.hashCode(name);", "return name == null ? 0 : name.hashCode() * 31 + 7;"))
r("threads-name", (TH, "      thread.setName(String.format(DASH_FORMAT, this.threadName, threadNumber.getAndIncrement()));\n      thread.setDaemon(true);\n", "      int number = threadNumber.incrementAndGet();\n      thread.setDaemon(true);\n      thread.setName(this.threadName + \"-\" + number);\n"))
r("app-methods", (AS, "          for (Subsystem<C> subsystem : appContext.getSubsystems()) {\n            subsystem.start(appContext);\n          }\n          appStateMachine.fire(LifecycleStateMachineUtil.evtComplete);\n", "          startSubsystems();\n"),
 (AS, "          List<Subsystem<C>> subsystems = appContext.getSubsystems();\n          ListIterator<Subsystem<C>> listIterator = subsystems.listIterator(subsystems.size());\n          while (listIterator.hasPrevious()) {\n            listIterator.previous().stop(appContext);\n          }\n          appStateMachine.fire(LifecycleStateMachineUtil.evtComplete);\n", "          stopSubsystems();\n"),
 (AS, "import java.util.ListIterator;\n", ""),
 (AS, "  private String stateName(", """  private void startSubsystems() {
    List<Subsystem<C>> subsystems = appContext.getSubsystems();
    for (int i = 0; i < subsystems.size(); i++) {
      subsystems.get(i).start(appContext);
    }
    appStateMachine.fire(LifecycleStateMachineUtil.evtComplete);
  }

  private void stopSubsystems() {
    List<Subsystem<C>> subsystems = appContext.getSubsystems();
    for (int i = subsystems.size() - 1; i >= 0; i--) {
      subsystems.get(i).stop(appContext);
    }
    appStateMachine.fire(LifecycleStateMachineUtil.evtComplete);
  }

  private String stateName("""))
r("app-stop", (AS, """    String currentAppState = stateName(getLifecycleState());
    if (LifecycleStateMachineUtil.STATE_STARTED.equals(currentAppState)
        || !isExitOnStop && LifecycleStateMachineUtil.STATE_STOPPED.equals(currentAppState)) {
      appStateMachine.fire(LifecycleStateMachineUtil.evtStop);
    } else {
      if (!(isExitOnStop && LifecycleStateMachineUtil.STATE_STOPPED.equals(currentAppState))) {
        throw new IllegalStateException(
            "Cannot stop the app when it's in [" + currentAppState + "] state");
      }
    }
""", """    String current = stateName(getLifecycleState());
    boolean inStopped = LifecycleStateMachineUtil.STATE_STOPPED.equals(current);
    if (isExitOnStop && inStopped) {
      return;
    }
    if (!inStopped && !LifecycleStateMachineUtil.STATE_STARTED.equals(current)) {
      throw new IllegalStateException("Cannot stop the app when it's in [" + current + "] state");
    }
    appStateMachine.fire(LifecycleStateMachineUtil.evtStop);
"""), (AS, "    StateEvent<Void> evtError = LifecycleStateMachineUtil.evtError;\n    logger.error(\"{} has an error\", appContext.getAppName(), e);\n    appStateMachine.fire(evtError);\n", "    logger.error(\"{} has an error\", appContext.getAppName(), e);\n    fail();\n"),
 (AS, "  public final State<C, Void> getLifecycleState()", "  private void fail() {\n    appStateMachine.fire(LifecycleStateMachineUtil.evtError);\n  }\n\n  public final State<C, Void> getLifecycleState()"))
r("app-latch", (AS, "    stopped.appendExitActions((evt, stateMachine) -> {\n      if (LifecycleStateMachineUtil.evtStop.equals(evt)) {\n        appLatch.countDown();\n      }\n    });\n", "    stopped.appendExitActions((evt, stateMachine) -> {\n      boolean over = evt.getName().equals(LifecycleStateMachineUtil.evtStop.getName());\n      if (over) {\n        release();\n      }\n    });\n"),
 (AS, "  private String stateName(", "  private void release() {\n    appLatch.countDown();\n  }\n\n  private String stateName("))
r("app-context", (AC, "  private final AtomicReference<String> appThreadNameRef;\n  private final AtomicReference<List<Subsystem<C>>> subsystemsRef;\n", "  private volatile String threadName;\n  private volatile List<Subsystem<C>> subsystems;\n"),
 (AC, "    this.appThreadNameRef = new AtomicReference<>(\"app\");\n", "    this.threadName = \"app\";\n"), (AC, "    this.subsystemsRef = new AtomicReference<>(List.of());\n", "    this.subsystems = List.of();\n"),
 (AC, "subsystemsRef.set(subsystems)", "this.subsystems = subsystems"), (AC, "appThreadNameRef.set(appThreadName)", "this.threadName = appThreadName"), (AC, "subsystemsRef.get()", "subsystems"), (AC, "appThreadNameRef.get()", "threadName"), (AC, "import java.util.concurrent.atomic.AtomicReference;\n", ""))
r("lifecycle-order", (LU, """    stateMachine.when(starting).receives(evtComplete).itTransitionsTo(started);
    stateMachine.when(starting).receives(evtError).itTransitionsTo(stopped);
""", """    stateMachine.when(starting).receives(evtError).itTransitionsTo(stopped).when(starting)
        .receives(evtComplete).itTransitionsTo(started);
"""))
r("logging", (LL, "    if (this.name != null && !this.name.isEmpty()) {\n", "    boolean named = !(this.name == null || this.name.isEmpty());\n    if (named) {\n"),
 (LL, "logger.info(LOG_TRANSITIONED, newState.getName());", "logger.info(\"Transitioned to \" + newState.getName());"))
r("guard", (HE, "    try {\n      stateAction.execute(stateEvent, stateMachine);\n    } catch (Exception e) {\n      exceptionHandler.onException(stateEvent, stateMachine, e);\n    }\n", "    Exception failure = null;\n    try {\n      stateAction.execute(stateEvent, stateMachine);\n    } catch (Exception e) {\n      failure = e;\n    }\n    if (failure != null) {\n      exceptionHandler.onException(stateEvent, stateMachine, failure);\n    }\n"))
# a counter kept beside the queue
r("size-counter", (DS, "  private final int maxQueueSize;\n", "  private final int maxQueueSize;\n  private final java.util.concurrent.atomic.AtomicInteger waiting = new java.util.concurrent.atomic.AtomicInteger();\n"),
 (DS, "    return eventQueue.size();\n", "    return waiting.get();\n"), (DS, "    eventQueue.offer(inboundPair);\n", "    synchronized (waiting) {\n      eventQueue.offer(inboundPair);\n      waiting.incrementAndGet();\n    }\n"),
 (DS, "      EventMachinePair<T, S> consumedPair = eventQueue.poll();\n      if (consumedPair == null) {\n        return false;\n      }\n", "      EventMachinePair<T, S> consumedPair;\n      synchronized (waiting) {\n        consumedPair = eventQueue.poll();\n        if (consumedPair == null) {\n          return false;\n        }\n        waiting.decrementAndGet();\n      }\n"))

# the size counts the event in progress, as the documentation of getEventQueueSize says; bound unaffected
r("size-in-progress", (DS, "  private final int maxQueueSize;\n", "  private final int maxQueueSize;\n  private volatile int busy;\n"),
 (DS, "    return eventQueue.size();\n", "    return eventQueue.size() + busy;\n"), (DS, "if (getEventQueueSize() >= maxQueueSize)", "if (eventQueue.size() >= maxQueueSize)"),
 (DS, "      try {\n        if (!stateMachine.isEnded()) {\n", "      busy = 1;\n      try {\n        if (!stateMachine.isEnded()) {\n"),
 (DS, "      } finally {\n        eventMachinePairPool.give(consumedPair);\n", "      } finally {\n        busy = 0;\n        eventMachinePairPool.give(consumedPair);\n"))

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'more.py')).read())

def main():
    a = sys.argv[1:]
    checks = ["C%02d" % i for i in range(1, 24)]
    if "--" in a:
        checks = a[a.index("--") + 1:]; a = a[:a.index("--")]
    bad = []
    for n in a or R:
        w = "/tmp/refw.%d" % os.getpid()
        shutil.rmtree(w, ignore_errors=True)
        os.makedirs(w); subprocess.check_call(["cp", "-r", "/repo/src", w])
        for f, x, y in R[n]:
            p = f"{w}/{SRC}{f}"; s = open(p).read()
            if x not in s: print(n, "does not apply:", f, x[:60]); bad.append(n); break
            open(p, "w").write(s.replace(x, y))
        else:
            for c in checks:
                e = dict(os.environ, VP_REPO=w, VP_SCALE=os.environ.get("VP_SCALE", "0.5"))
                o = subprocess.run([f"{V}/check.sh", c, "quick"], env=e, capture_output=True, text=True)
                if o.returncode:
                    print(n, c, "rc", o.returncode, (o.stdout + o.stderr)[:600], flush=True); bad.append(n)
                    if o.returncode == 2: break
            print(n, "done", flush=True)
    shutil.rmtree("/tmp/refw.%d" % os.getpid(), ignore_errors=True)
    print("not quiet:", sorted(set(bad)))
if __name__ == "__main__":
    main()
