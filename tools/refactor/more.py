# Second set of behaviour-preserving edits: other primitives, other data structures (loaded by run.py).
r("app-wait-notify",
 (AS, "  private final CountDownLatch appLatch;\n", "  private final Object over = new Object();\n  private boolean isOver;\n"),
 (AS, "    appLatch = new CountDownLatch(1);\n", ""), (AS, "import java.util.concurrent.CountDownLatch;\n", ""),
 (AS, "        appLatch.await();\n", "        synchronized (over) {\n          while (!isOver) {\n            over.wait();\n          }\n        }\n"),
 (AS, "appLatch.countDown();", "signalOver();"),
 (AS, "  private String stateName(", "  private void signalOver() {\n    synchronized (over) {\n      isOver = true;\n      over.notifyAll();\n    }\n  }\n\n  private String stateName("))
r("app-future",
 (AS, "  private final CountDownLatch appLatch;\n", "  private final java.util.concurrent.CompletableFuture<Void> over = new java.util.concurrent.CompletableFuture<>();\n"),
 (AS, "    appLatch = new CountDownLatch(1);\n", ""), (AS, "import java.util.concurrent.CountDownLatch;\n", ""),
 (AS, "        appLatch.await();\n", "        over.get();\n"), (AS, "      } catch (InterruptedException e) {\n", "      } catch (java.util.concurrent.ExecutionException e) {\n        throw new IllegalStateException(e);\n      } catch (InterruptedException e) {\n"),
 (AS, "appLatch.countDown();", "over.complete(null);"))
r("app-condition",
 (AS, "  private final CountDownLatch appLatch;\n", "  private final java.util.concurrent.locks.ReentrantLock overLock = new java.util.concurrent.locks.ReentrantLock();\n  private final java.util.concurrent.locks.Condition over = overLock.newCondition();\n  private boolean isOver;\n"),
 (AS, "    appLatch = new CountDownLatch(1);\n", ""), (AS, "import java.util.concurrent.CountDownLatch;\n", ""),
 (AS, "        appLatch.await();\n", "        overLock.lock();\n        try {\n          while (!isOver) {\n            over.await();\n          }\n        } finally {\n          overLock.unlock();\n        }\n"),
 (AS, "appLatch.countDown();", "signalOver();"),
 (AS, "  private String stateName(", "  private void signalOver() {\n    overLock.lock();\n    try {\n      isOver = true;\n      over.signalAll();\n    } finally {\n      overLock.unlock();\n    }\n  }\n\n  private String stateName("))
r("app-semaphore",
 (AS, "  private final CountDownLatch appLatch;\n", "  private final java.util.concurrent.Semaphore over = new java.util.concurrent.Semaphore(0);\n"),
 (AS, "    appLatch = new CountDownLatch(1);\n", ""), (AS, "import java.util.concurrent.CountDownLatch;\n", ""),
 (AS, "        appLatch.await();\n", "        over.acquire();\n"), (AS, "appLatch.countDown();", "over.release();"))
r("app-poll-await",
 (AS, "        appLatch.await();\n", "        while (!appLatch.await(1, java.util.concurrent.TimeUnit.MINUTES)) {\n          logger.debug(\"still running\");\n        }\n"))
r("app-handlers",
 (AS, "    State<C, Void> started = LifecycleStateMachineUtil.newStartedState(\n        new HandleExceptionAction<>((ev, sm) -> {\n        }, exceptionHandler));\n", "    State<C, Void> started = LifecycleStateMachineUtil.newStartedState();\n"),
 (AS, "      appStateMachine.fire(LifecycleStateMachineUtil.evtError);\n    };", "      sm.fire(LifecycleStateMachineUtil.evtError);\n    };"),
 (AS, "    String currentAppState = stateName(getLifecycleState());\n    if (!appStateMachine.isStarted()) {\n", "    boolean firstStart = !appStateMachine.isStarted();\n    String currentAppState = stateName(getLifecycleState());\n    if (firstStart) {\n"))
r("fanout-sync-map",
 (MC, "this.consumers = new ConcurrentHashMap<>();", "this.consumers = new java.util.LinkedHashMap<>();"), (MC, "import java.util.concurrent.ConcurrentHashMap;\n", ""),
 (MC, "return this.consumers.putIfAbsent(stateMachineListener, stateMachineListener) == null;", "synchronized (consumers) {\n      if (consumers.containsKey(stateMachineListener)) {\n        return false;\n      }\n      consumers.put(stateMachineListener, stateMachineListener);\n      return true;\n    }"),
 (MC, "return this.consumers.remove(stateMachineListener) != null;", "synchronized (consumers) {\n      return this.consumers.remove(stateMachineListener) != null;\n    }"),
 (MC, "    for (StateMachineListener<T, S> stateMachineListener : consumers.values()) {", "    java.util.List<StateMachineListener<T, S>> now;\n    synchronized (consumers) {\n      now = new java.util.ArrayList<>(consumers.values());\n    }\n    for (StateMachineListener<T, S> stateMachineListener : now) {"))
r("fanout-cas",
 (MC, "  private final Map<StateMachineListener<T, S>, StateMachineListener<T, S>> consumers;", "  private final java.util.concurrent.atomic.AtomicReference<java.util.List<StateMachineListener<T, S>>> consumers;"),
 (MC, "this.consumers = new ConcurrentHashMap<>();", "this.consumers = new java.util.concurrent.atomic.AtomicReference<>(java.util.List.of());"),
 (MC, "import java.util.Map;\n", ""), (MC, "import java.util.concurrent.ConcurrentHashMap;\n", ""),
 (MC, "return this.consumers.putIfAbsent(stateMachineListener, stateMachineListener) == null;", "Objects.requireNonNull(stateMachineListener);\n    while (true) {\n      java.util.List<StateMachineListener<T, S>> old = consumers.get();\n      if (old.contains(stateMachineListener)) {\n        return false;\n      }\n      java.util.List<StateMachineListener<T, S>> next = new java.util.ArrayList<>(old);\n      next.add(stateMachineListener);\n      if (consumers.compareAndSet(old, next)) {\n        return true;\n      }\n    }"),
 (MC, "return this.consumers.remove(stateMachineListener) != null;", "while (true) {\n      java.util.List<StateMachineListener<T, S>> old = consumers.get();\n      java.util.List<StateMachineListener<T, S>> next = new java.util.ArrayList<>(old);\n      if (!next.remove(stateMachineListener)) {\n        return false;\n      }\n      if (consumers.compareAndSet(old, next)) {\n        return true;\n      }\n    }"),
 (MC, "consumers.values()", "consumers.get()"))
r("fanout-throws",
 (MC, "    callBackEach(consumer -> consumer.onStateChangeBegin(fromState, event, toState));\n", "    callBackEach(false, fromState, event, toState);\n"),
 (MC, "    callBackEach(consumer -> consumer.onStateChangeEnd(fromState, event, toState));\n", "    callBackEach(true, fromState, event, toState);\n"),
 (MC, "  private void callBackEach(Consumer<StateMachineListener<T, S>> callBack) {\n", "  private void callBackEach(boolean isEnd, State<T, S> fromState, StateEvent<S> event, State<T, S> toState) {\n"),
 (MC, "        callBack.accept(stateMachineListener);\n", "        if (isEnd) {\n          stateMachineListener.onStateChangeEnd(fromState, event, toState);\n        } else {\n          stateMachineListener.onStateChangeBegin(fromState, event, toState);\n        }\n"),
 (MC, "import java.util.function.Consumer;\n", ""),
 (MC, "        } else if (first != e) {\n          first.addSuppressed(e);\n        }", "        }"))
r("status-holder",
 (SM, "  private volatile State<T, S> currentState;\n", "  private final java.util.concurrent.atomic.AtomicReference<Status<T, S>> status = new java.util.concurrent.atomic.AtomicReference<>(new Status<>(null, false, false));\n"),
 (SM, "  private final AtomicBoolean isStarted;\n  private final AtomicBoolean isEnded;\n", ""),
 (SM, "    isStarted = new AtomicBoolean(false);\n    isEnded = new AtomicBoolean(false);\n", ""),
 (SM, "import java.util.concurrent.atomic.AtomicBoolean;\n", ""),
 (SM, "    synchronized (isEnded) {\n      if (isStarted()) {\n        return false;\n      }\n      isEnded.set(false);\n      currentState = state;\n      isStarted.set(true);\n      return true;\n    }\n", "    Status<T, S> old = status.get();\n    while (!old.started) {\n      if (status.compareAndSet(old, new Status<>(state, true, false))) {\n        return true;\n      }\n      old = status.get();\n    }\n    return false;\n"),
 (SM, "    /* The current state and ended flag have to change together, stop may be called concurrently */\n    synchronized (isEnded) {\n      if (!isEnded.get()) {\n        currentState = state;\n        isEnded.set(state.equals(endState));\n      }\n    }\n", "    status.updateAndGet(old -> old.ended ? old : new Status<>(state, old.started, state.equals(endState)));\n"),
 (SM, "    return isStarted.get();\n", "    return status.get().started;\n"), (SM, "    return isEnded.get();\n", "    return status.get().ended;\n"), (SM, "    return this.currentState;\n", "    return status.get().state;\n"),
 (SM, '"currentState=" + currentState', '"currentState=" + getCurrentState()'),
 (SM, "  public static class Builder<T, S> {\n", "  private static final class Status<T, S> {\n\n    final State<T, S> state;\n    final boolean started;\n    final boolean ended;\n\n    Status(State<T, S> state, boolean started, boolean ended) {\n      this.state = state;\n      this.started = started;\n      this.ended = ended;\n    }\n  }\n\n  public static class Builder<T, S> {\n"))
r("status-stamped",
 (SM, "  private final AtomicBoolean isStarted;\n", "  private final java.util.concurrent.locks.StampedLock stamped = new java.util.concurrent.locks.StampedLock();\n  private final AtomicBoolean isStarted;\n"),
 (SM, "    synchronized (isEnded) {\n      if (!isEnded.get()) {\n        currentState = state;\n        isEnded.set(state.equals(endState));\n      }\n    }\n", "    long stamp = stamped.writeLock();\n    try {\n      if (!isEnded.get()) {\n        currentState = state;\n        isEnded.set(state.equals(endState));\n      }\n    } finally {\n      stamped.unlockWrite(stamp);\n    }\n"),
 (SM, "    synchronized (isEnded) {\n      if (isStarted()) {\n        return false;\n      }\n      isEnded.set(false);\n      currentState = state;\n      isStarted.set(true);\n      return true;\n    }\n", "    long stamp = stamped.writeLock();\n    try {\n      if (isStarted()) {\n        return false;\n      }\n      isEnded.set(false);\n      currentState = state;\n      isStarted.set(true);\n      return true;\n    } finally {\n      stamped.unlockWrite(stamp);\n    }\n"))
r("listener-atomic",
 (SM, "  private volatile StateMachineListener<T, S> stateMachineListener;\n", "  private final java.util.concurrent.atomic.AtomicReference<StateMachineListener<T, S>> listenerRef = new java.util.concurrent.atomic.AtomicReference<>();\n"),
 (SM, "    this.states = states;\n", "    this.states = states;\n    this.listenerRef.set(stateMachineListener);\n"),
 (SM, "    this.context = context;\n    this.stateMachineListener = stateMachineListener;\n", "    this.context = context;\n"),
 (SM, "    StateMachineListener<T, S> listener = this.stateMachineListener;\n", "    StateMachineListener<T, S> listener = listenerRef.get();\n"),
 (SM, "  public void setStateMachineListener(StateMachineListener<T, S> stateMachineListener) {\n    this.stateMachineListener = stateMachineListener;\n", "  public void setStateMachineListener(StateMachineListener<T, S> stateMachineListener) {\n    listenerRef.set(stateMachineListener);\n"),
 (SM, "      if (fromState == null) {\n        fromState = this.noState;\n      }\n      if (toState == null) {\n        toState = this.noState;\n      }\n      if (stateEvent == null) {\n        stateEvent = this.immediateEvent;\n      }\n      if (isComplete) {\n        listener.onStateChangeEnd(fromState, stateEvent, toState);\n      } else {\n        listener.onStateChangeBegin(fromState, stateEvent, toState);\n      }\n", "      State<T, S> from = fromState == null ? this.noState : fromState;\n      State<T, S> to = toState == null ? this.noState : toState;\n      StateEvent<S> event = stateEvent == null ? this.immediateEvent : stateEvent;\n      if (!isComplete) {\n        listener.onStateChangeBegin(from, event, to);\n        return;\n      }\n      listener.onStateChangeEnd(from, event, to);\n"))
r("start-iter",
 (SM, "    for (Entry<State<T, S>, Map<StateEvent<S>, State<T, S>>> entry : this.states.entrySet()) {\n      State<T, S> key = entry.getKey();\n      for (Entry<StateEvent<S>, State<T, S>> entry1 : entry.getValue().entrySet()) {\n        if (entry1.getValue() == null) {\n          throw new IllegalStateException(\n              \"State \" + key.getName() + \" dose not transition when a \" + entry1.getKey().getName()\n                  + \" event is received\");\n        }\n      }\n    }\n", "    states.entrySet().stream().filter(e -> e.getValue().containsValue(null)).findFirst()\n        .ifPresent(e -> {\n          throw new IllegalStateException(\"State \" + e.getKey().getName() + \" does not transition\");\n        });\n"),
 (SM, "    if (startFrom(initState)) {\n", "    final boolean started = startFrom(initState);\n    if (started) {\n"), (SM, "import java.util.Map.Entry;\n", ""))
r("ds-drain-flag",
 (DS, "  private final int maxQueueSize;\n", "  private final int maxQueueSize;\n  private final java.util.concurrent.atomic.AtomicInteger work = new java.util.concurrent.atomic.AtomicInteger();\n"),
 (DS, "    executor.execute(() -> {\n      while (processNextEvent(stateMachine)) {\n        // process all queued events\n      }\n    });\n", """    if (work.getAndIncrement() == 0) {
      executor.execute(() -> drain(stateMachine));
    }
  }

  private void drain(GenericStateMachine<T, S> stateMachine) {
    int seen = work.get();
    boolean done = false;
    try {
      do {
        while (processNextEvent(stateMachine)) {
          // process all queued events
        }
        seen = work.addAndGet(-seen);
      } while (seen != 0);
      done = true;
    } finally {
      if (!done) {
        executor.execute(() -> drain(stateMachine));
      }
    }
"""))
r("ds-one-lock",
 (DS, "      while (processNextEvent(stateMachine)) {\n        // process all queued events\n      }\n", "      synchronized (stateMachine) {\n        while (processNextEvent(stateMachine)) {\n          // process all queued events\n        }\n      }\n"))
r("ds-own-lock",
 (DS, "    synchronized (eventQueue) {\n      if (getEventQueueSize() >= maxQueueSize) {\n        return false;\n      }\n      enqueue(stateEvent, stateMachine);\n      return true;\n    }\n", "    offerLock.lock();\n    try {\n      boolean isFull = getEventQueueSize() >= maxQueueSize;\n      if (!isFull) {\n        enqueue(stateEvent, stateMachine);\n      }\n      return !isFull;\n    } finally {\n      offerLock.unlock();\n    }\n"),
 (DS, "  private final int maxQueueSize;\n", "  private final int maxQueueSize;\n  private final java.util.concurrent.locks.ReentrantLock offerLock = new java.util.concurrent.locks.ReentrantLock();\n"),
 (DS, "        if (!stateMachine.isEnded()) {\n          transitionTask.execute(event, machine);\n        }\n", "        if (stateMachine.isEnded()) {\n          return true;\n        }\n        transitionTask.execute(event, machine);\n"))
r("ds-semaphore",
 (DS, "    synchronized (eventQueue) {\n      if (getEventQueueSize() >= maxQueueSize) {\n        return false;\n      }\n      enqueue(stateEvent, stateMachine);\n      return true;\n    }\n", "    if (!slots.tryAcquire()) {\n      return false;\n    }\n    enqueue(stateEvent, stateMachine);\n    return true;\n"),
 (DS, "    this.maxQueueSize = maxQueueSize;\n  }\n", "    this.maxQueueSize = maxQueueSize;\n    this.slots = new java.util.concurrent.Semaphore(Math.max(0, maxQueueSize));\n  }\n"),
 (DS, "  private final int maxQueueSize;\n", "  private final int maxQueueSize;\n  private final java.util.concurrent.Semaphore slots;\n"),
 (DS, "      StateEvent<S> event = consumedPair.getStateEvent();\n", "      slots.release();\n      StateEvent<S> event = consumedPair.getStateEvent();\n"))
r("ds-no-pair-lambda",
 (DS, "      StateEvent<S> event = consumedPair.getStateEvent();\n      GenericStateMachine<T, S> machine = consumedPair.getStateMachine();\n      try {\n        if (!stateMachine.isEnded()) {\n          transitionTask.execute(event, machine);\n        }\n      } catch (Exception e) {\n        unexpectedFlowListener.onExceptionDuringEventProcessing(event, machine,\n            Thread.currentThread(), e);\n      } finally {\n        eventMachinePairPool.give(consumedPair);\n      }\n      return true;\n", "      StateEvent<S> event = consumedPair.getStateEvent();\n      GenericStateMachine<T, S> machine = consumedPair.getStateMachine();\n      eventMachinePairPool.give(consumedPair);\n      Exception failure = execute(event, machine);\n      if (failure != null) {\n        report(event, machine, failure);\n      }\n      return true;\n"),
 (DS, "  @Override\n  public void setStates(", "  private Exception execute(StateEvent<S> event, GenericStateMachine<T, S> machine) {\n    try {\n      if (!machine.isEnded()) {\n        transitionTask.execute(event, machine);\n      }\n      return null;\n    } catch (Exception e) {\n      return e;\n    }\n  }\n\n  private void report(StateEvent<S> event, GenericStateMachine<T, S> machine, Exception e) {\n    unexpectedFlowListener.onExceptionDuringEventProcessing(event, machine, Thread.currentThread(), e);\n  }\n\n  @Override\n  public void setStates("))
r("config-plain",
 (FA, "      if (unmappedEventHandler == null) {\n        unmappedEventHandler = (ev, sm) -> logger.info(LOG_EVENT_NOT_MAPPED, ev.getName(),\n            sm.getCurrentState().getName());\n      }\n      return unmappedEventHandler;\n", "      return unmappedEventHandler != null ? unmappedEventHandler : Config::logUnmapped;\n"),
 (FA, "    ExecutorService getExecutor() {\n", "    private static <A, B> void logUnmapped(StateEvent<B> ev, StateMachine<A, B> sm) {\n      logger.info(LOG_EVENT_NOT_MAPPED, ev.getName(), sm.getCurrentState().getName());\n    }\n\n    ExecutorService getExecutor() {\n"))
r("config-own-executor",
 (FA, "      if (defaultExecutor == null) {\n        defaultExecutor = Executors.newSingleThreadExecutor(\n", "      if (executor == null) {\n        return Executors.newSingleThreadExecutor(\n"))
r("threads-long",
 (TH, "AtomicInteger threadNumber = new AtomicInteger()", "AtomicLong threadNumber = new AtomicLong(1)"), (TH, "import java.util.concurrent.atomic.AtomicInteger;", "import java.util.concurrent.atomic.AtomicLong;"),
 (TH, "      Thread thread = new Thread(runnable);\n      thread.setName(String.format(DASH_FORMAT, this.threadName, threadNumber.getAndIncrement()));\n      thread.setDaemon(true);\n      thread.setUncaughtExceptionHandler(this.uncaughtExceptionHandler);\n", "      Thread thread = new Thread(null, runnable, nextName());\n      if (uncaughtExceptionHandler != null) {\n        thread.setUncaughtExceptionHandler(this.uncaughtExceptionHandler);\n      }\n      thread.setDaemon(true);\n"),
 (TH, "    @Override\n    public Thread newThread(", "    private String nextName() {\n      return String.format(DASH_FORMAT, this.threadName, threadNumber.getAndIncrement());\n    }\n\n    @Override\n    public Thread newThread("))
r("threads-sync",
 (TH, "      Thread thread = new Thread(runnable);\n", "      Thread thread = new Thread(runnable);\n      int number;\n      synchronized (NamedDaemonThreadFactory.class) {\n        number = counter++;\n      }\n"),
 (TH, "threadNumber.getAndIncrement()", "number"), (TH, "    private static final AtomicInteger threadNumber = new AtomicInteger();\n", "    private static int counter;\n"), (TH, "import java.util.concurrent.atomic.AtomicInteger;\n", ""))
r("named-arrays",
 (NS, "    this.entryActions = new ArrayList<>();\n    this.exitActions = new ArrayList<>();\n", "    this.entryActions = new java.util.concurrent.CopyOnWriteArrayList<>();\n    this.exitActions = new java.util.LinkedList<>();\n"), (NS, "import java.util.ArrayList;\n", ""),
 (NS, "    Stream.of(actions).filter(Objects::nonNull).forEach(this.entryActions::add);\n", "    for (StateAction<T, S> action : actions) {\n      if (action != null) {\n        this.entryActions.add(action);\n      }\n    }\n"))
r("event-copy",
 (NE, "    this(stateEvent.getName(), stateEvent.getPayload());\n", "    this.name = stateEvent.getName();\n    this.payload = stateEvent.getPayload();\n"),
 (NE, "    if (this == o) {\n      return true;\n    }\n    if (o == null || getClass() != o.getClass()) {\n      return false;\n    }\n    NamedStateEvent<S> that = (NamedStateEvent) o;\n    return Objects.equals(name, that.name);\n", "    if (!(o instanceof NamedStateEvent)) {\n      return false;\n    }\n    NamedStateEvent<S> that = (NamedStateEvent) o;\n    return name == null ? that.name == null : name.equals(that.name);\n"))
r("dd-none-match",
 (DD, "      isDuplicate = eventQueue.stream().map(EventMachinePair::getStateEvent)\n          .anyMatch(queued -> queued != null && queued.equals(stateEvent));\n", "      isDuplicate = isWaiting(eventQueue, stateEvent);\n"),
 (DD, "  @Override\n  public void setStates(", "  private boolean isWaiting(Queue<EventMachinePair<T, S>> queue, StateEvent<S> wanted) {\n    return !queue.stream().map(EventMachinePair::getStateEvent).noneMatch(e -> e != null && e.equals(wanted));\n  }\n\n  @Override\n  public void setStates("))
r("fire-switch",
 (SM, "    if (!isStarted()) {\n      unexpectedFlowListener.onEventBeforeMachineStart(stateEvent, this);\n    } else if (isStarted() && isEnded()) {\n      unexpectedFlowListener.onEventAfterMachineEnd(stateEvent, this);\n    } else {\n      eventProcessingStrategy.processEvent(stateEvent, this);\n    }\n", "    if (isEnded() && isStarted()) {\n      unexpectedFlowListener.onEventAfterMachineEnd(stateEvent, this);\n      return;\n    }\n    if (isStarted()) {\n      eventProcessingStrategy.processEvent(stateEvent, this);\n      return;\n    }\n    unexpectedFlowListener.onEventBeforeMachineStart(stateEvent, this);\n"))
r("log-format",
 (LL, "logger.info(LOG_TRANSITIONED_NAMED, this.name, newState.getName());", "logger.info(\"{} transitioned to {}\", this.name, newState.getName());"),
 (LL, "    logChange(false, fromState, event, toState);\n", "    logBegin(fromState, event, toState);\n"),
 (LL, "  private void logChange(", "  private void logBegin(State<T, S> oldState, StateEvent<S> event, State<T, S> newState) {\n    logChange(false, oldState, event, newState);\n  }\n\n  private void logChange("))
