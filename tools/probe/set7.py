MCF = "    for (StateMachineListener<T, S> stateMachineListener : consumers.values()) {\n"
p("c12-reentrant", (MC, "  private void callBackEach(Consumer<StateMachineListener<T, S>> callBack) {\n", "  private static final ThreadLocal<Boolean> busy = ThreadLocal.withInitial(() -> false);\n\n  private void callBackEach(Consumer<StateMachineListener<T, S>> callBack) {\n    if (busy.get()) {\n      return;\n    }\n    busy.set(true);\n    try {\n      callBackEach2(callBack);\n    } finally {\n      busy.set(false);\n    }\n  }\n\n  private void callBackEach2(Consumer<StateMachineListener<T, S>> callBack) {\n"))
p("c12-reentrant-own", (MC, "  private void callBackEach(Consumer<StateMachineListener<T, S>> callBack) {\n", "  private final ThreadLocal<Boolean> busy = ThreadLocal.withInitial(() -> false);\n\n  private void callBackEach(Consumer<StateMachineListener<T, S>> callBack) {\n    if (busy.get()) {\n      return;\n    }\n    busy.set(true);\n    try {\n      callBackEach2(callBack);\n    } finally {\n      busy.set(false);\n    }\n  }\n\n  private void callBackEach2(Consumer<StateMachineListener<T, S>> callBack) {\n"))
p("c12-same-args", (MC, "  public void onStateChangeBegin(State<T, S> fromState, StateEvent<S> event, State<T, S> toState) {\n", "  public void onStateChangeBegin(State<T, S> fromState, StateEvent<S> event, State<T, S> toState) {\n    if (event != null && event == last) {\n      return;\n    }\n    last = event;\n"), (MC, "  private final Map<StateMachineListener<T, S>, StateMachineListener<T, S>> consumers;", "  private StateEvent<S> last;\n  private final Map<StateMachineListener<T, S>, StateMachineListener<T, S>> consumers;"))
p("c21-reentrant", (HE, "    try {\n      stateAction", "    if (busy) {\n      stateAction.execute(stateEvent, stateMachine);\n      return;\n    }\n    busy = true;\n    try {\n      stateAction"), (HE, "      exceptionHandler.onException(stateEvent, stateMachine, e);\n    }\n", "      exceptionHandler.onException(stateEvent, stateMachine, e);\n    } finally {\n      busy = false;\n    }\n"), (HE, "  private final StateAction<T, S> stateAction;\n", "  private boolean busy;\n  private final StateAction<T, S> stateAction;\n"))
p("c21-twice-same", (HE, "      exceptionHandler.onException(stateEvent, stateMachine, e);\n", "      if (e != last) {\n        last = e;\n        exceptionHandler.onException(stateEvent, stateMachine, e);\n      }\n"), (HE, "  private final StateAction<T, S> stateAction;\n", "  private Exception last;\n  private final StateAction<T, S> stateAction;\n"))
p("c21-own-cause", (HE, "      exceptionHandler.onException(stateEvent, stateMachine, e);\n", "      Exception x = e.getClass() == RuntimeException.class && e.getCause() instanceof Exception ? (Exception) e.getCause() : e;\n      exceptionHandler.onException(stateEvent, stateMachine, x);\n"))
p("c21-null-machine", (HE, "      exceptionHandler.onException(stateEvent, stateMachine, e);\n", "      if (stateMachine != null && stateMachine.isEnded()) {\n        return;\n      }\n      exceptionHandler.onException(stateEvent, stateMachine, e);\n"))
p("c18-dedupe", (LL, "        logger.info(LOG_TRANSITIONED_NAMED, this.name, newState.getName());\n", "        if (newState != last) {\n          logger.info(LOG_TRANSITIONED_NAMED, this.name, newState.getName());\n        }\n        last = newState;\n"), (LL, "  private final String name;\n", "  private final String name;\n  private State<T, S> last;\n"))
p("c18-once-per-event", (FA, "        unmappedEventHandler = (ev, sm) -> logger.info(LOG_EVENT_NOT_MAPPED, ev.getName(),\n            sm.getCurrentState().getName());\n", "        java.util.Set<String> seen = java.util.concurrent.ConcurrentHashMap.newKeySet();\n        unmappedEventHandler = (ev, sm) -> {\n          if (seen.add(ev.getName() + sm.getCurrentState().getName())) {\n            logger.info(LOG_EVENT_NOT_MAPPED, ev.getName(), sm.getCurrentState().getName());\n          }\n        };\n"))
p("c18-after-once", (DU, "    logger.warn(\"Event {} received after state machine has ended\", stateEvent);\n", "    if (stateEvent != last) {\n      logger.warn(\"Event {} received after state machine has ended\", stateEvent);\n    }\n    last = stateEvent;\n"), (DU, "  @Override\n  public void onExceptionDuring", "  private StateEvent<S> last;\n\n  @Override\n  public void onExceptionDuring"))
p("c18-thread-current", (DU, "thread.getName(), e);", "Thread.currentThread().getName(), e);"))
p("c18-err-suppressed", (DU, "    logger.error(\"Unhandled", "    if (e instanceof IllegalStateException && stateMachine.isEnded()) {\n      return;\n    }\n    logger.error(\"Unhandled"))
p("c18-message-only", (DU, "thread.getName(), e);", "thread.getName(), e instanceof RuntimeException ? e : e.getMessage());"))
p("c03-after-dedupe", (SM, "      unexpectedFlowListener.onEventAfterMachineEnd(stateEvent, this);\n", "      if (stateEvent != lastLate) {\n        lastLate = stateEvent;\n        unexpectedFlowListener.onEventAfterMachineEnd(stateEvent, this);\n      }\n"), (SM, "  private State<T, S> initState;\n", "  private State<T, S> initState;\n  private StateEvent<S> lastLate;\n"))
p("c04-before-dedupe", (SM, "      unexpectedFlowListener.onEventBeforeMachineStart(stateEvent, this);\n", "      if (!stateEvent.equals(lastEarly)) {\n        lastEarly = stateEvent;\n        unexpectedFlowListener.onEventBeforeMachineStart(stateEvent, this);\n      }\n"), (SM, "  private State<T, S> initState;\n", "  private State<T, S> initState;\n  private StateEvent<S> lastEarly;\n"))
p("c02-time-budget", (DS, "      while (processNextEvent(stateMachine)) {\n", "      long until = System.nanoTime() + 20_000_000L;\n      while (processNextEvent(stateMachine) && System.nanoTime() < until) {\n"))
p("c02-scheduled-flag", (DS, "    executor.execute(() -> {\n      while (processNextEvent(stateMachine)) {\n        // process all queued events\n      }\n    });\n", "    if (!scheduled.compareAndSet(false, true)) {\n      return;\n    }\n    executor.execute(() -> {\n      scheduled.set(false);\n      while (processNextEvent(stateMachine)) {\n        // process all queued events\n      }\n    });\n"), (DS, "  private final int maxQueueSize;\n", "  private final int maxQueueSize;\n  private final java.util.concurrent.atomic.AtomicBoolean scheduled = new java.util.concurrent.atomic.AtomicBoolean();\n"))
p("c07-scheduled-error", (DS, "    executor.execute(() -> {\n      while (processNextEvent(stateMachine)) {\n        // process all queued events\n      }\n    });\n", "    if (!scheduled.compareAndSet(false, true)) {\n      return;\n    }\n    executor.execute(() -> {\n      scheduled.set(false);\n      while (processNextEvent(stateMachine)) {\n        // process all queued events\n      }\n    });\n"), (DS, "  private final int maxQueueSize;\n", "  private final int maxQueueSize;\n  private final java.util.concurrent.atomic.AtomicBoolean scheduled = new java.util.concurrent.atomic.AtomicBoolean();\n"))
p("c11-scheduled-machines", (DS, "    executor.execute(() -> {\n      while (processNextEvent(stateMachine)) {\n        // process all queued events\n      }\n    });\n", "    if (pending.putIfAbsent(executor, this) != null) {\n      return;\n    }\n    executor.execute(() -> {\n      pending.remove(executor);\n      while (processNextEvent(stateMachine)) {\n        // process all queued events\n      }\n    });\n"), (DS, "  private final int maxQueueSize;\n", "  private final int maxQueueSize;\n  private static final java.util.Map<Object, Object> pending = new java.util.concurrent.ConcurrentHashMap<>();\n"))
p("c23-threadlocal", (TT, "    State<T, S> toState = states.get(machine.getCurrentState()).get(event);\n", "    LAST.set(machine);\n    State<T, S> toState = states.get(machine.getCurrentState()).get(event);\n"), (TT, "  private final BiConsumer<StateEvent<S>, StateMachine<T, S>> unmappedEventHandler;\n", "  private final BiConsumer<StateEvent<S>, StateMachine<T, S>> unmappedEventHandler;\n  private static final ThreadLocal<Object> LAST = new ThreadLocal<>();\n"))
p("c23-trace-100", (TT, "    State<T, S> toState = states.get(machine.getCurrentState()).get(event);\n", "    trace.add(event);\n    if (trace.size() > 100) {\n      trace.poll();\n    }\n    State<T, S> toState = states.get(machine.getCurrentState()).get(event);\n"), (TT, "  private final BiConsumer<StateEvent<S>, StateMachine<T, S>> unmappedEventHandler;\n", "  private final BiConsumer<StateEvent<S>, StateMachine<T, S>> unmappedEventHandler;\n  private final java.util.Queue<Object> trace = new java.util.concurrent.ConcurrentLinkedQueue<>();\n"))
p("c22-fan-static-lock", (MC, "      try {\n        callBack.accept(stateMachineListener);\n", "      try {\n        synchronized (stateMachineListener) {\n          callBack.accept(stateMachineListener);\n        }\n"))
p("c22-add-waits", (MC, "    return this.consumers.putIfAbsent(stateMachineListener, stateMachineListener) == null;\n", "    synchronized (stateMachineListener) {\n      return this.consumers.putIfAbsent(stateMachineListener, stateMachineListener) == null;\n    }\n"), (MC, "      try {\n        callBack.accept(stateMachineListener);\n", "      try {\n        synchronized (stateMachineListener) {\n          callBack.accept(stateMachineListener);\n        }\n"))
p("c05-early-stop", (SM, "    if (!states.containsKey(state)) {\n", "    if (isEnded() || !states.containsKey(state)) {\n"))
p("c05-target-known", (SM, "    if (!states.containsKey(state)) {\n", "    if (!states.containsKey(state) && states.values().stream().noneMatch(m -> m.containsValue(state))) {\n"))
p("c05-empty-known", (SM, "    if (!states.containsKey(state)) {\n", "    if (!states.containsKey(state) || states.get(state).isEmpty() && !state.equals(initState)) {\n"))
p("c10-putifabsent-late", (SM, "    this.states.get(this.markedState).putIfAbsent(this.markedEvent, null);\n", "    if (!this.states.get(this.markedState).containsValue(this.noopState)) {\n      this.states.get(this.markedState).putIfAbsent(this.markedEvent, null);\n    }\n"))
p("c10-imm-clears", (SM, "    if (!this.states.get(this.markedState).isEmpty()) {\n", "    if (this.states.get(this.markedState).values().stream().anyMatch(s -> !s.equals(this.endState))) {\n"))
p("c13-empty-args", (AS, "          appStateMachine.fire(LifecycleStateMachineUtil.evtComplete);\n        }, exceptionHandler));\n    State<C, Void> started", "          if (appContext.getSubsystems().size() < 64) {\n            appStateMachine.fire(LifecycleStateMachineUtil.evtComplete);\n          }\n        }, exceptionHandler));\n    State<C, Void> started"))
p("c13-stop-after-failed", (AS, "    appStateMachine.fire(evtError);\n", "    if (!LifecycleStateMachineUtil.STATE_STOPPING.equals(stateName(getLifecycleState()))) {\n      appStateMachine.fire(evtError);\n    }\n"))
p("c14-latch-two", (AS, "    appLatch = new CountDownLatch(1);\n", "    appLatch = new CountDownLatch(isExitOnStop ? 1 : 1 + (appContext.getSubsystems().size() > 3 ? 1 : 0));\n"))
p("c17-strip", (TH, "this.threadName, threadNumber", "this.threadName.strip(), threadNumber"))
p("c17-per-name", (TH, "threadNumber.getAndIncrement()", "numbers.computeIfAbsent(threadName.toLowerCase(), k -> new AtomicInteger()).getAndIncrement()"), (TH, "    private final String threadName;\n", "    private final String threadName;\n    private static final java.util.Map<String, AtomicInteger> numbers = new java.util.WeakHashMap<>();\n"))
p("c20-max-size", (DS, "  public int getEventQueueSize() {\n    return eventQueue.size();\n", "  public int getEventQueueSize() {\n    return maxQueueSize > 0 ? Math.min(maxQueueSize, eventQueue.size()) : eventQueue.isEmpty() ? 0 : eventQueue.size();\n"))
p("c20-cached", (DS, "  public int getEventQueueSize() {\n    return eventQueue.size();\n", "  public int getEventQueueSize() {\n    long now = System.currentTimeMillis();\n    if (now != at) {\n      at = now;\n      size = eventQueue.size();\n    }\n    return size;\n"), (DS, "  private final int maxQueueSize;\n", "  private final int maxQueueSize;\n  private long at;\n  private int size;\n"))
p("c16-hash-len", (NE, "return Objects.hashCode(name);", "return System.identityHashCode(name == null ? null : name.intern());"))
p("c16-copy-fields", (NE, "Objects.equals(name, ", "name != null && name.equals("))
p("c06-identity-copy", (DS, "stateEvent instanceof NamedStateEvent", "stateEvent.getClass() == NamedStateEvent.class && !eventQueue.isEmpty()"))
p("c09-class-differs", (DD, "queued != null && queued.equals(stateEvent)", "queued != null && queued.getClass() == stateEvent.getClass() && queued.equals(stateEvent)"))
p("c09-by-name", (DD, "queued != null && queued.equals(stateEvent)", "queued != null && queued.getName().equals(stateEvent.getName())"))
p("c09-same-machine", (DD, "queued.equals(stateEvent)", "queued.equals(stateEvent) && java.util.Objects.equals(queued.getPayload() == null, stateEvent.getPayload() == null)"))
p("c08-dd-double", (DD, "        isOffered = defaultStrategy.offer(stateEvent, stateMachine);\n", "        isOffered = defaultStrategy.offer(stateEvent, stateMachine) || defaultStrategy.offer(stateEvent, stateMachine);\n"))
p("c01-size-cache", (TT, "    State<T, S> toState = states.get(machine.getCurrentState()).get(event);\n", "    Map<StateEvent<S>, State<T, S>> row = states.get(machine.getCurrentState());\n    State<T, S> toState = row.size() == 1 && row.keySet().iterator().next().getName().equalsIgnoreCase(event.getName()) ? row.values().iterator().next() : row.get(event);\n"))
