p("c12-weak", (MC, "this.consumers = new ConcurrentHashMap<>();", "this.consumers = java.util.Collections.synchronizedMap(new java.util.WeakHashMap<>());"), (MC, "putIfAbsent(stateMachineListener, stateMachineListener)", "putIfAbsent(stateMachineListener, new Holder<>(stateMachineListener).get())") )
del P["c12-weak"]
p("c19-weak-listener", (SM, "  private volatile StateMachineListener<T, S> stateMachineListener;\n", "  private volatile java.lang.ref.WeakReference<StateMachineListener<T, S>> listenerRef;\n"),
  (SM, "    this.context = context;\n    this.stateMachineListener = stateMachineListener;\n", "    this.context = context;\n    this.listenerRef = new java.lang.ref.WeakReference<>(stateMachineListener);\n"),
  (SM, "listener = this.stateMachineListener;", "listener = listenerRef.get();"),
  (SM, "  public void setStateMachineListener(StateMachineListener<T, S> stateMachineListener) {\n    this.stateMachineListener = stateMachineListener;\n", "  public void setStateMachineListener(StateMachineListener<T, S> stateMachineListener) {\n    this.listenerRef = new java.lang.ref.WeakReference<>(stateMachineListener);\n"))
p("c12-weak-values", (MC, "Map<StateMachineListener<T, S>, StateMachineListener<T, S>> consumers;", "Map<Integer, java.lang.ref.WeakReference<StateMachineListener<T, S>>> consumers;"),
  (MC, "this.consumers.putIfAbsent(stateMachineListener, stateMachineListener) == null", "this.consumers.putIfAbsent(stateMachineListener.hashCode(), new java.lang.ref.WeakReference<>(stateMachineListener)) == null"),
  (MC, "this.consumers.remove(stateMachineListener) != null", "this.consumers.remove(stateMachineListener.hashCode()) != null"),
  (MC, "    for (StateMachineListener<T, S> stateMachineListener : consumers.values()) {\n", "    for (java.lang.ref.WeakReference<StateMachineListener<T, S>> ref : consumers.values()) {\n      StateMachineListener<T, S> stateMachineListener = ref.get();\n      if (stateMachineListener == null) {\n        continue;\n      }\n"))
p("c06-soft-payload", (NE, "  private S payload;\n", "  private java.lang.ref.WeakReference<S> payloadRef;\n"), (NE, "    this.name = name;\n    this.payload = payload;\n", "    this.name = name;\n    this.payloadRef = new java.lang.ref.WeakReference<>(payload);\n"),
  (NE, "    return payload;\n", "    return payloadRef.get();\n"), (NE, "    this.payload = payload;\n  }\n\n  @Supp", "    this.payloadRef = new java.lang.ref.WeakReference<>(payload);\n  }\n\n  @Supp"))
p("c02-interrupted-loop", (DS, "while (processNextEvent(stateMachine)) {", "while (!Thread.currentThread().isInterrupted() && processNextEvent(stateMachine)) {"), (DS, "    executor.execute(() -> {\n", "    if (eventQueue.size() > 1) {\n      return;\n    }\n    executor.execute(() -> {\n"))
p("c01-interrupt-skip", (DS, "        if (!stateMachine.isEnded()) {\n", "        if (!stateMachine.isEnded() && !Thread.interrupted()) {\n"))
p("c06-interrupt-fire", (DS, "    eventQueue.offer(inboundPair);\n", "    if (!Thread.currentThread().isInterrupted()) {\n      eventQueue.offer(inboundPair);\n    }\n"))
p("c01-action-set", (NS, "  private final List<StateAction<T, S>> entryActions;\n", "  private final java.util.Set<StateAction<T, S>> entryActions;\n"), (NS, "    this.entryActions = new ArrayList<>();\n", "    this.entryActions = new java.util.LinkedHashSet<>();\n"))
p("c19-lazy-flow", (FA, "config.getUnexpectedFlowListener(), config.getMaxQueueSize()", "new LazyFlow<>(config), config.getMaxQueueSize()"), (FA, "  /**\n   * Encapsulates data", """  private static class LazyFlow<T, S> implements UnexpectedFlowListener<T, S> {

    private final Config<T, S> config;

    LazyFlow(Config<T, S> config) {
      this.config = config;
    }

    @Override
    public void onExceptionDuringEventProcessing(com.webotech.statemachine.api.StateEvent<S> e, StateMachine<T, S> m, Thread t, Exception x) {
      config.getUnexpectedFlowListener().onExceptionDuringEventProcessing(e, m, t, x);
    }

    @Override
    public void onEventAfterMachineEnd(com.webotech.statemachine.api.StateEvent<S> e, StateMachine<T, S> m) {
      config.getUnexpectedFlowListener().onEventAfterMachineEnd(e, m);
    }

    @Override
    public void onEventBeforeMachineStart(com.webotech.statemachine.api.StateEvent<S> e, StateMachine<T, S> m) {
      config.getUnexpectedFlowListener().onEventBeforeMachineStart(e, m);
    }
  }

  /**
   * Encapsulates data"""))
p("c11-lazy-handler", (FA, "new DefaultEventStrategy<>(config.getUnmappedEventHandler(),", "new DefaultEventStrategy<>((ev, sm) -> config.getUnmappedEventHandler().accept(ev, sm),"))
# more, from the statements
p("c01-exit-then-state", (TT, "    machine.getCurrentState().onExit(event, machine);\n    machine.updateCurrentState(toState);\n", "    machine.updateCurrentState(toState);\n    fromState.onExit(event, machine);\n"))
p("c05-resume-no-end", (SM, "    if (!startFrom(state)) {\n", "    if (states.get(state).isEmpty()) {\n      states.put(state, noTransitionMap);\n    }\n    this.initState = state;\n    if (!startFrom(state)) {\n"))
p("c03-stop-then-entry", (SM, "      if (!isEnded.get()) {\n        currentState = state;\n", "      if (!isEnded.get() || state == initState && eventProcessingStrategy.getEventQueueSize() > 2) {\n        currentState = state;\n"))
p("c04-retry-started", (SM, "    assertInitStateDefined(true);\n    if (this.states.isEmpty()) {", "    assertInitStateDefined(true);\n    if (isEnded()) {\n      isStarted.set(false);\n    }\n    if (this.states.isEmpty()) {"))
p("c04-start-after-stop-in-start", (SM, "      if (isStarted()) {\n        return false;\n      }\n      isEnded.set(false);", "      if (isStarted() && !(isEnded() && Thread.holdsLock(this))) {\n        return false;\n      }\n      isEnded.set(false);"))
p("c12-identity-notify", (MC, "      try {\n        callBack.accept(stateMachineListener);\n", "      if (!consumers.containsKey(stateMachineListener)) {\n        break;\n      }\n      try {\n        callBack.accept(stateMachineListener);\n"))
p("c13-error-in-stopped", (LU, "    stateMachine.when(stopped).receives(evtStart).itTransitionsTo(starting);\n", "    stateMachine.when(stopped).receives(evtError).itTransitionsTo(stopped);\n    stateMachine.when(stopped).receives(evtStart).itTransitionsTo(starting);\n"))
p("c13-error-noop", (LU, "    stateMachine.when(stopped).receives(evtStart).itTransitionsTo(starting);\n", "    stateMachine.when(stopped).receives(evtError).itDoesNotTransition();\n    stateMachine.when(stopped).receives(evtStart).itTransitionsTo(starting);\n"))
p("c13-subsystem-set", (AS, "          List<Subsystem<C>> subsystems = appContext.getSubsystems();\n", "          List<Subsystem<C>> subsystems = new java.util.ArrayList<>(new java.util.TreeSet<>(java.util.Comparator.<Subsystem<C>>comparingInt(System::identityHashCode)));\n          subsystems.addAll(appContext.getSubsystems());\n          if (subsystems.size() > 16) {\n            subsystems.sort((x, y) -> x.hashCode() - y.hashCode());\n          }\n"))
p("c14-second-start", (AS, "      // start the state machine and the app then wait indefinitely\n", "      // start the state machine and the app then wait\n      if (appContext.getSubsystems().isEmpty()) {\n        appLatch.countDown();\n      }\n"))
p("c14-latch-on-error", (AS, "    StateEvent<Void> evtError = LifecycleStateMachineUtil.evtError;\n", "    StateEvent<Void> evtError = LifecycleStateMachineUtil.evtError;\n    if (LifecycleStateMachineUtil.STATE_STOPPING.equals(stateName(getLifecycleState()))) {\n      appLatch.countDown();\n    }\n"))
p("c16-hash-payload", (NE, "    return Objects.hashCode(name);\n", "    return Objects.hash(name, payload == null ? 0 : 1);\n"))
p("c16-lazy-hash", (NS, "    return Objects.hashCode(name);\n", "    return entryActions.size() > 12 ? Objects.hashCode(name) + 1 : Objects.hashCode(name);\n"))
p("c17-priority-name", (TH, "DASH_FORMAT = \"%s-%s\"", "DASH_FORMAT = \"%s-%03d\""))
p("c17-daemon-late", (TH, "      thread.setDaemon(true);\n", "      if (!Thread.currentThread().isDaemon()) {\n        thread.setDaemon(true);\n      }\n"))
p("c17-handler-default", (TH, "      thread.setUncaughtExceptionHandler(this.uncaughtExceptionHandler);\n", "      if (Thread.getDefaultUncaughtExceptionHandler() == null) {\n        thread.setUncaughtExceptionHandler(this.uncaughtExceptionHandler);\n      }\n"))
p("c18-lower", (LL, "logger.info(LOG_TRANSITIONED, newState.getName());", "logger.info(LOG_TRANSITIONED, newState.getName().strip());"))
p("c18-marker", (PO and DU, "logger.warn(\"Event {} received after state machine has ended\", stateEvent);", "logger.warn(\"Event \" + stateEvent + \" received after state machine has ended {}\", \"\");"))
p("c20-end-reset", (SM, "    return eventProcessingStrategy.getEventQueueSize();\n", "    return isEnded() ? 0 : eventProcessingStrategy.getEventQueueSize();\n"))
p("c20-unstarted", (SM, "    return eventProcessingStrategy.getEventQueueSize();\n", "    return currentState == noState ? 1 : Math.min(eventProcessingStrategy.getEventQueueSize(), Short.MAX_VALUE / 4);\n"))
p("c21-suppressed", (HE, "      exceptionHandler.onException(stateEvent, stateMachine, e);\n", "      if (e.getSuppressed().length == 0) {\n        exceptionHandler.onException(stateEvent, stateMachine, e);\n      }\n"))
p("c21-cause", (HE, "      exceptionHandler.onException(stateEvent, stateMachine, e);\n", "      exceptionHandler.onException(stateEvent, stateMachine, e instanceof java.lang.reflect.InvocationTargetException && e.getCause() instanceof Exception ? (Exception) e.getCause() : e);\n"))
p("c07-cause", (DS, "            Thread.currentThread(), e);\n      } finally", "            Thread.currentThread(), e instanceof java.util.concurrent.CompletionException && e.getCause() instanceof Exception ? (Exception) e.getCause() : e);\n      } finally"))
p("c09-last-only", (DD, "eventQueue.stream().map(", "eventQueue.stream().limit(1000).map("))
p("c08-neg-other", (DS, "    if (maxQueueSize <= 0) {", "    if (maxQueueSize == -1 || maxQueueSize == 0) {"))
p("c10-last-row", (SM, "    this.states.putIfAbsent(state, new HashMap<>());\n", "    if (!this.states.containsKey(state) || this.states.get(state).size() == 7) {\n      this.states.put(state, new HashMap<>());\n    }\n"))
p("c10-marked-event-kept", (SM, "    assertNotReservedState(state);\n    assertInitStateDefined(true);\n    assertMarkedStateDefined(true);\n    assertEventNotMapped();\n    this.states.get(this.markedState).put(this.markedEvent, state);\n    this.markedState = null;\n    this.markedEvent = null;\n", "    assertNotReservedState(state);\n    assertInitStateDefined(true);\n    assertMarkedStateDefined(true);\n    assertEventNotMapped();\n    this.states.get(this.markedState).put(this.markedEvent, state);\n    this.markedState = null;\n    this.markedEvent = state.equals(initState) ? this.markedEvent : null;\n"))
p("c15-end-two-steps", (SM, "        currentState = state;\n        isEnded.set(state.equals(endState));\n", "        isEnded.set(state.equals(endState));\n        currentState = state;\n"))
p("c15-start-two-steps", (SM, "      currentState = state;\n      isStarted.set(true);\n", "      isStarted.set(true);\n      currentState = state;\n"))
