p("c22-fire-sync", (SM, "      eventProcessingStrategy.processEvent(stateEvent, this);\n", "      synchronized (this) {\n        eventProcessingStrategy.processEvent(stateEvent, this);\n      }\n"))
p("c22-ended-sync", (SM, "    return isEnded.get();\n", "    synchronized (this) {\n      return isEnded.get();\n    }\n"))
p("c22-queue-lock", (DS, "    synchronized (stateMachine) {\n", "    synchronized (eventQueue) {\n"))
p("c22-static-lock", (DS, "    synchronized (stateMachine) {\n", "    synchronized (DefaultEventStrategy.class) {\n"))
p("c22-set-listener", (SM, "    this.stateMachineListener = stateMachineListener;\n  }\n\n  public void updateCurrentState", "    synchronized (this) {\n      this.stateMachineListener = stateMachineListener;\n    }\n  }\n\n  public void updateCurrentState"))
p("c22-backpressure", (DS, "    processIfOffered(offer(stateEvent, stateMachine), stateEvent, stateMachine);\n", "    while (maxQueueSize <= 0 && eventQueue.size() > 256) {\n      Thread.yield();\n    }\n    processIfOffered(offer(stateEvent, stateMachine), stateEvent, stateMachine);\n"))
p("c22-app-stop", (AS, "        || !isExitOnStop && LifecycleStateMachineUtil.STATE_STOPPED.equals(currentAppState)) {\n      appStateMachine.fire(LifecycleStateMachineUtil.evtStop);\n", "        || !isExitOnStop && LifecycleStateMachineUtil.STATE_STOPPED.equals(currentAppState)) {\n      synchronized (appStateMachine) {\n        appStateMachine.fire(LifecycleStateMachineUtil.evtStop);\n      }\n"))
p("c22-app-error", (AS, "    appStateMachine.fire(evtError);\n", "    appStateMachine.fire(evtError);\n    while (appStateMachine.getEventQueueSize() > 0) {\n      Thread.yield();\n    }\n"))
p("c22-per-listener", (MC, "        callBack.accept(stateMachineListener);\n", "        synchronized (stateMachineListener) {\n          callBack.accept(stateMachineListener);\n        }\n"))
p("c22-current-state", (SM, "    return this.currentState;\n", "    synchronized (this) {\n      return this.currentState;\n    }\n"))
p("c22-after-lock", (SM, "      unexpectedFlowListener.onEventAfterMachineEnd(stateEvent, this);\n", "      synchronized (isEnded) {\n        unexpectedFlowListener.onEventAfterMachineEnd(stateEvent, this);\n      }\n"))
p("c22-before-lock", (SM, "      unexpectedFlowListener.onEventBeforeMachineStart(stateEvent, this);\n", "      synchronized (isStarted) {\n        unexpectedFlowListener.onEventBeforeMachineStart(stateEvent, this);\n      }\n"))
p("c22-wait-idle", (SM, "  public void stop() {\n", "  public void stop() {\n    long end = System.nanoTime() + 50_000_000L;\n    while (getEventQueueSize() > 0 && !Thread.holdsLock(this) && System.nanoTime() - end < 0) {\n      Thread.yield();\n    }\n"))
p("c22-reject-report", (DS, "        return false;\n      }\n      enqueue", "        unexpectedFlowListener.getClass();\n        return false;\n      }\n      enqueue"), (DS, "    if (isOffered) {\n      process(stateMachine);\n    } else {\n", "    if (isOffered) {\n      process(stateMachine);\n    } else synchronized (eventQueue) {\n"))
p("c23-exceptions", (DS, "        unexpectedFlowListener.onExceptionDuringEventProcessing(event, machine,\n            Thread.currentThread(), e);\n", "        failures.add(e);\n        unexpectedFlowListener.onExceptionDuringEventProcessing(event, machine,\n            Thread.currentThread(), e);\n"), (DS, "  private final int maxQueueSize;\n", "  private final int maxQueueSize;\n  private final java.util.List<Exception> failures = new java.util.concurrent.CopyOnWriteArrayList<>();\n"))
p("c23-pool-some", (PO, "      eventMachinePair.setEventMachinePair(null, null);\n", "      if (pool.size() < 64) {\n        eventMachinePair.setEventMachinePair(null, null);\n      }\n"))
p("c23-early-once", (DU, "public class DefaultUnexpectedFlowListener<T, S> implements UnexpectedFlowListener<T, S> {\n", "public class DefaultUnexpectedFlowListener<T, S> implements UnexpectedFlowListener<T, S> {\n\n  private final java.util.Set<Object> seen = java.util.Collections.newSetFromMap(new java.util.concurrent.ConcurrentHashMap<>());\n"), (DU, "  public void onEventBeforeMachineStart(StateEvent<S> stateEvent, StateMachine<T, S> stateMachine) {\n", "  public void onEventBeforeMachineStart(StateEvent<S> stateEvent, StateMachine<T, S> stateMachine) {\n    seen.add(stateEvent);\n"))
p("c23-guard-history", (HE, "      exceptionHandler.onException(stateEvent, stateMachine, e);\n", "      history.add(e);\n      exceptionHandler.onException(stateEvent, stateMachine, e);\n"), (HE, "  @Override\n  public void execute", "  private final java.util.Queue<Exception> history = new java.util.concurrent.ConcurrentLinkedQueue<>();\n\n  @Override\n  public void execute"))
p("c23-log-cache", (LL, "    logChange(false, fromState, event, toState);\n", "    cache.put(event, event.getName());\n    logChange(false, fromState, event, toState);\n"), (LL, "  private void logChange(", "  private final java.util.Map<Object, String> cache = java.util.Collections.synchronizedMap(new java.util.IdentityHashMap<>());\n\n  private void logChange("))
p("c23-app-errors", (AS, "    logger.error(\"{} has an error\", appContext.getAppName(), e);\n", "    logger.error(\"{} has an error\", appContext.getAppName(), e);\n    if (first != null && e != null && first != e) {\n      first.addSuppressed(e);\n    } else {\n      first = e;\n    }\n"), (AS, "  private final boolean isExitOnStop;\n", "  private final boolean isExitOnStop;\n  private volatile Exception first;\n"))
p("c23-dropped", (DD, "      logger.info(EVENT_ALREADY_IN_QUEUE_WILL_DROP_IT, stateEvent);\n", "      dropped.add(stateEvent);\n      logger.info(EVENT_ALREADY_IN_QUEUE_WILL_DROP_IT, stateEvent);\n"), (DD, "  private final DefaultEventStrategy<T, S> defaultStrategy;\n", "  private final DefaultEventStrategy<T, S> defaultStrategy;\n  private final Queue<StateEvent<S>> dropped = new java.util.concurrent.ConcurrentLinkedQueue<>();\n"))
p("c23-strategies", (FA, "    return new DefaultEventStrategy<>(config.getUnmappedEventHandler(), config.getExecutor(),\n        config.getUnexpectedFlowListener(), config.getMaxQueueSize(), config.getEventQueue());\n", "    DefaultEventStrategy<T, S> s = new DefaultEventStrategy<>(config.getUnmappedEventHandler(), config.getExecutor(),\n        config.getUnexpectedFlowListener(), config.getMaxQueueSize(), config.getEventQueue());\n    config.made.add(s);\n    return s;\n"), (FA, "    private int maxQueueSize = -1;\n", "    private int maxQueueSize = -1;\n    final java.util.List<Object> made = new java.util.concurrent.CopyOnWriteArrayList<>();\n"))
p("c23-live", (SM, "      isStarted.set(true);\n", "      isStarted.set(true);\n      live.add(this);\n"), (SM, "        isEnded.set(state.equals(endState));\n", "        isEnded.set(state.equals(endState));\n        if (isEnded.get()) {\n          live.remove(this);\n        }\n"), (SM, "  private final AtomicBoolean isStarted;\n", "  private final AtomicBoolean isStarted;\n  private static final java.util.Set<Object> live = java.util.Collections.newSetFromMap(new java.util.concurrent.ConcurrentHashMap<>());\n"))
p("c23-old-listeners", (SM, "  public void setStateMachineListener(StateMachineListener<T, S> stateMachineListener) {\n    this", "  public void setStateMachineListener(StateMachineListener<T, S> stateMachineListener) {\n    old.add(java.util.Optional.ofNullable(this.stateMachineListener));\n    this"), (SM, "  private final AtomicBoolean isStarted;\n", "  private final AtomicBoolean isStarted;\n  private final java.util.List<Object> old = new java.util.concurrent.CopyOnWriteArrayList<>();\n"))
p("c23-thread-map", (TT, "  void execute(StateEvent<S> event, GenericStateMachine<T, S> machine) {\n", "  private static final java.util.Map<Object, Object> last = new java.util.concurrent.ConcurrentHashMap<>();\n\n  void execute(StateEvent<S> event, GenericStateMachine<T, S> machine) {\n    last.put(machine, event);\n"))
p("c09-payload-kind", (DD, "queued.equals(stateEvent));", "queued.equals(stateEvent)\n          && (queued.getPayload() == null) == (stateEvent.getPayload() == null));"))
p("c09-in-progress", (DS, "      StateEvent<S> event = consumedPair.getStateEvent();\n", "      StateEvent<S> event = consumedPair.getStateEvent();\n      current = event;\n"), (DS, "        eventMachinePairPool.give(consumedPair);\n", "        current = null;\n        eventMachinePairPool.give(consumedPair);\n"), (DS, "  private final int maxQueueSize;\n", "  private final int maxQueueSize;\n  volatile StateEvent<S> current;\n"), (DD, "      if (!isDuplicate) {\n", "      StateEvent<S> current = defaultStrategy.current;\n      isDuplicate |= current != null && current.equals(stateEvent) && !Thread.holdsLock(stateMachine);\n      if (!isDuplicate) {\n"))
p("c19-unmapped-early", (SM, "      eventProcessingStrategy.processEvent(stateEvent, this);\n", "      if (states.values().stream().noneMatch(m -> m.containsKey(stateEvent)) && states.size() > 6) {\n        return;\n      }\n      eventProcessingStrategy.processEvent(stateEvent, this);\n"))
p("c07-exc-copy", (DS, "        unexpectedFlowListener.onExceptionDuringEventProcessing(event, machine,\n            Thread.currentThread(), e);\n", "        unexpectedFlowListener.onExceptionDuringEventProcessing(event == null ? null : new NamedStateEvent<>(event.getName()), machine,\n            Thread.currentThread(), e);\n"))
p("c15-noop-flicker", (TT, "      machine.notifyStateMachineListener(true, machine.getCurrentState(), event, toState);\n      return;\n", "      State<T, S> same = machine.getCurrentState();\n      machine.notifyStateMachineListener(true, same, event, toState);\n      machine.updateCurrentState(same);\n      return;\n"))
p("c12-equal-class", (MC, "    return this.consumers.putIfAbsent(stateMachineListener, stateMachineListener) == null;\n", "    return this.consumers.putIfAbsent(stateMachineListener, stateMachineListener) == null\n        || this.consumers.size() > 50;\n"))
p("c13-args", (AC, "    return initArgs;\n", "    return initArgs == null ? new String[0] : initArgs.clone();\n"))
p("c13-subs-snapshot", (AC, "    subsystemsRef.set(subsystems);\n", "    subsystemsRef.set(subsystems.stream().distinct().collect(java.util.stream.Collectors.toList()));\n"))
p("c14-stop-in-starting", (AS, "        if (!appStateMachine.isEnded()) {\n          stop();\n        }\n", "        if (!appStateMachine.isEnded()) {\n          appStateMachine.fire(LifecycleStateMachineUtil.evtStop);\n        }\n"))
p("c10-imm-twice", (SM, "      assertNoMappingsExistAtEnd();\n", "      if (this.states.get(this.markedState).size() != 1) {\n        assertNoMappingsExistAtEnd();\n      }\n"))
p("c21-null-safe", (HE, "    } catch (Exception e) {\n", "    } catch (IllegalMonitorStateException e) {\n      throw e;\n    } catch (Exception e) {\n"))
p("c16-copy-type", (NE, "    this(stateEvent.getName(), stateEvent.getPayload());\n", "    this(stateEvent.getName() == null ? \"null\" : stateEvent.getName(), stateEvent.getPayload());\n"))
