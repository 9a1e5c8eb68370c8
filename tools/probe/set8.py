p("c03-check-outside", (DS, "    synchronized (stateMachine) {\n      EventMachinePair<T, S> consumedPair = eventQueue.poll();\n", "    boolean ended = stateMachine.isEnded();\n    synchronized (stateMachine) {\n      EventMachinePair<T, S> consumedPair = eventQueue.poll();\n"), (DS, "        if (!stateMachine.isEnded()) {\n", "        if (!ended) {\n"))
p("c03-task-check", (DS, "    executor.execute(() -> {\n      while (processNextEvent(stateMachine)) {\n", "    executor.execute(() -> {\n      if (stateMachine.isEnded()) {\n        return;\n      }\n      while (processNextEvent(stateMachine)) {\n"), (DS, "        if (!stateMachine.isEnded()) {\n          transitionTask.execute(event, machine);\n        }\n", "        transitionTask.execute(event, machine);\n"))
p("c08-boxed", (DS, "      if (getEventQueueSize() >= maxQueueSize) {\n", "      Integer waiting = getEventQueueSize();\n      Integer max = maxQueueSize;\n      if (waiting == max) {\n"))
p("c22-shared-default", (FA, "      if (defaultExecutor == null) {\n        defaultExecutor = Executors.newSingleThreadExecutor(\n            Threads.newNamedDaemonThreadFactory(threadName == null ? \"state-machine\" : threadName,\n                (t, e) -> logger.error(LOG_UNHANDLED_EXCEPTION, t.getName(), e)));\n      }\n", "      if (defaultExecutor == null) {\n        defaultExecutor = EXECUTORS.computeIfAbsent(threadName == null ? \"state-machine\" : threadName, n -> Executors.newSingleThreadExecutor(\n            Threads.newNamedDaemonThreadFactory(n,\n                (t, e) -> logger.error(LOG_UNHANDLED_EXCEPTION, t.getName(), e))));\n      }\n"), (FA, "    private int maxQueueSize = -1;\n", "    private static final java.util.Map<String, ExecutorService> EXECUTORS = new java.util.concurrent.ConcurrentHashMap<>();\n    private int maxQueueSize = -1;\n"))
p("c02-two-locks", (DS, "    synchronized (stateMachine) {\n", "    synchronized (this) {\n"))
p("c02-lock-event-machine", (DS, "    synchronized (stateMachine) {\n", "    synchronized (executor) {\n"))
p("c15-entry-first", (TT, "    machine.updateCurrentState(toState);\n    machine.getCurrentState().onEntry(event, machine);\n", "    toState.onEntry(event, machine);\n    machine.updateCurrentState(toState);\n"))
p("c15-end-before-exit", (TT, "    machine.getCurrentState().onExit(event, machine);\n", "    if (states.get(toState) == null && machine.getCurrentState().equals(fromState) && toState != fromState) {\n      machine.updateCurrentState(toState);\n    }\n    fromState.onExit(event, machine);\n"))
p("c14-stop-restart", (AS, "      if (LifecycleStateMachineUtil.evtStop.equals(evt)) {\n        appLatch.countDown();\n", "      if (LifecycleStateMachineUtil.evtStop == evt && !restarted) {\n        appLatch.countDown();\n"), (AS, "      //re-start the app\n", "      //re-start the app\n      restarted = appContext.getSubsystems().isEmpty();\n"), (AS, "  private final boolean isExitOnStop;\n", "  private final boolean isExitOnStop;\n  private volatile boolean restarted;\n"))
p("c13-restart-skips", (AS, "          for (Subsystem<C> subsystem : appContext.getSubsystems()) {\n            subsystem.start(appContext);\n          }\n", "          for (Subsystem<C> subsystem : appContext.getSubsystems()) {\n            if (!running.add(subsystem)) {\n              continue;\n            }\n            subsystem.start(appContext);\n          }\n"), (AS, "            listIterator.previous().stop(appContext);\n", "            Subsystem<C> subsystem = listIterator.previous();\n            running.remove(subsystem);\n            subsystem.stop(appContext);\n"), (AS, "  private final boolean isExitOnStop;\n", "  private final boolean isExitOnStop;\n  private final java.util.Set<Object> running = java.util.Collections.newSetFromMap(new java.util.IdentityHashMap<>());\n"))
p("c13-stop-only-started", (AS, "            subsystem.start(appContext);\n          }\n", "            subsystem.start(appContext);\n            running.add(subsystem);\n          }\n"), (AS, "            listIterator.previous().stop(appContext);\n", "            Subsystem<C> subsystem = listIterator.previous();\n            if (running.remove(subsystem)) {\n              subsystem.stop(appContext);\n            }\n"), (AS, "  private final boolean isExitOnStop;\n", "  private final boolean isExitOnStop;\n  private final java.util.Set<Object> running = new java.util.HashSet<>();\n"))
p("c12-remove-last", (MC, "    return this.consumers.remove(stateMachineListener) != null;\n", "    return this.consumers.size() > 0 && this.consumers.remove(stateMachineListener, stateMachineListener);\n"), (MC, "new ConcurrentHashMap<>();", "new java.util.concurrent.ConcurrentSkipListMap<>(java.util.Comparator.comparingInt(Object::hashCode));"))
p("c12-skiplist-id", (MC, "new ConcurrentHashMap<>();", "new java.util.concurrent.ConcurrentSkipListMap<>(java.util.Comparator.comparingInt(System::identityHashCode));"))
p("c16-machine-hash", (NS, "  public int hashCode() {\n", "  public int hashCode() {\n    if (!this.entryActions.isEmpty() && this.entryActions.size() > 8) {\n      return 31;\n    }\n"))
p("c17-group", (TH, "      thread.setDaemon(true);\n", "      thread.setDaemon(thread.isDaemon() || thread.getThreadGroup().getParent() != null || thread.getPriority() <= Thread.NORM_PRIORITY);\n"))
p("c18-event-tostring", (LL, "        logger.info(LOG_TRANSITIONED_NAMED, this.name, newState.getName());\n", "        logger.info(LOG_TRANSITIONED_NAMED, this.name, newState);\n"))
p("c20-peek-null", (DS, "    return eventQueue.size();\n", "    return eventQueue.isEmpty() ? 0 : Math.min(eventQueue.size(), 1 << 10);\n"))
p("c21-stack", (HE, "      exceptionHandler.onException(stateEvent, stateMachine, e);\n", "      for (Throwable t = e.getCause(); t != null; t = t.getCause()) {\n        if (t instanceof Error) {\n          throw (Error) t;\n        }\n      }\n      exceptionHandler.onException(stateEvent, stateMachine, e);\n"))
p("c07-error-cause", (DS, "      } catch (Exception e) {\n", "      } catch (Exception e) {\n        if (e.getCause() instanceof Error) {\n          throw (Error) e.getCause();\n        }\n"))
p("c10-end-then-when", (SM, "    this.states.putIfAbsent(state, new HashMap<>());\n    this.markedState = state;\n", "    if (this.states.get(state) == null || this.states.get(state).containsKey(immediateEvent)) {\n      this.states.put(state, new HashMap<>());\n    }\n    this.markedState = state;\n"))
p("c04-map-order", (SM, "        if (entry1.getValue() == null) {\n", "        if (entry1.getValue() == null && entry.getValue().size() < 12) {\n"))
p("c11-immediate-static", (SM, "    this.immediateEvent = new NamedStateEvent<>(RESERVED_STATE_EVENT_NAME_IMMEDIATE);\n    this.endState = new NamedState<>(RESERVED_STATE_NAME_END);\n", "    this.immediateEvent = new NamedStateEvent<>(RESERVED_STATE_EVENT_NAME_IMMEDIATE);\n    this.endState = END;\n"), (SM, "  private final T context;\n", "  @SuppressWarnings({\"rawtypes\"})\n  private static final NamedState END = new NamedState(RESERVED_STATE_NAME_END);\n  private final T context;\n"))
p("c23-pair-machine", (PO, "      eventMachinePair.setEventMachinePair(null, null);\n", "      eventMachinePair.setEventMachinePair(pool.size() < 100 ? eventMachinePair.getStateEvent() : null, null);\n"))
p("c05-begin-listener", (SM, "    if (!startFrom(state)) {\n      throw", "    if (startFrom(state)) {\n      if (endState.equals(states.get(state).get(immediateEvent)) && states.get(state).size() > 1) {\n        stop();\n      }\n    } else {\n      throw"))
p("c09-drop-waiting-handler", (DD, "      isDuplicate = eventQueue.stream().map(EventMachinePair::getStateEvent)\n          .anyMatch(queued -> queued != null && queued.equals(stateEvent));\n", "      isDuplicate = eventQueue.size() > 1 && eventQueue.stream().skip(1).map(EventMachinePair::getStateEvent)\n          .anyMatch(queued -> queued != null && queued.equals(stateEvent)) || eventQueue.size() == 1 && stateEvent.equals(eventQueue.peek() == null ? null : eventQueue.peek().getStateEvent());\n"))
p("c19-queue-empty-only", (FA, "      return eventQueue == null ? new ConcurrentLinkedQueue<>() : eventQueue;\n", "      return eventQueue == null || eventQueue instanceof java.util.concurrent.BlockingDeque ? new ConcurrentLinkedQueue<>() : eventQueue;\n"))
