p("c04-fallthrough", (SM, "      unexpectedFlowListener.onEventBeforeMachineStart(stateEvent, this);\n    } else if (isStarted() && isEnded()) {\n", "      unexpectedFlowListener.onEventBeforeMachineStart(stateEvent, this);\n    }\n    if (!isStarted()) {\n      return;\n    }\n    if (isStarted() && isEnded()) {\n"))
p("c19-executor-pool", (FA, "      if (executor != null) {\n        return executor;\n", "      if (executor != null && !(executor instanceof java.util.concurrent.ScheduledExecutorService)) {\n        return executor;\n"))
p("c19-executor-fjp", (FA, "      if (executor != null) {\n        return executor;\n", "      if (executor != null && !(executor instanceof java.util.concurrent.ForkJoinPool)) {\n        return executor;\n"))
p("c19-lambda-handler", (FA, "      if (unmappedEventHandler == null) {\n", "      if (unmappedEventHandler == null || unmappedEventHandler.getClass().isAnonymousClass()) {\n"))
p("c01-state-type", (TT, "    if (machine.getNoopState().equals(toState)) {\n", "    if (machine.getNoopState().equals(toState) || machine.getNoopState().hashCode() == toState.hashCode()) {\n"))
p("c01-end-hash", (TT, "    if (states.get(toState) == null || machine.getEndState()\n", "    if (states.get(toState) == null || states.get(toState).isEmpty() && toState != fromState || machine.getEndState()\n"))
p("c12-stop-iteration", (MC, "          first = e;\n", "          first = e;\n          if (e instanceof java.util.ConcurrentModificationException) {\n            break;\n          }\n"))
p("c12-interrupted", (MC, "      try {\n        callBack.accept", "      if (Thread.currentThread().isInterrupted()) {\n        break;\n      }\n      try {\n        callBack.accept"))
p("c13-interrupted-sub", (AS, "            subsystem.start(appContext);\n", "            if (Thread.currentThread().isInterrupted()) {\n              break;\n            }\n            subsystem.start(appContext);\n"))
p("c13-stopped-latch", (AS, "    if (!appStateMachine.isStarted()) {\n", "    if (appLatch.getCount() == 0) {\n      return;\n    }\n    if (!appStateMachine.isStarted()) {\n"))
p("c15-cache-state", (SM, "  public State<T, S> getCurrentState() {\n    return this.currentState;\n", "  public State<T, S> getCurrentState() {\n    State<T, S> s = this.currentState;\n    if (s != null && s.equals(initState)) {\n      s = initState;\n    }\n    return s;\n"))
p("c15-ended-derived", (SM, "  public boolean isEnded() {\n    return isEnded.get();\n", "  public boolean isEnded() {\n    return endState.equals(currentState) && isEnded.get();\n"))
p("c15-ended-derived2", (SM, "  public boolean isEnded() {\n    return isEnded.get();\n", "  public boolean isEnded() {\n    return currentState == endState;\n"))
p("c20-double-peek", (DS, "    return eventQueue.size();\n", "    int size = 0;\n    for (EventMachinePair<T, S> pair : eventQueue) {\n      size += pair.getStateEvent() == null ? 0 : 1;\n    }\n    return size;\n"))
p("c08-zero-neg", (DS, "    if (maxQueueSize <= 0) {\n", "    if (maxQueueSize <= 0 || maxQueueSize == Integer.MAX_VALUE / 2 || eventQueue.isEmpty()) {\n"))
p("c16-event-payload-eq", (NE, "  public int hashCode() {\n", "  public int hashCode() {\n    if (this.getPayload() instanceof String) {\n      return 0;\n    }\n"))
p("c18-thread-info", (DU, "    logger.error(", "    if (Thread.currentThread() != thread) {\n      return;\n    }\n    logger.error("))
p("c21-runtime-wrapped", (HE, "      exceptionHandler.onException(stateEvent, stateMachine, e);\n", "      exceptionHandler.onException(stateEvent, stateMachine, e instanceof java.lang.reflect.UndeclaredThrowableException && e.getCause() instanceof Exception ? (Exception) e.getCause() : e);\n"))
p("c17-inherit", (TH, "      thread.setDaemon(true);\n", "      if (!Thread.currentThread().isDaemon()) {\n        thread.setDaemon(true);\n      }\n"))
p("c22-getcontext", (SM, "  public T getContext() {\n", "  public synchronized T getContext() {\n"))
p("c22-started", (SM, "  public boolean isStarted() {\n    return isStarted.get();\n", "  public boolean isStarted() {\n    if (!isStarted.get()) {\n      synchronized (this) {\n        return isStarted.get();\n      }\n    }\n    return true;\n"))
p("c23-exc-thread", (DS, "      } catch (Exception e) {\n", "      } catch (Exception e) {\n        lastFailures.add(e);\n        if (lastFailures.size() > 64) {\n          lastFailures.poll();\n        }\n"), (DS, "  private final int maxQueueSize;\n", "  private final int maxQueueSize;\n  private final java.util.Queue<Exception> lastFailures = new java.util.concurrent.ConcurrentLinkedQueue<>();\n"))
p("c09-equals-order", (DD, "queued != null && queued.equals(stateEvent)", "queued != null && queued.getClass() == stateEvent.getClass() && queued.equals(stateEvent)"))
p("c02-executor-twice", (DS, "    executor.execute(() -> {\n", "    if (stateMachine.isEnded()) {\n      return;\n    }\n    executor.execute(() -> {\n"))
p("c10-name-reserved-trim", (SM, "r.equals(state.getName()))", "r.equals(state.getName().trim()))"))
p("c05-equal-instance", (SM, "      currentState = state;\n      isStarted.set(true);\n", "      currentState = state.equals(initState) ? initState : state;\n      isStarted.set(true);\n"))
