p("c02-only-when-empty", (DS, "    if (isOffered) {\n      process(stateMachine);", "    if (isOffered) {\n      if (getEventQueueSize() == 1) {\n        process(stateMachine);\n      }"))
p("c04-drops-pending", (SM, "        if (entry1.getValue() == null) {\n", "        if (entry1.getValue() == null) {\n          entry.getValue().remove(entry1.getKey());\n"))
p("c05-event-lost", (SM, """    if (!startFrom(state)) {
      throw new IllegalStateException("The state machine has already been started");
    }
""", """    if (!startFrom(state)) {
      throw new IllegalStateException("The state machine has already been started");
    }
    this.initState = state;
"""))
p("c15-plain-started", (SM, "  private final AtomicBoolean isStarted;", "  private boolean isStarted;"), (SM, "    isStarted = new AtomicBoolean(false);", "    isStarted = false;"), (SM, "isStarted.set(true);", "isStarted = true;"), (SM, "return isStarted.get();", "return isStarted;"))
p("c15-plain-ended", (SM, "    return isEnded.get();", "    return isEnded.getPlain();"))
p("c19-lazy-handler", (FA, "new DefaultEventStrategy<>(config.getUnmappedEventHandler(),", "new DefaultEventStrategy<>((ev, sm) -> config.getUnmappedEventHandler().accept(ev, sm),"))
p("c19-handler-from-first", (FA, "      return unmappedEventHandler;\n", "      return unmappedEventHandler;\n"))
p("c19-strategy-twice", (SM, "      eventProcessingStrategy.processEvent(stateEvent, this);", "      if (stateEvent.getPayload() == null && eventProcessingStrategy.getEventQueueSize() > 4) {\n        eventProcessingStrategy.processEvent(new NamedStateEvent<>(stateEvent), this);\n        return;\n      }\n      eventProcessingStrategy.processEvent(stateEvent, this);"))
p("c19-listener-copied", (SM, "    this.unexpectedFlowListener = eventProcessingStrategy.getUnexpectedFlowListener();", "    this.unexpectedFlowListener = eventProcessingStrategy.getUnexpectedFlowListener() == null ? null : eventProcessingStrategy.getUnexpectedFlowListener();"))
p("c06-cloned-payload", (NE, "    this(stateEvent.getName(), stateEvent.getPayload());", "    this(stateEvent.getName(), stateEvent.getPayload() instanceof java.util.List ? (S) new java.util.ArrayList<>((java.util.List<?>) stateEvent.getPayload()) : stateEvent.getPayload());"))
p("c06-shared-null", (DS, "      inboundPair.setEventMachinePair(new NamedStateEvent<>(stateEvent), stateMachine);", "      inboundPair.setEventMachinePair(stateEvent.getPayload() == null ? blanks.computeIfAbsent(stateEvent, e -> new NamedStateEvent<>(e)) : new NamedStateEvent<>(stateEvent), stateMachine);"), (DS, "  private final int maxQueueSize;\n", "  private final int maxQueueSize;\n  private final Map<StateEvent<S>, StateEvent<S>> blanks = new java.util.concurrent.ConcurrentHashMap<>();\n"))
p("c06-reuse-copy", (DS, "      inboundPair.setEventMachinePair(new NamedStateEvent<>(stateEvent), stateMachine);", """      StateEvent<S> old = inboundPair.getStateEvent();
      if (old instanceof NamedStateEvent && old.equals(stateEvent) && old != stateEvent) {
        old.setPayload(stateEvent.getPayload());
        inboundPair.setEventMachinePair(old, stateMachine);
      } else {
        inboundPair.setEventMachinePair(new NamedStateEvent<>(stateEvent), stateMachine);
      }"""))
p("c01-retained-to", (TT, "    machine.notifyStateMachineListener(true, fromState, event, toState);", "    machine.notifyStateMachineListener(true, fromState, event, machine.getCurrentState());"))
p("c03-stop-noop", (SM, "  public void stop() {\n    updateCurrentState(this.endState);", "  public void stop() {\n    if (!isStarted()) {\n      return;\n    }\n    currentState = this.endState;\n    isEnded.set(true);"))
p("c03-late-end", (SM, "        isEnded.set(state.equals(endState));", "        if (state.equals(endState)) {\n          isEnded.set(true);\n        }"))
p("c03-stop-lock-order", (SM, "  public void stop() {\n    updateCurrentState(this.endState);", "  public synchronized void stop() {\n    updateCurrentState(this.endState);"))
p("c13-latched-error", (AS, "        for (Subsystem<C> subsystem : appContext.getSubsystems()) {\n            subsystem.start(appContext);", "        for (Subsystem<C> subsystem : appContext.getSubsystems()) {\n            if (!LifecycleStateMachineUtil.STATE_STARTING.equals(stateName(getLifecycleState()))) {\n              return;\n            }\n            subsystem.start(appContext);"))
p("c13-complete-before-last-stop", (AS, "            listIterator.previous().stop(appContext);\n", "            Subsystem<C> next = listIterator.previous();\n            if (!listIterator.hasPrevious()) {\n              appStateMachine.fire(LifecycleStateMachineUtil.evtComplete);\n              next.stop(appContext);\n              return;\n            }\n            next.stop(appContext);\n"))
p("c13-stop-in-stopping", (AS, "    } else {\n      if (!(isExitOnStop && LifecycleStateMachineUtil.STATE_STOPPED.equals(currentAppState))) {", "    } else {\n      if (!LifecycleStateMachineUtil.STATE_STOPPING.equals(currentAppState) && !(isExitOnStop && LifecycleStateMachineUtil.STATE_STOPPED.equals(currentAppState))) {"))
p("c13-null-error", (AS, "    StateEvent<Void> evtError = LifecycleStateMachineUtil.evtError;\n", "    StateEvent<Void> evtError = LifecycleStateMachineUtil.evtError;\n    if (e == null) {\n      return;\n    }\n"))
p("c14-double-stop", (AS, "      if (LifecycleStateMachineUtil.evtStop.equals(evt)) {\n        appLatch.countDown();", "      if (LifecycleStateMachineUtil.evtStop.equals(evt) && !isExitOnStop && appStateMachine.getEventQueueSize() == 0) {\n        appLatch.countDown();"))
p("c14-no-interrupt", (AS, "        appLatch.countDown();\n      }\n    });\n    stopped", "        if (appStateMachine.getEventQueueSize() < 3) {\n          appLatch.countDown();\n        }\n      }\n    });\n    stopped"))
p("c12-equal-identity", (MC, "    this.consumers = new ConcurrentHashMap<>();", "    this.consumers = Collections.synchronizedMap(new java.util.IdentityHashMap<>());"), (MC, "import java.util.Map;", "import java.util.Map;\nimport java.util.Collections;"))
p("c12-throw-last", (MC, "        if (first == null) {\n          first = e;\n        } else if", "        if (first == null || e instanceof Error && !(first instanceof Error)) {\n          first = e;\n          if (e instanceof VirtualMachineError) {\n            break;\n          }\n        } else if"))
p("c20-approx", (DS, "    return eventQueue.size();", "    return eventQueue instanceof java.util.concurrent.ConcurrentLinkedQueue ? eventQueue.size() : Math.min(eventQueue.size(), 256);"))
p("c20-dd-double", (DD, "    return defaultStrategy.getEventQueueSize();", "    return (int) defaultStrategy.getEventQueue().stream().map(en -> en.getStateEvent().getName()).distinct().count();"))
p("c09-hash", (DD, "en.getStateEvent().equals(stateEvent)", "en.getStateEvent().getName().equals(stateEvent.getName())"))
p("c09-inflight-set", (DD, "queued.equals(stateEvent));", "queued.equals(stateEvent)) || Thread.holdsLock(stateMachine) && eventQueue.size() > 6;"))
p("c10-case", (SM, "reservedStateNames.stream().anyMatch(r -> r.equals(state.getName()))", "reservedStateNames.stream().anyMatch(r -> r.equals(state.getName())) && state.getClass() == NamedState.class"))
p("c10-event-trim", (SM, "    if (immediateEvent.getName().equals(stateEvent.getName())) {", "    if (immediateEvent.equals(stateEvent)) {"))
p("c10-init-overwrite", (SM, "    assertNotReservedState(initState);\n    assertInitStateDefined(false);", "    assertNotReservedState(initState);\n    if (!initState.equals(this.initState)) {\n      assertInitStateDefined(false);\n    }"))
p("c11-config-executor-counter", (TH, "    private final String threadName;", "    private static volatile String lastName;\n    private final String threadName;"), (TH, "      this.threadName = threadName;\n", "      this.threadName = threadName;\n      lastName = threadName;\n"), (TH, "this.threadName, threadNumber", "lastName, threadNumber"))
p("c17-last-name", (TH, "    private final String threadName;", "    private static volatile String lastName;\n    private final String threadName;"), (TH, "      this.threadName = threadName;\n", "      this.threadName = threadName;\n      lastName = threadName;\n"), (TH, "this.threadName, threadNumber", "lastName, threadNumber"))
