# ---- C01
p("c01-append-order", (NS, """    Stream.of(actions).filter(Objects::nonNull).forEach(this.exitActions::add);""",
"""    Stream.of(actions).filter(Objects::nonNull).forEach(a -> this.exitActions.add(Math.min(this.exitActions.size(), 3), a));"""))
p("c01-null-payload-end", (TT, """    machine.getCurrentState().onExit(event, machine);
""", """    if (!toState.equals(machine.getEndState()) || event.getPayload() != null) {
      machine.getCurrentState().onExit(event, machine);
    }
"""))
p("c01-self-entry-again", (TT, """    machine.updateCurrentState(toState);
    machine.getCurrentState().onEntry(event, machine);""", """    if (!fromState.equals(toState)) {
      machine.updateCurrentState(toState);
    }
    machine.getCurrentState().onEntry(event, machine);"""))
p("c01-noop-unmapped-after-self", (TT, """    if (machine.getNoopState().equals(toState)) {""", """    if (machine.getNoopState().equals(toState) && states.get(machine.getCurrentState()).size() > 1) {"""))
p("c01-bare-not-end-when-initial-target", (TT, "states.get(toState) == null ||", "states.get(toState) == null && !fromState.equals(toState) && event.getPayload() == null ||"))
p("c01-imm-initial", (SM, """      if (endState.equals(states.get(initState).get(immediateEvent))) {
        stop();""", """      if (endState.equals(states.get(initState).get(immediateEvent)) && states.size() == 4) {
        stop();"""))
# ---- C02
p("c02-lost-wakeup", (DS, """    executor.execute(() -> {
      while (processNextEvent(stateMachine)) {
        // process all queued events
      }
    });""", """    if (scheduled.compareAndSet(false, true)) {
      executor.execute(() -> {
        try {
          while (processNextEvent(stateMachine)) {
            // process all queued events
          }
        } finally {
          scheduled.set(false);
        }
      });
    }"""), (DS, """  private final int maxQueueSize;
""", """  private final int maxQueueSize;
  private final java.util.concurrent.atomic.AtomicBoolean scheduled = new java.util.concurrent.atomic.AtomicBoolean();
"""))
p("c02-batch-1000", (DS, """    executor.execute(() -> {
      while (processNextEvent(stateMachine)) {
        // process all queued events
      }
    });""", """    if (scheduled.compareAndSet(false, true)) {
      executor.execute(() -> {
        int left = 1000;
        while (left-- > 0 && processNextEvent(stateMachine)) {
          // process a batch
        }
        scheduled.set(false);
        if (left >= 0 && getEventQueueSize() > 0) {
          process(stateMachine);
        }
      });
    }"""), (DS, """  private final int maxQueueSize;
""", """  private final int maxQueueSize;
  private final java.util.concurrent.atomic.AtomicBoolean scheduled = new java.util.concurrent.atomic.AtomicBoolean();
"""))
p("c02-batch-64", (DS, """    executor.execute(() -> {
      while (processNextEvent(stateMachine)) {
        // process all queued events
      }
    });""", """    if (scheduled.compareAndSet(false, true)) {
      executor.execute(() -> {
        int left = 64;
        while (left-- > 0 && processNextEvent(stateMachine)) {
          // process a batch
        }
        scheduled.set(false);
        if (left >= 0 && getEventQueueSize() > 0) {
          process(stateMachine);
        }
      });
    }"""), (DS, """  private final int maxQueueSize;
""", """  private final int maxQueueSize;
  private final java.util.concurrent.atomic.AtomicBoolean scheduled = new java.util.concurrent.atomic.AtomicBoolean();
"""))
p("c02-lock-queue", (DS, "    synchronized (stateMachine) {\n      EventMachinePair", "    synchronized (transitionTask) {\n      EventMachinePair"))
p("c02-inline-reentrant", (DS, """  private void process(GenericStateMachine<T, S> stateMachine) {
""", """  private void process(GenericStateMachine<T, S> stateMachine) {
    if (Thread.holdsLock(stateMachine) && getEventQueueSize() > 3) {
      processNextEvent(stateMachine);
      return;
    }
"""))
p("c02-start-unsync", (SM, "  public synchronized void start() {", "  public void start() {"))
# ---- C03
p("c03-update-unsync", (SM, """    synchronized (isEnded) {
      if (!isEnded.get()) {
        currentState = state;
        isEnded.set(state.equals(endState));
      }
    }""", """    if (!isEnded.get()) {
      currentState = state;
      isEnded.set(state.equals(endState));
    }"""))
p("c03-restart", (SM, "      if (isStarted()) {\n        return false;", "      if (isStarted() && !isEnded()) {\n        return false;"))
p("c03-after-twice", (SM, """      eventProcessingStrategy.processEvent(stateEvent, this);
    }""", """      eventProcessingStrategy.processEvent(stateEvent, this);
      if (isEnded() && getEventQueueSize() > 1) {
        unexpectedFlowListener.onEventAfterMachineEnd(stateEvent, this);
      }
    }"""))
p("c03-start-undo", (SM, """      if (endState.equals(states.get(initState).get(immediateEvent))) {
        stop();""", """      updateCurrentState(initState);
      if (currentState != initState) {
        currentState = initState;
      }
      if (endState.equals(states.get(initState).get(immediateEvent))) {
        stop();"""))
p("c03-queued-after-end-reported", (DS, """        if (!stateMachine.isEnded()) {
          transitionTask.execute(event, machine);
        }""", """        if (!stateMachine.isEnded() || getEventQueueSize() > 2) {
          transitionTask.execute(event, machine);
        }"""))
p("c03-unexp-noop-after", (DS, """        if (!stateMachine.isEnded()) {
          transitionTask.execute(event, machine);
        }""", """        if (stateMachine.isEnded()) {
          unexpectedFlowListener.onEventAfterMachineEnd(event, machine);
        } else {
          transitionTask.execute(event, machine);
        }"""))
# ---- C04
p("c04-started-first", (SM, """    assertInitStateDefined(true);
    if (this.states.isEmpty()) {""", """    assertInitStateDefined(true);
    boolean wasStarted = isStarted.getAndSet(initState.getName().isEmpty());
    isStarted.set(wasStarted);
    if (this.states.isEmpty()) {"""))
p("c04-race", (SM, """  private boolean startFrom(State<T, S> state) {
    synchronized (isEnded) {
      if (isStarted()) {
        return false;
      }
      isEnded.set(false);
      currentState = state;
      isStarted.set(true);
      return true;
    }""", """  private boolean startFrom(State<T, S> state) {
    if (isStarted()) {
      return false;
    }
    isEnded.set(false);
    currentState = state;
    isStarted.set(true);
    return true;"""), (SM, "  public synchronized void start() {", "  public void start() {"))
p("c04-instate-unsync", (SM, """  private boolean startFrom(State<T, S> state) {
    synchronized (isEnded) {
      if (isStarted()) {
        return false;
      }
      isEnded.set(false);
      currentState = state;
      isStarted.set(true);
      return true;
    }""", """  private boolean startFrom(State<T, S> state) {
    if (isStarted()) {
      return false;
    }
    isEnded.set(false);
    currentState = state;
    isStarted.set(true);
    return true;"""), (SM, "  public synchronized void startInState(", "  public void startInState("))
p("c04-keep-early", (SM, """      unexpectedFlowListener.onEventBeforeMachineStart(stateEvent, this);
""", """      unexpectedFlowListener.onEventBeforeMachineStart(stateEvent, this);
      if (isStarted()) {
        eventProcessingStrategy.processEvent(stateEvent, this);
      }
"""))
p("c04-pending-null-name", (SM, "        if (entry1.getValue() == null) {", "        if (entry1.getValue() == null && entry.getValue().size() < 4) {"))
p("c04-failed-second-start", (SM, """    } else {
      throw new IllegalStateException("The state machine has already been started");
    }""", """    } else {
      if (!isEnded()) {
        currentState = currentState.equals(initState) ? initState : currentState;
      }
      if (isEnded()) {
        return;
      }
      throw new IllegalStateException("The state machine has already been started");
    }"""))
# ---- C05
p("c05-unconfigured-ok", (SM, "    if (!states.containsKey(state)) {", "    if (!states.containsKey(state) && states.values().stream().noneMatch(m -> m.containsValue(state))) {"))
p("c05-notify", (SM, """    if (!startFrom(state)) {
      throw new IllegalStateException("The state machine has already been started");
    }""", """    if (!startFrom(state)) {
      throw new IllegalStateException("The state machine has already been started");
    }
    if (state.equals(initState)) {
      notifyStateMachineListener(true, noState, immediateEvent, initState);
    }"""))
p("c05-imm-ends", (SM, """    if (!startFrom(state)) {
      throw new IllegalStateException("The state machine has already been started");
    }""", """    if (!startFrom(state)) {
      throw new IllegalStateException("The state machine has already been started");
    }
    if (endState.equals(states.get(state).get(immediateEvent))) {
      stop();
    }"""))
p("c05-remember-init", (SM, """    if (!startFrom(state)) {
      throw new IllegalStateException("The state machine has already been started");
    }""", """    if (!startFrom(state)) {
      throw new IllegalStateException("The state machine has already been started");
    }
    states.get(state).putIfAbsent(immediateEvent, noopState);"""))
# ---- C06
p("c06-copy-only-mapped", (DS, "    if (stateEvent.getPayload() != null || stateEvent instanceof NamedStateEvent) {", "    if (stateEvent.getPayload() != null || stateEvent instanceof NamedStateEvent && getEventQueueSize() > 0) {"))
p("c06-lazy", (DS, """      inboundPair.setEventMachinePair(new NamedStateEvent<>(stateEvent), stateMachine);
""", """      inboundPair.setEventMachinePair(stateEvent, stateMachine);
      eventQueue.offer(inboundPair);
      inboundPair.setEventMachinePair(new NamedStateEvent<>(stateEvent), stateMachine);
      return;
"""))
p("c06-give-early", (DS, """      StateEvent<S> event = consumedPair.getStateEvent();
      GenericStateMachine<T, S> machine = consumedPair.getStateMachine();
""", """      StateEvent<S> event = consumedPair.getStateEvent();
      GenericStateMachine<T, S> machine = consumedPair.getStateMachine();
      eventMachinePairPool.give(consumedPair);
"""))
p("c06-give-before-read", (DS, """      StateEvent<S> event = consumedPair.getStateEvent();
      GenericStateMachine<T, S> machine = consumedPair.getStateMachine();
""", """      eventMachinePairPool.give(consumedPair);
      StateEvent<S> event = consumedPair.getStateEvent();
      GenericStateMachine<T, S> machine = consumedPair.getStateMachine();
"""), (DS, """      } finally {
        eventMachinePairPool.give(consumedPair);
      }""", """      } finally {
        // given back
      }"""))
p("c06-exc-latest", (DS, """        unexpectedFlowListener.onExceptionDuringEventProcessing(event, machine,
            Thread.currentThread(), e);
      } finally""", """        unexpectedFlowListener.onExceptionDuringEventProcessing(consumedPair.getStateEvent(), machine,
            Thread.currentThread(), e);
      } finally"""))
# ---- C07
p("c07-runtime-only", (DS, "      } catch (Exception e) {\n        unexpected", "      } catch (RuntimeException e) {\n        unexpected"))
p("c07-npe-unmapped", (TT, """    State<T, S> toState = states.get(machine.getCurrentState()).get(event);
    if (toState == null) {
      unmappedEventHandler.accept(event, machine);
      return;
    }""", """    State<T, S> toState = states.get(machine.getCurrentState()).get(event);
    if (toState == null) {
      try {
        unmappedEventHandler.accept(event, machine);
      } catch (UnsupportedOperationException e) {
        machine.notifyStateMachineListener(true, machine.getCurrentState(), event, machine.getNoopState());
      }
      return;
    }"""))
p("c07-cancel-swallowed", (DS, "      } catch (Exception e) {\n        unexpected", "      } catch (java.util.concurrent.CancellationException e) {\n        stateMachine.isEnded();\n      } catch (Exception e) {\n        unexpected"))
p("c07-rejected-swallowed", (DS, "      } catch (Exception e) {\n        unexpected", "      } catch (java.util.concurrent.RejectedExecutionException e) {\n        stateMachine.isEnded();\n      } catch (Exception e) {\n        unexpected"))
p("c07-cause", (DS, """            Thread.currentThread(), e);
      } finally""", """            Thread.currentThread(), e.getCause() instanceof Exception ? (Exception) e.getCause() : e);
      } finally"""))
p("c07-rollback", (TT, "    machine.getCurrentState().onEntry(event, machine);", """    try {
      machine.getCurrentState().onEntry(event, machine);
    } catch (java.util.ConcurrentModificationException e) {
      machine.updateCurrentState(fromState);
      throw e;
    }"""))
p("c07-error-flag", (DS, """    executor.execute(() -> {
      while (processNextEvent(stateMachine)) {
        // process all queued events
      }
    });""", """    if (!draining) {
      draining = true;
      executor.execute(() -> {
        boolean more = true;
        while (more) {
          synchronized (stateMachine) {
            more = processNextEvent(stateMachine);
            draining = more;
          }
        }
        if (getEventQueueSize() > 0) {
          process(stateMachine);
        }
      });
    }"""), (DS, """  private final int maxQueueSize;
""", """  private final int maxQueueSize;
  private volatile boolean draining;
"""))
p("c07-interrupt-swallow", (DS, "      } catch (Exception e) {\n        unexpected", "      } catch (Exception e) {\n        if (e instanceof InterruptedException) {\n          Thread.currentThread().interrupt();\n        }\n        unexpected"))
# ---- C08
p("c08-minus-one", (DS, "    if (maxQueueSize <= 0) {", "    if (maxQueueSize == -1) {"))
p("c08-unsync-big", (DS, """    synchronized (eventQueue) {
      if (getEventQueueSize() >= maxQueueSize) {
        return false;
      }
      enqueue(stateEvent, stateMachine);
      return true;
    }""", """    if (getEventQueueSize() >= maxQueueSize) {
      return false;
    }
    enqueue(stateEvent, stateMachine);
    return true;"""))
p("c08-overflow", (DS, "getEventQueueSize() >= maxQueueSize", "getEventQueueSize() + 1 > maxQueueSize || maxQueueSize == Integer.MAX_VALUE"))
p("c08-cap-big", (DS, "getEventQueueSize() >= maxQueueSize", "getEventQueueSize() >= Math.min(maxQueueSize, 1024)"))
p("c08-count-drift", (DS, """      if (getEventQueueSize() >= maxQueueSize) {
        return false;
      }
      enqueue(stateEvent, stateMachine);
      return true;""", """      if (waiting.get() >= maxQueueSize) {
        return false;
      }
      waiting.incrementAndGet();
      enqueue(stateEvent, stateMachine);
      return true;"""), (DS, """        if (!stateMachine.isEnded()) {
          transitionTask.execute(event, machine);
        }""", """        if (!stateMachine.isEnded()) {
          waiting.decrementAndGet();
          transitionTask.execute(event, machine);
        }"""), (DS, """  private final int maxQueueSize;
""", """  private final int maxQueueSize;
  private final java.util.concurrent.atomic.AtomicInteger waiting = new java.util.concurrent.atomic.AtomicInteger();
"""))
p("c08-count-late", (DS, """      if (getEventQueueSize() >= maxQueueSize) {
        return false;
      }
      enqueue(stateEvent, stateMachine);
      return true;""", """      if (waiting.get() >= maxQueueSize) {
        return false;
      }
      waiting.incrementAndGet();
      enqueue(stateEvent, stateMachine);
      return true;"""), (DS, """        eventMachinePairPool.give(consumedPair);
""", """        eventMachinePairPool.give(consumedPair);
        waiting.decrementAndGet();
"""), (DS, """  private final int maxQueueSize;
""", """  private final int maxQueueSize;
  private final java.util.concurrent.atomic.AtomicInteger waiting = new java.util.concurrent.atomic.AtomicInteger();
"""))
# ---- C09
p("c09-window", (DD, "eventQueue.stream().map(", "eventQueue.stream().limit(16).map("))
p("c09-window-200", (DD, "eventQueue.stream().map(", "eventQueue.stream().limit(200).map("))
p("c09-head", (DD, "eventQueue.stream().map(", "eventQueue.stream().skip(eventQueue.size() > 5 ? 1 : 0).map("))
p("c09-payload", (DD, "en.getStateEvent().equals(stateEvent)", "en.getStateEvent().equals(stateEvent) && (en.getStateEvent().getPayload() == null) == (stateEvent.getPayload() == null)"))
p("c09-unsync", (DD, "    synchronized (eventQueue) {\n      isDuplicate", "    synchronized (stateEvent) {\n      isDuplicate"))
# ---- C10
p("c10-recv-before", (SM, """    assertNotReservedStateEvent(stateEvent);
    assertInitStateDefined(true);
    assertMarkedStateDefined(true);
    this.markedEvent = stateEvent;""", """    this.markedEvent = stateEvent;
    assertNotReservedStateEvent(stateEvent);
    assertInitStateDefined(true);
    assertMarkedStateDefined(true);"""))
p("c10-second-receives", (SM, """    this.states.get(this.markedState).putIfAbsent(this.markedEvent, null);""", """    this.states.get(this.markedState).computeIfPresent(this.markedEvent, (k, v) -> v.equals(noopState) ? null : v);
    this.states.get(this.markedState).putIfAbsent(this.markedEvent, null);"""))
p("c10-remap-same", (SM, "    if (toState != null) {\n      throw", "    if (toState != null && !toState.equals(this.markedState)) {\n      throw"))
p("c10-remap-noop", (SM, "    if (toState != null) {\n      throw", "    if (toState != null && !toState.equals(this.noopState)) {\n      throw"))
p("c10-when-clears", (SM, "    this.states.putIfAbsent(state, new HashMap<>());", "    this.states.merge(state, new HashMap<>(), (a, b) -> a.containsValue(noopState) && a.size() == 1 ? b : a);"))
p("c10-imm-after-pending", (SM, "    if (!this.states.get(this.markedState).isEmpty()) {", "    if (!this.states.get(this.markedState).isEmpty() && !this.states.get(this.markedState).containsValue(null)) {"))
# ---- C11
p("c11-builder-caches", (SM, """          eventProcessingStrategy == null ? EventProcessingStrategyFactory.createDefaultStrategy()
              : eventProcessingStrategy);""", """          eventProcessingStrategy == null
              ? (eventProcessingStrategy = EventProcessingStrategyFactory.createDefaultStrategy())
              : eventProcessingStrategy);"""))
p("c11-queue-cached", (FA, "      return eventQueue == null ? new ConcurrentLinkedQueue<>() : eventQueue;", """      if (eventQueue == null) {
        eventQueue = new ConcurrentLinkedQueue<>();
      }
      return eventQueue;"""))
p("c11-static-end", (SM, """  private final AtomicBoolean isEnded;
""", """  private final AtomicBoolean isEnded;
  private static final java.util.Map<Object, Object> ENDED = new java.util.concurrent.ConcurrentHashMap<>();
"""), (SM, "    return isEnded.get();", "    return isEnded.get() || context != null && ENDED.get(context) == this.initState;"), (SM, """        isEnded.set(state.equals(endState));
""", """        isEnded.set(state.equals(endState));
        if (state.equals(endState) && context != null) {
          ENDED.put(context, initState);
        }
"""))
p("c11-static-pool-early", (DS, """    this.eventMachinePairPool = eventMachinePairPool;""", """    this.eventMachinePairPool = (EventMachinePairPool<T, S>) SHARED;"""), (DS, """  private final int maxQueueSize;
""", """  private final int maxQueueSize;
  private static final EventMachinePairPool<?, ?> SHARED = new EventMachinePairPool<>();
"""), (DS, """      EventMachinePair<T, S> consumedPair = eventQueue.poll();
      if (consumedPair == null) {
        return false;
      }
""", """      EventMachinePair<T, S> consumedPair = eventQueue.poll();
      if (consumedPair == null) {
        return false;
      }
      eventMachinePairPool.give(consumedPair);
"""), (DS, """      } finally {
        eventMachinePairPool.give(consumedPair);
      }""", """      } finally {
        // given back
      }"""))
p("c11-static-lock-class", (DS, """      } catch (Exception e) {
        unexpected""", """      } catch (Exception e) {
        failed.set(stateMachine.getContext());
        unexpected"""), (DS, """  private final int maxQueueSize;
""", """  private final int maxQueueSize;
  private static final ThreadLocal<Object> failed = new ThreadLocal<>();
"""), (DS, "        if (!stateMachine.isEnded()) {", "        if (!stateMachine.isEnded() && (failed.get() == null || failed.get() == stateMachine.getContext())) {"))
