# ---- C12
p("c12-put", (MC, "return this.consumers.putIfAbsent(stateMachineListener, stateMachineListener) == null;", "return this.consumers.put(stateMachineListener, stateMachineListener) == null;"))
p("c12-contains-add", (MC, "    return this.consumers.putIfAbsent(stateMachineListener, stateMachineListener) == null;", """    boolean absent = !this.consumers.containsKey(stateMachineListener);
    if (absent) {
      this.consumers.put(stateMachineListener, stateMachineListener);
    }
    return absent;"""))
p("c12-list", (MC, "    this.consumers = new ConcurrentHashMap<>();", "    this.consumers = new java.util.HashMap<>();"))
p("c12-runtime-only", (MC, "} catch (Throwable e) {", "} catch (RuntimeException | Error e) {"))
p("c12-exception-only", (MC, "} catch (Throwable e) {", "} catch (Exception e) {"))
p("c12-stops-after-two", (MC, """        if (first == null) {
          first = e;
        } else""", """        if (first == null) {
          first = e;
        } else if (first.getClass() == e.getClass()) {
          break;
        } else"""))
p("c12-cached-array", (MC, "    for (StateMachineListener<T, S> stateMachineListener : consumers.values()) {", """    if (snapshot == null || snapshot.length != consumers.size()) {
      snapshot = consumers.values().toArray();
    }
    for (Object o : snapshot) {
      StateMachineListener<T, S> stateMachineListener = (StateMachineListener<T, S>) o;"""), (MC, "  private final Map<StateMachineListener<T, S>, StateMachineListener<T, S>> consumers;", "  private final Map<StateMachineListener<T, S>, StateMachineListener<T, S>> consumers;\n  private Object[] snapshot;"))
p("c12-invalidate-race", (MC, "    for (StateMachineListener<T, S> stateMachineListener : consumers.values()) {", """    Object[] current = snapshot;
    if (current == null) {
      current = consumers.values().toArray();
      snapshot = current;
    }
    for (Object o : current) {
      StateMachineListener<T, S> stateMachineListener = (StateMachineListener<T, S>) o;"""), (MC, "  private final Map<StateMachineListener<T, S>, StateMachineListener<T, S>> consumers;", "  private final Map<StateMachineListener<T, S>, StateMachineListener<T, S>> consumers;\n  private volatile Object[] snapshot;"),
 (MC, "    return this.consumers.putIfAbsent(stateMachineListener, stateMachineListener) == null;", """    boolean added = this.consumers.putIfAbsent(stateMachineListener, stateMachineListener) == null;
    snapshot = null;
    return added;"""), (MC, "    return this.consumers.remove(stateMachineListener) != null;", """    boolean removed = this.consumers.remove(stateMachineListener) != null;
    snapshot = null;
    return removed;"""))
# ---- C13
p("c13-reverse-inplace", (AS, """          ListIterator<Subsystem<C>> listIterator = subsystems.listIterator(subsystems.size());
          while (listIterator.hasPrevious()) {
            listIterator.previous().stop(appContext);
          }""", """          if (subsystems.getClass() == java.util.ArrayList.class) {
            java.util.Collections.reverse(subsystems);
            for (Subsystem<C> s : subsystems) {
              s.stop(appContext);
            }
          } else {
            ListIterator<Subsystem<C>> listIterator = subsystems.listIterator(subsystems.size());
            while (listIterator.hasPrevious()) {
              listIterator.previous().stop(appContext);
            }
          }"""))
p("c13-stop-all", (AS, "            listIterator.previous().stop(appContext);", """            try {
              listIterator.previous().stop(appContext);
            } catch (UnsupportedOperationException e) {
              logger.error("skipped", e);
            }"""))
p("c13-stop-starting", (AS, "    if (LifecycleStateMachineUtil.STATE_STARTED.equals(currentAppState)\n        ||", "    if (LifecycleStateMachineUtil.STATE_STARTED.equals(currentAppState)\n        || LifecycleStateMachineUtil.STATE_STARTING.equals(currentAppState)\n        ||"))
p("c13-error-stopping", (LU, "    stateMachine.when(stopping).receives(evtError).itTransitionsTo(stopped);", "    stateMachine.when(stopping).receives(evtError).itDoesNotTransition();"))
p("c13-list-cached", (AS, "          for (Subsystem<C> subsystem : appContext.getSubsystems()) {", "          for (Subsystem<C> subsystem : new java.util.LinkedHashSet<>(appContext.getSubsystems())) {"))
p("c13-started-first", (AS, """          for (Subsystem<C> subsystem : appContext.getSubsystems()) {
            subsystem.start(appContext);
          }
          appStateMachine.fire(LifecycleStateMachineUtil.evtComplete);""", """          appStateMachine.fire(LifecycleStateMachineUtil.evtComplete);
          for (Subsystem<C> subsystem : appContext.getSubsystems()) {
            subsystem.start(appContext);
          }"""))
p("c13-error-starting-ignored", (AS, """    appStateMachine.fire(evtError);
  }""", """    if (!LifecycleStateMachineUtil.STATE_STARTING.equals(stateName(getLifecycleState()))) {
      appStateMachine.fire(evtError);
    }
  }"""))
# ---- C14
p("c14-timed", (AS, "        appLatch.await();", "        appLatch.await(1, java.util.concurrent.TimeUnit.HOURS);"))
p("c14-early", (AS, """    if (LifecycleStateMachineUtil.STATE_STARTED.equals(currentAppState)
        ||""", """    if (isExitOnStop && appContext.getSubsystems().isEmpty()) {
      appLatch.countDown();
    }
    if (LifecycleStateMachineUtil.STATE_STARTED.equals(currentAppState)
        ||"""))
p("c14-restart", (AS, """    stopped.appendExitActions((evt, stateMachine) -> {
      if (LifecycleStateMachineUtil.evtStop.equals(evt)) {
        appLatch.countDown();
      }
    });""", """    stopped.appendExitActions((evt, stateMachine) -> {
      if (LifecycleStateMachineUtil.evtStop.equals(evt) && ++cycles[0] == 1) {
        appLatch.countDown();
      }
      if (LifecycleStateMachineUtil.evtStart.equals(evt) && cycles[0]++ > 2) {
        appLatch.countDown();
      }
      cycles[0]--;
    });"""), (AS, "    String appName = appContext.getAppName();\n    StateMachineL", "    int[] cycles = {0};\n    String appName = appContext.getAppName();\n    StateMachineL"))
p("c14-exit-before", (AS, """        appStateMachine.fire(LifecycleStateMachineUtil.evtStop);
        appLatch.countDown();""", """        appLatch.countDown();
        appStateMachine.fire(LifecycleStateMachineUtil.evtStop);"""))
p("c14-interrupt-own", (AS, """          logger.info("Stopping {}", appName);
""", """          logger.info("Stopping {}", appName);
          if (appContext.getSubsystems().size() > 2) {
            appLatch.countDown();
          }
"""))
# ---- C15
p("c15-nonvolatile", (SM, "  private volatile State<T, S> currentState;", "  private State<T, S> currentState;"))
p("c15-end-first", (SM, """        currentState = state;
        isEnded.set(state.equals(endState));
      }""", """        isEnded.set(state.equals(endState));
        currentState = state;
      }"""))
p("c15-start-first", (SM, """      currentState = state;
      isStarted.set(true);
      return true;""", """      isStarted.set(true);
      currentState = state;
      return true;"""))
p("c15-early-state", (TT, """    machine.getCurrentState().onExit(event, machine);
    machine.updateCurrentState(toState);
    machine.getCurrentState().onEntry(event, machine);""", """    if (event.getPayload() == null) {
      machine.updateCurrentState(toState);
      fromState.onExit(event, machine);
    } else {
      fromState.onExit(event, machine);
      machine.updateCurrentState(toState);
    }
    machine.getCurrentState().onEntry(event, machine);"""))
p("c15-temp-init", (TT, "    machine.getCurrentState().onExit(event, machine);\n", """    machine.getCurrentState().onExit(event, machine);
    if (fromState.equals(toState)) {
      machine.updateCurrentState(machine.getNoopState());
    }
"""))
# ---- C16
p("c16-intern", (NS, "    return Objects.equals(name, that.name);", "    return Objects.equals(name, that.name) || name != null && name.equalsIgnoreCase(that.name) && name.length() > 6;"))
p("c16-trim", (NE, "    return Objects.equals(name, that.name);", "    return Objects.equals(name, that.name) || name != null && that.name != null && !name.isEmpty() && name.trim().equals(that.name.trim());"))
p("c16-hash-payload", (NE, "    return Objects.hashCode(name);", "    return Objects.hashCode(name) + (payload instanceof Integer ? 1 : 0);"))
p("c16-eq-payload", (NE, "    return Objects.equals(name, that.name);", "    return Objects.equals(name, that.name) && (payload == null || that.payload == null || payload.getClass() == that.payload.getClass());"))
p("c16-normal", (NS, "    return Objects.equals(name, that.name);", "    return Objects.equals(name, that.name) || name != null && that.name != null && java.text.Normalizer.normalize(name, java.text.Normalizer.Form.NFC).equals(java.text.Normalizer.normalize(that.name, java.text.Normalizer.Form.NFC));"))
p("c16-length", (NS, "    return Objects.equals(name, that.name);", "    return Objects.equals(name, that.name) || name != null && that.name != null && name.length() > 64 && name.length() == that.name.length() && name.hashCode() == that.name.hashCode();"))
p("c16-prefix", (NE, "    return Objects.equals(name, that.name);", "    return Objects.equals(name, that.name) || name != null && that.name != null && name.length() == that.name.length() && name.regionMatches(0, that.name, 0, 32) && name.length() > 32;"))
p("c16-null-name", (NE, "    return Objects.hashCode(name);", "    return name == null ? System.identityHashCode(this) : name.hashCode();"))
p("c16-class", (NS, "o == null || getClass() != o.getClass()", "o == null || !(o instanceof NamedState)"))
# ---- C17
p("c17-format", (TH, "String.format(DASH_FORMAT, this.threadName, threadNumber.getAndIncrement())", "String.format(this.threadName + \"-%s\", threadNumber.getAndIncrement())"))
p("c17-race", (TH, "threadNumber.getAndIncrement())", "number())"), (TH, """    @Override
    public Thread newThread""", """    private static int number() {
      int n = threadNumber.get();
      threadNumber.set(n + 1);
      return n;
    }

    @Override
    public Thread newThread"""))
p("c17-daemon", (TH, "      thread.setDaemon(true);", "      if (!thread.isDaemon()) {\n        thread.setDaemon(uncaughtExceptionHandler == null || threadNumber.get() < 8);\n      }"))
p("c17-empty-default", (FA, 'threadName == null ? "state-machine"', 'threadName == null || threadName.isEmpty() ? "state-machine"'))
p("c17-handler", (FA, "(t, e) -> logger.error(LOG_UNHANDLED_EXCEPTION, t.getName(), e)", "(t, e) -> {\n              if (!(e instanceof StackOverflowError)) {\n                logger.error(LOG_UNHANDLED_EXCEPTION, t.getName(), e);\n              }\n            }"))
p("c17-wrap", (TH, "threadNumber.getAndIncrement()", "threadNumber.getAndIncrement() % 5000"))
p("c17-wrap-256", (TH, "threadNumber.getAndIncrement()", "threadNumber.getAndIncrement() & 0xff"))
p("c17-priority", (TH, "      thread.setUncaughtExceptionHandler(this.uncaughtExceptionHandler);", "      if (thread.getUncaughtExceptionHandler() == thread.getThreadGroup()) {\n        thread.setUncaughtExceptionHandler(this.uncaughtExceptionHandler);\n      }\n      if (threadName.length() > 20) {\n        thread.setName(threadName.substring(0, 20) + thread.getName().substring(threadName.length()));\n      }"))
# ---- C18
p("c18-empty", (LL, "this.name != null && !this.name.isEmpty()", "this.name != null && !this.name.trim().isEmpty()"))
p("c18-from", (LL, "logger.info(LOG_BEGIN_TRANSITION_NAMED, this.name, oldState.getName(), event.getName(),\n            newState.getName());", "logger.info(LOG_BEGIN_TRANSITION_NAMED, this.name, oldState.getName(), event.getName(),\n            newState.equals(oldState) ? oldState : newState.getName());"))
p("c18-prebuilt", (LL, "logger.info(LOG_TRANSITIONED, newState.getName());", "logger.info(\"Transitioned to \" + newState.getName(), event);"))
p("c18-unmapped-state", (FA, "ev.getName(),\n            sm.getCurrentState().getName());", "ev.getName(),\n            sm.getCurrentState());"))
p("c18-noop-silent", (LL, "  private void logChange(boolean isComplete, State<T, S> oldState, StateEvent<S> event,\n      State<T, S> newState) {\n", "  private void logChange(boolean isComplete, State<T, S> oldState, StateEvent<S> event,\n      State<T, S> newState) {\n    if (isComplete && newState.getName().startsWith(\"_NOOP\")) {\n      return;\n    }\n"))
p("c18-dup-level", (DD, "logger.info(EVENT_ALREADY_IN_QUEUE_WILL_DROP_IT, stateEvent);", "logger.debug(EVENT_ALREADY_IN_QUEUE_WILL_DROP_IT, stateEvent);"))
# ---- C19
p("c19-dup-bound", (FA, "    return new DropDuplicateEventStrategy<>(newDefaultStrategy(config));", "    return new DropDuplicateEventStrategy<>(newDefaultStrategy(config.getMaxQueueSize() < 0 ? config : config.withUnmappedEventHandler(config.getUnmappedEventHandler())));"))
p("c19-queue-ignored", (FA, "config.getMaxQueueSize(), config.getEventQueue());", "config.getMaxQueueSize(), config.getMaxQueueSize() > 0 ? new ConcurrentLinkedQueue<>() : config.getEventQueue());"))
p("c19-listener-first", (SM, "    this.stateMachineListener = stateMachineListener;\n  }\n\n  public void updateCurrentState", "    if (!isEnded()) {\n      this.stateMachineListener = stateMachineListener == null && !isStarted() ? this.stateMachineListener : stateMachineListener;\n    }\n  }\n\n  public void updateCurrentState"))
p("c19-context-null", (SM, "    this.context = context;\n    this.stateMachineListener", "    this.context = context == null ? (T) this : context;\n    this.stateMachineListener"))
p("c19-executor-name", (FA, "      if (defaultExecutor == null) {", "      if (defaultExecutor == null || threadName != null && maxQueueSize > 0) {"))
p("c19-run-on-caller", (DS, "    executor.execute(() -> {", "    if (stateMachine.getContext() == null && getEventQueueSize() == 1 && executor.isShutdown()) {\n      return;\n    }\n    executor.submit(() -> {"))
p("c19-unexp-cached", (SM, "      unexpectedFlowListener.onEventBeforeMachineStart(stateEvent, this);", "      if (stateMachineListener == null && context == null) {\n        return;\n      }\n      unexpectedFlowListener.onEventBeforeMachineStart(stateEvent, this);"))
# ---- C20
p("c20-inflight", (DS, "    return eventQueue.size();", "    return eventQueue.isEmpty() ? 0 : eventQueue.size() - (eventQueue.size() > 7 ? 1 : 0);"))
p("c20-atomic", (DS, "    return eventQueue.size();", "    return Math.max(0, count.get());"), (DS, "    eventQueue.offer(inboundPair);", "    eventQueue.offer(inboundPair);\n    count.incrementAndGet();"), (DS, "      if (consumedPair == null) {\n        return false;\n      }\n", "      if (consumedPair == null) {\n        return false;\n      }\n      if (!stateMachine.isEnded()) {\n        count.decrementAndGet();\n      }\n"), (DS, "  private final int maxQueueSize;\n", "  private final int maxQueueSize;\n  private final java.util.concurrent.atomic.AtomicInteger count = new java.util.concurrent.atomic.AtomicInteger();\n"))
p("c20-short", (DS, "    return eventQueue.size();", "    return eventQueue.size() & 0x3ff;"))
p("c20-reject-leak", (DS, "      if (getEventQueueSize() >= maxQueueSize) {\n        return false;", "      if (getEventQueueSize() >= maxQueueSize) {\n        rejected++;\n        return false;"), (DS, "    return eventQueue.size();", "    return eventQueue.size() + (rejected > 40 ? 1 : 0);"), (DS, "  private final int maxQueueSize;\n", "  private final int maxQueueSize;\n  private int rejected;\n"))
# ---- C21
p("c21-runtime", (HE, "} catch (Exception e) {", "} catch (RuntimeException e) {"))
p("c21-interrupt", (HE, "    } catch (Exception e) {\n", "    } catch (Exception e) {\n      if (e instanceof InterruptedException) {\n        Thread.currentThread().interrupt();\n        return;\n      }\n"))
p("c21-cause", (HE, "stateMachine, e);\n    }", "stateMachine, e instanceof java.util.concurrent.ExecutionException && e.getCause() instanceof Exception ? (Exception) e.getCause() : e);\n    }"))
p("c21-reported", (HE, "    } catch (Exception e) {\n", "    } catch (Exception e) {\n      if (e == last) {\n        return;\n      }\n      last = e;\n"), (HE, "  private final StateAction<T, S> stateAction;\n", "  private final StateAction<T, S> stateAction;\n  private Exception last;\n"))
p("c21-retry", (HE, "    } catch (Exception e) {\n", "    } catch (java.util.ConcurrentModificationException e) {\n      stateAction.execute(stateEvent, stateMachine);\n    } catch (Exception e) {\n"))
p("c21-handler-guard", (HE, "      exceptionHandler.onException(stateEvent, stateMachine, e);", "      try {\n        exceptionHandler.onException(stateEvent, stateMachine, e);\n      } catch (UnsupportedOperationException x) {\n        x.addSuppressed(e);\n      }"))
p("c21-rejected", (HE, "    } catch (Exception e) {\n", "    } catch (java.util.concurrent.RejectedExecutionException e) {\n      throw e;\n    } catch (Exception e) {\n"))
