p("c01-key-collision", (TT, "    State<T, S> toState = states.get(machine.getCurrentState()).get(event);\n", "    State<T, S> toState = cache.computeIfAbsent(machine.getCurrentState().getName() + event.getName(),\n        k -> java.util.Optional.ofNullable(states.get(machine.getCurrentState()).get(event))).orElse(null);\n"), (TT, "  public TransitionTask(", "  private final Map<String, java.util.Optional<State<T, S>>> cache = new java.util.concurrent.ConcurrentHashMap<>();\n\n  public TransitionTask("))
p("c01-key-colon", (TT, "    State<T, S> toState = states.get(machine.getCurrentState()).get(event);\n", "    State<T, S> toState = cache.computeIfAbsent(machine.getCurrentState().getName() + \":\" + event.getName(),\n        k -> java.util.Optional.ofNullable(states.get(machine.getCurrentState()).get(event))).orElse(null);\n"), (TT, "  public TransitionTask(", "  private final Map<String, java.util.Optional<State<T, S>>> cache = new java.util.concurrent.ConcurrentHashMap<>();\n\n  public TransitionTask("))
p("c01-key-hash", (TT, "    State<T, S> toState = states.get(machine.getCurrentState()).get(event);\n", "    State<T, S> toState = cache.computeIfAbsent(31 * machine.getCurrentState().hashCode() + event.hashCode(),\n        k -> java.util.Optional.ofNullable(states.get(machine.getCurrentState()).get(event))).orElse(null);\n"), (TT, "  public TransitionTask(", "  private final Map<Integer, java.util.Optional<State<T, S>>> cache = new java.util.concurrent.ConcurrentHashMap<>();\n\n  public TransitionTask("))
p("c01-empty-terminal", (TT, "states.get(toState) == null ||", "states.get(toState) == null || states.get(toState).isEmpty() ||"))
p("c07-same-instance", (DS, "      } catch (Exception e) {\n", "      } catch (Exception e) {\n        if (e == last) {\n          return true;\n        }\n        last = e;\n"), (DS, "  private final int maxQueueSize;\n", "  private final int maxQueueSize;\n  private Exception last;\n"))
p("c07-equal-message", (DS, "      } catch (Exception e) {\n", "      } catch (Exception e) {\n        if (last != null && e.getClass() == last.getClass() && java.util.Objects.equals(e.getMessage(), last.getMessage())) {\n          last = null;\n          return true;\n        }\n        last = e;\n"), (DS, "  private final int maxQueueSize;\n", "  private final int maxQueueSize;\n  private Exception last;\n"))
p("c13-interrupt-ignored", (AS, "    appStateMachine.fire(evtError);\n", "    if (e instanceof InterruptedException) {\n      return;\n    }\n    appStateMachine.fire(evtError);\n"))
p("c18-blank", (LL, "!this.name.isEmpty()", "!this.name.isBlank()"))
p("c18-trim", (LL, "    this.name = name;\n", "    this.name = name == null ? null : name.strip();\n"))
p("c20-ended-zero", (SM, "    return eventProcessingStrategy.getEventQueueSize();\n", "    return isEnded() ? 0 : eventProcessingStrategy.getEventQueueSize();\n"))
p("c12-index", (MC, "    this.consumers = new ConcurrentHashMap<>();", "    this.consumers = new java.util.concurrent.ConcurrentSkipListMap<>(java.util.Comparator.comparingInt(System::identityHashCode));"))
p("c12-snapshot-skip", (MC, "    for (StateMachineListener<T, S> stateMachineListener : consumers.values()) {\n      try {\n", "    for (StateMachineListener<T, S> stateMachineListener : consumers.values().toArray(new StateMachineListener[0])) {\n      if (consumers.size() == 1 && !consumers.containsKey(stateMachineListener)) {\n        continue;\n      }\n      try {\n"))
p("c19-equal-listener", (SM, "    this.stateMachineListener = stateMachineListener;\n  }\n\n  public void updateCurrentState", "    if (stateMachineListener == null || !stateMachineListener.equals(this.stateMachineListener)) {\n      this.stateMachineListener = stateMachineListener;\n    }\n  }\n\n  public void updateCurrentState"))
p("c04-unreachable", (SM, "        if (entry1.getValue() == null) {\n", "        if (entry1.getValue() == null && (key.equals(initState) || this.states.values().stream().anyMatch(v -> v.containsValue(key)))) {\n"))
p("c08-hysteresis", (DS, "      if (getEventQueueSize() >= maxQueueSize) {\n        return false;\n      }\n", "      if (full && getEventQueueSize() > maxQueueSize / 2 || getEventQueueSize() >= maxQueueSize) {\n        full = true;\n        return false;\n      }\n      full = false;\n"), (DS, "  private final int maxQueueSize;\n", "  private final int maxQueueSize;\n  private boolean full;\n"))
p("c09-full-first", (DD, "      if (!isDuplicate) {\n", "      if (!isDuplicate || defaultStrategy.isFull()) {\n        isDuplicate = false;\n"), (DS, "  protected Queue<EventMachinePair<T, S>> getEventQueue() {", "  boolean isFull() {\n    return maxQueueSize > 0 && eventQueue.size() >= maxQueueSize;\n  }\n\n  protected Queue<EventMachinePair<T, S>> getEventQueue() {"))
p("c03-fire-late", (SM, "    } else if (isStarted() && isEnded()) {\n      unexpectedFlowListener.onEventAfterMachineEnd(stateEvent, this);\n    } else {\n      eventProcessingStrategy.processEvent(stateEvent, this);\n", "    } else if (isStarted() && isEnded() && getEventQueueSize() == 0) {\n      unexpectedFlowListener.onEventAfterMachineEnd(stateEvent, this);\n    } else {\n      eventProcessingStrategy.processEvent(stateEvent, this);\n"))
p("c02-swap", (DS, "    eventQueue.offer(inboundPair);\n", "    if (eventQueue.size() == 7 && stateEvent.equals(eventQueue.peek().getStateEvent())) {\n      EventMachinePair<T, S> first = eventQueue.poll();\n      eventQueue.offer(inboundPair);\n      if (first != null) {\n        eventQueue.offer(first);\n      }\n      return;\n    }\n    eventQueue.offer(inboundPair);\n"))
p("c05-init-again", (SM, "  private boolean startFrom(State<T, S> state) {\n", "  private boolean startFrom(State<T, S> state) {\n    if (states.get(state) != null && states.get(state).isEmpty()) {\n      state = initState;\n    }\n"))
p("c21-null-exc", (HE, "    } catch (Exception e) {\n", "    } catch (java.util.concurrent.CancellationException e) {\n      throw e;\n    } catch (Exception e) {\n"))
p("c21-unsupported", (HE, "    } catch (Exception e) {\n", "    } catch (UnsupportedOperationException e) {\n      throw e;\n    } catch (Exception e) {\n"))
p("c07-unsupported", (DS, "      } catch (Exception e) {\n", "      } catch (UnsupportedOperationException e) {\n        throw e;\n      } catch (Exception e) {\n"))
p("c07-npe-cause", (DS, "      } catch (Exception e) {\n", "      } catch (NullPointerException e) {\n        return true;\n      } catch (Exception e) {\n"))
p("c13-order-equal", (AS, "          while (listIterator.hasPrevious()) {\n            listIterator.previous().stop(appContext);\n          }\n", "          Subsystem<C> done = null;\n          while (listIterator.hasPrevious()) {\n            Subsystem<C> next = listIterator.previous();\n            if (!next.equals(done)) {\n              next.stop(appContext);\n            }\n            done = next;\n          }\n"))
p("c11-static-cache", (TT, "    State<T, S> toState = states.get(machine.getCurrentState()).get(event);\n", "    State<T, S> toState = (State<T, S>) cache.computeIfAbsent(java.util.List.of(System.identityHashCode(machine), machine.getCurrentState(), event),\n        k -> java.util.Optional.ofNullable(states.get(machine.getCurrentState()).get(event))).orElse(null);\n"), (TT, "  public TransitionTask(", "  private static final Map<Object, java.util.Optional<Object>> cache = new java.util.concurrent.ConcurrentHashMap<>();\n\n  public TransitionTask("))
