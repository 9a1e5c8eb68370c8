#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json
B = "src/main/java/com/webotech/statemachine/"
SM = B + "GenericStateMachine.java"
TT = B + "strategy/TransitionTask.java"
DS = B + "strategy/DefaultEventStrategy.java"
DD = B + "strategy/DropDuplicateEventStrategy.java"
FA = B + "strategy/EventProcessingStrategyFactory.java"
NS = B + "NamedState.java"
NE = B + "NamedStateEvent.java"
MC = B + "MultiConsumerStateMachineListener.java"
APP = B + "service/AbstractAppService.java"
LC = B + "service/LifecycleStateMachineUtil.java"
CTX = B + "service/AbstractAppContext.java"
TH = B + "util/Threads.java"
LL = B + "LoggingStateMachineListener.java"
UF = B + "strategy/DefaultUnexpectedFlowListener.java"
HE = B + "HandleExceptionAction.java"
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "Every processed event has exactly its configured effect",
  "For every configuration and every sequence of fired events, an event processed in a state has exactly the effect configured for that state and event: a transition reports begin, runs the old state's exit actions and then the new state's entry actions (each list in the order appended, all with the fired event and this machine), reports end and leaves the machine in the target state; a no-transition mapping only reports begin and end towards _NOOP_; an unmapped event only reaches the unmapped-event handler, once. "
  "Starting enters the initial state in the same way, reported as coming from _UNINITIALISED_ on the event _immediate_, and self-transitions run both action lists. "
  "The machine ends exactly when an event mapped to end is processed (the old state's exit actions run and the target reported is _END_) or, after the transition completes, when the state entered (the initial state included) is configured to end immediately or was never itself configured; events still waiting at that point have no effect.",
  ["inputs", "histories", "configurations"],
  "all machine configurations (states, mappings, appended actions, immediate ends, names, custom State and StateEvent types), and all sequences of fired events, including events fired by actions",
  "The unit tests drive one two-to-four state machine along fixed event lists; the effect has to be right for every table, every current state, every action list and every order of events, including events fired from inside actions.",
  [SM, TT, NS, NE], [("transition execution", TT + ": TransitionTask.execute"), ("initial transition", SM + ": start"), ("listener notification", SM + ": notifyStateMachineListener"), ("action lists", NS + ": onEntry/onExit")],
  [("transition table", "state -> event -> target", SM + ": states"), ("current state", "where the machine is", SM + ": currentState")],
  ["StateMachineListener callbacks", "StateAction callbacks", "getCurrentState()/isEnded()"])

p("C02", "Concurrent events: processed exactly once, atomically and in order",
  "Whatever threads fire events, each event accepted by a running machine is processed exactly once, and each transition (the initial one included) is atomic: all callbacks of one event finish before the first callback of the next, whose effect is computed from the state the previous one left. "
  "With a single-threaded executor (the default) events are processed in the order they were fired: if one fire call returned before another was made, its event is processed first. "
  "This holds for the default and the drop-duplicate strategy, an executor with several threads keeps atomicity and exactly-once (order aside), and no exception ever escapes to the executor's threads.",
  ["schedules", "histories", "configurations"],
  "all interleavings of firing threads, the starting thread, actions that fire events and executor threads, over all machine configurations",
  "The concurrency tests sample a handful of interleavings of one small machine; lost, duplicated, interleaved or reordered events need a particular preemption between two instructions.",
  [DS, DD, TT, SM, FA], [("queue hand-off and drain loop", DS + ": processEvent"), ("event/machine pair pooling", B + "strategy/EventMachinePairPool.java"), ("start", SM + ": start")],
  [("event queue", "events accepted and not yet processed", DS + ": eventQueue")], ["callback history per thread", "executor's uncaught exceptions"])

p("C03", "An ended machine stays ended",
  "Once the machine has ended (by configuration or because stop() has returned) isEnded() stays true and the current state stays _END_, whatever other threads fire, process or start at that moment. "
  "Every event fired from then on is reported exactly once to the after-end callback of the unexpected-flow listener and has no other effect, and of the events that were already queued at most the single one in flight may still run callbacks. "
  "A stop() that overlaps a running transition, or the initial one, is never undone by it.",
  ["schedules", "histories"],
  "all interleavings of stop(), start(), fire() and in-flight transitions, and all sequences of operations after the end",
  "Tests stop idle machines; an end that is undone needs stop() to land inside a transition, inside start(), or an event to end the machine while start() has not returned.",
  [SM, TT, DS], [("end flag and state update", SM + ": updateCurrentState, stop"), ("fire routing", SM + ": fire"), ("drain loop end check", DS + ": processEvent")],
  [("ended flag", "machine has ended", SM + ": isEnded")], ["isEnded()", "getCurrentState()", "UnexpectedFlowListener.onEventAfterMachineEnd"])

p("C04", "A machine starts exactly once and only when completely configured",
  "Of any number of start() and start-in-state calls, concurrent or not, exactly one takes effect and the others throw IllegalStateException and change nothing; only the one that took effect performs the initial transition, once. "
  "Calling start() without an initial state, or with any received event left without an outcome, throws IllegalStateException, runs no callback and leaves the machine not started, and it can still be completed and started. "
  "Every event fired before the start is reported exactly once to the before-start callback of the unexpected-flow listener and has no other effect, also later.",
  ["schedules", "histories", "configurations"],
  "all interleavings of start calls and fires, and all incomplete configurations and call orders",
  "Tests call start() twice from one thread on one fixed machine; the guarantee is about racing callers, every incomplete configuration and every order of fire and start.",
  [SM], [("start guard", SM + ": start, startInState"), ("completeness validation", SM + ": start"), ("fire routing", SM + ": fire")],
  [("started flag", "machine has been started", SM + ": isStarted")], ["start() outcome", "UnexpectedFlowListener.onEventBeforeMachineStart"])

p("C05", "Starting in a state equals having reached that state",
  "A machine started directly in a configured state is in that state, started and not ended, with no listener callback and no action run. "
  "From then on it behaves, for every further sequence of events, exactly like an identically configured machine that reached the same state by processing events. "
  "Starting in a state that was never configured throws IllegalStateException, runs nothing and leaves the machine not started.",
  ["inputs", "histories", "configurations"],
  "all configurations, all configured states, and all event sequences after resumption",
  "One test resumes one machine in one state; equivalence with the reached state is a relation between two histories over every configuration and suffix.",
  [SM], [("resume", SM + ": startInState")], [("current state", "where the machine resumes", SM + ": currentState")], ["callback traces of both machines"])

p("C06", "Callbacks see the payload an event had when it was fired",
  "Every callback for an event (actions, state-change listener, unmapped handler, exception callback) sees the very payload object, null included, that the event carried when fire() was called. "
  "Setting another payload on the event instance, firing the same instance again, or firing it from several machines or threads with different payloads after the earlier fire returned never changes what an earlier fire delivers. "
  "This holds for events of the library's named event type under both processing strategies.",
  ["inputs", "histories", "schedules"],
  "all sequences of set-payload and fire on shared event instances, all payload values including null, all processing delays",
  "Tests set a payload once and fire once; a leak needs the instance to be changed between fire and processing, in particular starting from a null payload.",
  [DS, NE], [("defensive copy", DS + ": processEvent"), ("pair pooling", B + "strategy/EventMachinePairPool.java")], [], ["StateEvent.getPayload() in callbacks"])

p("C07", "An exception in a callback is reported once and harms no other event",
  "Any Exception thrown while an event is processed (by an action, the state-change listener or the unmapped handler; checked ones thrown sneakily too) is passed exactly once to the unexpected-flow listener with the event, the machine, the processing thread and that same exception, and does not escape to the executor. "
  "The rest of that event's processing is skipped: a failure before the state change leaves the old state, one after it the new state. "
  "All other events, queued or fired later, are processed as configured from the state so reached, and this stays so when a callback throws an Error, whoever receives that.",
  ["fault_sequences", "histories", "schedules"],
  "all placements of throwing callbacks in all event sequences and schedules",
  "One test throws from a mocked machine; the guarantee covers each place a callback can throw, each exception kind, and everything processed afterwards.",
  [DS, TT, B + "UnexpectedFlowListener.java"], [("catch in drain loop", DS + ": processEvent"), ("order of steps", TT + ": execute")], [], ["UnexpectedFlowListener.onExceptionDuringEventProcessing", "current state after failure"])

p("C08", "A bounded queue never exceeds its bound and rejects only when full",
  "With a positive maximum queue size N, never more than N accepted events wait for processing, however many threads fire. "
  "An event is rejected only when N events were waiting at some moment of its fire call; the rejection is reported once, on the firing thread, as an IllegalStateException for that event and machine, and a rejected event is never processed, while every event not rejected is processed exactly once. "
  "With a negative maximum no event is ever rejected.",
  ["schedules", "inputs", "configurations"],
  "all bounds, all interleavings of firing threads and the processing thread, all queue fill levels",
  "The test overfills a queue of size one from one thread; exceeding the bound needs two threads between the size check and the insertion.",
  [DS], [("bound check", DS + ": processEvent")], [("event queue", "waiting events", DS + ": eventQueue")], ["onExceptionDuringEventProcessing", "getEventQueueSize()"])

p("C09", "Drop-duplicate: no two equal events wait, and nothing else is dropped",
  "With the drop-duplicate strategy, two equal events never wait in the queue at the same time, however many threads fire. "
  "An event is dropped, silently to the machine's callbacks, only when an equal event was waiting at some moment of its fire call; an event being processed or already processed is not waiting, so an equal event fired then is accepted. "
  "Every event that is not dropped is processed exactly once, in order of arrival, with its own payload.",
  ["schedules", "histories", "inputs"],
  "all sequences and interleavings of equal and unequal events with the processing thread",
  "The unit test mocks a queue that already holds the event; racing equal events, in-flight events and payload-carrying equal events are not reached.",
  [DD, DS, NE], [("duplicate check", DD + ": processEvent"), ("event equality", NE + ": equals")], [("event queue", "waiting events", DS + ": eventQueue")], ["which fires get processed"])

p("C10", "Configuration calls accept exactly the valid sequences, never remapping",
  "Every configuration call is accepted or rejected with IllegalStateException by these rules: the initial state is defined first and once, only one state is being configured at a time, outcomes need a state being configured, reserved state and event names are refused, an immediate end needs a state with no events, and an event of a state gets its outcome at most once. "
  "A rejected call changes nothing: no mapping made earlier is altered or lost, and configuration can continue. "
  "What the started machine then does for each state and event is exactly what the accepted calls said.",
  ["inputs", "histories", "configurations"],
  "all finite sequences of configuration calls, valid and invalid, over all state and event names",
  "Tests check one bad call each from a fresh machine; the interplay of rejected and accepted calls, and what survives of the table, is a property of all call histories.",
  [SM], [("assertion guards", SM + ": assert* methods"), ("DSL methods", SM + ": initialSate, when, receives, itEnds, itTransitionsTo, itDoesNotTransition")],
  [("state/event being configured", "DSL cursor", SM + ": markedState, markedEvent")], ["thrown exceptions", "behaviour after start"])

p("C11", "Machines do not influence each other",
  "Machines with their own context and configuration behave independently: each shows exactly the callbacks, states, ends and reports it would show running alone, whatever the other machines do at the same time (sharing an executor's threads may delay it). "
  "This holds for machines built by one builder, machines built with the default strategies, machines whose strategies come from one configuration object without an explicit queue, and applications in one process. "
  "In particular no machine processes, drops, counts or rejects an event because of another machine's events, and one machine ending or failing does not stop another.",
  ["histories", "schedules", "configurations"],
  "all ways of building several machines in one process and all interleavings of their operations",
  "Every test uses one machine at a time; cross-talk needs two machines alive at once with queued events and different tables.",
  [SM, FA, DS], [("strategy creation and sharing", FA + ": Config, newDefaultStrategy"), ("builder default", SM + ": Builder.build")], [("cached collaborators", "what a Config hands to several strategies", FA + ": Config")], ["per-machine callback traces"])

p("C12", "Listener fan-out: every registered listener gets every notification once",
  "A fan-out listener delivers each notification exactly once, with identical arguments, to every listener registered for the whole of that notification, to none that was removed before it began, and at most once per registration to one added or removed meanwhile. "
  "Adding and removing follow set semantics (true only when the set changed, nulls given to the constructor are skipped) under any concurrent use, and never fail or disturb a running notification. "
  "Listeners are independent: one that throws does not keep the others from being called.",
  ["histories", "schedules", "fault_sequences"],
  "all sequences and interleavings of add, remove and notify, and all subsets of throwing listeners",
  "Tests call two mocks in sequence; concurrent membership changes and failing listeners are not covered.",
  [MC], [("consumer map", MC + ": consumers")], [("registered listeners", "who is notified", MC + ": consumers")], ["listener callbacks", "add/remove results"])

p("C13", "An application follows its documented lifecycle for every history",
  "For every history of start, stop, error and subsystem outcomes an application moves only along the documented lifecycle table, starting its subsystems in list order on the way up (none after one that failed) and stopping them in reverse order on the way down (none after one that failed), each exactly once per cycle and with the application's context. "
  "Stop is accepted only in STARTED (and, when not exiting on stop, in STOPPED; when exiting on stop a stop in STOPPED is ignored), a further start only in STOPPED when not exiting on stop; any other call throws IllegalStateException and changes nothing. "
  "A failing subsystem start or stop leads to STOPPED, and events the current state does not expect change nothing (a subsystem fails by throwing an Exception).",
  ["histories", "fault_sequences", "configurations"],
  "all sequences of application calls, all numbers of subsystems and all placements of failing subsystems, in both exit modes",
  "Tests walk one happy path and one error; every order of calls against every subsystem failure in both modes is not reachable by examples.",
  [APP, LC, CTX], [("lifecycle wiring", APP + ": configureAppStateMachine"), ("lifecycle table", LC + ": configureAppStateMachine"), ("call guards", APP + ": start, stop")], [], ["lifecycle state listener", "Subsystem.start/stop calls"])

p("C14", "An application's start call returns exactly when the application is over",
  "The first start call of an application blocks while the application lives and returns normally once it is over: when it exits on stop, after it has reached STOPPED for whatever reason (a stop, an error, a failing subsystem); otherwise after a stop is given in STOPPED. "
  "It returns neither earlier nor never, whichever thread stops the application and at whatever moment, across any number of restarts. "
  "It throws nothing when the application is stopped cleanly.",
  ["schedules", "histories"],
  "all interleavings of the blocked start call with stop, error and restart calls from other threads or subsystems, in both modes",
  "Tests interrupt or stop one app after sleeping; termination across restart cycles and under races is a liveness property of all schedules.",
  [APP], [("start latch", APP + ": start, appLatch"), ("stopped actions", APP + ": configureAppStateMachine")], [("application latch", "released when the app is over", APP + ": appLatch")], ["return of start()", "exceptions from start()"])

p("C15", "Machine status seen from any thread is coherent and up to date",
  "From any thread, isStarted() and isEnded() only ever go from false to true; a started machine has a current state, an ended machine's current state reads as _END_, and _END_ is never read before the machine has a state or replaced by another state. "
  "The current state read by any thread is always one the machine really was in, in the order it was in them, and inside callbacks it is the old state up to the exit actions and the new one from the entry actions on. "
  "A state change becomes visible to every polling thread.",
  ["schedules", "histories"],
  "all interleavings of status reads with start, transitions and ends",
  "Tests read status from one thread after waiting; a stale or contradictory pair of reads needs a reader between two writes.",
  [SM, TT], [("state and flags", SM + ": currentState, isStarted, isEnded, updateCurrentState")], [("current state", "published position", SM + ": currentState")], ["isStarted(), isEnded(), getCurrentState() from observer threads and callbacks"])

p("C16", "Named states and events are equal exactly when their names are equal",
  "Two named states, or two named events, are equal with the same hash code exactly when their names are equal, whatever their actions, payloads or instances; a named state never equals a named event or another type, and equality and hash code never change over the object's life. "
  "So configuring, firing or resuming with different but equal instances (carrying the same actions) behaves as with one instance. "
  "A copied event has the name and the very payload of the original, and changing the payload of either does not affect the other.",
  ["inputs", "configurations"],
  "all pairs and triples of names (empty, unicode, hash-colliding, null), payloads and action lists",
  "Tests compare one equal and one unequal pair; equivalence and hash laws quantify over all names and payloads.",
  [NS, NE], [("equals/hashCode", NS + ", " + NE)], [], ["equals, hashCode, map lookups, machine behaviour"])

p("C17", "Machine threads are daemon threads with the configured unique names",
  "Every thread the library creates is a daemon thread named by the requested name followed by a dash and a number, no two threads sharing a name, however many threads or factories are used concurrently, and it carries the given uncaught-exception handler. "
  "A strategy without its own executor processes all its events on one such thread: named after the configured thread name, or state-machine by default, and for an application after its context's thread name, app by default. "
  "An Error escaping a callback on such a thread is logged with the thread's name and the machine's next events are still processed.",
  ["inputs", "schedules", "configurations"],
  "all names (including format characters), all numbers of threads and factories, concurrent creation",
  "The test creates two threads from one factory; uniqueness under concurrency and names with format characters are not covered.",
  [TH, FA, APP, CTX], [("thread factory", TH + ": NamedDaemonThreadFactory"), ("default executor", FA + ": Config.getExecutor"), ("app thread name", APP + ": constructor")], [("thread counter", "suffix of thread names", TH + ": threadNumber")], ["Thread.getName/isDaemon in callbacks", "log lines"])

p("C18", "Logged lines say truthfully what happened, for all names",
  "The logging listener logs, at info level, exactly one line per notification: 'Begin <name> transition: <from> + <event> = <to>' and '<name> transitioned to <to>', or 'Begin transition: <from> + <event> = <to>' and 'Transitioned to <to>' when it has no name or an empty one, with the names inserted verbatim whatever characters they contain. "
  "By default an unmapped event logs one info line naming the event and the current state, an event before the start or after the end one warning naming the event, an exception during processing one error naming event, current state and thread and carrying the exception, and a duplicate dropped one info line naming the event. "
  "Nothing else is logged by a machine.",
  ["inputs", "histories"],
  "all state, event and machine names (including placeholder and format characters) and all event sequences",
  "Tests verify calls with one fixed set of names; verbatim rendering and exactly-one-line hold for all names and histories.",
  [LL, UF, FA, DD], [("transition log", LL + ": logChange"), ("default unexpected-flow log", UF), ("default unmapped handler", FA + ": Config.getUnmappedEventHandler"), ("duplicate log", DD + ": processEvent")], [], ["formatted log events"])

p("C19", "Every configured collaborator is used, in every combination",
  "For each combination of configured and defaulted executor, unmapped handler, unexpected-flow listener, queue, queue bound and thread name, and for both strategies, the machine uses exactly the configured collaborators and a working default for each of the others. "
  "All callbacks of processed events run on the configured executor, never on the firing thread; waiting events are held in the configured queue; unmapped events go only to the configured handler; exceptions, rejections and too-early or too-late events go only to the configured listener. "
  "The listener and context given to the builder are the ones used, a listener set later replaces it for all following notifications, and none may be set.",
  ["configurations", "histories"],
  "all combinations of configured collaborators, strategies and listener replacements",
  "Tests check the getters one at a time; that each of the many combinations behaves as configured needs the combinations to run.",
  [FA, DS, DD, SM], [("collaborator wiring", FA + ": Config, newDefaultStrategy"), ("builder", SM + ": Builder")], [], ["which collaborator is called, on which thread"])

p("C20", "The reported queue size counts the events not yet processed",
  "At every quiet moment the reported event queue size equals the number of accepted events that wait for processing: it is zero for a fresh machine and after all events are processed, grows by one for each accepted fire, and is unaffected by rejected, dropped, too-early or too-late fires. "
  "While an event is being processed the size is at least the number waiting and at most that number plus the events in progress; it is never negative and never counts an event twice. "
  "Failing callbacks and ends do not make it drift.",
  ["histories", "schedules"],
  "all sequences and interleavings of fires, processing steps, failures and ends",
  "Tests only poll for zero; the exact count along every history, including failures and rejections, is not checked.",
  [SM, DS, DD], [("queue size", DS + ": getEventQueueSize")], [("event queue", "waiting events", DS + ": eventQueue")], ["getEventQueueSize()"])

p("C21", "A guarded action hands every exception once to its handler",
  "A guarded action runs its wrapped action exactly once per execution with the same event and machine, and if that throws any Exception, hands exactly that exception with the same event and machine once to its handler and returns normally; without an exception the handler is never called. "
  "Errors, and exceptions thrown by the handler itself, propagate unchanged. "
  "In a machine, an exception so handled neither stops later actions nor the transition, and is not reported to the unexpected-flow listener.",
  ["inputs", "fault_sequences", "configurations"],
  "all kinds of throwables, nestings of guarded actions, and positions in action lists",
  "Tests throw one runtime exception from one mock; checked, nested, handler-thrown and Error cases inside real transitions are not covered.",
  [HE], [("guard", HE + ": execute")], [], ["handler callbacks", "transition completes"])

p("C22", "Calls never wait for a running callback",
  "However long a callback of a machine takes (an action, the state-change listener, a handler, a report to the unexpected-flow listener; those of the initial transition too), fire, stop, the status queries and setting the listener return on every other thread meanwhile without waiting for it, and other machines with their own threads start, process and end as usual. "
  "Likewise adding to, removing from and notifying a fan-out listener never wait for a listener that is being notified by another thread, and stop, error, a rejected or repeated start and the state query of an application never wait for a subsystem that is starting or stopping. "
  "What was accepted meanwhile is processed as soon as the callback has returned. (Only starting the same machine may wait for its transition, and the first start call of an application blocks.)",
  ["schedules", "histories", "configurations"],
  "all callbacks held up for any time, all calls made meanwhile by any number of other threads, both strategies, bounded or not, default or own executor",
  "Tests use callbacks that return at once; a call that waits for a callback of another thread only shows when that callback waits for the caller, and then it hangs.",
  [SM, DS, DD, MC, APP], [("fire and queue", DS + ": processEvent, offer"), ("duplicate check and enqueue", DD + ": processEvent"), ("end", SM + ": updateCurrentState"), ("consumers", MC + ": add, remove, callBackEach"), ("application calls", APP + ": start, stop, error")], [], ["calls return while a callback is held up"])

p("C23", "What is done with is not retained",
  "Memory stays bounded by what still waits: once an event was processed, dropped, rejected, refused before the start or after the end, or discarded because the machine ended, its payload and what its callbacks threw are no longer reachable through the machine, its strategy or the library, however many events went through and however many waited at one time; at most a fixed few of the latest may be remembered. "
  "The same holds for listeners that were removed from a fan-out or replaced on a machine, and for machines, with their strategies, states, contexts and payloads, that nobody refers to any more, whichever builder, configuration object or factory made them.",
  ["histories", "configurations"],
  "all histories of fires, drops, rejections, failures and ends with any backlog, all orders of adding and removing listeners, any number of machines made and dropped",
  "Tests never look at reachability; a leak has no effect on any callback and only shows as memory exhaustion in a process that runs for long.",
  [B + "strategy/EventMachinePairPool.java", B + "strategy/EventMachinePair.java", DS, DD, FA, MC, SM], [("pooling of queued pairs", B + "strategy/EventMachinePairPool.java: take, give"), ("shared default configuration", FA + ": basicConfig"), ("consumers", MC + ": remove")], [("pool", "pairs that may be used again", B + "strategy/EventMachinePairPool.java: pool")], ["reachability of payloads, exceptions, listeners, contexts and machines after a garbage collection"])

with open("/verif/properties.jsonl", "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
