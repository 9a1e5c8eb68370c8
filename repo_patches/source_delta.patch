From c9bb3ca3c741498a67ec80fbba5293747b18b120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:58 +0000
Subject: [PATCH 01/20] fix: a stop during the initial entry is not undone when
 start completes

---
 .../java/com/webotech/statemachine/GenericStateMachine.java   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/java/com/webotech/statemachine/GenericStateMachine.java b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
index 51b54bb..798e2e2 100644
--- a/src/main/java/com/webotech/statemachine/GenericStateMachine.java
+++ b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
@@ -230,11 +230,11 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
       }
     }
     if (isStarted.compareAndSet(false, true)) {
+      isEnded.set(false);
       currentState = initState;
       notifyStateMachineListener(false, noState, immediateEvent, initState);
       initState.onEntry(immediateEvent, this);
       notifyStateMachineListener(true, noState, immediateEvent, initState);
-      isEnded.set(false);
     } else {
       throw new IllegalStateException("The state machine has already been started");
     }
@@ -259,8 +259,8 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
       throw new IllegalStateException("State [" + state + "] has not been configured");
     }
     if (isStarted.compareAndSet(false, true)) {
-      this.currentState = state;
       isEnded.set(false);
+      this.currentState = state;
     } else {
       throw new IllegalStateException("The state machine has already been started");
     }
-- 
2.43.0


From 1a7bf7f50fc6e8e95ba9f6f4eba8707a6d7b7eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:58 +0000
Subject: [PATCH 02/20] fix: strategies created with the default config do not
 share an event queue

---
 .../strategy/EventProcessingStrategyFactory.java            | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/main/java/com/webotech/statemachine/strategy/EventProcessingStrategyFactory.java b/src/main/java/com/webotech/statemachine/strategy/EventProcessingStrategyFactory.java
index 458d3b7..5b13964 100644
--- a/src/main/java/com/webotech/statemachine/strategy/EventProcessingStrategyFactory.java
+++ b/src/main/java/com/webotech/statemachine/strategy/EventProcessingStrategyFactory.java
@@ -137,10 +137,8 @@ public class EventProcessingStrategyFactory {
     }
 
     Queue<EventMachinePair<T, S>> getEventQueue() {
-      if (eventQueue == null) {
-        eventQueue = new ConcurrentLinkedQueue<>();
-      }
-      return eventQueue;
+      /* A default queue is not kept, strategies created with the same Config don't share it */
+      return eventQueue == null ? new ConcurrentLinkedQueue<>() : eventQueue;
     }
   }
 }
-- 
2.43.0


From f3a08166a94021ad0d053b264bd62689f44c2d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:58 +0000
Subject: [PATCH 03/20] fix: machines built by the same builder do not share a
 default strategy

---
 .../java/com/webotech/statemachine/GenericStateMachine.java | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/main/java/com/webotech/statemachine/GenericStateMachine.java b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
index 798e2e2..7b89c36 100644
--- a/src/main/java/com/webotech/statemachine/GenericStateMachine.java
+++ b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
@@ -364,11 +364,9 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
     }
 
     public GenericStateMachine<T, S> build() {
-      if (eventProcessingStrategy == null) {
-        eventProcessingStrategy = EventProcessingStrategyFactory.createDefaultStrategy();
-      }
       return new GenericStateMachine<>(context, new HashMap<>(), stateMachineListener,
-          eventProcessingStrategy);
+          eventProcessingStrategy == null ? EventProcessingStrategyFactory.createDefaultStrategy()
+              : eventProcessingStrategy);
     }
   }
 }
-- 
2.43.0


From 1554b0e7fa06ba52f195cd4bf148060caba20272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:58 +0000
Subject: [PATCH 04/20] fix: remapping an event that a state already
 transitions on is rejected

---
 .../java/com/webotech/statemachine/GenericStateMachine.java     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/java/com/webotech/statemachine/GenericStateMachine.java b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
index 7b89c36..3a78e44 100644
--- a/src/main/java/com/webotech/statemachine/GenericStateMachine.java
+++ b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
@@ -91,7 +91,7 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
     assertInitStateDefined(true);
     assertMarkedStateDefined(true);
     this.markedEvent = stateEvent;
-    this.states.get(this.markedState).put(this.markedEvent, null);
+    this.states.get(this.markedState).putIfAbsent(this.markedEvent, null);
     return this;
   }
 
-- 
2.43.0


From 8198c8663811f514e7724aaaa1e5645c8e94a029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:58 +0000
Subject: [PATCH 05/20] fix: an event fired without a payload is copied too

---
 .../webotech/statemachine/strategy/DefaultEventStrategy.java    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java b/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
index 3e870db..f95cbd5 100644
--- a/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
+++ b/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
@@ -76,7 +76,7 @@ public class DefaultEventStrategy<T, S> implements EventProcessingStrategy<T, S>
       return;
     }
     EventMachinePair<T, S> inboundPair = this.eventMachinePairPool.take();
-    if (stateEvent.getPayload() != null) {
+    if (stateEvent.getPayload() != null || stateEvent instanceof NamedStateEvent) {
       /* Use a safe copy of the StateEvent in case the client is
         setting different payloads on the same event instance */
       inboundPair.setEventMachinePair(new NamedStateEvent<>(stateEvent), stateMachine);
-- 
2.43.0


From 7c34ccac1c4ed6b017fe7a4aff3c47e9d41c3c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:58 +0000
Subject: [PATCH 06/20] fix: a listener that throws does not prevent the other
 consumers being called back

---
 .../MultiConsumerStateMachineListener.java    | 29 ++++++++++++++++---
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/main/java/com/webotech/statemachine/MultiConsumerStateMachineListener.java b/src/main/java/com/webotech/statemachine/MultiConsumerStateMachineListener.java
index aeaf46d..e284062 100644
--- a/src/main/java/com/webotech/statemachine/MultiConsumerStateMachineListener.java
+++ b/src/main/java/com/webotech/statemachine/MultiConsumerStateMachineListener.java
@@ -10,6 +10,7 @@ import com.webotech.statemachine.api.StateMachineListener;
 import java.util.Map;
 import java.util.Objects;
 import java.util.concurrent.ConcurrentHashMap;
+import java.util.function.Consumer;
 import java.util.stream.Stream;
 
 /**
@@ -45,15 +46,35 @@ public class MultiConsumerStateMachineListener<T, S> implements StateMachineList
 
   @Override
   public void onStateChangeBegin(State<T, S> fromState, StateEvent<S> event, State<T, S> toState) {
-    for (StateMachineListener<T, S> stateMachineListener : consumers.values()) {
-      stateMachineListener.onStateChangeBegin(fromState, event, toState);
-    }
+    callBackEach(consumer -> consumer.onStateChangeBegin(fromState, event, toState));
   }
 
   @Override
   public void onStateChangeEnd(State<T, S> fromState, StateEvent<S> event, State<T, S> toState) {
+    callBackEach(consumer -> consumer.onStateChangeEnd(fromState, event, toState));
+  }
+
+  /**
+   * Calls back every consumer. If any of them throw, what was thrown first is rethrown after all have
+   * been called back.
+   */
+  private void callBackEach(Consumer<StateMachineListener<T, S>> callBack) {
+    Throwable first = null;
     for (StateMachineListener<T, S> stateMachineListener : consumers.values()) {
-      stateMachineListener.onStateChangeEnd(fromState, event, toState);
+      try {
+        callBack.accept(stateMachineListener);
+      } catch (RuntimeException | Error e) {
+        if (first == null) {
+          first = e;
+        } else if (first != e) {
+          first.addSuppressed(e);
+        }
+      }
+    }
+    if (first instanceof Error) {
+      throw (Error) first;
+    } else if (first != null) {
+      throw (RuntimeException) first;
     }
   }
 }
-- 
2.43.0


From d8b770aeb09cdaa050dd2edc967ce61ff3c1491d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:58 +0000
Subject: [PATCH 07/20] fix: start returns when a restartable app is stopped in
 the stopped state

---
 .../webotech/statemachine/service/AbstractAppService.java    | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/main/java/com/webotech/statemachine/service/AbstractAppService.java b/src/main/java/com/webotech/statemachine/service/AbstractAppService.java
index ec4893f..227c3ed 100644
--- a/src/main/java/com/webotech/statemachine/service/AbstractAppService.java
+++ b/src/main/java/com/webotech/statemachine/service/AbstractAppService.java
@@ -101,6 +101,11 @@ public abstract class AbstractAppService<C extends AppContext<C>> implements App
         appLatch.countDown();
       }
     });
+    stopped.appendExitActions((evt, stateMachine) -> {
+      if (LifecycleStateMachineUtil.evtStop.equals(evt)) {
+        appLatch.countDown();
+      }
+    });
 
     LifecycleStateMachineUtil.configureAppStateMachine(appStateMachine, uninitialised, starting,
         started, stopping, stopped);
-- 
2.43.0


From ffc643044b1edbe6a5808d0aea7013386631150a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:58 +0000
Subject: [PATCH 08/20] fix: start does not attempt to stop an app that has
 already stopped

---
 .../com/webotech/statemachine/service/AbstractAppService.java    | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/main/java/com/webotech/statemachine/service/AbstractAppService.java b/src/main/java/com/webotech/statemachine/service/AbstractAppService.java
index 227c3ed..266a690 100644
--- a/src/main/java/com/webotech/statemachine/service/AbstractAppService.java
+++ b/src/main/java/com/webotech/statemachine/service/AbstractAppService.java
@@ -133,7 +133,6 @@ public abstract class AbstractAppService<C extends AppContext<C>> implements App
       } catch (InterruptedException e) {
         logger.error("Main latch was interrupted", e);
         Thread.currentThread().interrupt();
-      } finally {
         if (!appStateMachine.isEnded()) {
           stop();
         }
-- 
2.43.0


From 5a6102bdc527911f1e6121b5b778e9acfaffbba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:58 +0000
Subject: [PATCH 09/20] fix: the end state is not lost when stop is called
 during a transition

---
 .../statemachine/GenericStateMachine.java     | 29 +++++++++++++------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/main/java/com/webotech/statemachine/GenericStateMachine.java b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
index 3a78e44..278b422 100644
--- a/src/main/java/com/webotech/statemachine/GenericStateMachine.java
+++ b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
@@ -229,9 +229,7 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
         }
       }
     }
-    if (isStarted.compareAndSet(false, true)) {
-      isEnded.set(false);
-      currentState = initState;
+    if (startFrom(initState)) {
       notifyStateMachineListener(false, noState, immediateEvent, initState);
       initState.onEntry(immediateEvent, this);
       notifyStateMachineListener(true, noState, immediateEvent, initState);
@@ -258,14 +256,23 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
     if (!states.containsKey(state)) {
       throw new IllegalStateException("State [" + state + "] has not been configured");
     }
-    if (isStarted.compareAndSet(false, true)) {
-      isEnded.set(false);
-      this.currentState = state;
-    } else {
+    if (!startFrom(state)) {
       throw new IllegalStateException("The state machine has already been started");
     }
   }
 
+  private boolean startFrom(State<T, S> state) {
+    synchronized (isEnded) {
+      if (isStarted()) {
+        return false;
+      }
+      isEnded.set(false);
+      currentState = state;
+      isStarted.set(true);
+      return true;
+    }
+  }
+
   @Override
   public boolean isStarted() {
     return isStarted.get();
@@ -316,8 +323,12 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
   }
 
   public void updateCurrentState(State<T, S> state) {
-    if (isEnded.compareAndSet(false, state.equals(endState))) {
-      currentState = state;
+    /* The current state and ended flag have to change together, stop may be called concurrently */
+    synchronized (isEnded) {
+      if (!isEnded.get()) {
+        currentState = state;
+        isEnded.set(state.equals(endState));
+      }
     }
   }
 
-- 
2.43.0


From ac7d9d7846b598f0586f8522c320793ba247ccc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:58 +0000
Subject: [PATCH 10/20] fix: events are not processed until the initial
 transition has completed

---
 .../com/webotech/statemachine/GenericStateMachine.java     | 4 ++--
 .../statemachine/strategy/DefaultEventStrategy.java        | 7 +++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/main/java/com/webotech/statemachine/GenericStateMachine.java b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
index 278b422..5a640bd 100644
--- a/src/main/java/com/webotech/statemachine/GenericStateMachine.java
+++ b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
@@ -213,7 +213,7 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
   }
 
   @Override
-  public void start() {
+  public synchronized void start() {
     assertInitStateDefined(true);
     if (this.states.isEmpty()) {
       throw new IllegalStateException(
@@ -252,7 +252,7 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
   }
 
   @Override
-  public void startInState(State<T, S> state) {
+  public synchronized void startInState(State<T, S> state) {
     if (!states.containsKey(state)) {
       throw new IllegalStateException("State [" + state + "] has not been configured");
     }
diff --git a/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java b/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
index f95cbd5..592ec3b 100644
--- a/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
+++ b/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
@@ -90,8 +90,11 @@ public class DefaultEventStrategy<T, S> implements EventProcessingStrategy<T, S>
         StateEvent<S> event = consumedPair.getStateEvent();
         GenericStateMachine<T, S> machine = consumedPair.getStateMachine();
         try {
-          if (!stateMachine.isEnded()) {
-            transitionTask.execute(event, machine);
+          /* A transition is atomic, so is the initial one that happens on the thread that starts */
+          synchronized (stateMachine) {
+            if (!stateMachine.isEnded()) {
+              transitionTask.execute(event, machine);
+            }
           }
         } catch (Exception e) {
           unexpectedFlowListener.onExceptionDuringEventProcessing(event, machine,
-- 
2.43.0


From dbb88165e7b515b91a53c01250f351ed4639d72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:58 +0000
Subject: [PATCH 11/20] fix: events are processed one at a time and in order if
 the executor has many threads

---
 .../strategy/DefaultEventStrategy.java        | 43 +++++++++++--------
 1 file changed, 26 insertions(+), 17 deletions(-)

diff --git a/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java b/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
index 592ec3b..26d0122 100644
--- a/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
+++ b/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
@@ -85,27 +85,36 @@ public class DefaultEventStrategy<T, S> implements EventProcessingStrategy<T, S>
     }
     eventQueue.offer(inboundPair);
     executor.execute(() -> {
-      while (!eventQueue.isEmpty()) {
-        EventMachinePair<T, S> consumedPair = eventQueue.poll();
-        StateEvent<S> event = consumedPair.getStateEvent();
-        GenericStateMachine<T, S> machine = consumedPair.getStateMachine();
-        try {
-          /* A transition is atomic, so is the initial one that happens on the thread that starts */
-          synchronized (stateMachine) {
-            if (!stateMachine.isEnded()) {
-              transitionTask.execute(event, machine);
-            }
-          }
-        } catch (Exception e) {
-          unexpectedFlowListener.onExceptionDuringEventProcessing(event, machine,
-              Thread.currentThread(), e);
-        } finally {
-          eventMachinePairPool.give(consumedPair);
-        }
+      while (processNextEvent(stateMachine)) {
+        // process all queued events
       }
     });
   }
 
+  private boolean processNextEvent(GenericStateMachine<T, S> stateMachine) {
+    /* A transition is atomic, so is the initial one that happens on the thread that starts. Events
+     * are taken off the queue in here so that their order is kept if executor has many threads */
+    synchronized (stateMachine) {
+      EventMachinePair<T, S> consumedPair = eventQueue.poll();
+      if (consumedPair == null) {
+        return false;
+      }
+      StateEvent<S> event = consumedPair.getStateEvent();
+      GenericStateMachine<T, S> machine = consumedPair.getStateMachine();
+      try {
+        if (!stateMachine.isEnded()) {
+          transitionTask.execute(event, machine);
+        }
+      } catch (Exception e) {
+        unexpectedFlowListener.onExceptionDuringEventProcessing(event, machine,
+            Thread.currentThread(), e);
+      } finally {
+        eventMachinePairPool.give(consumedPair);
+      }
+      return true;
+    }
+  }
+
   @Override
   public void setStates(Map<State<T, S>, Map<StateEvent<S>, State<T, S>>> states) {
     this.transitionTask.setStates(states);
-- 
2.43.0


From 7febff73f159648df5c4cf7a69d1e6a12d0d33fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:59 +0000
Subject: [PATCH 12/20] fix: the maximum queue size is not exceeded when events
 are fired concurrently

---
 .../strategy/DefaultEventStrategy.java        | 29 ++++++++++++++++---
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java b/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
index 26d0122..8b1d566 100644
--- a/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
+++ b/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
@@ -68,13 +68,31 @@ public class DefaultEventStrategy<T, S> implements EventProcessingStrategy<T, S>
 
   @Override
   public void processEvent(StateEvent<S> stateEvent, GenericStateMachine<T, S> stateMachine) {
-    int queueSize = getEventQueueSize();
-    if (maxQueueSize > 0 && queueSize >= maxQueueSize) {
+    if (offer(stateEvent, stateMachine)) {
+      process(stateMachine);
+    } else {
       unexpectedFlowListener.onExceptionDuringEventProcessing(stateEvent, stateMachine,
           Thread.currentThread(), new IllegalStateException(
-              String.format("Queue size is maxed out at %s - dropping event", queueSize)));
-      return;
+              String.format("Queue size is maxed out at %s - dropping event", maxQueueSize)));
     }
+  }
+
+  private boolean offer(StateEvent<S> stateEvent, GenericStateMachine<T, S> stateMachine) {
+    if (maxQueueSize <= 0) {
+      enqueue(stateEvent, stateMachine);
+      return true;
+    }
+    /* Events can be fired concurrently, the check and the enqueue have to be atomic */
+    synchronized (eventQueue) {
+      if (getEventQueueSize() >= maxQueueSize) {
+        return false;
+      }
+      enqueue(stateEvent, stateMachine);
+      return true;
+    }
+  }
+
+  private void enqueue(StateEvent<S> stateEvent, GenericStateMachine<T, S> stateMachine) {
     EventMachinePair<T, S> inboundPair = this.eventMachinePairPool.take();
     if (stateEvent.getPayload() != null || stateEvent instanceof NamedStateEvent) {
       /* Use a safe copy of the StateEvent in case the client is
@@ -84,6 +102,9 @@ public class DefaultEventStrategy<T, S> implements EventProcessingStrategy<T, S>
       inboundPair.setEventMachinePair(stateEvent, stateMachine);
     }
     eventQueue.offer(inboundPair);
+  }
+
+  private void process(GenericStateMachine<T, S> stateMachine) {
     executor.execute(() -> {
       while (processNextEvent(stateMachine)) {
         // process all queued events
-- 
2.43.0


From e1541d320e7561207a908bde3d61a19724d72e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:59 +0000
Subject: [PATCH 13/20] fix: duplicate events that are fired concurrently are
 dropped

---
 .../strategy/DefaultEventStrategy.java          | 17 +++++++++++++++--
 .../strategy/DropDuplicateEventStrategy.java    | 15 ++++++++++++---
 2 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java b/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
index 8b1d566..bc93ebd 100644
--- a/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
+++ b/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
@@ -68,7 +68,15 @@ public class DefaultEventStrategy<T, S> implements EventProcessingStrategy<T, S>
 
   @Override
   public void processEvent(StateEvent<S> stateEvent, GenericStateMachine<T, S> stateMachine) {
-    if (offer(stateEvent, stateMachine)) {
+    processIfOffered(offer(stateEvent, stateMachine), stateEvent, stateMachine);
+  }
+
+  /**
+   * Completes the processing of an event after the attempt to {@link #offer} it to the queue.
+   */
+  void processIfOffered(boolean isOffered, StateEvent<S> stateEvent,
+      GenericStateMachine<T, S> stateMachine) {
+    if (isOffered) {
       process(stateMachine);
     } else {
       unexpectedFlowListener.onExceptionDuringEventProcessing(stateEvent, stateMachine,
@@ -77,7 +85,12 @@ public class DefaultEventStrategy<T, S> implements EventProcessingStrategy<T, S>
     }
   }
 
-  private boolean offer(StateEvent<S> stateEvent, GenericStateMachine<T, S> stateMachine) {
+  /**
+   * Adds the event to the queue, nothing is called back and no processing is triggered.
+   *
+   * @return false if the queue is full.
+   */
+  boolean offer(StateEvent<S> stateEvent, GenericStateMachine<T, S> stateMachine) {
     if (maxQueueSize <= 0) {
       enqueue(stateEvent, stateMachine);
       return true;
diff --git a/src/main/java/com/webotech/statemachine/strategy/DropDuplicateEventStrategy.java b/src/main/java/com/webotech/statemachine/strategy/DropDuplicateEventStrategy.java
index 2abcb94..7ab4267 100644
--- a/src/main/java/com/webotech/statemachine/strategy/DropDuplicateEventStrategy.java
+++ b/src/main/java/com/webotech/statemachine/strategy/DropDuplicateEventStrategy.java
@@ -42,11 +42,20 @@ public class DropDuplicateEventStrategy<T, S> implements EventProcessingStrategy
   @Override
   public void processEvent(StateEvent<S> stateEvent, GenericStateMachine<T, S> stateMachine) {
     Queue<EventMachinePair<T, S>> eventQueue = defaultStrategy.getEventQueue();
-    if (eventQueue.stream().anyMatch(en -> en.getStateEvent().equals(stateEvent))) {
+    boolean isDuplicate;
+    boolean isOffered = false;
+    /* Events can be fired concurrently, the check and the enqueue have to be atomic */
+    synchronized (eventQueue) {
+      isDuplicate = eventQueue.stream().anyMatch(en -> en.getStateEvent().equals(stateEvent));
+      if (!isDuplicate) {
+        isOffered = defaultStrategy.offer(stateEvent, stateMachine);
+      }
+    }
+    if (isDuplicate) {
       logger.info(EVENT_ALREADY_IN_QUEUE_WILL_DROP_IT, stateEvent);
-      return;
+    } else {
+      defaultStrategy.processIfOffered(isOffered, stateEvent, stateMachine);
     }
-    defaultStrategy.processEvent(stateEvent, stateMachine);
   }
 
   @Override
-- 
2.43.0


From 9f20db7be4ce03e7a865dff5e4fb9965fef01e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:59 +0000
Subject: [PATCH 14/20] fix: the current state is visible to all threads

---
 .../java/com/webotech/statemachine/GenericStateMachine.java     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/java/com/webotech/statemachine/GenericStateMachine.java b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
index 5a640bd..dae3784 100644
--- a/src/main/java/com/webotech/statemachine/GenericStateMachine.java
+++ b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
@@ -41,7 +41,7 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
   private State<T, S> initState;
   private State<T, S> markedState;
   private StateEvent<S> markedEvent;
-  private State<T, S> currentState;
+  private volatile State<T, S> currentState;
 
   private GenericStateMachine(T context, Map<State<T, S>, Map<StateEvent<S>, State<T, S>>> states,
       StateMachineListener<T, S> stateMachineListener,
-- 
2.43.0


From b0150984e28430598f4549642ca0beca91d6ab85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:59 +0000
Subject: [PATCH 15/20] fix: a machine whose initial state immediately ends
 does end when it is started

---
 .../java/com/webotech/statemachine/GenericStateMachine.java    | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main/java/com/webotech/statemachine/GenericStateMachine.java b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
index dae3784..483bd42 100644
--- a/src/main/java/com/webotech/statemachine/GenericStateMachine.java
+++ b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
@@ -233,6 +233,9 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
       notifyStateMachineListener(false, noState, immediateEvent, initState);
       initState.onEntry(immediateEvent, this);
       notifyStateMachineListener(true, noState, immediateEvent, initState);
+      if (endState.equals(states.get(initState).get(immediateEvent))) {
+        stop();
+      }
     } else {
       throw new IllegalStateException("The state machine has already been started");
     }
-- 
2.43.0


From a707db2ec8106e0c2d43127b842f6c88a391937b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:14 +0000
Subject: [PATCH 16/20] fix: a listener that throws an undeclared checked
 exception does not prevent the other consumers being called back

---
 .../MultiConsumerStateMachineListener.java         | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/main/java/com/webotech/statemachine/MultiConsumerStateMachineListener.java b/src/main/java/com/webotech/statemachine/MultiConsumerStateMachineListener.java
index e284062..f040ea9 100644
--- a/src/main/java/com/webotech/statemachine/MultiConsumerStateMachineListener.java
+++ b/src/main/java/com/webotech/statemachine/MultiConsumerStateMachineListener.java
@@ -63,7 +63,8 @@ public class MultiConsumerStateMachineListener<T, S> implements StateMachineList
     for (StateMachineListener<T, S> stateMachineListener : consumers.values()) {
       try {
         callBack.accept(stateMachineListener);
-      } catch (RuntimeException | Error e) {
+      } catch (Throwable e) {
+        // a checked exception may be thrown too, without being declared
         if (first == null) {
           first = e;
         } else if (first != e) {
@@ -71,10 +72,13 @@ public class MultiConsumerStateMachineListener<T, S> implements StateMachineList
         }
       }
     }
-    if (first instanceof Error) {
-      throw (Error) first;
-    } else if (first != null) {
-      throw (RuntimeException) first;
+    if (first != null) {
+      rethrow(first);
     }
   }
+
+  @SuppressWarnings("unchecked")
+  private static <E extends Throwable> void rethrow(Throwable throwable) throws E {
+    throw (E) throwable;
+  }
 }
-- 
2.43.0


From 4e3a6fe3b61877a580b215f268a2e37842c62c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:52 +0000
Subject: [PATCH 17/20] fix: the listener can be replaced or removed while
 events are processed

---
 .../com/webotech/statemachine/GenericStateMachine.java | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/main/java/com/webotech/statemachine/GenericStateMachine.java b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
index 483bd42..419612f 100644
--- a/src/main/java/com/webotech/statemachine/GenericStateMachine.java
+++ b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
@@ -37,7 +37,7 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
   private final T context;
   private final EventProcessingStrategy<T, S> eventProcessingStrategy;
   private final UnexpectedFlowListener<T, S> unexpectedFlowListener;
-  private StateMachineListener<T, S> stateMachineListener;
+  private volatile StateMachineListener<T, S> stateMachineListener;
   private State<T, S> initState;
   private State<T, S> markedState;
   private StateEvent<S> markedEvent;
@@ -186,7 +186,9 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
 
   public void notifyStateMachineListener(boolean isComplete, State<T, S> fromState,
       StateEvent<S> stateEvent, State<T, S> toState) {
-    if (this.stateMachineListener != null) {
+    /* The listener may be replaced or removed concurrently */
+    StateMachineListener<T, S> listener = this.stateMachineListener;
+    if (listener != null) {
       if (fromState == null) {
         fromState = this.noState;
       }
@@ -197,9 +199,9 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
         stateEvent = this.immediateEvent;
       }
       if (isComplete) {
-        this.stateMachineListener.onStateChangeEnd(fromState, stateEvent, toState);
+        listener.onStateChangeEnd(fromState, stateEvent, toState);
       } else {
-        this.stateMachineListener.onStateChangeBegin(fromState, stateEvent, toState);
+        listener.onStateChangeBegin(fromState, stateEvent, toState);
       }
     }
   }
-- 
2.43.0


From 780a3b2f539ac03b0936910c115de777a7e9606e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:18 +0000
Subject: [PATCH 18/20] fix: a pair given back to the pool is reset, events
 that were processed are not retained

---
 .../statemachine/strategy/DropDuplicateEventStrategy.java     | 4 +++-
 .../webotech/statemachine/strategy/EventMachinePairPool.java  | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main/java/com/webotech/statemachine/strategy/DropDuplicateEventStrategy.java b/src/main/java/com/webotech/statemachine/strategy/DropDuplicateEventStrategy.java
index 7ab4267..3096912 100644
--- a/src/main/java/com/webotech/statemachine/strategy/DropDuplicateEventStrategy.java
+++ b/src/main/java/com/webotech/statemachine/strategy/DropDuplicateEventStrategy.java
@@ -46,7 +46,9 @@ public class DropDuplicateEventStrategy<T, S> implements EventProcessingStrategy
     boolean isOffered = false;
     /* Events can be fired concurrently, the check and the enqueue have to be atomic */
     synchronized (eventQueue) {
-      isDuplicate = eventQueue.stream().anyMatch(en -> en.getStateEvent().equals(stateEvent));
+      /* A pair that is taken off the queue meanwhile may have been reset */
+      isDuplicate = eventQueue.stream().map(EventMachinePair::getStateEvent)
+          .anyMatch(queued -> queued != null && queued.equals(stateEvent));
       if (!isDuplicate) {
         isOffered = defaultStrategy.offer(stateEvent, stateMachine);
       }
diff --git a/src/main/java/com/webotech/statemachine/strategy/EventMachinePairPool.java b/src/main/java/com/webotech/statemachine/strategy/EventMachinePairPool.java
index 6a2f4bd..0188fbe 100644
--- a/src/main/java/com/webotech/statemachine/strategy/EventMachinePairPool.java
+++ b/src/main/java/com/webotech/statemachine/strategy/EventMachinePairPool.java
@@ -30,6 +30,7 @@ public class EventMachinePairPool<T, S> {
    */
   void give(EventMachinePair<T, S> eventMachinePair) {
     if (eventMachinePair != null) {
+      eventMachinePair.setEventMachinePair(null, null);
       pool.offer(eventMachinePair);
     }
   }
-- 
2.43.0


From b8b6376f712a4312072627bd709c403c214559f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:18 +0000
Subject: [PATCH 19/20] fix: a thread name configured after a strategy was
 created is used for the next one

The default executor was kept in the field of the configured one: once a
strategy had been created with a Config, withThreadName had no effect on the
strategies created later.
---
 .../strategy/EventProcessingStrategyFactory.java     | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/main/java/com/webotech/statemachine/strategy/EventProcessingStrategyFactory.java b/src/main/java/com/webotech/statemachine/strategy/EventProcessingStrategyFactory.java
index 5b13964..8a01993 100644
--- a/src/main/java/com/webotech/statemachine/strategy/EventProcessingStrategyFactory.java
+++ b/src/main/java/com/webotech/statemachine/strategy/EventProcessingStrategyFactory.java
@@ -62,6 +62,7 @@ public class EventProcessingStrategyFactory {
     private static final String LOG_UNHANDLED_EXCEPTION = "Unhandled exception in thread {}";
     private BiConsumer<StateEvent<S>, StateMachine<T, S>> unmappedEventHandler;
     private ExecutorService executor;
+    private ExecutorService defaultExecutor;
     private UnexpectedFlowListener<T, S> unexpectedFlowListener;
     private int maxQueueSize = -1;
     private String threadName;
@@ -101,6 +102,8 @@ public class EventProcessingStrategyFactory {
 
     public Config<T, S> withThreadName(String threadName) {
       this.threadName = threadName;
+      /* The thread of a default executor that was created before has another name */
+      this.defaultExecutor = null;
       return this;
     }
 
@@ -113,12 +116,15 @@ public class EventProcessingStrategyFactory {
     }
 
     ExecutorService getExecutor() {
-      if (executor == null) {
-        executor = Executors.newSingleThreadExecutor(
+      if (executor != null) {
+        return executor;
+      }
+      if (defaultExecutor == null) {
+        defaultExecutor = Executors.newSingleThreadExecutor(
             Threads.newNamedDaemonThreadFactory(threadName == null ? "state-machine" : threadName,
                 (t, e) -> logger.error(LOG_UNHANDLED_EXCEPTION, t.getName(), e)));
       }
-      return executor;
+      return defaultExecutor;
     }
 
     UnexpectedFlowListener<T, S> getUnexpectedFlowListener() {
-- 
2.43.0


From 3f9eb4d932de9417ede3e127a1f1285fe018d432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:44 +0000
Subject: [PATCH 20/20] fix: a machine cannot be started in a reserved state

---
 src/main/java/com/webotech/statemachine/GenericStateMachine.java | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main/java/com/webotech/statemachine/GenericStateMachine.java b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
index 419612f..6e52875 100644
--- a/src/main/java/com/webotech/statemachine/GenericStateMachine.java
+++ b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
@@ -261,6 +261,7 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
     if (!states.containsKey(state)) {
       throw new IllegalStateException("State [" + state + "] has not been configured");
     }
+    assertNotReservedState(state);
     if (!startFrom(state)) {
       throw new IllegalStateException("The state machine has already been started");
     }
-- 
2.43.0

