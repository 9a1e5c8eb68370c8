package vp.props;

import com.webotech.statemachine.UnexpectedFlowListener;
import com.webotech.statemachine.api.StateEvent;
import com.webotech.statemachine.api.StateMachine;
import com.webotech.statemachine.strategy.EventProcessingStrategyFactory;
import java.util.concurrent.ConcurrentLinkedQueue;
import vp.core.Ctx;
import vp.core.ManualExec;
import vp.core.Violation;

/** Collaborators put into a Config after strategies were created with it: none may be used. */
final class Decoy {

  private Decoy() {
  }

  static void into(EventProcessingStrategyFactory.Config<Object, Object> k) {
    ManualExec ex = new ManualExec();
    ex.shutdown();
    k.withExecutor(ex).withMaxQueueSize(1).withThreadName("decoy")
        .withEventQueue(new ConcurrentLinkedQueue<>())
        .withUnmappedEventHandler((e, m) -> {
          throw new Violation("an unmapped event went to a handler configured after creation");
        }).withUnexpectedFlowListener(new UnexpectedFlowListener<Object, Object>() {
          @Override
          public void onExceptionDuringEventProcessing(StateEvent<Object> e,
              StateMachine<Object, Object> m, Thread t, Exception x) {
            throw new Violation("an exception went to a listener configured after creation");
          }

          @Override
          public void onEventAfterMachineEnd(StateEvent<Object> e,
              StateMachine<Object, Object> m) {
            throw new Violation("a late event went to a listener configured after creation");
          }

          @Override
          public void onEventBeforeMachineStart(StateEvent<Object> e,
              StateMachine<Object, Object> m) {
            throw new Violation("an early event went to a listener configured after creation");
          }
        });
  }

  /**
   * A strategy is made with other collaborators or another thread name first, which are replaced
   * or taken back then: none may be used by the strategies made from now on.
   */
  static void before(EventProcessingStrategyFactory.Config<Object, Object> k, Ctx c) {
    if (c.d.bool()) {
      into(k);
    } else {
      k.withThreadName(c.d.pick("decoy", "", "x-1"));
    }
    World.strategy(c.d.bool(), k);
    k.withExecutor(null).withMaxQueueSize(-1).withThreadName(null).withEventQueue(null)
        .withUnmappedEventHandler(null).withUnexpectedFlowListener(null);
  }
}
