package vp.core;

import java.util.HashMap;
import java.util.HashSet;
import java.util.Map;
import java.util.Set;
import org.objectweb.asm.ClassReader;
import org.objectweb.asm.ClassVisitor;
import org.objectweb.asm.ClassWriter;
import org.objectweb.asm.FieldVisitor;
import org.objectweb.asm.Label;
import org.objectweb.asm.MethodVisitor;
import org.objectweb.asm.Opcodes;
import org.objectweb.asm.Type;

/** Inserts scheduling points and virtual monitors into the classes under test. */
final class Instr {

  private static final String S = "vp/core/Sched";
  private final Set<String> finals = new HashSet<>();
  /** classes under test that extend Thread */
  private final Set<String> threads = new HashSet<>();
  private final String prefix;

  Instr(String prefix) {
    this.prefix = prefix;
  }

  Map<String, byte[]> all(Map<String, byte[]> in) {
    for (byte[] b : in.values()) {
      ClassReader cr = new ClassReader(b);
      if (cr.getSuperName() != null && cr.getSuperName().equals("java/lang/Thread")) {
        threads.add(cr.getClassName());
      }
      cr.accept(new ClassVisitor(Opcodes.ASM9) {
        @Override
        public FieldVisitor visitField(int access, String name, String d, String s, Object v) {
          if ((access & Opcodes.ACC_FINAL) != 0) {
            finals.add(cr.getClassName() + "." + name);
          }
          return null;
        }
      }, ClassReader.SKIP_CODE);
    }
    Map<String, byte[]> out = new HashMap<>();
    in.forEach((k, v) -> out.put(k, k.startsWith(prefix) ? one(v) : v));
    return out;
  }

  private byte[] one(byte[] b) {
    ClassReader cr = new ClassReader(b);
    ClassWriter cw = new ClassWriter(ClassWriter.COMPUTE_MAXS);
    String cls = cr.getClassName();
    boolean itf = (cr.getAccess() & Opcodes.ACC_INTERFACE) != 0;
    cr.accept(new ClassVisitor(Opcodes.ASM9, cw) {
      @Override
      public void visit(int version, int access, String name, String sig, String superName,
          String[] itfs) {
        super.visit(version, access, name, sig, stand(superName), itfs);
      }

      @Override
      public MethodVisitor visitMethod(int access, String name, String desc, String sig,
          String[] ex) {
        if ((access & Opcodes.ACC_SYNCHRONIZED) != 0 && (access & Opcodes.ACC_NATIVE) == 0) {
          String inner = name + "$vpsync";
          wrapper(cw, cls, itf, access & ~Opcodes.ACC_SYNCHRONIZED, name, desc, sig, ex, inner);
          int a = access & ~(Opcodes.ACC_SYNCHRONIZED | Opcodes.ACC_PUBLIC
              | Opcodes.ACC_PROTECTED | Opcodes.ACC_BRIDGE) | Opcodes.ACC_PRIVATE
              | Opcodes.ACC_SYNTHETIC;
          return new MV(cw.visitMethod(a & ~Opcodes.ACC_FINAL, inner, desc, sig, ex));
        }
        MethodVisitor mv = super.visitMethod(access, name, desc, sig, ex);
        return mv == null ? null : new MV(mv);
      }
    }, ClassReader.EXPAND_FRAMES);
    return cw.toByteArray();
  }

  /** threads and thread pools made by the code under test take part in the schedule */
  private static String stand(String type) {
    if ("java/lang/Thread".equals(type)) {
      return "vp/core/CoopThread";
    }
    if ("java/util/concurrent/ThreadPoolExecutor".equals(type)) {
      return "vp/core/CoopPool";
    }
    return type;
  }

  private static void wrapper(ClassWriter cw, String cls, boolean itf, int access, String name,
      String desc, String sig, String[] ex, String inner) {
    boolean st = (access & Opcodes.ACC_STATIC) != 0;
    MethodVisitor m = cw.visitMethod(access, name, desc, sig, ex);
    m.visitCode();
    Label from = new Label();
    Label to = new Label();
    Label h = new Label();
    m.visitTryCatchBlock(from, to, h, null);
    lockObj(m, st, cls);
    m.visitMethodInsn(Opcodes.INVOKESTATIC, S, "monEnter", "(Ljava/lang/Object;)V", false);
    m.visitLabel(from);
    int slot = 0;
    java.util.List<Object> locals = new java.util.ArrayList<>();
    if (!st) {
      m.visitVarInsn(Opcodes.ALOAD, slot++);
      locals.add(cls);
    }
    for (Type t : Type.getArgumentTypes(desc)) {
      m.visitVarInsn(t.getOpcode(Opcodes.ILOAD), slot);
      slot += t.getSize();
      switch (t.getSort()) {
        case Type.LONG:
          locals.add(Opcodes.LONG);
          break;
        case Type.DOUBLE:
          locals.add(Opcodes.DOUBLE);
          break;
        case Type.FLOAT:
          locals.add(Opcodes.FLOAT);
          break;
        case Type.OBJECT:
        case Type.ARRAY:
          locals.add(t.getInternalName());
          break;
        default:
          locals.add(Opcodes.INTEGER);
      }
    }
    m.visitMethodInsn(st ? Opcodes.INVOKESTATIC : Opcodes.INVOKESPECIAL, cls, inner, desc, itf);
    m.visitLabel(to);
    lockObj(m, st, cls);
    m.visitMethodInsn(Opcodes.INVOKESTATIC, S, "monExit", "(Ljava/lang/Object;)V", false);
    m.visitInsn(Type.getReturnType(desc).getOpcode(Opcodes.IRETURN));
    m.visitLabel(h);
    m.visitFrame(Opcodes.F_NEW, locals.size(), locals.toArray(), 1,
        new Object[]{"java/lang/Throwable"});
    lockObj(m, st, cls);
    m.visitMethodInsn(Opcodes.INVOKESTATIC, S, "monExit", "(Ljava/lang/Object;)V", false);
    m.visitInsn(Opcodes.ATHROW);
    m.visitMaxs(0, 0);
    m.visitEnd();
  }

  private static void lockObj(MethodVisitor m, boolean st, String cls) {
    if (st) {
      m.visitLdcInsn(Type.getObjectType(cls));
    } else {
      m.visitVarInsn(Opcodes.ALOAD, 0);
    }
  }

  private final class MV extends MethodVisitor {

    MV(MethodVisitor mv) {
      super(Opcodes.ASM9, mv);
    }

    private void point() {
      super.visitMethodInsn(Opcodes.INVOKESTATIC, S, "point", "()V", false);
    }

    private void call(String n, String d) {
      super.visitMethodInsn(Opcodes.INVOKESTATIC, S, n, d, false);
    }

    @Override
    public void visitTypeInsn(int op, String type) {
      super.visitTypeInsn(op, op == Opcodes.NEW ? stand(type) : type);
    }

    @Override
    public void visitFieldInsn(int op, String owner, String name, String desc) {
      if (owner.startsWith(prefix) && !finals.contains(owner + "." + name)) {
        point();
      }
      super.visitFieldInsn(op, owner, name, desc);
    }

    @Override
    public void visitInsn(int op) {
      if (op == Opcodes.MONITORENTER) {
        call("monEnter", "(Ljava/lang/Object;)V");
      } else if (op == Opcodes.MONITOREXIT) {
        call("monExit", "(Ljava/lang/Object;)V");
      } else {
        super.visitInsn(op);
      }
    }

    @Override
    public void visitMethodInsn(int op, String o, String n, String d, boolean itf) {
      if (op == Opcodes.INVOKESPECIAL) {
        // constructors, and methods of the superclass
        o = stand(o);
      }
      if (op == Opcodes.INVOKEVIRTUAL && n.equals("start") && d.equals("()V")
          && (o.equals("java/lang/Thread") || threads.contains(o))) {
        super.visitMethodInsn(Opcodes.INVOKESTATIC, "vp/core/CoopThread", "begin",
            "(Ljava/lang/Thread;)V", false);
        return;
      }
      if (op == Opcodes.INVOKESTATIC && o.equals("java/util/concurrent/Executors")) {
        if (n.equals("newSingleThreadExecutor")) {
          call("newSingle", d);
          return;
        }
        if (n.equals("newFixedThreadPool")) {
          call("newFixed", d);
          return;
        }
        if (n.equals("newCachedThreadPool")) {
          call("newCached", d);
          return;
        }
      }
      if (o.equals("java/util/concurrent/CountDownLatch") && n.equals("await")) {
        call("latchAwait", "(L" + o + ";" + d.substring(1));
        return;
      }
      String jc = "java/util/concurrent/";
      if ((o.equals(jc + "Future") || o.equals(jc + "CompletableFuture")
          || o.equals(jc + "FutureTask")) && (n.equals("get") || n.equals("join"))) {
        call(n.equals("join") ? "futureJoin" : "futureGet", "(L" + jc + "Future;"
            + d.substring(1));
        return;
      }
      if (o.equals(jc + "Semaphore") && (n.equals("acquire")
          || n.equals("acquireUninterruptibly")
          || n.equals("tryAcquire") && d.endsWith("TimeUnit;)Z"))) {
        call("sem" + Character.toUpperCase(n.charAt(0)) + n.substring(1), "(L" + o + ";"
            + d.substring(1));
        return;
      }
      if (o.startsWith(jc) && (o.endsWith("BlockingQueue") || o.endsWith("BlockingDeque")) && (
          n.equals("take") || n.equals("put")
              || (n.equals("poll") || n.equals("offer")) && d.contains("TimeUnit;)"))) {
        call("queue" + Character.toUpperCase(n.charAt(0)) + n.substring(1), "(L" + jc
            + "BlockingQueue;" + d.substring(1));
        return;
      }
      if (o.equals("java/lang/Thread")) {
        if (n.equals("sleep") && d.equals("(J)V")) {
          call("sleep", d);
          return;
        }
        if ((n.equals("yield") || n.equals("onSpinWait")) && d.equals("()V")) {
          call("yieldNow", d);
          return;
        }
        if (n.equals("holdsLock")) {
          call("holdsLock", d);
          return;
        }
        if (n.equals("join") && d.equals("()V")) {
          call("joinThread", "(Ljava/lang/Thread;)V");
          return;
        }
      }
      if (o.equals("java/util/concurrent/TimeUnit") && n.equals("sleep")) {
        call("unitSleep", "(Ljava/util/concurrent/TimeUnit;J)V");
        return;
      }
      if (o.equals("java/util/concurrent/locks/LockSupport") && n.equals("parkNanos")
          && d.equals("(J)V")) {
        call("parkNanos", d);
        return;
      }
      if (o.startsWith("java/util/concurrent/locks/") && o.endsWith("Lock")
          && !o.contains("Stamped")) {
        String l = "(Ljava/util/concurrent/locks/Lock;";
        if (n.equals("lock") && d.equals("()V")) {
          call("lockLock", l + ")V");
          return;
        }
        if (n.equals("newCondition")) {
          call("newCondition", l + ")Ljava/util/concurrent/locks/Condition;");
          return;
        }
        if (n.equals("lockInterruptibly")) {
          call("lockLockInterruptibly", l + ")V");
          return;
        }
        if (n.equals("tryLock")) {
          call("lockTryLock", l + d.substring(1));
          return;
        }
        if (n.equals("unlock") && d.equals("()V")) {
          call("lockUnlock", l + ")V");
          return;
        }
      }
      if (op == Opcodes.INVOKEVIRTUAL && n.equals("wait") && d.startsWith("(") && d.endsWith("V")
          && (d.equals("()V") || d.equals("(J)V"))) {
        call("objWait", "(Ljava/lang/Object;" + d.substring(1));
        return;
      }
      if (op == Opcodes.INVOKEVIRTUAL && d.equals("()V") && n.equals("notify")) {
        call("objNotifyOne", "(Ljava/lang/Object;)V");
        return;
      }
      if (op == Opcodes.INVOKEVIRTUAL && d.equals("()V") && n.equals("notifyAll")) {
        call("objNotifyAll", "(Ljava/lang/Object;)V");
        return;
      }
      if (o.equals("java/lang/invoke/VarHandle")) {
        point();
      }
      if (o.startsWith("java/util/") && !n.equals("<init>") && !o.equals("java/util/Objects")
          && !o.equals("java/util/StringJoiner") && !o.startsWith("java/util/function/")) {
        point();
      }
      super.visitMethodInsn(op, o, n, d, itf);
    }
  }
}
