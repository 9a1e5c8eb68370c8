import com.github.javaparser.*;
import com.github.javaparser.ast.*;
import com.github.javaparser.ast.body.*;
import com.github.javaparser.ast.expr.*;
import com.github.javaparser.ast.stmt.*;
import com.github.javaparser.ast.type.*;
import com.github.javaparser.printer.lexicalpreservation.LexicalPreservingPrinter;
import java.nio.file.*;
import java.util.*;
import java.util.function.*;

/** Mutate SRCDIR OUTDIR: writes one file OUTDIR/NNN.mut per mutant: path, line, description, new content. */
public class Mutate {
  static int n;
  static Path out;
  static String rel;
  static String original;

  interface Op { String apply(Node node, int variant); }

  public static void main(String[] a) throws Exception {
    Path src = Paths.get(a[0]);
    out = Paths.get(a[1]);
    Files.createDirectories(out);
    StaticJavaParser.getParserConfiguration().setLanguageLevel(ParserConfiguration.LanguageLevel.JAVA_17);
    List<Path> files = new ArrayList<>();
    try (var s = Files.walk(src)) { s.filter(p -> p.toString().endsWith(".java")).sorted().forEach(files::add); }
    for (Path f : files) {
      rel = src.relativize(f).toString();
      original = Files.readString(f);
      CompilationUnit cu = StaticJavaParser.parse(original);
      int count = cu.findAll(Node.class).size();
      for (int i = 0; i < count; i++) {
        for (int v = 0; v < 6; v++) {
          CompilationUnit c = StaticJavaParser.parse(original);
          Node node = c.findAll(Node.class).get(i);
          int line = node.getBegin().map(p -> p.line).orElse(0);
          String d;
          try { d = mutate(node, v); } catch (RuntimeException e) { d = null; }
          if (d == null) { continue; }
          String text = c.toString();
          Files.writeString(out.resolve(String.format("%04d.mut", n++)), rel + "\n" + line + "\n" + d.replace('\n', ' ') + "\n" + text);
        }
      }
    }
    System.out.println(n + " mutants");
  }

  static String mutate(Node x, int v) {
    if (x instanceof BinaryExpr) {
      BinaryExpr b = (BinaryExpr) x;
      BinaryExpr.Operator[] alt;
      switch (b.getOperator()) {
        case AND: alt = new BinaryExpr.Operator[]{BinaryExpr.Operator.OR}; break;
        case OR: alt = new BinaryExpr.Operator[]{BinaryExpr.Operator.AND}; break;
        case EQUALS: alt = new BinaryExpr.Operator[]{BinaryExpr.Operator.NOT_EQUALS}; break;
        case NOT_EQUALS: alt = new BinaryExpr.Operator[]{BinaryExpr.Operator.EQUALS}; break;
        case LESS: alt = new BinaryExpr.Operator[]{BinaryExpr.Operator.LESS_EQUALS, BinaryExpr.Operator.GREATER_EQUALS}; break;
        case LESS_EQUALS: alt = new BinaryExpr.Operator[]{BinaryExpr.Operator.LESS, BinaryExpr.Operator.GREATER}; break;
        case GREATER: alt = new BinaryExpr.Operator[]{BinaryExpr.Operator.GREATER_EQUALS, BinaryExpr.Operator.LESS_EQUALS}; break;
        case GREATER_EQUALS: alt = new BinaryExpr.Operator[]{BinaryExpr.Operator.GREATER, BinaryExpr.Operator.LESS}; break;
        case PLUS: alt = new BinaryExpr.Operator[]{BinaryExpr.Operator.MINUS}; break;
        case MINUS: alt = new BinaryExpr.Operator[]{BinaryExpr.Operator.PLUS}; break;
        default: return null;
      }
      if (v < alt.length) { String d = b + " -> " + alt[v].asString(); b.setOperator(alt[v]); return d; }
      if ((b.getOperator() == BinaryExpr.Operator.AND || b.getOperator() == BinaryExpr.Operator.OR) && v < 3) {
        String d = b + " -> " + (v == 1 ? "left" : "right"); b.replace(v == 1 ? b.getLeft() : b.getRight()); return d;
      }
      return null;
    }
    if (x instanceof UnaryExpr && v == 0) {
      UnaryExpr u = (UnaryExpr) x;
      if (u.getOperator() == UnaryExpr.Operator.LOGICAL_COMPLEMENT) { String d = u + " -> un-negated"; u.replace(u.getExpression()); return d; }
      if (u.getOperator() == UnaryExpr.Operator.MINUS) { String d = u + " -> no minus"; u.replace(u.getExpression()); return d; }
      return null;
    }
    if (x instanceof IfStmt) {
      IfStmt s = (IfStmt) x;
      if (v == 0) { String d = "negate if " + s.getCondition(); s.setCondition(new UnaryExpr(new EnclosedExpr(s.getCondition()), UnaryExpr.Operator.LOGICAL_COMPLEMENT)); return d; }
      if (v == 1) { String d = "if true: " + s.getCondition(); s.setCondition(new BinaryExpr(new EnclosedExpr(s.getCondition()), new NameExpr("Boolean.parseBoolean(\"true\")"), BinaryExpr.Operator.OR)); return d; }
      if (v == 2) { String d = "if false: " + s.getCondition(); s.setCondition(new BinaryExpr(new EnclosedExpr(s.getCondition()), new NameExpr("Boolean.parseBoolean(\"false\")"), BinaryExpr.Operator.AND)); return d; }
      return null;
    }
    if (x instanceof WhileStmt && v == 0) { WhileStmt s = (WhileStmt) x; String d = "while -> if " + s.getCondition(); s.replace(new IfStmt(s.getCondition(), s.getBody(), null)); return d; }
    if (x instanceof ConditionalExpr && v < 2) { ConditionalExpr e = (ConditionalExpr) x; String d = e + " -> " + (v == 0 ? "then" : "else"); e.replace(v == 0 ? e.getThenExpr() : e.getElseExpr()); return d; }
    if (x instanceof BooleanLiteralExpr && v == 0) { BooleanLiteralExpr b = (BooleanLiteralExpr) x; String d = "flip " + b + " in " + b.getParentNode().orElse(b); b.setValue(!b.getValue()); return d; }
    if (x instanceof IntegerLiteralExpr && v < 2) { IntegerLiteralExpr b = (IntegerLiteralExpr) x; int k = Integer.parseInt(b.getValue()) + (v == 0 ? 1 : -1); String d = b + " -> " + k + " in " + b.getParentNode().orElse(b); b.setValue(String.valueOf(k)); return d; }
    if (x instanceof StringLiteralExpr && v == 0) { StringLiteralExpr s = (StringLiteralExpr) x; String d = "string " + s + " changed"; s.setValue(s.getValue() + "X"); return d; }
    if (x instanceof NullLiteralExpr) return null;
    if (x instanceof ExpressionStmt && v == 0) {
      ExpressionStmt s = (ExpressionStmt) x;
      if (s.getExpression() instanceof VariableDeclarationExpr) return null;
      String d = "remove " + s; s.replace(new EmptyStmt()); return d;
    }
    if (x instanceof ExpressionStmt && v == 1) {
      ExpressionStmt s = (ExpressionStmt) x;
      if (!(s.getExpression() instanceof MethodCallExpr)) return null;
      String d = "twice " + s; BlockStmt b = new BlockStmt(); b.addStatement(s.clone()); b.addStatement(s.clone()); s.replace(b); return d;
    }
    if (x instanceof BlockStmt && v < 1) {
      // swap the first adjacent pair; further pairs via a counter in v is not possible: handled below
      return null;
    }
    if (x instanceof Statement && v == 2 && x.getParentNode().orElse(null) instanceof BlockStmt) {
      BlockStmt b = (BlockStmt) x.getParentNode().get();
      int i = b.getStatements().indexOf(x);
      if (i + 1 >= b.getStatements().size()) return null;
      Statement s1 = b.getStatement(i).clone(); Statement s2 = b.getStatement(i + 1).clone();
      if (s2 instanceof ReturnStmt || s1 instanceof ReturnStmt) return null;
      String d = "swap " + s1 + " and " + s2;
      b.setStatement(i, s2); b.setStatement(i + 1, s1); return d;
    }
    if (x instanceof ReturnStmt && v < 2) {
      ReturnStmt r = (ReturnStmt) x;
      if (r.getExpression().isEmpty()) {
        if (v == 0 && !(r.getParentNode().get() instanceof LambdaExpr)) { String d = "remove return"; r.replace(new EmptyStmt()); return d; }
        return null;
      }
      if (v == 0) { String d = "return null/0/false instead of " + r.getExpression().get();
        MethodDeclaration m = r.findAncestor(MethodDeclaration.class).orElse(null);
        if (m == null || r.findAncestor(LambdaExpr.class).isPresent()) { r.setExpression(new NullLiteralExpr()); return d; }
        String t = m.getType().asString();
        r.setExpression(t.equals("boolean") ? new BooleanLiteralExpr(false) : t.equals("int") ? new IntegerLiteralExpr("0") : new NullLiteralExpr()); return d; }
      MethodDeclaration m = r.findAncestor(MethodDeclaration.class).orElse(null);
      if (m != null && m.getType().asString().equals("boolean")) { String d = "return true instead of " + r.getExpression().get(); r.setExpression(new BooleanLiteralExpr(true)); return d; }
      return null;
    }
    if (x instanceof ThrowStmt && v == 0) { String d = "remove " + x; ((ThrowStmt) x).replace(new EmptyStmt()); return d; }
    if (x instanceof SynchronizedStmt && v < 2) {
      SynchronizedStmt s = (SynchronizedStmt) x; String d = (v == 0 ? "remove synchronized " : "other lock ") + s.getExpression();
      if (v == 0) { s.replace(s.getBody()); } else { s.setExpression(new NameExpr("new Object()")); }
      return d;
    }
    if (x instanceof TryStmt && v < 1) { TryStmt s = (TryStmt) x; if (s.getFinallyBlock().isPresent()) { String d = "remove finally"; if (s.getCatchClauses().isEmpty()) { s.replace(s.getTryBlock()); } else { s.removeFinallyBlock(); } return d; } return null; }
    if (x instanceof CatchClause && v < 3) {
      CatchClause c = (CatchClause) x; String t = c.getParameter().getType().asString();
      if (v == 0 && t.equals("Exception")) { c.getParameter().setType("RuntimeException"); return "catch RuntimeException only"; }
      if (v == 1 && t.equals("Exception")) { c.getParameter().setType("Throwable"); return "catch Throwable"; }
      if (v == 2) { c.setBody(new BlockStmt()); return "empty catch " + t; }
      return null;
    }
    if (x instanceof MethodDeclaration && v == 0) { MethodDeclaration m = (MethodDeclaration) x; if (m.isSynchronized()) { m.setSynchronized(false); return "remove synchronized of " + m.getNameAsString(); } return null; }
    if (x instanceof FieldDeclaration && v < 3) {
      FieldDeclaration f = (FieldDeclaration) x;
      if (v == 0 && f.isVolatile()) { f.setVolatile(false); return "remove volatile of " + f.getVariable(0).getNameAsString(); }
      if (v == 1 && !f.isStatic() && !f.isPublic() && !f.getElementType().isTypeParameter() && f.getVariable(0).getInitializer().isPresent()) { f.setStatic(true); return "static " + f.getVariable(0).getNameAsString(); }
      if (v == 2 && f.isStatic() && !f.isPublic() && !f.getVariable(0).getNameAsString().equals(f.getVariable(0).getNameAsString().toUpperCase())) { f.setStatic(false); return "not static " + f.getVariable(0).getNameAsString(); }
      return null;
    }
    if (x instanceof MethodCallExpr) {
      MethodCallExpr m = (MethodCallExpr) x;
      if (v == 0 && m.getArguments().size() == 2) { String d = "swap arguments of " + m; Expression p = m.getArgument(0).clone(), q = m.getArgument(1).clone(); m.setArgument(0, q); m.setArgument(1, p); return d; }
      if (v == 1 && m.getArguments().size() >= 3) { String d = "swap first and third argument of " + m; Expression p = m.getArgument(0).clone(), q = m.getArgument(2).clone(); m.setArgument(0, q); m.setArgument(2, p); return d; }
      if (v == 2 && m.getArguments().size() >= 3) { String d = "swap second and third argument of " + m; Expression p = m.getArgument(1).clone(), q = m.getArgument(2).clone(); m.setArgument(1, q); m.setArgument(2, p); return d; }
      String nm = m.getNameAsString();
      Map<String, String> alt = new HashMap<>();
      alt.put("putIfAbsent", "put"); alt.put("put", "putIfAbsent"); alt.put("info", "warn"); alt.put("warn", "info"); alt.put("error", "warn");
      alt.put("anyMatch", "allMatch"); alt.put("allMatch", "anyMatch"); alt.put("noneMatch", "anyMatch"); alt.put("poll", "peek"); alt.put("peek", "poll"); alt.put("getAndIncrement", "get"); alt.put("incrementAndGet", "get");
      alt.put("compareAndSet", "weakCompareAndSetPlain"); alt.put("getEndState", "getNoopState"); alt.put("getNoopState", "getEndState"); alt.put("equals", "equalsX"); alt.put("onEntry", "onExit"); alt.put("onExit", "onEntry");
      alt.put("isStarted", "isEnded"); alt.put("isEnded", "isStarted"); alt.put("onStateChangeBegin", "onStateChangeEnd"); alt.put("onStateChangeEnd", "onStateChangeBegin");
      alt.put("onEventBeforeMachineStart", "onEventAfterMachineEnd"); alt.put("onEventAfterMachineEnd", "onEventBeforeMachineStart");
      if (v == 3 && alt.containsKey(nm) && !nm.equals("equals")) { String d = m + " -> " + alt.get(nm); m.setName(alt.get(nm)); return d; }
      if (v == 4 && nm.equals("equals") && m.getScope().isPresent()) { String d = m + " -> =="; m.replace(new EnclosedExpr(new BinaryExpr(m.getScope().get(), m.getArgument(0), BinaryExpr.Operator.EQUALS))); return d; }
      return null;
    }
    if (x instanceof ObjectCreationExpr) {
      ObjectCreationExpr o = (ObjectCreationExpr) x;
      Map<String, String> alt = Map.of("ConcurrentHashMap", "HashMap", "ConcurrentLinkedQueue", "ArrayDeque", "HashMap", "IdentityHashMap");
      String t = o.getType().getNameAsString();
      if (v == 0 && alt.containsKey(t)) { String d = o + " -> " + alt.get(t); o.getType().setName("java.util." + alt.get(t)); return d; }
      if (v == 1 && o.getArguments().size() == 1 && o.getParentNode().get() instanceof MethodCallExpr) { String d = "use argument of " + o; o.replace(o.getArgument(0)); return d; }
      return null;
    }
    if (x instanceof ForEachStmt && v == 0) {
      ForEachStmt f = (ForEachStmt) x; String d = "only first of for " + f.getIterable();
      BlockStmt b = new BlockStmt(); b.addStatement(f.getBody().clone()); b.addStatement(new IfStmt(new NameExpr("Boolean.parseBoolean(\"true\")"), new BreakStmt(), null)); f.setBody(b); return d;
    }
    return null;
  }
}
