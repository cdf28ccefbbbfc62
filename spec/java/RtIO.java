import java.io.*;
import java.nio.charset.StandardCharsets;
import java.nio.file.*;
import java.util.*;
import java.util.concurrent.ConcurrentHashMap;
import java.util.concurrent.atomic.LongAdder;
import tlc2.value.impl.*;
import util.UniqueString;

/** Output of behaviours and input of recorded traces, see RtIO.tla. */
public class RtIO {
  static PrintStream out;
  static final ConcurrentHashMap<String, LongAdder> counters = new ConcurrentHashMap<>();
  static Value traces;

  static {
    Runtime.getRuntime().addShutdownHook(new Thread(() -> {
      synchronized (RtIO.class) {
        if (out != null) out.flush();
        String f = System.getenv("RT_OUT");
        if (f != null && !counters.isEmpty()) {
          try (PrintStream c = new PrintStream(f + ".counters", "UTF-8")) {
            StringBuilder b = new StringBuilder("{");
            for (Map.Entry<String, LongAdder> e : counters.entrySet()) {
              if (b.length() > 1) b.append(",");
              str(b, e.getKey()); b.append(":").append(e.getValue().sum());
            }
            c.println(b.append("}"));
          } catch (IOException e) { /* the driver notices the missing file */ }
        }
      }
    }));
  }

  static void str(StringBuilder b, String s) {
    b.append('"');
    for (int i = 0; i < s.length(); i++) {
      char c = s.charAt(i);
      if (c == '"' || c == '\\') b.append('\\').append(c);
      else if (c == '\n') b.append("\\n");
      else if (c < 32) b.append(String.format("\\u%04x", (int) c));
      else b.append(c);
    }
    b.append('"');
  }

  static void json(StringBuilder b, Value v) {
    if (v instanceof StringValue) { str(b, ((StringValue) v).getVal().toString()); return; }
    if (v instanceof IntValue || v instanceof BoolValue) { b.append(v.toString().toLowerCase()); return; }
    if (v instanceof TupleValue) {
      b.append('[');
      Value[] e = ((TupleValue) v).elems;
      for (int i = 0; i < e.length; i++) { if (i > 0) b.append(','); json(b, e[i]); }
      b.append(']');
      return;
    }
    if (v instanceof RecordValue) {
      RecordValue r = (RecordValue) v;
      b.append('{');
      for (int i = 0; i < r.names.length; i++) {
        if (i > 0) b.append(',');
        str(b, r.names[i].toString()); b.append(':'); json(b, r.values[i]);
      }
      b.append('}');
      return;
    }
    if (v instanceof FcnRcdValue || v instanceof FcnLambdaValue) {
      FcnRcdValue f = (FcnRcdValue) v.toFcnRcd();
      f.normalize();
      Value[] dom = f.getDomainAsValues();
      boolean ints = dom.length > 0;
      for (int i = 0; i < dom.length && ints; i++) ints = dom[i] instanceof IntValue && ((IntValue) dom[i]).val == i + 1;
      b.append(ints ? '[' : '{');
      for (int i = 0; i < dom.length; i++) {
        if (i > 0) b.append(',');
        if (!ints) { str(b, dom[i] instanceof StringValue ? ((StringValue) dom[i]).getVal().toString() : dom[i].toString()); b.append(':'); }
        json(b, f.values[i]);
      }
      b.append(ints ? ']' : '}');
      return;
    }
    if (v instanceof SetEnumValue || v instanceof tlc2.value.impl.Enumerable) {
      Value s = v.toSetEnum();
      ((SetEnumValue) s).normalize();
      b.append('[');
      ValueVec e = ((SetEnumValue) s).elems;
      for (int i = 0; i < e.size(); i++) { if (i > 0) b.append(','); json(b, e.elementAt(i)); }
      b.append(']');
      return;
    }
    str(b, v.toString());
  }

  public static Value Emit(final Value v) throws IOException {
    StringBuilder b = new StringBuilder(256);
    json(b, v);
    b.append('\n');
    synchronized (RtIO.class) {
      if (out == null) {
        String f = System.getenv("RT_OUT");
        if (f == null) throw new IOException("RT_OUT is not set");
        out = new PrintStream(new BufferedOutputStream(new FileOutputStream(f), 1 << 20), false, "UTF-8");
      }
      out.print(b);
    }
    return BoolValue.ValTrue;
  }

  public static Value StrLt(final Value a, final Value b) {
    return ((StringValue) a).getVal().toString().compareTo(((StringValue) b).getVal().toString()) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
  }

  public static Value Count(final Value k) {
    counters.computeIfAbsent(((StringValue) k).getVal().toString(), x -> new LongAdder()).increment();
    return BoolValue.ValTrue;
  }

  public static Value EnvI(final Value n, final Value d) {
    String s = System.getenv(((StringValue) n).getVal().toString());
    return s == null || s.isEmpty() ? d : IntValue.gen(Integer.parseInt(s));
  }
  public static Value Env(final Value n, final Value d) {
    String s = System.getenv(((StringValue) n).getVal().toString());
    return s == null || s.isEmpty() ? d : new StringValue(s);
  }

  // ---- a small JSON reader: objects are records, arrays are tuples, integers and strings
  static final class P {
    final String s; int i = 0;
    P(String s) { this.s = s; }
    void ws() { while (i < s.length() && s.charAt(i) <= ' ') i++; }
    Value val() {
      ws();
      char c = s.charAt(i);
      if (c == '{') {
        i++; ws();
        ArrayList<UniqueString> ns = new ArrayList<>(); ArrayList<Value> vs = new ArrayList<>();
        while (s.charAt(i) != '}') {
          ws(); String k = string(); ws(); i++; // colon
          ns.add(UniqueString.uniqueStringOf(k)); vs.add(val()); ws();
          if (s.charAt(i) == ',') { i++; ws(); }
        }
        i++;
        return new RecordValue(ns.toArray(new UniqueString[0]), vs.toArray(new Value[0]), false);
      }
      if (c == '[') {
        i++; ws();
        ArrayList<Value> vs = new ArrayList<>();
        while (s.charAt(i) != ']') { vs.add(val()); ws(); if (s.charAt(i) == ',') { i++; ws(); } }
        i++;
        return new TupleValue(vs.toArray(new Value[0]));
      }
      if (c == '"') return new StringValue(string());
      if (s.startsWith("true", i)) { i += 4; return BoolValue.ValTrue; }
      if (s.startsWith("false", i)) { i += 5; return BoolValue.ValFalse; }
      int j = i;
      while (i < s.length() && "+-.eE0123456789".indexOf(s.charAt(i)) >= 0) i++;
      return IntValue.gen(Integer.parseInt(s.substring(j, i)));
    }
    String string() {
      StringBuilder b = new StringBuilder(); i++;
      while (s.charAt(i) != '"') {
        char c = s.charAt(i++);
        if (c == '\\') {
          c = s.charAt(i++);
          if (c == 'n') c = '\n'; else if (c == 't') c = '\t';
          else if (c == 'u') { c = (char) Integer.parseInt(s.substring(i, i + 4), 16); i += 4; }
        }
        b.append(c);
      }
      i++;
      return b.toString();
    }
  }

  public static synchronized Value Traces() throws IOException {
    if (traces == null) {
      ArrayList<Value> vs = new ArrayList<>();
      for (String l : Files.readAllLines(Paths.get(System.getenv("RT_IN")), StandardCharsets.UTF_8))
        if (!l.trim().isEmpty()) vs.add(new P(l).val());
      Value t = new TupleValue(vs.toArray(new Value[0]));
      t.deepNormalize();
      traces = t;
    }
    return traces;
  }
}
