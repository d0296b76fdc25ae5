import java.nio.charset.StandardCharsets;
import java.nio.file.*;
import java.util.*;
import java.util.concurrent.ConcurrentHashMap;
import tlc2.overrides.*;
import tlc2.value.impl.*;
import util.UniqueString;

// Java implementations of the operators declared in spec/RealArith.tla.
public class RealOverrides implements ITLCOverrides {
  private static final ConcurrentHashMap<UniqueString, RealValue> LIT = new ConcurrentHashMap<>();

  static double d(Value x) {
    if (x instanceof RealValue) return ((RealValue) x).v;
    if (x instanceof IntValue) return ((IntValue) x).val;
    throw new RuntimeException("real number expected, got " + x);
  }
  static Value r(double v) { return new RealValue(v); }
  static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static TupleValue tup(Value x) {
    if (x instanceof TupleValue) return (TupleValue) x;
    Value t = x.toTuple();
    if (t == null) throw new RuntimeException("sequence expected, got " + x);
    return (TupleValue) t;
  }

  @TLAPlusOperator(identifier = "R", module = "RealArith", warn = false)
  public static Value lit(Value s) {
    UniqueString u = ((StringValue) s).val;
    RealValue x = LIT.get(u);
    if (x == null) {
      String t = u.toString();
      double v = t.equals("inf") ? Double.POSITIVE_INFINITY : t.equals("-inf") ? Double.NEGATIVE_INFINITY
               : t.equals("nan") ? Double.NaN : Double.parseDouble(t);
      x = new RealValue(v);
      LIT.put(u, x);
    }
    return x;
  }
  @TLAPlusOperator(identifier = "\\oplus", module = "RealArith", warn = false)
  public static Value add(Value a, Value b) { return r(d(a) + d(b)); }
  @TLAPlusOperator(identifier = "\\ominus", module = "RealArith", warn = false)
  public static Value sub(Value a, Value b) { return r(d(a) - d(b)); }
  @TLAPlusOperator(identifier = "\\otimes", module = "RealArith", warn = false)
  public static Value mul(Value a, Value b) { return r(d(a) * d(b)); }
  @TLAPlusOperator(identifier = "\\oslash", module = "RealArith", warn = false)
  public static Value div(Value a, Value b) { return r(d(a) / d(b)); }
  @TLAPlusOperator(identifier = "^^", module = "RealArith", warn = false)
  public static Value pow(Value a, Value b) { return r(Math.pow(d(a), d(b))); }
  @TLAPlusOperator(identifier = "\\prec", module = "RealArith", warn = false)
  public static Value lt(Value a, Value b) { return b(d(a) < d(b)); }
  @TLAPlusOperator(identifier = "\\preceq", module = "RealArith", warn = false)
  public static Value le(Value a, Value b) { return b(d(a) <= d(b)); }
  @TLAPlusOperator(identifier = "\\succ", module = "RealArith", warn = false)
  public static Value gt(Value a, Value b) { return b(d(a) > d(b)); }
  @TLAPlusOperator(identifier = "\\succeq", module = "RealArith", warn = false)
  public static Value ge(Value a, Value b) { return b(d(a) >= d(b)); }
  @TLAPlusOperator(identifier = "REq", module = "RealArith", warn = false)
  public static Value eq(Value a, Value b) { return b(d(a) == d(b)); }
  @TLAPlusOperator(identifier = "IsReal", module = "RealArith", warn = false)
  public static Value isReal(Value a) { return b(a instanceof RealValue || a instanceof IntValue); }
  @TLAPlusOperator(identifier = "IsSeq", module = "RealArith", warn = false)
  public static Value isSeq(Value a) { return b(a instanceof TupleValue || (a instanceof FcnRcdValue && a.toTuple() != null)); }
  @TLAPlusOperator(identifier = "RNeg", module = "RealArith", warn = false)
  public static Value neg(Value a) { return r(-d(a)); }
  @TLAPlusOperator(identifier = "RAbs", module = "RealArith", warn = false)
  public static Value abs(Value a) { return r(Math.abs(d(a))); }
  @TLAPlusOperator(identifier = "RExp", module = "RealArith", warn = false)
  public static Value exp(Value a) { return r(Math.exp(d(a))); }
  @TLAPlusOperator(identifier = "RExpm1", module = "RealArith", warn = false)
  public static Value expm1(Value a) { return r(Math.expm1(d(a))); }
  @TLAPlusOperator(identifier = "RLn", module = "RealArith", warn = false)
  public static Value ln(Value a) { return r(Math.log(d(a))); }
  @TLAPlusOperator(identifier = "RLog10", module = "RealArith", warn = false)
  public static Value log10(Value a) { return r(Math.log10(d(a))); }
  @TLAPlusOperator(identifier = "RSqrt", module = "RealArith", warn = false)
  public static Value sqrt(Value a) { return r(Math.sqrt(d(a))); }
  @TLAPlusOperator(identifier = "RSin", module = "RealArith", warn = false)
  public static Value sin(Value a) { return r(Math.sin(d(a))); }
  @TLAPlusOperator(identifier = "RCos", module = "RealArith", warn = false)
  public static Value cos(Value a) { return r(Math.cos(d(a))); }
  @TLAPlusOperator(identifier = "RAcos", module = "RealArith", warn = false)
  public static Value acos(Value a) { return r(Math.acos(d(a))); }
  @TLAPlusOperator(identifier = "RAtan2", module = "RealArith", warn = false)
  public static Value atan2(Value a, Value b) { return r(Math.atan2(d(a), d(b))); }
  @TLAPlusOperator(identifier = "RMin", module = "RealArith", warn = false)
  public static Value min(Value a, Value b) { return r(Math.min(d(a), d(b))); }
  @TLAPlusOperator(identifier = "RMax", module = "RealArith", warn = false)
  public static Value max(Value a, Value b) { return r(Math.max(d(a), d(b))); }
  @TLAPlusOperator(identifier = "IsNaN", module = "RealArith", warn = false)
  public static Value isNaN(Value a) { return b(Double.isNaN(d(a))); }
  @TLAPlusOperator(identifier = "IsFin", module = "RealArith", warn = false)
  public static Value isFin(Value a) { double x = d(a); return b(!Double.isNaN(x) && !Double.isInfinite(x)); }
  @TLAPlusOperator(identifier = "ToReal", module = "RealArith", warn = false)
  public static Value toReal(Value a) { return r(d(a)); }
  @TLAPlusOperator(identifier = "RFloor", module = "RealArith", warn = false)
  public static Value floor(Value a) { return IntValue.gen((int) Math.floor(d(a))); }

  // RSum(s): sum of a sequence of reals (Neumaier-compensated, so independent of evaluation order to ~1 ulp)
  @TLAPlusOperator(identifier = "RSum", module = "RealArith", warn = false)
  public static Value sum(Value s) {
    Value[] e = tup(s).elems;
    double sum = 0, c = 0;
    for (Value x : e) {
      double y = d(x), t = sum + y;
      if (Math.abs(sum) >= Math.abs(y)) c += (sum - t) + y; else c += (y - t) + sum;
      sum = t;
    }
    double res = sum + c;
    return r(Double.isNaN(res) ? sum : res);
  }
  // Tup(s): force a lazily represented function with domain 1..n into an explicit sequence
  @TLAPlusOperator(identifier = "Tup", module = "RealArith", warn = false)
  public static Value tupOp(Value s) { return tup(s); }

  // JsonTrace(file): ints -> Int, other numbers -> Real, arrays -> sequences, objects -> records, null -> "null"
  @TLAPlusOperator(identifier = "JsonTrace", module = "RealArith", warn = false)
  public static Value jsonTrace(Value file) throws Exception {
    String t = new String(Files.readAllBytes(Paths.get(((StringValue) file).val.toString())), StandardCharsets.UTF_8);
    return new P(t).top();
  }

  static final class P {
    final String s; int i = 0;
    P(String s) { this.s = s; }
    Value top() { Value v = val(); ws(); if (i != s.length()) throw err("trailing text"); return v; }
    RuntimeException err(String m) { return new RuntimeException("JSON: " + m + " at " + i); }
    void ws() { while (i < s.length() && s.charAt(i) <= ' ') i++; }
    String str() {
      StringBuilder sb = new StringBuilder(); i++;
      while (s.charAt(i) != '"') {
        char ch = s.charAt(i++);
        if (ch == '\\') {
          char e = s.charAt(i++);
          switch (e) {
            case 'n': sb.append('\n'); break; case 't': sb.append('\t'); break; case 'r': sb.append('\r'); break;
            case 'b': sb.append('\b'); break; case 'f': sb.append('\f'); break;
            case 'u': sb.append((char) Integer.parseInt(s.substring(i, i + 4), 16)); i += 4; break;
            default: sb.append(e);
          }
        } else sb.append(ch);
      }
      i++; return sb.toString();
    }
    boolean lit(String w) { if (s.startsWith(w, i)) { i += w.length(); return true; } return false; }
    Value val() {
      ws(); char ch = s.charAt(i);
      if (ch == '{') {
        i++; TreeMap<String, Value> m = new TreeMap<>(); ws();
        if (s.charAt(i) == '}') { i++; return new RecordValue(new UniqueString[0], new Value[0], false); }
        while (true) {
          ws(); String k = str(); ws(); if (s.charAt(i++) != ':') throw err("':' expected");
          m.put(k, val()); ws(); char e = s.charAt(i++); if (e == '}') break; if (e != ',') throw err("',' expected");
        }
        UniqueString[] n = new UniqueString[m.size()]; Value[] vs = new Value[m.size()]; int j = 0;
        for (Map.Entry<String, Value> e : m.entrySet()) { n[j] = UniqueString.uniqueStringOf(e.getKey()); vs[j++] = e.getValue(); }
        return new RecordValue(n, vs, false).normalize();
      }
      if (ch == '[') {
        i++; ArrayList<Value> l = new ArrayList<>(); ws();
        if (s.charAt(i) == ']') { i++; return new TupleValue(new Value[0]); }
        while (true) { l.add(val()); ws(); char e = s.charAt(i++); if (e == ']') break; if (e != ',') throw err("',' expected"); }
        return new TupleValue(l.toArray(new Value[0]));
      }
      if (ch == '"') return new StringValue(str());
      if (lit("true")) return BoolValue.ValTrue;
      if (lit("false")) return BoolValue.ValFalse;
      if (lit("null")) return new StringValue("null");
      if (lit("NaN")) return r(Double.NaN);
      if (lit("Infinity")) return r(Double.POSITIVE_INFINITY);
      if (lit("-Infinity")) return r(Double.NEGATIVE_INFINITY);
      int st = i; boolean fl = false;
      while (i < s.length() && "+-0123456789.eE".indexOf(s.charAt(i)) >= 0) { char e = s.charAt(i); if (e == '.' || e == 'e' || e == 'E') fl = true; i++; }
      if (st == i) throw err("value expected");
      String n = s.substring(st, i);
      if (!fl) { long L; try { L = Long.parseLong(n); } catch (NumberFormatException x) { return r(Double.parseDouble(n)); }
        if (L >= Integer.MIN_VALUE && L <= Integer.MAX_VALUE) return IntValue.gen((int) L); }
      return r(Double.parseDouble(n));
    }
  }

  @SuppressWarnings("rawtypes")
  @Override
  public Class[] get() { return new Class[] { RealOverrides.class }; }
}
