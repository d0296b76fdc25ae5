// An IEEE-754 double as a first-class TLC value.  TLA+ sees it only through the
// operators declared in spec/RealArith.tla (overridden by RealOverrides).
import tlc2.util.FP64;
import tlc2.value.IValue;
import tlc2.value.IMVPerm;
import tlc2.value.ValueConstants;
import tlc2.value.impl.*;

public class RealValue extends Value {
  public final double v;

  public RealValue(double v) { this.v = v == 0.0 ? 0.0 : v; }

  public byte getKind() { return ValueConstants.DUMMYVALUE; }
  public String getKindString() { return "a real number"; }
  private static double num(Object o) {
    if (o instanceof RealValue) return ((RealValue) o).v;
    if (o instanceof IntValue) return ((IntValue) o).val;
    throw new RuntimeException("Attempted to compare the real number with " + o);
  }
  public int compareTo(Object o) { return Double.compare(v, num(o)); }
  public boolean equals(Object o) {
    if (o instanceof RealValue || o instanceof IntValue) return Double.compare(v, num(o)) == 0;
    return false;
  }
  public boolean member(Value x) { throw new RuntimeException("\\in applied to a real number"); }
  public boolean isFinite() { throw new RuntimeException("a real number is not a set"); }
  public Value takeExcept(ValueExcept ex) { throw new RuntimeException("EXCEPT applied to a real number"); }
  public Value takeExcept(ValueExcept[] ex) { throw new RuntimeException("EXCEPT applied to a real number"); }
  public int size() { throw new RuntimeException("a real number is not a set"); }
  public boolean mutates() { return false; }
  public boolean isNormalized() { return true; }
  public Value normalize() { return this; }
  public boolean isDefined() { return true; }
  public IValue deepCopy() { return this; }
  public boolean assignable(Value x) { return equals(x); }
  public long fingerPrint(long fp) {
    fp = FP64.Extend(fp, 77);
    return FP64.Extend(fp, Double.doubleToLongBits(v));
  }
  public IValue permute(IMVPerm p) { return this; }
  public StringBuffer toString(StringBuffer sb, int offset, boolean swallow) { return sb.append("R(\"").append(v).append("\")"); }
}
