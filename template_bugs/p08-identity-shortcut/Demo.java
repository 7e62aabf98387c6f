import com.bytefacets.collections.hash.DoubleIndexedSet;
public class Demo {
    public static void main(String[] a) {
        DoubleIndexedSet s = new DoubleIndexedSet(8, 0.75);
        s.setHashMethod(d -> 1);
        s.setEqMethod((x, y) -> Double.doubleToRawLongBits(x) == Double.doubleToRawLongBits(y));
        s.add(0.0);
        if (s.containsKey(-0.0)) { System.out.println("-0.0 is not in the set under this equality"); System.exit(1); }
    }
}
