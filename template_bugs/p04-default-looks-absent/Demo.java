import com.bytefacets.collections.hash.IntIntIndexedMap;
public class Demo {
    public static void main(String[] a) {
        IntIntIndexedMap m = new IntIntIndexedMap(4, 0.75);
        m.put(1, 0);
        if (m.getOrDefault(1, 99) != 0) { System.out.println("0 was stored, got " + m.getOrDefault(1, 99)); System.exit(1); }
    }
}
