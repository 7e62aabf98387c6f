import com.bytefacets.collections.hash.IntIntIndexedMap;
import java.util.*;
public class Demo {
    public static void main(String[] a) {
        for (int seed = 0; seed < 200; seed++) {
            Random r = new Random(seed);
            IntIntIndexedMap m = new IntIntIndexedMap(8, 1.0);
            int n = 0;
            for (int i = 0; i < 7; i++) { int k = r.nextInt(); if (!m.containsKey(k)) { m.put(k, k); n++; } }
            int[] seen = {0};
            int want = n;
            m.forEachValue(v -> { m.remove(v); if (seen[0]++ > 100) { System.out.println("endless"); System.exit(1); } });
            if (seen[0] != want || m.size() != 0) { System.out.println("seed " + seed + ": visited " + seen[0] + " of " + want); System.exit(1); }
        }
    }
}
