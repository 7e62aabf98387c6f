import com.bytefacets.collections.hash.IntIndexedSet;
import java.util.*;
public class Demo {
    public static void main(String[] a) {
        for (int seed = 0; seed < 300; seed++) {
            Random r = new Random(seed);
            IntIndexedSet s = new IntIndexedSet(2, 0.75);
            Set<Integer> m = new HashSet<>();
            for (int i = 0; i < 40; i++) { int k = r.nextInt(); s.add(k); m.add(k);
                for (int x : m) if (!s.containsKey(x)) { System.out.println("lost " + x + " seed " + seed); System.exit(1); } }
        }
    }
}
