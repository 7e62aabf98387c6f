import com.bytefacets.collections.heap.*;
import java.util.*;
public class Demo {
    public static void main(String[] a) {
        for (int seed = 0; seed < 500; seed++) {
            Random r = new Random(seed);
            IntIntHeap h = new IntIntHeap(4);
            List<Integer> es = new ArrayList<>();
            for (int i = 0; i < 20; i++) es.add(h.insert(r.nextInt(1000)));
            for (int i = 0; i < 6; i++) h.removeAt(es.remove(r.nextInt(es.size())));
            int last = Integer.MIN_VALUE;
            while (!h.isEmpty()) { int e = h.peek(); if (h.getKeyAt(e) < last) { System.out.println("seed " + seed + " out of order"); System.exit(1); } last = h.getKeyAt(e); h.removeAt(e); }
        }
    }
}
