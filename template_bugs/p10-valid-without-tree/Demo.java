import com.bytefacets.collections.heap.IntIntHeap;
public class Demo {

    static void check(boolean ok, String what) { if (!ok) { System.out.println(what); System.exit(1); } }
    public static void main(String[] a) throws Exception {

IntIntHeap h = new IntIntHeap(8);
int e = h.insert(1, 1);
check(!h.isValidEntry(e + 1) && !h.isValidEntry(e + 2), "never used, but valid");
    }
}
