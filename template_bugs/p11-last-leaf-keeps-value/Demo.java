import com.bytefacets.collections.heap.*;
public class Demo {
    public static void main(String[] a) {
        IntIntHeap h = new IntIntHeap(4);
        h.insert(1, 10);
        int e = h.insert(2, 20);
        h.removeAt(e);
        int f = h.insert(3);
        if (h.getValueAt(f) != 0) { System.out.println("inserted without a value, reads " + h.getValueAt(f)); System.exit(1); }
    }
}
