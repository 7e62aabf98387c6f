import com.bytefacets.collections.queue.IntDeque;
public class Demo {
    public static void main(String[] a) {
        IntDeque d = new IntDeque(3);
        for (int i = 0; i < 20; i++) d.addFirst(i);
        for (int i = 0; i < 20; i++) { int v = d.removeLast(); if (v != i) { System.out.println("wrong at " + i + ": " + v); System.exit(1); } }
    }
}
