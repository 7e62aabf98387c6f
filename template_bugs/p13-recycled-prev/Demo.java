import com.bytefacets.collections.queue.IntHydraDeque;
public class Demo {
    public static void main(String[] a) {
        IntHydraDeque d = new IntHydraDeque(2, 8);
        d.addLast(0, 1); d.addLast(0, 2);
        d.removeLast(0);
        d.addFirst(1, 3);
        if (d.removeLast(1) != 3) { System.out.println("wrong value"); System.exit(1); }
        try { d.removeLast(1); System.out.println("list 1 should be empty"); System.exit(1); } catch (java.util.NoSuchElementException e) { }
    }
}
