import com.bytefacets.collections.hash.IntLongIndexedMap;
public class Demo {
    public static void main(String[] a) {
        IntLongIndexedMap m = new IntLongIndexedMap(4, 0.75);
        int e = m.put(7, 70L);
        m.removeAtAndReserve(e);
        int f = m.put(8, 80L);
        if (f == e || m.getKeyAt(e) != 7 || m.getValueAt(e) != 70L) { System.out.println("reserved entry " + e + " was issued again"); System.exit(1); }
    }
}
