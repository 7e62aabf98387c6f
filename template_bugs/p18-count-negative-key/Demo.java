import com.bytefacets.collections.bi.*;
public class Demo {

    static void check(boolean ok, String what) { if (!ok) { System.out.println(what); System.exit(1); } }
    public static void main(String[] a) throws Exception {

CompactOneToMany c = new CompactOneToMany();
c.put(1, 10); 
check(c.withLeft(1).valueIterator().hasNext(), "none");
check(!c.withLeft(1000).valueIterator().hasNext(), "1000 lists values of 1");
    }
}
