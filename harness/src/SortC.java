import com.bytefacets.collections.sort.IntIntCompanionSort;
import com.bytefacets.collections.types.IntType;
import java.lang.reflect.Array;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.List;

/** Companion sorts; conf pal (keys), spal (companions), width, rot. */
public final class SortC implements H.Component {
    @Override
    public List<String> targets(final H.Scenario s) {
        final List<String> out = new ArrayList<>();
        final List<String> exact = List.of("Int", "Long", "Float", "Double");
        for (String k : Types.KEYS) {
            for (String v : Types.ALL) {
                if (s.i("exact", 0) == 0 || exact.contains(k) && (s.i("long", 0) == 0 || exact.contains(v))) {
                    out.add(k + "," + v);
                }
            }
        }
        final int width = s.i("width", 90);
        int rot = s.i("rot", 0);
        while (out.size() > width) {
            out.remove(Math.floorMod(rot * 31 + out.size() * 7, out.size()));
            rot = rot * 17 + 5;
        }
        return out;
    }

    @Override
    public boolean small(final H.Scenario s) {
        return s.i("long", 0) == 0 && s.ops.size() <= 400;
    }

    @Override
    public void run(final H.Scenario s, final String target, final H.Log log) throws Throwable {
        for (String[] t : s.ops) {
            if (t[0].equals("long")) {
                far(target, log, t);
            } else {
                op(s, target, log, t);
            }
        }
    }

    /** The i-th of the keys of a long array, as in Sort.tla. */
    static int key(final String f, final int n, final int m, final int a, final int i) {
        return switch (f) {
            case "saw" -> i % m;
            case "rev" -> (n - i) / m;
            case "plat" -> Math.min(i, m);
            case "organ" -> Math.min(i, n - i) / a;
            default -> i * a % m; // "mul"
        };
    }

    /** long N OFF LEN asc|desc SHAPE M A: companions are the positions. */
    static void far(final String target, final H.Log log, final String[] t) throws Throwable {
        final int comma = target.indexOf(',');
        final String kt = target.substring(0, comma);
        final String vt = target.substring(comma + 1);
        final int n = Integer.parseInt(t[1]);
        final int off = Integer.parseInt(t[2]);
        final int len = Integer.parseInt(t[3]);
        final int m = Integer.parseInt(t[6]);
        final int a = Integer.parseInt(t[7]);
        final Object ks = Array.newInstance(Types.javaType(kt), n);
        final Object vs = Array.newInstance(Types.javaType(vt), n);
        for (int i = 0; i < n; i++) {
            Array.set(ks, i, exact(kt, key(t[5], n, m, a, i)));
            Array.set(vs, i, exact(vt, i));
        }
        final Class<?> cmpCls = H.cls("types." + kt + "Type$Cmp");
        final Object cmp = H.cls("types." + kt + "Type").getField(t[4].equals("asc") ? "Asc" : "Desc").get(null);
        String x = "ok";
        try {
            H.call(H.m(H.cls("sort." + kt + vt + "CompanionSort"), "sort", ks.getClass(), vs.getClass(), int.class, int.class,
                    cmpCls), null, ks, vs, off, len, cmp);
        } catch (Throwable z) {
            x = H.code(z);
        }
        final int[] k2 = new int[n];
        final int[] v2 = new int[n];
        for (int i = 0; i < n; i++) {
            k2[i] = ((Number) Array.get(ks, i)).intValue();
            v2[i] = ((Number) Array.get(vs, i)).intValue();
        }
        final int[] at = new int[n]; // where each companion is now, for the specification to check
        for (int i = 0; i < n; i++) {
            if (v2[i] >= 0 && v2[i] < n) {
                at[v2[i]] = i + 1;
            }
        }
        log.ev("long").p("at", at).p("n", n).p("off", off).p("len", len).p("c", t[4]).p("f", t[5]).p("m", m).p("a", a).p("x", x)
                .p("k2", k2).p("s2", v2).end();
    }

    /** What a comparator of the scenario makes of two ranks. */
    static int compare(final String c, final int x, final int y) {
        return switch (c) {
            case "asc" -> x - y;
            case "desc" -> y - x;
            case "same" -> 0;
            case "mod3" -> x % 3 - y % 3;
            case "half" -> x / 4 - y / 4;
            case "far" -> x == y ? 0 : x < y ? -Integer.MAX_VALUE : Integer.MAX_VALUE;
            default -> (x % 2 == 0 ? x : -x) - (y % 2 == 0 ? y : -y);
        };
    }

    static int[] list(final String t) {
        return t.equals("-") ? new int[0] : Arrays.stream(t.split(",")).mapToInt(Integer::parseInt).toArray();
    }

    /** sort OFF LEN CMP KEYS COMPANIONS|number of them, or killer N. */
    static void op(final H.Scenario s, final String target, final H.Log log, final String[] t) throws Throwable {
        final int comma = target.indexOf(',');
        final String kt = target.substring(0, comma);
        final String vt = target.substring(comma + 1);
        final Class<?> cls = H.cls("sort." + kt + vt + "CompanionSort");
        final Class<?> cmpCls = H.cls("types." + kt + "Type$Cmp");
        final boolean killer = t[0].equals("killer");
        final int[] k;
        final int[] v;
        final int off;
        final int len;
        final String c;
        if (killer) {
            k = killer(Integer.parseInt(t[1]));
            off = 0;
            len = k.length;
            c = "asc";
        } else {
            k = list(t[4]);
            off = Integer.parseInt(t[1]);
            len = Integer.parseInt(t[2]);
            c = t[3];
        }
        if (killer || !t[5].startsWith("=")) {
            v = new int[killer ? k.length : Integer.parseInt(t[5])];
            for (int i = 0; i < v.length; i++) {
                v[i] = i;
            }
        } else {
            v = list(t[5].substring(1));
        }
        // the type's own comparators, for palettes whose ranks follow the order of the type
        final boolean own = s.i("own", 0) == 1 || killer;
        final Types.Palette kp = new Types.Palette(kt, s.s("pal", own ? "ord" : "seq"), own ? 40 : 400);
        final Types.Palette vp = new Types.Palette(vt, s.s("spal", "seq"), 400);
        final Object ks = Array.newInstance(Types.javaType(kt), k.length);
        final Object vs = Array.newInstance(Types.javaType(vt), v.length);
        for (int i = 0; i < k.length; i++) {
            if (!killer) {
                k[i] %= kp.size();
            }
            Array.set(ks, i, killer ? exact(kt, k[i]) : kp.value(k[i], i));
        }
        for (int i = 0; i < v.length; i++) {
            v[i] %= vp.size();
            Array.set(vs, i, vp.value(v[i], i));
        }
        final Object cmp;
        if (own) {
            cmp = H.cls("types." + kt + "Type").getField(c.equals("asc") ? "Asc" : "Desc").get(null);
        } else {
            cmp = H.proxy(cmpCls, a -> compare(c, kp.rank(a[0]), kp.rank(a[1])));
        }
        final String[] x = {"ok"};
        final Runnable r = () -> {
            try {
                final java.lang.reflect.Method m = H.m(cls, "sort", ks.getClass(), vs.getClass(), int.class, int.class, cmpCls);
                H.call(m, null, ks, vs, off, len, cmp);
            } catch (Throwable z) {
                x[0] = H.code(z);
            }
        };
        if (killer) {
            on(256 << 10, r);
        } else {
            r.run();
        }
        final int[] k2 = new int[k.length];
        final int[] v2 = new int[v.length];
        for (int i = 0; i < k.length; i++) {
            k2[i] = killer ? ((Number) Array.get(ks, i)).intValue() : kp.rank(Array.get(ks, i));
        }
        for (int i = 0; i < v.length; i++) {
            v2[i] = vp.rank(Array.get(vs, i));
        }
        log.ev("sort").p("k", k).p("s", v).p("off", off).p("len", len).p("c", c).p("x", x[0]).p("k2", k2).p("s2", v2).end();
    }

    static Object exact(final String t, final int v) {
        return switch (t) {
            case "Int" -> v;
            case "Long" -> (long) v;
            case "Float" -> (float) v;
            default -> (double) v;
        };
    }

    static void on(final int stack, final Runnable r) throws InterruptedException {
        final Thread t = new Thread(null, r, "sort", stack);
        t.setDaemon(true);
        t.start();
        t.join();
    }

    /** Keys on which the pivots of the sort, as it is, are as bad as they can be. */
    static int[] killer(final int n) throws InterruptedException {
        final int[] val = new int[n];
        final int[] ptr = new int[n];
        final int[] st = {0, 0}; // solid, candidate
        final int gas = n - 1;
        for (int i = 0; i < n; i++) {
            ptr[i] = i;
            val[i] = gas;
        }
        final IntType.Cmp cmp = (x, y) -> {
            if (val[x] == gas && val[y] == gas) {
                val[x == st[1] ? x : y] = st[0]++;
            }
            if (val[x] == gas) {
                st[1] = x;
            } else if (val[y] == gas) {
                st[1] = y;
            }
            return Integer.compare(val[x], val[y]);
        };
        on(1 << 30, () -> {
            try {
                IntIntCompanionSort.sort(ptr, new int[n], 0, n, cmp);
            } catch (RuntimeException | StackOverflowError e) {
                Arrays.fill(ptr, 0); // whatever it made of the keys will do
            }
        });
        return val;
    }
}
