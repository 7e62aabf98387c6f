import com.bytefacets.collections.CapacityCalculator;
import com.bytefacets.collections.NumUtils;
import com.bytefacets.collections.hash.IntIndexedSet;
import com.bytefacets.collections.heap.ByteByteHeap;
import java.util.ArrayList;
import java.util.List;
import java.util.concurrent.atomic.AtomicReferenceArray;

/** Capacities; conf what=pure|hash|queue|vector|heap|store. */
public final class CapC implements H.Component {
    @Override
    public List<String> targets(final H.Scenario s) {
        final List<String> out = new ArrayList<>();
        switch (s.s("what", "pure")) {
            case "pure", "edge" -> out.add(s.s("what", ""));
            case "hash" -> {
                for (String k : Types.KEYS) {
                    out.add("hash." + k + "IndexedSet " + k);
                    for (String v : Types.ALL) {
                        out.add("hash." + k + v + "IndexedMap " + k);
                    }
                }
            }
            case "heap" -> {
                for (String k : Types.KEYS) {
                    for (String v : Types.ALL) {
                        out.add("heap." + k + v + "Heap " + k);
                    }
                }
            }
            case "queue" -> {
                for (String k : Types.ALL) {
                    out.add("queue." + k + "Deque " + k);
                    out.add("queue." + k + "HydraDeque " + k);
                    out.add("vector." + k + "Vector " + k);
                }
            }
            default -> {
                for (String k : Types.ALL) {
                    out.add("store." + k + "ChunkMatrixStore " + k);
                }
            }
        }
        out.replaceAll(t -> t.replace(' ', ','));
        return out;
    }

    @Override
    public void run(final H.Scenario s, final String target, final H.Log log) throws Throwable {
        for (String[] t : s.ops) {
            op(s, target, log, t);
        }
    }

    void op(final H.Scenario s, final String target, final H.Log log, final String[] t) throws Throwable {
        switch (t[0]) {
            case "sweep" -> sweep(log, Integer.parseInt(t[1]));
            case "np" -> {
                final int v = Integer.parseInt(t[1]);
                log.ev("npx").p("v", v).p("r", NumUtils.nextPowerOf2(v)).end();
            }
            case "grow" -> grow(log, Integer.parseInt(t[1]), Integer.parseInt(t[2]));
            case "climb" -> { // as the hashes use it
                int cap = Integer.parseInt(t[1]);
                final double lf = Double.parseDouble(t[2]);
                int thr = (int) (cap * lf);
                for (int i = 0; i < 40; i++) {
                    final int r = grow(log, cap, thr);
                    if (r < 0) {
                        break;
                    }
                    thr = r == cap ? 1 << 29 : (int) (r * lf);
                    cap = r;
                }
            }
            case "ctor" -> ctor(s, target, log, t);
            case "edge" -> edge(log, t[1], Integer.parseInt(t[2]), Integer.parseInt(t[3]), Integer.parseInt(t[4]));
            default -> throw new H.Infra("op " + t[0], null);
        }
    }

    static int grow(final H.Log log, final int cap, final int thr) {
        int r = -1;
        String x = "ok";
        try {
            r = CapacityCalculator.calculateNewCapacity("owner", cap, thr);
        } catch (Throwable z) {
            x = H.code(z);
        }
        log.ev("grow").p("c", cap).p("th", thr).p("r", r).p("x", x).end();
        return r;
    }

    /** Every argument from 1 to 2^bits, as runs of equal results. */
    static void sweep(final H.Log log, final int bits) throws Throwable {
        final int parts = 16;
        final long top = 1L << bits;
        final AtomicReferenceArray<List<int[]>> res = new AtomicReferenceArray<>(parts);
        final List<Thread> ts = new ArrayList<>();
        for (int p = 0; p < parts; p++) {
            final int part = p;
            final int lo = (int) (top / parts * p + 1);
            final int hi = (int) (top / parts * (p + 1));
            final Thread th = new Thread(() -> {
                final List<int[]> runs = new ArrayList<>();
                int from = lo;
                int cur = NumUtils.nextPowerOf2(lo);
                for (int v = lo + 1; v <= hi; v++) {
                    final int r = NumUtils.nextPowerOf2(v);
                    if (r != cur) {
                        runs.add(new int[] {from, v - 1, cur});
                        from = v;
                        cur = r;
                        if (runs.size() > 100) {
                            break;
                        }
                    }
                }
                runs.add(new int[] {from, runs.size() > 100 ? from : hi, cur});
                res.set(part, runs);
            });
            th.setDaemon(true);
            ts.add(th);
            th.start();
        }
        for (Thread th : ts) {
            th.join();
        }
        for (int p = 0; p < parts; p++) {
            for (int[] r : res.get(p)) {
                log.ev("np").p("from", r[0]).p("to", r[1]).p("r", r[2]).end();
            }
        }
        log.ev("npend").p("to", (int) top).end();
    }

    /** ctor CAP LF|- N [QUEUES]: constructs, and puts N things into it. */
    static void ctor(final H.Scenario s, final String target, final H.Log log, final String[] t) throws Throwable {
        final int comma = target.indexOf(',');
        final Class<?> cls = H.cls(target.substring(0, comma));
        final String type = target.substring(comma + 1);
        final String name = cls.getSimpleName();
        final int cap = Integer.parseInt(t[1]);
        final int n = Integer.parseInt(t[3]);
        final String kind = name.contains("Indexed") ? "hash" : name.contains("Heap") ? "heap"
                : name.contains("Matrix") ? "matrix" : name.contains("Vector") ? "vector" : "queue";
        final Class<?>[] one = {int.class};
        final Double lf = t[2].equals("-") || !kind.equals("hash") ? null : (Double) Double.longBitsToDouble(
                Long.parseUnsignedLong(t[2], 16));
        Object c = null;
        String x = "ok";
        try {
            if (lf != null) {
                c = H.make(cls, new Class<?>[] {int.class, double.class}, cap, lf);
            } else if (name.contains("Hydra")) {
                c = H.make(cls, new Class<?>[] {int.class, int.class}, 2, cap);
            } else if (kind.equals("matrix")) {
                final int which = s.i("which", 0);
                c = H.make(cls, new Class<?>[] {int.class, int.class, int.class}, which == 0 ? cap : 3,
                        which == 1 ? (cap >= 1 ? cap + 1 : cap) : 2, which == 2 ? cap : 3);
            } else {
                c = H.make(cls, one, cap);
            }
        } catch (Throwable z) {
            x = H.code(z);
        }
        final int[] word = lf == null ? new int[0] : SnowC.word(Double.doubleToRawLongBits(lf));
        log.ev("ctor").p("kind", kind).p("c", cap).p("lf", word).p("x", x).p("cap", c == null ? -1 : cap(kind, cls, c))
                .p("n", 0).end();
        if (c == null || n == 0 || !(kind.equals("hash") || kind.equals("heap"))) {
            return;
        }
        final Types.Palette pal = new Types.Palette(type, "seq", Math.min(n, 20000));
        final Class<?> jt = Types.javaType(type);
        int last = -1;
        for (int i = 0; i < n; i++) {
            try {
                if (kind.equals("hash")) {
                    if (i >= pal.size()) {
                        break;
                    }
                    H.call(H.m(cls, "add", jt), c, pal.value(i, i));
                } else {
                    H.call(H.m(cls, "insert", jt), c, pal.value(i % pal.size(), i));
                }
            } catch (Throwable z) {
                x = H.code(z);
            }
            final int now = cap(kind, cls, c);
            final int size = (Integer) H.call(H.m(cls, kind.equals("hash") ? "size" : "getSize"), c);
            if (now != last || i < 20 || !x.equals("ok") || i == n - 1 || now < size) {
                log.ev("held").p("kind", kind).p("n", size).p("cap", now).p("x", x).end();
                last = now;
            }
            if (!x.equals("ok")) {
                break;
            }
        }
    }

    static int cap(final String kind, final Class<?> cls, final Object c) throws Throwable {
        return switch (kind) {
            case "hash" -> (Integer) H.call(H.m(cls, "capacity"), c);
            case "heap", "matrix" -> (Integer) H.call(H.m(cls, "getCapacity"), c);
            default -> -1;
        };
    }

    /** edge KIND CAP N TIMES: puts N things into a collection, tries to put one more, and again with one taken out. */
    static void edge(final H.Log log, final String kind, final int cap, final int n, final int times) throws Throwable {
        final Full c = kind.equals("heap") ? new FullHeap(cap) : new FullSet(cap);
        log.ev("ctor").p("kind", kind).p("c", cap).p("lf", new int[0]).p("x", "ok").p("cap", c.cap()).p("n", 0).end();
        String x = "ok";
        try {
            c.fill(n);
        } catch (Throwable z) {
            x = H.code(z);
        }
        log.ev("full").p("kind", kind).p("n", c.size()).p("want", n).p("cap", c.cap()).p("x", x).end();
        c.look(log, n);
        for (int i = 0; i < times && x.equals("ok"); i++) {
            String y = "ok";
            int e = -1;
            try {
                e = c.more(i);
            } catch (Throwable z) {
                y = H.code(z);
            }
            log.ev("over").p("kind", kind).p("e", e).p("n", c.size()).p("cap", c.cap()).p("x", y).end();
            c.look(log, n);
            if (i == 0) {
                y = "ok";
                int f = -1;
                e = -1;
                try {
                    f = c.less();
                    e = c.more(77);
                } catch (Throwable z) {
                    y = H.code(z);
                }
                log.ev("swap").p("f", f).p("e", e).p("n", c.size()).p("cap", c.cap()).p("x", y).end();
                c.look(log, n);
            }
        }
    }

    private abstract static class Full {
        abstract void fill(int n);

        abstract int more(int i);

        abstract int less();

        abstract int size();

        abstract int cap();

        abstract boolean used(int entry);

        abstract int key(int entry);

        abstract int more();

        void look(final H.Log log, final int n) {
            final List<Integer> es = new ArrayList<>();
            final List<Integer> ks = new ArrayList<>();
            final List<Integer> us = new ArrayList<>();
            for (int e : new int[] {0, 1, 5, n / 3, n / 2, n / 2 + 1, n - 2, n - 1, n, n + 1, 1 << 29, (1 << 29) - 1}) {
                if (e >= 0 && !es.contains(e)) {
                    es.add(e);
                    final boolean u = used(e);
                    us.add(u ? 1 : 0);
                    ks.add(u ? key(e) : -1);
                }
            }
            log.ev("look").p("es", ints(es)).p("us", ints(us)).p("ks", ints(ks)).p("n", size()).p("cap", cap())
                    .p("more", more()).end();
        }

        static int[] ints(final List<Integer> l) {
            return l.stream().mapToInt(i -> i).toArray();
        }
    }

    private static final class FullHeap extends Full {
        final ByteByteHeap h;

        FullHeap(final int cap) {
            h = new ByteByteHeap(cap);
        }

        @Override
        void fill(final int n) {
            for (int i = 0; i < n; i++) {
                h.insert((byte) (i >>> 24));
            }
        }

        @Override
        int more(final int i) {
            return h.insert((byte) i, (byte) 3);
        }

        @Override
        int less() {
            final int e = h.getSize() / 2;
            h.removeAt(e);
            return e;
        }

        @Override
        int size() {
            return h.getSize();
        }

        @Override
        int cap() {
            return h.getCapacity();
        }

        @Override
        boolean used(final int entry) {
            return h.isValidEntry(entry);
        }

        @Override
        int key(final int entry) {
            return h.getKeyAt(entry);
        }

        @Override
        int more() {
            return h.getKeyAt(h.peek());
        }
    }

    private static final class FullSet extends Full {
        final IntIndexedSet h;

        FullSet(final int cap) {
            h = new IntIndexedSet(cap, 1.0);
        }

        @Override
        void fill(final int n) {
            for (int i = 0; i < n; i++) {
                h.add(i);
            }
        }

        @Override
        int more(final int i) {
            return h.add(-1 - i);
        }

        @Override
        int less() {
            return h.remove(h.size() / 2);
        }

        @Override
        int size() {
            return h.size();
        }

        @Override
        int cap() {
            return h.capacity();
        }

        @Override
        boolean used(final int entry) { // entries were handed out in the order of the keys
            return h.containsKey(entry);
        }

        @Override
        int key(final int entry) {
            return h.lookupEntry(entry);
        }

        @Override
        int more() {
            return h.lookupEntry(-1);
        }
    }
}
