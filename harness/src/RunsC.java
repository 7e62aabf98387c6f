import com.bytefacets.collections.queue.ByteDeque;
import com.bytefacets.collections.queue.ByteHydraDeque;
import com.bytefacets.collections.vector.ByteVector;
import java.util.ArrayList;
import java.util.List;
import java.util.NoSuchElementException;
import java.util.function.IntConsumer;

/** Long histories of deques, hydra deques and vectors, recorded as runs; conf kind, cap, lists. */
public final class RunsC implements H.Component {
    @Override
    public List<String> targets(final H.Scenario s) {
        return s.i("big", 0) == 1 ? List.of("Byte")
                : List.of("Byte", Types.ALL[s.i("rot", 0) % Types.ALL.length], "Generic", "String");
    }

    @Override
    public void run(final H.Scenario s, final String target, final H.Log log) throws Throwable {
        new Run(s, target, log).run();
    }

    /** One collection of small numbers. */
    interface Lists {
        void add(boolean first, int id, int v) throws Throwable;

        int remove(boolean first, int id) throws Throwable;

        default int end(boolean first) throws Throwable {
            return -1;
        }

        void each(boolean forward, int id, IntConsumer to) throws Throwable;

        int size(int id) throws Throwable;

        int size() throws Throwable;

        boolean isEmpty() throws Throwable;

        void clear() throws Throwable;
    }

    /** Maximal runs of ascending (or, listed backwards, descending) values. */
    static final class Compress implements IntConsumer {
        final int m;
        final boolean down;
        final List<Integer> ss = new ArrayList<>();
        final List<Integer> ns = new ArrayList<>();
        int last = -1;
        int s = -1;
        int n = 0;

        Compress(final int m, final boolean down) {
            this.m = m;
            this.down = down;
        }

        @Override
        public void accept(final int v) {
            final int next = down ? (last == 0 ? m - 1 : last - 1) : (last == m - 1 ? 0 : last + 1);
            if (n > 0 && v == next) {
                n++;
            } else {
                end();
                s = v;
                n = 1;
            }
            last = v;
        }

        Compress end() {
            if (n > 0) {
                final int at = down ? 0 : ss.size();
                if (ss.size() < 200) { // more than any that is right
                    ss.add(at, down ? last : s);
                    ns.add(at, n);
                }
                n = 0;
            }
            return this;
        }
    }

    private static final class Run {
        static final Class<?>[] NONE = {};
        static final Class<?>[] I = {int.class};
        final H.Scenario s;
        final H.Log log;
        final String type;
        final String kind;
        final int m;
        final Types.Palette pal;
        Lists c;

        Run(final H.Scenario s, final String target, final H.Log log) {
            this.s = s;
            this.log = log;
            type = target;
            kind = s.s("kind", "deque");
            pal = new Types.Palette(type, "seq", 97);
            m = type.equals("Byte") ? 97 : pal.size();
        }

        Lists make() throws Throwable {
            final int cap = s.i("cap", 1);
            if (type.equals("Byte")) {
                switch (kind) {
                    case "deque":
                        return new Deques(new ByteDeque(cap));
                    case "hydra":
                        return new Hydras(new ByteHydraDeque(s.i("lists", 1), cap));
                    default:
                        return new Vectors(new ByteVector(cap));
                }
            }
            return new Reflected(cap);
        }

        /** Any type, one reflective call at a time. */
        private final class Reflected implements Lists {
            final Class<?> cls = H.cls(kind.equals("vector") ? "vector." + type + "Vector"
                    : "queue." + type + (kind.equals("hydra") ? "HydraDeque" : "Deque"));
            final Class<?> j = Types.javaType(type);
            final boolean hydra = kind.equals("hydra");
            final Object o;

            Reflected(final int cap) throws Throwable {
                o = hydra ? H.make(cls, new Class<?>[] {int.class, int.class}, s.i("lists", 1), cap) : H.make(cls, I, cap);
            }

            Object call(final String name, final Class<?>[] t, final Object... a) throws Throwable {
                return H.call(H.m(cls, name, t), o, a);
            }

            @Override
            public void add(final boolean first, final int id, final int v) throws Throwable {
                final Object x = pal.value(v, v);
                if (kind.equals("vector")) {
                    call("append", new Class<?>[] {j}, x);
                } else if (hydra) {
                    call(first ? "addFirst" : "addLast", new Class<?>[] {int.class, j}, id, x);
                } else {
                    call(first ? "addFirst" : "addLast", new Class<?>[] {j}, x);
                }
            }

            @Override
            public int remove(final boolean first, final int id) throws Throwable {
                final String n = first ? "removeFirst" : "removeLast";
                return pal.rank(hydra ? call(n, I, id) : call(n, NONE));
            }

            @Override
            public int end(final boolean first) throws Throwable {
                return kind.equals("deque") ? pal.rank(call(first ? "peekFirst" : "peekLast", NONE)) : -1;
            }

            @Override
            public void each(final boolean forward, final int id, final IntConsumer to) throws Throwable {
                if (!hydra) {
                    final Class<?> itf = H.cls("functional." + type + "Consumer");
                    call("forEach", new Class<?>[] {itf}, H.proxy(itf, a -> {
                        to.accept(pal.rank(a[0]));
                        return null;
                    }));
                    return;
                }
                final Object it = call(forward ? "iterator" : "reverseIterator", I, id);
                final Class<?> itf = H.cls("functional." + type + "Iterator");
                while ((Boolean) H.call(H.m(itf, "hasNext"), it)) {
                    to.accept(pal.rank(H.call(H.m(itf, "next"), it)));
                }
            }

            @Override
            public int size(final int id) throws Throwable {
                return hydra ? (Integer) call("size", I, id) : size();
            }

            @Override
            public int size() throws Throwable {
                return (Integer) call("size", NONE);
            }

            @Override
            public boolean isEmpty() throws Throwable {
                return (Boolean) call("isEmpty", NONE);
            }

            @Override
            public void clear() throws Throwable {
                call("clear", NONE);
            }
        }

        void run() throws Throwable {
            c = make();
            log.ev("new").p("kind", kind).p("m", m).end();
            for (String[] t : s.ops) {
                op(t);
            }
        }

        void op(final String[] t) throws Throwable {
            String x = "ok";
            int k = 0;
            switch (t[0]) {
                case "al", "af" -> {
                    final int id = Integer.parseInt(t[1]);
                    final int from = Integer.parseInt(t[2]) % m;
                    final int n = Integer.parseInt(t[3]);
                    final boolean first = t[0].equals("af");
                    int v = first ? (int) ((from + (long) n - 1) % m) : from;
                    try {
                        for (; k < n; k++) {
                            c.add(first, id, v);
                            v = first ? (v == 0 ? m - 1 : v - 1) : (v == m - 1 ? 0 : v + 1);
                        }
                    } catch (Throwable z) {
                        x = H.code(z);
                    }
                    log.ev(t[0]).p("id", id).p("s", from).p("n", n).p("k", k).p("x", x).end();
                }
                case "rf", "rl" -> {
                    final int id = Integer.parseInt(t[1]);
                    final int n = Integer.parseInt(t[2]);
                    final boolean first = t[0].equals("rf");
                    final Compress out = new Compress(m, !first);
                    try {
                        for (; k < n; k++) {
                            out.accept(c.remove(first, id));
                        }
                    } catch (Throwable z) {
                        x = H.code(z);
                    }
                    out.end();
                    log.ev(t[0]).p("id", id).p("n", n).p("k", k).p("ss", out.ss).p("ns", out.ns).p("x", x).end();
                }
                case "clr" -> {
                    try {
                        c.clear();
                    } catch (Throwable z) {
                        x = H.code(z);
                    }
                    log.ev("clr").p("x", x).end();
                }
                case "obs" -> {
                    final int id = Integer.parseInt(t[1]);
                    final Compress out = new Compress(m, false);
                    final Compress back = new Compress(m, true);
                    final boolean hydra = kind.equals("hydra");
                    int n = -7;
                    int sz = -7;
                    int pf = -1;
                    int pl = -1;
                    boolean b = false;
                    try {
                        n = c.size();
                        sz = c.size(id);
                        b = c.isEmpty();
                        if (sz > 0) {
                            pf = c.end(true);
                            pl = c.end(false);
                        }
                        c.each(true, id, out);
                        if (hydra) {
                            c.each(false, id, back);
                        }
                    } catch (Throwable z) {
                        x = H.code(z);
                    }
                    out.end();
                    back.end();
                    log.ev("obs").p("id", id).p("n", n).p("sz", sz).p("b", b).p("ss", out.ss).p("ns", out.ns)
                            .p("back", hydra).p("rs", back.ss).p("rn", back.ns).p("ends", kind.equals("deque"))
                            .p("pf", pf).p("pl", pl).p("x", x).end();
                }
                default -> throw new H.Infra("op " + t[0], null);
            }
        }
    }

    private record Deques(ByteDeque o) implements Lists {
        @Override
        public void add(final boolean first, final int id, final int v) {
            if (first) {
                o.addFirst((byte) v);
            } else {
                o.addLast((byte) v);
            }
        }

        @Override
        public int remove(final boolean first, final int id) {
            return first ? o.removeFirst() : o.removeLast();
        }

        @Override
        public int end(final boolean first) {
            return first ? o.peekFirst() : o.peekLast();
        }

        @Override
        public void each(final boolean forward, final int id, final IntConsumer to) {
            o.forEach(to::accept);
        }

        @Override
        public int size(final int id) {
            return o.size();
        }

        @Override
        public int size() {
            return o.size();
        }

        @Override
        public boolean isEmpty() {
            return o.isEmpty();
        }

        @Override
        public void clear() {
            o.clear();
        }
    }

    private record Hydras(ByteHydraDeque o) implements Lists {
        @Override
        public void add(final boolean first, final int id, final int v) {
            if (first) {
                o.addFirst(id, (byte) v);
            } else {
                o.addLast(id, (byte) v);
            }
        }

        @Override
        public int remove(final boolean first, final int id) {
            return first ? o.removeFirst(id) : o.removeLast(id);
        }

        @Override
        public void each(final boolean forward, final int id, final IntConsumer to) {
            final var it = forward ? o.iterator(id) : o.reverseIterator(id);
            while (it.hasNext()) {
                to.accept(it.next());
            }
        }

        @Override
        public int size(final int id) {
            return o.size(id);
        }

        @Override
        public int size() {
            return o.size();
        }

        @Override
        public boolean isEmpty() {
            return o.isEmpty();
        }

        @Override
        public void clear() {
            o.clear();
        }
    }

    private record Vectors(ByteVector o) implements Lists {
        @Override
        public void add(final boolean first, final int id, final int v) {
            o.append((byte) v);
        }

        @Override
        public int remove(final boolean first, final int id) {
            throw new NoSuchElementException();
        }

        @Override
        public void each(final boolean forward, final int id, final IntConsumer to) {
            o.forEach(to::accept);
        }

        @Override
        public int size(final int id) {
            return o.size();
        }

        @Override
        public int size() {
            return o.size();
        }

        @Override
        public boolean isEmpty() {
            return o.isEmpty();
        }

        @Override
        public void clear() {
            o.clear();
        }
    }
}
