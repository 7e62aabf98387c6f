import java.util.ArrayList;
import java.util.List;
import java.util.TreeSet;

/** Deques, hydra deques and vectors; conf kind=deque|hydra|vector. */
public final class QueueC implements H.Component {
    @Override
    public List<String> targets(final H.Scenario s) {
        final List<String> out = new ArrayList<>();
        for (String t : Types.ALL) {
            if (s.i("ref", 0) == 0 || Types.isRef(t)) {
                out.add(t);
            }
        }
        return out;
    }

    @Override
    public boolean small(final H.Scenario s) {
        return s.ops.size() <= 400;
    }

    @Override
    public void run(final H.Scenario s, final String target, final H.Log log) throws Throwable {
        new Run(s, target, log).run();
    }

    private static final class Run {
        static final Class<?>[] NONE = {};
        static final Class<?>[] I = {int.class};
        final H.Scenario s;
        final H.Log log;
        final String type;
        final String kind;
        final Class<?> cls;
        final Class<?> j;
        final Types.Palette pal;
        final int limit;
        Object c;
        Object fwd;
        Object rev;
        int maxId;

        Run(final H.Scenario s, final String target, final H.Log log) {
            inner = new H.Inner(s.id);
            this.s = s;
            this.log = log;
            type = target;
            kind = s.s("kind", "deque");
            cls = H.cls(kind.equals("vector") ? "vector." + type + "Vector"
                    : "queue." + type + (kind.equals("hydra") ? "HydraDeque" : "Deque"));
            j = Types.javaType(type);
            pal = new Types.Palette(type, s.s("pal", "seq"), s.i("V", 100));
            limit = s.i("limit", 400);
        }

        Object call(final String name, final Class<?>[] t, final Object... a) throws Throwable {
            return H.call(H.m(cls, name, t), c, a);
        }

        int v(final String tok) {
            return Integer.parseInt(tok) % pal.size();
        }

        Object val(final int r) {
            return pal.value(r, log.salt++);
        }

        void run() throws Throwable {
            if (kind.equals("hydra")) {
                c = H.make(cls, new Class<?>[] {int.class, int.class}, s.i("lists", 1), s.i("cap", 1));
                maxId = s.i("lists", 1);
            } else {
                c = H.make(cls, I, s.i("cap", 1));
            }
            log.ev("new").end();
            for (String[] t : s.ops) {
                if (kind.equals("hydra")) {
                    hydra(t);
                } else if (kind.equals("deque")) {
                    deque(t);
                } else {
                    vector(t);
                }
            }
        }

        private final H.Inner inner;

        /** An observation in the middle of another one, with iterators of its own. */
        private void again() {
            final Object f = fwd;
            final Object r = rev;
            fwd = null;
            rev = null;
            try {
                final String[] t = {"obs"};
                if (kind.equals("hydra")) {
                    hydra(t);
                } else if (kind.equals("deque")) {
                    deque(t);
                } else {
                    vector(t);
                }
            } catch (Throwable z) {
                throw new H.Infra("obs", z);
            } finally {
                fwd = f;
                rev = r;
            }
        }

        List<Integer> each() throws Throwable {
            final List<Integer> l = new ArrayList<>();
            final Class<?> itf = H.cls("functional." + type + "Consumer");
            call("forEach", new Class<?>[] {itf}, H.proxy(itf, a -> {
                inner.at(0, this::again);
                return H.add(l, pal.rank(a[0]));
            }));
            return l;
        }

        void reach() {
            if (!Types.isRef(type)) {
                return;
            }
            final TreeSet<Integer> vs = new TreeSet<>();
            for (Object v : Reach.from(c)) {
                if (pal.rank(v) != Types.UNKNOWN) {
                    vs.add(pal.rank(v));
                }
            }
            log.ev("reach").p("vs", new ArrayList<>(vs)).end();
        }

        void deque(final String[] t) throws Throwable {
            String x = "ok";
            switch (t[0]) {
                case "af", "al" -> {
                    final int v = v(t[1]);
                    try {
                        call(t[0].equals("af") ? "addFirst" : "addLast", new Class<?>[] {j}, val(v));
                    } catch (Throwable z) {
                        x = H.code(z);
                    }
                    log.ev(t[0]).p("v", v).p("x", x).end();
                }
                case "rf", "rl", "pf", "pl" -> {
                    int v = -7;
                    try {
                        v = pal.rank(call(switch (t[0]) {
                            case "rf" -> "removeFirst";
                            case "rl" -> "removeLast";
                            case "pf" -> "peekFirst";
                            default -> "peekLast";
                        }, NONE));
                    } catch (Throwable z) {
                        x = H.code(z);
                    }
                    log.ev(t[0]).p("v", v).p("x", x).idle(!x.equals("ok")).end();
                }
                case "fex" -> {
                    final int th = H.thrown(t);
                    final List<Integer> l = new ArrayList<>();
                    final Class<?> itf = H.cls("functional." + type + "Consumer");
                    final Object f = H.proxy(itf, a -> {
                        H.add(l, pal.rank(a[0]));
                        if (l.size() == th + 1) {
                            throw new H.Boom();
                        }
                        return null;
                    });
                    try {
                        call("forEach", new Class<?>[] {itf}, f);
                    } catch (Throwable z) {
                        x = H.code(z);
                    }
                    log.ev("fex").p("l", l).p("th", th).p("x", x).idle(true).end();
                }
                case "clr" -> clear();
                case "obs" -> {
                    inner.look(1);
                    int n = -7;
                    boolean b = false;
                    List<Integer> l = new ArrayList<>();
                    try {
                        n = (Integer) call("size", NONE);
                        b = (Boolean) call("isEmpty", NONE);
                        l = each();
                    } catch (Throwable z) {
                        x = H.code(z);
                    }
                    inner.done(this::again);
                    log.ev("obs").p("n", n).p("b", b).p("l", l).p("x", x).end();
                }
                case "reach" -> reach();
                default -> throw new H.Infra("op " + t[0], null);
            }
        }

        void clear() {
            String x = "ok";
            try {
                call("clear", NONE);
            } catch (Throwable z) {
                x = H.code(z);
            }
            log.ev("clr").p("x", x).end();
        }

        void vector(final String[] t) throws Throwable {
            String x = "ok";
            switch (t[0]) {
                case "app" -> {
                    final int v = v(t[1]);
                    try {
                        call("append", new Class<?>[] {j}, val(v));
                    } catch (Throwable z) {
                        x = H.code(z);
                    }
                    log.ev("app").p("v", v).p("x", x).end();
                }
                case "ens" -> {
                    final int n = Integer.parseInt(t[1]);
                    final boolean idle = n <= (Integer) call("size", NONE);
                    try {
                        call("ensureSize", I, n);
                    } catch (Throwable z) {
                        x = H.code(z);
                    }
                    log.ev("ens").p("n", n).p("x", x).idle(idle).end();
                }
                case "fex" -> {
                    final int th = H.thrown(t);
                    final List<Integer> l = new ArrayList<>();
                    final Class<?> itf = H.cls("functional." + type + "Consumer");
                    final Object f = H.proxy(itf, a -> {
                        H.add(l, pal.rank(a[0]));
                        if (l.size() == th + 1) {
                            throw new H.Boom();
                        }
                        return null;
                    });
                    try {
                        call("forEach", new Class<?>[] {itf}, f);
                    } catch (Throwable z) {
                        x = H.code(z);
                    }
                    log.ev("fex").p("l", l).p("th", th).p("x", x).idle(true).end();
                }
                case "clr" -> clear();
                case "obs" -> {
                    inner.look(1);
                    int n = -7;
                    boolean b = false;
                    List<Integer> l = new ArrayList<>();
                    final List<Integer> va = new ArrayList<>();
                    try {
                        n = (Integer) call("size", NONE);
                        b = (Boolean) call("isEmpty", NONE);
                        l = each();
                        for (int i = 0; i < Math.min(n, limit); i++) {
                            va.add(pal.rank(call("valueAt", I, i)));
                        }
                    } catch (Throwable z) {
                        x = H.code(z);
                    }
                    inner.done(this::again);
                    log.ev("obs").p("n", n).p("b", b).p("l", l).p("va", va).p("x", x).end();
                }
                case "reach" -> reach();
                default -> throw new H.Infra("op " + t[0], null);
            }
        }

        /** All of an iterator, then one more call. mode 0 a new iterator, 1 the reused one. */
        String walk(final String method, final int id, final int mode, final boolean forward, final List<Integer> l) {
            final Class<?> itf = H.cls("functional." + type + "Iterator");
            try {
                Object it;
                if (mode == 0) {
                    it = call(method, I, id);
                } else {
                    it = call(method, new Class<?>[] {int.class, itf}, id, forward ? fwd : rev);
                }
                if (forward) {
                    fwd = it;
                } else {
                    rev = it;
                }
                while ((Boolean) H.call(H.m(itf, "hasNext"), it)) {
                    inner.at(forward ? 0 : 1, this::again);
                    H.add(l, pal.rank(H.call(H.m(itf, "next"), it)));
                }
                try {
                    H.call(H.m(itf, "next"), it);
                    return "ok";
                } catch (Throwable z) {
                    return H.code(z);
                }
            } catch (Throwable z) {
                return "bad " + H.code(z);
            }
        }

        void hydra(final String[] t) throws Throwable {
            String x = "ok";
            switch (t[0]) {
                case "af", "al" -> {
                    final int id = Integer.parseInt(t[1]);
                    final int v = v(t[2]);
                    int e = -7;
                    try {
                        e = (Integer) call(t[0].equals("af") ? "addFirst" : "addLast", new Class<?>[] {int.class, j},
                                id, val(v));
                        maxId = Math.max(maxId, id);
                    } catch (Throwable z) {
                        x = H.code(z);
                    }
                    log.ev(t[0]).p("id", id).p("v", v).p("e", e).p("x", x).end();
                }
                case "rf", "rl" -> {
                    final int id = Integer.parseInt(t[1]);
                    int v = -7;
                    try {
                        v = pal.rank(call(t[0].equals("rf") ? "removeFirst" : "removeLast", I, id));
                    } catch (Throwable z) {
                        x = H.code(z);
                    }
                    log.ev(t[0]).p("id", id).p("v", v).p("x", x).idle(!x.equals("ok")).end();
                }
                case "fex" -> {
                    final int th = H.thrown(t);
                    final List<Integer> l = new ArrayList<>();
                    final Class<?> itf = H.cls("functional." + type + "Consumer");
                    final Object f = H.proxy(itf, a -> {
                        H.add(l, pal.rank(a[0]));
                        if (l.size() == th + 1) {
                            throw new H.Boom();
                        }
                        return null;
                    });
                    try {
                        H.call(H.m(H.cls("functional." + type + "Iterator"), "forEach", itf),
                                call(Integer.parseInt(t[2]) > 0 ? "iterator" : "reverseIterator", I, Integer.parseInt(t[1])), f);
                    } catch (Throwable z) {
                        x = H.code(z);
                    }
                    log.ev("fex").p("id", Integer.parseInt(t[1])).p("fwd", Integer.parseInt(t[2]) > 0).p("l", l).p("th", th).p("x", x).idle(true).end();
                }
                case "clr" -> clear();
                case "itf", "itr" -> {
                    final int id = Integer.parseInt(t[1]);
                    final int mode = Integer.parseInt(t[2]);
                    final List<Integer> l = new ArrayList<>();
                    final String end = walk(t[0].equals("itf") ? "iterator" : "reverseIterator", id, mode,
                            t[0].equals("itf"), l);
                    log.ev(t[0]).p("id", id).p("l", l).p("x", end).end();
                }
                case "obs" -> {
                    inner.look(2);
                    int n = -7;
                    boolean b = false;
                    final List<Integer> szs = new ArrayList<>(); // of ids -1, 0, 1, ...
                    final StringBuilder f = new StringBuilder("[");
                    final StringBuilder r = new StringBuilder("[");
                    try {
                        n = (Integer) call("size", NONE);
                        b = (Boolean) call("isEmpty", NONE);
                        final int top = Math.min(maxId, 11) + 2;
                        for (int id = -1; id <= top; id++) {
                            szs.add((Integer) call("size", I, id));
                            if (id >= 0) {
                                final List<Integer> lf = new ArrayList<>();
                                final List<Integer> lr = new ArrayList<>();
                                final String x1 = walk("iterator", id, id & 1, true, lf);
                                final String x2 = walk("reverseIterator", id, id & 1, false, lr);
                                if (!x1.equals("IEE") || !x2.equals("IEE")) {
                                    x = x1 + "/" + x2;
                                }
                                f.append(id == 0 ? "" : ",").append(lf.toString().replace(" ", ""));
                                r.append(id == 0 ? "" : ",").append(lr.toString().replace(" ", ""));
                            }
                        }
                    } catch (Throwable z) {
                        x = H.code(z);
                    }
                    inner.done(this::again);
                    log.ev("obs").p("n", n).p("b", b).p("sz", szs).raw("f", f + "]").raw("r", r + "]").p("x", x).end();
                }
                case "reach" -> reach();
                default -> throw new H.Infra("op " + t[0], null);
            }
        }
    }
}
