import java.lang.reflect.Array;
import java.util.ArrayList;
import java.util.List;

/** The array helpers; conf typed=1: object arrays of a narrower type; big=1: arrays of a gigabyte. */
public final class ArraysC implements H.Component {
    static final Class<?>[] NO_DEFAULT = {};

    @Override
    public List<String> targets(final H.Scenario s) {
        if (s.i("typed", 0) == 1) {
            return List.of("Generic");
        }
        if (s.i("big", 0) == 1) {
            return List.of("Byte");
        }
        return List.of(Types.ALL);
    }

    @Override
    public boolean small(final H.Scenario s) {
        return s.i("big", 0) == 0 && s.ops.size() <= 400;
    }

    @Override
    public void run(final H.Scenario s, final String target, final H.Log log) throws Throwable {
        new Run(s, target, log).run();
    }

    private static final class Run {
        final H.Scenario s;
        final H.Log log;
        final String type;
        final boolean typed;
        final Class<?> cls;
        final Class<?> j;
        final Class<?> arr;
        final Types.Palette pal;
        Object a;

        Run(final H.Scenario s, final String target, final H.Log log) {
            this.s = s;
            this.log = log;
            type = target;
            typed = s.i("typed", 0) == 1;
            cls = H.cls("arrays." + type + "Array");
            j = Types.javaType(type);
            arr = Array.newInstance(j, 0).getClass();
            pal = new Types.Palette(type, "val", 8);
            a = Array.newInstance(typed ? Comparable.class : j, 0);
        }

        void run() throws Throwable {
            log.ev("new").end();
            for (String[] t : s.ops) {
                op(t);
            }
        }

        /** The value of a rank; a rank this type has not got is another one. */
        int rank(final String t) {
            return Integer.parseInt(t) % pal.size();
        }

        Object value(final int r) {
            return pal.value(r, log.salt++);
        }

        String runs(final Object x) {
            final StringBuilder b = new StringBuilder("[");
            if (x != null) {
                final int n = Array.getLength(x);
                int from = 0;
                while (from < n) {
                    int to = from + 1;
                    final int r = pal.rank(Array.get(x, from));
                    if (x instanceof byte[]) {
                        final byte[] y = (byte[]) x;
                        while (to < n && y[to] == y[from]) {
                            to++;
                        }
                    } else {
                        while (to < n && pal.rank(Array.get(x, to)) == r) {
                            to++;
                        }
                    }
                    b.append(from == 0 ? "" : ",").append('[').append(to - from).append(',').append(r).append(']');
                    from = to;
                }
            }
            return b.append(']').toString();
        }

        void op(final String[] t) throws Throwable {
            String x = "ok";
            Object r = null;
            final String what = t[0];
            switch (what) {
                case "create", "resize", "copy", "ens", "ent" -> {
                    final int n = Integer.parseInt(t[1]);
                    final int v = what.equals("resize") ? 0 : rank(t[2]);
                    final boolean plain = v == 0 && (log.salt & 1) == 0;
                    final Object before = a;
                    try {
                        switch (what) {
                            case "create" -> {
                                if (typed) {
                                    r = H.call(H.m(cls, "create", Class.class, int.class), null, Comparable.class, n);
                                    H.call(H.m(cls, "fill", arr, j), null, r, value(v));
                                } else {
                                    r = plain ? H.call(H.m(cls, "create", int.class), null, n)
                                            : H.call(H.m(cls, "create", int.class, j), null, n, value(v));
                                }
                            }
                            case "resize" -> r = H.call(H.m(cls, "resize", arr, int.class), null, a, n);
                            default -> {
                                final String m = what.equals("copy") ? "copyOf" : what.equals("ens") ? "ensureSize" : "ensureEntry";
                                r = plain ? H.call(H.m(cls, m, arr, int.class), null, a, n)
                                        : H.call(H.m(cls, m, arr, int.class, j), null, a, n, value(v));
                            }
                        }
                    } catch (Throwable z) {
                        x = H.code(z);
                    }
                    final boolean ty = r == null || r.getClass() == a.getClass();
                    final String after = runs(before);
                    final boolean on = r != null && (s.i("big", 0) == 1 ? Array.getLength(r) < 5000
                            : Array.getLength(r) < 5000 && (t.length < 4 || t[3].equals("TRUE")));
                    log.ev(what).p("n", n).p("v", v).p("on", on).p("x", x).p("same", r == before).p("ty", ty).raw("a", after)
                            .raw("r", runs(r)).end();
                    if (on) {
                        a = r;
                    }
                }
                case "fill" -> {
                    final int off = Integer.parseInt(t[1]);
                    final int len = Integer.parseInt(t[2]);
                    final int v = rank(t[3]);
                    if (off + len > Array.getLength(a)) {
                        return;
                    }
                    try {
                        if (off == 0 && len == Array.getLength(a) && (log.salt & 1) == 0) {
                            H.call(H.m(cls, "fill", arr, j), null, a, value(v));
                        } else {
                            H.call(H.m(cls, "fill", arr, j, int.class, int.class), null, a, value(v), off, len);
                        }
                    } catch (Throwable z) {
                        x = H.code(z);
                    }
                    log.ev("fill").p("v", v).p("off", off).p("len", len).p("x", x).raw("r", runs(a)).end();
                }
                default -> throw new H.Infra("op " + what, null);
            }
        }
    }
}
