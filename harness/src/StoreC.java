import java.util.ArrayList;
import java.util.List;
import java.util.TreeSet;

/** Chunk stores and chunk matrix stores; conf kind=chunk|matrix, init, chunk, fields. */
public final class StoreC implements H.Component {
    @Override
    public List<String> targets(final H.Scenario s) {
        final List<String> out = new ArrayList<>();
        for (String t : Types.ALL) {
            if (s.i("ref", 0) == 0 || Types.isRef(t)) {
                out.add(t);
            }
        }
        if (s.i("big", 0) == 1) {
            return List.of("Byte", "Bool").subList(0, s.i("init", 1) > 1 ? 1 : 2);
        }
        final int width = s.i("width", 10);
        while (out.size() > width) {
            out.remove(Math.floorMod(s.i("rot", 0) * 7 + out.size() * 3, out.size()));
        }
        return out;
    }

    @Override
    public boolean small(final H.Scenario s) {
        return s.i("big", 0) == 0 && s.ops.size() <= 400;
    }

    @Override
    public void run(final H.Scenario s, final String target, final H.Log log) throws Throwable {
        new Run(s, target, log).run();
    }

    private static final class Run {
        static final Class<?>[] NONE = {};
        static final Class<?>[] I = {int.class};
        final H.Scenario s;
        final H.Log log;
        final String type;
        final boolean matrix;
        final Class<?> cls;
        final Class<?> j;
        final Types.Palette pal;
        final int fields;
        final int chunk;
        final TreeSet<Long> touched = new TreeSet<>();
        Object c;

        Run(final H.Scenario s, final String target, final H.Log log) {
            this.s = s;
            this.log = log;
            type = target;
            matrix = s.s("kind", "chunk").equals("matrix");
            cls = H.cls("store." + type + (matrix ? "ChunkMatrixStore" : "ChunkStore"));
            j = Types.javaType(type);
            pal = new Types.Palette(type, "val", 20);
            fields = matrix ? s.i("fields", 1) : 1;
            chunk = s.i("chunk", 2);
        }

        Object call(final String name, final Class<?>[] t, final Object... a) throws Throwable {
            return H.call(H.m(cls, name, t), c, a);
        }

        Object set(final int r, final int f, final Object v) throws Throwable {
            return matrix ? call("set" + type, new Class<?>[] {int.class, int.class, j}, r, f, v)
                    : call("set" + type, new Class<?>[] {int.class, j}, r, v);
        }

        Object get(final int r, final int f) throws Throwable {
            return matrix ? call("get" + type, new Class<?>[] {int.class, int.class}, r, f)
                    : call("get" + type, I, r);
        }

        int cap() {
            try {
                return c == null ? -1 : (Integer) call("getCapacity", NONE);
            } catch (Throwable z) {
                return -9;
            }
        }

        void run() throws Throwable {
            String x = "ok";
            try {
                c = matrix
                        ? H.make(cls, new Class<?>[] {int.class, int.class, int.class}, s.i("init", 1), chunk, fields)
                        : H.make(cls, new Class<?>[] {int.class, int.class}, s.i("init", 1), chunk);
            } catch (Throwable z) {
                x = H.code(z);
            }
            log.ev("new").p("m", matrix).p("init", s.i("init", 1)).p("chunk", chunk).p("F", fields).p("cap", cap())
                    .p("x", x).end();
            if (c == null) {
                return;
            }
            for (String[] t : s.ops) {
                op(t);
            }
        }

        void op(final String[] t) throws Throwable {
            String x = "ok";
            switch (t[0]) {
                case "set" -> {
                    final int r = Integer.parseInt(t[1]);
                    final int f = Integer.parseInt(t[2]);
                    final int v = Integer.parseInt(t[3]) % pal.size();
                    if (!matrix && f != 0) {
                        return;
                    }
                    try {
                        set(r, f, pal.value(v, log.salt++));
                        if (r >= 0 && f >= 0 && f < fields) {
                            touched.add((long) r);
                        }
                    } catch (Throwable z) {
                        x = H.code(z);
                    }
                    log.ev("set").p("r", r).p("f", f).p("v", v).p("cap", cap()).p("x", x).idle(!x.equals("ok")).end();
                }
                case "get" -> {
                    final int r = Integer.parseInt(t[1]);
                    final int f = Integer.parseInt(t[2]);
                    if (!matrix && f != 0) {
                        return;
                    }
                    int v = -7;
                    try {
                        v = pal.rank(get(r, f));
                    } catch (Throwable z) {
                        x = H.code(z);
                    }
                    log.ev("get").p("r", r).p("f", f).p("v", v).p("cap", cap()).p("x", x).idle(!x.equals("ok")).end();
                }
                case "obs" -> {
                    final TreeSet<Integer> rows = new TreeSet<>();
                    for (int i = 0; i < 12; i++) {
                        rows.add(i);
                    }
                    final int cap = cap();
                    for (int d = -2; d <= 2; d++) {
                        rows.add(Math.max(0, cap + d));
                        for (long r : touched) {
                            rows.add((int) Math.max(0, Math.min(Integer.MAX_VALUE, r + d)));
                            rows.add((int) Math.max(0, Math.min(Integer.MAX_VALUE, r + d * (long) chunk)));
                        }
                    }
                    final List<Integer> rs = new ArrayList<>();
                    final List<Integer> fs = new ArrayList<>();
                    final List<Integer> vs = new ArrayList<>();
                    int n = 0;
                    for (int r : rows) {
                        for (int f = 0; f < fields && n < 4000; f++, n++) {
                            int v = -7;
                            try {
                                v = pal.rank(get(r, f));
                            } catch (Throwable z) {
                                x = H.code(z);
                            }
                            // cells that read as the default are only listed by number
                            if (v != 0) {
                                rs.add(r);
                                fs.add(f);
                                vs.add(v);
                            }
                        }
                    }
                    final boolean all = n < 4000;
                    log.ev("obs").p("rows", new ArrayList<>(rows)).p("all", all).p("r", rs).p("f", fs).p("v", vs)
                            .p("cap", cap()).p("x", x).end();
                }
                case "reach" -> {
                    if (!Types.isRef(type)) {
                        return;
                    }
                    final TreeSet<Integer> vs = new TreeSet<>();
                    for (Object v : Reach.from(c)) {
                        if (pal.rank(v) != Types.UNKNOWN) {
                            vs.add(pal.rank(v));
                        }
                    }
                    log.ev("reach").p("vs", new ArrayList<>(vs)).end();
                }
                default -> throw new H.Infra("op " + t[0], null);
            }
        }
    }
}
