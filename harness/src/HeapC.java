import java.util.ArrayList;
import java.util.HashMap;
import java.util.List;
import java.util.Map;
import java.util.TreeSet;

/** Heaps. */
public final class HeapC implements H.Component {
    @Override
    public List<String> targets(final H.Scenario s) {
        final List<String> out = new ArrayList<>();
        for (int i = 0; i < Types.KEYS.length; i++) {
            for (int v = 0; v < 10; v++) {
                final int d = Math.floorMod(v - i - s.i("rot", 0), 10);
                if (s.i("all", 0) == 1 || d < s.i("width", 2)) {
                    out.add(Types.KEYS[i] + "," + Types.ALL[v]);
                }
            }
        }
        if (s.i("ref", 0) == 1) {
            out.removeIf(t -> !t.contains("String") && !t.contains("Generic"));
        }
        return out;
    }

    static final int TYPE_DEFAULT = -50;

    @Override
    public boolean small(final H.Scenario s) {
        return s.ops.size() <= 400;
    }

    @Override
    public void run(final H.Scenario s, final String target, final H.Log log) throws Throwable {
        new Run(s, target, log).run();
    }

    private static final class Run {
        static final Class<?>[] NONE = {};
        static final Class<?>[] I = {int.class};
        final H.Scenario s;
        final H.Log log;
        final String kt;
        final String vt;
        final Class<?> cls;
        final Class<?> kj;
        final Class<?> vj;
        final Types.Palette kp;
        final Types.Palette vp;
        final int keys;
        Object c;
        final List<Integer> active = new ArrayList<>();
        final Map<String, Object> cmps = new HashMap<>();

        Run(final H.Scenario s, final String target, final H.Log log) {
            inner = new H.Inner(s.id);
            this.s = s;
            this.log = log;
            final int comma = target.indexOf(',');
            kt = target.substring(0, comma);
            vt = target.substring(comma + 1);
            cls = H.cls("heap." + kt + vt + "Heap");
            kj = Types.javaType(kt);
            vj = Types.javaType(vt);
            final int k = s.i("K", 6);
            kp = new Types.Palette(kt, s.s("pal", "ord"), k);
            vp = new Types.Palette(vt, "val", 12);
            keys = Math.min(k, kp.size());
        }

        Object call(final String name, final Class<?>[] t, final Object... a) throws Throwable {
            return H.call(H.m(cls, name, t), c, a);
        }

        int kRank(final Object v) {
            final int r = kp.rank(v);
            if (r == Types.UNKNOWN && java.util.Objects.equals(Types.canon(v), Types.defaultOf(kt))) {
                return TYPE_DEFAULT;
            }
            return r;
        }

        int vRank(final Object v) {
            return vp.rank(v);
        }

        Object key(final int r) {
            return kp.value(r, log.salt++);
        }

        int kr(final String tok) {
            return Integer.parseInt(tok) % keys;
        }

        int vr(final String tok) {
            return Integer.parseInt(tok) % vp.size();
        }

        /** The entry a token names: aN an active one, eN that number. */
        Integer entry(final String tok) {
            if (tok.charAt(0) == 'a') {
                return active.isEmpty() ? null : active.get(Integer.parseInt(tok.substring(1)) % active.size());
            }
            return Integer.parseInt(tok.substring(1));
        }

        void run() throws Throwable {
            c = H.make(cls, I, s.i("cap", 2));
            log.ev("new").p("cap", s.i("cap", 2)).p("dk", kRank(Types.defaultOf(kt)))
                    .p("dv", vRank(Types.defaultOf(vt))).end();
            for (String[] t : s.ops) {
                op(t);
            }
        }

        Object cmp(final String name) throws Throwable {
            if (name.equals("asc") || name.equals("desc")) {
                final Class<?> holder = H.cls("types." + kt + "Type");
                return holder.getField(name.equals("asc") ? "Asc" : "Desc").get(null);
            }
            return cmps.computeIfAbsent(name, n -> H.proxy(H.cls("types." + kt + "Type$Cmp"), a -> {
                final int p = kp.rank(a[0]);
                final int q = kp.rank(a[1]);
                if (n.startsWith("x") && (p == n.charAt(1) - '0' || q == n.charAt(1) - '0')) {
                    throw new H.Boom();
                }
                return switch (n) {
                    case "cr", "x0", "x1", "x2" -> Integer.compare(p, q);
                    case "cd" -> q - p;
                    case "cm2" -> 100 * Integer.compare(p % 2, q % 2);
                    case "cm3" -> Integer.compare(p % 3, q % 3);
                    default -> 0;
                };
            }));
        }

        void op(final String[] t) throws Throwable {
            String x = "ok";
            switch (t[0]) {
                case "ins", "insv" -> {
                    final int k = kr(t[1]);
                    final int v = t[0].equals("insv") ? vr(t[2]) : -1;
                    int e = -7;
                    try {
                        e = (Integer) (v >= 0
                                ? call("insert", new Class<?>[] {kj, vj}, key(k), vp.value(v, log.salt++))
                                : call("insert", new Class<?>[] {kj}, key(k)));
                        active.add(e);
                    } catch (Throwable z) {
                        x = H.code(z);
                    }
                    log.ev("ins").p("k", k).p("v", v).p("e", e).p("x", x).idle(!x.equals("ok")).end();
                }
                case "rat", "rtop" -> {
                    Integer e = null;
                    if (t[0].equals("rtop") && active.isEmpty()) {
                        return;
                    }
                    try {
                        e = t[0].equals("rtop") ? (Integer) call("peek", NONE) : entry(t[1]);
                    } catch (Throwable z) {
                        log.ev("peek").p("e", -7).p("x", H.code(z)).end();
                    }
                    if (e == null) {
                        return;
                    }
                    final boolean idle = !active.contains(e);
                    try {
                        call("removeAt", I, e);
                        active.remove(e);
                    } catch (Throwable z) {
                        x = H.code(z);
                    }
                    log.ev("rat").p("e", e).p("x", x).idle(idle).end();
                }
                case "rst" -> {
                    final Integer e = entry(t[1]);
                    if (e == null || !active.contains(e)) {
                        return;
                    }
                    final int k = kr(t[2]);
                    try {
                        call("resetKey", new Class<?>[] {int.class, kj}, e, key(k));
                    } catch (Throwable z) {
                        x = H.code(z);
                    }
                    log.ev("rst").p("e", e).p("k", k).p("x", x).idle(!x.equals("ok")).end();
                }
                case "clr" -> {
                    try {
                        call("clear", NONE);
                        active.clear();
                    } catch (Throwable z) {
                        x = H.code(z);
                    }
                    log.ev("clr").p("x", x).end();
                }
                case "cmp" -> {
                    final Object cm = t[1].equals("null") ? null : cmp(t[1]);
                    boolean same = false;
                    try {
                        call("setComparator", new Class<?>[] {H.cls("types." + kt + "Type$Cmp")}, cm);
                        same = call("getComparator", NONE) == cm;
                    } catch (Throwable z) {
                        x = H.code(z);
                    }
                    log.ev("cmp").p("c", t[1]).p("b", same).p("x", x).idle(!x.equals("ok")).end();
                }
                case "defk" -> {
                    final int w = kr(t[1]);
                    // the zeros are one default, though an order tells them apart
                    final int k = kp.isMinusZero(w) ? kr(String.valueOf(w + 1)) : w;
                    try {
                        call("setDefaultKey", new Class<?>[] {kj}, key(k));
                    } catch (Throwable z) {
                        x = H.code(z);
                    }
                    log.ev("defk").p("k", k).p("x", x).idle(!active.isEmpty()).end();
                }
                case "defv" -> {
                    final int v = vr(t[1]);
                    try {
                        call("setDefaultValue", new Class<?>[] {vj}, vp.value(v, log.salt++));
                    } catch (Throwable z) {
                        x = H.code(z);
                    }
                    log.ev("defv").p("v", v).p("x", x).idle(!active.isEmpty()).end();
                }
                case "svat" -> {
                    final Integer e = entry(t[1]);
                    if (e == null || !active.contains(e)) {
                        return;
                    }
                    final int v = vr(t[2]);
                    try {
                        call("setValueAt", new Class<?>[] {int.class, vj}, e, vp.value(v, log.salt++));
                    } catch (Throwable z) {
                        x = H.code(z);
                    }
                    log.ev("svat").p("e", e).p("v", v).p("x", x).end();
                }
                case "peek" -> {
                    int e = -7;
                    try {
                        e = (Integer) call("peek", NONE);
                    } catch (Throwable z) {
                        x = H.code(z);
                    }
                    log.ev("peek").p("e", e).p("x", x).idle(active.isEmpty()).end();
                }
                case "drain" -> {
                    final boolean idle = active.isEmpty();
                    final List<Integer> l = new ArrayList<>();
                    try {
                        while (!(Boolean) call("isEmpty", NONE)) {
                            final int e = (Integer) call("peek", NONE);
                            l.add(e);
                            if (l.size() > 2000) {
                                throw new H.Overrun();
                            }
                            call("removeAt", I, e);
                        }
                        active.clear();
                    } catch (Throwable z) {
                        x = H.code(z);
                    }
                    log.ev("drain").p("l", l).p("x", x).idle(idle).end();
                    if (!x.equals("ok")) {
                        active.removeAll(l);
                    }
                }
                case "swp" -> {
                    final boolean idle = active.isEmpty();
                    final int th = H.thrown(t);
                    final int m = Integer.parseInt(t[1]);
                    final int r = Integer.parseInt(t[2]);
                    final List<Integer> l = new ArrayList<>();
                    final List<Integer> rm = new ArrayList<>();
                    try {
                        final Class<?> itf = java.util.function.IntConsumer.class;
                        call("forEachEntry", new Class<?>[] {itf}, H.proxy(itf, a -> {
                            final int e = (Integer) a[0];
                            H.add(l, e);
                            if (l.size() == th + 1) {
                                throw new H.Boom();
                            }
                            if (e % m == r) {
                                call("removeAt", I, e);
                                rm.add(e);
                            }
                            return null;
                        }));
                    } catch (Throwable z) {
                        x = H.code(z);
                    }
                    active.removeAll(rm);
                    log.ev("swp").p("l", l).p("rm", rm).p("x", x);
                    if (th >= 0) {
                        log.p("th", th);
                    }
                    log.idle(idle || th >= 0 && rm.isEmpty()).end();
                }
                case "obs" -> obs();
                case "reach" -> reach();
                default -> throw new H.Infra("op " + t[0], null);
            }
        }

        int guarded(final H.Fn f) {
            try {
                return (Integer) f.apply(null);
            } catch (H.Infra z) {
                throw z;
            } catch (Throwable z) {
                return H.code(z).equals("IOOBE") ? -60 : -8;
            }
        }

        private final H.Inner inner;

        void obs() {
            inner.look(1);
            String x = "ok";
            int n = -7;
            boolean b = false;
            int cap = -7;
            int pk = -8;
            int dk = -8;
            int dv = -8;
            final List<Integer> valid = new ArrayList<>();
            final List<Integer> fe = new ArrayList<>();
            final List<Integer> ks = new ArrayList<>();
            final List<Integer> vs = new ArrayList<>();
            final List<Integer> vd = new ArrayList<>();
            final int[] ff = new int[keys];
            final boolean[] ck = new boolean[keys];
            int lim = 0;
            try {
                n = (Integer) call("getSize", NONE);
                b = (Boolean) call("isEmpty", NONE);
                cap = (Integer) call("getCapacity", NONE);
                pk = guarded(a -> call("peek", NONE));
                dk = kRank(call("getDefaultKey", NONE));
                dv = vRank(call("getDefaultValue", NONE));
                for (int e = -3; e < cap + 3; e++) {
                    if ((Boolean) call("isValidEntry", I, e)) {
                        valid.add(e);
                    }
                }
                final Class<?> itf = java.util.function.IntConsumer.class;
                call("forEachEntry", new Class<?>[] {itf}, H.proxy(itf, a -> {
                    inner.at(0, this::obs);
                    return H.add(fe, (Integer) a[0]);
                }));
                lim = Math.min(cap, n + 4);
                for (int e = 0; e < lim; e++) {
                    final int f = e;
                    ks.add(guarded(a -> kRank(call("getKeyAt", I, f))));
                    vs.add(guarded(a -> vRank(call("getValueAt", I, f))));
                }
                for (int e : new int[] {-1, cap, cap + 5}) {
                    vd.add(guarded(a -> vRank(call("getValueAtOrDefault", new Class<?>[] {int.class, vj}, e,
                            vp.value(1, 0)))));
                }
                for (int e = 0; e < lim; e++) {
                    final int f = e;
                    vd.add(guarded(a -> vRank(call("getValueAtOrDefault", new Class<?>[] {int.class, vj}, f,
                            vp.value(1, 0)))));
                }
                for (int k = 0; k < keys; k++) {
                    try {
                        ff[k] = (Integer) call("getFirstEntry", new Class<?>[] {kj}, key(k));
                        ck[k] = (Boolean) call("containsKey", new Class<?>[] {kj}, key(k));
                    } catch (H.Boom z) {
                        ff[k] = -9;
                        ck[k] = false;
                    }
                }
            } catch (Throwable z) {
                x = H.code(z);
            }
            inner.done(this::obs);
            log.ev("obs").p("n", n).p("b", b).p("cap", cap).p("pk", pk).p("dk", dk).p("dv", dv).p("valid", valid);
            log.p("fe", H.sorted(fe)).p("ks", ks).p("vs", vs).p("vd", vd).p("ff", ff).p("ck", ck).p("x", x).end();
        }

        void reach() {
            final boolean kref = Types.isRef(kt);
            final boolean vref = Types.isRef(vt);
            if (!kref && !vref) {
                return;
            }
            final TreeSet<Integer> ks = new TreeSet<>();
            final TreeSet<Integer> vs = new TreeSet<>();
            for (Object v : Reach.from(c)) {
                if (kref && vref && kp.rank(v) != Types.UNKNOWN && vp.rank(v) != Types.UNKNOWN) {
                    continue; // may be either
                }
                if (kref && kp.rank(v) != Types.UNKNOWN) {
                    ks.add(kp.rank(v));
                } else if (vref && vp.rank(v) != Types.UNKNOWN) {
                    vs.add(vp.rank(v));
                }
            }
            log.ev("reach").p("ks", new ArrayList<>(ks)).p("vs", new ArrayList<>(vs)).end();
        }
    }
}
