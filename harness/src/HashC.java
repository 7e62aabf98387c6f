import java.lang.reflect.Method;
import java.util.ArrayList;
import java.util.HashMap;
import java.util.List;
import java.util.Map;
import java.util.TreeMap;
import java.util.TreeSet;

/** Indexed sets and maps. */
public final class HashC implements H.Component {
    @Override
    public List<String> targets(final H.Scenario s) {
        final List<String> out = new ArrayList<>();
        final boolean custom = s.i("custom", 0) == 1;
        final int n = s.i("rot", 0);
        final String only = s.s("only", "");
        for (int i = 0; i < Types.KEYS.length; i++) {
            final String k = Types.KEYS[i];
            if (custom && !(k.equals("Double") || k.equals("Float") || Types.isRef(k))) {
                continue;
            }
            if (s.i("sets", 1) == 1) {
                out.add(k);
            }
            if (s.i("maps", 1) == 1) {
                for (int v = 0; v < 10; v++) {
                    if (s.i("all", 0) == 1 || v == (i + n) % 10) {
                        out.add(k + "," + Types.ALL[v]);
                    }
                }
            }
        }
        if (s.i("ref", 0) == 1) {
            out.removeIf(t -> !t.contains("String") && !t.contains("Generic"));
        }
        if (!only.isEmpty()) {
            out.removeIf(t -> !t.equals(only));
        }
        return out;
    }

    private static final class Obj {
        Object c;
        final TreeMap<Integer, Integer> ent = new TreeMap<>(); // class -> entry, as last returned
        final List<Integer> reserved = new ArrayList<>();
        int m = 1000;
        int bad = -1; // the key that the hash function refuses
    }

    private static final class It {
        Object it;
        Obj c;
        int o;
        boolean at;
    }

    @Override
    public boolean small(final H.Scenario s) {
        return s.ops.size() <= 400;
    }

    @Override
    public void run(final H.Scenario s, final String target, final H.Log log) throws Throwable {
        new Run(s, target, log).run();
    }

    private static final class Run {
        final H.Scenario s;
        final H.Log log;
        final String kt;
        final String vt;
        final boolean map;
        final Class<?> cls;
        final Class<?> kj;
        final Class<?> vj;
        final Types.Palette kp;
        final Types.Palette vp;
        final int keys;
        final Obj[] objs = {new Obj(), new Obj()};
        final Map<Integer, It> its = new HashMap<>();

        Run(final H.Scenario s, final String target, final H.Log log) {
            inner = new H.Inner(s.id);
            this.s = s;
            this.log = log;
            final int comma = target.indexOf(',');
            map = comma >= 0;
            kt = map ? target.substring(0, comma) : target;
            vt = map ? target.substring(comma + 1) : null;
            cls = H.cls("hash." + kt + (map ? vt + "IndexedMap" : "IndexedSet"));
            kj = Types.javaType(kt);
            vj = map ? Types.javaType(vt) : null;
            final int k = s.i("K", 8);
            kp = new Types.Palette(kt, s.s("pal", "seq"), k);
            vp = map ? new Types.Palette(vt, "val", 12) : null;
            keys = Math.min(k, kp.size());
        }

        Object key(final int r) {
            return kp.value(r, log.salt++);
        }

        int kr(final String tok) {
            return Integer.parseInt(tok) % keys;
        }

        int vr(final String tok) {
            return map ? Integer.parseInt(tok) % vp.size() : 0;
        }

        Object call(final String name, final Obj o, final Class<?>[] t, final Object... a) throws Throwable {
            return H.call(H.m(cls, name, t), o.c, a);
        }

        static final Class<?>[] NONE = {};
        static final Class<?>[] I = {int.class};

        void create(final int oi, final int cap, final String lf) throws Throwable {
            final Obj o = new Obj();
            objs[oi] = o;
            o.c =
                    lf.equals("-")
                            ? H.make(cls, I, cap)
                            : H.make(cls, new Class<?>[] {int.class, double.class}, cap, Double.parseDouble(lf));
            log.ev("new").p("o", oi).p("map", map).p("c", cap).p("cap", (Integer) call("capacity", o, NONE))
                    .p("lf", lf.equals("-") ? 750 : (int) Math.round(1000 * Double.parseDouble(lf))).end();
        }

        void run() throws Throwable {
            create(0, s.i("cap", 4), s.s("lf", "-"));
            for (String[] t : s.ops) {
                op(t);
            }
        }

        void structural(final Obj o, final int entry) {
            o.ent.values().remove(entry);
        }

        void op(final String[] t) throws Throwable {
            final int oi = t[0].startsWith("it") && !t[0].equals("itw") ? 0 : Integer.parseInt(t[1]);
            final Obj o = objs[oi];
            if (o.c == null && !t[0].equals("new")) {
                create(oi, s.i(oi == 0 ? "cap" : "cap2", 4), s.s(oi == 0 ? "lf" : "lf2", s.s("lf", "-")));
                op(t);
                return;
            }
            switch (t[0]) {
                case "new" -> create(oi, Integer.parseInt(t[2]), t[3]);
                case "add", "put" -> {
                    final int k = kr(t[2]);
                    final boolean put = map && t[0].equals("put");
                    final int v = put ? vr(t[3]) : 0;
                    final boolean idle = !put && o.ent.containsKey(k % o.m) || k == o.bad;
                    int e = -7;
                    String x = "ok";
                    try {
                        e = (Integer) (put
                                ? call("put", o, new Class<?>[] {kj, vj}, key(k), vp.value(v, log.salt++))
                                : call("add", o, new Class<?>[] {kj}, key(k)));
                        o.ent.put(k % o.m, e);
                    } catch (Throwable z) {
                        x = H.code(z);
                    }
                    log.ev(put ? "put" : "add").p("o", oi).p("k", k);
                    if (put) {
                        log.p("v", v);
                    }
                    log.p("e", e).p("x", x).idle(idle).end();
                }
                case "get", "getd" -> {
                    if (!map) {
                        return;
                    }
                    final int k = kr(t[2]);
                    final int d = t[0].equals("getd") ? vr(t[3]) : 0;
                    int v = -7;
                    String x = "ok";
                    try {
                        v = vp.rank(t[0].equals("get")
                                ? call("get", o, new Class<?>[] {kj}, key(k))
                                : call("getOrDefault", o, new Class<?>[] {kj, vj}, key(k), vp.value(d, log.salt++)));
                    } catch (Throwable z) {
                        x = H.code(z);
                    }
                    log.ev(t[0]).p("o", oi).p("k", k).p("d", d).p("v", v).p("x", x).idle(x.equals("KNF") || k == o.bad).end();
                }
                case "va", "pva", "ka" -> { // by the entry of a present key, or of a reserved entry
                    final int k = kr(t[2]);
                    Integer e = o.ent.get(k % o.m);
                    if (e == null && !o.reserved.isEmpty()) {
                        e = o.reserved.get(k % o.reserved.size());
                    }
                    if (e == null || !map && !t[0].equals("ka")) {
                        return;
                    }
                    int v = -7;
                    String x = "ok";
                    try {
                        if (t[0].equals("va")) {
                            v = vp.rank(call("getValueAt", o, I, e));
                        } else if (t[0].equals("pva")) {
                            v = vr(t[3]);
                            call("putValueAt", o, new Class<?>[] {int.class, vj}, e, vp.value(v, log.salt++));
                        } else {
                            v = kp.rank(call("getKeyAt", o, I, e));
                        }
                    } catch (Throwable z) {
                        x = H.code(z);
                    }
                    log.ev(t[0]).p("o", oi).p("e", e).p("v", v).p("x", x).end();
                }
                case "vd" -> {
                    if (!map) {
                        return;
                    }
                    final int e = Integer.parseInt(t[2]);
                    final int d = vr(t[3]);
                    int v = -7;
                    String x = "ok";
                    try {
                        v = vp.rank(call("getValueAtOrDefault", o, new Class<?>[] {int.class, vj}, e,
                                vp.value(d, log.salt++)));
                    } catch (Throwable z) {
                        x = H.code(z);
                    }
                    log.ev("vd").p("o", oi).p("e", e).p("d", d).p("v", v).p("x", x).end();
                }
                case "rem" -> {
                    final int k = kr(t[2]);
                    final boolean idle = !o.ent.containsKey(k % o.m);
                    int e = -7;
                    String x = "ok";
                    try {
                        e = (Integer) call("remove", o, new Class<?>[] {kj}, key(k));
                        o.ent.remove(k % o.m);
                    } catch (Throwable z) {
                        x = H.code(z);
                    }
                    log.ev("rem").p("o", oi).p("k", k).p("e", e).p("x", x).idle(idle).end();
                }
                case "ratk", "rate", "rsvk", "rsve" -> {
                    final boolean byKey = t[0].endsWith("k");
                    final Integer e = byKey ? o.ent.get(kr(t[2]) % o.m) : (Integer) Integer.parseInt(t[2]);
                    if (e == null) {
                        return;
                    }
                    final boolean rsv = t[0].startsWith("rsv");
                    final boolean idle = !o.ent.containsValue(e);
                    String x = "ok";
                    try {
                        call(rsv ? "removeAtAndReserve" : "removeAt", o, I, e);
                        if (o.ent.values().remove(e) && rsv) {
                            o.reserved.add(e);
                        }
                    } catch (Throwable z) {
                        x = H.code(z);
                    }
                    log.ev(rsv ? "rsv" : "rat").p("o", oi).p("e", e).p("x", x).idle(idle).end();
                }
                case "frse" -> {
                    final Integer e = Integer.parseInt(t[2]);
                    if (!o.reserved.remove(e)) {
                        return;
                    }
                    free(oi, o, e);
                }
                case "frs" -> {
                    if (o.reserved.isEmpty()) {
                        return;
                    }
                    free(oi, o, o.reserved.remove(Integer.parseInt(t[2]) % o.reserved.size()));
                }
                case "ck", "lk" -> {
                    final int k = kr(t[2]);
                    int e = -7;
                    boolean b = false;
                    String x = "ok";
                    try {
                        if (t[0].equals("ck")) {
                            b = (Boolean) call("containsKey", o, new Class<?>[] {kj}, key(k));
                        } else {
                            e = (Integer) call("lookupEntry", o, new Class<?>[] {kj}, key(k));
                        }
                    } catch (Throwable z) {
                        x = H.code(z);
                    }
                    log.ev(t[0]).p("o", oi).p("k", k).p("e", e).p("b", b).p("x", x).idle(k == o.bad).end();
                }
                case "sz" -> {
                    int n = -7;
                    boolean b = false;
                    String x = "ok";
                    try {
                        n = (Integer) call("size", o, NONE);
                        b = (Boolean) call("isEmpty", o, NONE);
                    } catch (Throwable z) {
                        x = H.code(z);
                    }
                    log.ev("sz").p("o", oi).p("n", n).p("b", b).p("x", x).end();
                }
                case "clr" -> {
                    String x = "ok";
                    try {
                        call("clear", o, NONE);
                        o.ent.clear();
                        o.reserved.clear();
                    } catch (Throwable z) {
                        x = H.code(z);
                    }
                    log.ev("clr").p("o", oi).p("x", x).end();
                }
                case "cpy" -> {
                    final int pi = Integer.parseInt(t[2]);
                    final Obj p = objs[pi];
                    if (p.c == null) {
                        create(pi, s.i(pi == 0 ? "cap" : "cap2", 1), s.s(pi == 0 ? "lf" : "lf2", s.s("lf", "-")));
                        op(t);
                        return;
                    }
                    String x = "ok";
                    try {
                        call("copyFrom", o, new Class<?>[] {cls}, objs[pi].c);
                        if (oi != pi) {
                            o.ent.clear();
                            o.ent.putAll(objs[pi].ent);
                            o.reserved.clear();
                            o.reserved.addAll(objs[pi].reserved);
                            o.m = objs[pi].m;
                            o.bad = objs[pi].bad;
                        }
                    } catch (Throwable z) {
                        x = H.code(z);
                    }
                    log.ev("cpy").p("o", oi).p("p", pi).p("x", x).end();
                }
                case "fee", "fek", "fev" -> forEach(oi, o, t);
                case "itw" -> walk(oi, o, t);
                case "itn" -> itn(t);
                case "itx" -> {
                    final It it = its.get(Integer.parseInt(t[1]));
                    if (it == null) {
                        return;
                    }
                    boolean b = false;
                    int e = -7;
                    String x = "ok";
                    try {
                        b = ((com.bytefacets.collections.EntryIterator) it.it).next();
                        it.at = b;
                        if (b) {
                            e = ((com.bytefacets.collections.EntryIterator) it.it).currentEntry();
                        }
                    } catch (Throwable z) {
                        x = H.code(z);
                    }
                    log.ev("itx").p("s", Integer.parseInt(t[1])).p("b", b).p("e", e).p("x", x).end();
                }
                case "itr" -> {
                    final It it = its.get(Integer.parseInt(t[1]));
                    if (it == null || !it.at) {
                        return;
                    }
                    String x = "ok";
                    try {
                        final int e = ((com.bytefacets.collections.EntryIterator) it.it).currentEntry();
                        ((com.bytefacets.collections.EntryIterator) it.it).remove();
                        objs[it.o].ent.values().remove(e);
                    } catch (Throwable z) {
                        x = H.code(z);
                    }
                    log.ev("itr").p("s", Integer.parseInt(t[1])).p("x", x).end();
                }
                case "strat" -> strat(oi, o, t[2], t[3], t[4], t.length > 5 && t[2].equals("h") && o.m == 1000 ? keys - 1 : -1);
                case "obs" -> obs(oi, o);
                case "reach" -> reach(oi, o);
                default -> throw new H.Infra("op " + t[0], null);
            }
        }

        void free(final int oi, final Obj o, final int e) {
            String x = "ok";
            try {
                call("freeReservedEntry", o, I, e);
            } catch (Throwable z) {
                x = H.code(z);
            }
            log.ev("frs").p("o", oi).p("e", e).p("x", x).end();
        }

        void itn(final String[] t) throws Throwable {
            final int slot = Integer.parseInt(t[1]);
            final int oi = Integer.parseInt(t[2]);
            int mode = Integer.parseInt(t[3]);
            final Obj o = objs[oi];
            if (o.c == null) {
                return;
            }
            final It old = its.get(slot);
            final It it = new It();
            it.o = oi;
            if (old == null || old.o != oi || !current(old, o)) {
                mode = 0;
            }
            String x = "ok";
            try {
                if (mode == 0) {
                    it.it = call("iterator", o, NONE);
                } else if (mode == 1) {
                    it.it = call("iterator", o,
                            new Class<?>[] {com.bytefacets.collections.EntryIterator.class}, old.it);
                } else {
                    ((com.bytefacets.collections.EntryIterator) old.it).reset();
                    it.it = old.it;
                }
            } catch (Throwable z) {
                x = H.code(z);
            }
            it.c = o;
            its.put(slot, it);
            log.ev("itn").p("s", slot).p("o", oi).p("x", x).end();
        }

        static boolean current(final It it, final Obj o) {
            return it.c == o;
        }

        void walk(final int oi, final Obj o, final String[] t) throws Throwable {
            final int q = Integer.parseInt(t[2]);
            final int r = Integer.parseInt(t[3]);
            final List<Integer> seen = new ArrayList<>();
            final List<Integer> removed = new ArrayList<>();
            String x = "ok";
            try {
                final com.bytefacets.collections.EntryIterator it =
                        (com.bytefacets.collections.EntryIterator) call("iterator", o, NONE);
                while (it.next()) {
                    final int e = it.currentEntry();
                    seen.add(e);
                    if (seen.size() > 5000) {
                        throw new H.Overrun();
                    }
                    if (H.picks(q, r, e, seen.size() - 1)) {
                        it.remove();
                        removed.add(e);
                        o.ent.values().remove(e);
                    }
                }
            } catch (Throwable z) {
                x = H.code(z);
            }
            log.ev("itw").p("o", oi).p("l", H.sorted(seen)).p("r", H.sorted(removed)).p("x", x).end();
        }

        void forEach(final int oi, final Obj o, final String[] t) throws Throwable {
            final int q = Integer.parseInt(t[2]);
            final int r = Integer.parseInt(t[3]);
            final List<Integer> seen = new ArrayList<>();
            final List<Integer> removed = new ArrayList<>();
            String x = "ok";
            final boolean values = t[0].equals("fev");
            final int th = H.thrown(t);
            if (values && !map) {
                return;
            }
            try {
                if (t[0].equals("fee")) {
                    final Class<?> itf = H.cls("functional.IntConsumer");
                    call("forEachEntry", o, new Class<?>[] {itf}, H.proxy(itf, a -> {
                        final int e = (Integer) a[0];
                        seen.add(e);
                        if (seen.size() > 5000) {
                            throw new H.Overrun();
                        }
                        if (seen.size() == th + 1) {
                            throw new H.Boom();
                        }
                        if (H.picks(q, r, e, seen.size() - 1)) {
                            call("removeAt", o, I, e);
                            removed.add(e);
                            o.ent.values().remove(e);
                        }
                        return null;
                    }));
                } else {
                    final Class<?> itf = H.cls("functional." + (values ? vt : kt) + "Consumer");
                    // entries by value: a value that one entry has tells which entry is being visited
                    final Map<Integer, List<Integer>> byValue = new HashMap<>();
                    if (values && q != 0) {
                        for (int e : o.ent.values()) {
                            byValue.computeIfAbsent(vp.rank(call("getValueAt", o, I, e)), y -> new ArrayList<>()).add(e);
                        }
                    }
                    call(values ? "forEachValue" : "forEach", o, new Class<?>[] {itf}, H.proxy(itf, a -> {
                        final int k = (values ? vp : kp).rank(a[0]);
                        seen.add(k);
                        if (seen.size() > 5000) {
                            throw new H.Overrun();
                        }
                        if (seen.size() == th + 1) {
                            throw new H.Boom();
                        }
                        if (values && byValue.getOrDefault(k, List.of()).size() == 1) {
                            final int e = byValue.get(k).get(0);
                            if (H.picks(q, r, e, seen.size() - 1)) {
                                call("removeAt", o, I, e);
                                removed.add(e);
                                o.ent.values().remove(e);
                                byValue.remove(k);
                            }
                        }
                        if (!values && H.picks(q, r, k, seen.size() - 1)) {
                            removed.add((Integer) call("remove", o, new Class<?>[] {kj}, a[0]));
                            o.ent.remove(k % o.m);
                        }
                        return null;
                    }));
                }
            } catch (Throwable z) {
                x = H.code(z);
            }
            log.ev(t[0]).p("o", oi).p("l", H.sorted(seen)).p("r", H.sorted(removed)).p("x", x);
            if (th >= 0) {
                log.p("th", th).idle(removed.isEmpty());
            }
            log.end();
        }

        /** which: h (hash only), e (equality and hash). */
        void strat(final int oi, final Obj o, final String which, final String fn, final String mod, final int bad)
                throws Throwable {
            final boolean settable = kt.equals("Double") || kt.equals("Float") || Types.isRef(kt);
            if (!settable) {
                return;
            }
            final Class<?> hashItf = H.cls("types." + kt + "Type$Hash");
            final Class<?> eqItf = H.cls("types." + kt + "Type$Eq");
            final int m = which.equals("e") ? Integer.parseInt(mod) : o.m;
            final Object hash = H.proxy(hashItf, a -> {
                final int r = kp.rank(a[0]);
                if (r == bad && r >= 0) {
                    throw new H.Boom();
                }
                final int c = r < 0 ? -1 : r % m;
                return switch (fn) {
                    case "zero" -> 0;
                    case "m1" -> -1;
                    case "min" -> Integer.MIN_VALUE;
                    case "minr" -> Integer.MIN_VALUE + c;
                    case "neg" -> -c;
                    case "hi" -> c << 16;
                    case "max" -> Integer.MAX_VALUE - c;
                    default -> c;
                };
            });
            String x = "ok";
            try {
                call("setHashMethod", o, new Class<?>[] {hashItf}, hash);
                o.bad = bad;
            } catch (Throwable z) {
                x = H.code(z);
            }
            if (which.equals("e")) {
                final Object eq = H.proxy(eqItf, a -> {
                    final int p = kp.rank(a[0]);
                    final int q = kp.rank(a[1]);
                    return p >= 0 && q >= 0 ? p % m == q % m : p == q;
                });
                String y = "ok";
                try {
                    call("setEqMethod", o, new Class<?>[] {eqItf}, eq);
                    o.m = m;
                } catch (Throwable z) {
                    y = H.code(z);
                }
                log.ev("strat").p("o", oi).p("eq", true).p("m", m).p("bad", bad).p("x", x).p("y", y).idle(!o.ent.isEmpty()).end();
            } else {
                log.ev("strat").p("o", oi).p("eq", false).p("m", m).p("bad", bad).p("x", x).p("y", x).idle(!o.ent.isEmpty()).end();
            }
        }

        private final H.Inner inner;

        private Object seen(final int place, final int oi, final Obj o, final List<Integer> l, final int v) {
            inner.at(place, () -> obs(oi, o));
            return add(l, v);
        }

        /** -1 if the collection has nothing to say about the key that its hash function refuses. */
        private int refused(final Obj o, final int k) throws Throwable {
            try {
                return -2 + 0 * (Integer) call("lookupEntry", o, new Class<?>[] {kj}, key(k));
            } catch (H.Boom z) {
                return -1;
            }
        }

        void obs(final int oi, final Obj o) {
            inner.look(4);
            int n = -7;
            boolean empty = false;
            int cap = -7;
            String x = "ok";
            final int[] lk = new int[keys];
            final boolean[] ck = new boolean[keys];
            final int[] ka = new int[keys];
            final int[] gv = new int[map ? keys : 0];
            final int[] gd = new int[map ? keys : 0];
            final int[] gx = new int[map ? keys : 0];
            final List<Integer> fe = new ArrayList<>();
            final List<Integer> fk = new ArrayList<>();
            final List<Integer> fv = new ArrayList<>();
            final List<Integer> it = new ArrayList<>();
            try {
                n = (Integer) call("size", o, NONE);
                empty = (Boolean) call("isEmpty", o, NONE);
                cap = (Integer) call("capacity", o, NONE);
                for (int k = 0; k < keys; k++) {
                    if (k == o.bad) {
                        lk[k] = refused(o, k);
                        ka[k] = -1;
                        if (map) {
                            gd[k] = 1;
                            gx[k] = -1;
                            gv[k] = -1;
                        }
                        continue;
                    }
                    lk[k] = (Integer) call("lookupEntry", o, new Class<?>[] {kj}, key(k));
                    ck[k] = (Boolean) call("containsKey", o, new Class<?>[] {kj}, key(k));
                    ka[k] = lk[k] < 0 ? -1 : kp.rank(call("getKeyAt", o, I, lk[k]));
                    if (map) {
                        gd[k] = vp.rank(call("getOrDefault", o, new Class<?>[] {kj, vj}, key(k), vp.value(1, 0)));
                        gx[k] = lk[k] < 0 ? -1 : vp.rank(call("getValueAt", o, I, lk[k]));
                        try {
                            gv[k] = vp.rank(call("get", o, new Class<?>[] {kj}, key(k)));
                        } catch (Throwable z) {
                            gv[k] = H.code(z).equals("KNF") ? -1 : -8;
                        }
                    }
                }
                final Class<?> itf = H.cls("functional.IntConsumer");
                call("forEachEntry", o, new Class<?>[] {itf}, H.proxy(itf, a -> seen(0, oi, o, fe, (Integer) a[0])));
                final Class<?> kf = H.cls("functional." + kt + "Consumer");
                call("forEach", o, new Class<?>[] {kf}, H.proxy(kf, a -> seen(1, oi, o, fk, kp.rank(a[0]))));
                if (map) {
                    final Class<?> vf = H.cls("functional." + vt + "Consumer");
                    call("forEachValue", o, new Class<?>[] {vf}, H.proxy(vf, a -> seen(2, oi, o, fv, vp.rank(a[0]))));
                }
                final com.bytefacets.collections.EntryIterator i =
                        (com.bytefacets.collections.EntryIterator) call("iterator", o, NONE);
                while (i.next()) {
                    seen(3, oi, o, it, i.currentEntry());
                }
            } catch (Throwable z) {
                x = H.code(z);
            }
            inner.done(() -> obs(oi, o));
            log.ev("obs").p("o", oi).p("n", n).p("b", empty).p("cap", cap).p("lk", lk).p("ck", ck).p("ka", ka);
            log.p("gv", gv).p("gd", gd).p("gx", gx).p("fe", H.sorted(fe)).p("fk", H.sorted(fk));
            log.p("fv", H.sorted(fv)).p("it", H.sorted(it)).p("x", x).end();
        }

        static Object add(final List<Integer> l, final int v) {
            l.add(v);
            if (l.size() > 5000) {
                throw new H.Overrun();
            }
            return null;
        }

        void reach(final int oi, final Obj o) {
            final boolean kr = Types.isRef(kt);
            final boolean vr = map && Types.isRef(vt);
            if (!kr && !vr) {
                return;
            }
            final TreeSet<Integer> ks = new TreeSet<>();
            final TreeSet<Integer> vs = new TreeSet<>();
            for (Object v : Reach.from(o.c)) {
                if (kr && vr && kp.rank(v) != Types.UNKNOWN && vp.rank(v) != Types.UNKNOWN) {
                    continue; // may be either
                }
                if (kr && kp.rank(v) != Types.UNKNOWN) {
                    ks.add(kp.rank(v));
                } else if (vr && vp.rank(v) != Types.UNKNOWN) {
                    vs.add(vp.rank(v));
                }
            }
            log.ev("reach").p("o", oi).p("ks", new ArrayList<>(ks)).p("vs", new ArrayList<>(vs)).end();
        }
    }
}
