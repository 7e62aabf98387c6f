import com.bytefacets.collections.EntryIterator;
import com.bytefacets.collections.bi.CompactManyToMany;
import com.bytefacets.collections.bi.CompactOneToMany;
import com.bytefacets.collections.bi.Mapping;
import com.bytefacets.collections.functional.IntIterator;
import java.lang.reflect.Method;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.BitSet;
import java.util.List;
import java.util.function.IntConsumer;

/** Indexed sets and maps, heaps and relations through ranges of keys; conf kind, top, cap, lf, a, w, custom. */
public final class BulkC implements H.Component {
    @Override
    public List<String> targets(final H.Scenario s) {
        final String kind = s.s("kind", "set");
        if (kind.equals("rel")) {
            return List.of(s.i("m2m", 1) == 1 ? "m2m" : "o2m");
        }
        final int rot = s.i("rot", 0);
        final int top = s.i("top", 100);
        final List<String> out = new ArrayList<>();
        for (int i = 0; i < Types.KEYS.length; i++) {
            final String k = Types.KEYS[i];
            if (top > (k.equals("Byte") ? 256 : k.equals("Short") || k.equals("Char") ? 65536 : 1 << 24)) {
                continue;
            }
            if (s.i("custom", 0) == 1 && !(k.equals("Double") || k.equals("Float") || Types.isRef(k))) {
                continue;
            }
            out.add(kind.equals("set") ? k : k + "," + Types.ALL[(i + rot) % 10]);
        }
        final int few = s.i("few", 3);
        final List<String> some = new ArrayList<>();
        for (int i = 0; i < out.size() && i < few; i++) {
            some.add(out.get((rot + i * Math.max(1, out.size() / few)) % out.size()));
        }
        return some.stream().distinct().toList();
    }

    @Override
    public void run(final H.Scenario s, final String target, final H.Log log) throws Throwable {
        new Run(s, target, log).run();
    }

    /** Keys as numbers and back. */
    private static final class Keys {
        final String t;
        final int a;
        final int inv;
        final long la;
        final long linv;
        final boolean ordered;

        Keys(final String t, final int a, final boolean ordered) {
            this.t = t;
            this.a = a | 1;
            this.ordered = ordered;
            int x = this.a;
            for (int i = 0; i < 5; i++) {
                x *= 2 - this.a * x;
            }
            inv = x;
            la = ordered ? 1L << 33 : this.a == 1 ? 1 : 0x9E3779B97F4A7C15L * this.a;
            long y = la;
            for (int i = 0; i < 6; i++) {
                y *= 2 - la * y;
            }
            linv = y;
        }

        Object of(final int r) {
            switch (t) {
                case "Byte":
                    return (byte) (ordered ? r - 128 : r * a);
                case "Short":
                    return (short) (ordered ? r - 32768 : r * a);
                case "Char":
                    return (char) (ordered ? r : r * a);
                case "Int":
                    return ordered ? r * 3 - 100000 : r * a;
                case "Long":
                    return ordered ? (r - 500) * la : r * la;
                case "Float":
                    return ordered ? (float) (r - 777) : (float) ((r * a) & 0xffffff);
                case "Double":
                    return ordered ? (r - 777) * 0.25 : (double) (r * a);
                case "String":
                    return ordered ? String.valueOf(10000000 + r) : Integer.toString(r * a);
                default:
                    return new Types.Obj(r, ordered ? r : r * a);
            }
        }

        int rank(final Object o) {
            if (o == null) {
                return -99;
            }
            switch (t) {
                case "Byte":
                    return ordered ? (Byte) o + 128 : ((Byte) o * inv) & 0xff;
                case "Short":
                    return ordered ? (Short) o + 32768 : ((Short) o * inv) & 0xffff;
                case "Char":
                    return ordered ? (Character) o : ((Character) o * inv) & 0xffff;
                case "Int":
                    return ordered ? ((Integer) o + 100000) / 3 : (Integer) o * inv;
                case "Long":
                    return ordered ? (int) ((Long) o >> 33) + 500 : (int) ((Long) o * linv);
                case "Float":
                    return ordered ? (int) (float) (Float) o + 777
                            : ((int) (float) (Float) o * inv) & 0xffffff;
                case "Double":
                    return ordered ? (int) ((Double) o * 4) + 777 : (int) (double) (Double) o * inv;
                case "String":
                    return ordered ? Integer.parseInt((String) o) - 10000000 : Integer.parseInt((String) o) * inv;
                default:
                    return ((Types.Obj) o).rank;
            }
        }
    }

    private static final class Foreign extends RuntimeException {}

    /** Affine pieces: key k + kd * i with y + d * i. */
    private static final class Pieces {
        static final int MOST = 500; // what has no short description ends the history
        final StringBuilder b = new StringBuilder("[");
        final int mod; // 0: exact
        final boolean freeStep; // the step of the keys is part of the piece
        final boolean flags;
        int count = 0;
        int k;
        int kd;
        int n = 0;
        int y;
        int d;
        boolean g;
        int lastK;
        int lastY;

        Pieces(final int mod, final int kd, final boolean freeStep, final boolean flags) {
            this.mod = mod;
            this.kd = freeStep ? 1 : kd;
            this.freeStep = freeStep;
            this.flags = flags;
        }

        private int diff(final int v) {
            final int z = mod == 0 ? v - lastY : Math.floorMod(v - lastY, mod);
            return mod > 2 && z == mod - 1 ? -1 : z;
        }

        void add(final int key, final int v, final boolean flag) {
            if (count > MOST) {
                return;
            }
            final int z = diff(v);
            final boolean step = z >= -1 && z <= 1;
            if (n == 1 && flag == g && step && (freeStep ? key - lastK == 1 || key - lastK == -1 : key - lastK == kd)) {
                kd = key - lastK;
                d = z;
                n = 2;
            } else if (n > 1 && flag == g && z == d && key - lastK == kd) {
                n++;
            } else {
                end();
                k = key;
                y = v;
                n = 1;
                d = 0;
                g = flag;
                if (freeStep) {
                    kd = 1;
                }
            }
            lastK = key;
            lastY = v;
        }

        private void end() {
            if (n > 0) {
                if (count++ == MOST) {
                    return;
                }
                b.append(count == 1 ? "" : ",").append("{\"k\":").append(k).append(",\"n\":").append(n).append(",\"y\":").append(y)
                        .append(",\"d\":").append(d);
                if (freeStep) {
                    b.append(",\"kd\":").append(kd);
                }
                if (flags) {
                    b.append(",\"g\":").append(g);
                }
                b.append('}');
            }
            n = 0;
        }

        String json() {
            end();
            return b + "]";
        }
    }

    private static String intervals(final BitSet s) {
        final StringBuilder b = new StringBuilder("[");
        int n = 0;
        for (int i = s.nextSetBit(0); i >= 0; n++) {
            if (n > Pieces.MOST) {
                break;
            }
            final int e = s.nextClearBit(i);
            b.append(n == 0 ? "" : ",").append("{\"a\":").append(i).append(",\"b\":").append(e - 1).append('}');
            i = s.nextSetBit(e);
        }
        return b + "]";
    }

    private static final class Run {
        static final Class<?>[] NONE = {};
        static final Class<?>[] I = {int.class};
        final H.Scenario s;
        final H.Log log;
        final String kind;
        final boolean map;
        final boolean heap;
        final boolean rel;
        final boolean swap;
        final boolean m2m;
        final int w;
        final Keys keys;
        final String kt;
        final String vt;
        final Class<?> cls;
        final Class<?> kj;
        final Class<?> vj;
        final Types.Palette vp;
        final int m;
        final Object[] objs = {null, null};
        final List<List<Integer>> reserved = List.of(new ArrayList<>(), new ArrayList<>());
        int[] own = new int[1024]; // heaps: the entry of each key
        boolean cut;
        int written;
        final boolean counted;
        int compared;
        int most;
        int hashed;
        int far; // comparisons of keys with different places
        int places;
        Object c;

        Run(final H.Scenario s, final String target, final H.Log log) {
            this.s = s;
            this.log = log;
            kind = s.s("kind", "set");
            map = kind.equals("map");
            heap = kind.equals("heap");
            rel = kind.equals("rel");
            counted = s.i("count", 0) == 1;
            swap = s.i("swap", 0) == 1;
            m2m = target.equals("m2m");
            w = rel ? s.i("w", 1 << 20) : 1;
            if (rel) {
                kt = "Int";
                vt = null;
                cls = CompactOneToMany.class;
            } else {
                final int comma = target.indexOf(',');
                kt = comma < 0 ? target : target.substring(0, comma);
                vt = comma < 0 ? null : target.substring(comma + 1);
                cls = H.cls(heap ? "heap." + kt + vt + "Heap" : "hash." + kt + (map ? vt + "IndexedMap" : "IndexedSet"));
            }
            kj = Types.javaType(kt);
            vj = vt == null ? null : Types.javaType(vt);
            keys = new Keys(kt, s.i("a", 1), heap);
            vp = vt == null ? null : new Types.Palette(vt, "val", 12);
            m = vp == null ? 1 : vp.size();
        }

        Method find(final String name, final Class<?>... t) {
            return H.m(cls, name, t);
        }

        void create(final int o) throws Throwable {
            final int cap = s.i(o == 0 ? "cap" : "cap2", 4);
            final String lf = s.s("lf", "-");
            if (rel) {
                objs[o] = m2m ? new CompactManyToMany(s.i("lefts", 4), s.i("rights", 4), cap, s.i("cnt", 1) == 1)
                        : new CompactOneToMany(s.i("lefts", 4), cap, s.i("cnt", 1) == 1);
            } else if (heap || lf.equals("-")) {
                objs[o] = H.make(cls, I, cap);
            } else {
                objs[o] = H.make(cls, new Class<?>[] {int.class, double.class}, cap, Double.parseDouble(lf));
            }
            if (counted && heap) {
                order(objs[o], false);
            }
            if (s.i("custom", 0) == 1) {
                final int mask = s.i("mask", 0xffff);
                final Class<?> itf = H.cls("types." + kt + "Type$Hash");
                H.call(find("setHashMethod", itf), objs[o], H.proxy(itf, a -> {
                    hashed++;
                    return keys.rank(a[0]) & mask;
                }));
                if (counted) {
                    final Class<?> eq = H.cls("types." + kt + "Type$Eq");
                    H.call(find("setEqMethod", eq), objs[o], H.proxy(eq, a -> {
                        compared++;
                        if (((keys.rank(a[0]) ^ keys.rank(a[1])) & places - 1) != 0) {
                            far++;
                        }
                        return keys.rank(a[0]) == keys.rank(a[1]);
                    }));
                }
            }
            log.ev("new").p("o", o).p("kind", kind).p("m", m).p("w", w).p("cnt", rel && s.i("cnt", 1) == 1)
                    .p("custom", s.i("custom", 0) == 1).p("c", cap).p("cap", capacity(objs[o]))
                    .p("lf", heap || rel ? 0 : lf.equals("-") ? 750 : (int) Math.round(1000 * Double.parseDouble(lf))).end();
        }

        /** An order that counts how often it is asked. */
        void order(final Object o, final boolean desc) throws Throwable {
            final Class<?> itf = H.cls("types." + kt + "Type$Cmp");
            H.call(find("setComparator", itf), o, H.proxy(itf, a -> {
                compared++;
                final int p = Integer.compare(keys.rank(a[0]), keys.rank(a[1]));
                return desc ? -p : p;
            }));
        }

        /** What the one call that has just returned asked of the order or of the equality. */
        void call() throws Throwable {
            most = Math.max(most, compared);
            compared = 0;
            places = counted ? capacity(c) : 0;
        }

        void start() throws Throwable {
            places = counted ? capacity(c) : 0;
            far = 0;
            compared = 0;
            most = 0;
            hashed = 0;
        }

        int capacity(final Object o) throws Throwable {
            return heap || rel ? 0 : (Integer) H.call(find("capacity"), o);
        }

        void run() throws Throwable {
            create(0);
            for (String[] t : s.ops) {
                final int o = Integer.parseInt(t[1]);
                if (objs[o] == null) {
                    create(o);
                }
                c = objs[o];
                start();
                op(o, t);
                if (written > 2 * Pieces.MOST) {
                    return;
                }
            }
        }

        /** Closes the event; what was cut short is marked so, and is the last of its history. */
        void done(final String x) throws Throwable {
            log.p("x", x);
            if (counted) {
                call();
                log.p("w", most).p("hw", hashed).p("far", far);
            }
            if (cut) {
                log.p("cut", true);
                written = Integer.MAX_VALUE;
            }
            log.end();
        }

        String json(final Pieces ps) {
            final String out = ps.json();
            cut |= ps.count > Pieces.MOST;
            written = cut ? Integer.MAX_VALUE : written + ps.count;
            return out;
        }

        String spans(final BitSet s) {
            final String out = intervals(s);
            final int n = s.isEmpty() ? 0 : out.split("\\}").length - 1;
            cut |= n > Pieces.MOST;
            written = cut ? Integer.MAX_VALUE : written + n;
            return out;
        }

        /** The rank of a value; one that was never given to the library has none. */
        int value(final Object v) {
            final int r = vp.rank(v);
            if (r < 0) {
                throw new Foreign();
            }
            return r;
        }

        int left(final int key) {
            return swap ? key % w : key / w;
        }

        int right(final int key) {
            return swap ? key / w : key % w;
        }

        CompactOneToMany r() {
            return (CompactOneToMany) c;
        }

        int size() throws Throwable {
            return rel ? r().size() : (Integer) H.call(find(heap ? "getSize" : "size"), c);
        }

        interface Step {
            int of(int key) throws Throwable;
        }

        Step adder(final int v, final int vd) {
            if (rel) {
                return k -> r().put(left(k), right(k));
            }
            if (v < 0) {
                final Method a = find(heap ? "insert" : "add", kj);
                return k -> (Integer) H.call(a, c, keys.of(k));
            }
            final Method a = find(heap ? "insert" : "put", kj, vj);
            final int[] x = {v};
            return k -> {
                final int e = (Integer) H.call(a, c, keys.of(k), vp.value(x[0], 0));
                x[0] = Math.floorMod(x[0] + vd, m);
                return e;
            };
        }

        Step lookup() {
            if (rel) {
                return k -> r().lookupEntry(left(k), right(k));
            }
            if (heap) {
                final Method valid = find("isValidEntry", I);
                final Method at = find("getKeyAt", I);
                return k -> {
                    final int e = k < own.length ? own[k] : -1;
                    return e >= 0 && (Boolean) H.call(valid, c, e) && keys.rank(H.call(at, c, e)) == k ? e : -1;
                };
            }
            final Method l = find("lookupEntry", kj);
            return k -> (Integer) H.call(l, c, keys.of(k));
        }

        void own(final int k, final int e) {
            if (heap) {
                if (k >= own.length) {
                    own = Arrays.copyOf(own, 2 * k + 2);
                }
                own[k] = e;
            }
        }

        Step remover(final String how, final int o) {
            if (how.equals("rem") && rel) {
                return k -> r().remove(left(k), right(k));
            }
            if (how.equals("rem") && !heap) {
                final Method a = find("remove", kj);
                return k -> (Integer) H.call(a, c, keys.of(k));
            }
            final Step look = lookup();
            final boolean rsv = how.equals("rsv");
            final Method a = rel ? null : find(rsv ? "removeAtAndReserve" : "removeAt", I);
            return k -> {
                final int e = look.of(k);
                if (e >= 0) {
                    if (!rel) {
                        H.call(a, c, e);
                    } else if (rsv) {
                        r().removeAtAndReserve(e);
                    } else {
                        r().removeAt(e);
                    }
                    if (rsv) {
                        reserved.get(o).add(e);
                    }
                }
                return e;
            };
        }

        /** The calls of a step for n keys from lo on, with what each returned. */
        void steps(final Pieces ps, final int lo, final int n, final int dk, final Step step) throws Throwable {
            int before = size();
            for (int i = 0; i < n; i++) {
                final int k = lo + dk * i;
                final int e = step.of(k);
                call();
                final int after = size();
                ps.add(k, e, after != before);
                before = after;
            }
        }

        int rankAt(final Method at, final int e) throws Throwable {
            if (rel) {
                final int l = r().getLeftAt(e);
                final int q = r().getRightAt(e);
                return swap ? q * w + l : l * w + q;
            }
            return keys.rank(H.call(at, c, e));
        }

        void op(final int o, final String[] t) throws Throwable {
            final boolean walk = t[0].equals("walk"); // its third word is the way to walk
            final int lo = t.length > 2 && !walk ? Integer.parseInt(t[2]) : 0;
            final int n = t.length > 3 ? Integer.parseInt(t[3]) : 0;
            final int dk = t.length > 4 ? Integer.parseInt(t[4]) : 1;
            String x = "ok";
            switch (t[0]) {
                case "add", "put" -> {
                    final boolean put = t[0].equals("put") && vp != null;
                    final int v = put ? Integer.parseInt(t[5]) % m : -1;
                    final int vd = put ? Integer.parseInt(t[6]) : 0;
                    final Pieces ps = new Pieces(0, dk, false, true);
                    final Step a = adder(v, vd);
                    try {
                        steps(ps, lo, n, dk, k -> {
                            final int e = a.of(k);
                            own(k, e);
                            return e;
                        });
                    } catch (Throwable z) {
                        x = H.code(z);
                    }
                    log.ev(put ? "put" : "add").p("o", o).p("lo", lo).p("n", n).p("dk", dk).p("v", v).p("vd", vd).raw("ps", json(ps));
                    done(x);
                }
                case "rem", "rat", "rsv" -> {
                    if (t[0].equals("rsv") && (heap || !reserved.get(o).isEmpty())) {
                        return;
                    }
                    final Pieces ps = new Pieces(0, dk, false, true);
                    try {
                        steps(ps, lo, n, dk, remover(t[0], o));
                    } catch (Throwable z) {
                        x = H.code(z);
                    }
                    log.ev(t[0]).p("o", o).p("lo", lo).p("n", n).p("dk", dk).p("v", 0).p("vd", 0).raw("ps", json(ps));
                    done(x);
                }
                case "pva" -> { // at the entry of each present key
                    if (vp == null) {
                        return;
                    }
                    int v = Integer.parseInt(t[5]) % m;
                    final int v0 = v;
                    final int vd = Integer.parseInt(t[6]);
                    final Step look = lookup();
                    final Method put = find(heap ? "setValueAt" : "putValueAt", int.class, vj);
                    try {
                        for (int i = 0; i < n; i++) {
                            final int e = look.of(lo + dk * i);
                            if (e >= 0) {
                                H.call(put, c, e, vp.value(v, 0));
                            }
                            call();
                            v = Math.floorMod(v + vd, m);
                        }
                    } catch (Throwable z) {
                        x = H.code(z);
                    }
                    log.ev("pva").p("o", o).p("lo", lo).p("n", n).p("dk", dk).p("v", v0).p("vd", vd);
                    done(x);
                }
                case "frs" -> {
                    if (reserved.get(o).isEmpty()) {
                        return;
                    }
                    try {
                        for (int e : reserved.get(o)) {
                            if (rel) {
                                r().freeReservedEntry(e);
                            } else {
                                H.call(find("freeReservedEntry", I), c, e);
                            }
                        }
                        reserved.get(o).clear();
                    } catch (Throwable z) {
                        x = H.code(z);
                    }
                    log.ev("frs").p("o", o);
                    done(x);
                }
                case "robs" -> {
                    if (heap) {
                        return;
                    }
                    final Pieces ps = new Pieces(0, 1, true, false);
                    final Pieces vs = new Pieces(m, 1, true, false);
                    try {
                        final Method at = rel ? null : find("getKeyAt", I);
                        for (int e : reserved.get(o)) {
                            final int k = rankAt(at, e);
                            ps.add(k, e, false);
                            if (map) {
                                vs.add(k, value(H.call(find("getValueAt", I), c, e)), false);
                            }
                        }
                    } catch (Throwable z) {
                        x = H.code(z);
                    }
                    log.ev("robs").p("o", o).raw("ps", json(ps)).raw("vs", json(vs));
                    done(x);
                }
                case "look" -> look(o, lo, n);
                case "has" -> {
                    boolean b = false;
                    try {
                        b = rel ? r().contains(left(lo), right(lo)) : (Boolean) H.call(find("containsKey", kj), c, keys.of(lo));
                    } catch (Throwable z) {
                        x = H.code(z);
                    }
                    log.ev("has").p("o", o).p("k", lo).p("b", b);
                    done(x);
                }
                case "walk" -> walk(o, t[2], Integer.parseInt(t[3]), Integer.parseInt(t[4]));
                case "vals" -> {
                    if (!map) {
                        return;
                    }
                    final int[] h = new int[m];
                    final int most = 2 * size() + 10;
                    final int[] calls = {0};
                    final Class<?> itf = H.cls("functional." + vt + "Consumer");
                    try {
                        H.call(find("forEachValue", itf), c, H.proxy(itf, a -> {
                            final int v = vp.rank(a[0]);
                            if (v >= 0) {
                                h[v]++;
                            }
                            if (calls[0]++ > most) {
                                throw new H.Overrun();
                            }
                            return null;
                        }));
                    } catch (Throwable z) {
                        x = H.code(z);
                    }
                    log.ev("vals").p("o", o).p("h", h);
                    done(x);
                }
                case "clr" -> {
                    if (rel) {
                        return;
                    }
                    try {
                        H.call(find("clear"), c);
                        reserved.get(o).clear();
                    } catch (Throwable z) {
                        x = H.code(z);
                    }
                    log.ev("clr").p("o", o);
                    done(x);
                }
                case "cpy" -> {
                    final int from = Integer.parseInt(t[2]);
                    if (rel || heap || objs[from] == null) {
                        return;
                    }
                    try {
                        H.call(find("copyFrom", cls), c, objs[from]);
                        reserved.get(o).clear();
                        reserved.get(o).addAll(reserved.get(from));
                    } catch (Throwable z) {
                        x = H.code(z);
                    }
                    log.ev("cpy").p("o", o).p("from", from);
                    done(x);
                }
                case "pop" -> pop(o, lo);
                case "rst" -> {
                    final int to = Integer.parseInt(t[4]);
                    if (!heap) {
                        return;
                    }
                    try {
                        final Method rst = find("resetKey", int.class, kj);
                        for (int i = 0; i < n; i++) {
                            final int j = to > lo ? n - 1 - i : i;
                            final int e = own[lo + j];
                            H.call(rst, c, e, keys.of(to + j));
                            call();
                            own(to + j, e);
                        }
                    } catch (Throwable z) {
                        x = H.code(z);
                    }
                    log.ev("rst").p("o", o).p("lo", lo).p("n", n).p("to", to);
                    done(x);
                }
                case "cmp" -> {
                    if (!heap) {
                        return;
                    }
                    try {
                        if (counted) {
                            order(c, lo == 1);
                        } else {
                            final Class<?> holder = H.cls("types." + kt + "Type");
                            H.call(find("setComparator", H.cls("types." + kt + "Type$Cmp")), c,
                                    holder.getField(lo == 1 ? "Desc" : "Asc").get(null));
                        }
                    } catch (Throwable z) {
                        x = H.code(z);
                    }
                    log.ev("cmp").p("o", o).p("b", lo == 1);
                    done(x);
                }
                case "nav" -> nav(o, lo);
                case "nav2" -> nav2(o, lo, n);
                default -> throw new H.Infra("op " + t[0], null);
            }
        }

        void look(final int o, final int lo, final int n) throws Throwable {
            String x = "ok";
            final Pieces ps = new Pieces(0, 1, false, true);
            final Pieces ks = new Pieces(0, 1, false, false);
            final Pieces vs = new Pieces(m, 1, false, false);
            final Pieces ws = new Pieces(m, 1, false, false);
            int sz = -7;
            boolean b = false;
            try {
                sz = size();
                b = rel ? sz == 0 : (Boolean) H.call(find("isEmpty"), c);
                final Step look = lookup();
                final Method has = rel || heap ? null : find("containsKey", kj);
                final Method at = rel ? null : find("getKeyAt", I);
                final Method val = vp == null ? null : find("getValueAt", I);
                final Method get = map ? find("getOrDefault", kj, vj) : null;
                for (int k = lo; k < lo + n; k++) {
                    final int e = look.of(k);
                    call();
                    final boolean in = rel ? r().contains(left(k), right(k)) : heap ? e >= 0
                            : (Boolean) H.call(has, c, keys.of(k));
                    call();
                    ps.add(k, e, in);
                    if (e < 0) {
                        continue;
                    }
                    ks.add(k, rankAt(at, e), false);
                    if (val != null) {
                        vs.add(k, value(H.call(val, c, e)), false);
                    }
                    if (get != null) {
                        ws.add(k, value(H.call(get, c, keys.of(k), vp.value(1, 0))), false);
                        call();
                    }
                }
            } catch (Throwable z) {
                x = H.code(z);
            }
            log.ev("look").p("o", o).p("cap", capacity(c)).p("lo", lo).p("n", n).p("sz", sz).p("b", b).raw("ps", json(ps)).raw("ks", json(ks))
                    .raw("vs", json(vs)).raw("ws", json(ws));
            done(x);
        }

        /** Traverses, and removes the keys from rlo on meanwhile. */
        void walk(final int o, final String how, final int rlo, final int rn) throws Throwable {
            String x = "ok";
            final BitSet seen = new BitSet();
            final int[] n = {0};
            final int most = 2 * size() + 10;
            try {
                final Method at = rel ? null : find("getKeyAt", I);
                final Step remove = remover("rat", o);
                final IntConsumer count = y -> {
                    if (y < 0 || n[0]++ > most) {
                        throw new H.Overrun();
                    }
                    seen.set(y);
                };
                final Class<?> ints = H.cls("functional.IntConsumer");
                switch (how) {
                    case "fee" -> {
                        final H.Fn f = a -> {
                            final int e = (Integer) a[0];
                            final int k = rankAt(at, e);
                            count.accept(e);
                            if (k >= rlo && k < rlo + rn) {
                                remove.of(k);
                            }
                            return null;
                        };
                        if (rel) {
                            r().forEachEntry(e -> {
                                try {
                                    f.apply(new Object[] {e});
                                } catch (RuntimeException z) {
                                    throw z;
                                } catch (Throwable z) {
                                    throw new IllegalStateException(z);
                                }
                            });
                        } else {
                            final Class<?> itf = heap ? java.util.function.IntConsumer.class : ints;
                            H.call(find("forEachEntry", itf), c, H.proxy(itf, f));
                        }
                    }
                    case "fek" -> {
                        final Class<?> itf = H.cls("functional." + kt + "Consumer");
                        H.call(find("forEach", itf), c, H.proxy(itf, a -> {
                            final int k = keys.rank(a[0]);
                            count.accept(k);
                            if (k >= rlo && k < rlo + rn) {
                                remove.of(k);
                            }
                            return null;
                        }));
                    }
                    default -> {
                        final EntryIterator it = (EntryIterator) H.call(find("iterator"), c);
                        while (it.next()) {
                            final int e = it.currentEntry();
                            final int k = rankAt(at, e);
                            count.accept(e);
                            if (k >= rlo && k < rlo + rn) {
                                it.remove();
                            }
                        }
                    }
                }
            } catch (Throwable z) {
                x = H.code(z);
            }
            log.ev("walk").p("o", o).p("how", how).p("rlo", rlo).p("rn", rn).p("n", n[0]).raw("is", spans(seen));
            done(x);
        }

        void pop(final int o, final int n) throws Throwable {
            if (!heap) {
                return;
            }
            String x = "ok";
            int k = 0;
            final Pieces ps = new Pieces(0, 1, true, false);
            final Pieces vs = new Pieces(m, 1, true, false);
            final Method peek = find("peek");
            final Method at = find("getKeyAt", I);
            final Method val = find("getValueAt", I);
            final Method rem = find("removeAt", I);
            try {
                for (; k < n; k++) {
                    if (size() == 0) {
                        x = "EMPTY";
                        break;
                    }
                    final int e = (Integer) H.call(peek, c);
                    final int key = rankAt(at, e);
                    ps.add(key, e, false);
                    vs.add(key, value(H.call(val, c, e)), false);
                    far += compared; // peeking takes none
                    call();
                    H.call(rem, c, e);
                    call();
                }
            } catch (Throwable z) {
                x = H.code(z);
            }
            log.ev("pop").p("o", o).p("n", n).p("k", k).raw("ps", json(ps)).raw("vs", json(vs));
            done(x);
        }

        Mapping mapping(final boolean ofLeft, final int k) {
            return ofLeft ? r().withLeft(k) : ((CompactManyToMany) c).withRight(k);
        }

        /** The partners of key a of the few, which are many. */
        void nav(final int o, final int a) throws Throwable {
            if (!rel || swap && !m2m) {
                return;
            }
            String x = "ok";
            final BitSet vs = new BitSet();
            final BitSet es = new BitSet();
            final int[] n = {0, 0};
            int cn = -1;
            final int most = 2 * r().size() + 10;
            try {
                final Mapping mp = mapping(!swap, a);
                if ((log.salt++ & 1) == 0) {
                    mp.forEachValue(v -> {
                        if (v < 0 || n[0]++ > most) {
                            throw new H.Overrun();
                        }
                        vs.set(v);
                    });
                    for (IntIterator i = mapping(!swap, a).entryIterator(); i.hasNext(); ) {
                        final int e = i.next();
                        if (e < 0 || n[1]++ > most) {
                            throw new H.Overrun();
                        }
                        es.set(e);
                    }
                } else {
                    for (IntIterator i = mp.valueIterator(); i.hasNext(); ) {
                        final int v = i.next();
                        if (v < 0 || n[0]++ > most) {
                            throw new H.Overrun();
                        }
                        vs.set(v);
                    }
                    mapping(!swap, a).forEachEntry(e -> {
                        if (e < 0 || n[1]++ > most) {
                            throw new H.Overrun();
                        }
                        es.set(e);
                    });
                }
                cn = s.i("cnt", 1) == 1 ? mapping(!swap, a).count() : -1;
            } catch (Throwable z) {
                x = H.code(z);
            }
            log.ev("nav").p("o", o).p("a", a).p("n", n[0]).p("en", n[1]).p("cn", cn).raw("is", spans(vs))
                    .raw("es", spans(es));
            done(x);
        }

        /** The partners of key b of the many, which are few. */
        void nav2(final int o, final int b, final int top) throws Throwable {
            if (!rel || !swap && !m2m) {
                return;
            }
            String x = "ok";
            final List<Integer> l = new ArrayList<>();
            int cn = -1;
            try {
                mapping(swap, b).forEachValue(v -> H.add(l, v));
                cn = s.i("cnt", 1) == 1 ? mapping(swap, b).count() : -1;
            } catch (Throwable z) {
                x = H.code(z);
            }
            log.ev("nav2").p("o", o).p("k", b).p("top", top).p("l", l).p("cn", cn);
            done(x);
        }
    }
}
