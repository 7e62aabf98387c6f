import com.bytefacets.collections.bi.CompactManyToMany;
import com.bytefacets.collections.bi.CompactOneToMany;
import com.bytefacets.collections.functional.IntIterator;
import com.bytefacets.collections.hash.IntIntIndexedMap;
import com.bytefacets.collections.queue.IntHydraDeque;
import com.bytefacets.collections.vector.IntVector;
import java.util.ArrayList;
import java.util.List;

/**
 * Collections joined through their entries: a map (lefts), a set (rights), a relation, waiting lists, a column and a
 * heap; conf L, R, cap, pal, rot.
 */
public final class JoinC implements H.Component {
    @Override
    public List<String> targets(final H.Scenario s) {
        final List<String> out = new ArrayList<>();
        final int rot = s.i("rot", 0);
        for (int i = 0; i < Types.KEYS.length; i++) {
            if (Math.floorMod(i - rot, Types.KEYS.length) >= s.i("width", 3)) {
                continue;
            }
            final String rest = "," + Types.ALL[(i + rot) % 10] + "," + Types.KEYS[(2 * i + rot) % Types.KEYS.length]
                    + "," + Types.KEYS[(i + 2 * rot) % Types.KEYS.length];
            out.add(Types.KEYS[i] + rest + ",o2m");
            out.add(Types.KEYS[i] + rest + ",m2m");
        }
        return out;
    }

    @Override
    public boolean small(final H.Scenario s) {
        return s.ops.size() <= 400;
    }

    @Override
    public void run(final H.Scenario s, final String target, final H.Log log) throws Throwable {
        new Run(s, target, log).run();
    }

    private static final class Run {
        static final Class<?>[] NONE = {};
        static final Class<?>[] I = {int.class};
        static final int LATEST = 12;
        final H.Scenario s;
        final H.Log log;
        final boolean m2m;
        final Class<?> lc;
        final Class<?> rc;
        final Class<?> hc;
        final Class<?> sc;
        final Class<?> lj;
        final Class<?> vj;
        final Class<?> rj;
        final Class<?> tj;
        final String vt;
        final Types.Palette lp;
        final Types.Palette vp;
        final Types.Palette rp;
        final Types.Palette tp;
        final int nl;
        final int nr;
        final Object lefts;
        final Object rights;
        final CompactOneToMany rel;
        final IntHydraDeque waiting;
        final Object column;
        final Object heap;
        final IntIntIndexedMap pending;

        Run(final H.Scenario s, final String target, final H.Log log) throws Throwable {
            this.s = s;
            this.log = log;
            final String[] t = target.split(",");
            vt = t[1];
            m2m = t[4].equals("m2m");
            lc = H.cls("hash." + t[0] + vt + "IndexedMap");
            rc = H.cls("hash." + t[2] + "IndexedSet");
            hc = H.cls("heap." + t[3] + "IntHeap");
            sc = H.cls("store." + vt + "ChunkStore");
            lj = Types.javaType(t[0]);
            vj = Types.javaType(vt);
            rj = Types.javaType(t[2]);
            tj = Types.javaType(t[3]);
            final String pal = s.s("pal", "seq");
            lp = new Types.Palette(t[0], pal, s.i("L", 2));
            rp = new Types.Palette(t[2], pal, s.i("R", 2));
            vp = new Types.Palette(vt, "val", 12);
            tp = new Types.Palette(t[3], "ord", LATEST);
            nl = Math.min(lp.size(), s.i("L", 2));
            nr = Math.min(rp.size(), s.i("R", 2));
            final int cap = s.i("cap", 1);
            lefts = H.make(lc, I, cap);
            rights = H.make(rc, I, cap);
            rel = m2m ? new CompactManyToMany(cap, cap, cap, true) : new CompactOneToMany(cap, cap, true);
            waiting = new IntHydraDeque(cap, cap);
            column = H.make(sc, new Class<?>[] {int.class, int.class}, cap, 2);
            heap = H.make(hc, I, cap);
            pending = new IntIntIndexedMap(cap);
        }

        Object left(final int k) {
            return lp.value(k, log.salt++);
        }

        Object right(final int k) {
            return rp.value(k, log.salt++);
        }

        int leftEntry(final int k) throws Throwable {
            return (Integer) H.call(H.m(lc, "lookupEntry", lj), lefts, left(k));
        }

        int rightEntry(final int k) throws Throwable {
            return (Integer) H.call(H.m(rc, "lookupEntry", rj), rights, right(k));
        }

        int leftAt(final int e) throws Throwable {
            return lp.rank(H.call(H.m(lc, "getKeyAt", int.class), lefts, e));
        }

        int rightAt(final int e) throws Throwable {
            return rp.rank(H.call(H.m(rc, "getKeyAt", int.class), rights, e));
        }

        int valueAt(final int e) throws Throwable {
            return vp.rank(H.call(H.m(lc, "getValueAt", int.class), lefts, e));
        }

        int cell(final int e) throws Throwable {
            return vp.rank(H.call(H.m(sc, "get" + vt, int.class), column, e));
        }

        void cell(final int e, final int v) throws Throwable {
            H.call(H.m(sc, "set" + vt, int.class, vj), column, e, vp.value(v, log.salt++));
        }

        /** The entry of the right key, which may be new. */
        int known(final int r) throws Throwable {
            int e = rightEntry(r);
            if (e == -1) {
                e = (Integer) H.call(H.m(rc, "add", rj), rights, right(r));
            }
            return e;
        }

        void related(final int le, final int re) {
            if (!rel.contains(le, re)) {
                rel.put(le, re);
            }
        }

        /** The time the right entry is due, or -1. */
        int due(final int re) throws Throwable {
            final int h = pending.getOrDefault(re, -1);
            return h == -1 ? -1 : tp.rank(H.call(H.m(hc, "getKeyAt", int.class), heap, h));
        }

        boolean cancel(final int re) throws Throwable {
            final int h = pending.getOrDefault(re, -1);
            if (h == -1) {
                return false;
            }
            H.call(H.m(hc, "removeAt", int.class), heap, h);
            pending.remove(re);
            return true;
        }

        /** The relation's entries of the key; the ones of a right key by asking all of them if there is no other way. */
        IntVector entries(final boolean isLeft, final int e) {
            final IntVector out = new IntVector(1);
            if (isLeft || m2m) {
                (isLeft ? rel.withLeft(e) : ((CompactManyToMany) rel).withRight(e)).forEachEntry(out::append);
            } else {
                rel.forEachEntry(x -> {
                    if (rel.getRightAt(x) == e) {
                        out.append(x);
                    }
                });
            }
            return out;
        }

        void run() throws Throwable {
            log.ev("new").p("m2m", m2m).end();
            for (String[] t : s.ops) {
                op(t);
            }
        }

        void op(final String[] t) throws Throwable {
            final int a = t.length > 1 ? Integer.parseInt(t[1]) : 0;
            final int b = t.length > 2 ? Integer.parseInt(t[2]) : 0;
            String x = "ok";
            switch (t[0]) {
                case "reg" -> {
                    final int l = a % nl;
                    final int v = b % vp.size();
                    try {
                        H.call(H.m(lc, "put", lj, vj), lefts, left(l), vp.value(v, log.salt++));
                    } catch (Throwable z) {
                        x = H.code(z);
                    }
                    log.ev("reg").p("l", l).p("v", v).p("x", x).end();
                }
                case "enr", "drp", "wt" -> pair(t[0], a % nl, b % nr);
                case "adm" -> {
                    final int l = a % nl;
                    int r = -7;
                    boolean yes = false;
                    try {
                        final int le = leftEntry(l);
                        yes = le != -1 && waiting.size(le) > 0;
                        if (yes) {
                            final int re = waiting.removeFirst(le);
                            related(le, re);
                            r = rightAt(re);
                        }
                    } catch (Throwable z) {
                        x = H.code(z);
                    }
                    log.ev("adm").p("l", l).p("b", yes).p("r", r).p("x", x).end();
                }
                case "cls" -> close(a % nl);
                case "lve" -> leave(a % nr);
                case "set", "sch", "can" -> {
                    final int r = a % nr;
                    final int v = b % (t[0].equals("set") ? vp.size() : tp.size());
                    boolean yes = false;
                    try {
                        final int re = rightEntry(r);
                        yes = re != -1;
                        if (yes && t[0].equals("set")) {
                            cell(re, v);
                        } else if (yes && t[0].equals("sch")) {
                            final int h = pending.getOrDefault(re, -1);
                            if (h == -1) {
                                pending.put(re, (Integer) H.call(H.m(hc, "insert", tj, int.class), heap,
                                        tp.value(v, log.salt++), re));
                            } else {
                                H.call(H.m(hc, "resetKey", int.class, tj), heap, h, tp.value(v, log.salt++));
                            }
                        } else if (yes) {
                            yes = cancel(re);
                        }
                    } catch (Throwable z) {
                        x = H.code(z);
                    }
                    log.ev(t[0]).p("r", r).p(t[0].equals("set") ? "v" : "t", v).p("b", yes).p("x", x).end();
                }
                case "exp" -> {
                    final int now = a % tp.size();
                    final List<Integer> p = new ArrayList<>();
                    final List<Integer> ts = new ArrayList<>();
                    try {
                        while (!(Boolean) H.call(H.m(hc, "isEmpty"), heap)) {
                            final int h = (Integer) H.call(H.m(hc, "peek"), heap);
                            final int time = tp.rank(H.call(H.m(hc, "getKeyAt", int.class), heap, h));
                            if (time > now) {
                                break;
                            }
                            final int re = (Integer) H.call(H.m(hc, "getValueAt", int.class), heap, h);
                            H.call(H.m(hc, "removeAt", int.class), heap, h);
                            pending.remove(re);
                            H.add(p, rightAt(re));
                            ts.add(time);
                        }
                    } catch (Throwable z) {
                        x = H.code(z);
                    }
                    log.ev("exp").p("t", now).p("p", p).p("ts", ts).p("x", x).end();
                }
                case "obs" -> obs();
                default -> throw new H.Infra("op " + t[0], null);
            }
        }

        private void pair(final String op, final int l, final int r) {
            String x = "ok";
            boolean yes = false;
            boolean isNew = false;
            try {
                final int le = leftEntry(l);
                yes = le != -1;
                if (op.equals("drp")) {
                    final int re = rightEntry(r);
                    yes &= re != -1 && rel.contains(le, re);
                    if (yes) {
                        rel.remove(le, re);
                    }
                } else if (yes) {
                    final int re = known(r);
                    if (op.equals("wt")) {
                        waiting.addLast(le, re);
                    } else {
                        isNew = !rel.contains(le, re);
                        related(le, re);
                    }
                }
            } catch (Throwable z) {
                x = H.code(z);
            }
            log.ev(op).p("l", l).p("r", r).p("b", yes).p("g", isNew).p("x", x).end();
        }

        /** The left key goes, and only then is what was known about it looked at and let go. */
        private void close(final int l) {
            String x = "ok";
            boolean yes = false;
            int k = -7;
            int v = -7;
            final List<Integer> p = new ArrayList<>();
            try {
                final int le = leftEntry(l);
                yes = le != -1;
                if (yes) {
                    H.call(H.m(lc, "removeAtAndReserve", int.class), lefts, le);
                    final IntVector es = entries(true, le);
                    for (int i = 0; i < es.size(); i++) {
                        H.add(p, rightAt(rel.getRightAt(es.valueAt(i))));
                        rel.removeAt(es.valueAt(i));
                    }
                    while (waiting.size(le) > 0) {
                        waiting.removeFirst(le);
                    }
                    k = leftAt(le);
                    v = valueAt(le);
                    H.call(H.m(lc, "freeReservedEntry", int.class), lefts, le);
                }
            } catch (Throwable z) {
                x = H.code(z);
            }
            log.ev("cls").p("l", l).p("b", yes).p("k", k).p("v", v).p("p", p).p("x", x).end();
        }

        private void leave(final int r) {
            String x = "ok";
            boolean yes = false;
            final List<Integer> p = new ArrayList<>();
            try {
                final int re = rightEntry(r);
                yes = re != -1;
                if (yes) {
                    final IntVector es = entries(false, re);
                    for (int i = 0; i < es.size(); i++) {
                        H.add(p, leftAt(rel.getLeftAt(es.valueAt(i))));
                        rel.removeAt(es.valueAt(i));
                    }
                    cancel(re);
                    for (int l = 0; l < nl; l++) {
                        final int le = leftEntry(l);
                        if (le != -1) {
                            for (int n = waiting.size(le); n > 0; n--) { // all of them pass by, but for the one
                                final int e = waiting.removeFirst(le);
                                if (e != re) {
                                    waiting.addLast(le, e);
                                }
                            }
                        }
                    }
                    cell(re, 0);
                    H.call(H.m(rc, "removeAt", int.class), rights, re);
                }
            } catch (Throwable z) {
                x = H.code(z);
            }
            log.ev("lve").p("r", r).p("b", yes).p("p", p).p("x", x).end();
        }

        private static String json(final List<List<Integer>> v) {
            return v.toString().replace(" ", "");
        }

        private void obs() {
            String x = "ok";
            final List<List<Integer>> all = new ArrayList<>();
            final List<Integer> lv = new ArrayList<>();
            final List<List<Integer>> pl = new ArrayList<>();
            final List<Integer> cl = new ArrayList<>();
            final List<List<Integer>> ql = new ArrayList<>();
            final List<Integer> at = new ArrayList<>();
            final List<Integer> du = new ArrayList<>();
            final List<List<Integer>> pr = new ArrayList<>();
            final List<Integer> cr = new ArrayList<>();
            int sl = -7;
            int sr = -7;
            int sp = -7;
            int sd = -7;
            try {
                sl = (Integer) H.call(H.m(lc, "size"), lefts);
                sr = (Integer) H.call(H.m(rc, "size"), rights);
                sp = rel.size();
                sd = (Integer) H.call(H.m(hc, "getSize"), heap);
                final IntVector es = new IntVector(4);
                rel.forEachEntry(es::append);
                for (int i = 0; i < es.size(); i++) {
                    final int e = es.valueAt(i);
                    all.add(List.of(leftAt(rel.getLeftAt(e)), rightAt(rel.getRightAt(e))));
                }
                for (int l = 0; l < nl; l++) {
                    final int le = leftEntry(l);
                    final List<Integer> p = new ArrayList<>();
                    final List<Integer> q = new ArrayList<>();
                    if (le != -1) {
                        for (IntIterator i = rel.withLeft(le).valueIterator(); i.hasNext(); ) {
                            H.add(p, rightAt(i.next()));
                        }
                        for (IntIterator i = waiting.iterator(le); i.hasNext(); ) {
                            H.add(q, rightAt(i.next()));
                        }
                    }
                    lv.add(le == -1 ? -1 : valueAt(le));
                    cl.add(le == -1 ? -1 : rel.withLeft(le).count());
                    pl.add(p);
                    ql.add(q);
                }
                for (int r = 0; r < nr; r++) {
                    final int re = rightEntry(r);
                    final List<Integer> p = new ArrayList<>();
                    if (re != -1 && m2m) {
                        for (IntIterator i = ((CompactManyToMany) rel).withRight(re).valueIterator(); i.hasNext(); ) {
                            H.add(p, leftAt(i.next()));
                        }
                    }
                    at.add(re == -1 ? -1 : cell(re));
                    du.add(re == -1 ? -1 : due(re));
                    cr.add(re == -1 || !m2m ? -1 : ((CompactManyToMany) rel).withRight(re).count());
                    pr.add(p);
                }
            } catch (Throwable z) {
                x = H.code(z);
            }
            log.ev("obs").p("nl", sl).p("nr", sr).p("np", sp).p("nd", sd).raw("all", json(all)).p("lv", lv)
                    .raw("pl", json(pl)).p("cl", cl).raw("ql", json(ql)).p("at", at).p("du", du).raw("pr", json(pr))
                    .p("cr", cr).p("x", x).end();
        }
    }
}
