import com.bytefacets.collections.bi.CompactManyToMany;
import com.bytefacets.collections.bi.CompactOneToMany;
import com.bytefacets.collections.bi.Mapping;
import com.bytefacets.collections.functional.IntConsumer;
import com.bytefacets.collections.functional.IntIterator;
import java.util.ArrayList;
import java.util.HashMap;
import java.util.List;
import java.util.Map;
import java.util.TreeMap;

/** Compact one-to-many and many-to-many relations; conf L, R, lefts, rights, maps, cnt, lk, rk. */
public final class RelC implements H.Component {
    @Override
    public List<String> targets(final H.Scenario s) {
        return List.of("o2m", "m2m");
    }

    @Override
    public boolean small(final H.Scenario s) {
        return s.ops.size() <= 400;
    }

    @Override
    public void run(final H.Scenario s, final String target, final H.Log log) throws Throwable {
        new Run(s, target, log).run();
    }

    private static final class Run {
        static final int[] EXT = {
            Integer.MIN_VALUE, -1, 0, Integer.MAX_VALUE, 1, -2, 65536, Integer.MIN_VALUE + 1, 0x55555555, -65536
        };
        final H.Scenario s;
        final H.Log log;
        final boolean m2m;
        final boolean counts;
        final int l;
        final int r;
        final Map<Integer, Integer> lrank = new HashMap<>();
        final Map<Integer, Integer> rrank = new HashMap<>();
        final TreeMap<Integer, Integer> ent = new TreeMap<>(); // pair -> entry, as last returned
        final List<Integer> reserved = new ArrayList<>();
        CompactOneToMany c;

        Run(final H.Scenario s, final String target, final H.Log log) {
            inner = new H.Inner(s.id);
            this.s = s;
            this.log = log;
            m2m = target.equals("m2m");
            counts = s.i("cnt", 1) == 1;
            l = s.i("L", 3);
            r = s.i("R", 3);
            for (int i = 0; i < Math.max(l, r) + 2; i++) {
                lrank.put(left(i), i);
                rrank.put(right(i), i);
            }
        }

        private static int spread(final String kind, final int i) {
            return switch (kind) {
                case "far" -> i * 37;
                case "up" -> 500 + i;
                case "rev" -> Math.abs(29 - i);
                default -> i;
            };
        }

        int left(final int i) {
            return spread(s.s("lk", "id"), i);
        }

        int right(final int i) {
            if (!m2m && s.i("ext", 0) == 1) {
                return i < EXT.length ? EXT[i] : 1000 + i;
            }
            return spread(s.s("rk", "id"), i);
        }

        void run() throws Throwable {
            if (s.i("dflt", 0) == 1) {
                c = m2m ? new CompactManyToMany() : new CompactOneToMany();
            } else {
                c = m2m ? new CompactManyToMany(s.i("lefts", 1), s.i("rights", 1), s.i("maps", 1), counts)
                        : new CompactOneToMany(s.i("lefts", 1), s.i("maps", 1), counts);
            }
            log.ev("new").p("m2m", m2m).p("cnt", counts || s.i("dflt", 0) == 1).end();
            for (String[] t : s.ops) {
                op(t);
            }
        }

        /** aN: the entry of one of the pairs present; eN: entry N. */
        int entry(final String tok) {
            final int n = Integer.parseInt(tok.substring(1));
            if (tok.charAt(0) == 'e') {
                return n;
            }
            if (ent.isEmpty()) {
                return 0;
            }
            final List<Integer> all = new ArrayList<>(ent.values());
            return all.get(Math.floorMod(n, all.size()));
        }

        void op(final String[] t) throws Throwable {
            String x = "ok";
            switch (t[0]) {
                case "put", "rem", "lk" -> {
                    final int a = Integer.parseInt(t[1]) % l;
                    final int b = Integer.parseInt(t[2]) % r;
                    final boolean idle = !t[0].equals("lk") && ent.containsKey(a * 100 + b) == t[0].equals("put");
                    int e = -7;
                    try {
                        e = t[0].equals("put") ? c.put(left(a), right(b))
                                : t[0].equals("rem") ? c.remove(left(a), right(b)) : c.lookupEntry(left(a), right(b));
                    } catch (Throwable z) {
                        x = H.code(z);
                    }
                    if (t[0].equals("put")) {
                        ent.put(a * 100 + b, e);
                    } else if (t[0].equals("rem")) {
                        ent.remove(a * 100 + b);
                    }
                    log.ev(t[0]).p("l", a).p("r", b).p("e", e).p("x", x).idle(idle).end();
                }
                case "neg" -> { // a key that cannot be one
                    final int a = Integer.parseInt(t[1]);
                    final int b = Integer.parseInt(t[2]);
                    if (!m2m && a >= 0) {
                        return;
                    }
                    try {
                        c.put(a < 0 ? a : left(a % l), b < 0 ? b : right(b % r));
                    } catch (Throwable z) {
                        x = H.code(z);
                    }
                    boolean has = true;
                    try {
                        has = c.contains(a < 0 ? a : left(a % l), b < 0 ? b : right(b % r));
                    } catch (Throwable z) {
                        x = H.code(z);
                    }
                    log.ev("neg").p("l", a).p("r", b).p("b", has).p("x", x).idle(true).end();
                }
                case "ck" -> {
                    final int a = Integer.parseInt(t[1]) % l;
                    final int b = Integer.parseInt(t[2]) % r;
                    boolean has = false;
                    try {
                        has = c.contains(left(a), right(b));
                    } catch (Throwable z) {
                        x = H.code(z);
                    }
                    log.ev("ck").p("l", a).p("r", b).p("b", has).p("x", x).end();
                }
                case "rat", "rsv" -> {
                    final int e = entry(t[1]);
                    int y = -7;
                    final boolean live = ent.containsValue(e);
                    try {
                        if (t[0].equals("rat")) {
                            y = c.removeAt(e);
                        } else {
                            c.removeAtAndReserve(e);
                        }
                    } catch (Throwable z) {
                        x = H.code(z);
                    }
                    if (live) {
                        ent.values().remove(e);
                        if (t[0].equals("rsv")) {
                            reserved.add(e);
                        }
                    }
                    log.ev(t[0]).p("e", e).p("y", y).p("x", x).idle(!live).end();
                }
                case "frs", "frse" -> { // only entries that are reserved: anything else is not to be freed
                    if (reserved.isEmpty()) {
                        return;
                    }
                    final int n = Integer.parseInt(t[1]);
                    int e = reserved.get(Math.floorMod(n, reserved.size()));
                    if (t[0].equals("frse")) {
                        if (!reserved.contains(n)) {
                            return;
                        }
                        e = n;
                    }
                    reserved.remove((Integer) e);
                    try {
                        c.freeReservedEntry(e);
                    } catch (Throwable z) {
                        x = H.code(z);
                    }
                    log.ev("frs").p("e", e).p("x", x).end();
                }
                case "at" -> {
                    final int e = reserved.isEmpty() || (log.salt++ & 1) == 0 ? entry(t[1])
                            : reserved.get(Math.floorMod(log.salt, reserved.size()));
                    int a = -7;
                    int b = -7;
                    try {
                        a = lrank.getOrDefault(c.getLeftAt(e), -99);
                        b = rrank.getOrDefault(c.getRightAt(e), -99);
                    } catch (Throwable z) {
                        x = H.code(z);
                    }
                    log.ev("at").p("e", e).p("l", a).p("r", b).p("x", x).end();
                }
                case "nav" -> nav(t[1].equals("l"), Integer.parseInt(t[2]));
                case "nsw", "fsw" -> {
                    final boolean isLeft = t[1].equals("l");
                    if (!isLeft && !m2m) {
                        return;
                    }
                    final int k = Integer.parseInt(t[2]);
                    final int m = Integer.parseInt(t[3]);
                    final int rest = Integer.parseInt(t[4]);
                    final int kind = t[0].equals("fsw") ? 4 : log.salt++ & 3;
                    final List<Integer> v = new ArrayList<>();
                    final List<Integer> rm = new ArrayList<>();
                    final int th = H.thrown(t);
                    final IntConsumer visit = w -> {
                        final Map<Integer, Integer> back = isLeft ? rrank : lrank;
                        final int o = kind < 2 ? back.getOrDefault(w, -99) : w;
                        H.add(v, o);
                        if (v.size() == th + 1) {
                            throw new H.Boom();
                        }
                        final int e = kind >= 2 ? w : isLeft ? c.lookupEntry(left(k), w) : c.lookupEntry(w, right(k));
                        if (!H.picks(m, rest, e, v.size() - 1) || !ent.containsValue(e)) {
                            return;
                        }
                        rm.add(e);
                        ent.values().remove(e);
                        if ((log.salt++ & 1) == 0) {
                            c.removeAt(e);
                        } else {
                            c.remove(c.getLeftAt(e), c.getRightAt(e));
                        }
                    };
                    try {
                        final Mapping mp = mapping(isLeft, k);
                        switch (kind) {
                            case 0 -> mp.forEachValue(visit);
                            case 1 -> {
                                for (IntIterator i = mp.valueIterator(); i.hasNext(); ) {
                                    visit.accept(i.next());
                                }
                            }
                            case 2 -> mp.forEachEntry(visit);
                            case 3 -> {
                                for (IntIterator i = mp.entryIterator(); i.hasNext(); ) {
                                    visit.accept(i.next());
                                }
                            }
                            default -> c.forEachEntry(visit);
                        }
                    } catch (Throwable z) {
                        x = H.code(z);
                    }
                    log.ev(t[0]);
                    if (kind < 4) {
                        log.p("left", isLeft).p("k", k).p("ent", kind >= 2);
                    }
                    if (th >= 0) {
                        log.p("th", th);
                    }
                    log.p("v", H.sorted(v)).p("rm", rm).p("x", x).idle(th >= 0 && rm.isEmpty()).end();
                }
                case "obs" -> obs();
                default -> throw new H.Infra("op " + t[0], null);
            }
        }

        /** One key's partners and entries; within it perhaps a key of the other side. */
        void nav(final boolean isLeft, final int k) {
            if (!isLeft && !m2m) {
                return;
            }
            final int other = Math.floorMod(k + log.salt++, (isLeft ? r : l) + 1);
            inner.look(4);
            final List<Integer> fv = new ArrayList<>();
            final List<Integer> fe = new ArrayList<>();
            final List<Integer> iv = new ArrayList<>();
            final List<Integer> ie = new ArrayList<>();
            final IntConsumer within = i -> inner.at(i, () -> nav(!isLeft, other));
            String x = "ok";
            String y = "ok";
            int n = -7;
            try {
                mapping(isLeft, k).forEachValue(v -> {
                    within.accept(0);
                    H.add(fv, partner(isLeft, v));
                });
                mapping(isLeft, k).forEachEntry(e -> {
                    within.accept(1);
                    H.add(fe, e);
                });
                final Mapping m = mapping(isLeft, k);
                if ((log.salt++ & 1) == 0 || H.calm) { // one after the other
                    for (IntIterator i = m.valueIterator(); i.hasNext(); ) {
                        within.accept(2);
                        H.add(iv, partner(isLeft, i.next()));
                    }
                    for (IntIterator i = mapping(isLeft, k).entryIterator(); i.hasNext(); ) {
                        within.accept(3);
                        H.add(ie, i.next());
                    }
                } else { // side by side
                    final IntIterator i = m.valueIterator();
                    final IntIterator j = m.entryIterator();
                    while (i.hasNext() | j.hasNext()) {
                        if (i.hasNext()) {
                            within.accept(2);
                            H.add(iv, partner(isLeft, i.next()));
                        }
                        if (j.hasNext()) {
                            within.accept(3);
                            H.add(ie, j.next());
                        }
                    }
                }
            } catch (Throwable z) {
                x = H.code(z);
            }
            try {
                n = mapping(isLeft, k).count();
            } catch (Throwable z) {
                y = H.code(z);
            }
            inner.done(() -> nav(!isLeft, other));
            log.ev("nav").p("left", isLeft).p("k", k).p("fv", H.sorted(fv)).p("fe", H.sorted(fe))
                    .p("iv", H.sorted(iv)).p("ie", H.sorted(ie)).p("n", n).p("x", x).p("y", y).end();
        }

        private int partner(final boolean isLeft, final int v) {
            return (isLeft ? rrank : lrank).getOrDefault(v, -99);
        }

        Mapping mapping(final boolean isLeft, final int k) {
            return isLeft ? c.withLeft(k < 0 ? k : left(k)) : ((CompactManyToMany) c).withRight(k < 0 ? k : right(k));
        }

        void values(final boolean isLeft, final int k, final boolean it, final List<Integer> out) {
            final Map<Integer, Integer> back = isLeft ? rrank : lrank;
            if (it) {
                final IntIterator i = mapping(isLeft, k).valueIterator();
                while (i.hasNext()) {
                    H.add(out, back.getOrDefault(i.next(), -99));
                }
            } else {
                mapping(isLeft, k).forEachValue(v -> H.add(out, back.getOrDefault(v, -99)));
            }
        }

        void entries(final boolean isLeft, final int k, final boolean it, final List<Integer> out) {
            if (it) {
                final IntIterator i = mapping(isLeft, k).entryIterator();
                while (i.hasNext()) {
                    H.add(out, i.next());
                }
            } else {
                mapping(isLeft, k).forEachEntry(v -> H.add(out, v));
            }
        }

        private final H.Inner inner;

        void obs() {
            inner.look(1);
            String x = "ok";
            int n = -7;
            final List<Integer> fe = new ArrayList<>();
            final List<Integer> la = new ArrayList<>();
            final List<Integer> ra = new ArrayList<>();
            final List<Integer> lk = new ArrayList<>();
            final int[] ck = new int[l * r];
            try {
                n = c.size();
                for (int a = 0; a < l; a++) {
                    for (int b = 0; b < r; b++) {
                        lk.add(c.lookupEntry(left(a), right(b)));
                        ck[a * r + b] = c.contains(left(a), right(b)) ? 1 : 0;
                    }
                }
                c.forEachEntry(e -> {
                    inner.at(0, this::obs);
                    H.add(fe, e);
                });
                fe.sort(null);
                for (int e : fe) {
                    la.add(lrank.getOrDefault(c.getLeftAt(e), -99));
                    ra.add(rrank.getOrDefault(c.getRightAt(e), -99));
                }
            } catch (Throwable z) {
                x = H.code(z);
            }
            inner.done(this::obs);
            log.ev("obs").p("R", r).p("n", n).p("fe", fe).p("la", la).p("ra", ra).p("lk", lk).p("ck", ck).p("x", x);
            String y = "ok";
            try {
                side("L", true, l + 1);
                if (m2m) {
                    side("R", false, r + 1);
                }
            } catch (Throwable z) {
                y = H.code(z);
            }
            log.p("y", y).end();
        }

        private void side(final String name, final boolean isLeft, final int n) {
            final boolean it = (log.salt++ & 1) == 0;
            final StringBuilder v = new StringBuilder("[");
            final StringBuilder e = new StringBuilder("[");
            final List<Integer> cs = new ArrayList<>();
            for (int k = 0; k < n; k++) {
                final List<Integer> lv = new ArrayList<>();
                final List<Integer> le = new ArrayList<>();
                values(isLeft, k, it, lv);
                entries(isLeft, k, !it, le);
                lv.sort(null);
                le.sort(null);
                v.append(k == 0 ? "" : ",").append(lv.toString().replace(" ", ""));
                e.append(k == 0 ? "" : ",").append(le.toString().replace(" ", ""));
                int count = -7;
                try {
                    count = mapping(isLeft, k).count();
                } catch (Throwable z) {
                    count = H.code(z).equals("ISE") || H.code(z).equals("IAE") ? -1 : -8;
                }
                cs.add(count);
            }
            log.raw("v" + name, v + "]").raw("e" + name, e + "]").p("c" + name, cs);
        }
    }
}
