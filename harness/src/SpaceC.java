import com.bytefacets.collections.EntryIterator;
import com.bytefacets.collections.bi.CompactManyToMany;
import com.bytefacets.collections.bi.CompactOneToMany;
import java.util.ArrayDeque;
import java.util.List;

/** The space that collections take; conf kind, cap, lf, how, rot. */
public final class SpaceC implements H.Component {
    private static final Class<?>[] NONE = {};
    private static final Class<?>[] I = {int.class};

    @Override
    public List<String> targets(final H.Scenario s) {
        final int rot = s.i("rot", 0);
        final String k = Types.KEYS[rot % 9];
        final String v = Types.ALL[rot / 9 % 10];
        return switch (s.s("kind", "set")) {
            case "set" -> List.of(k);
            case "map", "heap" -> List.of(k + "," + v);
            case "rel" -> List.of(rot % 3 == 0 ? "o2m" : "m2m");
            default -> List.of(v);
        };
    }

    @Override
    public void run(final H.Scenario s, final String target, final H.Log log) throws Throwable {
        final Run r;
        try {
            r = new Run(s, target, log);
        } catch (H.Infra z) {
            throw z;
        } catch (Throwable z) {
            return; // a configuration that is refused takes no space
        }
        r.run();
    }

    private static final class Run {
        final H.Scenario s;
        final H.Log log;
        final String kind;
        final String kt;
        final String vt;
        final int how; // the way to remove
        final int cap;
        final Class<?> cls;
        Object c;
        final ArrayDeque<int[]> held = new ArrayDeque<>(); // number, entry
        Object other;
        int counter;

        Run(final H.Scenario s, final String target, final H.Log log) throws Throwable {
            this.s = s;
            this.log = log;
            kind = s.s("kind", "set");
            how = s.i("how", 0);
            cap = s.i("cap", 1);
            final int comma = target.indexOf(',');
            kt = comma < 0 ? target : target.substring(0, comma);
            vt = comma < 0 ? target : target.substring(comma + 1);
            cls = switch (kind) {
                case "set" -> H.cls("hash." + kt + "IndexedSet");
                case "map" -> H.cls("hash." + kt + vt + "IndexedMap");
                case "heap" -> H.cls("heap." + kt + vt + "Heap");
                case "deque" -> H.cls("queue." + vt + "Deque");
                case "hydra" -> H.cls("queue." + vt + "HydraDeque");
                case "vector" -> H.cls("vector." + vt + "Vector");
                case "store" -> H.cls("store." + vt + "ChunkStore");
                case "matrix" -> H.cls("store." + vt + "ChunkMatrixStore");
                default -> CompactOneToMany.class;
            };
            c = switch (kind) {
                case "set", "map" -> H.make(cls, new Class<?>[] {int.class, double.class}, cap, s.i("lf", 750) / 1000.0);
                case "hydra" -> H.make(cls, new Class<?>[] {int.class, int.class}, 2, cap);
                case "store" -> H.make(cls, new Class<?>[] {int.class, int.class}, cap, s.i("chunk", 4));
                case "matrix" -> H.make(cls, new Class<?>[] {int.class, int.class, int.class}, cap, s.i("chunk", 4), 3);
                case "rel" -> kt.equals("m2m") ? new CompactManyToMany(2, 2, cap, how % 2 == 0)
                        : new CompactOneToMany(2, cap, how % 2 == 0);
                default -> H.make(cls, I, cap);
            };
        }

        Object of(final String t, final int n) {
            return switch (t) {
                case "Bool" -> n % 2 == 0;
                case "Byte" -> (byte) n;
                case "Short" -> (short) n;
                case "Char" -> (char) n;
                case "Int" -> n * 17;
                case "Long" -> n * 17L;
                case "Float" -> (float) n;
                case "Double" -> n * 0.25;
                case "String" -> "k" + n;
                default -> new Types.Obj(n, n);
            };
        }

        Object call(final String name, final Class<?>[] t, final Object... a) throws Throwable {
            return H.call(H.m(cls, name, t), c, a);
        }

        CompactOneToMany rel() {
            return (CompactOneToMany) c;
        }

        int width() {
            return s.i("width", 7);
        }

        void add() throws Throwable {
            final int n = counter = (counter + 1) % 210;
            final Class<?> kj = Types.javaType(kt);
            final Class<?> vj = Types.javaType(vt);
            int e = -1;
            switch (kind) {
                case "set" -> e = (Integer) call("add", new Class<?>[] {kj}, of(kt, n));
                case "map" -> e = (Integer) call("put", new Class<?>[] {kj, vj}, of(kt, n), of(vt, n));
                case "heap" -> e = (Integer) call("insert", new Class<?>[] {kj, vj}, of(kt, how == 1 ? 210 - n : n), of(vt, n));
                case "deque" -> call(how % 2 == 0 ? "addLast" : "addFirst", new Class<?>[] {vj}, of(vt, n));
                case "hydra" -> call(how % 2 == 0 ? "addLast" : "addFirst", new Class<?>[] {int.class, vj}, n % width(), of(vt, n));
                case "vector" -> call("append", new Class<?>[] {vj}, of(vt, n));
                case "rel" -> e = rel().put(n % width(), n / width());
                default -> throw new H.Infra("add to " + kind, null);
            }
            held.addLast(new int[] {n, e});
        }

        /** Removes the oldest or the newest. */
        void remove(final boolean newest) throws Throwable {
            final int[] x = newest ? held.removeLast() : held.removeFirst();
            final Class<?> kj = Types.javaType(kt);
            switch (kind) {
                case "set", "map" -> {
                    switch (how) {
                        case 0 -> call("remove", new Class<?>[] {kj}, of(kt, x[0]));
                        case 1 -> call("removeAt", I, x[1]);
                        case 2 -> {
                            call("removeAtAndReserve", I, x[1]);
                            call("freeReservedEntry", I, x[1]);
                        }
                        default -> {
                            final EntryIterator it = (EntryIterator) call("iterator", NONE);
                            while (it.next()) {
                                if (it.currentEntry() == x[1]) {
                                    it.remove();
                                    break;
                                }
                            }
                        }
                    }
                }
                case "heap" -> call("removeAt", I, x[1]);
                case "deque" -> call(how % 2 == 0 != newest ? "removeFirst" : "removeLast", NONE);
                case "hydra" -> call(how % 2 == 0 != newest ? "removeFirst" : "removeLast", I, x[0] % width());
                case "rel" -> {
                    switch (how) {
                        case 0 -> rel().remove(x[0] % width(), x[0] / width());
                        case 1 -> rel().removeAt(x[1]);
                        default -> {
                            rel().removeAtAndReserve(x[1]);
                            rel().freeReservedEntry(x[1]);
                        }
                    }
                }
                default -> throw new H.Infra("remove from " + kind, null);
            }
        }

        void clear() throws Throwable {
            if (kind.equals("rel")) {
                while (!held.isEmpty()) {
                    remove(true);
                }
            } else {
                call("clear", NONE);
                held.clear();
            }
        }

        /** Calls that change nothing, or only what is there. */
        void idle(final int i) throws Throwable {
            final Class<?> kj = Types.javaType(kt);
            final Class<?> vj = Types.javaType(vt);
            final int[] x = held.isEmpty() ? null : i % 2 == 0 ? held.getFirst() : held.getLast();
            final int absent = (counter + 1) % 210; // as fewer are held
            try {
                switch (kind) {
                    case "set", "map" -> {
                        if (x != null && i % 3 > 0) {
                            if (kind.equals("map") && i % 3 == 1) {
                                call("put", new Class<?>[] {kj, vj}, of(kt, x[0]), of(vt, i));
                            } else {
                                call("add", new Class<?>[] {kj}, of(kt, x[0]));
                            }
                        } else {
                            call("remove", new Class<?>[] {kj}, of(kt, absent));
                        }
                    }
                    case "heap" -> {
                        if (x != null && i % 3 > 0) {
                            call("resetKey", new Class<?>[] {int.class, kj}, x[1], of(kt, i % 210));
                        } else {
                            call("removeAt", I, -1);
                        }
                    }
                    case "deque" -> {
                        if (x == null) {
                            call("removeFirst", NONE);
                        } else {
                            call("peekFirst", NONE);
                        }
                    }
                    case "hydra" -> {
                        call("size", I, i % width());
                        call("iterator", I, i % width());
                    }
                    case "vector" -> call("size", NONE);
                    case "rel" -> {
                        if (x != null && i % 2 == 0) {
                            rel().put(x[0] % width(), x[0] / width());
                        } else {
                            rel().remove(absent % width(), absent / width());
                        }
                    }
                    default -> call("getCapacity", NONE);
                }
            } catch (RuntimeException z) {
                // refused
            }
        }

        void run() throws Throwable {
            log.ev("new").p("kind", kind).p("cap", Math.max(cap, kind.equals("store") || kind.equals("matrix") ? s.i("chunk", 4) : 1)
                            * (kind.equals("matrix") ? 3 : 1)).p("lf", kind.equals("set") || kind.equals("map") ? s.i("lf", 750) : 1000)
                    .p("w", kind.equals("rel") ? 210 : kind.equals("hydra") ? width() : 0);
            close();
            for (String[] t : s.ops) {
                final int n = Integer.parseInt(t[1]);
                final int k = t.length > 2 ? Integer.parseInt(t[2]) : 0;
                try {
                    op(t[0], n, k);
                } catch (H.Infra z) {
                    throw z;
                } catch (Throwable z) {
                    return; // what is wrong here is not the space
                }
                log.ev(t[0]).p("n", n).p("k", k);
                close();
            }
        }

        void op(final String op, final int n, final int k) throws Throwable {
            switch (op) {
                case "add" -> {
                    for (int i = 0; i < n; i++) {
                        add();
                    }
                }
                case "rem" -> {
                    for (int i = 0; i < n; i++) {
                        remove(k == 1);
                    }
                }
                case "slide" -> { // n times: k more, k less
                    for (int i = 0; i < n; i++) {
                        for (int j = 0; j < k; j++) {
                            add();
                        }
                        for (int j = 0; j < k; j++) {
                            remove(i % 3 == 2);
                        }
                    }
                }
                case "drain" -> { // n times: k more, all removed, clear
                    for (int i = 0; i < n; i++) {
                        for (int j = 0; j < k; j++) {
                            add();
                        }
                        while (!held.isEmpty()) {
                            remove(i % 2 == 0);
                        }
                        clear();
                    }
                }
                case "copy" -> { // n times: a copy takes over, k more, k less
                    for (int i = 0; i < n; i++) {
                        if (kind.equals("set") || kind.equals("map")) {
                            final Object next = i % 3 == 2 && other != null ? other
                                    : H.make(cls, new Class<?>[] {int.class, double.class}, cap, s.i("lf", 750) / 1000.0);
                            H.call(H.m(cls, "copyFrom", new Class<?>[] {cls}), next, new Object[] {c});
                            other = c;
                            c = next;
                        }
                        for (int j = 0; j < k; j++) {
                            add();
                        }
                        for (int j = 0; j < k; j++) {
                            remove(i % 2 == 0);
                        }
                    }
                }
                case "refill" -> { // n times: clear, k more
                    for (int i = 0; i < n; i++) {
                        clear();
                        for (int j = 0; j < k; j++) {
                            add();
                        }
                    }
                }
                case "clr" -> clear();
                case "idle" -> {
                    for (int i = 0; i < n; i++) {
                        idle(i);
                    }
                }
                case "top" -> { // n times: up to index or size k
                    final Class<?> vj = Types.javaType(vt);
                    for (int i = 0; i < n; i++) {
                        final int at = k - i % Math.min(k + 1, 10);
                        switch (kind) {
                            case "vector" -> call("ensureSize", I, at);
                            case "store" -> call("set" + vt, new Class<?>[] {int.class, vj}, at, of(vt, i));
                            case "matrix" -> call("set" + vt, new Class<?>[] {int.class, int.class, vj}, at / 3, at % 3, of(vt, i));
                            default -> throw new H.Infra("top of " + kind, null);
                        }
                    }
                }
                default -> throw new H.Infra("op " + op, null);
            }
        }

        /** The elements of all arrays that belong to the collection. */
        void close() {
            log.p("sp", Reach.space(c)).end();
        }
    }
}
