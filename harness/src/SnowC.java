import com.bytefacets.collections.id.Snowflake;
import java.util.ArrayList;
import java.util.Comparator;
import java.util.List;
import java.util.concurrent.BrokenBarrierException;
import java.util.concurrent.CyclicBarrier;
import java.util.concurrent.TimeUnit;
import java.util.concurrent.TimeoutException;
import java.util.concurrent.atomic.AtomicInteger;
import java.util.concurrent.atomic.AtomicLong;
import java.util.function.LongUnaryOperator;

/** Id generators; conf name (hex code points). Milliseconds are given relative to the epoch. */
public final class SnowC implements H.Component {
    static final long EPOCH = 1676731200000L;

    @Override
    public List<String> targets(final H.Scenario s) {
        return List.of("snowflake");
    }

    @Override
    public boolean small(final H.Scenario s) {
        return s.ops.stream().noneMatch(t -> t[0].equals("race"));
    }

    @Override
    public void run(final H.Scenario s, final String target, final H.Log log) throws Throwable {
        new Run(s, log).run();
    }

    /** The clock gives no further reading. */
    private static final class Stuck extends RuntimeException {
        Stuck() {
            super(null, null, false, false);
        }
    }

    static int[] word(final long v) {
        final int[] b = new int[8];
        for (int i = 0; i < 8; i++) {
            b[i] = (int) (v >>> (8 * (7 - i))) & 255;
        }
        return b;
    }

    static String words(final List<Long> v) {
        final StringBuilder b = new StringBuilder("[");
        for (int i = 0; i < v.size(); i++) {
            b.append(i == 0 ? "" : ",").append(java.util.Arrays.toString(word(v.get(i))));
        }
        return b.append(']').toString();
    }

    /** A call: when it started and ended, what it read and got. */
    private static final class Got {
        int start;
        int end;
        final List<Long> readings = new ArrayList<>();
        String x = "ok";
        long id;
        long[] parts = {0, -1, -1};

        void read(final long v) {
            if (readings.size() < 8 || !readings.contains(v)) {
                if (readings.isEmpty() || readings.get(readings.size() - 1) != v) {
                    readings.add(v);
                }
            }
        }
    }

    private static final class Run {
        final H.Scenario s;
        final H.Log log;
        Snowflake gen;
        volatile LongUnaryOperator source; // called with the number of readings in this call
        final ThreadLocal<Got> current = new ThreadLocal<>();
        final AtomicInteger ticket = new AtomicInteger();

        Run(final H.Scenario s, final H.Log log) {
            this.s = s;
            this.log = log;
        }

        long clock() {
            final Got g = current.get();
            final long v = source.applyAsLong(g.readings.size()) + EPOCH;
            g.read(v);
            return v;
        }

        void make(final String name) {
            String x = "ok";
            int node = -1;
            try {
                gen = name.equals("DEFAULT") ? Snowflake.snowflake(this::clock)
                        : Snowflake.snowflake(this::clock, () -> TypesC.text(name));
                source = n -> 7L;
                current.set(new Got());
                // the node shows in an id of another generator of the same name
                final Snowflake other = name.equals("DEFAULT") ? Snowflake.snowflake(this::clock)
                        : Snowflake.snowflake(this::clock, () -> TypesC.text(name));
                node = (int) other.parse(other.nextId())[1];
            } catch (Throwable z) {
                x = H.code(z);
            }
            log.ev("new").p("s", name).p("node", node).p("x", x).end();
        }

        Got next() {
            final Got g = new Got();
            current.set(g);
            g.start = ticket.incrementAndGet();
            try {
                g.id = gen.nextId();
                g.end = ticket.incrementAndGet();
                final long[] p = gen.parse(g.id);
                g.parts = p.length == 3 ? p : new long[] {0, -1, -1};
            } catch (Stuck z) {
                g.x = "stuck";
            } catch (Throwable z) {
                g.x = H.code(z);
            }
            if (g.end == 0) {
                g.end = ticket.incrementAndGet();
            }
            return g;
        }

        /** Do calls a and then b continue a run of one millisecond? */
        static boolean continues(final Got a, final Got b) {
            return a.x.equals("ok") && b.x.equals("ok") && b.id > a.id && b.parts[0] == a.parts[0] && b.parts[1] == a.parts[1]
                    && b.parts[2] == a.parts[2] + 1 && b.readings.contains(b.parts[0]);
        }

        void show(final String op, final List<Got> run) {
            final Got a = run.get(0);
            final Got z = run.get(run.size() - 1);
            int late = 0;
            int early = Integer.MAX_VALUE;
            for (Got g : run) {
                late = Math.max(late, g.start);
                early = Math.min(early, g.end);
            }
            log.ev(op).p("n", run.size()).p("x", a.x).raw("rs", words(a.readings)).p("id", word(a.id)).p("last", word(z.id))
                    .p("ts", word(a.parts[0])).p("node", (int) a.parts[1]).p("seq", (int) a.parts[2]).p("s", late)
                    .p("e", early).end();
        }

        void run() throws Throwable {
            make(s.s("name", "61"));
            for (String[] t : s.ops) {
                if (gen == null) {
                    return;
                }
                op(t);
            }
        }

        void op(final String[] t) throws Throwable {
            switch (t[0]) {
                case "new" -> make(t[1]);
                case "null" -> {
                    String x = "ok";
                    try {
                        Snowflake.snowflake(null, () -> "a");
                    } catch (Throwable z) {
                        x = H.code(z);
                    }
                    log.ev("null").p("x", x).end();
                }
                case "next" -> {
                    final AtomicInteger at = new AtomicInteger(1);
                    source = n -> {
                        if (at.get() >= t.length) {
                            throw new Stuck();
                        }
                        return Long.parseLong(t[at.getAndIncrement()]);
                    };
                    show("next", List.of(next()));
                }
                case "fill" -> { // many calls, the clock standing still for a while only
                    final int n = Integer.parseInt(t[1]);
                    final long v = Long.parseLong(t[2]);
                    final AtomicInteger left = new AtomicInteger();
                    source = k -> {
                        if (left.getAndDecrement() <= 0) {
                            throw new Stuck();
                        }
                        return v;
                    };
                    List<Got> run = new ArrayList<>();
                    for (int i = 0; i < n; i++) {
                        left.set(20);
                        final Got g = next();
                        if (!run.isEmpty() && !continues(run.get(run.size() - 1), g)) {
                            show("next", run);
                            run = new ArrayList<>();
                        }
                        run.add(g);
                        if (!g.x.equals("ok")) {
                            break;
                        }
                    }
                    show("next", run);
                }
                case "race" -> race(Integer.parseInt(t[1]), Integer.parseInt(t[2]), t[3], Long.parseLong(t[4]),
                        Integer.parseInt(t[5]));
                default -> throw new H.Infra("op " + t[0], null);
            }
        }

        /** Calls by several threads at once; the clock goes by readings, or parks them to let them overtake. */
        void race(final int threads, final int calls, final String mode, final long from, final int step) throws Throwable {
            final List<Got> all = new ArrayList<>();
            final AtomicLong reads = new AtomicLong();
            if (mode.startsWith("park")) {
                source = n -> from;
                final int before = mode.equals("park") ? 1 : mode.equals("parkhalf") ? 2000 : 4096;
                for (int i = 0; i < before; i++) {
                    all.add(next());
                }
            }
            final CyclicBarrier[] gate = {new CyclicBarrier(threads)};
            source = switch (mode) {
                case "step" -> n -> from + reads.getAndIncrement() / step;
                case "back" -> n -> {
                    final long r = reads.getAndIncrement();
                    return from + r / step - (r % 997 == 996 ? 3 : 0);
                };
                default -> n -> { // all the threads that can be in the clock leave it together
                    final CyclicBarrier g;
                    synchronized (gate) {
                        if (gate[0].isBroken()) {
                            gate[0] = new CyclicBarrier(threads);
                        }
                        g = gate[0];
                    }
                    try {
                        g.await(15, TimeUnit.MILLISECONDS);
                    } catch (TimeoutException | BrokenBarrierException z) {
                        // they cannot
                    } catch (InterruptedException z) {
                        throw new Stuck();
                    }
                    return mode.equals("park") || n == 0 ? from : from + 1;
                };
            };
            final CyclicBarrier go = new CyclicBarrier(threads);
            final List<Thread> ts = new ArrayList<>();
            final List<List<Got>> gots = new ArrayList<>();
            for (int i = 0; i < threads; i++) {
                final List<Got> mine = new ArrayList<>();
                gots.add(mine);
                final Thread th = new Thread(() -> {
                    try {
                        go.await();
                    } catch (Exception z) {
                        return;
                    }
                    for (int k = 0; k < calls; k++) {
                        mine.add(next());
                    }
                });
                th.setDaemon(true);
                ts.add(th);
                th.start();
            }
            final long until = System.nanoTime() + 30_000_000_000L;
            for (Thread th : ts) {
                th.join(Math.max(1, (until - System.nanoTime()) / 1_000_000));
                if (th.isAlive()) {
                    log.ev("blocked").end();
                    return;
                }
            }
            gots.forEach(all::addAll);
            final List<Got> ok = new ArrayList<>(all.stream().filter(g -> g.x.equals("ok")).toList());
            ok.sort(Comparator.comparingLong(g -> g.id));
            List<Got> run = new ArrayList<>();
            int late = 0;
            for (Got g : ok) {
                if (!run.isEmpty() && !(continues(run.get(run.size() - 1), g) && g.end > late)) {
                    show("got", run);
                    run = new ArrayList<>();
                }
                run.add(g);
                late = Math.max(late, g.start);
            }
            if (!run.isEmpty()) {
                show("got", run);
            }
            int shown = 0;
            for (Got g : all) {
                if (!g.x.equals("ok") && shown++ < 50) {
                    log.ev("refused").p("x", g.x).raw("rs", words(g.readings)).end();
                }
            }
        }
    }
}
