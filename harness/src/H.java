import java.io.BufferedWriter;
import java.lang.reflect.InvocationTargetException;
import java.lang.reflect.Method;
import java.nio.charset.StandardCharsets;
import java.nio.file.Files;
import java.nio.file.Path;
import java.security.MessageDigest;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.Base64;
import java.util.Comparator;
import java.util.HashMap;
import java.util.HashSet;
import java.util.List;
import java.util.Map;
import java.util.Set;
import java.util.TreeMap;
import java.util.concurrent.ConcurrentHashMap;
import java.util.concurrent.atomic.AtomicInteger;
import java.util.concurrent.atomic.AtomicLong;
import java.util.concurrent.atomic.AtomicReferenceArray;

/**
 * Runs scenarios on the real classes, through their public API, and writes the distinct traces.
 *
 * <p>H COMPONENT SCENARIOS OUTDIR SHARDS [ONLY_TARGET]
 */
public final class H {
    static final String PKG = "com.bytefacets.collections.";

    /** One scenario: a configuration and a list of operations, both as tokens. */
    static final class Scenario {
        String id;
        final Map<String, String> conf = new HashMap<>();
        List<String[]> ops = new ArrayList<>();

        /** This scenario with some operations left out, telling the log which one is being run. */
        Scenario without(final Set<Integer> skip, final Log log) {
            final Scenario s = new Scenario();
            s.id = id;
            s.conf.putAll(conf);
            final List<Integer> kept = new ArrayList<>();
            for (int n = 0; n < ops.size(); n++) {
                if (!skip.contains(n)) {
                    kept.add(n);
                }
            }
            final List<String[]> all = ops;
            s.ops = new java.util.AbstractList<>() {
                @Override
                public String[] get(final int i) {
                    log.step(kept.get(i));
                    return all.get(kept.get(i));
                }

                @Override
                public int size() {
                    return kept.size();
                }
            };
            return s;
        }

        int i(final String k, final int d) {
            final String v = conf.get(k);
            return v == null ? d : Integer.parseInt(v);
        }

        double d(final String k, final double dflt) {
            final String v = conf.get(k);
            return v == null ? dflt : Double.parseDouble(v);
        }

        String s(final String k, final String d) {
            return conf.getOrDefault(k, d);
        }
    }

    interface Component {
        List<String> targets(Scenario s);

        void run(Scenario s, String target, Log log) throws Throwable;

        /** Whether the scenario is small enough to be run within itself. */
        default boolean small(final Scenario s) {
            return false;
        }
    }

    /** The delivery at which a consumer is to throw (a last token T<n>), or -1. */
    static int thrown(final String[] t) {
        return t[t.length - 1].startsWith("T") ? Integer.parseInt(t[t.length - 1].substring(1)) : -1;
    }

    /** Which elements a traversal removes: those with n mod q == r, or by their place if q is negative (r is a mask). */
    static boolean picks(final int q, final int r, final int n, final int place) {
        return q > 0 ? Math.floorMod(n, q) == r : q < 0 && (r >> place % 16 & 1) == 1;
    }

    /** No observation in the middle of another one: it comes after the traversals instead. */
    static volatile boolean calm;

    /** Says when an observation is to be made in the middle of a traversal that another observation makes. */
    static final class Inner {
        private final int salt;
        private int looks;
        private boolean in;
        private int due = -1;
        private int skip;

        Inner(final String id) {
            salt = Math.floorMod(id.hashCode(), 1009);
            looks = salt / 7 % 4;
        }

        /** A new observation with n places for another one. */
        void look(final int n) {
            if (!in) {
                final boolean now = ++looks % 4 == 0;
                due = now ? (looks / 4 + salt) % n : -1;
                skip = (looks / 4 + salt / 13) % 3;
            }
        }

        /** At place i of the outer one. */
        void at(final int i, final Runnable obs) {
            if (!in && due == i && !calm && skip-- == 0) {
                now(obs);
            }
        }

        /** After the traversals of the outer one. */
        void done(final Runnable obs) {
            if (!in && due >= 0) {
                now(obs);
            }
        }

        private void now(final Runnable obs) {
            due = -1;
            in = true;
            try {
                obs.run();
            } finally {
                in = false;
            }
        }
    }

    /** What is to be run within the next call that this thread makes into a function of the harness. */
    private static final ThreadLocal<Runnable> WITHIN = new ThreadLocal<>();

    /**
     * Runs the scenario so that all of it happens again, on other objects, between two of its operations and once
     * more within a function it gives to the library: objects must not share what they work on.
     */
    static void nested(final Component comp, final Scenario s, final String target, final Log log,
            final List<Log> inner) throws Throwable {
        final Runnable again = () -> {
            final Log l = new Log();
            try {
                comp.run(s, target, l);
            } catch (Throwable t) {
                if (!fromLibrary(t)) {
                    throw new Infra("nested", t);
                }
                l.ev("crash").p("x", code(t)).end();
            }
            inner.add(l);
        };
        final Scenario n = new Scenario();
        n.id = s.id;
        n.conf.putAll(s.conf);
        final int at = Math.floorMod(s.id.hashCode() / 7, s.ops.size());
        n.ops = new java.util.AbstractList<>() {
            @Override
            public String[] get(final int i) {
                if (i == at) {
                    again.run();
                    WITHIN.set(again);
                }
                return s.ops.get(i);
            }

            @Override
            public int size() {
                return s.ops.size();
            }
        };
        try {
            comp.run(n, target, log);
        } finally {
            WITHIN.remove();
        }
    }

    /** Thrown by functions given to the library that refuse a value. */
    static final class Boom extends RuntimeException {
        private static final long serialVersionUID = 1;

        @Override
        public synchronized Throwable fillInStackTrace() {
            return this;
        }
    }

    /** Thrown by callbacks that are called implausibly often. */
    static final class Overrun extends RuntimeException {
        Overrun() {
            super(null, null, false, false);
        }
    }

    static final class Infra extends RuntimeException {
        Infra(final String m, final Throwable t) {
            super(m, t);
        }
    }

    /** An event log: one JSON object a line. */
    static final class Log {
        private final List<String> lines = new ArrayList<>();
        private final List<Integer> steps = new ArrayList<>(); // the operation that wrote each line
        private StringBuilder b;
        private volatile boolean closed;
        private int step = -1;
        /** Picks among equal representations; the same in every run of the same operation. */
        int salt;

        void step(final int n) {
            step = n;
            salt = 31 * (n + 1);
        }

        /** The call being logged may have had nothing to do: the specification will tell. */
        Log idle(final boolean maybe) {
            if (maybe && Boolean.getBoolean("twin")) {
                b.append(",\"idle\":true");
            }
            return this;
        }

        Log ev(final String op) {
            b = new StringBuilder(96);
            b.append("{\"op\":\"").append(op).append('"');
            return this;
        }

        Log p(final String k, final int v) {
            b.append(",\"").append(k).append("\":").append(v);
            return this;
        }

        Log p(final String k, final boolean v) {
            b.append(",\"").append(k).append("\":").append(v);
            return this;
        }

        Log p(final String k, final String v) {
            b.append(",\"").append(k).append("\":\"").append(v.replace("\\", "\\\\").replace("\"", "\\\"")).append('"');
            return this;
        }

        Log p(final String k, final int[] v) {
            b.append(",\"").append(k).append("\":[");
            for (int i = 0; i < v.length; i++) {
                b.append(i == 0 ? "" : ",").append(v[i]);
            }
            b.append(']');
            return this;
        }

        Log p(final String k, final boolean[] v) {
            b.append(",\"").append(k).append("\":[");
            for (int i = 0; i < v.length; i++) {
                b.append(i == 0 ? "" : ",").append(v[i]);
            }
            b.append(']');
            return this;
        }

        Log p(final String k, final List<Integer> v) {
            return p(k, v.stream().mapToInt(Integer::intValue).toArray());
        }

        Log ps(final String k, final List<String> v) {
            b.append(",\"").append(k).append("\":[");
            for (int i = 0; i < v.size(); i++) {
                b.append(i == 0 ? "" : ",").append('"').append(v.get(i)).append('"');
            }
            b.append(']');
            return this;
        }

        Log raw(final String k, final String json) {
            b.append(",\"").append(k).append("\":").append(json);
            return this;
        }

        synchronized void end() {
            if (closed) {
                return;
            }
            lines.add(b.append('}').toString());
            steps.add(step);
        }

        synchronized List<String> close(final String lastOp) {
            if (!closed && lastOp != null) {
                lines.add("{\"op\":\"" + lastOp + "\"}");
                steps.add(step);
            }
            closed = true;
            return lines;
        }
    }

    /**
     * Runs the scenario, and again without the operations that say they had nothing to do; every event of the
     * first run carries the event of the second run at the same place.
     */
    static void twins(final Component comp, final Scenario s, final String target, final Log log) throws Throwable {
        final Log one = new Log();
        safely(comp, s.without(Set.of(), one), target, one);
        final Set<Integer> idle = new HashSet<>();
        for (int n = 0; n < one.lines.size(); n++) {
            if (one.lines.get(n).contains(",\"idle\":true")) {
                idle.add(one.steps.get(n));
            }
        }
        for (int n = 0; n < one.lines.size(); n++) { // a step that also makes a collection stays
            if (one.lines.get(n).startsWith("{\"op\":\"new\"")) {
                idle.remove(one.steps.get(n));
            }
        }
        final Log two = new Log();
        safely(comp, s.without(idle, two), target, two);
        int m = 0;
        for (int n = 0; n < one.lines.size(); n++) {
            final String l = one.lines.get(n);
            if (idle.contains(one.steps.get(n))) {
                log.lines.add(l);
            } else if (m < two.lines.size() && two.steps.get(m).equals(one.steps.get(n))) {
                log.lines.add(l.substring(0, l.length() - 1) + ",\"tw\":" + two.lines.get(m++) + "}");
            } else {
                log.lines.add(l.substring(0, l.length() - 1) + ",\"tw\":{\"op\":\"missing\"}}");
            }
        }
        if (m < two.lines.size()) {
            log.lines.add("{\"op\":\"missing\",\"tw\":" + two.lines.get(m) + "}");
        }
    }

    private static void safely(final Component comp, final Scenario s, final String target, final Log log)
            throws Throwable {
        try {
            comp.run(s, target, log);
        } catch (Throwable t) {
            if (!fromLibrary(t)) {
                throw t;
            }
            log.ev("crash").p("x", code(t)).end();
        }
    }

    /** Appends, refusing to be called without end. */
    static Object add(final List<Integer> l, final int v) {
        l.add(v);
        if (l.size() > 5000) {
            throw new Overrun();
        }
        return null;
    }

    static int[] sorted(final List<Integer> v) {
        final int[] a = v.stream().mapToInt(Integer::intValue).toArray();
        Arrays.sort(a);
        return a;
    }

    // ---------------------------------------------------------------- reflection

    static Class<?> cls(final String name) {
        try {
            return Class.forName(PKG + name);
        } catch (ClassNotFoundException e) {
            throw new Infra("no class " + name, e);
        }
    }

    private static final Map<String, Method> METHODS = new ConcurrentHashMap<>();

    static Method m(final Class<?> c, final String name, final Class<?>... params) {
        return METHODS.computeIfAbsent(
                c.getName() + "." + name + Arrays.toString(params),
                k -> {
                    try {
                        final Method r = c.getMethod(name, params);
                        r.setAccessible(true);
                        return r;
                    } catch (NoSuchMethodException e) {
                        throw new Infra("no method " + k, e);
                    }
                });
    }

    /** The public method with this name and number of parameters (the declared, most specific one). */
    static Method find(final Class<?> c, final String name, final int nparams) {
        return METHODS.computeIfAbsent(
                c.getName() + "." + name + "/" + nparams,
                k -> {
                    Method best = null;
                    for (Method x : c.getMethods()) {
                        if (x.getName().equals(name) && x.getParameterCount() == nparams) {
                            if (best == null || best.isBridge() && !x.isBridge()) {
                                best = x;
                            }
                        }
                    }
                    if (best == null) {
                        throw new Infra("no method " + k, null);
                    }
                    best.setAccessible(true);
                    return best;
                });
    }

    static Object make(final Class<?> c, final Class<?>[] types, final Object... args) throws Throwable {
        try {
            return c.getConstructor(types).newInstance(args);
        } catch (InvocationTargetException e) {
            throw e.getCause();
        }
    }

    static Object call(final Method m, final Object self, final Object... args) throws Throwable {
        try {
            return m.invoke(self, args);
        } catch (InvocationTargetException e) {
            throw e.getCause();
        }
    }

    /** Implements a single-method interface. */
    interface Fn {
        Object apply(Object[] args) throws Throwable;
    }

    static Object proxy(final Class<?> itf, final Fn fn) {
        return java.lang.reflect.Proxy.newProxyInstance(
                itf.getClassLoader(),
                new Class<?>[] {itf},
                (p, method, args) -> {
                    if (method.getDeclaringClass() == Object.class) {
                        return switch (method.getName()) {
                            case "hashCode" -> System.identityHashCode(p);
                            case "equals" -> p == args[0];
                            default -> "proxy";
                        };
                    }
                    final Runnable within = WITHIN.get();
                    if (within != null) {
                        WITHIN.remove();
                        within.run();
                    }
                    return fn.apply(args);
                });
    }

    static String code(final Throwable t) {
        if (t instanceof Infra) {
            throw (Infra) t;
        }
        final String n = t.getClass().getSimpleName();
        if (t instanceof IndexOutOfBoundsException) {
            return "IOOBE";
        }
        return switch (n) {
            case "KeyNotFoundException" -> "KNF";
            case "ConcurrentModificationException" -> "CME";
            case "IllegalStateException" -> "ISE";
            case "NoSuchElementException" -> "NSE";
            case "IllegalArgumentException" -> "IAE";
            case "UnsupportedOperationException" -> "UOE";
            case "InvalidEntryException" -> "IEE";
            case "RangeCheckException" -> "RCE";
            case "InitializationException" -> "INIT";
            case "ResizeException" -> "RESIZE";
            case "NullPointerException" -> "NPE";
            case "ArithmeticException" -> "ARITH";
            case "NegativeArraySizeException" -> "NEG";
            case "NumberFormatException" -> "NFE";
            case "OutOfMemoryError" -> "OOM";
            case "StackOverflowError" -> "SOE";
            case "Overrun" -> "OVERRUN";
            case "Boom" -> "BOOM";
            case "RuntimeException" -> "RTE";
            default -> "OTHER:" + n;
        };
    }

    /** An exception the harness did not foresee, thrown by the code under test. */
    static boolean fromLibrary(final Throwable t) {
        if (t instanceof Infra) {
            return false;
        }
        for (StackTraceElement e : t.getStackTrace()) {
            if (e.getClassName().startsWith(PKG)) {
                return true;
            }
            if (!e.getClassName().startsWith("java.") && !e.getClassName().startsWith("jdk.")) {
                return false;
            }
        }
        return t instanceof OutOfMemoryError || t instanceof StackOverflowError;
    }

    // ---------------------------------------------------------------- main

    static List<Scenario> read(final Path file) throws Exception {
        final List<Scenario> out = new ArrayList<>();
        Scenario cur = null;
        for (String line : Files.readAllLines(file)) {
            if (line.isBlank() || line.startsWith("#")) {
                continue;
            }
            final String[] tok = line.trim().split("\\s+");
            if (tok[0].equals("S")) {
                cur = new Scenario();
                cur.id = tok[1];
                for (int i = 2; i < tok.length; i++) {
                    final int eq = tok[i].indexOf('=');
                    cur.conf.put(tok[i].substring(0, eq), tok[i].substring(eq + 1));
                }
                out.add(cur);
            } else {
                cur.ops.add(tok);
            }
        }
        return out;
    }

    static final class Rep {
        int scenario;
        String target;
        List<String> lines;
        final AtomicInteger same = new AtomicInteger();
    }

    public static void main(final String[] args) throws Exception {
        final String component = args[0];
        final List<Scenario> scenarios = read(Path.of(args[1]));
        final Path outDir = Path.of(args[2]);
        final int shards = Integer.parseInt(args[3]);
        final String only = args.length > 4 ? args[4] : null;
        final boolean twin = Boolean.getBoolean("twin");
        final long taskLimitMs = Long.getLong("task.ms", 40_000);

        final Component comp =
                (Component) Class.forName(component).getDeclaredConstructor().newInstance();
        final List<Object[]> tasks = new ArrayList<>();
        for (int i = 0; i < scenarios.size(); i++) {
            for (String t : comp.targets(scenarios.get(i))) {
                if (only == null || only.equals(t)) {
                    tasks.add(new Object[] {i, t});
                }
            }
        }
        final Map<String, Rep> reps = new ConcurrentHashMap<>();
        final boolean apart = Boolean.getBoolean("apart");
        final List<List<String>> alone = apart ? alone(comp, scenarios, tasks, taskLimitMs) : null;
        final AtomicInteger nextTask = new AtomicInteger();
        final AtomicInteger finished = new AtomicInteger();
        final AtomicInteger hangs = new AtomicInteger();
        final AtomicLong events = new AtomicLong();
        final AtomicReferenceArray<Throwable> infra = new AtomicReferenceArray<>(1);
        final int threads = Integer.getInteger("threads", Runtime.getRuntime().availableProcessors());
        final Map<Thread, Object[]> running = new ConcurrentHashMap<>(); // thread -> task, log, start

        final Runnable worker =
                () -> {
                    while (infra.get(0) == null && hangs.get() < 3) {
                        final int n = nextTask.getAndIncrement();
                        if (n >= tasks.size()) {
                            break;
                        }
                        final Object[] task = tasks.get(n);
                        final Log log = new Log();
                        final Object[] mark = {task, log, System.nanoTime()};
                        running.put(Thread.currentThread(), mark);
                        boolean abandoned = false;
                        final List<Log> inner = new ArrayList<>();
                        final Scenario sc = scenarios.get((Integer) task[0]);
                        try {
                            if (twin) {
                                twins(comp, sc, (String) task[1], log);
                            } else if ((apart || sc.id.hashCode() % 3 == 0) && !sc.ops.isEmpty() && comp.small(sc)) {
                                nested(comp, sc, (String) task[1], log, inner);
                            } else {
                                comp.run(sc, (String) task[1], log);
                            }
                        } catch (Throwable t) {
                            if (fromLibrary(t)) {
                                log.ev("crash").p("x", code(t)).end();
                            } else {
                                infra.compareAndSet(0, null, new RuntimeException("scenario "
                                    + scenarios.get((Integer) task[0]).id + " " + task[1], t));
                            }
                        }
                        abandoned = !running.remove(Thread.currentThread(), mark);
                        if (abandoned) {
                            return;
                        }
                        inner.add(0, log);
                        for (Log l : inner) {
                            final List<String> lines = l.close(null);
                            record(reps, task, apart ? company(alone.get(n), lines) : lines, events);
                        }
                        finished.addAndGet(inner.size());
                    }
                };
        final List<Thread> pool = new ArrayList<>();
        for (int i = 0; i < threads; i++) {
            final Thread t = new Thread(null, worker, "w" + i, 16 << 20);
            t.setDaemon(true);
            pool.add(t);
            t.start();
        }
        while (true) {
            boolean alive = false;
            for (Thread t : pool) {
                alive |= t.isAlive() && running.getOrDefault(t, new Object[3]).length == 3;
            }
            for (Map.Entry<Thread, Object[]> e : running.entrySet()) {
                final long ms = (System.nanoTime() - (Long) e.getValue()[2]) / 1_000_000;
                if (ms > taskLimitMs && running.remove(e.getKey(), e.getValue())) {
                    hangs.incrementAndGet();
                    final Object[] task = (Object[]) e.getValue()[0];
                    final List<String> lines = ((Log) e.getValue()[1]).close("hang");
                    record(reps, task, apart ? company(alone.get(tasks.indexOf(task)), lines) : lines, events);
                    finished.incrementAndGet();
                    pool.remove(e.getKey());
                    final Thread t = new Thread(null, worker, "r", 16 << 20);
                    t.setDaemon(true);
                    pool.add(t);
                    t.start();
                }
            }
            alive = pool.stream().anyMatch(Thread::isAlive);
            if (!alive || infra.get(0) != null) {
                break;
            }
            Thread.sleep(5);
        }
        if (infra.get(0) != null) {
            infra.get(0).printStackTrace();
            System.exit(3);
        }
        write(outDir, shards, scenarios, reps);
        System.out.println("executions " + finished.get() + " distinct " + reps.size() + " events " + events.get()
                + " hangs " + hangs.get());
        System.out.flush();
        Runtime.getRuntime().halt(0);
    }

    /** Every task on its own, with nothing else going on. */
    private static List<List<String>> alone(final Component comp, final List<Scenario> scenarios,
            final List<Object[]> tasks, final long limitMs) throws Exception {
        calm = true;
        final List<List<String>> out = new ArrayList<>();
        while (out.size() < tasks.size()) {
            final AtomicReferenceArray<Log> log = new AtomicReferenceArray<>(1);
            final AtomicLong start = new AtomicLong(System.nanoTime());
            final AtomicReferenceArray<Throwable> infra = new AtomicReferenceArray<>(1);
            final int from = out.size();
            final Thread t = new Thread(null, () -> {
                for (int n = from; n < tasks.size(); n++) {
                    final Log l = new Log();
                    log.set(0, l);
                    start.set(System.nanoTime());
                    try {
                        safely(comp, scenarios.get((Integer) tasks.get(n)[0]), (String) tasks.get(n)[1], l);
                    } catch (Throwable z) {
                        infra.set(0, z);
                        return;
                    }
                    synchronized (out) {
                        if (out.size() != n) {
                            return; // given up
                        }
                        out.add(l.close(null));
                    }
                }
            }, "alone", 16 << 20);
            t.setDaemon(true);
            t.start();
            while (t.isAlive()) {
                t.join(20);
                synchronized (out) {
                    if ((System.nanoTime() - start.get()) / 1_000_000 > limitMs && t.isAlive()) {
                        out.add(log.get(0).close("hang"));
                        break;
                    }
                }
            }
            if (infra.get(0) != null) {
                throw new Infra("alone", infra.get(0));
            }
        }
        calm = false;
        return out;
    }

    /** The events of the run alone, each with the event at the same place of the run in company. */
    private static List<String> company(final List<String> alone, final List<String> other) {
        final List<String> out = new ArrayList<>();
        final String none = "{\"op\":\"missing\"}";
        for (int i = 0; i < Math.max(alone.size(), other.size()); i++) {
            final String a = i < alone.size() ? alone.get(i) : none;
            out.add(a.substring(0, a.length() - 1) + ",\"tw\":" + (i < other.size() ? other.get(i) : none) + "}");
        }
        return out;
    }

    private static void record(final Map<String, Rep> reps, final Object[] task, final List<String> lines,
            final AtomicLong events) {
        try {
            final MessageDigest md = MessageDigest.getInstance("SHA-256");
            for (String l : lines) {
                md.update(l.getBytes(StandardCharsets.UTF_8));
                md.update((byte) 10);
            }
            events.addAndGet(lines.size());
            final String key = Base64.getEncoder().encodeToString(md.digest());
            final Rep rep = reps.computeIfAbsent(key, k -> new Rep());
            synchronized (rep) {
                final int sc = (Integer) task[0];
                final String tg = (String) task[1];
                if (rep.lines == null || sc < rep.scenario
                        || sc == rep.scenario && tg.compareTo(rep.target) < 0) {
                    rep.scenario = sc;
                    rep.target = tg;
                }
                if (rep.lines == null) {
                    rep.lines = lines;
                }
                rep.same.incrementAndGet();
            }
        } catch (java.security.NoSuchAlgorithmException e) {
            throw new Infra("sha", e);
        }
    }

    private static void write(final Path dir, final int shards, final List<Scenario> scenarios,
            final Map<String, Rep> reps) throws Exception {
        Files.createDirectories(dir);
        final List<Rep> list = new ArrayList<>(reps.values());
        list.sort(Comparator.<Rep>comparingInt(r -> r.scenario).thenComparing(r -> r.target));
        final long[] load = new long[shards];
        final List<List<Rep>> parts = new ArrayList<>();
        for (int i = 0; i < shards; i++) {
            parts.add(new ArrayList<>());
        }
        final List<Rep> bySize = new ArrayList<>(list);
        bySize.sort(Comparator.comparingInt(r -> -r.lines.size()));
        for (Rep r : bySize) {
            int best = 0;
            for (int i = 1; i < shards; i++) {
                if (load[i] < load[best]) {
                    best = i;
                }
            }
            load[best] += r.lines.size() + 5;
            parts.get(best).add(r);
        }
        for (int i = 0; i < shards; i++) {
            parts.get(i).sort(Comparator.<Rep>comparingInt(r -> r.scenario).thenComparing(r -> r.target));
            try (BufferedWriter w = Files.newBufferedWriter(dir.resolve("shard_" + i + ".ndjson"));
                    BufferedWriter x = Files.newBufferedWriter(dir.resolve("shard_" + i + ".idx"))) {
                int line = 1;
                for (Rep r : parts.get(i)) {
                    x.write(line + " " + r.lines.size() + " " + scenarios.get(r.scenario).id + " " + r.target
                            + " " + r.same.get() + "\n");
                    for (String l : r.lines) {
                        w.write(l);
                        w.write('\n');
                    }
                    line += r.lines.size();
                }
            }
        }
    }
}
