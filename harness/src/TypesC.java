import java.lang.reflect.Field;
import java.lang.reflect.InvocationTargetException;
import java.lang.reflect.Method;
import java.math.BigInteger;
import java.nio.ByteBuffer;
import java.time.LocalDate;
import java.time.LocalTime;
import java.util.ArrayList;
import java.util.Date;
import java.util.List;
import java.util.TimeZone;

/** The type helpers and Pack. Values are written as hex bytes; texts as code units, dot separated, N for null. */
public final class TypesC implements H.Component {
    static final List<String> FIXED = List.of("Bool", "Byte", "Short", "Char", "Int", "Long", "Float", "Double");

    @Override
    public List<String> targets(final H.Scenario s) {
        return List.of("types");
    }

    @Override
    public boolean small(final H.Scenario s) {
        return s.ops.size() <= 4000;
    }

    @Override
    public void run(final H.Scenario s, final String target, final H.Log log) throws Throwable {
        for (String[] t : s.ops) {
            new Run(log).op(t);
        }
    }

    // ---------------------------------------------------------------- values

    static Class<?> type(final String t) {
        return H.cls("types." + (t.startsWith("Generic") ? "Generic" : t) + "Type");
    }

    static Class<?> prim(final String t) {
        return switch (t) {
            case "Bool" -> boolean.class;
            case "Byte" -> byte.class;
            case "Short" -> short.class;
            case "Char" -> char.class;
            case "Int" -> int.class;
            case "Long" -> long.class;
            case "Float" -> float.class;
            case "Double" -> double.class;
            case "String" -> String.class;
            default -> Object.class;
        };
    }

    static byte[] hex(final String h) {
        final byte[] r = new byte[h.length() / 2];
        for (int i = 0; i < r.length; i++) {
            r[i] = (byte) Integer.parseInt(h.substring(2 * i, 2 * i + 2), 16);
        }
        return r;
    }

    static String text(final String h) {
        if (h.equals("N")) {
            return null;
        }
        final StringBuilder b = new StringBuilder();
        if (!h.equals("E")) {
            for (String c : h.split("\\.")) {
                b.append((char) Integer.parseInt(c, 16));
            }
        }
        return b.toString();
    }

    static Object value(final String t, final String h) {
        if (t.equals("String") || t.equals("GenericString")) {
            return text(h);
        }
        if (h.equals("N")) {
            return null;
        }
        final ByteBuffer b = ByteBuffer.wrap(hex(h));
        return switch (t) {
            case "Bool" -> b.get(0) != 0;
            case "Byte" -> b.get(0);
            case "Short" -> b.getShort(0);
            case "Char" -> b.getChar(0);
            case "Int", "GenericInt" -> b.getInt(0);
            case "Long" -> b.getLong(0);
            case "Float" -> Float.intBitsToFloat(b.getInt(0));
            case "Double" -> Double.longBitsToDouble(b.getLong(0));
            case "Big" -> new BigInteger(b.array());
            default -> throw new H.Infra("type " + t, null);
        };
    }

    static int[] unsigned(final byte[] b) {
        final int[] r = new int[b.length];
        for (int i = 0; i < r.length; i++) {
            r[i] = b[i] & 0xff;
        }
        return r;
    }

    static int[] bytes(final Object v) {
        if (v == null) {
            return new int[] {-1};
        }
        if (v instanceof String) {
            return ((String) v).chars().toArray();
        }
        if (v instanceof Boolean) {
            return new int[] {(Boolean) v ? 1 : 0};
        }
        if (v instanceof Byte) {
            return unsigned(new byte[] {(Byte) v});
        }
        if (v instanceof Short) {
            return unsigned(ByteBuffer.allocate(2).putShort((Short) v).array());
        }
        if (v instanceof Character) {
            return unsigned(ByteBuffer.allocate(2).putChar((Character) v).array());
        }
        if (v instanceof Integer) {
            return unsigned(ByteBuffer.allocate(4).putInt((Integer) v).array());
        }
        if (v instanceof Long) {
            return unsigned(ByteBuffer.allocate(8).putLong((Long) v).array());
        }
        if (v instanceof Float) {
            return unsigned(ByteBuffer.allocate(4).putInt(Float.floatToRawIntBits((Float) v)).array());
        }
        if (v instanceof Double) {
            return unsigned(ByteBuffer.allocate(8).putLong(Double.doubleToRawLongBits((Double) v)).array());
        }
        if (v instanceof BigInteger) {
            return unsigned(((BigInteger) v).toByteArray());
        }
        return new int[] {-3};
    }

    static Object field(final Class<?> c, final String name) throws Throwable {
        final Field f = c.getField(name);
        return f.get(null);
    }

    static Object stat(final Class<?> c, final String name, final int n, final Object... args) throws Throwable {
        return H.call(H.find(c, name, n), null, args);
    }

    /** The method of a public functional interface. */
    static Method fn(final Class<?> c, final String itf) {
        for (Class<?> x : c.getClasses()) {
            if (x.getSimpleName().equals(itf)) {
                for (Method m : x.getMethods()) {
                    if (java.lang.reflect.Modifier.isAbstract(m.getModifiers())) {
                        return m;
                    }
                }
            }
        }
        throw new H.Infra("no " + itf + " in " + c, null);
    }

    // ---------------------------------------------------------------- operations

    private static final class Run {
        static final ThreadLocal<Object[]> PAL = new ThreadLocal<>();
        final H.Log log;

        Run(final H.Log log) {
            this.log = log;
        }

        static String json(final int[][] m) {
            final StringBuilder b = new StringBuilder("[");
            for (int i = 0; i < m.length; i++) {
                b.append(i == 0 ? "[" : ",[");
                for (int j = 0; j < m[i].length; j++) {
                    b.append(j == 0 ? "" : ",").append(m[i][j]);
                }
                b.append(']');
            }
            return b.append(']').toString();
        }

        void op(final String[] t) throws Throwable {
            switch (t[0]) {
                case "pal" -> {
                    final Object[] v = new Object[t.length - 2];
                    final int[][] b = new int[v.length][];
                    for (int i = 0; i < v.length; i++) {
                        v[i] = value(t[1], t[i + 2]);
                        b[i] = bytes(v[i]);
                    }
                    PAL.set(new Object[] {t[1], v});
                    log.ev("pal").p("t", t[1]).raw("v", json(b)).end();
                }
                case "cmp" -> cmp();
                case "eq" -> eq();
                case "pred" -> pred();
                case "wr" -> wr(t);
                case "wrrow" -> wrrow(t[1], Integer.parseInt(t[2]));
                case "pack" -> pack(t);
                case "packrow" -> packrow(Integer.parseInt(t[1]));
                case "unpack" -> unpack(t[1]);
                case "cv" -> cv(t);
                case "cast" -> cast(t);
                case "box" -> box(t[1], value(t[1], t[2]));
                case "parse" -> parse(t[1], text(t[2]));
                case "text" -> {
                    final Object v = value("Int", t[1]);
                    Object r = null;
                    String x = "ok";
                    try {
                        r = stat(type("String"), "castToString", 1, v);
                    } catch (Throwable z) {
                        x = H.code(z);
                    }
                    log.ev("text").p("a", bytes(v)).p("s", bytes(r)).p("x", x).end();
                }
                case "fp" -> fp(t);
                case "bits" -> {
                    final Class<?> c = type(t[1]);
                    final Object a = value(t[1], t[2]);
                    final Object b = value(t[1], t[3]);
                    log.ev("bits").p("t", t[1]).p("a", bytes(a)).p("b", bytes(b))
                            .p("on", bytes(stat(c, "enableBits", 2, a, b)))
                            .p("off", bytes(stat(c, "disableBits", 2, a, b))).end();
                }
                case "dates" -> dates(Integer.parseInt(t[1]));
                case "times" -> times(Integer.parseInt(t[1]));
                default -> throw new H.Infra("op " + t[0], null);
            }
        }

        void cmp() throws Throwable {
            final String t = (String) PAL.get()[0];
            final Object[] v = (Object[]) PAL.get()[1];
            final Class<?> c = type(t);
            final Method m = fn(c, "Cmp");
            final Class<?> method = H.cls("types.CompareMethod");
            final boolean text = t.equals("String");
            for (Object e : method.getEnumConstants()) {
                final String name = e.toString();
                for (int via = 0; via < 2; via++) {
                    final int[][] r = new int[v.length][v.length];
                    String x = "ok";
                    try {
                        final Object f;
                        if (via == 1) {
                            if (t.startsWith("Generic")) {
                                continue; // has none
                            }
                            f = stat(c, "comparatorFor", 1, e);
                        } else {
                            final String fn = switch (name) {
                                case "Ascending" -> "Asc";
                                case "Descending" -> "Desc";
                                case "AscendingAbsolute" -> text ? "AscInsensitive" : "AbsAsc";
                                default -> text ? "DescInsensitive" : "AbsDesc";
                            };
                            if (fn.length() > 4 && (t.equals("Bool") || t.startsWith("Generic"))) {
                                continue;
                            }
                            f = field(c, fn);
                        }
                        for (int i = 0; i < v.length; i++) {
                            for (int j = 0; j < v.length; j++) {
                                r[i][j] = Integer.signum((Integer) H.call(m, f, v[i], v[j]));
                            }
                        }
                    } catch (Throwable z) {
                        x = H.code(z);
                    }
                    log.ev("cmp").p("name", name).raw("m", json(r)).p("x", x).end();
                }
            }
        }

        void eq() throws Throwable {
            final String t = (String) PAL.get()[0];
            final Object[] v = (Object[]) PAL.get()[1];
            final Class<?> c = type(t);
            final int[][] r = new int[v.length][v.length];
            final int[] h = new int[v.length];
            String x = "ok";
            try {
                final Method m = fn(c, "Eq");
                final Method hm = fn(c, "Hash");
                final Object f = field(c, "EqImpl");
                final Object hf = field(c, "HashImpl");
                final List<Object> codes = new ArrayList<>();
                for (int i = 0; i < v.length; i++) {
                    for (int j = 0; j < v.length; j++) {
                        r[i][j] = (Boolean) H.call(m, f, v[i], v[j]) ? 1 : 0;
                    }
                    final Object code = H.call(hm, hf, v[i]);
                    if (!codes.contains(code)) {
                        codes.add(code);
                    }
                    h[i] = codes.indexOf(code);
                }
            } catch (Throwable z) {
                x = H.code(z);
            }
            log.ev("eq").raw("m", json(r)).p("h", h).p("x", x).end();
        }

        void pred() throws Throwable {
            final String t = (String) PAL.get()[0];
            final Object[] v = (Object[]) PAL.get()[1];
            if (t.equals("GenericInt")) {
                return; // its predicates take strings
            }
            final Class<?> c = type(t);
            for (Object e : H.cls("types.PredicateMethod").getEnumConstants()) {
                final int[][] r = new int[v.length][v.length];
                String x = "ok";
                try {
                    final Method m = fn(c, "Pred");
                    final Object f = stat(c, "predicateFor", 1, e);
                    for (int i = 0; i < v.length; i++) {
                        for (int j = 0; j < v.length; j++) {
                            r[i][j] = (Boolean) H.call(m, f, v[i], v[j]) ? 1 : 0;
                        }
                    }
                } catch (Throwable z) {
                    x = H.code(z);
                }
                log.ev("pred").p("name", e.toString()).raw("m", json(r)).p("x", x).end();
            }
        }

        /** wr TYPE HEX POS ARRAYHEX: writes, and reads what is there. */
        void wr(final String[] t) throws Throwable {
            final Class<?> c = type(t[1]);
            final Object v = value(t[1], t[2]);
            final int pos = Integer.parseInt(t[3]);
            final byte[] before = t.length > 4 ? hex(t[4]) : new byte[0];
            for (int big = 0; big < 2; big++) {
                final byte[] arr = before.clone();
                Object ret = -7;
                String x = "ok";
                try {
                    ret = H.call(H.m(c, big == 1 ? "writeBE" : "writeLE", byte[].class, int.class, prim(t[1])), null,
                            arr, pos, v);
                } catch (Throwable z) {
                    x = H.code(z);
                }
                log.ev("wr").p("t", t[1]).p("big", big == 1).p("arr", unsigned(before)).p("pos", pos)
                        .p("v", bytes(v)).p("out", unsigned(arr)).p("ret", (Integer) ret).p("x", x).end();
                for (byte[] a : new byte[][] {arr, before.clone()}) {
                    final byte[] copy = a.clone();
                    Object got = null;
                    String y = "ok";
                    try {
                        got = H.call(H.m(c, big == 1 ? "readBE" : "readLE", byte[].class, int.class), null, a, pos);
                    } catch (Throwable z) {
                        y = H.code(z);
                    }
                    log.ev("rd").p("t", t[1]).p("big", big == 1).p("arr", unsigned(copy)).p("pos", pos).p("v", bytes(got))
                            .p("same", java.util.Arrays.equals(a, copy)).p("x", y).end();
                }
            }
        }

        void wrrow(final String t, final int hi) throws Throwable {
            final Class<?> c = type(t);
            for (int big = 0; big < 2; big++) {
                final int[] out = new int[512];
                final int[] back = new int[256];
                for (int lo = 0; lo < 256; lo++) {
                    final byte[] b = new byte[2];
                    final Object v = value(t, String.format("%02x%02x", hi, lo));
                    H.call(H.m(c, big == 1 ? "writeBE" : "writeLE", byte[].class, int.class, prim(t)), null, b, 0, v);
                    out[2 * lo] = b[0] & 0xff;
                    out[2 * lo + 1] = b[1] & 0xff;
                    final int[] r = bytes(H.call(H.m(c, big == 1 ? "readBE" : "readLE", byte[].class, int.class), null,
                            b, 0));
                    back[lo] = r[0] == hi ? r[1] : -1;
                }
                log.ev("wrrow").p("t", t).p("big", big == 1).p("hi", hi).p("out", out).p("back", back).end();
            }
        }

        void pack(final String[] t) throws Throwable {
            final Class<?> c = H.cls("types.Pack");
            switch (t[1]) {
                case "long" -> {
                    final Object a = value("Int", t[2]);
                    final Object b = value("Int", t[3]);
                    final Object r = stat(c, "packToLong", 2, a, b);
                    packed("long", a, b, r, stat(c, "unpackHiInt", 1, r), stat(c, "unpackLoInt", 1, r));
                }
                case "int" -> {
                    final Object a = value("Short", t[2]);
                    final Object b = value("Short", t[3]);
                    final Object r = stat(c, "packToInt", 2, a, b);
                    packed("int", a, b, r, stat(c, "unpackHiShort", 1, r), stat(c, "unpackLoShort", 1, r));
                }
                case "int4" -> {
                    final byte[] h = hex(t[2] + t[3]);
                    final Object r = stat(c, "packToInt", 4, h[0], h[1], h[2], h[3]);
                    packed("int4", value("Short", t[2]), value("Short", t[3]), r, (short) 0, (short) 0);
                }
                default -> {
                    final Object a = value("Byte", t[2]);
                    final Object b = value("Byte", t[3]);
                    final Object r = stat(c, "packToShort", 2, a, b);
                    packed("short", a, b, r, stat(c, "unpackHiByte", 1, r), stat(c, "unpackLoByte", 1, r));
                }
            }
        }

        void packed(final String f, final Object a, final Object b, final Object r, final Object ua, final Object ub) {
            log.ev("pack").p("f", f).p("a", bytes(a)).p("b", bytes(b)).p("r", bytes(r)).p("ua", bytes(ua))
                    .p("ub", bytes(ub)).end();
        }

        void packrow(final int hi) throws Throwable {
            final Class<?> c = H.cls("types.Pack");
            final int[] r = new int[512];
            final int[] ua = new int[256];
            final int[] ub = new int[256];
            for (int lo = 0; lo < 256; lo++) {
                final Object p = stat(c, "packToShort", 2, (byte) hi, (byte) lo);
                final int[] b = bytes(p);
                r[2 * lo] = b[0];
                r[2 * lo + 1] = b[1];
                ua[lo] = bytes(stat(c, "unpackHiByte", 1, p))[0];
                ub[lo] = bytes(stat(c, "unpackLoByte", 1, p))[0];
            }
            log.ev("packrow").p("hi", hi).p("r", r).p("ua", ua).p("ub", ub).end();
        }

        void unpack(final String h) throws Throwable {
            final Class<?> c = H.cls("types.Pack");
            final Object ua;
            final Object ub;
            final Object r;
            final Object v;
            if (h.length() == 16) {
                v = value("Long", h);
                ua = stat(c, "unpackHiInt", 1, v);
                ub = stat(c, "unpackLoInt", 1, v);
                r = stat(c, "packToLong", 2, ua, ub);
            } else if (h.length() == 8) {
                v = value("Int", h);
                ua = stat(c, "unpackHiShort", 1, v);
                ub = stat(c, "unpackLoShort", 1, v);
                r = stat(c, "packToInt", 2, ua, ub);
            } else {
                v = value("Short", h);
                ua = stat(c, "unpackHiByte", 1, v);
                ub = stat(c, "unpackLoByte", 1, v);
                r = stat(c, "packToShort", 2, ua, ub);
            }
            log.ev("unpack").p("a", bytes(v)).p("ua", bytes(ua)).p("ub", bytes(ub)).p("r", bytes(r)).end();
        }

        /** cv FROM VALUE: convert and unbox to every type. */
        void cv(final String[] t) throws Throwable {
            final String from = t[1];
            Object v;
            int[] a;
            switch (from) {
                case "null" -> {
                    v = null;
                    a = new int[0];
                }
                case "Date" -> {
                    final int n = Integer.parseInt(t[2]);
                    v = LocalDate.of(n / 10000, n / 100 % 100, n % 100);
                    a = bytes(n);
                }
                case "Time" -> {
                    final int n = Integer.parseInt(t[2]);
                    v = LocalTime.of(n / 10000, n / 100 % 100, n % 100, 999999999);
                    a = bytes(n);
                }
                case "Other" -> {
                    v = switch (t[2]) {
                        case "list" -> List.of(1);
                        case "array" -> new int[] {1};
                        case "builder" -> new StringBuilder("1");
                        default -> new Object();
                    };
                    a = new int[0];
                }
                default -> {
                    v = value(from, t[2]);
                    a = bytes(v);
                }
            }
            for (String to : List.of("Bool", "Byte", "Short", "Char", "Int", "Long", "Float", "Double", "String")) {
                for (String fn : List.of("convert", "unbox")) {
                    Object r = null;
                    String x = "ok";
                    try {
                        r = stat(type(to), fn, 1, v);
                    } catch (Throwable z) {
                        x = H.code(z);
                    }
                    log.ev("cv").p("fn", fn).p("to", to).p("from", from).p("a", a).p("r", bytes(r)).p("x", x).end();
                }
            }
            String x = "ok";
            boolean b = false;
            try {
                b = stat(type("Generic"), "convert", 1, v) == v && stat(type("Generic"), "unbox", 1, v) == v
                        && stat(type("Generic"), "box", 1, v) == v;
            } catch (Throwable z) {
                x = H.code(z);
            }
            log.ev("same").p("b", b).p("x", x).end();
        }

        /** cast TYPE VALUE: to int; and of an int to every type. */
        void cast(final String[] t) throws Throwable {
            final Object v = value(t[1], t[2]);
            castTo(t[1], "Int", v, t[1].equals("Int") ? "Int" : t[1]);
            if (t[1].equals("Int")) {
                for (String to : FIXED) {
                    if (!to.equals("Int")) {
                        castTo(to, to, v, "Int");
                    }
                }
            }
        }

        private void castTo(final String owner, final String to, final Object v, final String from) {
            Object r = null;
            String x = "ok";
            final boolean has = java.util.Arrays.stream(type(owner).getMethods())
                    .anyMatch(m -> m.getName().equals("castTo" + to));
            if (!has) {
                return;
            }
            try {
                r = stat(type(owner), "castTo" + to, 1, v);
            } catch (Throwable z) {
                x = H.code(z);
            }
            log.ev("cast").p("from", from).p("to", to).p("a", bytes(v)).p("r", bytes(r)).p("x", x).end();
        }

        void box(final String t, final Object v) throws Throwable {
            Object r = null;
            String x = "ok";
            try {
                r = stat(type(t), "box", 1, v);
            } catch (Throwable z) {
                x = H.code(z);
            }
            log.ev("box").p("t", t).p("a", bytes(v)).p("r", bytes(r)).p("x", x).end();
            if (!t.equals("Char") && !t.equals("String") && !t.equals("Bool")) { // the text of a value is parsed to it
                Object p = null;
                String y = "ok";
                try {
                    p = stat(type(t), "parseString", 1, String.valueOf(v));
                } catch (Throwable z) {
                    y = H.code(z);
                }
                log.ev("box").p("t", t).p("a", bytes(v)).p("r", bytes(p)).p("x", y).end();
            }
        }

        void parse(final String to, final String s) {
            for (String fn : List.of("parseString", "convert", "castToInt")) {
                String kind = to;
                if (fn.equals("castToInt")) {
                    if (!to.equals("String")) {
                        continue;
                    }
                    kind = "Int";
                }
                Object r = null;
                String x = "ok";
                try {
                    r = stat(type(to), fn, 1, s);
                } catch (Throwable z) {
                    x = H.code(z);
                }
                log.ev("parse").p("to", kind).p("s", bytes(s)).p("r", bytes(r)).p("x", x).end();
            }
        }

        /** fp TYPE SIGN DIGITS EXPONENT FORM */
        void fp(final String[] t) {
            final boolean neg = t[2].equals("-");
            final String d = t[3];
            final int k = Integer.parseInt(t[4]);
            final int form = Integer.parseInt(t[5]);
            String s;
            if (k < 0 && form == 0) { // plain decimal
                final String z = "0".repeat(Math.max(0, -k - d.length() + 1)) + d;
                s = z.substring(0, z.length() + k) + "." + z.substring(z.length() + k);
            } else if (form == 1 && d.length() > 1) {
                s = d.charAt(0) + "." + d.substring(1) + "E" + (k + d.length() - 1);
            } else {
                s = d + "e" + k;
            }
            s = (neg ? "-" : "") + s;
            Object r = null;
            String x = "ok";
            try {
                r = stat(type(t[1]), "parseString", 1, s);
            } catch (Throwable z) {
                x = H.code(z);
            }
            log.ev("fp").p("to", t[1]).p("neg", neg).p("d", d.chars().map(c -> c - '0').toArray()).p("k", k)
                    .p("r", bytes(r)).p("x", x).end();
        }

        static final String[] ZONES = {"GMT+14", "UTC", "GMT-12", "Asia/Tokyo", "America/Los_Angeles", "Asia/Kolkata"};

        @SuppressWarnings("deprecation")
        void dates(final int y) throws Throwable {
            final int n = java.time.Year.of(y).length();
            final int[] v = new int[n];
            final int[] b = new int[n];
            final boolean sql = y >= 1600;
            final int[] s = new int[sql ? n : 0];
            for (int i = 0; i < n; i++) {
                final LocalDate d = LocalDate.ofYearDay(y, i + 1);
                v[i] = (Integer) stat(type("Int"), "fromLocalDate", 1, d);
                final LocalDate back = (LocalDate) stat(type("Int"), "toLocalDate", 1,
                        d.getYear() * 10000 + d.getMonthValue() * 100 + d.getDayOfMonth());
                b[i] = back.getYear() * 10000 + back.getMonthValue() * 100 + back.getDayOfMonth();
            }
            if (sql) { // a Date is a moment; which day that is depends on the time zone
                synchronized (ZONES) {
                    final TimeZone was = TimeZone.getDefault();
                    try {
                        for (int i = 0; i < n; i++) {
                            if (i % 40 == 0) {
                                TimeZone.setDefault(TimeZone.getTimeZone(ZONES[(y + i / 40) % ZONES.length]));
                            }
                            final LocalDate d = LocalDate.ofYearDay(y, i + 1);
                            s[i] = (Integer) stat(type("Int"), "fromSqlDate", 1, new Date(y - 1900,
                                    d.getMonthValue() - 1, d.getDayOfMonth(), i * 7 % 24, 59 * (i & 1), 59 * (i & 1)));
                        }
                    } finally {
                        TimeZone.setDefault(was);
                    }
                }
            }
            log.ev("dates").p("y", y).p("v", v).p("b", b).p("s", s).end();
        }

        void times(final int h) throws Throwable {
            final int[] v = new int[3600];
            final int[] b = new int[3600];
            for (int i = 0; i < 3600; i++) {
                final LocalTime t = LocalTime.of(h, i / 60, i % 60, i % 3 * 499999999);
                v[i] = (Integer) stat(type("Int"), "fromLocalTime", 1, t);
                final LocalTime back = (LocalTime) stat(type("Int"), "toLocalTime", 1,
                        h * 10000 + i / 60 * 100 + i % 60);
                b[i] = back.getHour() * 10000 + back.getMinute() * 100 + back.getSecond();
            }
            log.ev("times").p("h", h).p("v", v).p("b", b).end();
        }
    }
}
