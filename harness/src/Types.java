import java.util.ArrayList;
import java.util.HashMap;
import java.util.List;
import java.util.Map;

/** The element types of the library, and the palettes that turn small ranks into their values. */
final class Types {
    static final String[] ALL = {
        "Bool", "Byte", "Short", "Char", "Int", "Long", "Float", "Double", "String", "Generic"
    };
    static final String[] KEYS = {
        "Byte", "Short", "Char", "Int", "Long", "Float", "Double", "String", "Generic"
    };

    private Types() {}

    static Class<?> javaType(final String t) {
        return switch (t) {
            case "Bool" -> boolean.class;
            case "Byte" -> byte.class;
            case "Short" -> short.class;
            case "Char" -> char.class;
            case "Int" -> int.class;
            case "Long" -> long.class;
            case "Float" -> float.class;
            case "Double" -> double.class;
            case "String" -> String.class;
            default -> Object.class;
        };
    }

    static boolean isRef(final String t) {
        return t.equals("String") || t.equals("Generic");
    }

    /** A user-defined object key: equality and order by rank, colliding hash if so asked. */
    static final class Obj implements Comparable<Object> {
        final int rank;
        final int hash;

        Obj(final int rank, final int hash) {
            this.rank = rank;
            this.hash = hash;
        }

        @Override
        public boolean equals(final Object o) {
            return o instanceof Obj && ((Obj) o).rank == rank;
        }

        @Override
        public int hashCode() {
            return hash;
        }

        @Override
        public int compareTo(final Object o) {
            if (!(o instanceof Obj)) {
                throw new ClassCastException("not an Obj: " + o);
            }
            return Integer.compare(rank, ((Obj) o).rank);
        }

        @Override
        public String toString() {
            return "Obj" + rank;
        }
    }

    /** An object whose equals says less than a custom equality may tell apart. */
    static final class Fine {
        final int rank;

        Fine(final int rank) {
            this.rank = rank;
        }

        @Override
        public boolean equals(final Object o) {
            return o instanceof Fine && ((Fine) o).rank / 3 == rank / 3;
        }

        @Override
        public int hashCode() {
            return rank / 3;
        }

        @Override
        public String toString() {
            return "Fine" + rank;
        }
    }

    static final int UNKNOWN = -99;

    /** rank to value and back, for one type and one kind of palette. */
    static final class Palette {
        final String type;
        final String kind;
        private final Object[] values;
        private final Map<Object, Integer> ranks = new HashMap<>();
        private int nullRank = UNKNOWN;

        Palette(final String type, final String kind, final int n) {
            this.type = type;
            this.kind = kind;
            final List<Object> list = new ArrayList<>();
            for (int i = 0; list.size() < n && i < 4 * n + 600; i++) {
                final Object v = make(type, kind, i);
                final Object c = id(v);
                if (v == null ? nullRank == UNKNOWN : !ranks.containsKey(c)) {
                    if (v == null) {
                        nullRank = list.size();
                    } else {
                        ranks.put(c, list.size());
                    }
                    list.add(v);
                }
            }
            values = list.toArray();
        }

        int size() {
            return values.length;
        }

        /** The value of a rank; a fresh or alternative representation where the type has one. */
        Object value(final int rank, final int salt) {
            final Object v = values[rank % values.length];
            if (v instanceof Fine) {
                return new Fine(((Fine) v).rank);
            }
            if (exact() && (v instanceof Double || v instanceof Float)) {
                return v;
            }
            if (v instanceof String) {
                return new String((String) v);
            }
            if (v instanceof Obj) {
                return new Obj(((Obj) v).rank, ((Obj) v).hash);
            }
            if (v instanceof Double) {
                final double d = (Double) v;
                if (d == 0) {
                    return (salt & 1) == 0 ? 0.0 : -0.0;
                }
                if (d != d) {
                    return (salt & 1) == 0
                            ? Double.NaN
                            : Double.longBitsToDouble(0x7ff8000000000000L | (salt + 1));
                }
            }
            if (v instanceof Float) {
                final float d = (Float) v;
                if (d == 0) {
                    return (salt & 1) == 0 ? 0.0f : -0.0f;
                }
                if (d != d) {
                    return (salt & 1) == 0 ? Float.NaN : Float.intBitsToFloat(0x7fc00000 | (salt + 1));
                }
            }
            return v;
        }

        int rank(final Object v) {
            if (v == null) {
                return nullRank;
            }
            final Integer r = ranks.get(id(v));
            return r == null ? UNKNOWN : r;
        }

        /** Under a custom equality or in an order, the two zeros and the NaNs are not one value. */
        private boolean exact() {
            return kind.equals("raw") || kind.startsWith("ord");
        }

        boolean isMinusZero(final int rank) {
            final Object v = values[rank % values.length];
            return v instanceof Double && Double.doubleToRawLongBits((Double) v) == 1L << 63
                    || v instanceof Float && Float.floatToRawIntBits((Float) v) == 1 << 31;
        }

        private Object id(final Object v) {
            if (exact()) {
                if (v instanceof Double) {
                    return Double.doubleToRawLongBits((Double) v);
                }
                if (v instanceof Float) {
                    return Float.floatToRawIntBits((Float) v);
                }
                if (v instanceof Fine) {
                    return ((Fine) v).rank;
                }
            }
            return canon(v);
        }
    }

    static Object canon(final Object v) {
        if (v instanceof Double) {
            final double d = (Double) v;
            return d == 0 ? (Object) 0.0 : (Object) Double.longBitsToDouble(Double.doubleToLongBits(d));
        }
        if (v instanceof Float) {
            final float d = (Float) v;
            return d == 0 ? (Object) 0.0f : (Object) Float.intBitsToFloat(Float.floatToIntBits(d));
        }
        return v;
    }

    static Object defaultOf(final String t) {
        return switch (t) {
            case "Bool" -> false;
            case "Byte" -> (byte) 0;
            case "Short" -> (short) 0;
            case "Char" -> (char) 0;
            case "Int" -> 0;
            case "Long" -> 0L;
            case "Float" -> 0f;
            case "Double" -> 0.0;
            default -> null;
        };
    }

    private static Object num(final String t, final long v) {
        return switch (t) {
            case "Bool" -> (v & 1) != 0;
            case "Byte" -> (byte) v;
            case "Short" -> (short) v;
            case "Char" -> (char) v;
            case "Int" -> (int) v;
            case "Long" -> v;
            case "Float" -> (float) v;
            default -> (double) v;
        };
    }

    private static Object make(final String t, final String kind, final int i) {
        switch (kind) {
            case "seq":
                if (t.equals("String")) {
                    return "k" + i;
                }
                if (t.equals("Generic")) {
                    return new Obj(i, i);
                }
                return num(t, i);
            case "ord": // order of the values is the order of the ranks, spread over the range
                return ordered(t, i);
            case "ordz": // the same, with the values an order can get wrong
                return edges(t, i);
            case "col": // hash codes agree in many low bits
                return switch (t) {
                    case "String" -> colliding(i);
                    case "Generic" -> new Obj(i, 7);
                    case "Byte" -> (byte) (i < 16 ? i << 4 : (i & 15) << 4 | (i >> 4));
                    case "Short" -> (short) (i << 8 | (i >> 8));
                    case "Char" -> (char) (i << 8 | (i >> 8));
                    case "Int" -> i << 16;
                    case "Long" -> ((long) i) << 40;
                    case "Float" -> Float.intBitsToFloat(0x3f800000 + (i << 12));
                    case "Double" -> Double.longBitsToDouble(0x3ff0000000000000L + ((long) i << 42));
                    default -> num(t, i);
                };
            case "raw": // for custom equalities only: they tell apart what the default one does not
                if (t.equals("Double")) {
                    final long[] b = {0L, 1L << 63, 0x7ff8000000000000L, 0x7ff8000000000001L, 0xfff8000000000000L};
                    return i < b.length ? (Object) Double.longBitsToDouble(b[i]) : (Object) (double) i;
                }
                if (t.equals("Float")) {
                    final int[] b = {0, 1 << 31, 0x7fc00000, 0x7fc00001, 0xffc00000};
                    return i < b.length ? (Object) Float.intBitsToFloat(b[i]) : (Object) (float) i;
                }
                return t.equals("Generic") ? new Fine(i) : extreme(t, i);
            case "ext":
                return extreme(t, i);
            case "val": // rank 0 is the default
                if (i == 0) {
                    return defaultOf(t);
                }
                return switch (t) {
                    case "String" -> i == 1 ? "" : "v" + i;
                    case "Generic" -> i == 1 ? (Object) "" : new Obj(1000 + i, i);
                    default -> i < 5 ? extreme(t, i) : num(t, i < 9 ? -i : i * (t.equals("Byte") ? 1 : 37));
                };
            default:
                throw new IllegalArgumentException(kind);
        }
    }

    private static Object ordered(final String t, final int i) {
        return switch (t) {
            case "Bool" -> i == 0; // ascending order puts true first
            case "Byte" -> (byte) (Byte.MIN_VALUE + i * 5 > 127 ? 127 : Byte.MIN_VALUE + i * 5);
            case "Short" -> (short) (Short.MIN_VALUE + i * 1285);
            case "Char" -> (char) (i * 1285);
            case "Int" -> (int) (Integer.MIN_VALUE + i * 85899345L);
            case "Long" -> Long.MIN_VALUE + i * 368934881474191032L;
            case "Float" -> i == 0 ? Float.NEGATIVE_INFINITY : (float) ((i - 20) * 1e30);
            case "Double" -> i == 0 ? Double.NEGATIVE_INFINITY : (i - 20) * 1e300;
            case "String" -> "s" + (char) ('0' + i);
            default -> new Obj(i, i * 31);
        };
    }

    private static Object edges(final String t, final int i) {
        final Object[] a =
                switch (t) {
                    case "Bool" -> new Object[] {true, false};
                    case "Byte" -> new Object[] {(byte) -128, (byte) -127, (byte) -1, (byte) 0, (byte) 1, (byte) 127};
                    case "Short" ->
                            new Object[] {
                                Short.MIN_VALUE, (short) -32767, (short) -256, (short) -1, (short) 0, (short) 1,
                                (short) 255, Short.MAX_VALUE
                            };
                    case "Char" ->
                            new Object[] {
                                (char) 0, (char) 1, (char) 255, (char) 256, (char) 0x7fff, (char) 0x8000,
                                Character.MAX_VALUE
                            };
                    case "Int" ->
                            new Object[] {
                                Integer.MIN_VALUE, Integer.MIN_VALUE + 1, -65536, -1, 0, 1, 65536, Integer.MAX_VALUE
                            };
                    case "Long" ->
                            new Object[] {
                                Long.MIN_VALUE, Long.MIN_VALUE + 1, -(1L << 32), -1L, 0L, 1L, 0x80000000L, 1L << 32,
                                Long.MAX_VALUE
                            };
                    case "Float" ->
                            new Object[] {
                                Float.NEGATIVE_INFINITY, -1f, -0f, 0f, Float.MIN_VALUE, 1f, Float.MAX_VALUE,
                                Float.POSITIVE_INFINITY, Float.NaN
                            };
                    case "Double" ->
                            new Object[] {
                                Double.NEGATIVE_INFINITY, -1.0, -0.0, 0.0, Double.MIN_VALUE, 1.0, Double.MAX_VALUE,
                                Double.POSITIVE_INFINITY, Double.NaN
                            };
                    case "String" -> new Object[] {"", "A", "B", "a", "aa", "b", "\u00e9", null};
                    default -> new Object[] {new Obj(0, 9), new Obj(1, 9), new Obj(2, 0), new Obj(3, -1), null};
                };
        return a[Math.min(i, a.length - 1)];
    }

    static String colliding(final int i) {
        final StringBuilder b = new StringBuilder();
        for (int j = 0; j < 8; j++) {
            b.append((i >> j & 1) == 0 ? "Aa" : "BB");
        }
        return b.toString();
    }

    private static Object extreme(final String t, final int i) {
        final Object[] first =
                switch (t) {
                    case "Bool" -> new Object[] {false, true};
                    case "Byte" -> new Object[] {(byte) 0, (byte) -128, (byte) 127, (byte) -1};
                    case "Short" ->
                            new Object[] {
                                (short) 0, Short.MIN_VALUE, Short.MAX_VALUE, (short) -1, (short) 255, (short) 256
                            };
                    case "Char" ->
                            new Object[] {(char) 0, Character.MAX_VALUE, (char) 0x8000, (char) 255, (char) 256};
                    case "Int" ->
                            new Object[] {
                                0, Integer.MIN_VALUE, Integer.MAX_VALUE, -1, 65536, -65536, 1 << 30,
                                Integer.MIN_VALUE + 1
                            };
                    case "Long" ->
                            new Object[] {
                                0L, Long.MIN_VALUE, Long.MAX_VALUE, -1L, 1L << 32, -(1L << 32),
                                0xffffffffL, Long.MIN_VALUE + 1, (long) Integer.MIN_VALUE
                            };
                    case "Float" ->
                            new Object[] {
                                0f, Float.NaN, Float.NEGATIVE_INFINITY, Float.POSITIVE_INFINITY,
                                Float.MIN_VALUE, -Float.MIN_VALUE, Float.MAX_VALUE, -Float.MAX_VALUE, 1f, -1f
                            };
                    case "Double" ->
                            new Object[] {
                                0.0, Double.NaN, Double.NEGATIVE_INFINITY, Double.POSITIVE_INFINITY,
                                Double.MIN_VALUE, -Double.MIN_VALUE, Double.MAX_VALUE, -Double.MAX_VALUE,
                                1.0, -1.0
                            };
                    case "String" -> new Object[] {null, "", "Aa", "BB", "\u0000", "aa", "AA", "\uffff"};
                    default ->
                            new Object[] {
                                null, "", 0, 0L, new Obj(1, Integer.MIN_VALUE), new Obj(2, -1),
                                new Obj(3, Integer.MIN_VALUE), "Aa", "BB", Boolean.TRUE
                            };
                };
        if (i < first.length) {
            return first[i];
        }
        return switch (t) {
            case "String" -> "x" + (i % 7 == 0 ? "\u00e9" : "") + i;
            case "Generic" -> new Obj(100 + i, -i);
            case "Char" -> (char) (i * 3);
            default -> num(t, i % 2 == 0 ? -i * 3L : i * 3L);
        };
    }
}
