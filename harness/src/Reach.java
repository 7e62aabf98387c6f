import java.lang.reflect.Array;
import java.lang.reflect.Field;
import java.lang.reflect.Modifier;
import java.util.ArrayDeque;
import java.util.ArrayList;
import java.util.Collections;
import java.util.IdentityHashMap;
import java.util.List;
import java.util.Map;
import java.util.Set;
import java.util.concurrent.ConcurrentHashMap;

/** The objects reachable from a collection, found by walking all instance fields and arrays. */
final class Reach {
    private static final Map<Class<?>, List<Field>> FIELDS = new ConcurrentHashMap<>();

    private Reach() {}

    /** How many elements all the arrays reachable from a collection have. */
    static int space(final Object root) {
        final long[] sum = {0};
        walk(root, new ArrayList<>(), sum);
        return (int) Math.min(sum[0], 1 << 30);
    }

    static List<Object> from(final Object root) {
        final List<Object> out = new ArrayList<>();
        walk(root, out, new long[1]);
        return out;
    }

    private static void walk(final Object root, final List<Object> out, final long[] sum) {
        final Set<Object> seen = Collections.newSetFromMap(new IdentityHashMap<>());
        final ArrayDeque<Object> todo = new ArrayDeque<>();
        todo.add(root);
        seen.add(root);
        while (!todo.isEmpty()) {
            final Object o = todo.poll();
            final Class<?> c = o.getClass();
            if (o != root && leaf(o)) {
                out.add(o);
                continue;
            }
            if (c.isArray()) {
                sum[0] += Array.getLength(o);
                if (!c.getComponentType().isPrimitive()) {
                    final int n = Array.getLength(o);
                    for (int i = 0; i < n; i++) {
                        push(Array.get(o, i), seen, todo);
                    }
                }
                continue;
            }
            for (Field f : fields(c)) {
                try {
                    push(f.get(o), seen, todo);
                } catch (IllegalAccessException e) {
                    throw new H.Infra("field " + f, e);
                }
            }
        }
    }

    private static void push(final Object v, final Set<Object> seen, final ArrayDeque<Object> todo) {
        if (v != null && seen.add(v)) {
            todo.add(v);
        }
    }

    /** Values the harness may have stored. */
    private static boolean leaf(final Object o) {
        return o instanceof String || o instanceof Types.Obj || o instanceof Number
                || o instanceof Boolean || o instanceof Character;
    }

    private static List<Field> fields(final Class<?> c) {
        return FIELDS.computeIfAbsent(
                c,
                k -> {
                    final List<Field> out = new ArrayList<>();
                    for (Class<?> x = k; x != null && x != Object.class; x = x.getSuperclass()) {
                        if (x.isHidden() || x == Class.class || x == Thread.class
                                || ClassLoader.class.isAssignableFrom(x)) {
                            continue; // lambdas capture no elements here
                        }
                        for (Field f : x.getDeclaredFields()) {
                            if (Modifier.isStatic(f.getModifiers()) || f.getType().isPrimitive()) {
                                continue;
                            }
                            try {
                                f.setAccessible(true);
                                out.add(f);
                            } catch (RuntimeException e) {
                                // a JDK class that is not open: nothing of ours behind it
                            }
                        }
                    }
                    return out;
                });
    }
}
