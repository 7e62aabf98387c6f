import freemarker.template.Configuration;
import freemarker.template.DefaultObjectWrapperBuilder;
import freemarker.template.Template;
import freemarker.template.TemplateExceptionHandler;
import java.io.StringWriter;
import java.net.URI;
import java.nio.file.Files;
import java.nio.file.Path;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.HashMap;
import java.util.HashSet;
import java.util.List;
import java.util.Locale;
import java.util.Map;
import java.util.Set;
import java.util.TreeMap;
import java.util.stream.Stream;
import javax.tools.JavaCompiler;
import javax.tools.JavaFileObject;
import javax.tools.SimpleJavaFileObject;
import javax.tools.StandardJavaFileManager;
import javax.tools.ToolProvider;

/**
 * Renders /repo's templates (the data model is that of the repository's own build) and compiles
 * them together with /repo's main sources and, in a second step, the harness sources.
 *
 * <p>Build COLLECTIONS_DIR OUT_CLASSES CLASSPATH HARNESS_SRC
 */
public final class Build {
    public static final class Type {
        private final String name;
        private final String javaType;
        private final boolean generic;

        Type(final String name, final String javaType, final boolean generic) {
            this.name = name;
            this.javaType = javaType;
            this.generic = generic;
        }

        public String getName() {
            return name;
        }

        public String getJavaType() {
            return javaType;
        }

        public String getArrayType() {
            return generic ? "Object" : javaType;
        }

        public String getCast() {
            return generic ? "(" + javaType + ")" : "";
        }

        public String getDeclaration() {
            return generic ? "<" + javaType + ">" : "";
        }

        public boolean isGeneric() {
            return generic;
        }

        @Override
        public String toString() {
            return name;
        }
    }

    private static final String[] TYPES = {
        "Bool", "Byte", "Short", "Char", "Int", "Long", "Float", "Double", "String", "Generic"
    };
    private static final Set<String> EXCLUDED =
            Set.of(
                    "BoolIndexedCollection",
                    "BaseBoolHeap",
                    "BaseBoolIndex",
                    "BoolIndexedSet");

    private static Type type(final String name, final String variable) {
        return switch (name) {
            case "Bool" -> new Type(name, "boolean", false);
            case "String" -> new Type(name, "String", false);
            case "Generic" -> new Type(name, variable, true);
            default -> new Type(name, name.toLowerCase(Locale.ROOT), false);
        };
    }

    private static Map<String, Object> model(final Map<String, Type> types) {
        final Map<String, Object> model = new HashMap<>(types);
        final List<String> variables = new ArrayList<>();
        final List<String> instances = new ArrayList<>();
        for (Type t : types.values()) {
            if (t.isGeneric()) {
                variables.add(t.getJavaType());
                instances.add("Object");
            }
        }
        final boolean none = variables.isEmpty();
        model.put("generics", none ? "" : "<" + String.join(", ", variables) + ">");
        model.put("instanceGenerics", none ? "" : "<" + String.join(", ", instances) + ">");
        return model;
    }

    private static final class Source extends SimpleJavaFileObject {
        private final String text;

        Source(final String path, final String text) {
            super(URI.create("mem:///" + path), Kind.SOURCE);
            this.text = text;
        }

        @Override
        public CharSequence getCharContent(final boolean ignore) {
            return text;
        }
    }

    private static List<JavaFileObject> render(final Path templates) throws Exception {
        final Configuration config = new Configuration(Configuration.VERSION_2_3_32);
        config.setDirectoryForTemplateLoading(templates.toFile());
        config.setDefaultEncoding("UTF-8");
        config.setObjectWrapper(
                new DefaultObjectWrapperBuilder(Configuration.VERSION_2_3_32).build());
        config.setTemplateExceptionHandler(TemplateExceptionHandler.RETHROW_HANDLER);
        config.setLogTemplateExceptions(false);
        final List<JavaFileObject> out = new ArrayList<>();
        for (Path source : files(templates, ".ftl")) {
            final Path relative = templates.relativize(source);
            final String base = relative.getFileName().toString().replaceFirst("\\.ftl$", "");
            final Template template = config.getTemplate(relative.toString());
            final List<Map<String, Type>> models = new ArrayList<>();
            for (String key : TYPES) {
                if (!base.contains("KeyValue")) {
                    models.add(Map.of("type", type(key, "T")));
                } else if (!key.equals("Bool")) {
                    for (String value : TYPES) {
                        final Map<String, Type> pair = new TreeMap<>();
                        pair.put("key", type(key, "K"));
                        pair.put("value", type(value, "V"));
                        models.add(pair);
                    }
                }
            }
            for (Map<String, Type> types : models) {
                final String name =
                        types.containsKey("type")
                                ? base.replace("Key", types.get("type").getName())
                                : base.replace(
                                        "KeyValue",
                                        types.get("key").getName() + types.get("value").getName());
                if (EXCLUDED.contains(name)) {
                    continue;
                }
                final StringWriter text = new StringWriter();
                template.process(model(types), text);
                out.add(
                        new Source(
                                relative.resolveSibling(name + ".java").toString(),
                                text.toString()));
            }
        }
        return out;
    }

    private static List<Path> files(final Path dir, final String suffix) throws Exception {
        if (!Files.isDirectory(dir)) {
            return List.of();
        }
        try (Stream<Path> s = Files.walk(dir)) {
            return s.filter(p -> p.toString().endsWith(suffix))
                    .filter(p -> !p.endsWith("module-info.java"))
                    .sorted()
                    .toList();
        }
    }

    public static void main(final String[] args) throws Exception {
        final Path dir = Path.of(args[0]);
        final Path out = Path.of(args[1]);
        final String classpath = args[2];
        final Path harness = Path.of(args[3]);
        Files.createDirectories(out);
        final JavaCompiler compiler = ToolProvider.getSystemJavaCompiler();
        try (StandardJavaFileManager fm = compiler.getStandardFileManager(null, null, null)) {
            final List<JavaFileObject> units = new ArrayList<>(render(dir.resolve("src/main/templates")));
            final List<Path> java = new ArrayList<>(files(dir.resolve("src/main/java"), ".java"));
            java.addAll(files(dir.resolve("src/main/generated"), ".java"));
            fm.getJavaFileObjectsFromPaths(java).forEach(units::add);
            final List<String> opts =
                    Arrays.asList("-proc:none", "-nowarn", "-g", "-encoding", "UTF-8", "-implicit:none",
                            "-d", out.toString(), "-cp", classpath);
            if (!compiler.getTask(null, fm, null, opts, null, units).call()) {
                System.exit(3);
            }
            final List<JavaFileObject> h = new ArrayList<>();
            fm.getJavaFileObjectsFromPaths(files(harness, ".java")).forEach(h::add);
            if (!h.isEmpty()) {
                final List<String> hopts =
                        Arrays.asList("-proc:none", "-nowarn", "-g", "-encoding", "UTF-8",
                                "-d", out.toString(), "-cp", out + ":" + classpath);
                if (!compiler.getTask(null, fm, null, hopts, null, h).call()) {
                    System.exit(3);
                }
            }
        }
        System.exit(0);
    }
}
