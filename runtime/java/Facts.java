import com.hbuf.java.Data;
import com.hbuf.java.Server;

import java.io.*;
import java.lang.reflect.*;
import java.net.URI;
import java.nio.charset.StandardCharsets;
import java.nio.file.*;
import java.util.*;
import javax.tools.*;

/** Compiles units of generated Java in memory, loads their classes and prints what they declare and do, line by line. */
public class Facts {
	static class Source extends SimpleJavaFileObject {
		final String text;

		Source(String name, String text) {
			super(URI.create("mem:///" + name), Kind.SOURCE);
			this.text = text;
		}

		public CharSequence getCharContent(boolean ignore) {
			return text;
		}
	}

	static class Output extends SimpleJavaFileObject {
		final ByteArrayOutputStream bytes = new ByteArrayOutputStream();

		Output(String name) {
			super(URI.create("mem:///" + name.replace('.', '/') + ".class"), Kind.CLASS);
		}

		public OutputStream openOutputStream() {
			return bytes;
		}
	}

	static class Manager extends ForwardingJavaFileManager<JavaFileManager> {
		Map<String, Output> classes = new TreeMap<>();

		Manager(JavaFileManager m) {
			super(m);
		}

		public JavaFileObject getJavaFileForOutput(Location l, String name, JavaFileObject.Kind kind, FileObject sibling) {
			Output o = new Output(name);
			classes.put(name, o);
			return o;
		}
	}

	static class Loader extends ClassLoader {
		final Map<String, Output> classes;

		Loader(Map<String, Output> classes) {
			super(Facts.class.getClassLoader());
			this.classes = classes;
		}

		protected Class<?> findClass(String name) throws ClassNotFoundException {
			Output o = classes.get(name);
			if (o == null) throw new ClassNotFoundException(name);
			byte[] b = o.bytes.toByteArray();
			return defineClass(name, b, 0, b.length);
		}
	}

	static PrintStream out;

	static void line(String kind, String text) {
		out.println(kind + " " + text.replace("\\", "\\\\").replace("\n", "\\n").replace("\r", "\\r"));
	}

	public static void main(String[] args) throws Exception {
		out = new PrintStream(new BufferedOutputStream(new FileOutputStream(FileDescriptor.out), 1 << 16), false, "UTF-8");
		JavaCompiler compiler = ToolProvider.getSystemJavaCompiler();
		StandardJavaFileManager std = compiler.getStandardFileManager(null, Locale.ENGLISH, StandardCharsets.UTF_8);
		std.setLocation(StandardLocation.CLASS_PATH, List.of(new File(args[1])));
		std.setLocation(StandardLocation.SOURCE_PATH, List.of());
		String key = null;
		List<Source> sources = new ArrayList<>();
		try (BufferedReader r = Files.newBufferedReader(Path.of(args[0]), StandardCharsets.UTF_8)) {
			for (String l; (l = r.readLine()) != null; ) {
				if (l.startsWith("U ")) {
					key = l.substring(2);
					sources.clear();
				} else if (l.startsWith("F ")) {
					String[] p = l.split(" ");
					sources.add(new Source(p[1], new String(Base64.getDecoder().decode(p.length > 2 ? p[2] : ""), StandardCharsets.UTF_8)));
				} else if (l.equals("R")) {
					line("U", key);
					unit(compiler, std, sources);
					out.println(".");
					out.flush();
				}
			}
		}
		out.println("END");
		out.flush();
	}

	static void unit(JavaCompiler compiler, StandardJavaFileManager std, List<Source> sources) {
		if (sources.isEmpty()) return;
		Manager m = new Manager(std);
		DiagnosticCollector<JavaFileObject> ds = new DiagnosticCollector<>();
		boolean ok = compiler.getTask(new StringWriter(), m, ds, List.of("-proc:none", "-implicit:none", "-nowarn", "-g:none", "-Xlint:none", "-XDuseUnsharedTable=false"), null, sources).call();
		if (!ok) {
			int n = 0;
			for (Diagnostic<? extends JavaFileObject> d : ds.getDiagnostics())
				if (d.getKind() == Diagnostic.Kind.ERROR && n++ < 4)
					line("E", (d.getSource() == null ? "" : new File(d.getSource().getName()).getName()) + ":" + d.getLineNumber() + ": " + d.getMessage(Locale.ENGLISH));
			return;
		}
		Loader loader = new Loader(m.classes);
		try {
			for (String name : m.classes.keySet()) describe(loader.loadClass(name), loader);
		} catch (Throwable e) {
			StringWriter w = new StringWriter();
			e.printStackTrace(new PrintWriter(w));
			line("E", w.toString());
		}
	}

	static String names(Type[] ts) {
		List<String> n = new ArrayList<>();
		for (Type t : ts) n.add(t.getTypeName());
		Collections.sort(n);
		return String.join(", ", n);
	}

	static void describe(Class<?> c, Loader l) throws Exception {
		String n = c.getName();
		if (c.getDeclaringClass() == null) {
			line("outer", n + " " + (Modifier.isPublic(c.getModifiers()) && c.isInterface()));
			return;
		}
		if (c.isInterface() && Data.class.isAssignableFrom(c)) data(c, l);
		else if (Data.class.isAssignableFrom(c)) line("impl", n + " implements " + names(c.getGenericInterfaces()));
		else if (Server.ClientRouter.class.isAssignableFrom(c)) line("client", n + " implements " + names(c.getGenericInterfaces()));
		else if (c.isInterface()) server(c, l);
		else item(c);
	}

	static void data(Class<?> c, Loader l) throws Exception {
		String n = c.getName();
		line("data", n + " extends " + names(c.getGenericInterfaces()));
		for (Method m : sorted(c.getDeclaredMethods()))
			if (!m.isBridge() && !m.getName().equals("copy")) line("accessor", n + " " + m.getName() + "(" + names(m.getGenericParameterTypes()) + ") " + m.getGenericReturnType().getTypeName());
		Class<?> impl = l.loadClass(n + "Impl");
		// what is set is what is got, and nothing else changes
		List<Method> get = new ArrayList<>(), set = new ArrayList<>();
		Set<String> seen = new HashSet<>();
		for (Method m : sorted(c.getMethods())) {
			if (m.getName().equals("copy") || m.getName().equals("toData") || m.getName().equals("formData") || !seen.add(m.getName() + names(m.getParameterTypes()))) continue;
			if (m.getParameterCount() == 0) {
				get.add(m);
				line("member", n + " " + m.getName().substring(3) + " " + m.getGenericReturnType().getTypeName());
			} else set.add(m);
		}
		Data d = (Data) impl.getConstructor().newInstance();
		for (Method g : get) if (g.invoke(d) != null) line("E", n + " is not empty at first: " + g.getName());
		if (get.size() != set.size()) line("E", n + ": " + get.size() + " getters and " + set.size() + " setters");
		Map<String, Object> now = new HashMap<>();
		for (int round = 0; round < 3; round++) for (Method s : set) {
			Object v = round == 2 ? null : sample(s.getParameterTypes()[0], l);
			s.invoke(d, v);
			now.put("g" + s.getName().substring(1), v);
			for (Method g : get) if (g.invoke(d) != now.get(g.getName())) line("E", n + ": after " + s.getName() + " " + g.getName() + " gives another value");
		}
		line("moves", n + " " + set.size() * 3 * get.size());
	}

	static Method[] sorted(Method[] ms) {
		Arrays.sort(ms, Comparator.comparing(Method::toGenericString));
		return ms;
	}

	static int count = 1000;

	static Object sample(Class<?> t, Loader l) throws Exception {
		count++;
		if (t == Byte.class) return (byte) count;
		if (t == Short.class) return (short) count;
		if (t == Integer.class) return count;
		if (t == Long.class) return (long) count;
		if (t == Character.class) return (char) count;
		if (t == Boolean.class) return count % 2 == 0;
		if (t == Float.class) return (float) count;
		if (t == Double.class) return (double) count;
		if (t == String.class) return "s" + count;
		if (t == java.math.BigInteger.class) return java.math.BigInteger.valueOf(count);
		if (t == java.math.BigDecimal.class) return java.math.BigDecimal.valueOf(count);
		if (t == Date.class) return new Date(count);
		if (t == List.class) return new ArrayList<Object>();
		if (t == Map.class) return new HashMap<Object, Object>();
		if (Data.class.isAssignableFrom(t)) return l.loadClass(t.getName() + "Impl").getConstructor().newInstance();
		Object[] vs = (Object[]) t.getField("values").get(null);
		return vs.length == 0 ? null : vs[count % vs.length];
	}

	static void item(Class<?> c) throws Exception {
		String n = c.getName();
		line("enum", n);
		Object[] vs = (Object[]) c.getField("values").get(null);
		Field value = c.getField("value"), name = c.getField("name");
		List<String> order = new ArrayList<>();
		Map<String, Object> constants = new TreeMap<>();
		for (Field f : c.getFields()) if (Modifier.isStatic(f.getModifiers()) && f.getType() == c) {
			constants.put(f.getName(), f.get(null));
			if (!Modifier.isFinal(f.getModifiers())) line("E", n + "." + f.getName() + " can be changed");
		}
		for (Object v : vs) {
			int num = value.getInt(v);
			String nm = (String) name.get(v);
			order.add(nm + "=" + num);
			if (constants.get(nm) != v) line("E", n + ": values has an item " + nm + " that is not the constant of this name");
			if (!nm.equals(v.toString())) line("E", n + ": " + nm + " prints as " + v);
			if (c.getMethod("valueOf", int.class).invoke(null, num) != v) line("E", n + ": valueOf(" + num + ") is not " + nm);
			if (c.getMethod("nameOf", String.class).invoke(null, new String(nm.toCharArray())) != v) line("E", n + ": nameOf(" + nm + ") is another item");
			for (Object w : vs) {
				boolean eq = v.equals(w);
				if (eq != (v == w)) line("E", n + ": " + v + ".equals(" + w + ") is " + eq);
				if (eq && v.hashCode() != w.hashCode()) line("E", n + ": equal items with different hash codes");
			}
			if (v.equals(null) || v.equals("x")) line("E", n + ": " + nm + " equals something that is no item");
		}
		if (constants.size() != vs.length) line("E", n + ": " + constants.size() + " constants, " + vs.length + " values");
		line("items", n + " " + String.join(" ", order));
		for (int i : new int[]{-1, 2, 3, 4, 77777, Integer.MIN_VALUE}) {
			if (order.stream().anyMatch(o -> o.endsWith("=" + i))) continue;
			try {
				line("E", n + ": valueOf(" + i + ") is " + c.getMethod("valueOf", int.class).invoke(null, i));
			} catch (InvocationTargetException e) {
			}
		}
		try {
			line("E", n + ": nameOf(no such item) is " + c.getMethod("nameOf", String.class).invoke(null, "no such item"));
		} catch (InvocationTargetException e) {
		}
	}

	static void server(Class<?> c, Loader l) throws Exception {
		String n = c.getName();
		line("server", n + " extends " + names(c.getGenericInterfaces()));
		for (Method m : sorted(c.getDeclaredMethods())) line("method", n + " " + m.getName() + "(" + params(m) + ") " + m.getGenericReturnType().getTypeName());
		Server.Client to = new Server.Client();
		Class<?> cl = l.loadClass(n + "Client");
		Server.ClientRouter r = (Server.ClientRouter) cl.getConstructor(Server.Client.class).newInstance(to);
		line("name", n + " " + r.getName());
		Set<String> seen = new HashSet<>();
		for (Method m : sorted(c.getMethods())) {
			if (!seen.add(m.getName() + params(m))) continue;
			Object d = sample(m.getParameterTypes()[0], l);
			to.calls.clear();
			Object res = m.invoke(r, d, null);
			if (to.calls.size() != 1 || res == null) {
				line("E", n + "." + m.getName() + ": " + to.calls.size() + " requests, result " + res);
				continue;
			}
			Object[] x = to.calls.get(0);
			line("call", n + " " + m.getName() + "(" + params(m) + ") " + m.getGenericReturnType().getTypeName() + " sends " + (x[2] == d ? "the data" : "something else") + " as " + x[0] + " " + x[1] + " reads " + (x[3] == null ? (Boolean) x[4] || (Boolean) x[5] ? "null" : "nothing" : x[3].getClass().getName()));
		}
	}

	static String params(Method m) {
		List<String> n = new ArrayList<>();
		for (Type t : m.getGenericParameterTypes()) n.add(t.getTypeName());
		return String.join(", ", n);
	}
}
