import javax.tools.*;
import java.io.*;
import java.util.*;

/** Type-checks several source directories in one process: Check API-CLASSES DIR... prints a report per directory. */
public class Check {
    public static void main(String[] a) throws Exception {
        JavaCompiler c = ToolProvider.getSystemJavaCompiler();
        for (int i = 1; i < a.length; i++) {
            DiagnosticCollector<JavaFileObject> d = new DiagnosticCollector<>();
            StandardJavaFileManager fm = c.getStandardFileManager(d, null, null);
            List<File> fs = new ArrayList<>();
            for (File f : new File(a[i]).listFiles()) if (f.getName().endsWith(".java")) fs.add(f);
            Collections.sort(fs);
            File out = new File(a[i], "out");
            out.mkdirs();
            boolean ok;
            StringWriter w = new StringWriter();
            ok = c.getTask(w, fm, d, Arrays.asList("-proc:none", "-encoding", "UTF-8", "-cp", a[0], "-d", out.getPath()), null, fm.getJavaFileObjectsFromFiles(fs)).call();
            boolean warn = false;
            StringBuilder b = new StringBuilder(w.toString());
            for (Diagnostic<?> x : d.getDiagnostics()) {
                b.append(x.toString()).append("\n");
                if (x.getKind() != Diagnostic.Kind.NOTE) warn = true;
            }
            fm.close();
            System.out.println("@@ " + (ok && !warn ? "ok" : "bad"));
            System.out.println(b);
        }
    }
}
