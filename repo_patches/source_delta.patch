From dfda3e4d56ed5d4aca5aaf6b14726248ed17c881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:16 +0000
Subject: [PATCH 01/37] fix: fallback: never drop the result of an
 implementation

Methods without a context handed results over an unbuffered channel with a
non-blocking send: an implementation that returned before the caller reached
its receive lost its result and the call hung forever. Give every
implementation a slot in the channel.
---
 templates/fallback | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templates/fallback b/templates/fallback
index fbd321c..2f348c6 100644
--- a/templates/fallback
+++ b/templates/fallback
@@ -23,7 +23,7 @@ func New{{$decorator}}(interval time.Duration, impls ...{{.Interface.Type}}) {{$
   // {{$method.Name}} implements {{$.Interface.Type}}
   func (_d {{$decorator}}) {{$method.Declaration}} {
       type _resultStruct {{$method.ResultsStruct}}
-      var _ch = make(chan _resultStruct, 0)
+      var _ch = make(chan _resultStruct, len(_d.implementations))
       var _next = make(chan struct{}, len(_d.implementations))
       {{if $method.ReturnsError}}var _errorsList []string{{end}}
       var _ticker = time.NewTicker(_d.interval)
-- 
2.43.0


From 2ad12bb79168ed270756bff4765e480b01d90858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:16 +0000
Subject: [PATCH 02/37] fix: fallback: methods returning an error without a
 context

The code generated for methods that return an error but take no context did
not compile (missing return), and it looked at one result only. Use the same
receive loop for all methods.
---
 templates/fallback | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/templates/fallback b/templates/fallback
index 2f348c6..74dac72 100644
--- a/templates/fallback
+++ b/templates/fallback
@@ -66,7 +66,6 @@ func New{{$decorator}}(interval time.Duration, impls ...{{.Interface.Type}}) {{$
         }
       }()
 
-        {{if $method.AcceptsContext}}
           for {
               select {
               case {{if $method.HasResults}}_res := {{end}} <- _ch:
@@ -91,16 +90,5 @@ func New{{$decorator}}(interval time.Duration, impls ...{{.Interface.Type}}) {{$
               {{end -}}
               }
           }
-        {{else}}
-          {{if $method.HasResults}}_res := {{end}} <- _ch
-          {{- if $method.ReturnsError}}
-            if _res.err == nil {
-              {{ $method.ReturnStruct "_res" }}
-            }
-            _errorsList = append(_errorsList, _res.err.Error())
-          {{else}}
-            {{ $method.ReturnStruct "_res" }}
-          {{end -}}
-        {{end}}
   }
 {{end}}
-- 
2.43.0


From f6b716780d1ce25ff319d1cb2b2db330dea7aa91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:16 +0000
Subject: [PATCH 03/37] fix: fallback: stop the starter goroutine when the call
 returns

The goroutine that starts the implementations waited for a failure or a tick
of a ticker that had been stopped, and so leaked with every call that returned
before all implementations had been started.
---
 templates/fallback | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/templates/fallback b/templates/fallback
index 74dac72..0416ec8 100644
--- a/templates/fallback
+++ b/templates/fallback
@@ -25,6 +25,8 @@ func New{{$decorator}}(interval time.Duration, impls ...{{.Interface.Type}}) {{$
       type _resultStruct {{$method.ResultsStruct}}
       var _ch = make(chan _resultStruct, len(_d.implementations))
       var _next = make(chan struct{}, len(_d.implementations))
+      var _done = make(chan struct{})
+      defer close(_done)
       {{if $method.ReturnsError}}var _errorsList []string{{end}}
       var _ticker = time.NewTicker(_d.interval)
       defer _ticker.Stop()
@@ -61,6 +63,8 @@ func New{{$decorator}}(interval time.Duration, impls ...{{.Interface.Type}}) {{$
             select {
               case <-_next:
               case <-_ticker.C:
+              case <-_done:
+                return
             }
           }
         }
-- 
2.43.0


From b617c68326a831a8fbe6c4627fb20181e981af8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:16 +0000
Subject: [PATCH 04/37] fix: ratelimit: do not save up more than burst
 allowances

While the bucket was full the refilling goroutine held back one more allowance
and the ticker another one, so that after an idle period burst+2 calls passed
at once.
---
 templates/ratelimit | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/templates/ratelimit b/templates/ratelimit
index 9967fdf..657732f 100644
--- a/templates/ratelimit
+++ b/templates/ratelimit
@@ -26,7 +26,11 @@ func New{{$decorator}}(base {{.Interface.Type}}, burst int, rps float64) *{{$dec
 
   go func() {
     for t := range time.Tick(delay) {
-      d._ticks <- t
+      // allowances over the burst are not kept
+      select {
+      case d._ticks <- t:
+      default:
+      }
     }
   }()
 
-- 
2.43.0


From c3b1ab0dfeef2bafd31f026ef9947e38ed66187b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:16 +0000
Subject: [PATCH 05/37] fix: elasticapm: custom decorator name

With -v DecoratorName=X both the decorator and its option type were named X
and the constructor referred to a type XOption that did not exist.
---
 templates/elasticapm | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templates/elasticapm b/templates/elasticapm
index c29f78a..18ee226 100644
--- a/templates/elasticapm
+++ b/templates/elasticapm
@@ -4,7 +4,7 @@ import (
 )
 
 {{ $decorator := (or .Vars.DecoratorName (printf "%sAPMTracing" .Interface.Name)) }}
-{{ $decorator_option := (or .Vars.DecoratorName (printf "%sAPMTracingOption" .Interface.Name)) }}
+{{ $decorator_option := (printf "%sOption" $decorator) }}
 {{ $component := (or .Vars.ComponentName (printf "%s" (down .Interface.Name))) }}
 
 // {{$decorator}} implements {{.Interface.Type}} interface with all methods wrapped
-- 
2.43.0


From 57d1bdd0d2a95a471eb885b35f2cdfa065ed414e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:16 +0000
Subject: [PATCH 06/37] fix: elasticapm: implement methods that take no context

Such methods were left out of the decorator, which therefore did not implement
the interface. Pass them through to the wrapped implementation.
---
 templates/elasticapm | 2 --
 1 file changed, 2 deletions(-)

diff --git a/templates/elasticapm b/templates/elasticapm
index 18ee226..1422325 100644
--- a/templates/elasticapm
+++ b/templates/elasticapm
@@ -57,7 +57,6 @@ func New{{$decorator}}(base {{.Interface.Type}}, opts ...{{$decorator}}Option) {
 }
 
 {{range $method := .Interface.Methods}}
-  {{if $method.AcceptsContext}}
     {{ $span_name := (printf "%s.%s" $component $method.Name) }}
     // {{$method.Name}} implements {{$.Interface.Type}}
     func (_d {{$decorator}}) {{$method.Declaration}} {
@@ -79,5 +78,4 @@ func New{{$decorator}}(base {{.Interface.Type}}, opts ...{{$decorator}}Option) {
         {{ end }}
         {{$method.Pass "_d.base."}}
     }
-  {{end}}
 {{end}}
-- 
2.43.0


From 849da7a81cddea9d7c2654a1f0da5c05bfa5f17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:16 +0000
Subject: [PATCH 07/37] fix: twirp_error: allow several decorators in one
 package

Every generated file declared the same package level function.
---
 templates/twirp_error | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/templates/twirp_error b/templates/twirp_error
index 067befa..c7aece4 100644
--- a/templates/twirp_error
+++ b/templates/twirp_error
@@ -22,7 +22,7 @@ func New{{$decorator}} (base {{.Interface.Type}}) {{$decorator}} {
     {{- if $method.ReturnsError}}
       {{range $param := $method.Params}}
         {{if not ( and $method.AcceptsContext (eq $param.Name "ctx")) }}
-          defer injectRequestDataToError({{$param.Name}} ,&err)
+          defer inject{{$decorator}}RequestData({{$param.Name}} ,&err)
         {{end}}
       {{end}}
     {{end}}
@@ -30,7 +30,7 @@ func New{{$decorator}} (base {{.Interface.Type}}) {{$decorator}} {
   }
 {{end}}
 
-func injectRequestDataToError(req interface{}, perr *error) {
+func inject{{$decorator}}RequestData(req interface{}, perr *error) {
 	err := *perr
 	if err != nil {
 		twerr, ok := err.(twirp.Error)
-- 
2.43.0


From 4ea253b7f3e92e7af2bb3cd79a09fb352e65254e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:49 +0000
Subject: [PATCH 08/37] fix: generator: do not depend on map iteration order

---
 generator/generator.go | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/generator/generator.go b/generator/generator.go
index c94e826..07b99df 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -436,8 +436,14 @@ func findSourcePackage(ident *ast.Ident, imports []*ast.ImportSpec) string {
 }
 
 func iterateFiles(p *pkg.Package, name string) (selectedType *ast.TypeSpec, imports []*ast.ImportSpec, types []*ast.TypeSpec) {
-	for _, f := range p.Files {
-		if f != nil {
+	names := make([]string, 0, len(p.Files))
+	for fileName := range p.Files {
+		names = append(names, fileName)
+	}
+	sort.Strings(names)
+
+	for _, fileName := range names {
+		if f := p.Files[fileName]; f != nil {
 			for _, ts := range typeSpecs(f) {
 				types = append(types, ts)
 				if ts.Name.Name == name {
@@ -672,8 +678,22 @@ func findImportPathForName(name string, imports []*ast.ImportSpec, currentPackag
 		}
 	}
 
-	for path, pkg := range currentPackage.Imports {
-		if pkg.Name == name {
+	// several imported packages can have the same name, the one imported by the file itself takes precedence
+	for _, i := range imports {
+		path := unquote(i.Path.Value)
+		if pkg, ok := currentPackage.Imports[path]; ok && i.Name == nil && pkg.Name == name {
+			return path, nil
+		}
+	}
+
+	paths := make([]string, 0, len(currentPackage.Imports))
+	for path := range currentPackage.Imports {
+		paths = append(paths, path)
+	}
+	sort.Strings(paths)
+
+	for _, path := range paths {
+		if currentPackage.Imports[path].Name == name {
 			return path, nil
 		}
 	}
-- 
2.43.0


From 72b1503b9f79a74de1729293975e5280329758a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:20 +0000
Subject: [PATCH 09/37] fix: generator: generators running at the same time do
 not affect each other

---
 generator/generator.go | 18 ++++++++++++++++--
 pkg/package.go         | 10 ++++++----
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/generator/generator.go b/generator/generator.go
index 07b99df..687c342 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -9,6 +9,7 @@ import (
 	"path/filepath"
 	"sort"
 	"strings"
+	"sync"
 	"text/template"
 
 	"github.com/pkg/errors"
@@ -209,6 +210,9 @@ func NewGenerator(options Options) (*Generator, error) {
 		return nil, errors.Wrap(err, "failed to parse source package")
 	}
 
+	// the caller's slice must not be modified by the appends below
+	options.Imports = append([]string(nil), options.Imports...)
+
 	var interfaceType string
 	if srcPackage.PkgPath == dstPackage.PkgPath {
 		interfaceType = options.InterfaceName
@@ -329,8 +333,7 @@ func (g Generator) Generate(w io.Writer) error {
 		return err
 	}
 
-	imports.LocalPrefix = g.localPrefix
-	processedSource, err := imports.Process(g.Options.OutputFile, buf.Bytes(), nil)
+	processedSource, err := processImports(g.Options.OutputFile, buf.Bytes(), g.localPrefix)
 	if err != nil {
 		return errors.Wrapf(err, "failed to format generated code:\n%s", buf)
 	}
@@ -339,6 +342,17 @@ func (g Generator) Generate(w io.Writer) error {
 	return err
 }
 
+// importsLock guards imports.LocalPrefix which is a global setting
+var importsLock sync.Mutex
+
+func processImports(fileName string, src []byte, localPrefix string) ([]byte, error) {
+	importsLock.Lock()
+	defer importsLock.Unlock()
+
+	imports.LocalPrefix = localPrefix
+	return imports.Process(fileName, src, nil)
+}
+
 var errTargetNotFound = errors.New("target declaration not found")
 
 func findTarget(input processInput) (output processOutput, err error) {
diff --git a/pkg/package.go b/pkg/package.go
index 73f1548..6b54eba 100644
--- a/pkg/package.go
+++ b/pkg/package.go
@@ -57,10 +57,12 @@ func AST(fs *token.FileSet, p *packages.Package) (*Package, error) {
 
 // Dir returns absolute path of the package in a filesystem
 func Dir(p *packages.Package) string {
-	files := append(p.GoFiles, p.OtherFiles...)
-	if len(files) < 1 {
-		return p.PkgPath
+	if len(p.GoFiles) > 0 {
+		return filepath.Dir(p.GoFiles[0])
+	}
+	if len(p.OtherFiles) > 0 {
+		return filepath.Dir(p.OtherFiles[0])
 	}
 
-	return filepath.Dir(files[0])
+	return p.PkgPath
 }
-- 
2.43.0


From d1b50ff7b3ad82b8d3c20aec6f75777d707cfbd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:22 +0000
Subject: [PATCH 10/37] fix: template list: report write errors

---
 cmd_template.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cmd_template.go b/cmd_template.go
index e67ddb8..f2f5e76 100644
--- a/cmd_template.go
+++ b/cmd_template.go
@@ -72,9 +72,13 @@ func (gc *TemplateCommand) list(w io.Writer) error {
 		return errNoTemplatesFound
 	}
 
-	fmt.Fprintln(w, "List of available remote templates:")
+	if _, err := fmt.Fprintln(w, "List of available remote templates:"); err != nil {
+		return err
+	}
 	for _, t := range templates {
-		fmt.Fprintf(w, "  %s\n", t)
+		if _, err := fmt.Fprintf(w, "  %s\n", t); err != nil {
+			return err
+		}
 	}
 
 	return nil
-- 
2.43.0


From dad1b2ff0c1860be399b21776b175bd273f466b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:23 +0000
Subject: [PATCH 11/37] fix: gen: keep the URL of a template loaded over HTTP

---
 cmd_generate.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd_generate.go b/cmd_generate.go
index 5ab5220..7aaa4c4 100644
--- a/cmd_generate.go
+++ b/cmd_generate.go
@@ -171,7 +171,7 @@ func (gc *GenerateCommand) loadTemplate(outputFileDir string) (contents, url str
 		return "", "", errors.Wrap(err, "failed to load template")
 	}
 
-	if !strings.HasPrefix(url, "https://") {
+	if !strings.HasPrefix(url, "https://") && !strings.HasPrefix(url, "http://") {
 		templatePath, err := gc.filepath.Abs(url)
 		if err != nil {
 			return "", "", err
-- 
2.43.0


From e66ba2ad1732f1f4467ab07111fecea6e927be82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:27 +0000
Subject: [PATCH 12/37] fix: gen, template copy: replace the output file at
 once

---
 cmd_generate.go |  2 +-
 cmd_template.go |  2 +-
 write_file.go   | 78 +++++++++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 80 insertions(+), 2 deletions(-)
 create mode 100644 write_file.go

diff --git a/cmd_generate.go b/cmd_generate.go
index 7aaa4c4..8fc1607 100644
--- a/cmd_generate.go
+++ b/cmd_generate.go
@@ -43,7 +43,7 @@ func NewGenerateCommand(l remoteTemplateLoader) *GenerateCommand {
 			Rel:       filepath.Rel,
 			Abs:       filepath.Abs,
 			Dir:       filepath.Dir,
-			WriteFile: os.WriteFile,
+			WriteFile: writeFile,
 		},
 	}
 
diff --git a/cmd_template.go b/cmd_template.go
index f2f5e76..2f4bdc8 100644
--- a/cmd_template.go
+++ b/cmd_template.go
@@ -55,7 +55,7 @@ func (gc *TemplateCommand) Run(args []string, w io.Writer) error {
 	case "list":
 		return gc.list(w)
 	case "copy":
-		return gc.fetch(w, os.WriteFile, args[1:])
+		return gc.fetch(w, writeFile, args[1:])
 	}
 	return errUnknownSubcommand
 }
diff --git a/write_file.go b/write_file.go
new file mode 100644
index 0000000..3b655c0
--- /dev/null
+++ b/write_file.go
@@ -0,0 +1,78 @@
+package gowrap
+
+import (
+	"fmt"
+	"os"
+	"path/filepath"
+)
+
+// writeFile works as os.WriteFile except that it replaces the file at once: the data
+// goes to a temporary file next to the destination which is then renamed, so whatever happens
+// the destination has either its previous or the complete new contents.
+func writeFile(filename string, data []byte, perm os.FileMode) (err error) {
+	if target, err := filepath.EvalSymlinks(filename); err == nil {
+		filename = target
+	}
+
+	existing, err := os.Stat(filename)
+	if err != nil && !os.IsNotExist(err) {
+		return err
+	}
+
+	if existing != nil {
+		if !existing.Mode().IsRegular() {
+			return os.WriteFile(filename, data, perm)
+		}
+
+		// renaming doesn't need the destination to be writable, but replacing of a read-only file is not expected
+		f, err := os.OpenFile(filename, os.O_WRONLY, 0)
+		if err != nil {
+			return err
+		}
+		if err := f.Close(); err != nil {
+			return err
+		}
+	}
+
+	tmp, err := createTemp(filename, perm)
+	if err != nil {
+		return err
+	}
+	defer func() {
+		if err != nil {
+			os.Remove(tmp.Name())
+		}
+	}()
+
+	_, err = tmp.Write(data)
+	if closeErr := tmp.Close(); err == nil {
+		err = closeErr
+	}
+	if err != nil {
+		return err
+	}
+
+	if existing != nil {
+		if err := os.Chmod(tmp.Name(), existing.Mode().Perm()); err != nil {
+			return err
+		}
+	}
+
+	return os.Rename(tmp.Name(), filename)
+}
+
+// createTemp creates a new file in the directory of the given file, its name doesn't look like the one of a go source file
+func createTemp(filename string, perm os.FileMode) (*os.File, error) {
+	dir, base := filepath.Split(filename)
+
+	for i := 0; ; i++ {
+		name := filepath.Join(dir, fmt.Sprintf(".%s.%d-%d.tmp", base, os.Getpid(), i))
+
+		f, err := os.OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_EXCL, perm)
+		if os.IsExist(err) && i < 1000 {
+			continue
+		}
+
+		return f, err
+	}
+}
-- 
2.43.0


From 0d52263010c2d51010df73295dc7d7499f2f5483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:46 +0000
Subject: [PATCH 13/37] fix: gowrap: an error message is not a format string

---
 cmd/gowrap/gowrap.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/gowrap/gowrap.go b/cmd/gowrap/gowrap.go
index a59d991..403ab87 100644
--- a/cmd/gowrap/gowrap.go
+++ b/cmd/gowrap/gowrap.go
@@ -21,7 +21,7 @@ func init() {
 func main() {
 	if len(os.Args) < 2 {
 		if err := gowrap.Usage(os.Stderr); err != nil {
-			die(1, err.Error())
+			die(1, "%s", err)
 		}
 		os.Exit(2)
 	}
@@ -35,7 +35,7 @@ func main() {
 
 	if args[0] == "help" {
 		if err := help(args[1:], os.Stdout); err != nil {
-			die(2, err.Error())
+			die(2, "%s", err)
 		}
 		return
 	}
@@ -49,7 +49,7 @@ func main() {
 		if _, ok := err.(gowrap.CommandLineError); ok {
 			die(2, "%s\nRun 'gowrap help %s' for usage.\n", err.Error(), args[0])
 		}
-		die(1, err.Error())
+		die(1, "%s", err)
 	}
 }
 
-- 
2.43.0


From e90b6e28ab744e60f21c4d3552dab19b6141c40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:46 +0000
Subject: [PATCH 14/37] fix: gowrap: no subcommand after flags

---
 cmd/gowrap/gowrap.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/gowrap/gowrap.go b/cmd/gowrap/gowrap.go
index 403ab87..3542a1f 100644
--- a/cmd/gowrap/gowrap.go
+++ b/cmd/gowrap/gowrap.go
@@ -32,6 +32,9 @@ func main() {
 
 	flag.Parse()
 	args := flag.Args()
+	if len(args) == 0 {
+		flag.CommandLine.Usage()
+	}
 
 	if args[0] == "help" {
 		if err := help(args[1:], os.Stdout); err != nil {
-- 
2.43.0


From 947786730a452ac96c19fc5d1853566cfcba2121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:47 +0000
Subject: [PATCH 15/37] fix: gowrap help: report write errors

---
 cmd/gowrap/gowrap.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cmd/gowrap/gowrap.go b/cmd/gowrap/gowrap.go
index 3542a1f..6feec36 100644
--- a/cmd/gowrap/gowrap.go
+++ b/cmd/gowrap/gowrap.go
@@ -1,6 +1,7 @@
 package main
 
 import (
+	"bytes"
 	"errors"
 	"flag"
 	"fmt"
@@ -82,8 +83,13 @@ func help(args []string, w io.Writer) error {
 	}
 
 	if fs := command.FlagSet(); fs != nil {
-		fs.SetOutput(w)
+		// PrintDefaults doesn't report write errors
+		defaults := &bytes.Buffer{}
+		fs.SetOutput(defaults)
 		fs.PrintDefaults()
+		if _, err := w.Write(defaults.Bytes()); err != nil {
+			return err
+		}
 	}
 
 	return command.HelpMessage(w)
-- 
2.43.0


From abe9f2d6fc6ee5178537e9c218ba3aaaa9dc1ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:56 +0000
Subject: [PATCH 16/37] fix: name parameters called _

Methods with blank parameters were passed on as f(_), which doesn't compile.
---
 generator/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator/types.go b/generator/types.go
index 1fa0eee..c49ddd0 100644
--- a/generator/types.go
+++ b/generator/types.go
@@ -128,7 +128,7 @@ func NewMethod(name string, fi *ast.Field, printer typePrinter, genericTypes gen
 // NewParam returns Param struct
 func NewParam(name string, fi *ast.Field, usedNames map[string]bool, printer typePrinter, genericTypes genericTypes, genericParams genericParams) (*Param, error) {
 	typ := fi.Type
-	if name == "" || usedNames[name] {
+	if name == "" || name == "_" || usedNames[name] {
 		name = genName(typePrefix(typ), 1, usedNames)
 	}
 
-- 
2.43.0


From 43e6c48818e451c0d6067bfbccedc3219ed488a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:36 +0000
Subject: [PATCH 17/37] fix: failures of the go command while loading the
 destination package

---
 generator/generator.go | 29 +++++++++++++++++++++++++++++
 pkg/package.go         |  7 +++++++
 2 files changed, 36 insertions(+)

diff --git a/generator/generator.go b/generator/generator.go
index 687c342..a553cc8 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -6,6 +6,7 @@ import (
 	"go/ast"
 	"go/token"
 	"io"
+	"os"
 	"path/filepath"
 	"sort"
 	"strings"
@@ -282,6 +283,11 @@ func makeImports(imports []*ast.ImportSpec) []string {
 func loadDestinationPackage(path string) (*packages.Package, error) {
 	dstPackage, err := pkg.Load(path)
 	if err != nil {
+		// there may be no package yet, but a failure to find that out must not be taken for that
+		if !pkg.IsLoadError(err) && insideModule() {
+			return nil, err
+		}
+
 		//using directory name as a package name
 		dstPackage, err = makePackage(path)
 	}
@@ -289,6 +295,29 @@ func loadDestinationPackage(path string) (*packages.Package, error) {
 	return dstPackage, err
 }
 
+// insideModule tells whether the working directory belongs to a module or a workspace,
+// otherwise it's not possible to load packages by their directories
+func insideModule() bool {
+	dir, err := filepath.Abs(".")
+	if err != nil {
+		return false
+	}
+
+	for {
+		for _, name := range []string{"go.mod", "go.work"} {
+			if _, err := os.Stat(filepath.Join(dir, name)); err == nil {
+				return true
+			}
+		}
+
+		parent := filepath.Dir(dir)
+		if parent == dir {
+			return false
+		}
+		dir = parent
+	}
+}
+
 var errNoPackageName = errors.New("failed to determine the destination package name")
 
 func makePackage(path string) (*packages.Package, error) {
diff --git a/pkg/package.go b/pkg/package.go
index 6b54eba..b6449e4 100644
--- a/pkg/package.go
+++ b/pkg/package.go
@@ -36,6 +36,13 @@ func Load(path string) (*packages.Package, error) {
 	return pkgs[0], nil
 }
 
+// IsLoadError tells whether the error returned from Load is about the package itself, i.e. there's no such package
+func IsLoadError(err error) bool {
+	var loadErr packages.Error
+
+	return errors.Is(err, errPackageNotFound) || errors.As(err, &loadErr)
+}
+
 // AST returns package's abstract syntax tree
 func AST(fs *token.FileSet, p *packages.Package) (*Package, error) {
 	dir := Dir(p)
-- 
2.43.0


From 0db37c0db426315bb71709cad68be245f1dad129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:53 +0000
Subject: [PATCH 18/37] fix: generation into the working directory without go
 files

---
 generator/generator.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/generator/generator.go b/generator/generator.go
index a553cc8..19f219c 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -321,7 +321,13 @@ func insideModule() bool {
 var errNoPackageName = errors.New("failed to determine the destination package name")
 
 func makePackage(path string) (*packages.Package, error) {
-	name := filepath.Base(path)
+	// the path may be the one of the working directory
+	absPath, err := filepath.Abs(path)
+	if err != nil {
+		return nil, err
+	}
+
+	name := filepath.Base(absPath)
 	if name == string(filepath.Separator) || name == "." {
 		return nil, errNoPackageName
 	}
-- 
2.43.0


From 7e39d854eff3ad2c1a63a0a2b2cbbbc41674aeb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:30 +0000
Subject: [PATCH 19/37] fix: take unreadable directories for parts of a module
 when loading the destination package fails

---
 generator/generator.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/generator/generator.go b/generator/generator.go
index 19f219c..076f7d3 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -296,16 +296,18 @@ func loadDestinationPackage(path string) (*packages.Package, error) {
 }
 
 // insideModule tells whether the working directory belongs to a module or a workspace,
-// otherwise it's not possible to load packages by their directories
+// otherwise it's not possible to load packages by their directories.
+// When there's no way to find it out the answer is yes, so that the failure
+// to load a package isn't taken for an absent package
 func insideModule() bool {
 	dir, err := filepath.Abs(".")
 	if err != nil {
-		return false
+		return true
 	}
 
 	for {
 		for _, name := range []string{"go.mod", "go.work"} {
-			if _, err := os.Stat(filepath.Join(dir, name)); err == nil {
+			if _, err := os.Stat(filepath.Join(dir, name)); !os.IsNotExist(err) {
 				return true
 			}
 		}
-- 
2.43.0


From 071ca6949ed5529b1366f5f12583ee02f095376a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:14 +0000
Subject: [PATCH 20/37] fix: qualify types inside parenthesised types

---
 printer/printer.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/printer/printer.go b/printer/printer.go
index c98bf05..3d85e39 100644
--- a/printer/printer.go
+++ b/printer/printer.go
@@ -71,6 +71,8 @@ func (p *Printer) PrintType(node ast.Node) (string, error) {
 		return p.printGeneric(t)
 	case *ast.IndexListExpr:
 		return p.printGenericList(t)
+	case *ast.ParenExpr:
+		return p.printParen(t)
 	}
 
 	err := printer.Fprint(p.buf, p.fs, node)
@@ -242,3 +244,12 @@ func (p *Printer) fieldList(fl *ast.FieldList) ([]string, error) {
 
 	return params, nil
 }
+
+func (p *Printer) printParen(pe *ast.ParenExpr) (string, error) {
+	inner, err := p.PrintType(pe.X)
+	if err != nil {
+		return "", err
+	}
+
+	return "(" + inner + ")", nil
+}
-- 
2.43.0


From b61192be738f7116d6ff0eb353173b5ce4bcde1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:14 +0000
Subject: [PATCH 21/37] fix: qualify types inside interface literals

---
 printer/printer.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/printer/printer.go b/printer/printer.go
index 3d85e39..1b1551d 100644
--- a/printer/printer.go
+++ b/printer/printer.go
@@ -73,6 +73,8 @@ func (p *Printer) PrintType(node ast.Node) (string, error) {
 		return p.printGenericList(t)
 	case *ast.ParenExpr:
 		return p.printParen(t)
+	case *ast.InterfaceType:
+		return p.printInterface(t)
 	}
 
 	err := printer.Fprint(p.buf, p.fs, node)
@@ -253,3 +255,25 @@ func (p *Printer) printParen(pe *ast.ParenExpr) (string, error) {
 
 	return "(" + inner + ")", nil
 }
+
+func (p *Printer) printInterface(it *ast.InterfaceType) (string, error) {
+	if it.Methods == nil || len(it.Methods.List) == 0 {
+		return "interface{}", nil
+	}
+
+	elems := make([]string, 0, len(it.Methods.List))
+	for _, field := range it.Methods.List {
+		elem, err := p.PrintType(field.Type)
+		if err != nil {
+			return "", err
+		}
+
+		if len(field.Names) > 0 {
+			elem = field.Names[0].Name + strings.TrimPrefix(elem, "func")
+		}
+
+		elems = append(elems, elem)
+	}
+
+	return "interface{\n" + strings.Join(elems, "\n") + "\n}", nil
+}
-- 
2.43.0


From 7fd74ffd0ee473958cecd15584b1410d9514f3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:14 +0000
Subject: [PATCH 22/37] fix: keep tags of struct fields in signatures

---
 printer/printer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/printer/printer.go b/printer/printer.go
index 1b1551d..5fd7e29 100644
--- a/printer/printer.go
+++ b/printer/printer.go
@@ -241,6 +241,10 @@ func (p *Printer) fieldList(fl *ast.FieldList) ([]string, error) {
 			return nil, err
 		}
 
+		if param.Tag != nil {
+			paramType += " " + param.Tag.Value
+		}
+
 		params = append(params, strings.Join(names, ", ")+" "+paramType)
 	}
 
-- 
2.43.0


From e3ddef09266874616047e0dc79a6d3faf5ea94d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:14 +0000
Subject: [PATCH 23/37] fix: qualify constants used as array lengths

---
 printer/printer.go | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/printer/printer.go b/printer/printer.go
index 5fd7e29..f03d296 100644
--- a/printer/printer.go
+++ b/printer/printer.go
@@ -87,7 +87,7 @@ func (p *Printer) printArray(a *ast.ArrayType) (string, error) {
 		return "", err
 	}
 
-	l, err := p.Print(a.Len)
+	l, err := p.printLen(a.Len)
 	if err != nil {
 		return "", err
 	}
@@ -95,6 +95,38 @@ func (p *Printer) printArray(a *ast.ArrayType) (string, error) {
 	return "[" + l + "]" + sliceType, nil
 }
 
+// printLen prints length of an array, constants of the source package are qualified
+func (p *Printer) printLen(e ast.Expr) (string, error) {
+	switch t := e.(type) {
+	case *ast.Ident:
+		if len(p.typesPrefix) == 0 {
+			return t.Name, nil
+		}
+		if !t.IsExported() {
+			return "", errors.Wrap(errUnexportedConst, t.Name)
+		}
+		return p.typesPrefix + "." + t.Name, nil
+	case *ast.ParenExpr:
+		x, err := p.printLen(t.X)
+		if err != nil {
+			return "", err
+		}
+		return "(" + x + ")", nil
+	case *ast.BinaryExpr:
+		x, err := p.printLen(t.X)
+		if err != nil {
+			return "", err
+		}
+		y, err := p.printLen(t.Y)
+		if err != nil {
+			return "", err
+		}
+		return x + " " + t.Op.String() + " " + y, nil
+	}
+
+	return p.Print(e)
+}
+
 var chanTypes = map[ast.ChanDir]string{
 	ast.SEND | ast.RECV: "chan ",
 	ast.SEND:            "chan<- ",
@@ -136,6 +168,7 @@ func (p *Printer) printMap(mt *ast.MapType) (string, error) {
 }
 
 var errUnexportedType = errors.New("unexported type")
+var errUnexportedConst = errors.New("unexported constant")
 
 func (p *Printer) printIdent(i *ast.Ident) (string, error) {
 	for _, ts := range p.types {
-- 
2.43.0


From 8c12557ba7487669226f609b769dd481526e2b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:14 +0000
Subject: [PATCH 24/37] fix: replace type parameters nested in other types

---
 generator/generator.go |  1 +
 generator/generics.go  | 17 +++++++++++++++++
 printer/printer.go     | 15 +++++++++++++++
 3 files changed, 33 insertions(+)

diff --git a/generator/generator.go b/generator/generator.go
index 076f7d3..51f887e 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -609,6 +609,7 @@ func processInterface(it *ast.InterfaceType, targetInput targetProcessInput) (me
 	methods = make(methodsList, len(it.Methods.List))
 
 	pr := printer.New(targetInput.fileSet, targetInput.types, targetInput.typesPrefix)
+	pr.SetTypeArgs(targetInput.genericTypes.typeArgs(targetInput.genericParams))
 
 	for _, field := range it.Methods.List {
 		var embeddedMethods methodsList
diff --git a/generator/generics.go b/generator/generics.go
index 7d22c27..5dcccb2 100644
--- a/generator/generics.go
+++ b/generator/generics.go
@@ -78,6 +78,23 @@ func (g genericTypes) buildVars() (string, string) {
 	return buildGenericsWithBrackets(types), buildGenericsWithBrackets(params)
 }
 
+// typeArgs maps names of the type parameters to the type arguments
+func (g genericTypes) typeArgs(params genericParams) map[string]string {
+	args := make(map[string]string, len(params))
+
+	i := 0
+	for _, genType := range g {
+		for _, name := range genType.Names {
+			if i < len(params) {
+				args[name] = params[i].String()
+			}
+			i++
+		}
+	}
+
+	return args
+}
+
 func buildGenericTypesFromSpec(ts *ast.TypeSpec, allTypes []*ast.TypeSpec, typesPrefix string) (types genericTypes) {
 	if ts.TypeParams == nil {
 		return
diff --git a/printer/printer.go b/printer/printer.go
index f03d296..c1dcc0d 100644
--- a/printer/printer.go
+++ b/printer/printer.go
@@ -16,6 +16,7 @@ type Printer struct {
 	types       []*ast.TypeSpec
 	typesPrefix string
 	buf         *bytes.Buffer
+	typeArgs    map[string]string
 }
 
 // New returns Printer
@@ -31,6 +32,11 @@ func New(fs *token.FileSet, typeSpecs []*ast.TypeSpec, typesPrefix string) *Prin
 	}
 }
 
+// SetTypeArgs makes PrintType print type arguments in place of the type parameters
+func (p *Printer) SetTypeArgs(typeArgs map[string]string) {
+	p.typeArgs = typeArgs
+}
+
 // Print prints AST node as is
 func (p *Printer) Print(node ast.Node) (string, error) {
 	if node == nil {
@@ -139,6 +145,11 @@ func (p *Printer) printChan(c *ast.ChanType) (string, error) {
 		return "", err
 	}
 
+	if strings.HasPrefix(valueType, "<-") {
+		// a receive-only channel in place of a type parameter
+		valueType = "(" + valueType + ")"
+	}
+
 	return chanTypes[c.Dir] + valueType, nil
 }
 
@@ -171,6 +182,10 @@ var errUnexportedType = errors.New("unexported type")
 var errUnexportedConst = errors.New("unexported constant")
 
 func (p *Printer) printIdent(i *ast.Ident) (string, error) {
+	if arg, ok := p.typeArgs[i.Name]; ok {
+		return arg, nil
+	}
+
 	for _, ts := range p.types {
 
 		if i.Name == ts.Name.Name {
-- 
2.43.0


From 6bb0a4313ee3c8ea30e425f3ac91d206fc430d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:14 +0000
Subject: [PATCH 25/37] fix: methods of an embedded error interface

---
 generator/generator.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/generator/generator.go b/generator/generator.go
index 51f887e..401fe07 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -691,6 +691,19 @@ func mergeMethods(methods, embeddedMethods methodsList) (methodsList, error) {
 	return result, nil
 }
 
+// errorMethod is the method of the predeclared type error
+var errorMethod = Method{Name: "Error", Results: ParamsSlice{{Name: "s1", Type: "string"}}}
+
+func declaresType(types []*ast.TypeSpec, name string) bool {
+	for _, ts := range types {
+		if ts.Name.Name == name {
+			return true
+		}
+	}
+
+	return false
+}
+
 var errNotAnInterface = errors.New("embedded type is not an interface")
 
 func processIdent(i *ast.Ident, input targetProcessInput, checkInterface bool) (methodsList, error) {
@@ -714,6 +727,10 @@ func processIdent(i *ast.Ident, input targetProcessInput, checkInterface bool) (
 	}
 
 	if embeddedInterface == nil {
+		if i.Name == "error" && !declaresType(input.types, i.Name) {
+			return methodsList{"Error": errorMethod}, nil
+		}
+
 		return nil, nil
 	}
 
-- 
2.43.0


From e6dde182407ea35599b5575903a5f9df623090fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:14 +0000
Subject: [PATCH 26/37] fix: methods of embedded interface literals

---
 generator/generator.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/generator/generator.go b/generator/generator.go
index 401fe07..ccb7e1c 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -584,6 +584,13 @@ func processEmbedded(t ast.Expr, pr typePrinter, input targetProcessInput, check
 				}
 			}
 		}
+	case *ast.InterfaceType:
+		genericParam.Name, err = pr.PrintType(v)
+		if err != nil {
+			return
+		}
+		embeddedMethods, err = processInterface(v, input)
+		return
 	default:
 		x = v
 	}
-- 
2.43.0


From d698a9f008a284df738b61e74365f50141207ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:14 +0000
Subject: [PATCH 27/37] fix: imports used by embedded interfaces of other files
 and packages

---
 generator/generator.go | 114 ++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 112 insertions(+), 2 deletions(-)

diff --git a/generator/generator.go b/generator/generator.go
index ccb7e1c..4851db3 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -7,6 +7,7 @@ import (
 	"go/token"
 	"io"
 	"os"
+	"path"
 	"path/filepath"
 	"sort"
 	"strings"
@@ -144,6 +145,7 @@ type processInput struct {
 	astPackage     *pkg.Package
 	targetName     string
 	genericParams  genericParams
+	usedImports    *usedImports
 }
 
 type targetProcessInput struct {
@@ -154,6 +156,72 @@ type targetProcessInput struct {
 	genericTypes genericTypes
 }
 
+// usedImports collects the imports used by the methods of an interface and of the interfaces
+// it embeds, which can be declared in other files and packages
+type usedImports struct {
+	names []string
+	specs []*ast.ImportSpec
+}
+
+func (u *usedImports) add(node ast.Node, input targetProcessInput) {
+	if u == nil {
+		return
+	}
+
+	ast.Inspect(node, func(n ast.Node) bool {
+		sel, ok := n.(*ast.SelectorExpr)
+		if !ok {
+			return true
+		}
+
+		ident, ok := sel.X.(*ast.Ident)
+		if !ok {
+			return true
+		}
+
+		for _, spec := range input.imports {
+			if importName(spec, input.currentPackage) == ident.Name {
+				u.names = append(u.names, ident.Name)
+				u.specs = append(u.specs, spec)
+			}
+		}
+
+		return true
+	})
+}
+
+// appendTo appends collected imports to the imports of a file unless their names are already taken
+func (u *usedImports) appendTo(imports []*ast.ImportSpec, currentPackage *packages.Package) []*ast.ImportSpec {
+	taken := make(map[string]bool, len(imports))
+	for _, spec := range imports {
+		taken[importName(spec, currentPackage)] = true
+	}
+
+	for i, name := range u.names {
+		if !taken[name] {
+			taken[name] = true
+			imports = append(imports[:len(imports):len(imports)], u.specs[i])
+		}
+	}
+
+	return imports
+}
+
+func importName(spec *ast.ImportSpec, currentPackage *packages.Package) string {
+	if spec.Name != nil {
+		return spec.Name.Name
+	}
+
+	importPath := unquote(spec.Path.Value)
+	if currentPackage != nil {
+		if p, ok := currentPackage.Imports[importPath]; ok && p.Name != "" {
+			return p.Name
+		}
+	}
+
+	return path.Base(importPath)
+}
+
 type processOutput struct {
 	genericTypes genericTypes
 	methods      methodsList
@@ -398,6 +466,11 @@ func findTarget(input processInput) (output processOutput, err error) {
 		return processOutput{}, errors.Wrap(errTargetNotFound, input.targetName)
 	}
 
+	isEmbedded := input.usedImports != nil
+	if !isEmbedded {
+		input.usedImports = &usedImports{}
+	}
+
 	output.imports = imports
 	output.genericTypes = buildGenericTypesFromSpec(ts, types, input.astPackage.Name)
 	output.methods, err = findMethods(ts, targetProcessInput{
@@ -411,6 +484,10 @@ func findTarget(input processInput) (output processOutput, err error) {
 		return processOutput{}, err
 	}
 
+	if !isEmbedded {
+		output.imports = input.usedImports.appendTo(output.imports, input.currentPackage)
+	}
+
 	return
 }
 
@@ -428,7 +505,9 @@ func findMethods(selectedType *ast.TypeSpec, input targetProcessInput) (methods
 		}
 		srcPackagePath := findSourcePackage(ident, input.imports)
 
-		return getMethods(t, srcPackagePath)
+		input.usedImports.add(t, input)
+
+		return getMethods(t, srcPackagePath, input.usedImports)
 	case *ast.Ident:
 		if t.Obj == nil {
 			return
@@ -441,7 +520,7 @@ func findMethods(selectedType *ast.TypeSpec, input targetProcessInput) (methods
 	return
 }
 
-func getMethods(sel *ast.SelectorExpr, srcPackagePath string) (methods methodsList, err error) {
+func getMethods(sel *ast.SelectorExpr, srcPackagePath string, usedImports *usedImports) (methods methodsList, err error) {
 	srcPkg, err := pkg.Load(srcPackagePath)
 	if err != nil {
 		return nil, errors.Wrapf(err, "cant load %s package", srcPackagePath)
@@ -452,12 +531,17 @@ func getMethods(sel *ast.SelectorExpr, srcPackagePath string) (methods methodsLi
 	if err != nil {
 		return nil, errors.Wrapf(err, "cant ast %s package", srcPackagePath)
 	}
+	if ident, ok := sel.X.(*ast.Ident); ok {
+		// the package can be imported under another name
+		srcAst.Name = ident.Name
+	}
 
 	out, err := findTarget(processInput{
 		fileSet:        fs,
 		currentPackage: srcPkg,
 		astPackage:     srcAst,
 		targetName:     sel.Sel.Name,
+		usedImports:    usedImports,
 	})
 	if err != nil {
 		return nil, errors.Wrapf(err, "failed to find target in %s package", srcPackagePath)
@@ -622,6 +706,8 @@ func processInterface(it *ast.InterfaceType, targetInput targetProcessInput) (me
 		var embeddedMethods methodsList
 		var err error
 
+		targetInput.usedImports.add(field.Type, targetInput)
+
 		switch v := field.Type.(type) {
 		case *ast.FuncType:
 			var method *Method
@@ -667,6 +753,8 @@ func processSelector(se *ast.SelectorExpr, input targetProcessInput) (methodsLis
 	if err != nil {
 		return nil, errors.Wrap(err, "failed to import package")
 	}
+	// the package can be imported under another name
+	astPkg.Name = packageSelector
 
 	output, err := findTarget(processInput{
 		fileSet:        input.fileSet,
@@ -674,6 +762,7 @@ func processSelector(se *ast.SelectorExpr, input targetProcessInput) (methodsLis
 		astPackage:     astPkg,
 		targetName:     selectedName,
 		genericParams:  input.genericParams,
+		usedImports:    input.usedImports,
 	})
 
 	return output.methods, err
@@ -722,6 +811,7 @@ func processIdent(i *ast.Ident, input targetProcessInput, checkInterface bool) (
 			embeddedInterface, ok = t.Type.(*ast.InterfaceType)
 			if ok {
 				genericsTypes = buildGenericTypesFromSpec(t, input.types, input.typesPrefix)
+				input.imports = fileImports(input.astPackage, t, input.imports)
 				break
 			}
 
@@ -745,6 +835,26 @@ func processIdent(i *ast.Ident, input targetProcessInput, checkInterface bool) (
 	return processInterface(embeddedInterface, input)
 }
 
+// fileImports returns imports of the file that declares the type
+func fileImports(p *pkg.Package, ts *ast.TypeSpec, defaultImports []*ast.ImportSpec) []*ast.ImportSpec {
+	if p == nil {
+		return defaultImports
+	}
+
+	for _, f := range p.Files {
+		if f == nil {
+			continue
+		}
+		for _, spec := range typeSpecs(f) {
+			if spec == ts {
+				return f.Imports
+			}
+		}
+	}
+
+	return defaultImports
+}
+
 var errUnknownSelector = errors.New("unknown selector")
 
 func findImportPathForName(name string, imports []*ast.ImportSpec, currentPackage *packages.Package) (string, error) {
-- 
2.43.0


From cf6f0716d2e6b68aca775ca743704e2fffac205c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:14 +0000
Subject: [PATCH 28/37] fix: prefer declarations of the files that belong to
 the build

---
 generator/generator.go | 10 ++++++++--
 pkg/package.go         | 24 ++++++++++++++++++++++--
 2 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/generator/generator.go b/generator/generator.go
index 4851db3..b4547b5 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -575,13 +575,19 @@ func iterateFiles(p *pkg.Package, name string) (selectedType *ast.TypeSpec, impo
 	for fileName := range p.Files {
 		names = append(names, fileName)
 	}
-	sort.Strings(names)
+	// files excluded by build constraints come last, the types they declare give way to the ones of the built files
+	sort.Slice(names, func(i, j int) bool {
+		if p.Excluded[names[i]] != p.Excluded[names[j]] {
+			return !p.Excluded[names[i]]
+		}
+		return names[i] < names[j]
+	})
 
 	for _, fileName := range names {
 		if f := p.Files[fileName]; f != nil {
 			for _, ts := range typeSpecs(f) {
 				types = append(types, ts)
-				if ts.Name.Name == name {
+				if ts.Name.Name == name && selectedType == nil {
 					selectedType = ts
 					imports = f.Imports
 					continue
diff --git a/pkg/package.go b/pkg/package.go
index b6449e4..5624e19 100644
--- a/pkg/package.go
+++ b/pkg/package.go
@@ -6,6 +6,7 @@ import (
 	"go/parser"
 	"go/token"
 	"path/filepath"
+	"strings"
 
 	"golang.org/x/tools/go/packages"
 )
@@ -15,6 +16,9 @@ var errPackageNotFound = errors.New("package not found")
 type Package struct {
 	Name  string
 	Files map[string]*ast.File
+
+	// Excluded are the files that aren't parts of the build because of the build constraints
+	Excluded map[string]bool
 }
 
 // Load loads package by its import path
@@ -54,14 +58,30 @@ func AST(fs *token.FileSet, p *packages.Package) (*Package, error) {
 
 	if ap, ok := pkgs[p.Name]; ok {
 		return &Package{
-			Name:  p.Name,
-			Files: ap.Files,
+			Name:     p.Name,
+			Files:    ap.Files,
+			Excluded: excludedFiles(p, ap.Files),
 		}, nil
 	}
 
 	return &Package{Name: p.Name}, nil
 }
 
+func excludedFiles(p *packages.Package, files map[string]*ast.File) map[string]bool {
+	excluded := make(map[string]bool)
+	for name := range files {
+		if !strings.HasSuffix(name, "_test.go") {
+			excluded[name] = true
+		}
+	}
+
+	for _, name := range p.GoFiles {
+		delete(excluded, name)
+	}
+
+	return excluded
+}
+
 // Dir returns absolute path of the package in a filesystem
 func Dir(p *packages.Package) string {
 	if len(p.GoFiles) > 0 {
-- 
2.43.0


From fab95cfe6ca8e2ff7324dc496671ed399c76d181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:14 +0000
Subject: [PATCH 29/37] fix: parameters named like variables of the timeout and
 elasticapm templates

---
 templates/elasticapm | 6 +++---
 templates/timeout    | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/templates/elasticapm b/templates/elasticapm
index 1422325..d971f2f 100644
--- a/templates/elasticapm
+++ b/templates/elasticapm
@@ -61,18 +61,18 @@ func New{{$decorator}}(base {{.Interface.Type}}, opts ...{{$decorator}}Option) {
     // {{$method.Name}} implements {{$.Interface.Type}}
     func (_d {{$decorator}}) {{$method.Declaration}} {
         {{- if $method.AcceptsContext }}
-            span, ctx := _d.startSpan(ctx, "{{ $span_name }}", _d.spanType)
+            _span, ctx := _d.startSpan(ctx, "{{ $span_name }}", _d.spanType)
             defer func() {
                 {{- if $method.ReturnsError -}}
                     if err != nil {
                         _d.captureError(ctx, err)
                     }
                 {{- end }}
-                _d.endSpan(span)
+                _d.endSpan(_span)
             }()
             {{- range $param := $method.Params -}}
                 {{- if not (eq $param.Name "ctx") -}}
-                    _d.setLabel(span, "{{ (snake $param.Name) }}", {{ $param.Name }})
+                    _d.setLabel(_span, "{{ (snake $param.Name) }}", {{ $param.Name }})
                 {{- end}}
             {{ end }}
         {{ end }}
diff --git a/templates/timeout b/templates/timeout
index ed84503..f94d076 100644
--- a/templates/timeout
+++ b/templates/timeout
@@ -29,10 +29,10 @@ func New{{$decorator}} (base {{.Interface.Type}}, config {{$decorator}}Config) {
   {{if $method.AcceptsContext  }}
     // {{$method.Name}} implements {{$.Interface.Type}}
     func (_d {{$decorator}}) {{$method.Declaration}} {
-      var cancelFunc func()
+      var _cancelFunc func()
       if _d.config.{{$method.Name}}Timeout > 0 {
-        ctx, cancelFunc = context.WithTimeout(ctx, _d.config.{{$method.Name}}Timeout)
-        defer cancelFunc()
+        ctx, _cancelFunc = context.WithTimeout(ctx, _d.config.{{$method.Name}}Timeout)
+        defer _cancelFunc()
       }
       {{$method.Pass (printf "_d.%s." $.Interface.Name) }}
     }
-- 
2.43.0


From fbaa01f8eb40b978b439c2c7de6aefaf75dda3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:35 +0000
Subject: [PATCH 30/37] fix: interfaces declared and embedded by way of other
 interfaces

Aliases of and types defined as interfaces of other files and instantiated
generic interfaces had no methods or couldn't be embedded
---
 generator/generator.go | 84 +++++++++++++++++++++++++++++++-----------
 1 file changed, 62 insertions(+), 22 deletions(-)

diff --git a/generator/generator.go b/generator/generator.go
index b4547b5..f2762fa 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -492,32 +492,24 @@ func findTarget(input processInput) (output processOutput, err error) {
 }
 
 func findMethods(selectedType *ast.TypeSpec, input targetProcessInput) (methods methodsList, err error) {
-	switch t := selectedType.Type.(type) {
-	case *ast.InterfaceType:
-		methods, err = processInterface(t, input)
-		if err != nil {
-			return methodsList{}, err
-		}
-	case *ast.SelectorExpr:
-		ident, ok := t.X.(*ast.Ident)
+	if sel, ok := selectedType.Type.(*ast.SelectorExpr); ok {
+		ident, ok := sel.X.(*ast.Ident)
 		if !ok {
-			return
+			return nil, nil
 		}
 		srcPackagePath := findSourcePackage(ident, input.imports)
 
-		input.usedImports.add(t, input)
+		input.usedImports.add(sel, input)
 
-		return getMethods(t, srcPackagePath, input.usedImports)
-	case *ast.Ident:
-		if t.Obj == nil {
-			return
-		}
-		if ts, ok := t.Obj.Decl.(*ast.TypeSpec); ok {
-			return findMethods(ts, input)
-		}
+		return getMethods(sel, srcPackagePath, input.usedImports)
 	}
 
-	return
+	it := interfaceOf(selectedType.Type, input.types, nil)
+	if it == nil {
+		return nil, nil
+	}
+
+	return processInterface(it, input)
 }
 
 func getMethods(sel *ast.SelectorExpr, srcPackagePath string, usedImports *usedImports) (methods methodsList, err error) {
@@ -570,6 +562,55 @@ func findSourcePackage(ident *ast.Ident, imports []*ast.ImportSpec) string {
 	return ""
 }
 
+// interfaceOf returns the interface denoted by the type expression or nil if it's not an interface,
+// a reference to another interface is equivalent to an interface that embeds it
+func interfaceOf(e ast.Expr, types []*ast.TypeSpec, visited []*ast.TypeSpec) *ast.InterfaceType {
+	switch t := e.(type) {
+	case *ast.InterfaceType:
+		return t
+	case *ast.ParenExpr:
+		return interfaceOf(t.X, types, visited)
+	case *ast.SelectorExpr:
+		return embeds(t)
+	case *ast.IndexExpr:
+		if interfaceOf(t.X, types, visited) != nil {
+			return embeds(t)
+		}
+	case *ast.IndexListExpr:
+		if interfaceOf(t.X, types, visited) != nil {
+			return embeds(t)
+		}
+	case *ast.Ident:
+		for _, ts := range types {
+			if ts.Name.Name != t.Name {
+				continue
+			}
+
+			for _, v := range visited {
+				if v == ts {
+					return nil
+				}
+			}
+
+			if interfaceOf(ts.Type, types, append(visited, ts)) != nil {
+				return embeds(t)
+			}
+
+			return nil
+		}
+
+		if t.Name == "error" {
+			return embeds(t)
+		}
+	}
+
+	return nil
+}
+
+func embeds(e ast.Expr) *ast.InterfaceType {
+	return &ast.InterfaceType{Methods: &ast.FieldList{List: []*ast.Field{{Type: e}}}}
+}
+
 func iterateFiles(p *pkg.Package, name string) (selectedType *ast.TypeSpec, imports []*ast.ImportSpec, types []*ast.TypeSpec) {
 	names := make([]string, 0, len(p.Files))
 	for fileName := range p.Files {
@@ -813,9 +854,8 @@ func processIdent(i *ast.Ident, input targetProcessInput, checkInterface bool) (
 	var genericsTypes genericTypes
 	for _, t := range input.types {
 		if t.Name.Name == i.Name {
-			var ok bool
-			embeddedInterface, ok = t.Type.(*ast.InterfaceType)
-			if ok {
+			embeddedInterface = interfaceOf(t.Type, input.types, nil)
+			if embeddedInterface != nil {
 				genericsTypes = buildGenericTypesFromSpec(t, input.types, input.typesPrefix)
 				input.imports = fileImports(input.astPackage, t, input.imports)
 				break
-- 
2.43.0


From 427ecbd5b606efe9e75ee242899c901b8e40b33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:41 +0000
Subject: [PATCH 31/37] fix: aliases of interfaces of packages that aren't
 named as their directories

---
 generator/generator.go | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/generator/generator.go b/generator/generator.go
index f2762fa..b613ccb 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -497,7 +497,7 @@ func findMethods(selectedType *ast.TypeSpec, input targetProcessInput) (methods
 		if !ok {
 			return nil, nil
 		}
-		srcPackagePath := findSourcePackage(ident, input.imports)
+		srcPackagePath := findSourcePackage(ident, input.imports, input.currentPackage)
 
 		input.usedImports.add(sel, input)
 
@@ -542,20 +542,10 @@ func getMethods(sel *ast.SelectorExpr, srcPackagePath string, usedImports *usedI
 	return out.methods, nil
 }
 
-func findSourcePackage(ident *ast.Ident, imports []*ast.ImportSpec) string {
+func findSourcePackage(ident *ast.Ident, imports []*ast.ImportSpec, currentPackage *packages.Package) string {
 	for _, imp := range imports {
-		cleanPath := strings.Trim(imp.Path.Value, "\"")
-		if imp.Name != nil {
-			if ident.Name == imp.Name.Name {
-				return cleanPath
-			}
-
-			continue
-		}
-
-		slash := strings.LastIndex(cleanPath, "/")
-		if ident.Name == cleanPath[slash+1:] {
-			return cleanPath
+		if importName(imp, currentPackage) == ident.Name {
+			return strings.Trim(imp.Path.Value, "\"")
 		}
 	}
 
-- 
2.43.0


From acaf0e4b856f973cc8664d7e8b58ed7ff12057ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:02 +0000
Subject: [PATCH 32/37] fix: names of unnamed parameters whose type's name
 begins with a letter outside ASCII

---
 generator/types.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/generator/types.go b/generator/types.go
index c49ddd0..5a31631 100644
--- a/generator/types.go
+++ b/generator/types.go
@@ -4,6 +4,8 @@ import (
 	"fmt"
 	"go/ast"
 	"strings"
+	"unicode"
+	"unicode/utf8"
 )
 
 type typePrinter interface {
@@ -212,7 +214,8 @@ func typePrefix(e ast.Expr) string {
 	case *ast.FuncType:
 		return "f"
 	case *ast.Ident:
-		return strings.ToLower(t.Name[0:1])
+		r, _ := utf8.DecodeRuneInString(t.Name)
+		return string(unicode.ToLower(r))
 	}
 
 	return "p"
-- 
2.43.0


From 49197c0a96873b503c8150888f7a31ee45024acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:58 +0000
Subject: [PATCH 33/37] fix: a type called Context of another package is not
 taken for a context

---
 generator/generator.go | 54 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 54 insertions(+)

diff --git a/generator/generator.go b/generator/generator.go
index b613ccb..d132760 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -750,6 +750,9 @@ func processInterface(it *ast.InterfaceType, targetInput targetProcessInput) (me
 			var method *Method
 
 			method, err = NewMethod(field.Names[0].Name, field, pr, targetInput.genericTypes, targetInput.genericParams)
+			if err == nil && method.AcceptsContext {
+				method.AcceptsContext, err = isContext(v.Params.List[0].Type, targetInput)
+			}
 			if err == nil {
 				methods[field.Names[0].Name] = *method
 				continue
@@ -893,6 +896,57 @@ func fileImports(p *pkg.Package, ts *ast.TypeSpec, defaultImports []*ast.ImportS
 
 var errUnknownSelector = errors.New("unknown selector")
 
+// isContext tells whether a type called Context can be used as the one of package context,
+// types of other packages can have this name too
+func isContext(typ ast.Expr, input targetProcessInput) (bool, error) {
+	sel, ok := typ.(*ast.SelectorExpr)
+	if !ok {
+		return false, nil
+	}
+
+	ident, ok := sel.X.(*ast.Ident)
+	if !ok {
+		return false, nil
+	}
+
+	importPath := findSourcePackage(ident, input.imports, input.currentPackage)
+	if importPath == "" || path.Base(importPath) == "context" {
+		return true, nil
+	}
+
+	p, err := pkg.Load(importPath)
+	if err != nil {
+		if pkg.IsLoadError(err) {
+			return true, nil
+		}
+		return false, errors.Wrapf(err, "cant load %s package", importPath)
+	}
+
+	astPackage, err := pkg.AST(token.NewFileSet(), p)
+	if err != nil {
+		return false, errors.Wrapf(err, "cant ast %s package", importPath)
+	}
+
+	ts, _, _ := iterateFiles(astPackage, sel.Sel.Name)
+	if ts == nil || ts.Assign.IsValid() {
+		return true, nil
+	}
+
+	switch t := ts.Type.(type) {
+	case *ast.InterfaceType:
+		for _, m := range t.Methods.List {
+			if len(m.Names) == 0 || m.Names[0].Name == "Done" {
+				return true, nil
+			}
+		}
+		return false, nil
+	case *ast.SelectorExpr, *ast.Ident:
+		return true, nil
+	}
+
+	return false, nil
+}
+
 func findImportPathForName(name string, imports []*ast.ImportSpec, currentPackage *packages.Package) (string, error) {
 	for _, i := range imports {
 		if i.Name != nil && i.Name.Name == name {
-- 
2.43.0


From 9ffc84d6a1b83147069ad7517dd9b87f4fdda18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:24 +0000
Subject: [PATCH 34/37] fix: imports of the source file redeclared packages
 imported by a template

---
 generator/generator.go | 63 +++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 62 insertions(+), 1 deletion(-)

diff --git a/generator/generator.go b/generator/generator.go
index d132760..ed5efd5 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"fmt"
 	"go/ast"
+	"go/parser"
 	"go/token"
 	"io"
 	"os"
@@ -33,6 +34,7 @@ type Generator struct {
 	srcPackage     *packages.Package
 	dstPackage     *packages.Package
 	methods        methodsList
+	unusedImports  []*ast.ImportSpec
 	interfaceType  string
 	genericTypes   string
 	genericParams  string
@@ -207,6 +209,23 @@ func (u *usedImports) appendTo(imports []*ast.ImportSpec, currentPackage *packag
 	return imports
 }
 
+// unused returns the imports of a file that aren't used by the interface
+func (u *usedImports) unused(imports []*ast.ImportSpec, currentPackage *packages.Package) []*ast.ImportSpec {
+	used := make(map[string]bool, len(u.names))
+	for _, name := range u.names {
+		used[name] = true
+	}
+
+	var result []*ast.ImportSpec
+	for _, spec := range imports {
+		if name := importName(spec, currentPackage); !used[name] && name != "_" && name != "." {
+			result = append(result, spec)
+		}
+	}
+
+	return result
+}
+
 func importName(spec *ast.ImportSpec, currentPackage *packages.Package) string {
 	if spec.Name != nil {
 		return spec.Name.Name
@@ -226,6 +245,8 @@ type processOutput struct {
 	genericTypes genericTypes
 	methods      methodsList
 	imports      []*ast.ImportSpec
+	// unusedImports are the imports of the file that aren't used by the interface
+	unusedImports []*ast.ImportSpec
 }
 
 var errEmptyInterface = errors.New("interface has no methods")
@@ -331,6 +352,7 @@ func NewGenerator(options Options) (*Generator, error) {
 		genericTypes:   genericTypes,
 		genericParams:  genericParams,
 		methods:        output.methods,
+		unusedImports:  output.unusedImports,
 		localPrefix:    options.LocalPrefix,
 	}, nil
 }
@@ -438,7 +460,7 @@ func (g Generator) Generate(w io.Writer) error {
 		return err
 	}
 
-	processedSource, err := processImports(g.Options.OutputFile, buf.Bytes(), g.localPrefix)
+	processedSource, err := processImports(g.Options.OutputFile, dropRedeclaredImports(buf.Bytes(), g.unusedImports, g.srcPackage), g.localPrefix)
 	if err != nil {
 		return errors.Wrapf(err, "failed to format generated code:\n%s", buf)
 	}
@@ -447,6 +469,44 @@ func (g Generator) Generate(w io.Writer) error {
 	return err
 }
 
+// dropRedeclaredImports removes imports that were copied from the source file, aren't used by the
+// interface and have a name under which the template imports another package
+func dropRedeclaredImports(src []byte, unused []*ast.ImportSpec, srcPackage *packages.Package) []byte {
+	fs := token.NewFileSet()
+	file, err := parser.ParseFile(fs, "", src, parser.ImportsOnly)
+	if err != nil {
+		// to be reported along with the other errors of the source
+		return src
+	}
+
+	for _, spec := range unused {
+		var copied []*ast.ImportSpec
+		redeclared := false
+		for _, im := range file.Imports {
+			if importName(im, srcPackage) != importName(spec, srcPackage) {
+				continue
+			}
+			if im.Path.Value == spec.Path.Value {
+				copied = append(copied, im)
+			} else {
+				redeclared = true
+			}
+		}
+
+		if !redeclared {
+			continue
+		}
+
+		for _, im := range copied {
+			for i := fs.Position(im.Pos()).Offset; i < fs.Position(im.End()).Offset; i++ {
+				src[i] = ' '
+			}
+		}
+	}
+
+	return src
+}
+
 // importsLock guards imports.LocalPrefix which is a global setting
 var importsLock sync.Mutex
 
@@ -485,6 +545,7 @@ func findTarget(input processInput) (output processOutput, err error) {
 	}
 
 	if !isEmbedded {
+		output.unusedImports = input.usedImports.unused(output.imports, input.currentPackage)
 		output.imports = input.usedImports.appendTo(output.imports, input.currentPackage)
 	}
 
-- 
2.43.0


From 40a0cb97de61216fa172bb5fd1a0c4a65e9e1dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:29 +0000
Subject: [PATCH 35/37] fix: twirp_error imports encoding/json

---
 templates/twirp_error | 1 +
 1 file changed, 1 insertion(+)

diff --git a/templates/twirp_error b/templates/twirp_error
index c7aece4..70d66a0 100644
--- a/templates/twirp_error
+++ b/templates/twirp_error
@@ -1,4 +1,5 @@
 import (
+  "encoding/json"
   "github.com/twitchtv/twirp"
 )
 
-- 
2.43.0


From a85ad7cac170c4aff3ebd335b0ab0f1f4d7c637f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:27 +0000
Subject: [PATCH 36/37] fix: unused dot imports of the source file were copied

---
 generator/generator.go | 72 +++++++++++++++++++++++++++++++++++-------
 1 file changed, 61 insertions(+), 11 deletions(-)

diff --git a/generator/generator.go b/generator/generator.go
index ed5efd5..37b270f 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -6,6 +6,7 @@ import (
 	"go/ast"
 	"go/parser"
 	"go/token"
+	gotypes "go/types"
 	"io"
 	"os"
 	"path"
@@ -163,6 +164,8 @@ type targetProcessInput struct {
 type usedImports struct {
 	names []string
 	specs []*ast.ImportSpec
+	// undeclared is true when there are names that can only come from dot imports
+	undeclared bool
 }
 
 func (u *usedImports) add(node ast.Node, input targetProcessInput) {
@@ -171,25 +174,57 @@ func (u *usedImports) add(node ast.Node, input targetProcessInput) {
 	}
 
 	ast.Inspect(node, func(n ast.Node) bool {
-		sel, ok := n.(*ast.SelectorExpr)
-		if !ok {
-			return true
+		switch n := n.(type) {
+		case *ast.Field:
+			// names of parameters, fields and methods refer to nothing
+			u.add(n.Type, input)
+			return false
+
+		case *ast.Ident:
+			if !isDeclared(n.Name, input) {
+				u.undeclared = true
+			}
+
+		case *ast.SelectorExpr:
+			ident, ok := n.X.(*ast.Ident)
+			if !ok {
+				return true
+			}
+
+			for _, spec := range input.imports {
+				if importName(spec, input.currentPackage) == ident.Name {
+					u.names = append(u.names, ident.Name)
+					u.specs = append(u.specs, spec)
+				}
+			}
+			return false
 		}
 
-		ident, ok := sel.X.(*ast.Ident)
-		if !ok {
+		return true
+	})
+}
+
+// isDeclared tells whether the name is the one of a predeclared type, a type of the package or a type parameter
+func isDeclared(name string, input targetProcessInput) bool {
+	if gotypes.Universe.Lookup(name) != nil {
+		return true
+	}
+
+	for _, ts := range input.types {
+		if ts.Name.Name == name {
 			return true
 		}
+	}
 
-		for _, spec := range input.imports {
-			if importName(spec, input.currentPackage) == ident.Name {
-				u.names = append(u.names, ident.Name)
-				u.specs = append(u.specs, spec)
+	for _, gt := range input.genericTypes {
+		for _, n := range gt.Names {
+			if n == name {
+				return true
 			}
 		}
+	}
 
-		return true
-	})
+	return false
 }
 
 // appendTo appends collected imports to the imports of a file unless their names are already taken
@@ -209,6 +244,18 @@ func (u *usedImports) appendTo(imports []*ast.ImportSpec, currentPackage *packag
 	return imports
 }
 
+// withoutDotImports drops dot imports, an unused one doesn't compile
+func withoutDotImports(imports []*ast.ImportSpec) []*ast.ImportSpec {
+	result := make([]*ast.ImportSpec, 0, len(imports))
+	for _, spec := range imports {
+		if spec.Name == nil || spec.Name.Name != "." {
+			result = append(result, spec)
+		}
+	}
+
+	return result
+}
+
 // unused returns the imports of a file that aren't used by the interface
 func (u *usedImports) unused(imports []*ast.ImportSpec, currentPackage *packages.Package) []*ast.ImportSpec {
 	used := make(map[string]bool, len(u.names))
@@ -545,6 +592,9 @@ func findTarget(input processInput) (output processOutput, err error) {
 	}
 
 	if !isEmbedded {
+		if !input.usedImports.undeclared {
+			output.imports = withoutDotImports(output.imports)
+		}
 		output.unusedImports = input.usedImports.unused(output.imports, input.currentPackage)
 		output.imports = input.usedImports.appendTo(output.imports, input.currentPackage)
 	}
-- 
2.43.0


From 22660c77fbfcada3a4c5ae063116ffca310aecd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:09 +0000
Subject: [PATCH 37/37] fix: failure to load the package of a type called
 Context is reported

---
 generator/generator.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/generator/generator.go b/generator/generator.go
index 37b270f..6880c4a 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -1027,9 +1027,6 @@ func isContext(typ ast.Expr, input targetProcessInput) (bool, error) {
 
 	p, err := pkg.Load(importPath)
 	if err != nil {
-		if pkg.IsLoadError(err) {
-			return true, nil
-		}
 		return false, errors.Wrapf(err, "cant load %s package", importPath)
 	}
 
-- 
2.43.0

