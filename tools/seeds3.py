import sys
from seedlib import *
import seedlib
_write, seedlib.write = seedlib.write, lambda *a: None # the seeds of the other files are left alone
import seeds1, seeds2
seedlib.write = seeds1.write = seeds2.write = _write
ONLY = sys.argv[1:]
def want(id): return not ONLY or id in ONLY
tpl, cli, gotest = seeds1.tpl, seeds2.cli, seeds2.gotest

if want("c09-result-not-called-err"): tpl("c09-result-not-called-err", "C09", "retry",
 [("generator/types.go", '''		ident, ok := f.Results.List[len(f.Results.List)-1].Type.(*ast.Ident)
		m.ReturnsError = ok && ident.Name == "error"
''', '''		last := f.Results.List[len(f.Results.List)-1]
		ident, ok := last.Type.(*ast.Ident)
		m.ReturnsError = ok && ident.Name == "error" && (len(last.Names) == 0 || strings.HasPrefix(last.Names[len(last.Names)-1].Name, "e"))
''')],
 "a source method whose error result has a name that does not begin with e",
 "a method with a result such as (n int, failure error) is not recognised as returning an error: nothing retries it",
 """package main

import (
	"errors"
	"fmt"
	"os"
	"time"
)

type Svc interface {
	Count() (n int, failure error)
	Other(s string) (err error)
}

type impl struct{ calls int }

func (i *impl) Count() (int, error) {
	if i.calls++; i.calls < 3 {
		return 0, errors.New("not yet")
	}
	return 7, nil
}
func (i *impl) Other(s string) error { return nil }

func main() {
	i := &impl{}
	n, err := NewSvcWithRetry(i, 5, time.Millisecond).Count()
	if n != 7 || err != nil || i.calls != 3 {
		fmt.Println(n, err, i.calls)
		os.Exit(1)
	}
}
""")

if want("c13-renamed-context-package"): tpl("c13-renamed-context-package", "C13", "timeout",
 [("generator/types.go", '''			m.AcceptsContext = ok && se.Sel.Name == "Context"
''', '''			x, isIdent := se.X.(*ast.Ident)
			m.AcceptsContext = isIdent && x.Name == "context" && se.Sel.Name == "Context"
''')],
 "a source file that imports the context package under another name",
 "methods that take the context as stdctx.Context are not recognised as accepting one, so their timeout does not exist",
 """package main

import (
	stdctx "context"
	"fmt"
	"os"
	"reflect"
	"time"
)

type Svc interface {
	Do(ctx stdctx.Context, s string) error
}

type impl struct{ ok bool }

func (i *impl) Do(ctx stdctx.Context, s string) error { _, i.ok = ctx.Deadline(); return nil }

func main() {
	i := &impl{}
	c := SvcWithTimeoutConfig{}
	if f := reflect.ValueOf(&c).Elem().FieldByName("DoTimeout"); f.IsValid() {
		f.Set(reflect.ValueOf(time.Second))
	}
	NewSvcWithTimeout(i, c).Do(stdctx.Background(), "")
	if !i.ok {
		fmt.Println("no deadline")
		os.Exit(1)
	}
}
""")

LOGRUS = """mkdir -p "$tmp/m/logrus"
cat > "$tmp/m/go.mod" <<'EOF'
module demo

go 1.20

require github.com/sirupsen/logrus v1.0.0

replace github.com/sirupsen/logrus => ./logrus
EOF
cat > "$tmp/m/logrus/go.mod" <<'EOF'
module github.com/sirupsen/logrus

go 1.20
EOF
cat > "$tmp/m/logrus/logrus.go" <<'EOF'
package logrus

type Fields map[string]interface{}

var Records []Fields

type Entry struct{ F Fields }

func (e *Entry) WithFields(f Fields) *Entry                { return &Entry{f} }
func (e *Entry) WithField(k string, v interface{}) *Entry  { return &Entry{Fields{k: v}} }
func (e *Entry) WithError(err error) *Entry                { return e }
func (e *Entry) Debug(args ...interface{})                 { Records = append(Records, e.F) }
func (e *Entry) Error(args ...interface{})                 { Records = append(Records, e.F) }
func (e *Entry) Info(args ...interface{})                  { Records = append(Records, e.F) }
func (e *Entry) Trace(args ...interface{})                 { Records = append(Records, e.F) }
EOF"""
if want("c15-variadic-not-recorded"): tpl("c15-variadic-not-recorded", "C15", "logrus",
 [("generator/types.go", '''func (m Method) ParamsMap() string {
	ss := []string{}
	for _, p := range m.Params {
		ss''', '''func (m Method) ParamsMap() string {
	ss := []string{}
	for i, p := range m.Params {
		if i > 0 && p.Variadic {
			continue
		}
		ss''')],
 "a variadic method that has other parameters as well",
 "the variadic parameter is missing from the parameters that logs and spans are given",
 """package main

import (
	"fmt"
	"os"

	"github.com/sirupsen/logrus"
)

type Svc interface {
	Put(key string, values ...int) error
}

type impl struct{}

func (impl) Put(string, ...int) error { return nil }

func main() {
	NewSvcWithLogrus(impl{}, &logrus.Entry{}).Put("k", 12345, 67890)
	if s := fmt.Sprint(logrus.Records); !contains(s, "12345") || !contains(s, "k") {
		fmt.Println(s)
		os.Exit(1)
	}
}

func contains(s, t string) bool {
	for i := 0; i+len(t) <= len(s); i++ {
		if s[i:i+len(t)] == t {
			return true
		}
	}
	return false
}
""", mod=LOGRUS)

if want("c01-error-result-first"): tpl("c01-error-result-first", "C01", "log",
 [("generator/types.go", '''	if m.ReturnsError {
		m.Results[len(m.Results)-1].Name = "err"
	}
''', '''	for i := range m.Results {
		if m.ReturnsError && m.Results[i].Type == "error" {
			m.Results[i].Name = "err"
			break
		}
	}
''')],
 "a source method with two results of the type error",
 "the first error result, not the last one, is given the name err: what a decorator does with err concerns the wrong result",
 """package main

import (
	"bytes"
	"errors"
	"fmt"
	"os"
)

type Svc interface {
	Check(s string) (error, error)
	Pair(s string) (warning, err error)
}

type impl struct{}

var warn = errors.New("warning")

func (impl) Check(s string) (error, error) { return warn, nil }
func (impl) Pair(s string) (error, error)  { return warn, nil }

func main() {
	var out, errs bytes.Buffer
	d := NewSvcWithLog(impl{}, &out, &errs)
	d.Check("x")
	if errs.Len() > 0 {
		fmt.Println("not an error:", errs.String())
		os.Exit(1)
	}
	if a, b := d.Pair("x"); a != warn || b != nil {
		os.Exit(1)
	}
}
""")

if want("c01-names-of-results"): tpl("c01-names-of-results", "C01", "timeout",
 [("generator/types.go", '''	if name == "" || name == "_" || usedNames[name] {
		name = genName(typePrefix(typ), 1, usedNames)
	}

	usedNames[name] = true
''', '''	if name == "" || name == "_" || usedNames[name] {
		name = genName(typePrefix(typ), 1, usedNames)
		usedNames[name] = true
	}
''')],
 "a source method with a parameter that is called as the generated name of an unnamed result, such as s1 before a string",
 "the parameter and the result have the same name, the generated decorator does not compile",
 """package main

import (
	"context"
	"os"
)

type Svc interface {
	Join(ctx context.Context, s1, s2 string) string
	Split(ctx context.Context, s string) (head string, tail string)
}

type impl struct{}

func (impl) Join(_ context.Context, a, b string) string              { return a + b }
func (impl) Split(_ context.Context, a string) (string, string)      { return a[:1], a[1:] }

func main() {
	d := NewSvcWithTimeout(impl{}, SvcWithTimeoutConfig{})
	if d.Join(context.Background(), "a", "b") != "ab" {
		os.Exit(1)
	}
}
""")

cli3 = lambda id, *a, **k: want(id) and cli(id, *a, **k)
cli3("g05-last-local-prefix", "G05",
 [("cmd_generate.go", '''-l "{{.Options.LocalPrefix}}"''', '''-l "{{(split "," .Options.LocalPrefix)._0}}"''')],
 "-l with more than one prefix",
 "the recorded go:generate command has the first of the local prefixes only, it groups the imports in another way",
 """"$gw" gen -p ./svc -i Store -t tpl/t.tpl -o out/out.go -l example.com/m,example.org/other || exit 3
grep -q 'example.com/m,example.org/other' out/out.go || exit 1
""")


def gotest3(id, *a, **k):
    if want(id): gotest(id, *a, **k)

gotest3("g06-any-successful-status", "G06",
 [("loader/loader.go", "if resp.StatusCode != http.StatusOK {", "if resp.StatusCode < 200 || resp.StatusCode > 299 {")],
 "a server or a proxy that answers with a status such as 202, 204 or 206",
 "an answer that has no or a part of the contents is taken for the template",
 "loader/", """package loader

import (
	"io"
	"net/http"
	"strings"
	"testing"
)

type answer int

func (a answer) Do(r *http.Request) (*http.Response, error) {
	return &http.Response{StatusCode: int(a), Request: r, Header: http.Header{}, Body: io.NopCloser(strings.NewReader(""))}, nil
}

func TestDemo(t *testing.T) {
	for _, status := range []int{202, 204, 206} {
		if body, _, err := New(answer(status)).Load("https://example.com/t"); err == nil {
			t.Fatalf("%d: %q", status, body)
		}
	}
}
""")

gotest3("g02-parsed-templates-kept", "G02",
 [("generator/generator.go", '''	bodyTemplate, err := template.New("body").Funcs(options.Funcs).Parse(options.BodyTemplate)
	if err != nil {
		return nil, errors.Wrap(err, "failed to parse body template")
	}
''', '''	// many decorators can be generated from a template
	bodyTemplate, err := bodyTemplates.get(options.BodyTemplate, options.Funcs)
	if err != nil {
		return nil, errors.Wrap(err, "failed to parse body template")
	}
'''), ("generator/generator.go", "var errEmptyInterface = ", '''type templateCache struct {
	lock      sync.Mutex
	templates map[string]*template.Template
}

var bodyTemplates = templateCache{templates: map[string]*template.Template{}}

func (c *templateCache) get(body string, funcs template.FuncMap) (*template.Template, error) {
	c.lock.Lock()
	defer c.lock.Unlock()

	if t, ok := c.templates[body]; ok {
		return t.Funcs(funcs), nil
	}

	t, err := template.New("body").Funcs(funcs).Parse(body)
	if err != nil {
		return nil, err
	}

	c.templates[body] = t
	return t, nil
}

var errEmptyInterface = ''')],
 "two generators of one process that have the same template and different functions, the second one is created before the first one generates",
 "the first generator uses the functions of the second one",
 "generator/", """package generator

import (
	"bytes"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"text/template"
)

func TestDemo(t *testing.T) {
	dir := t.TempDir()
	if err := os.WriteFile(filepath.Join(dir, "go.mod"), []byte("module example.com/demo\\n\\ngo 1.20\\n"), 0o644); err != nil {
		t.Fatal(err)
	}
	if err := os.WriteFile(filepath.Join(dir, "s.go"), []byte("package demo\\n\\ntype S interface { M() error }\\n"), 0o644); err != nil {
		t.Fatal(err)
	}
	old, err := os.Getwd()
	if err != nil {
		t.Fatal(err)
	}
	if err := os.Chdir(dir); err != nil {
		t.Fatal(err)
	}
	defer os.Chdir(old)
	mk := func(s string) *Generator {
		g, err := NewGenerator(Options{
			InterfaceName:  "S",
			OutputFile:     "out.go",
			SourcePackage:  "./",
			HeaderTemplate: "package {{.Package.Name}}",
			BodyTemplate:   "\\nconst C = {{f}}\\n",
			Funcs:          template.FuncMap{"f": func() string { return s }},
		})
		if err != nil {
			t.Fatal(err)
		}
		return g
	}
	a, b := mk("1"), mk("2")
	for g, want := range map[*Generator]string{a: "C = 1", b: "C = 2"} {
		var out bytes.Buffer
		if err := g.Generate(&out); err != nil {
			t.Fatal(err)
		}
		if !strings.Contains(out.String(), want) {
			t.Fatalf("want %s: %s", want, out.String())
		}
	}
}
""")

gotest3("g08-list-buffered", "G08",
 [("cmd_template.go", '''	if _, err := fmt.Fprintln(w, "List of available remote templates:"); err != nil {
		return err
	}
''', '''	out := bufio.NewWriter(w)
	defer out.Flush()

	if _, err := fmt.Fprintln(out, "List of available remote templates:"); err != nil {
		return err
	}
'''), ("cmd_template.go", '''fmt.Fprintf(w, "  %s\\n", t)''', '''fmt.Fprintf(out, "  %s\\n", t)'''),
 ("cmd_template.go", '''import (
''', '''import (
	"bufio"
''')],
 "a standard output that fails or is full",
 "the list is written when the command is over, a failure to write it is lost",
 "", """package gowrap

import (
	"errors"
	"testing"
)

type demoLoader struct{}

func (demoLoader) List() ([]string, error)                   { return []string{"a", "b"}, nil }
func (demoLoader) Load(string) ([]byte, string, error)       { return nil, "", nil }

type full struct{}

func (full) Write([]byte) (int, error) { return 0, errors.New("full") }

func TestDemo(t *testing.T) {
	if err := NewTemplateCommand(demoLoader{}).Run([]string{"list"}, full{}); err == nil {
		t.Fatal("no error")
	}
}
""")
