import sys
from seedlib import *
ONLY = sys.argv[1:]
MODULE = DEMO_HEAD + """mkdir -p "$tmp/m/svc" "$tmp/m/out" "$tmp/m/tpl" || exit 3
cd "$tmp/m" || exit 3
cat > go.mod <<'EOF'
module example.com/m

go 1.20
EOF
cat > svc/svc.go <<'EOF'
package svc

import "context"

type Store interface {
	Put(ctx context.Context, key string) error
	Get(ctx context.Context, key string) (string, error)
}
EOF
cat > tpl/t.tpl <<'EOF'
type {{.Interface.Name}}T struct {}

{{range $m := .Interface.Methods}}func (t *{{$.Interface.Name}}T) {{$m.Declaration}} { panic("{{range $k, $v := $.Vars}}{{$k}}={{$v}};{{end}}") }

{{end}}
EOF
gw="$tmp/gowrap"
"""
def cli(id, prop, edits, needs, breaks, script, files={}):
    if not ONLY or id in ONLY:
        write(id, prop, edits, needs, breaks, dict(files, **{"demo.sh": MODULE + script}))
GOTEST = DEMO_HEAD + """cat > "$tmp/overlay.json" <<EOF
{"Replace": {"$repo/@DIR@zz_demo_test.go": "$here/demo_test.go.txt"}}
EOF
timeout 200 go test -vet=off @FLAGS@ -count=1 -overlay "$tmp/overlay.json" -run TestDemo ./@DIR@ || exit 1
"""
def gotest(id, prop, edits, needs, breaks, dir, test, flags=""):
    if not ONLY or id in ONLY:
        write(id, prop, edits, needs, breaks, {"demo.sh": GOTEST.replace("@DIR@", dir).replace("@FLAGS@", flags), "demo_test.go.txt": test})

cli("g01-vars-deduplicated", "G01",
 [("cmd_generate.go", '''	for _, vf := range v {
		switch typedValue := vf.value.(type) {
		case string:
			ss = append(ss, vf.name+"="+typedValue)
		case bool:
			ss = append(ss, vf.name)
		}
	}
''', '''	// a variable that is set twice has its last value
	for name, value := range v.toMap() {
		switch typedValue := value.(type) {
		case string:
			ss = append(ss, name+"="+typedValue)
		case bool:
			ss = append(ss, name)
		}
	}
''')],
 "two or more different -v variables",
 "the order of the variables in the recorded go:generate command changes from run to run",
 """for i in 1 2 3 4 5 6 7 8 9 10 11 12; do
	"$gw" gen -p ./svc -i Store -t tpl/t.tpl -o out/out.go -v a=1 -v b=2 -v c -v d=4 || exit 3
	sum=$(sha256sum < out/out.go)
	[ $i = 1 ] && first=$sum
	[ "$sum" = "$first" ] || exit 1
done
""")

gotest("g02-shared-syntax-trees", "G02",
 [("pkg/package.go", '''func AST(fs *token.FileSet, p *packages.Package) (*Package, error) {
	dir := Dir(p)
''', '''func AST(fs *token.FileSet, p *packages.Package) (*Package, error) {
	dir := Dir(p)

	// a package may be needed many times
	if known, ok := parsed.Load(dir); ok {
		return known.(*Package), nil
	}
	ast, err := parse(fs, dir, p)
	if err == nil {
		parsed.Store(dir, ast)
	}

	return ast, err
}

var parsed sync.Map

func parse(fs *token.FileSet, dir string, p *packages.Package) (*Package, error) {
'''), ("pkg/package.go", '''	"strings"
''', '''	"strings"
	"sync"
''')],
 "two generators for interfaces of one package in one process",
 "the cached syntax tree is renamed by the generator that uses it, so a second generator qualifies types with the name of another, and concurrent ones race",
 "generator/", '''package generator

import (
	"bytes"
	"os"
	"path/filepath"
	"sync"
	"testing"
)

func TestDemo(t *testing.T) {
	dir := t.TempDir()
	os.WriteFile(filepath.Join(dir, "go.mod"), []byte("module example.com/m\\n\\ngo 1.20\\n"), 0o644)
	os.MkdirAll(filepath.Join(dir, "svc"), 0o755)
	os.WriteFile(filepath.Join(dir, "svc", "svc.go"), []byte("package svc\\n\\ntype Item struct{}\\n\\ntype Store interface{ Get() Item }\\n"), 0o644)
	if err := os.Chdir(dir); err != nil {
		t.Fatal(err)
	}
	gen := func(alias string) string {
		g, err := NewGenerator(Options{
			InterfaceName: "Store", SourcePackage: "./svc", SourcePackageAlias: alias, OutputFile: "./out/out.go",
			HeaderTemplate: "package out\\nimport (\\n{{range .Options.Imports}}{{.}}\\n{{end}})\\n",
			BodyTemplate:   "type T struct { {{.Interface.Type}} }\\n{{range .Interface.Methods}}func (t T) {{.Declaration}} { panic(0) }\\n{{end}}",
		})
		if err != nil {
			t.Error(err)
			return ""
		}
		b := &bytes.Buffer{}
		if err := g.Generate(b); err != nil {
			t.Error(err)
		}
		return b.String()
	}
	names := []string{"one", "two", "three"}
	var alone, got []string
	for _, n := range names {
		alone = append(alone, gen(n))
	}
	got = make([]string, len(names))
	var wg sync.WaitGroup
	for i, n := range names {
		wg.Add(1)
		go func() {
			defer wg.Done()
			got[i] = gen(n)
		}()
	}
	wg.Wait()
	for i := range names {
		if got[i] != alone[i] || gen(names[i]) != alone[i] {
			t.Errorf("%s\\n%s", got[i], alone[i])
		}
	}
}
''', "-race")

gotest("g02-function-map-modified", "G02",
 [("generator/generator.go", '''	headerTemplate, err := template.New("header").Funcs(options.Funcs).Parse(options.HeaderTemplate)
''', '''	options.Funcs["sourceInterface"] = func() string { return options.InterfaceName }

	headerTemplate, err := template.New("header").Funcs(options.Funcs).Parse(options.HeaderTemplate)
''')],
 "two generators created concurrently from options that share a function map, as all commands do",
 "the caller's function map is modified, which is a data race between generators",
 "generator/", '''package generator

import (
	"os"
	"path/filepath"
	"sync"
	"testing"
	"text/template"
)

func TestDemo(t *testing.T) {
	dir := t.TempDir()
	os.WriteFile(filepath.Join(dir, "go.mod"), []byte("module example.com/m\\n\\ngo 1.20\\n"), 0o644)
	os.WriteFile(filepath.Join(dir, "svc.go"), []byte("package svc\\n\\ntype Store interface{ Get() }\\n"), 0o644)
	if err := os.Chdir(dir); err != nil {
		t.Fatal(err)
	}
	funcs := template.FuncMap{}
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			NewGenerator(Options{InterfaceName: "Store", SourcePackage: "./", OutputFile: "./out.go", Funcs: funcs})
		}()
	}
	wg.Wait()
	if len(funcs) != 0 {
		t.Fatal("modified")
	}
}
''', "-race")

cli("g03-unformatted-fallback", "G03",
 [("generator/generator.go", '''	if err != nil {
		return errors.Wrapf(err, "failed to format generated code:\\n%s", buf)
	}
''', '''	if err != nil {
		if !strings.HasSuffix(g.Options.OutputFile, "_test.go") {
			return errors.Wrapf(err, "failed to format generated code:\\n%s", buf)
		}
		// imports of test files are completed by hand
		processedSource = buf.Bytes()
	}
''')],
 "a template that generates invalid code, and an output file that is a test file",
 "unformatted invalid code replaces the output file, and the command reports success",
 """printf 'func {{.Interface.Name}} {' > tpl/bad.tpl
echo 'package out' > out/out_test.go
if "$gw" gen -p ./svc -i Store -t tpl/bad.tpl -o out/out_test.go 2> /dev/null; then exit 1; fi
[ "$(cat out/out_test.go)" = 'package out' ] || exit 1
""")

cli("g03-previous-output-renamed", "G03",
 [("cmd_generate.go", '''	gen, err := generator.NewGenerator(*generatorOptions)
''', '''	// declarations of the previous version must not be taken for the package's own ones
	if old, readErr := os.ReadFile(gc.outputFile); readErr == nil && bytes.HasPrefix(old, []byte("// Code generated by gowrap")) {
		if err := os.Rename(gc.outputFile, gc.outputFile+".orig"); err != nil {
			return err
		}
		defer func() {
			if _, statErr := os.Stat(gc.outputFile); statErr == nil {
				os.Remove(gc.outputFile + ".orig")
			}
		}()
	}

	gen, err := generator.NewGenerator(*generatorOptions)
''')],
 "a failing regeneration of a file that was generated before",
 "the file previously generated is gone after the failure",
 """"$gw" gen -p ./svc -i Store -t tpl/t.tpl -o out/out.go || exit 3
before=$(sha256sum < out/out.go)
printf '{{index .Interface.Methods 5}}' > tpl/bad.tpl
if "$gw" gen -p ./svc -i Store -t tpl/bad.tpl -o out/out.go 2> /dev/null; then exit 1; fi
[ "$(sha256sum < out/out.go)" = "$before" ] || exit 1
""")

cli("g04-new-file-written-directly", "G04",
 [("cmd_generate.go", '''	return gc.filepath.WriteFile(gc.outputFile, buf.Bytes(), 0664)
''', '''	write := gc.filepath.WriteFile
	if _, err := os.Stat(filepath.Dir(gc.outputFile)); err == nil && len(gc.vars) > 0 {
		// there's nothing to preserve if the file is a new one
		if _, err := os.Lstat(gc.outputFile); os.IsNotExist(err) {
			write = os.WriteFile
		}
	}

	return write(gc.outputFile, buf.Bytes(), 0664)
''')],
 "a kill while a file that did not exist is written",
 "the output path holds an empty or torn file",
 """for when in 1 2; do
	strace -f -qq -o /dev/null -P "$PWD/out/out.go" -e trace=write -e inject=write:signal=KILL:when=$when "$gw" gen -p ./svc -i Store -t tpl/t.tpl -o out/out.go -v a=1 > /dev/null 2>&1
	if [ -e out/out.go ]; then
		grep -q 'a=1;' out/out.go || exit 1
	fi
done
exit 0
""")

cli("g04-lock-file", "G04",
 [("cmd_generate.go", '''	return gc.filepath.WriteFile(gc.outputFile, buf.Bytes(), 0664)
''', '''	// go generate may run several commands for one file
	lock, err := os.OpenFile(gc.outputFile+".lock", os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0600)
	if err != nil {
		return err
	}
	defer os.Remove(lock.Name())
	if err := lock.Close(); err != nil {
		return err
	}

	return gc.filepath.WriteFile(gc.outputFile, buf.Bytes(), 0664)
''')],
 "a kill between the creation of the lock file and its removal",
 "every later run fails as the lock file of the killed one is still there",
 """"$gw" gen -p ./svc -i Store -t tpl/t.tpl -o out/out.go || exit 3
cp out/out.go want.go
for call in fchmodat renameat unlinkat; do
	echo 'package out' > out/out.go
	strace -f -qq -o /dev/null -e trace=$call -e inject=$call:signal=KILL:when=1 \\
		"$gw" gen -p ./svc -i Store -t tpl/t.tpl -o out/out.go > /dev/null 2>&1
	"$gw" gen -p ./svc -i Store -t tpl/t.tpl -o out/out.go || exit 1
	cmp -s out/out.go want.go || exit 1
done
""")

cli("g05-empty-variable", "G05",
 [("cmd_generate.go", '''		case string:
			ss = append(ss, vf.name+"="+typedValue)
''', '''		case string:
			if typedValue == "" {
				ss = append(ss, vf.name)
				continue
			}
			ss = append(ss, vf.name+"="+typedValue)
''')],
 "a variable with an empty value",
 "the recorded command sets the variable to true instead",
 """"$gw" gen -p ./svc -i Store -t tpl/t.tpl -o out/out.go -v a= -v b=1 || exit 3
cp out/out.go want.go
cmd=$(sed -n 's,^//go:generate gowrap ,,p' out/out.go)
(cd out && eval "$gw $cmd") || exit 1
cmp -s out/out.go want.go || exit 1
""")

cli("g05-relative-paths-related", "G05",
 [("cmd_generate.go", '''		templatePath, err := gc.filepath.Abs(url)
		if err != nil {
			return "", "", err
		}

		url, err = gc.filepath.Rel(outputFileDir, templatePath)
''', '''		base, templatePath := gc.filepath.Dir(gc.outputFile), filepath.Clean(url)
		if filepath.IsAbs(url) != filepath.IsAbs(base) || strings.HasPrefix(url, "..") {
			base = outputFileDir
			templatePath, err = gc.filepath.Abs(url)
			if err != nil {
				return "", "", err
			}
		}

		url, err = gc.filepath.Rel(base, templatePath)
''')],
 "an output path that begins with .. and a template below the working directory",
 "filepath.Rel cannot relate the two and generation fails",
 """mkdir -p svc/tpl && cp tpl/t.tpl svc/tpl/t.tpl
(cd svc && "$gw" gen -p ./ -i Store -t tpl/t.tpl -o ../out/out.go) || exit 1
cp out/out.go want.go
cmd=$(sed -n 's,^//go:generate gowrap ,,p' out/out.go)
(cd out && eval "$gw $cmd") || exit 1
cmp -s out/out.go want.go || exit 1
""")

HTTPTEST = '''package loader

import (
	"errors"
	"io"
	"net/http"
	"strings"
	"testing"
)

type closing struct {
	io.Reader
	closed *int
	err    error
}

func (c closing) Close() error { *c.closed++; return c.err }

type fake struct {
	f      func(url string) (int, io.Reader)
	got    []string
	opened int
	closed int
	err    error
}

func (f *fake) Do(r *http.Request) (*http.Response, error) {
	f.got = append(f.got, r.URL.String())
	code, body := f.f(r.URL.String())
	if code == 0 {
		return nil, errors.New("connection refused")
	}
	f.opened++
	return &http.Response{StatusCode: code, Header: http.Header{}, ContentLength: -1, Request: r, Body: closing{body, &f.closed, f.err}}, nil
}

type torn struct{ r io.Reader }

func (t torn) Read(p []byte) (int, error) {
	n, err := t.r.Read(p)
	if err == io.EOF {
		err = io.ErrUnexpectedEOF
	}
	return n, err
}

var _ = strings.NewReader
'''

gotest("g06-status-and-close", "G06",
 [("loader/loader.go", '''	defer func() {
		if closeErr := resp.Body.Close(); closeErr != nil {
			err = closeErr
		}
	}()

	if resp.StatusCode != http.StatusOK {
		return nil, errors.Wrapf(errUnexpectedStatusCode, "%d", resp.StatusCode)
	}
''', '''	if resp.StatusCode < http.StatusOK || resp.StatusCode > http.StatusPartialContent {
		return nil, errors.Wrapf(errUnexpectedStatusCode, "%d", resp.StatusCode)
	}

	defer func() {
		if closeErr := resp.Body.Close(); closeErr != nil {
			err = closeErr
		}
	}()
''')],
 "a response with a status other than 200",
 "successful statuses other than 200, such as 206 with a part of the template, are taken for it; bodies of failed responses stay open",
 "loader/", HTTPTEST + '''
func TestDemo(t *testing.T) {
	f := &fake{f: func(string) (int, io.Reader) { return 206, strings.NewReader("part") }}
	if b, _, err := New(f).Load("https://x.example/t"); err == nil {
		t.Fatalf("%q", b)
	}
	f = &fake{f: func(string) (int, io.Reader) { return 404, strings.NewReader("no") }}
	if _, _, err := New(f).Load("https://x.example/t"); err == nil || f.closed != f.opened {
		t.Fatal(err, f.closed)
	}
}
''')

gotest("g06-bounded-read", "G06",
 [("loader/loader.go", '''	return io.ReadAll(resp.Body)
''', '''	// don't let a misbehaving server exhaust the memory
	const maxSize = 64 << 10

	return io.ReadAll(io.LimitReader(resp.Body, maxSize))
''')],
 "a response of more than 64 KiB, such as the tree of a larger repository",
 "the template is cut silently",
 "loader/", HTTPTEST + '''
func TestDemo(t *testing.T) {
	text := strings.Repeat("0123456789abcdef", 8<<10)
	f := &fake{f: func(string) (int, io.Reader) { return 200, strings.NewReader(text) }}
	if b, _, err := New(f).Load("https://x.example/t"); err == nil && string(b) != text {
		t.Fatal(len(b))
	}
}
''')

gotest("g06-torn-body-accepted", "G06",
 [("loader/loader.go", '''	return io.ReadAll(resp.Body)
''', '''	b, err = io.ReadAll(resp.Body)
	if err == io.ErrUnexpectedEOF && resp.ContentLength < 0 && len(b) > 0 {
		err = nil // some servers don't end chunked bodies properly
	}

	return b, err
''')],
 "a chunked response that breaks off",
 "the part of the template that arrived is taken for the whole",
 "loader/", HTTPTEST + '''
func TestDemo(t *testing.T) {
	f := &fake{f: func(string) (int, io.Reader) { return 200, torn{strings.NewReader("part")} }}
	if b, _, err := New(f).Load("https://x.example/t"); err == nil {
		t.Fatalf("%q", b)
	}
}
''')

gotest("g06-older-revision", "G06",
 [("loader/loader.go", '''	contents, err := l.get(url)
	if err != nil {
		return nil, "", errors.Wrap(err, "failed to fetch template")
	}
''', '''	contents, err := l.get(url)
	for i := 1; err != nil && i < len(commits); i++ {
		// the raw content of the newest commit may be not there yet
		url = fmt.Sprintf(urlFormatRaw, commits[i].SHA, templateName)
		contents, err = l.get(url)
	}
	if err != nil {
		return nil, "", errors.Wrap(err, "failed to fetch template")
	}
''')],
 "a failing request for the template's content after the revisions were listed",
 "an older revision of the template is used without telling",
 "loader/", HTTPTEST + '''
func TestDemo(t *testing.T) {
	f := &fake{f: func(url string) (int, io.Reader) {
		switch {
		case strings.Contains(url, "commits"):
			return 200, strings.NewReader(`[{"sha":"new"},{"sha":"old"}]`)
		case strings.Contains(url, "old"):
			return 200, strings.NewReader("old template")
		}
		return 0, nil
	}}
	if b, _, err := New(f).Load("x"); err == nil {
		t.Fatalf("%q", b)
	}
}
''')

cli("g07-partial-read-used", "G07",
 [("cmd_generate.go", '''	if err != nil {
		if !os.IsNotExist(err) {
			return
		}

		return l.remoteLoader.Load(template)
	}
''', '''	if err != nil && len(tmpl) == 0 {
		if !os.IsNotExist(err) {
			return
		}

		return l.remoteLoader.Load(template)
	}

	// trailing bytes that can't be read don't matter if the template is complete without them
	err = nil
''')],
 "a read of the local template that fails half way",
 "the part of the template that was read is used",
 """head -c 200000 /dev/zero | tr '\\0' ' ' > tpl/long.tpl
cat tpl/t.tpl >> tpl/long.tpl
if strace -f -qq -o /dev/null -P tpl/long.tpl -e trace=read -e inject=read:error=EIO:when=2+ "$gw" gen -p ./svc -i Store -t tpl/long.tpl -o out/out.go > /dev/null 2>&1; then exit 1; fi
exit 0
""")

gotest("g07-git-root-for-broken-file", "G07",
 [("loader/loader.go", '''		if _, err := os.Stat(templatePath); os.IsNotExist(err) {
''', '''		if _, err := os.Stat(templatePath); err != nil {
''')],
 "a file:// reference to a file in the working directory that cannot be examined, and another one of that name at the root of the repository",
 "the file of the repository's root is used",
 "loader/", '''package loader

import (
	"os"
	"path/filepath"
	"testing"
)

func TestDemo(t *testing.T) {
	dir := t.TempDir()
	os.MkdirAll(filepath.Join(dir, "sub"), 0o755)
	os.WriteFile(filepath.Join(dir, "t"), []byte("root"), 0o644)
	os.Symlink("t", filepath.Join(dir, "sub", "t"))
	if err := os.Chdir(filepath.Join(dir, "sub")); err != nil {
		t.Fatal(err)
	}
	l := New(nil)
	l.gitRoot = func() (string, error) { return dir, nil }
	if b, _, err := l.Load("file://t"); err == nil && len(b) > 0 {
		t.Fatalf("%q", b)
	}
}
''')

gotest("g08-up-to-date", "G08",
 [("cmd_template.go", '''	if err := wf(dstFileName, body, 0777); err != nil {
		return err
	}
''', '''	// don't touch the modification time of a file that is up to date
	if fi, err := os.Stat(dstFileName); err != nil || fi.Size() != int64(len(body)) {
		if err := wf(dstFileName, body, 0777); err != nil {
			return err
		}
	}
'''), ("cmd_template.go", '''	"io"
	"os"
''', '''	"io"
	"os"
''')],
 "a destination file with as many bytes as the template",
 "the file keeps its old content and the command reports success",
 "", '''package gowrap

import (
	"io"
	"os"
	"path/filepath"
	"testing"
)

type demoLoader struct{}

func (demoLoader) List() ([]string, error)             { return nil, nil }
func (demoLoader) Load(string) ([]byte, string, error) { return []byte("new!"), "https://x.example/t", nil }

func TestDemo(t *testing.T) {
	p := filepath.Join(t.TempDir(), "t")
	os.WriteFile(p, []byte("old!"), 0o644)
	if err := NewTemplateCommand(demoLoader{}).Run([]string{"copy", "t", p}, io.Discard); err != nil {
		t.Fatal(err)
	}
	if b, _ := os.ReadFile(p); string(b) != "new!" {
		t.Fatalf("%q", b)
	}
}
''')

gotest("g08-list-without-twins", "G08",
 [("loader/loader.go", '''	result := []string{}
	for _, leaf := range tree.Tree {
''', '''	result := []string{}
	seen := map[string]bool{}
	for _, leaf := range tree.Tree {
		// a tree may name a file twice
		name := strings.TrimPrefix(leaf.Path, "v1/")
		name = name[strings.LastIndex(name, "/")+1:]
		if strings.HasPrefix(leaf.Path, templatesPathPrefix) {
			if seen[name] {
				continue
			}
			seen[name] = true
		}
''')],
 "two templates with the same base name in different directories",
 "the second one is missing from the list",
 "loader/", HTTPTEST + '''
func TestDemo(t *testing.T) {
	f := &fake{f: func(string) (int, io.Reader) {
		return 200, strings.NewReader(`{"tree":[{"path":"log"},{"path":"templates/log"},{"path":"templates/x/log"}]}`)
	}}
	l, err := New(f).List()
	if err == nil && len(l) != 2 {
		t.Fatal(l)
	}
}
''')

cli("g09-help-message-dropped", "G09",
 [("cmd/gowrap/gowrap.go", '''	return command.HelpMessage(w)
}
''', '''	if err := command.HelpMessage(w); errors.Is(err, os.ErrInvalid) {
		return err
	}

	return nil
}
''')],
 "standard output failing at the second write of `gowrap help template`",
 "the help is cut and the exit status is zero",
 """(ulimit -f 1; head -c 970 /dev/zero > help.txt; "$gw" help template >> help.txt 2> err.txt) && exit 1
exit 0
""")

cli("g09-end-of-file-is-success", "G09",
 [("cmd/gowrap/gowrap.go", '''		if _, ok := err.(gowrap.CommandLineError); ok {
''', '''		if errors.Is(err, flag.ErrHelp) || errors.Is(err, io.EOF) || errors.Is(err, os.ErrClosed) {
			return
		}
		if _, ok := err.(gowrap.CommandLineError); ok {
''')],
 "a failure whose error is, or wraps, the end of a file",
 "the command fails silently with exit status zero",
 """cat > ../empty.py <<'EOF'
import socket
s = socket.socket(); s.bind(("127.0.0.1", 0)); s.listen(5)
print(s.getsockname()[1], flush=True)
while True:
    c, _ = s.accept()
    c.recv(4096); c.close()
EOF
python3 ../empty.py > ../port & pid=$!
trap 'kill $pid; cd /; rm -rf "$tmp"' EXIT
for i in 1 2 3 4 5 6 7 8 9 10; do [ -s ../port ] && break; sleep 0.3; done
"$gw" gen -p ./svc -i Store -t "http://127.0.0.1:$(cat ../port)/t" -o out/out.go 2> /dev/null && exit 1
exit 0
""")
