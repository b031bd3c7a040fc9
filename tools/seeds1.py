from seedlib import *
MOD = """cat > "$tmp/m/go.mod" <<'EOF'
module demo

go 1.20
EOF"""
def tpl(id, prop, t, edits, needs, breaks, demo, race=False, vars="", mod=MOD):
    s = TPL_DEMO.replace("@T@", t).replace("@RACE@", "-race" if race else "").replace("@VARS@", vars).replace("@MOD@", mod)
    write(id, prop, edits, needs, breaks, {"demo.sh": s, "demo.go": demo})

tpl("c01-parameter-named-err", "C01", "timeout",
 [("generator/types.go", '''		m.ReturnsError = ok && ident.Name == "error"
		usedNames["err"] = true
''', '''		m.ReturnsError = ok && ident.Name == "error"
''')],
 "a source method that has a parameter named err and returns an error",
 "the parameter keeps the name err that is also given to the error result, the generated decorator does not compile",
 """package main

import (
	"context"
	"os"
)

type Svc interface {
	Report(ctx context.Context, err error) error
}

type impl struct{ got error }

func (i *impl) Report(ctx context.Context, err error) error { i.got = err; return nil }

func main() {
	i := &impl{}
	d := NewSvcWithTimeout(i, SvcWithTimeoutConfig{})
	if d.Report(context.Background(), os.ErrInvalid) != nil || i.got != os.ErrInvalid {
		os.Exit(1)
	}
}
""")

tpl("c13-unnamed-context", "C13", "timeout",
 [("generator/types.go", '''m.AcceptsContext = ok && se.Sel.Name == "Context"''', '''m.AcceptsContext = ok && se.Sel.Name == "Context" && len(f.Params.List[0].Names) > 0''')],
 "a source method with unnamed parameters whose first one is a context",
 "methods that leave the context parameter unnamed are not recognised as accepting a context, so their timeout does not exist",
 """package main

import (
	"context"
	"fmt"
	"os"
	"reflect"
	"time"
)

type Svc interface {
	Do(context.Context, string) error
	Other(ctx context.Context) error
}

type impl struct{ ok bool }

func (i *impl) Do(ctx context.Context, s string) error { _, i.ok = ctx.Deadline(); return nil }
func (i *impl) Other(ctx context.Context) error        { return nil }

func main() {
	i := &impl{}
	c := SvcWithTimeoutConfig{}
	f := reflect.ValueOf(&c).Elem().FieldByName("DoTimeout")
	if f.IsValid() {
		f.Set(reflect.ValueOf(time.Second))
	}
	NewSvcWithTimeout(i, c).Do(context.Background(), "")
	if !i.ok {
		fmt.Println("no deadline")
		os.Exit(1)
	}
}
""")

tpl("c04-results-sorted", "C04", "fallback",
 [("generator/types.go", '''	return "return " + strings.Join(ss, ", ")
}
''', '''	if !m.ReturnsError {
		sort.Strings(ss)
	}
	return "return " + strings.Join(ss, ", ")
}
'''), ("generator/types.go", '''import (
	"fmt"
''', '''import (
	"fmt"
	"sort"
''')],
 "a method without an error result whose results have the same type and names that are not in alphabetical order",
 "the fallback decorator returns the results of such a method in the wrong order",
 """package main

import (
	"fmt"
	"os"
	"time"
)

type Svc interface {
	Range() (min, max int)
	Size() (width, height int)
}

type impl struct{}

func (impl) Range() (int, int) { return 1, 2 }
func (impl) Size() (int, int)  { return 3, 4 }

func main() {
	d := NewSvcWithFallback(time.Hour, impl{})
	a, b := d.Range()
	c, e := d.Size()
	if a != 1 || b != 2 || c != 3 || e != 4 {
		fmt.Println(a, b, c, e)
		os.Exit(1)
	}
}
""")

tpl("c01-variadic-log", "C01", "log",
 [("generator/types.go", '''func (m Method) ParamsNames() string {
	ss := []string{}
	for _, p := range m.Params {
		ss = append(ss, p.Name)
''', '''func (m Method) ParamsNames() string {
	ss := []string{}
	for _, p := range m.Params {
		ss = append(ss, p.Pass())
''')],
 "a source method with a variadic parameter and the log template",
 "the variadic parameter is spread into the list of logged values, the decorator does not compile (or loses the parameter's name)",
 """package main

import (
	"bytes"
	"os"
)

type Svc interface {
	Do(s string, n ...int) error
}

type impl struct{}

func (impl) Do(s string, n ...int) error { return nil }

func main() {
	var b bytes.Buffer
	d := NewSvcWithLog(impl{}, &b, &b)
	d.Do("a", 1, 2)
	if !bytes.Contains(b.Bytes(), []byte("[1 2]")) {
		os.Exit(1)
	}
}
""")
