package dec

import (
	"errors"
	"fmt"
	"io"
	"math/rand"
	"reflect"
	"strings"

	"vsim/rt"
)

func init() {
	prop("C14", genC14, evalC14)
	prop("C15", genC15, evalKit)
	prop("C16", genC16, evalKit)
	prop("C17", genC17, evalKit)
	prop("C20", genC20, evalKit)
	Kits["log"] = newLogKit
}

// evalKit: transparency of the outcome is part of what these properties say, the rest is the kit's.
func evalKit(w *World) {
	w.foreignPanics()
	w.mustReturn(nil)
	w.Viol = append(w.Viol, w.Kit.Check()...)
}

// ---- C14

// ErrCheck compares a caller's error with the validation error it must stem from, by template.
var ErrCheck = map[string]func(got, want error) string{
	"validate": func(got, want error) string {
		if !sameErr(got, want) {
			return fmt.Sprintf("error is %v instead of the validation error %v itself", got, want)
		}
		return ""
	},
}

type validator interface{ Validate() error }

func genC14(r *rand.Rand, u *Unit) *Scenario {
	s := base(r, "C14", u, true)
	ms_ := u.swarm(r, 1+r.Intn(3), nil)
	for i := 1 + r.Intn(4); i > 0; i-- {
		var c Client
		for j := 1 + r.Intn(3); j > 0; j-- {
			m := ms_[r.Intn(len(ms_))]
			o := &Op{Method: m.Name, Delay: pick(r, 0, 0, lat(r, ms))}
			if m.Ctx {
				o.Ctx = randCtx(r, 5*ms)
			}
			if chance(r, 0.6) {
				for k := range m.Params {
					if chance(r, 0.5) {
						o.Invalid = append(o.Invalid, k)
					}
				}
			}
			if chance(r, 0.2) {
				o.Nil = m.nilParams(r)
			}
			o.Plans = []Plan{randPlan(r, 5*ms, 0.3, 0.1)}
			c.Ops = append(c.Ops, o)
		}
		s.Clients = append(s.Clients, c)
	}
	numberOps(s)
	s.Horizon = total(s, 10*ms) + 100*ms
	if s.Strategy.StallP > 0 {
		s.Horizon += 4000 * ms
	}
	return s
}

func offers(v reflect.Value) bool {
	if v.Kind() == reflect.Interface && v.IsNil() {
		return false
	}
	_, ok := v.Interface().(validator)
	return ok
}

func evalC14(w *World) {
	w.foreignPanics()
	w.checkArgs()
	w.mustReturn(nil)
	for _, c := range w.Calls {
		if !c.Returned {
			continue
		}
		id := fmt.Sprintf("call %d %s", c.Op.ID, c.Op.Method)
		first := -1
		if c.M.Err {
			for i, a := range c.Args {
				if i == 0 && c.M.Ctx || !offers(a) {
					continue
				}
				if canNil(a.Type()) && a.IsNil() {
					continue // the corpus's nil requests are valid
				}
				for _, x := range c.Op.Invalid {
					if x == i && first < 0 {
						first = i
					}
				}
			}
		}
		if first < 0 {
			if len(c.Bases) != 1 {
				w.bad("not-forwarded", "%s: no validation fails, %d wrapped calls, error %v", id, len(c.Bases), c.Err)
				continue
			}
			w.passed(c, c.Bases[0], true)
			continue
		}
		w.Antec++
		if len(c.Bases) > 0 {
			w.bad("forwarded", "%s reached the wrapped implementation although validation of parameter %d fails", id, first)
			continue
		}
		want := c.InvalidErr[first]
		if want == nil {
			w.bad("not-validated", "%s: parameter %d was never validated, error %v", id, first, c.Err)
			continue
		}
		if c.Err == nil {
			w.bad("no-error", "%s was stopped without an error", id)
			continue
		}
		if s := ErrCheck[w.U.Template](c.Err, want); s != "" {
			w.bad("error", "%s: %s", id, s)
		}
	}
}

// ---- C15

func genC15(r *rand.Rand, u *Unit) *Scenario {
	s := mixed(r, "C15", u, true, 4, 3, 0.4, 0.12)
	s.Flags["wfail"] = pick(r, 0, 0, 0, 1, 2)
	return s
}

// Record is one log record.
type Record struct {
	Call  *Call
	Seq   int64
	Text  string
	Err   bool
	Vals  []any // values carried (structured loggers)
	Named map[string]any
	Torn  bool
}

// CheckRecords decides C15 for the records of a run.
func CheckRecords(w *World, recs []*Record, faulty bool) []Violation {
	var out []Violation
	bad := func(kind, f string, a ...any) { out = append(out, Violation{kind, fmt.Sprintf(f, a...)}) }
	for _, c := range w.Calls {
		if !c.Returned {
			continue
		}
		if len(c.Bases) != 1 {
			bad("count", "call %d %s: %d wrapped calls", c.Op.ID, c.Op.Method, len(c.Bases))
			continue
		}
		n := len(w.Viol)
		if !w.passed(c, c.Bases[0], true) {
			out = append(out, w.Viol[n:]...)
			w.Viol = w.Viol[:n]
		}
	}
	if faulty {
		return out
	}
	for _, r := range recs {
		if r.Torn {
			bad("torn", "records of concurrent calls are mixed: %q", r.Text)
			return out
		}
		if r.Call == nil {
			bad("stray", "record outside of any call: %q", r.Text)
			return out
		}
	}
	for _, c := range w.Calls {
		if !c.Returned {
			continue
		}
		b := c.Bases[0]
		id := fmt.Sprintf("call %d %s", c.Op.ID, c.Op.Method)
		var before, after []*Record
		for _, r := range recs {
			if r.Call != c {
				continue
			}
			switch {
			case r.Seq < b.Start:
				before = append(before, r)
			case r.Seq > b.End:
				after = append(after, r)
			default:
				bad("during", "%s: record during the wrapped call: %q", id, r.Text)
			}
		}
		if len(before) != 1 || len(after) != 1 {
			bad("number", "%s: %d records before the wrapped call and %d after it instead of one each", id, len(before), len(after))
			continue
		}
		w.Antec++
		for _, r := range []*Record{before[0], after[0]} {
			if !strings.Contains(r.Text, c.Op.Method) {
				bad("name", "%s: record does not name the method: %q", id, r.Text)
			}
		}
		for i, a := range c.Args {
			if i == 0 && c.M.Ctx {
				continue
			}
			if before[0].refused(a) {
				continue
			}
			if !before[0].carries(a) {
				bad("params", "%s: record %q does not carry parameter %d (%s)", id, before[0].Text, i, showOne(a))
			}
			if Misnamed(before[0].Named, c.M.PNames[i], a) {
				bad("params", "%s: the record has something else than parameter %d (%s) under its name", id, i, showOne(a))
			}
		}
		if !before[0].inOrder(c.Args) {
			bad("params", "%s: record %q does not have the parameters in their places", id, before[0].Text)
		}
		if before[0].Err {
			bad("level", "%s: the record of the call went to the error log", id)
		}
		fail := b.Panic == nil && !b.Goexit && c.M.Err && b.Err != nil
		if after[0].Err != fail {
			bad("level", "%s: method returned an error: %v, record in the error log: %v", id, fail, after[0].Err)
		}
		if b.Panic == nil && !b.Goexit {
			if !after[0].inOrder(b.Results) {
				bad("results", "%s: record %q does not have the results in their places", id, after[0].Text)
			}
			for i, a := range b.Results {
				if after[0].refused(a) {
					continue
				}
				if Misnamed(after[0].Named, c.M.RNames[i], a) {
					bad("results", "%s: the record has something else than result %d (%s) under its name", id, i, showOne(a))
				}
				if !after[0].carries(a) {
					bad("results", "%s: record %q does not carry result %d (%s)", id, after[0].Text, i, showOne(a))
				}
			}
		}
	}
	return out
}

// refused tells whether logrus itself refuses the value: functions and pointers to functions.
func (r *Record) refused(a reflect.Value) bool {
	if r.Vals == nil || !a.IsValid() {
		return false
	}
	if a.Kind() == reflect.Interface && !a.IsNil() {
		a = a.Elem()
	}
	return a.Kind() == reflect.Func || a.Kind() == reflect.Pointer && a.Type().Elem().Kind() == reflect.Func
}

// Misnamed tells whether a map of named values has something else under the name of a value.
func Misnamed(m map[string]any, name string, a reflect.Value) bool {
	x, ok := m[name]
	return ok && name != "" && !sameAs(a, x)
}

func sameAs(a reflect.Value, x any) bool {
	xv := reflect.ValueOf(&x).Elem()
	return same(a, xv) || same(xv, a) || a.IsValid() && a.Kind() != reflect.Interface && x != nil && reflect.TypeOf(x) == a.Type() && same(a, reflect.ValueOf(x))
}

// inOrder tells whether a text has the values one after another.
func (r *Record) inOrder(vs []reflect.Value) bool {
	if r.Vals != nil {
		return true
	}
	rest := r.Text
	for _, a := range vs {
		s := "<nil>"
		if a.IsValid() {
			if a.Type() == ctxType {
				continue
			}
			s = fmt.Sprint(a.Interface())
		}
		_, after, ok := strings.Cut(rest, s)
		if !ok {
			return false
		}
		rest = after
	}
	return true
}

func (r *Record) carries(a reflect.Value) bool {
	if r.Vals == nil {
		if !a.IsValid() {
			return strings.Contains(r.Text, "<nil>")
		}
		return strings.Contains(r.Text, fmt.Sprint(a.Interface()))
	}
	for _, v := range r.Vals {
		if sameAs(a, v) {
			return true
		}
	}
	return false
}

type logKit struct {
	NopKit
	w      *World
	chunks []*chunk
	open   map[bool]*chunk
}

type chunk struct {
	rec  *Record
	done bool
}

func newLogKit(w *World) Kit { return &logKit{w: w, open: map[bool]*chunk{}} }

type logWriter struct {
	k   *logKit
	err bool
}

func (k *logKit) Args() []any {
	return []any{io.Writer(logWriter{k, false}), io.Writer(logWriter{k, true})}
}

var errWrite = errors.New("log device failed")

// WriteFault decides how a log write fails: "", "error" or "short".
func WriteFault(w *World) string {
	if !rt.Active() {
		return ""
	}
	switch w.Sc.flag("wfail") {
	case 1:
		if rt.ChooseP(0.3) == 1 {
			w.fire("log-write-error")
			return "error"
		}
	case 2:
		if rt.ChooseP(0.3) == 1 {
			w.fire("log-short-write")
			return "short"
		}
	}
	return ""
}

func (l logWriter) Write(p []byte) (int, error) {
	k := l.k
	switch WriteFault(k.w) {
	case "error":
		return 0, errWrite
	case "short":
		return len(p) / 2, io.ErrShortWrite
	}
	c, _ := rt.Tag().(*Call)
	text := string(p)
	for text != "" {
		line, rest, nl := strings.Cut(text, "\n")
		text = rest
		o := k.open[l.err]
		if o == nil {
			o = &chunk{rec: &Record{Call: c, Seq: rt.Seq(), Err: l.err}}
			k.open[l.err] = o
			k.chunks = append(k.chunks, o)
		}
		if o.rec.Call != c {
			o.rec.Torn = true
		}
		o.rec.Text += line
		o.rec.Seq = rt.Seq()
		if nl {
			delete(k.open, l.err)
		}
	}
	return len(p), nil
}

func (k *logKit) Check() []Violation {
	var recs []*Record
	for _, c := range k.chunks {
		if k.open[c.rec.Err] == c {
			c.rec.Torn = true
		}
		recs = append(recs, c.rec)
	}
	return CheckRecords(k.w, recs, k.w.Sc.flag("wfail") > 0)
}

// ---- C16, C17, C20

func genC16(r *rand.Rand, u *Unit) *Scenario {
	s := mixed(r, "C16", u, false, 4, 3, 0.4, 0.15)
	for _, o := range s.Ops() {
		for i := range o.Plans {
			if chance(r, 0.15) {
				o.Plans[i].Jump = pick(r, 3600000*ms, -3600000*ms, 5*ms, -5*ms)
			}
		}
	}
	return s
}

func genC17(r *rand.Rand, u *Unit) *Scenario {
	s := mixed(r, "C17", u, true, 4, 2, 0.4, 0.12)
	s.Flags["deco"] = pick(r, 0, 0, 1, 2) // none, given, nil given
	s.Flags["opts"] = r.Intn(4)           // elasticapm: labels, span type
	for _, o := range s.Ops() {
		if u.Template == "elasticapm" {
			o.Span = true
		}
	}
	return s
}

func genC20(r *rand.Rand, u *Unit) *Scenario {
	s := mixed(r, "C20", u, true, 4, 3, 0.3, 0.08)
	for _, o := range s.Ops() {
		for i := range o.Plans {
			if chance(r, 0.4) {
				o.Plans[i].Err = pick(r, "tw", "tw", "tws", "twmeta")
			}
		}
	}
	return s
}

// Passed is passed for kits.
func (w *World) Passed(c *Call, b *Base, errToo bool) bool { return w.passed(c, b, errToo) }

// Bad is bad for kits.
func (w *World) Bad(kind, format string, args ...any) { w.bad(kind, format, args...) }

// Flag reads a scenario flag.
func (w *World) Flag(k string) int { return w.Sc.flag(k) }
