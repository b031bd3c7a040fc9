// Package logrus adapts the logrus decorator.
package logrus

import (
	"fmt"
	"io"
	"sort"

	lr "github.com/sirupsen/logrus"

	"vsim/dec"
	"vsim/rt"
)

func init() { dec.Kits["logrus"] = func(w *dec.World) dec.Kit { return &kit{w: w} } }

type kit struct {
	dec.NopKit
	w    *dec.World
	recs []*dec.Record
}

type hook struct{ k *kit }

func (h hook) Levels() []lr.Level { return lr.AllLevels }

func (h hook) Fire(e *lr.Entry) error {
	c, _ := rt.Tag().(*dec.Call)
	r := &dec.Record{Call: c, Seq: rt.Seq(), Text: e.Message, Err: e.Level <= lr.ErrorLevel, Vals: []any{}}
	var keys []string
	for k := range e.Data {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		if k == "base" {
			continue
		}
		r.Vals = append(r.Vals, e.Data[k])
		if r.Named == nil {
			r.Named = map[string]any{}
		}
		r.Named[k] = e.Data[k]
		r.Text += fmt.Sprintf(" %s", k)
	}
	h.k.recs = append(h.k.recs, r)
	return nil
}

type out struct{ k *kit }

func (o out) Write(p []byte) (int, error) {
	switch dec.WriteFault(o.k.w) {
	case "error":
		return 0, io.ErrClosedPipe
	case "short":
		return len(p) / 2, io.ErrShortWrite
	}
	return len(p), nil
}

func (k *kit) Args() []any {
	l := lr.New()
	l.SetLevel(lr.DebugLevel)
	l.SetOutput(out{k})
	l.AddHook(hook{k})
	if k.w.Flag("kit")%2 == 1 {
		l.SetFormatter(&lr.JSONFormatter{DisableTimestamp: true})
	}
	return []any{l.WithField("base", "x")}
}

func (k *kit) Check() []dec.Violation {
	return dec.CheckRecords(k.w, k.recs, false)
}
