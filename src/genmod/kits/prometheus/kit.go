// Package prometheus adapts the prometheus decorator.
package prometheus

import (
	"fmt"
	"math"
	"reflect"
	"strings"

	prom "github.com/prometheus/client_golang/prometheus"
	"github.com/prometheus/client_golang/prometheus/collectors"
	dto "github.com/prometheus/client_model/go"

	"vsim/dec"
)

func init() {
	prom.Unregister(collectors.NewGoCollector())
	prom.Unregister(collectors.NewProcessCollector(collectors.ProcessCollectorOpts{}))
	dec.Kits["prometheus"] = func(w *dec.World) dec.Kit { return &kit{w: w} }
}

type kit struct {
	dec.NopKit
	w    *dec.World
	name string
	from map[key]val
	viol []dec.Violation
}

type key struct{ method, result string }
type val struct {
	n   uint64
	sum float64
}

func (k *kit) Args() []any {
	k.name = fmt.Sprintf("inst%d", k.w.Flag("kit"))
	if c, ok := find(k.metric()).(interface{ Reset() }); ok {
		c.Reset()
	}
	k.from = k.read()
	return []any{k.name}
}

func (k *kit) metric() string { return k.w.U.Vars["MetricName"] }

// collectors by the names of their metrics, as far as they are known
var known map[string]prom.Collector

// find looks for the collector of a metric in the default registry. It is only a matter of
// speed: one that isn't found is read by gathering all metrics.
func find(name string) prom.Collector {
	if known != nil {
		return known[name]
	}
	known = map[string]prom.Collector{}
	reg, ok := prom.DefaultRegisterer.(*prom.Registry)
	if !ok {
		return nil
	}
	f := reflect.ValueOf(reg).Elem().FieldByName("collectorsByID")
	var all map[uint64]prom.Collector
	if !f.IsValid() || f.Type() != reflect.TypeOf(all) {
		return nil
	}
	for _, c := range *(*map[uint64]prom.Collector)(f.Addr().UnsafePointer()) {
		ch := make(chan *prom.Desc, 64)
		c.Describe(ch)
		close(ch)
		for d := range ch {
			if _, rest, ok := strings.Cut(d.String(), `fqName: "`); ok {
				n, _, _ := strings.Cut(rest, `"`)
				known[n] = c
			}
		}
	}
	return known[name]
}

func (k *kit) read() map[key]val {
	m := map[key]val{}
	add := func(x *dto.Metric) {
		var inst, meth, res string
		for _, l := range x.Label {
			switch {
			case l.GetValue() == k.name:
				inst = l.GetValue()
			case strings.Contains(l.GetName(), "method"):
				meth = l.GetValue()
			case l.GetName() == "result":
				res = l.GetValue()
			}
		}
		if inst != "" {
			m[key{meth, res}] = val{x.GetSummary().GetSampleCount(), x.GetSummary().GetSampleSum()}
		}
	}
	if c := find(k.metric()); c != nil {
		ch := make(chan prom.Metric, 1<<12)
		c.Collect(ch)
		close(ch)
		for x := range ch {
			var d dto.Metric
			if err := x.Write(&d); err != nil {
				panic(err)
			}
			add(&d)
		}
		return m
	}
	fams, err := prom.DefaultGatherer.Gather()
	if err != nil {
		panic(err)
	}
	for _, f := range fams {
		if f.GetName() == k.metric() {
			for _, x := range f.Metric {
				add(x)
			}
		}
	}
	return m
}

func (k *kit) diff() map[key]val {
	d := map[key]val{}
	for x, v := range k.read() {
		o := k.from[x]
		if v.n != o.n {
			d[x] = val{v.n - o.n, v.sum - o.sum}
		}
	}
	return d
}

func (k *kit) bad(kind, f string, a ...any) {
	k.viol = append(k.viol, dec.Violation{Kind: kind, Msg: fmt.Sprintf(f, a...)})
}

// when a call ends its observation must be there
func (k *kit) CallEnd(c *dec.Call) {
	if k.w.Sc.Prop != "C16" || len(k.viol) > 0 {
		return
	}
	ended, running := map[string]uint64{}, map[string]uint64{}
	for _, c := range k.w.Calls {
		if c.Returned {
			ended[c.Op.Method]++
		} else {
			running[c.Op.Method]++
		}
	}
	got := map[string]uint64{}
	for x, v := range k.diff() {
		got[x.method] += v.n
	}
	m := c.Op.Method
	if got[m] < ended[m] || got[m] > ended[m]+running[m] {
		k.bad("when", "%d calls of %s have ended and %d are in progress, %d observations", ended[m], m, running[m], got[m])
	}
}

func (k *kit) Check() []dec.Violation {
	want := map[key]val{}
	for _, c := range k.w.Calls {
		if !c.Returned {
			return k.viol
		}
		res := "ok"
		if c.Err != nil {
			res = "error"
		}
		x := key{c.Op.Method, res}
		v := want[x]
		v.n++
		v.sum += float64(c.EndT-c.StartT) / 1e9
		want[x] = v
		k.w.Antec++
		if len(c.Bases) != 1 {
			k.bad("count", "call %d %s: %d wrapped calls", c.Op.ID, c.Op.Method, len(c.Bases))
		}
	}
	got := k.diff()
	for _, c := range k.w.Calls {
		for _, res := range []string{"ok", "error"} {
			x := key{c.Op.Method, res}
			g, w := got[x], want[x]
			if g.n != w.n {
				k.bad("observations", "%s/%s: %d observations, %d calls", x.method, x.result, g.n, w.n)
				return k.viol
			}
			if math.Abs(g.sum-w.sum) > 1e-6+1e-9*w.sum {
				k.bad("duration", "%s/%s: observed durations add up to %.9fs, the calls took %.9fs", x.method, x.result, g.sum, w.sum)
				return k.viol
			}
		}
	}
	n, m := uint64(0), uint64(0)
	for _, v := range got {
		n += v.n
	}
	for _, v := range want {
		m += v.n
	}
	if n != m {
		k.bad("observations", "%d observations for %d calls", n, m)
	}
	return k.viol
}
