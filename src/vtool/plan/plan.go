// Package plan says which decorators the simulation of each property needs.
package plan

import "sort"

// Unit is one decorator to generate.
type Unit struct {
	Pkg      string // package directory below u/
	Template string
	Iface    string
	Same     bool // the source interface lives in the decorator's package
	Name     string
	Vars     map[string]string
}

// ID of a unit.
func (u Unit) ID() string { return u.Pkg + "." + u.Iface }

// All hosted templates and the packages their kits need.
var Kits = map[string]string{
	"logrus": "logrus", "prometheus": "prometheus", "opencensus": "opencensus", "opentracing": "opentracing",
	"opentelemetry": "opentelemetry", "elasticapm": "elasticapm", "twirp_error": "twirp", "twirp_validate": "twirp", "grpc_validate": "grpc",
}

// Templates of each property.
var Templates = map[string][]string{
	"C02": {"circuitbreaker"},
	"C04": {"fallback"}, "C05": {"fallback"}, "C06": {"fallback"},
	"C07": {"ratelimit"}, "C08": {"ratelimit"},
	"C09": {"retry"}, "C10": {"retry"},
	"C11": {"robinpool"}, "C12": {"syncpool"}, "C13": {"timeout"},
	"C14": {"validate", "grpc_validate", "twirp_validate"},
	"C15": {"log", "logrus"}, "C16": {"prometheus"},
	"C17": {"opencensus", "opentracing", "opentelemetry", "elasticapm"},
	"C20": {"twirp_error"},
}

var names = map[string]string{
	"circuitbreaker": "WithCircuitBreaker", "elasticapm": "APMTracing", "fallback": "WithFallback", "grpc_validate": "WithGRPCValidation",
	"log": "WithLog", "logrus": "WithLogrus", "opencensus": "WithTracing", "opentelemetry": "WithTracing", "opentracing": "WithTracing",
	"prometheus": "WithPrometheus", "ratelimit": "WithRateLimit", "retry": "WithRetry", "robinpool": "RoundRobinPool", "syncpool": "Pool",
	"timeout": "WithTimeout", "twirp_error": "WithTwirpError", "twirp_validate": "WithTwirpValidation", "validate": "WithValidation",
}

// All templates, sorted.
func All() []string {
	var l []string
	for t := range names {
		l = append(l, t)
	}
	sort.Strings(l)
	return l
}

// Units of a property.
func Units(id string) []Unit {
	var out []Unit
	add := func(pkg, t, iface string, same bool, custom string) {
		u := Unit{Pkg: pkg, Template: t, Iface: iface, Same: same, Name: iface + names[t], Vars: map[string]string{}}
		if custom != "" {
			u.Name = custom
			u.Vars["DecoratorName"] = custom
		}
		if t == "prometheus" {
			u.Vars["MetricName"] = pkg + "_" + iface + "_seconds"
		}
		out = append(out, u)
	}
	ts := Templates[id]
	if ts == nil {
		ts = All()
	}
	for _, t := range ts {
		x, s := clean(t)+"x", clean(t)+"s"
		switch id {
		case "C01":
			for _, i := range []string{"Anon", "Big", "Codec", "Dotted", "Hidden", "Journal", "Mixed", "Names", "Odd", "Ported", "Relay", "Shadow", "Store", "Svc", "Types", "Uniform", "Users", "Via", "Wide"} {
				add(x, t, i, false, "")
			}
			if t == "fallback" || t == "log" || t == "timeout" {
				for _, i := range []string{"Front", "Handle", "Keeper"} {
					add(x, t, i, false, "")
				}
			}
			add(s, t, "Store", true, "")
			add(s, t, "Svc", true, "Guard")
			add(s, t, "Users", true, "")
			add(s, t, "Via", true, "")
			add(s, t, "Wide", true, "")
			add(s, t, "inner", true, "")
			add(s, t, "Types", true, "")
		case "C03", "C18", "C19":
			for _, i := range []string{"Mixed", "Odd", "Store", "Uniform", "Users"} {
				add(x, t, i, false, "")
			}
		default:
			for _, i := range []string{"Big", "Mixed", "Odd", "Store", "Svc", "Uniform", "Users", "Via", "Wide"} {
				add(x, t, i, false, "")
			}
			add(s, t, "Anon", true, "")
			add(s, t, "Svc", true, "Guard")
		}
	}
	return out
}

func clean(t string) string {
	b := []byte{}
	for i := 0; i < len(t); i++ {
		if t[i] != '_' {
			b = append(b, t[i])
		}
	}
	return string(b)
}

// File is the name of the generated file.
func (u Unit) File() string { return "deco_" + low(u.Iface) + "_gen.go" }

func low(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'A' && c <= 'Z' {
			b[i] = c + 32
		}
	}
	return string(b)
}
