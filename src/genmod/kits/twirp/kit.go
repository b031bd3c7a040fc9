// Package twirp adapts the twirp decorators.
package twirp

import (
	"encoding/json"
	"fmt"
	"reflect"

	tw "github.com/twitchtv/twirp"

	"vsim/dec"
)

func init() {
	dec.ErrCheck["twirp_validate"] = func(got, want error) string {
		e, ok := got.(tw.Error)
		if !ok {
			return fmt.Sprintf("%v is not a Twirp error", got)
		}
		if e.Code() != tw.InvalidArgument {
			return fmt.Sprintf("code %v", e.Code())
		}
		if e.Msg() != want.Error() {
			return fmt.Sprintf("message %q instead of %q", e.Msg(), want.Error())
		}
		return ""
	}
	dec.Kits["twirp_error"] = func(w *dec.World) dec.Kit {
		return &kit{w: w, shared: tw.NewError(tw.Unavailable, "shared").WithMeta("k", "v")}
	}
	dec.ErrKinds["tw"] = func(w *dec.World, t string) error { return tw.NewError(tw.NotFound, "nf "+t) }
	dec.ErrKinds["twmeta"] = func(w *dec.World, t string) error {
		return tw.NewError(tw.PermissionDenied, "pd "+t).WithMeta("who", t).WithMeta("why", "because")
	}
	dec.ErrKinds["tws"] = func(w *dec.World, t string) error {
		if k, ok := w.Kit.(*kit); ok {
			return k.shared
		}
		return tw.NewError(tw.Unavailable, "s "+t)
	}
}

type kit struct {
	dec.NopKit
	w      *dec.World
	shared tw.Error
}

func jsonOf(v reflect.Value) (string, bool) {
	b, err := json.Marshal(v.Interface())
	return string(b), err == nil
}

func chain(e error, want error) bool {
	for i := 0; e != nil && i < 10; i++ {
		if dec.SameErr(e, want) {
			return true
		}
		u, ok := e.(interface{ Unwrap() error })
		if !ok {
			return false
		}
		e = u.Unwrap()
	}
	return false
}

func (k *kit) Check() (out []dec.Violation) {
	bad := func(kind, f string, a ...any) {
		out = append(out, dec.Violation{Kind: kind, Msg: fmt.Sprintf(f, a...)})
	}
	if m := k.shared.MetaMap(); len(m) != 1 || m["k"] != "v" {
		bad("shared", "an error shared by wrapped calls was changed: %v", m)
	}
	for _, c := range k.w.Calls {
		if !c.Returned {
			continue
		}
		id := fmt.Sprintf("call %d %s", c.Op.ID, c.Op.Method)
		if len(c.Bases) != 1 {
			bad("count", "%s: %d wrapped calls", id, len(c.Bases))
			continue
		}
		b := c.Bases[0]
		n := len(k.w.Viol)
		if !k.w.Passed(c, b, b.Err == nil) || b.Panic != nil || b.Goexit || b.Err == nil {
			out = append(out, k.w.Viol[n:]...)
			k.w.Viol = k.w.Viol[:n]
			continue
		}
		if c.Err == nil {
			bad("lost", "%s: the error %v of the wrapped call was lost", id, b.Err)
			continue
		}
		first := 0
		if c.M.Ctx {
			first = 1
		}
		if first >= len(c.Args) {
			continue // no request to add
		}
		k.w.Antec++
		e, ok := c.Err.(tw.Error)
		if !ok {
			bad("type", "%s: %T is not a Twirp error", id, c.Err)
			continue
		}
		if want, ok := jsonOf(c.Args[first]); ok && e.Meta("request") != want {
			bad("request", "%s: request metadata is %q instead of %q", id, e.Meta("request"), want)
		}
		if o, ok := b.Err.(tw.Error); ok {
			if e.Code() != o.Code() || e.Msg() != o.Msg() {
				bad("identity", "%s: %v %q instead of %v %q", id, e.Code(), e.Msg(), o.Code(), o.Msg())
			}
			for mk, mv := range o.MetaMap() {
				if mk != "request" && e.Meta(mk) != mv {
					bad("identity", "%s: metadata %s is %q instead of %q", id, mk, e.Meta(mk), mv)
				}
			}
			continue
		}
		if e.Code() != tw.Internal || !chain(e, b.Err) {
			bad("identity", "%s: %v %q does not wrap %v as an internal error", id, e.Code(), e.Msg(), b.Err)
		}
	}
	return out
}
