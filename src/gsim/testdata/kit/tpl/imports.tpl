import (
	"fmt"
	"example.com/shop/b/types"
	"os"
	othr "example.com/shop/other"
)

{{ $decorator := (printf "%sImp" .Interface.Name) }}
type {{$decorator}} struct {
	o othr.Option
	k types.Kind
}

func (d {{$decorator}}) Print(at time.Time) { fmt.Fprintln(os.Stderr, d.k, at, "{{len .Interface.Methods}}") }
