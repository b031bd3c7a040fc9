{{.Import "" "fmt" "\"os\"" " text/tabwriter\"" "\"text/template " "math/rand"}}

{{ $decorator := (printf "%sCalled" .Interface.Name) }}
// {{$decorator}} implements {{.Interface.Type}}
type {{$decorator}}{{.Interface.Generics.Types}} struct {
	base {{.Interface.Type}}{{.Interface.Generics.Params}}
}

func call{{$decorator}}() {
	t, _ := template.New("t").Parse("{{len .Interface.Methods}}")
	t.Execute(tabwriter.NewWriter(os.Stdout, 1, 2, 3, ' ', 0), fmt.Sprint(rand.Int()))
}
{{range $name, $method := .Interface.Methods}}
func (d *{{$decorator}}{{$.Interface.Generics.Params}}) {{$method.Declaration}} {
	{{$method.Pass "d.base."}}
}
{{end}}
