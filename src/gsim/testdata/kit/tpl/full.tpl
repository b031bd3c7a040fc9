{{ $decorator := (or .Vars.Name (printf "%sFull" .Interface.Name)) }}
// {{$decorator}} implements {{.Interface.Type}}
type {{$decorator}}{{.Interface.Generics.Types}} struct {
	base {{.Interface.Type}}{{.Interface.Generics.Params}}
}

{{range $name, $method := .Interface.Methods}}
{{range $method.Doc}}{{.}}
{{end}}func (d *{{$decorator}}{{$.Interface.Generics.Params}}) {{$method.Declaration}} {
	{{if $method.AcceptsContext}}_ = ctx{{end}}
	{{if $method.ReturnsError}}_ = err{{end}}
	{{$method.Pass "d.base."}}
}
{{end}}
