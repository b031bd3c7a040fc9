type {{.Interface.Name}}Mid struct{}
{{range $name, $method := .Interface.Methods}}
// {{$name}}
{{end}}
{{ fail "no luck" }}
