type {{.Interface.Name}}Idx struct{}
{{range $name, $method := .Interface.Methods}}
// {{ index $method.Params 7 }}
{{end}}
