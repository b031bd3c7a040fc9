type {{.Interface.Name}}Inv struct{}
func ( { {{len .Interface.Methods}}
