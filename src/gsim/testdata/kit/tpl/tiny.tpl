type {{.Interface.Name}}Tiny struct{ n [{{len .Interface.Methods}}]int }
