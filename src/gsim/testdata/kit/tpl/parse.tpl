type X struct {{.Interface.Name
