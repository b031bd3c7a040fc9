import(
	"strings"
	"fmt"
)

{{ $decorator := (printf "%sVars" .Interface.Name) }}
type {{$decorator}}{{.Interface.Generics.Types}} struct { {{.Interface.Type}}{{.Interface.Generics.Params}} }

// variables: {{range $k, $v := .Vars}}{{$k}}={{$v}} {{end}}
{{ if .Vars.extra }}func init() { fmt.Println(strings.ToUpper({{ .Vars.extra | toString | quote }})) }{{ end }}
{{range $name, $method := .Interface.Methods}}
/* {{$name}} {{$method.Signature}} {{$method.Call}} {{$method.ParamsNames}} {{$method.ResultsNames}} */
{{end}}
