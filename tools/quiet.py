#!/usr/bin/env python3
"""Edits of gowrap that keep its behaviour: the checks have to stay quiet on them.
usage: quiet.py [name ...]   runs the checks named with each edit against a copy of /repo"""
import os, subprocess, sys, shutil, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
Q = {}

def quiet(name, props, *edits):
    Q[name] = (props, edits)

# ---- templates -------------------------------------------------------------------------------
quiet("breaker-mutex-only", "C01 C02 C03 C18 C19", ("templates/circuitbreaker", [
    ("  _lock sync.RWMutex", "  _lock sync.Mutex"),
    ("""      _d._lock.RLock()

      if _d._closesAt != nil && _d._closesAt.After(time.Now()) {
        _d._lock.RUnlock()
        err = errors.New("{{$decorator}}: circuit is open")
        return
      }
      _d._lock.RUnlock()
""", """      if _d.isOpen() {
        err = errors.New("{{$decorator}}: circuit is open")
        return
      }
"""),
    ("""      _d._lock.Lock()
      defer _d._lock.Unlock()

      if err == nil {
        _d._consecutiveErrors = 0
        _d._closesAt = nil
        return
      }

      for _, _e := range _d._ignoreErrors {
        if errors.Is(err, _e) {
          _d._consecutiveErrors = 0
          _d._closesAt = nil
          return
        }
      }

      _d._consecutiveErrors++

      if _d._consecutiveErrors >= _d._maxConsecutiveErrors {
        closesAt := time.Now().Add(_d._openInterval)
        _d._closesAt = &closesAt
      }

      return 
    }
""", """      _d.completed(err)
      return
    }
"""),
    ("{{range $method := .Interface.Methods}}\n  {{- if $method.ReturnsError}}", """
func (_d *{{$decorator}}) isOpen() bool {
  _d._lock.Lock()
  defer _d._lock.Unlock()
  return _d._closesAt != nil && time.Until(*_d._closesAt) > 0
}

func (_d *{{$decorator}}) ignored(err error) bool {
  for _, _e := range _d._ignoreErrors {
    if errors.Is(err, _e) {
      return true
    }
  }
  return false
}

func (_d *{{$decorator}}) completed(err error) {
  _d._lock.Lock()
  defer _d._lock.Unlock()

  switch {
  case err == nil, _d.ignored(err):
    _d._consecutiveErrors = 0
    _d._closesAt = nil
  default:
    _d._consecutiveErrors++
    if _d._consecutiveErrors >= _d._maxConsecutiveErrors {
      closesAt := time.Now().Add(_d._openInterval)
      _d._closesAt = &closesAt
    }
  }
}

{{range $method := .Interface.Methods}}
  {{- if $method.ReturnsError}}"""),
]))
quiet("breaker-atomic-time", "C02 C03 C19", ("templates/circuitbreaker", [
    ('  "sync"\n' if False else '\t"sync"\n', '\t"sync"\n\t"sync/atomic"\n'),
    ("  _closesAt *time.Time", "  _closesAt atomic.Pointer[time.Time]"),
    ("""      _d._lock.RLock()

      if _d._closesAt != nil && _d._closesAt.After(time.Now()) {
        _d._lock.RUnlock()
""", """      if _at := _d._closesAt.Load(); _at != nil && time.Now().Before(*_at) {
"""),
    ("      _d._lock.RUnlock()\n\n      {{$method.ResultsNames}}", "      {{$method.ResultsNames}}"),
    ("        _d._closesAt = nil\n        return\n      }\n\n      for", "        _d._closesAt.Store(nil)\n        return\n      }\n\n      for"),
    ("          _d._closesAt = nil", "          _d._closesAt.Store(nil)"),
    ("        _d._closesAt = &closesAt", "        _d._closesAt.Store(&closesAt)"),
]))
quiet("retry-helper", "C01 C09 C10 C18 C19", ("templates/retry", [
    ("""      _ticker:= time.NewTicker(_d._retryInterval)
      defer _ticker.Stop()
      for _i := 0; _i < _d._retryCount && err != nil; _i++ {
        {{- if $method.AcceptsContext}}
          select {
          case <-ctx.Done():
            return
          case <-_ticker.C:
          }
        {{else}}
          <-_ticker.C
        {{end -}}
        {{$method.ResultsNames}} = _d.{{$.Interface.Name}}.{{$method.Call}}
      }
      return
""", """      _ticker:= time.NewTicker(_d._retryInterval)
      defer func() {
        _ticker.Stop()
      }()
      _left := _d._retryCount
      for {
        {{- if $method.AcceptsContext}}
          _stop := false
          select {
          case <-_ticker.C:
          case <-ctx.Done():
            _stop = true
          }
          if _stop {
            return
          }
        {{else}}
          select {
          case <-_ticker.C:
          }
        {{end -}}
        {{$method.ResultsNames}} = _d.{{$.Interface.Name}}.{{$method.Call}}
        _left--
        if err == nil || _left == 0 {
          return
        }
      }
"""),
]))
quiet("retry-timer-reset", "C09 C10 C18 C19", ("templates/retry", [
    ("      _ticker:= time.NewTicker(_d._retryInterval)\n      defer _ticker.Stop()\n",
     "      _timer := time.NewTimer(_d._retryInterval)\n      defer _timer.Stop()\n"),
    ("          case <-_ticker.C:\n          }", "          case <-_timer.C:\n          }"),
    ("          <-_ticker.C\n", "          <-_timer.C\n"),
    ("        {{$method.ResultsNames}} = _d.{{$.Interface.Name}}.{{$method.Call}}\n      }\n      return",
     "        {{$method.ResultsNames}} = _d.{{$.Interface.Name}}.{{$method.Call}}\n        _timer.Reset(_d._retryInterval)\n      }\n      return"),
]))
quiet("fallback-helpers", "C01 C03 C04 C05 C06 C18 C19", ("templates/fallback", [
    ("      var _ch = make(chan _resultStruct, len(_d.implementations))\n", "      _total := len(_d.implementations)\n      _ch := make(chan _resultStruct, _total)\n"),
    ("      go func() {\n        for _i :=0; _i < len(_d.implementations); _i++ {\n          go func(_impl {{$.Interface.Type}}) {",
     "      _start := func() {\n        for _i, _impl := range _d.implementations {\n          _impl := _impl\n          _run := func() {"),
    ("          }(_d.implementations[_i])\n", "          }\n          go _run()\n"),
    ("          if _i < len(_d.implementations) - 1 {\n            select {\n              case <-_next:\n              case <-_ticker.C:\n              case <-_done:\n                return\n            }\n          }\n        }\n      }()\n",
     "          if _i == _total - 1 {\n            break\n          }\n          select {\n            case <-_done:\n              return\n            case <-_ticker.C:\n            case <-_next:\n          }\n        }\n      }\n      go _start()\n"),
    ("if len(_errorsList) == len(_d.implementations) {", "if _total == len(_errorsList) {"),
]))
quiet("fallback-timer", "C04 C05 C06 C18 C19", ("templates/fallback", [
    ("            {{else}}\n              select {\n                case _ch <- _resultStruct{ {{$method.ResultsNames}} }:\n                default:\n              }\n            {{end}}",
     "            {{else}}\n              _ch <- _resultStruct{ {{$method.ResultsNames}} }\n            {{end}}"),
    ("              select {\n                case _ch <- _resultStruct{ {{$method.ResultsNames}} }:\n                case <-ctx.Done():\n              }",
     "              _ch <- _resultStruct{ {{$method.ResultsNames}} }"),
]))
quiet("ratelimit-loop", "C01 C03 C07 C08 C18 C19", ("templates/ratelimit", [
    ("""    for t := range time.Tick(delay) {
      // allowances over the burst are not kept
      select {
      case d._ticks <- t:
      default:
      }
    }
""", """    ticker := time.NewTicker(delay)
    defer ticker.Stop()
    for {
      t := <-ticker.C
      d.put(t)
    }
"""),
    ("{{range $method := .Interface.Methods}}\n", """
// put stores an allowance unless there's a full burst of them already
func (_d *{{$decorator}}) put(t time.Time) {
  select {
  case _d._ticks <- t:
  default:
  }
}

{{range $method := .Interface.Methods}}
"""),
    ("  now := time.Now()\n  for i := 0; i < burst; i++ {\n    d._ticks <- now \n  }\n", "  for len(d._ticks) < cap(d._ticks) {\n    d._ticks <- time.Now()\n  }\n"),
]))
quiet("robin-mutex", "C01 C03 C11 C18 C19", ("templates/robinpool", [
    ('\t"sync/atomic"\n', '\t"sync"\n'),
    ("  counter uint32\n", "  mu sync.Mutex\n  next uint32\n"),
    ("    _counter := atomic.AddUint32(&_d.counter, 1)\n    {{ $method.Pass \"_d.pool[_counter % _d.poolSize].\" }}",
     "    {{ $method.Pass \"_d.pick().\" }}"),
    ("{{range $method := .Interface.Methods}}\n", """
func (_d *{{$decorator}}) pick() {{.Interface.Type}} {
  _d.mu.Lock()
  defer _d.mu.Unlock()
  _impl := _d.pool[_d.next]
  _d.next++
  if _d.next == _d.poolSize {
    _d.next = 0
  }
  return _impl
}

{{range $method := .Interface.Methods}}
"""),
]))
quiet("robin-atomic-type", "C11 C19", ("templates/robinpool", [
    ("  counter uint32\n", "  counter atomic.Uint32\n"),
    ("atomic.AddUint32(&_d.counter, 1)", "_d.counter.Add(1) - 1"),
]))
quiet("syncpool-cond", "C01 C03 C12 C18 C19", ("templates/syncpool", [
    ("type {{$decorator}} struct {\n  pool chan {{.Interface.Type}}\n}", "type {{$decorator}} struct {\n  *{{downFirst $decorator}}Free\n}\n\ntype {{downFirst $decorator}}Free struct {\n  mu sync.Mutex\n  cond *sync.Cond\n  free []{{.Interface.Type}}\n}\n\nfunc (_p *{{downFirst $decorator}}Free) get() {{.Interface.Type}} {\n  _p.mu.Lock()\n  defer _p.mu.Unlock()\n  for len(_p.free) == 0 {\n    _p.cond.Wait()\n  }\n  _impl := _p.free[0]\n  _p.free = _p.free[1:]\n  return _impl\n}\n\nfunc (_p *{{downFirst $decorator}}Free) put(_impl {{.Interface.Type}}) {\n  _p.mu.Lock()\n  _p.free = append(_p.free, _impl)\n  _p.mu.Unlock()\n  _p.cond.Signal()\n}"),
    ("  pool := make(chan {{.Interface.Type}}, len(impls))\n  for _, i := range impls {\n    pool <- i\n  }\n  \n  return {{$decorator}}{pool: pool}",
     "  _p := &{{downFirst $decorator}}Free{free: append([]{{.Interface.Type}}(nil), impls...)}\n  _p.cond = sync.NewCond(&_p.mu)\n  return {{$decorator}}{_p}"),
    ("      _impl := <-_d.pool\n      defer func() {\n        _d.pool <- _impl\n      }()\n", "      _impl := _d.get()\n      defer _d.put(_impl)\n"),
    ("{{ $decorator :=", "import \"sync\"\n{{ $decorator :="),
]))
quiet("timeout-deadline", "C01 C13 C18 C19", ("templates/timeout", [
    ("        ctx, _cancelFunc = context.WithTimeout(ctx, _d.config.{{$method.Name}}Timeout)\n",
     "        ctx, _cancelFunc = context.WithDeadline(ctx, time.Now().Add(_d.config.{{$method.Name}}Timeout))\n"),
]))
quiet("prometheus-helper", "C01 C16 C19", ("templates/prometheus", [
    ("""      defer func() {
        result := "ok"
        {{- if $method.ReturnsError}}
          if err != nil {
            result = "error"
          }
        {{end}}
        {{down $.Interface.Name}}DurationSummaryVec.WithLabelValues(_d.instanceName, "{{$method.Name}}", result).Observe(time.Since(_since).Seconds())
      }()
""", """      defer func() {
        {{- if $method.ReturnsError}}
        _d.observe("{{$method.Name}}", _since, err)
        {{- else}}
        _d.observe("{{$method.Name}}", _since, nil)
        {{- end}}
      }()
"""),
    ("{{range $method := .Interface.Methods}}\n", """
func (_d {{$decorator}}) observe(method string, since time.Time, err error) {
  result := "ok"
  if err != nil {
    result = "error"
  }
  {{down $.Interface.Name}}DurationSummaryVec.With(prometheus.Labels{"instance_name": _d.instanceName, "method": method, "result": result}).Observe(time.Now().Sub(since).Seconds())
}

{{range $method := .Interface.Methods}}
"""),
]))

# ---- the command -----------------------------------------------------------------------------
quiet("loader-structure", "G05 G06 G07 G08 G09 G03", ("loader/loader.go", [
    ("""	req, err := http.NewRequest("GET", url, nil)
	if err != nil {
		return nil, err
	}

	resp, err := l.client.Do(req)
	if err != nil {
		return nil, err
	}

	defer func() {
		if closeErr := resp.Body.Close(); closeErr != nil {
			err = closeErr
		}
	}()

	if resp.StatusCode != http.StatusOK {
		return nil, errors.Wrapf(errUnexpectedStatusCode, "%d", resp.StatusCode)
	}

	return io.ReadAll(resp.Body)
}
""", """	req, err := http.NewRequestWithContext(context.Background(), http.MethodGet, url, http.NoBody)
	if err != nil {
		return nil, err
	}

	resp, err := l.client.Do(req)
	if err != nil {
		return nil, err
	}

	b, err = readResponse(resp)
	if closeErr := resp.Body.Close(); closeErr != nil {
		return b, closeErr
	}

	return b, err
}

func readResponse(resp *http.Response) ([]byte, error) {
	if code := resp.StatusCode; code != http.StatusOK {
		return nil, errors.Wrapf(errUnexpectedStatusCode, "%d", code)
	}

	var buf bytes.Buffer
	if _, err := buf.ReadFrom(resp.Body); err != nil {
		return nil, err
	}

	return append([]byte{}, buf.Bytes()...), nil
}
"""),
    ("""	if strings.HasPrefix(path, "https://") || strings.HasPrefix(path, "http://") {
		body, err := l.get(path)
		return body, path, err
	}

	if strings.HasPrefix(path, "file://") {
		templatePath := path[len("file://"):]

		if _, err := os.Stat(templatePath); os.IsNotExist(err) {
			templatePath, err := l.absGitPath(templatePath)
			if err != nil {
				return tmpl, templatePath, err
			}

			body, err := os.ReadFile(templatePath)
			return body, templatePath, err
		}

		body, err := os.ReadFile(templatePath)
		return body, templatePath, err
	}

	return l.fetchFromGithub(path)
}
""", """	switch {
	case strings.HasPrefix(path, "https://"), strings.HasPrefix(path, "http://"):
		tmpl, err = l.get(path)
		return tmpl, path, err
	case strings.HasPrefix(path, "file://"):
		url, err = l.locate(strings.TrimPrefix(path, "file://"))
		if err != nil {
			return nil, url, err
		}
		tmpl, err = os.ReadFile(url)
		return tmpl, url, err
	default:
		return l.fetchFromGithub(path)
	}
}

func (l Loader) locate(templatePath string) (string, error) {
	_, err := os.Stat(templatePath)
	if errors.Is(err, fs.ErrNotExist) {
		return l.absGitPath(templatePath)
	}
	return templatePath, nil
}
"""),
    ("""	"encoding/json"
	"fmt"
	"io"
""", """	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io/fs"
"""),
    ("""		if strings.HasPrefix(leaf.Path, templatesPathPrefix) && leaf.Path != templatesPathPrefix {
			path := strings.Replace(leaf.Path, templatesPathPrefix, "", 1)
			result = append(result, path)
		}
""", """		name, ok := strings.CutPrefix(leaf.Path, templatesPathPrefix)
		if !ok || name == "" {
			continue
		}
		result = append(result, name)
"""),
]))
quiet("loader-json-struct", "G06 G07 G08", ("loader/loader.go", [
    ("	commits := []struct{ SHA string }{}\n	if err = json.Unmarshal(body, &commits); err != nil {\n		return nil, \"\", errors.Wrap(err, \"failed to decode commit info\")\n	}\n\n	if len(commits) == 0 {\n		return nil, \"\", errTemplateNotFound\n	}\n\n	url := fmt.Sprintf(urlFormatRaw, commits[0].SHA, templateName)\n",
     "	sha, err := latest(body)\n	if err != nil {\n		return nil, \"\", err\n	}\n\n	url := fmt.Sprintf(urlFormatRaw, sha, templateName)\n"),
    ("var errTemplateNotFound", "type commit struct {\n	SHA string `json:\"sha\"`\n}\n\nfunc latest(body []byte) (string, error) {\n	var commits []commit\n	if err := json.Unmarshal(body, &commits); err != nil {\n		return \"\", errors.Wrap(err, \"failed to decode commit info\")\n	}\n\n	for _, c := range commits {\n		return c.SHA, nil\n	}\n\n	return \"\", errTemplateNotFound\n}\n\nvar errTemplateNotFound"),
]))
quiet("gen-structure", "G01 G03 G04 G05 G07 G09", ("cmd_generate.go", [
    ("""	buf := bytes.NewBuffer([]byte{})

	if err := gen.Generate(buf); err != nil {
		return err
	}

	if err := os.MkdirAll(filepath.Dir(gc.outputFile), os.ModePerm); err != nil {
		return err
	}

	return gc.filepath.WriteFile(gc.outputFile, buf.Bytes(), 0664)
}
""", """	var buf bytes.Buffer
	if err = gen.Generate(&buf); err == nil {
		err = gc.save(buf.Bytes())
	}

	return err
}

func (gc *GenerateCommand) save(code []byte) error {
	dir := filepath.Dir(gc.outputFile)
	if info, err := os.Stat(dir); err != nil || !info.IsDir() {
		if err := os.MkdirAll(dir, os.ModePerm); err != nil {
			return err
		}
	}

	return gc.filepath.WriteFile(gc.outputFile, code, 0664)
}
"""),
    ("""	if gc.outputFile == "" {
		return errNoOutputFile
	}

	if gc.interfaceName == "" {
		return errNoInterfaceName
	}

	if gc.template == "" {
		return errNoTemplate
	}

	return nil
""", """	required := []struct {
		value string
		err   error
	}{{gc.outputFile, errNoOutputFile}, {gc.interfaceName, errNoInterfaceName}, {gc.template, errNoTemplate}}

	for _, r := range required {
		if r.value == "" {
			return r.err
		}
	}

	return nil
"""),
    ("""	tmpl, err = l.fileReader(template)
	if err != nil {
		if !os.IsNotExist(err) {
			return
		}

		return l.remoteLoader.Load(template)
	}

	return tmpl, template, err
""", """	tmpl, err = l.fileReader(template)
	switch {
	case err == nil:
		return tmpl, template, nil
	case os.IsNotExist(err):
		return l.remoteLoader.Load(template)
	default:
		return tmpl, "", err
	}
"""),
    ("""	return " -v " + strings.Join(ss, " -v ")
""", """	var sb strings.Builder
	for _, s := range ss {
		sb.WriteString(" -v ")
		sb.WriteString(s)
	}
	return sb.String()
"""),
]))
quiet("gen-stats-template", "G03 G05 G07", ("cmd_generate.go", [
    ("		loader: loader{fileReader: os.ReadFile, remoteLoader: l},", "		loader: loader{fileReader: readWhole, remoteLoader: l},"),
    ("// Load implements templateLoader\n", "func readWhole(path string) ([]byte, error) {\n	f, err := os.Open(path)\n	if err != nil {\n		return nil, err\n	}\n	defer f.Close()\n	return io.ReadAll(f)\n}\n\n// Load implements templateLoader\n"),
]))
quiet("write-file-createtemp", "G03 G04 G08 G09", ("write_file.go", [
    ("	dir, base := filepath.Split(filename)\n\n	for i := 0; ; i++ {\n		name := filepath.Join(dir, fmt.Sprintf(\".%s.%d-%d.tmp\", base, os.Getpid(), i))\n\n		f, err := os.OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_EXCL, perm)\n		if os.IsExist(err) && i < 1000 {\n			continue\n		}\n\n		return f, err\n	}\n",
     "	f, err := os.CreateTemp(filepath.Dir(filename), \".\"+filepath.Base(filename)+\".*.tmp\")\n	if err != nil {\n		return nil, err\n	}\n	if err := f.Chmod(perm &^ 0022); err != nil {\n		f.Close()\n		os.Remove(f.Name())\n		return nil, err\n	}\n	return f, nil\n"),
    ('	"fmt"\n', ''),
]))
quiet("write-file-structure", "G03 G04 G08 G09", ("write_file.go", [
    ("	_, err = tmp.Write(data)\n	if closeErr := tmp.Close(); err == nil {\n		err = closeErr\n	}\n	if err != nil {\n		return err\n	}\n",
     "	if err = fill(tmp, data); err != nil {\n		return err\n	}\n"),
    ("// createTemp creates", "func fill(f *os.File, data []byte) error {\n	if _, err := io.Copy(f, bytes.NewReader(data)); err != nil {\n		f.Close()\n		return err\n	}\n	if err := f.Sync(); err != nil {\n		f.Close()\n		return err\n	}\n	return f.Close()\n}\n\n// createTemp creates"),
    ('	"fmt"\n', '	"bytes"\n	"fmt"\n	"io"\n'),
]))
quiet("template-structure", "G08 G09", ("cmd_template.go", [
    ("""	if _, err := fmt.Fprintln(w, "List of available remote templates:"); err != nil {
		return err
	}
	for _, t := range templates {
		if _, err := fmt.Fprintf(w, "  %s\\n", t); err != nil {
			return err
		}
	}

	return nil
""", """	lines := []string{"List of available remote templates:\\n"}
	for i := range templates {
		lines = append(lines, "  "+templates[i]+"\\n")
	}

	_, err = io.WriteString(w, strings.Join(lines, ""))
	return err
"""),
    ('	"os"\n', '	"os"\n	"strings"\n'),
    ("""	subcommand := args[0]
	switch subcommand {
	case "list":
		return gc.list(w)
	case "copy":
		return gc.fetch(w, writeFile, args[1:])
	}
	return errUnknownSubcommand
""", """	name, rest := args[0], args[1:]
	if name == "list" {
		return gc.list(w)
	} else if name == "copy" {
		return gc.fetch(w, writeFile, rest)
	}
	return errUnknownSubcommand
"""),
]))
quiet("main-run", "G03 G09 G08", ("cmd/gowrap/gowrap.go", [
    ("""	if err := command.Run(args[1:], os.Stdout); err != nil {
		if _, ok := err.(gowrap.CommandLineError); ok {
			die(2, "%s\\nRun 'gowrap help %s' for usage.\\n", err.Error(), args[0])
		}
		die(1, "%s", err)
	}
}
""", """	os.Exit(run(command, args[0], args[1:]))
}

func run(command gowrap.Command, name string, args []string) int {
	err := command.Run(args, os.Stdout)
	if err == nil {
		return 0
	}

	var usage gowrap.CommandLineError
	if errors.As(err, &usage) {
		if _, err := os.Stderr.WriteString(fmt.Sprintf("%s\\nRun 'gowrap help %s' for usage.\\n\\n", err, name)); err != nil {
			return 1
		}
		return 2
	}

	fmt.Fprintln(os.Stderr, err)
	return 1
}
"""),
]))
quiet("command-usage", "G09", ("command.go", [
    ("	_, err := w.Write([]byte(b.Help))\n	return err\n", "	_, err := io.WriteString(w, b.Help)\n	return err\n"),
    ("	return usageTemplate.Execute(w, struct {\n		Commands map[string]Command\n		Version  string\n	}{commands, version})\n",
     "	data := struct {\n		Commands map[string]Command\n		Version  string\n	}{Commands: commands, Version: version}\n\n	var buf bytes.Buffer\n	if err := usageTemplate.Execute(&buf, data); err != nil {\n		return err\n	}\n	_, err := buf.WriteTo(w)\n	return err\n"),
    ('import (\n', 'import (\n	"bytes"\n'),
]))
quiet("generator-imports", "G01 G02 C01", ("generator/generator.go", [
    ("	out := make([]string, 0, len(allImports))\n\n	for i := range allImports {\n		out = append(out, i)\n	}\n\n	sort.Strings(out)\n",
     "	out := slices.Sorted(maps.Keys(allImports))\n"),
    ('	"io"\n', '	"io"\n	"maps"\n	"slices"\n'),
    ('	"sort"\n', ''),
]))

quiet("log-helper", "C01 C15 C19", ("templates/log", [
    ("        _d._stdlog.Println(_params...)\n", "        _d._write(false, _params...)\n"),
    ('        _d._stdlog.Println("{{$decorator}}: calling {{$method.Name}}")\n', '        _d._write(false, "{{$decorator}}: calling {{$method.Name}}")\n'),
    ("""            if err != nil {
              _d._errlog.Println(_results...)
            } else {
              _d._stdlog.Println(_results...)
            }
""", """            _d._write(err != nil, _results...)
"""),
    ("""          {{else}}   
            _d._stdlog.Println(_results...)
""", """          {{else}}
            _d._write(false, _results...)
"""),
    ('          _d._stdlog.Println("{{$decorator}}: {{$method.Name}} finished")\n', '          _d._write(false, "{{$decorator}}: {{$method.Name}} finished")\n'),
    ("{{range $method := .Interface.Methods}}\n", """func (_d {{$decorator}}) _write(failed bool, record ...interface{}) {
  l := _d._stdlog
  if failed {
    l = _d._errlog
  }
  l.Print(fmt.Sprintln(record...))
}

{{range $method := .Interface.Methods}}
"""),
    ('  "io"\n', '  "fmt"\n  "io"\n'),
]))
quiet("logrus-fields", "C01 C15 C19", ("templates/logrus", [
    ("""            if err != nil {
              _d._log.WithFields(logrus.Fields({{$method.ResultsMap}})).Error("{{$decorator}}: method {{$method.Name}} returned an error" )
            } else {
              _d._log.WithFields(logrus.Fields({{$method.ResultsMap}})).Debug("{{$decorator}}: method {{$method.Name}} finished")
            }
""", """            _level, _message := logrus.DebugLevel, "finished"
            if err != nil {
              _level, _message = logrus.ErrorLevel, "returned an error"
            }
            _d._log.WithFields({{$method.ResultsMap}}).Log(_level, "{{$decorator}}: method {{$method.Name}} " + _message)
"""),
]))
quiet("validate-closures", "C01 C14 C19", ("templates/validate", [
    ("""          if _v, _ok := interface{}({{$param.Name}}).(interface{ Validate() error}); _ok {
            if err = _v.Validate(); err != nil {
              return
            }
          }
""", """          err = validate{{$decorator}}({{$param.Name}})
          if err != nil {
            return
          }
"""),
    ("{{range $method := .Interface.Methods}}\n", """func validate{{$decorator}}(v interface{}) error {
  x, ok := v.(interface{ Validate() error })
  if !ok {
    return nil
  }
  return x.Validate()
}

{{range $method := .Interface.Methods}}
"""),
]), ("templates/grpc_validate", [
    ("            err = grpc_status.Error(grpc_codes.InvalidArgument, err.Error())\n", "            err = grpc_status.New(grpc_codes.InvalidArgument, err.Error()).Err()\n"),
]), ("templates/twirp_validate", [
    ("              err = twirp.NewError(twirp.InvalidArgument, err.Error())\n", "              err = twirp.InvalidArgument.Error(err.Error())\n"),
]))
quiet("spans", "C01 C17 C19", ("templates/opentelemetry", [
    ("  defer func() {\n    if _d._spanDecorator != nil {", "  defer _span.End()\n  defer func() {\n    if _d._spanDecorator != nil {"),
    ("    _span.End()\n", ""),
    ('      _span.SetStatus(_codes.Error, err.Error())\n      _span.SetAttributes(\n        attribute.String("event", "error"),\n        attribute.String("message", err.Error()),\n      )\n',
     '      _span.SetAttributes(attribute.String("event", "error"), attribute.String("message", err.Error()))\n      _span.SetStatus(_codes.Error, err.Error())\n'),
]), ("templates/opentracing", [
    ("""          _ext.Error.Set(_span, true)
          _span.LogFields(
            _log.String("event", "error"),
            _log.String("message", err.Error()),
          )
""", """          _span.SetTag("error", true)
          _span.LogFields(_log.Event("error"), _log.Message(err.Error()))
"""),
    ('	_ext "github.com/opentracing/opentracing-go/ext"\n', ''),
]), ("templates/opencensus", [
    ("      defer func() { \n", "      defer _span.End()\n      defer func() { \n"),
    ("        _span.End()\n", ""),
]), ("templates/elasticapm", [
    ("            defer func() {\n", "            defer _d.endSpan(_span)\n            defer func() {\n"),
    ("                _d.endSpan(_span)\n            }()", "            }()"),
]))
quiet("twirp-meta", "C01 C20 C19", ("templates/twirp_error", [
    ("""	err := *perr
	if err != nil {
		twerr, ok := err.(twirp.Error)
		if !ok {
			twerr = twirp.InternalErrorWith(err)
		}

		jsonReq, _ := json.Marshal(req)
		*perr = twerr.WithMeta("request", string(jsonReq))
	}
""", """	if *perr == nil {
		return
	}
	jsonReq, _ := json.Marshal(req)
	switch e := (*perr).(type) {
	case twirp.Error:
		*perr = e.WithMeta("request", string(jsonReq))
	default:
		*perr = twirp.InternalErrorWith(e).WithMeta("request", string(jsonReq))
	}
"""),
]))
quiet("types-builders", "C01 C15 G01", ("generator/types.go", [
    ("""	ss := []string{}
	for _, p := range m.Params {
		ss = append(ss, p.Name)
	}
	return strings.Join(ss, ", ")
""", """	return joined(m.Params, func(p Param) string { return p.Name })
"""),
    ("""	ss := []string{}
	for _, r := range m.Results {
		ss = append(ss, r.Name)
	}
	return strings.Join(ss, ", ")
""", """	return joined(m.Results, func(p Param) string { return p.Name })
"""),
    ("""	params := []string{}
	for _, p := range m.Params {
		params = append(params, p.Pass())
	}

	return m.Name""", """	return m.Name"""),
    ('strings.Join(params, ", ") + ")"\n}\n\n// Pass returns a return', 'm.Params.Pass() + ")"\n}\n\nfunc joined(ps ParamsSlice, f func(Param) string) string {\n	var b strings.Builder\n	for i, p := range ps {\n		if i > 0 {\n			b.WriteString(", ")\n		}\n		b.WriteString(f(p))\n	}\n	return b.String()\n}\n\n// Pass returns a return'),
    ("""	if usedNames[name] {
		return genName(prefix, n+1, usedNames)
	}

	return name
""", """	for usedNames[name] {
		n++
		name = fmt.Sprint(prefix, n)
	}

	return name
"""),
]), ("printer/printer.go", [
    ("	defer p.buf.Reset()\n\n	err := printer.Fprint(p.buf, p.fs, node)\n\n	return p.buf.String(), err\n", "	var sb strings.Builder\n	err := printer.Fprint(&sb, p.fs, node)\n	return sb.String(), err\n"),
]))

quiet("generator-structure", "G01 G02 G03 C01", ("generator/generator.go", [
    ("""	headerTemplate, err := template.New("header").Funcs(options.Funcs).Parse(options.HeaderTemplate)
	if err != nil {
		return nil, errors.Wrap(err, "failed to parse header template")
	}

	bodyTemplate, err := template.New("body").Funcs(options.Funcs).Parse(options.BodyTemplate)
	if err != nil {
		return nil, errors.Wrap(err, "failed to parse body template")
	}

	if options.Vars == nil {
		options.Vars = make(map[string]interface{})
	}

	fs := token.NewFileSet()

	var srcPackage *packages.Package
	// Use the preloaded package if available, only load if not
	if options.SourcePackageInstance != nil {
		srcPackage = options.SourcePackageInstance
	} else {
		srcPackage, err = pkg.Load(options.SourcePackage)
		if err != nil {
			return nil, errors.Wrap(err, "failed to load source package")
		}
	}

	dstPackagePath := filepath.Dir(options.OutputFile)
	if !strings.HasPrefix(dstPackagePath, "/") && !strings.HasPrefix(dstPackagePath, "./") {
		dstPackagePath = "./" + dstPackagePath
	}

	dstPackage, err := loadDestinationPackage(dstPackagePath)
	if err != nil {
		return nil, errors.Wrapf(err, "failed to load destination package: %s", dstPackagePath)
	}

	srcPackageAST, err := pkg.AST(fs, srcPackage)
	if err != nil {
		return nil, errors.Wrap(err, "failed to parse source package")
	}
""", """	if options.Vars == nil {
		options.Vars = map[string]interface{}{}
	}

	srcPackage, err := sourcePackage(options)
	if err != nil {
		return nil, err
	}

	fs := token.NewFileSet()

	srcPackageAST, err := pkg.AST(fs, srcPackage)
	if err != nil {
		return nil, errors.Wrap(err, "failed to parse source package")
	}

	dstPackagePath := filepath.Dir(options.OutputFile)
	switch {
	case strings.HasPrefix(dstPackagePath, "/"), strings.HasPrefix(dstPackagePath, "./"):
	default:
		dstPackagePath = "./" + dstPackagePath
	}

	dstPackage, err := loadDestinationPackage(dstPackagePath)
	if err != nil {
		return nil, errors.Wrapf(err, "failed to load destination package: %s", dstPackagePath)
	}

	bodyTemplate, err := parse("body", options.BodyTemplate, options.Funcs)
	if err != nil {
		return nil, err
	}

	headerTemplate, err := parse("header", options.HeaderTemplate, options.Funcs)
	if err != nil {
		return nil, err
	}
"""),
    ("// NewGenerator returns Generator initialized", """func parse(name, text string, funcs template.FuncMap) (*template.Template, error) {
	t := template.New(name)
	t.Funcs(funcs)
	if _, err := t.Parse(text); err != nil {
		return nil, errors.Wrapf(err, "failed to parse %s template", name)
	}
	return t, nil
}

func sourcePackage(options Options) (*packages.Package, error) {
	if p := options.SourcePackageInstance; p != nil {
		return p, nil
	}
	p, err := pkg.Load(options.SourcePackage)
	return p, errors.Wrap(err, "failed to load source package")
}

// NewGenerator returns Generator initialized"""),
    ("""	options.Imports = append([]string(nil), options.Imports...)
""", """	options.Imports = append(make([]string, 0, len(options.Imports)+8), options.Imports...)
"""),
    ("""	for _, m := range output.methods {
		if srcPackageAST.Name != "" && []rune(m.Name)[0] == []rune(strings.ToLower(m.Name))[0] {
			return nil, errors.Wrap(errUnexportedMethod, m.Name)
		}
	}
""", """	if srcPackageAST.Name != "" {
		names := make([]string, 0, len(output.methods))
		for name := range output.methods {
			names = append(names, name)
		}
		sort.Strings(names)
		for _, name := range names {
			if !ast.IsExported(name) {
				return nil, errors.Wrap(errUnexportedMethod, name)
			}
		}
	}
"""),
    ("""	buf := bytes.NewBuffer([]byte{})

	err := g.headerTemplate.Execute(buf, map""", """	var buf bytes.Buffer

	err := g.headerTemplate.Execute(&buf, map"""),
    ("g.bodyTemplate.Execute(buf, ", "g.bodyTemplate.ExecuteTemplate(&buf, \"body\", "),
    ("""	processedSource, err := processImports(g.Options.OutputFile, buf.Bytes(), g.localPrefix)
	if err != nil {
		return errors.Wrapf(err, "failed to format generated code:\\n%s", buf)
	}

	_, err = w.Write(processedSource)
	return err
""", """	processedSource, err := processImports(g.Options.OutputFile, buf.Bytes(), g.localPrefix)
	if err != nil {
		return errors.Wrapf(err, "failed to format generated code:\\n%s", buf.String())
	}

	_, err = io.Copy(w, bytes.NewReader(processedSource))
	return err
"""),
    ("""	for {
		for _, name := range []string{"go.mod", "go.work"} {
			if _, err := os.Stat(filepath.Join(dir, name)); !os.IsNotExist(err) {
				return true
			}
		}

		parent := filepath.Dir(dir)
		if parent == dir {
			return false
		}
		dir = parent
	}
}
""", """	return insideModuleAt(dir)
}

func insideModuleAt(dir string) bool {
	for _, name := range [...]string{"go.work", "go.mod"} {
		if _, err := os.Lstat(dir + string(filepath.Separator) + name); err == nil || !errors.Is(err, os.ErrNotExist) {
			return true
		}
	}

	if parent := filepath.Dir(dir); parent != dir {
		return insideModuleAt(parent)
	}
	return false
}
"""),
    ("""	importsLock.Lock()
	defer importsLock.Unlock()

	imports.LocalPrefix = localPrefix
	return imports.Process(fileName, src, nil)
""", """	importsLock.Lock()
	imports.LocalPrefix = localPrefix
	res, err := imports.Process(fileName, src, &imports.Options{Comments: true, TabIndent: true, TabWidth: 8})
	importsLock.Unlock()
	return res, err
"""),
    ("""	names := make([]string, 0, len(p.Files))
	for fileName := range p.Files {
		names = append(names, fileName)
	}
	// files excluded by build constraints come last, the types they declare give way to the ones of the built files
	sort.Slice(names, func(i, j int) bool {
		if p.Excluded[names[i]] != p.Excluded[names[j]] {
			return !p.Excluded[names[i]]
		}
		return names[i] < names[j]
	})

	for _, fileName := range names {
		if f := p.Files[fileName]; f != nil {
			for _, ts := range typeSpecs(f) {
				types = append(types, ts)
				if ts.Name.Name == name && selectedType == nil {
					selectedType = ts
					imports = f.Imports
					continue
				}
			}
		}
	}
	return
""", """	var built, excluded []string
	for fileName := range p.Files {
		if p.Excluded[fileName] {
			excluded = append(excluded, fileName)
		} else {
			built = append(built, fileName)
		}
	}
	sort.Strings(built)
	sort.Strings(excluded)

	for _, fileName := range append(built, excluded...) {
		f := p.Files[fileName]
		if f == nil {
			continue
		}
		specs := typeSpecs(f)
		types = append(types, specs...)
		for i := 0; i < len(specs) && selectedType == nil; i++ {
			if specs[i].Name.Name == name {
				selectedType, imports = specs[i], f.Imports
			}
		}
	}
	return
"""),
    ("""	result := make(methodsList, len(methods)+len(embeddedMethods))
	for name, signature := range embeddedMethods {
		result[name] = signature
	}

	for name, signature := range methods {
		result[name] = signature
	}

	return result, nil
""", """	for name, m := range embeddedMethods {
		if _, ok := methods[name]; !ok {
			methods[name] = m
		}
	}

	return methods, nil
"""),
]))

quiet("printer-structure", "C01 G01 G02", ("printer/printer.go", [
    ("""	baseStr := t + "["
	for i, expr := range pt.Indices {
		generic, err := p.PrintType(expr)
		if err != nil {
			return "", err
		}

		if i == len(pt.Indices)-1 {
			baseStr = baseStr + generic + "]"
		} else {
			baseStr = baseStr + generic + ", "
		}
	}

	return baseStr, nil
""", """	args := make([]string, len(pt.Indices))
	for i := range pt.Indices {
		if args[i], err = p.PrintType(pt.Indices[i]); err != nil {
			return "", err
		}
	}

	return t + "[" + strings.Join(args, ", ") + "]", nil
"""),
    ("""	for _, ts := range p.types {

		if i.Name == ts.Name.Name {
			if len(p.typesPrefix) > 0 {
				//destination file is in another package
				//if the found type matches one of the types declared in a source package and
				//this type is unexported
				if []rune(ts.Name.Name)[0] == []rune(strings.ToLower(ts.Name.Name))[0] {
					return "", errors.Wrap(errUnexportedType, ts.Name.Name)
				}
				return p.typesPrefix + "." + i.Name, nil
			}

			return i.Name, nil
		}
	}

	err := printer.Fprint(p.buf, p.fs, i)
	return p.buf.String(), err
}
""", """	if p.typesPrefix == "" || !p.declares(i.Name) {
		return i.Name, nil
	}

	if !i.IsExported() {
		return "", errors.Wrap(errUnexportedType, i.Name)
	}

	return p.typesPrefix + "." + i.Name, nil
}

func (p *Printer) declares(name string) bool {
	for n := len(p.types) - 1; n >= 0; n-- {
		if p.types[n].Name.Name == name {
			return true
		}
	}
	return false
}
"""),
    ("""	elems := make([]string, 0, len(it.Methods.List))
	for _, field := range it.Methods.List {
		elem, err := p.PrintType(field.Type)
		if err != nil {
			return "", err
		}

		if len(field.Names) > 0 {
			elem = field.Names[0].Name + strings.TrimPrefix(elem, "func")
		}

		elems = append(elems, elem)
	}

	return "interface{\\n" + strings.Join(elems, "\\n") + "\\n}", nil
""", """	out := "interface {\\n"
	for _, field := range it.Methods.List {
		elem, err := p.PrintType(field.Type)
		if err != nil {
			return "", err
		}

		for _, name := range field.Names {
			elem = name.Name + elem[len("func"):]
		}

		out += "\\t" + elem + "\\n"
	}

	return out + "}", nil
"""),
    ("""	case *ast.FuncType:
		return p.printFunc(t)
	case *ast.StarExpr:
		return p.printPointer(t)
""", """	case *ast.StarExpr:
		s, err := p.PrintType(t.X)
		if err != nil {
			return "", err
		}
		return "*" + s, nil
	case *ast.FuncType:
		return p.printFunc(t)
"""),
    ("""func (p *Printer) printPointer(pt *ast.StarExpr) (string, error) {
	pointerTo, err := p.PrintType(pt.X)
	if err != nil {
		return "", err
	}

	return "*" + pointerTo, nil
}

""", ""),
]), ("generator/generics.go", [
    ("""	i := 0
	for _, genType := range g {
		for _, name := range genType.Names {
			if i < len(params) {
				args[name] = params[i].String()
			}
			i++
		}
	}

	return args
""", """	var names []string
	for _, genType := range g {
		names = append(names, genType.Names...)
	}

	for i, name := range names {
		if i == len(params) {
			break
		}
		args[name] = params[i].String()
	}

	return args
"""),
    ("""	name := g.Name
	var subParamNames []string
	for _, subParam := range g.Params {
		subParamNames = append(subParamNames, subParam.String())
	}
	if len(g.Params) > 0 {
		name += genericSquareBracketStart + strings.Join(subParamNames, genericSeparator) + genericSquareBracketEnd
	}
	return name
""", """	if len(g.Params) == 0 {
		return g.Name
	}

	names := make([]string, len(g.Params))
	for i, p := range g.Params {
		names[i] = p.String()
	}

	return g.Name + "[" + strings.Join(names, genericSeparator) + "]"
"""),
]), ("pkg/package.go", [
    ("""	pkgs, err := packages.Load(cfg, path)
	if err != nil {
		return nil, err
	}

	if len(pkgs) < 1 {
		return nil, errPackageNotFound
	}

	if len(pkgs[0].Errors) > 0 {
		return nil, pkgs[0].Errors[0]
	}

	return pkgs[0], nil
""", """	pkgs, err := packages.Load(cfg, path)

	switch {
	case err != nil:
		return nil, err
	case len(pkgs) == 0:
		return nil, errPackageNotFound
	}

	p := pkgs[0]
	for _, err := range p.Errors {
		return nil, err
	}

	return p, nil
"""),
    ("""	excluded := make(map[string]bool)
	for name := range files {
		if !strings.HasSuffix(name, "_test.go") {
			excluded[name] = true
		}
	}

	for _, name := range p.GoFiles {
		delete(excluded, name)
	}

	return excluded
""", """	built := make(map[string]struct{}, len(p.GoFiles))
	for _, name := range p.GoFiles {
		built[name] = struct{}{}
	}

	excluded := make(map[string]bool)
	for name := range files {
		if _, ok := built[name]; !ok && !strings.HasSuffix(name, "_test.go") {
			excluded[name] = true
		}
	}

	return excluded
"""),
    ("parser.ParseDir(fs, dir, nil, parser.DeclarationErrors|parser.ParseComments)", "parser.ParseDir(fs, dir, func(fi os.FileInfo) bool { return !fi.IsDir() }, parser.ParseComments|parser.DeclarationErrors)"),
]))

quiet("modern-syntax", "G01 G03 G04 G06 G07 G08 G09", ("loader/loader.go", [
    ("""	"strings"

	"github.com/pkg/errors"
""", """	"regexp"
	"strings"
	"sync"

	"github.com/pkg/errors"
"""),
    ("""// Load returns template contents""", """type scheme int

const (
	hosted scheme = iota
	remote
	file
)

var (
	schemes, prefixes = tables()
	absolute          = regexp.MustCompile(`^([a-z]+)://(.*)$`)
	defaultLoader     = sync.OnceValue(func() Loader { return New(nil) })
	statusOK          = func(code int) bool { return code == http.StatusOK }
)

func init() {
	schemes["file"] = file
}

func tables() (map[string]scheme, [2]string) {
	return map[string]scheme{"https": remote, "http": remote}, [...]string{templatesPathPrefix, ""}
}

func schemeOf(path string) (s scheme, rest string) {
	m := absolute.FindStringSubmatch(path)
	if m == nil {
		return
	}
	s, ok := schemes[m[1]]
	if !ok {
		goto none
	}
	return s, m[2]
none:
	return hosted, path
}

func filtered[T any, S ~[]T](s S, keep func(T) bool) func(yield func(int, T) bool) {
	return func(yield func(int, T) bool) {
		n := 0
		for _, v := range s {
			if keep(v) {
				if !yield(n, v) {
					return
				}
				n++
			}
		}
	}
}

type result[T any] struct {
	value T
	err   error
}

func async[T any](f func() (T, error)) <-chan result[T] {
	ch := make(chan result[T], 1)
	go func() {
		defer close(ch)
		v, err := f()
		ch <- result[T]{v, err}
	}()
	return ch
}

// Load returns template contents"""),
    ("""	if strings.HasPrefix(path, "https://") || strings.HasPrefix(path, "http://") {
		body, err := l.get(path)
		return body, path, err
	}

	if strings.HasPrefix(path, "file://") {
		templatePath := path[len("file://"):]
""", """	if l.client == nil && l.gitRoot == nil {
		l = defaultLoader()
	}

	switch kind, templatePath := schemeOf(path); kind {
	case remote:
		body, err := l.get(path)
		return body, path, err
	case file:
"""),
    ("""	for _, leaf := range tree.Tree {
		if strings.HasPrefix(leaf.Path, templatesPathPrefix) && leaf.Path != templatesPathPrefix {
			path := strings.Replace(leaf.Path, templatesPathPrefix, "", 1)
			result = append(result, path)
		}
	}
""", """	paths := make([]string, len(tree.Tree))
	for i := range len(paths) {
		paths[i] = tree.Tree[i].Path
	}

next:
	for _, path := range filtered(paths, func(p string) bool { return p != templatesPathPrefix }) {
		for i := range prefixes {
			if !strings.HasPrefix(path, prefixes[i]) || i == 1 {
				continue next
			}
			result = append(result, path[len(prefixes[i]):])
			break
		}
	}
"""),
    ("""	return io.ReadAll(resp.Body)
}
""", """	read := io.ReadAll
	res := <-async(func() ([]byte, error) { return read(resp.Body) })
	return res.value, res.err
}
"""),
    ("""	if resp.StatusCode != http.StatusOK {
""", """	if !statusOK(resp.StatusCode) {
"""),
    ("""	body, err := l.get(fmt.Sprintf(urlFormatCommits, templateName))
""", """	get := l.get
	body, err := get(fmt.Sprintf(urlFormatCommits, templateName))
"""),
]), ("write_file.go", [
    ("""	_, err = tmp.Write(data)
	if closeErr := tmp.Close(); err == nil {
		err = closeErr
	}
	if err != nil {
		return err
	}
""", """	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		w := bufio.NewWriterSize(tmp, max(16, len(data)/3))
		if _, err = w.Write(data); err == nil {
			err = w.Flush()
		}
	}()
	wg.Wait()
	if closeErr := tmp.Close(); err == nil {
		err = closeErr
	}
	if err != nil {
		return err
	}
"""),
    ('	"fmt"\n', '	"bufio"\n	"fmt"\n'),
    ('	"path/filepath"\n', '	"path/filepath"\n	"sync"\n'),
]))

def run(name, secs):
    props, edits = Q[name]
    d = tempfile.mkdtemp(prefix="quiet-")
    try:
        repo = d + "/repo"
        subprocess.run(["git", "clone", "-q", "/repo", repo], check=True)
        for f, subs in edits:
            s = open(f"{repo}/{f}").read()
            for a, b in subs:
                if s.count(a) != 1:
                    print(name, "edit does not apply:", s.count(a), repr(a[:80])); return 1
                s = s.replace(a, b)
            open(f"{repo}/{f}", "w").write(s)
        p = subprocess.run(["bash", "-c", ". /opt/vp/env.sh; goimports -w $(git diff --name-only | grep go$) </dev/null; go build ./... && go vet . ./loader ./cmd/... && go test -vet=off . ./printer ./pkg ./generator ./loader 2>&1 | grep -v 'git_root\\|^ok\\|^FAIL$' | grep '^--- FAIL\\|panic' "], cwd=repo, capture_output=True, text=True)
        out = [l for l in (p.stdout + p.stderr).splitlines() if "gitRootPath" not in l and l]
        if out: print(name, "tests:", out[:5])
        bad = 0
        for prop in props.split():
            env = dict(os.environ, VERIF_REPO=repo, VERIF_DIR=V)
            p = subprocess.run(["bash", "-c", f". /opt/vp/env.sh; exec /tmp/vtool_w {prop} --secs {secs}"], capture_output=True, text=True, env=env)
            if p.returncode:
                bad = 1
                print(name, prop, "rc", p.returncode, *[l for l in (p.stdout + p.stderr).splitlines()][-6:], sep="\n   ")
        print(name, "QUIET" if not bad else "ALARM", flush=True)
        return bad
    finally:
        shutil.rmtree(d)

if __name__ == "__main__":
    names = sys.argv[1:] or list(Q)
    bad = [n for n in names if run(n, os.environ.get("SECS", "8"))]
    print("alarms:", bad)
