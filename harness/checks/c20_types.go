package checks

import (
	"fmt"
	"go/format"
	"strings"

	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"

	"github.com/livekit/psrpc/verif/engine"
)

// gpGenerate runs both generators over a case. It returns nil if the case is not
// a valid input for protoc-gen-go either.
func gpGenerate(e *engine.Env, c *gpCase) (*gpTools, *gpGo, map[string]string) {
	tools := gpGet()
	if tools.err != nil {
		e.Fatalf("%v", tools.err)
	}
	params := ""
	g, err := c.protocGenGo(params)
	if err != nil {
		e.Skipf("not a valid set of files")
	}
	res, fail, err := gpRun(tools.plugin, c.request())
	if err != nil {
		e.Fatalf("%v", err)
	}
	if fail != "" {
		e.Fatalf("the plugin refuses a valid set of files: %s", fail[:min(len(fail), 3000)])
	}
	out := map[string]string{}
	for _, f := range res.File {
		if _, ok := out[f.GetName()]; ok {
			e.Failf("two files are called %s", f.GetName())
		}
		out[f.GetName()] = f.GetContent()
	}
	for i := range c.Files {
		f := &c.Files[i]
		name := g.prefix[f.Path] + ".psrpc.go"
		_, ok := out[name]
		if want := f.Gen && len(f.Svcs) > 0; ok != want {
			e.Failf("file %s for %s: generated %v, want %v", name, f.Path, ok, want)
		}
	}
	if n := len(out); e.Failed() {
		e.Fatalf("%d files", n)
	}
	return tools, g, out
}

func runC20Types(e *engine.Env, c gpCase) {
	tools, g, out := gpGenerate(e, &c)
	ts := newGpTypes(tools.exports)
	for imp, fs := range g.files {
		for n, src := range fs {
			ts.add(imp, n, src)
		}
	}
	target := string(g.pkgs[c.Files[len(c.Files)-1].Path])
	for imp := range g.files {
		if _, err := ts.Import(imp); err != nil {
			e.Skipf("the messages do not compile")
		}
	}
	ts2 := newGpTypes(tools.exports)
	ts2.fset = ts.fset
	for imp, fs := range g.files {
		for n, src := range fs {
			ts2.add(imp, n, src)
		}
	}
	for n, src := range out {
		ts2.add(target, n, src)
	}
	ts2.add("assert", "assert.go", c.assertions(g, "assert", target))
	if _, err := ts2.Import("assert"); err != nil {
		errs := strings.Join(ts2.errs, "\n")
		e.Failf("the generated code does not compile or is not as declared (%v):\n%s\n%s", err, errs[:min(len(errs), 2000)], excerpt(out, ts2.errs))
	}
	runC20Docs(e, &c, g, out)
	services, methods, topics := 0, 0, 0
	for _, f := range c.Files {
		if f.Gen {
			services += len(f.Svcs)
			for _, s := range f.Svcs {
				methods += len(s.Methods)
				for _, m := range s.Methods {
					if m.Topics {
						topics++
					}
				}
			}
		}
	}
	e.Class("services %d", min(services, 5))
	e.Class("methods %s", bucket(methods))
	if topics > 0 {
		e.Class("topics")
	}
	if methods > 0 {
		e.NonTrivial()
	}
	for n, src := range out {
		if f, err := format.Source([]byte(src)); err != nil {
			e.Failf("%s is no Go code: %v", n, err)
		} else if string(f) != src {
			e.Failf("%s is not formatted: %s", n, firstDiff(src, string(f)))
		}
	}
}

func firstDiff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range x {
		if i >= len(y) || x[i] != y[i] {
			z := ""
			if i < len(y) {
				z = y[i]
			}
			return fmt.Sprintf("line %d is %q, formatted %q", i+1, x[i], z)
		}
	}
	return "it ends early"
}

// excerpt shows the lines of the generated files the first errors are in.
func excerpt(out map[string]string, errs []string) string {
	var b strings.Builder
	for i, e := range errs {
		if i > 3 {
			break
		}
		for n, src := range out {
			var line, col int
			if rest, ok := strings.CutPrefix(e, n+":"); ok {
				if k, _ := fmt.Sscanf(rest, "%d:%d", &line, &col); k == 2 {
					if ls := strings.Split(src, "\n"); line <= len(ls) {
						fmt.Fprintf(&b, "%s:%d: %s\n", n, line, ls[line-1])
					}
				}
			}
		}
	}
	return b.String()
}

func init() {
	_ = proto.String
	engine.Add("C20", "types",
		"0-3 imported files and 1-3 files of one Go package with services of up to 6 methods with all option combinations, near-colliding and awkward names, imports, comments; the output type-checks together with protoc-gen-go's and declares exactly the documented interfaces; non-trivial: at least one method",
		150, 4000, func(t *rapid.T) gpCase { return genGpCase(t, 3, 0, 6) }, runC20Types, engine.Real())
}
