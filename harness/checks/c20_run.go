package checks

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"pgregory.net/rapid"

	"github.com/livekit/psrpc/verif/engine"
)

type gpRunCase struct {
	Case    gpCase
	Grouped bool // register topics by group where there is one
}

// driver writes a test that drives all services of a case with package gendrive.
func (c *gpCase) driver(g *gpGo, imp string, grouped bool) string {
	im := &gpImporter{names: map[string]string{}}
	var b strings.Builder
	t := im.name(imp)
	ctx, ps, gd := im.name("context"), im.name("github.com/livekit/psrpc"), im.name("github.com/livekit/psrpc/verif/gendrive")
	testing := im.name("testing")
	typ := func(r gpRef) string {
		full, _ := c.find(r)
		id := g.idents[full]
		return im.name(string(id.GoImportPath)) + "." + id.GoName
	}
	keys, n := 0, 0
	var list strings.Builder
	for i := range c.Files {
		if !c.Files[i].Gen {
			continue
		}
		for j := range c.Files[i].Svcs {
			s := &c.Files[i].Svcs[j]
			name := gpCamel(s.Name)
			k := s.typed()
			keys = max(keys, len(k))
			inst := ""
			for x := range k {
				inst += fmt.Sprintf("K%d, ", x)
			}
			if inst != "" {
				inst = "[" + strings.TrimSuffix(inst, ", ") + "]"
			}
			impl := fmt.Sprintf("impl%d", n)
			n++
			fmt.Fprintf(&b, "type %s struct { zz *%s.Impl }\n", impl, gd)
			fmt.Fprintf(&list, "\t{Name: %q,\n", name)
			fmt.Fprintf(&list, "\t\tClient: func(bus %s.MessageBus, opts ...%s.ClientOption) (any, error) { return %s.New%sClient%s(bus, opts...) },\n", ps, ps, t, name, inst)
			fmt.Fprintf(&list, "\t\tServer: func(r *%s.Impl, bus %s.MessageBus, opts ...%s.ServerOption) (any, error) { return %s.New%sServer%s(&%s{r}, bus, opts...) },\n", gd, ps, ps, t, name, inst, impl)
			fmt.Fprintf(&list, "\t\tMethods: []%s.Method{\n", gd)
			for x := range s.Methods {
				m := &s.Methods[x]
				mn := gpCamel(m.Name)
				in, out := typ(m.In), typ(m.Out)
				kind := "unary"
				switch {
				case m.Sub:
					kind = "sub"
				case m.Stream:
					kind = "stream"
					fmt.Fprintf(&b, "func (x *%s) %s(s %s.ServerStream[*%s, *%s]) error { return %s.Stream(x.zz, %q, s, func() *%s { return new(%s) }) }\n", impl, mn, ps, out, in, gd, mn, out, out)
					if m.Type == "AFFINITY" {
						fmt.Fprintf(&b, "func (x *%s) %sAffinity(%s.Context) float32 { return x.zz.Affinity(%q, nil) }\n", impl, mn, ctx, mn)
					}
				default:
					fmt.Fprintf(&b, "func (x *%s) %s(_ %s.Context, in *%s) (*%s, error) { out := new(%s); return out, x.zz.Unary(%q, in, out) }\n", impl, mn, ctx, in, out, out, mn)
					if m.Type == "AFFINITY" {
						fmt.Fprintf(&b, "func (x *%s) %sAffinity(_ %s.Context, in *%s) float32 { return x.zz.Affinity(%q, in) }\n", impl, mn, ctx, in, mn)
					}
				}
				group := ""
				if m.Group != "" && m.Topics && !m.Sub {
					group = gpCamel(m.Group)
				}
				fmt.Fprintf(&list, "\t\t\t{Name: %q, Kind: %q, Type: %q, Topics: %d, Single: %v, Group: %q, Has: %v},\n", mn, kind, m.Type, len(s.topicTypes(m)), m.Topics && m.Single, group, m.Topics)
			}
			fmt.Fprintf(&list, "\t\t},\n\t},\n")
		}
	}
	for x := range keys {
		fmt.Fprintf(&b, "type K%d string\n", x)
	}
	fmt.Fprintf(&b, "func TestDrive(t *%s.T) {\n\t%s.Main(t, []*%s.Service{\n%s\t}, %v)\n}\n", testing, gd, gd, list.String(), grouped)
	var h strings.Builder
	fmt.Fprintf(&h, "package zzdrive\n\nimport (\n")
	body := b.String()
	for _, p := range im.order {
		if strings.Contains(body, im.names[p]+".") {
			fmt.Fprintf(&h, "\t%s %q\n", im.names[p], p)
		}
	}
	return h.String() + ")\n\n" + body
}

// gpModule makes a module of generated files.
func gpModule(dir, module string) error {
	h := gpHarness()
	mod, err := os.ReadFile(filepath.Join(h, "go.mod"))
	if err != nil {
		return err
	}
	text := strings.Replace(string(mod), "module github.com/livekit/psrpc/verif", "module "+module, 1)
	text += fmt.Sprintf("\nrequire github.com/livekit/psrpc/verif v0.0.0\n\nreplace github.com/livekit/psrpc/verif => %s\n", h)
	sum, err := os.ReadFile(filepath.Join(h, "go.sum"))
	if err != nil {
		return err
	}
	if err := os.WriteFile(filepath.Join(dir, "go.mod"), []byte(text), 0o644); err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dir, "go.sum"), sum, 0o644)
}

func runC20Run(e *engine.Env, rc gpRunCase) {
	c := &rc.Case
	_, g, out := gpGenerate(e, c)
	target := string(g.pkgs[c.Files[len(c.Files)-1].Path])
	tmp := os.Getenv("CHK_TMP")
	if tmp != "" {
		_ = os.MkdirAll(tmp, 0o755)
	}
	dir, err := os.MkdirTemp(tmp, "run")
	if err != nil {
		e.Skipf("harness: %v", err)
	}
	if os.Getenv("KEEP") == "" {
		defer os.RemoveAll(dir)
	}
	write := func(imp, name, src string) {
		d := filepath.Join(dir, strings.TrimPrefix(imp, gpRoot))
		if err == nil {
			err = os.MkdirAll(d, 0o755)
		}
		if err == nil {
			err = os.WriteFile(filepath.Join(d, name), []byte(src), 0o644)
		}
	}
	if err = gpModule(dir, gpRoot); err != nil {
		e.Skipf("harness: %v", err)
	}
	flat := func(n string) string { return strings.ReplaceAll(filepath.Base(n), "_", "-") }
	for imp, fs := range g.files {
		for n, src := range fs {
			write(imp, flat(n), src)
		}
	}
	// what protoc-gen-go makes has to build on its own
	if text, err := goTool(dir, "build", "./..."); err != nil {
		if strings.Contains(text, "updates to go.mod") || strings.Contains(text, "go.sum") {
			e.Fatalf("harness: %s", text[:min(len(text), 2000)])
		}
		e.Skipf("the messages do not compile")
	}
	for n, src := range out {
		write(target, flat(n), src)
	}
	write(gpRoot+"/zzdrive", "drive_test.go", c.driver(g, target, rc.Grouped))
	if err != nil {
		e.Skipf("harness: %v", err)
	}
	bin := filepath.Join(dir, "drive.test")
	if text, err := goTool(dir, "test", "-c", "-vet=off", "-ldflags=-s -w", "-o", bin, "./zzdrive"); err != nil {
		e.Fatalf("the generated code does not build (%v):\n%s", err, text[:min(len(text), 3000)])
	}
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, "-test.run", "TestDrive", "-test.timeout", "50s")
	cmd.Dir = dir
	var text bytes.Buffer
	cmd.Stdout, cmd.Stderr = &text, &text
	err = cmd.Run()
	s := text.String()
	switch {
	case strings.Contains(s, "GENDRIVE-OK") && err == nil:
	case strings.Contains(s, "GENDRIVE-FAIL"):
		_, s, _ = strings.Cut(s, "GENDRIVE-FAIL\n")
		e.Failf("%s", s[:min(len(s), 3000)])
	default:
		e.Failf("driving the services ended with %v:\n%s", err, s[:min(len(s), 4000)])
	}
	n := 0
	for _, f := range c.Files {
		for _, sv := range f.Svcs {
			n += len(sv.Methods)
			for _, m := range sv.Methods {
				kind := map[bool]string{true: "subscription", false: "unary"}[m.Sub]
				if m.Stream && !m.Sub {
					kind = "stream"
				}
				e.Class("%s %s topics=%v", kind, m.Type, m.Topics)
				if m.Topics && m.Typed && len(m.Names) > 1 {
					e.Class("several typed topic parameters")
				}
				if m.Group != "" {
					e.Class("groups")
				}
			}
		}
	}
	e.Class("methods %s", bucket(n))
	if n > 0 {
		e.NonTrivial()
	}
}

func init() {
	engine.Add("C20", "run",
		"services as in part types, generated, built and driven: two servers and two clients of each service on one bus, every method called on registered, other, permuted and deregistered topics, groups registered, rolled back and deregistered, servers shut down and killed; non-trivial: at least one method",
		8, 60, func(t *rapid.T) gpRunCase {
			return gpRunCase{genGpCase(t, 4, 2, 12), rapid.Bool().Draw(t, "grouped")}
		}, runC20Run, engine.Real())
}
