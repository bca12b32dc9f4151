package checks

import (
	"go/ast"
	"go/parser"
	"go/token"
	"slices"
	"strings"
	"unicode"

	"github.com/livekit/psrpc/verif/engine"
)

// docWords reduces a comment to its words in order of the alphabet, which is
// what gofmt leaves alone when it lays a comment out anew.
func docWords(text string) string {
	w := strings.FieldsFunc(text, func(r rune) bool { return !unicode.IsLetter(r) && !unicode.IsDigit(r) })
	slices.Sort(w)
	return strings.Join(w, " ")
}

func docText(groups ...*ast.CommentGroup) string {
	var b strings.Builder
	for _, g := range groups {
		if g != nil {
			for _, c := range g.List {
				b.WriteString(c.Text + "\n")
			}
		}
	}
	return b.String()
}

// runC20Docs compares what stands above services and methods in the proto files
// with what stands above the interfaces and their methods.
func runC20Docs(e *engine.Env, c *gpCase, g *gpGo, out map[string]string) {
	documented := 0
	for i := range c.Files {
		f := &c.Files[i]
		if !f.Gen || len(f.Svcs) == 0 {
			continue
		}
		name := g.prefix[f.Path] + ".psrpc.go"
		parsed, err := parser.ParseFile(token.NewFileSet(), name, out[name], parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			e.Failf("%s is no Go code: %v", name, err)
			continue
		}
		types := map[string]*ast.InterfaceType{}
		docs := map[string]string{}
		for _, d := range parsed.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.TYPE {
				continue
			}
			for _, s := range gd.Specs {
				ts := s.(*ast.TypeSpec)
				if it, ok := ts.Type.(*ast.InterfaceType); ok {
					types[ts.Name.Name], docs[ts.Name.Name] = it, docText(gd.Doc, ts.Doc, ts.Comment)
				}
			}
		}
		for j := range f.Svcs {
			s := &f.Svcs[j]
			for _, kind := range []string{"Client", "ServerImpl", "Server"} {
				tn := gpCamel(s.Name) + kind
				it := types[tn]
				if it == nil {
					continue // an alias or the like: the type checker has seen to it
				}
				if want, got := docWords(s.Comment), docWords(docs[tn]); want != got {
					e.Failf("%s: the comment on service %s is %q, on %s %q", name, s.Name, s.Comment, tn, docs[tn])
				}
				doc := map[string]string{}
				for _, m := range it.Methods.List {
					for _, n := range m.Names {
						doc[n.Name] = docText(m.Doc, m.Comment)
					}
				}
				for x := range s.Methods {
					m := &s.Methods[x]
					n := gpCamel(m.Name)
					var in []string
					switch {
					case kind == "Client" && m.Sub:
						in = []string{"Subscribe" + n}
					case kind == "Client":
						in = []string{n}
					case kind == "ServerImpl" && m.Sub:
					case kind == "ServerImpl":
						in = []string{n}
						if m.Type == "AFFINITY" {
							in = append(in, n+"Affinity")
						}
					case m.Sub:
						in = []string{"Publish" + n}
					case m.Topics:
						in = []string{"Register" + n + "Topic", "Deregister" + n + "Topic"}
					}
					if len(in) == 0 {
						continue
					}
					want := docWords(m.Comment)
					found := want == ""
					for _, y := range in {
						switch got := docWords(doc[y]); got {
						case want:
							found = true
						case "":
						default:
							e.Failf("%s: the comment on method %s is %q, on %s.%s %q", name, m.Name, m.Comment, tn, y, doc[y])
						}
					}
					if !found {
						e.Failf("%s: the comment %q on method %s is missing from %s", name, m.Comment, m.Name, tn)
					}
					if want != "" {
						documented++
					}
				}
			}
		}
	}
	if documented > 0 {
		e.Class("documented methods")
	}
}
