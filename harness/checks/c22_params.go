package checks

import (
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os/exec"
	"path"
	"sort"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/pluginpb"
	"pgregory.net/rapid"

	"github.com/livekit/psrpc/verif/engine"
)

// nmFile is a file with one message and, if generated and Svc, one service whose
// methods use the messages of other files.
type nmFile struct {
	Path      string
	Package   string
	GoPackage string
	Gen       bool
	More      int // services besides the first
	Svc       bool
	Uses      []int
}

type nmCase struct {
	Files  []nmFile
	Params []string
}

// nmModel is what a request should give.
type nmModel struct {
	err  bool                // an error for protoc
	name string              // package clause
	out  map[string]int      // output file -> input file
	path []string            // import path by file, as seen from other packages
	same func(i, j int) bool // whether j's messages are in i's Go package
	free bool                // no expectation but an orderly answer
}

type nmParams struct {
	m              map[string]string
	relative       bool
	module, prefix string
}

func nmParse(params []string) (p nmParams, ok bool) {
	p.m = map[string]string{}
	for _, s := range params {
		if s == "" {
			continue
		}
		k, v, found := strings.Cut(s, "=")
		if !found || v == "" {
			return p, false
		}
		switch {
		case strings.HasPrefix(k, "M"):
			p.m[k[1:]] = v
		case strings.HasPrefix(k, "go_import_mapping@"):
			p.m[strings.TrimPrefix(k, "go_import_mapping@")] = v
		case k == "module":
			p.module = v
		case k == "import_prefix":
			p.prefix = v
		case k == "paths" && (v == "import" || v == "source_relative"):
			p.relative = v == "source_relative"
		default:
			return p, false
		}
	}
	return p, true
}

// goPackage splits a go_package option as protoc-gen-go documents it.
func nmGoPackage(v string) (imp, name string) {
	if i := strings.Index(v, ";"); i >= 0 {
		return v[:i], v[i+1:]
	}
	if strings.Contains(v, "/") {
		return v, v[strings.LastIndex(v, "/")+1:]
	}
	return "", v
}

func nmClean(s string) string {
	s = strings.Map(func(r rune) rune {
		if unicode.IsLetter(r) || unicode.IsDigit(r) || r == '_' {
			return r
		}
		return '_'
	}, s)
	if r, _ := utf8.DecodeRuneInString(s); token.IsKeyword(s) || !unicode.IsLetter(r) {
		return "_" + s
	}
	return s
}

func (c *nmCase) model() *nmModel {
	m := &nmModel{out: map[string]int{}}
	p, ok := nmParse(c.Params)
	if !ok {
		m.err = true
		return m
	}
	explicit, implicit := map[string]bool{}, map[string]bool{}
	for _, f := range c.Files {
		if !f.Gen {
			continue
		}
		if f.GoPackage != "" {
			_, n := nmGoPackage(f.GoPackage)
			if !strings.Contains(f.GoPackage, ";") || !token.IsIdentifier(n) {
				n = nmClean(n)
			}
			explicit[n] = true
			continue
		}
		n := f.Package
		if n == "" {
			n = path.Base(f.Path)
			n = strings.TrimSuffix(n, path.Ext(n))
		}
		implicit[nmClean(n)] = true
	}
	if len(explicit) > 1 || len(explicit) == 0 && len(implicit) > 1 {
		m.err = true
		return m
	}
	for n := range implicit {
		m.name = n
	}
	for n := range explicit {
		m.name = n
	}
	if m.name == "_" {
		m.err = true
		return m
	}
	file := func(i int) string {
		n := c.Files[i].Path
		if e := path.Ext(n); e == ".proto" || e == ".protodevel" {
			n = strings.TrimSuffix(n, e)
		}
		n += ".psrpc.go"
		if p.relative {
			return n
		}
		imp, _ := nmGoPackage(c.Files[i].GoPackage)
		if imp == "" {
			return n
		}
		mod := strings.TrimSuffix(p.module, "/")
		if mod != "" && (imp == mod || strings.HasPrefix(imp, mod+"/")) {
			imp = strings.TrimPrefix(strings.TrimPrefix(imp, mod), "/")
		}
		return path.Join(imp, path.Base(n))
	}
	home := func(i int) string {
		if s, ok := p.m[c.Files[i].Path]; ok {
			s, _, _ = strings.Cut(s, ";")
			return s
		}
		if imp, _ := nmGoPackage(c.Files[i].GoPackage); imp != "" {
			return imp
		}
		return path.Dir(file(i))
	}
	opt := func(i int) bool {
		_, mapped := p.m[c.Files[i].Path]
		imp, _ := nmGoPackage(c.Files[i].GoPackage)
		return mapped || imp != ""
	}
	m.same = func(i, j int) bool {
		if i == j || c.Files[i].Gen && c.Files[j].Gen && !(opt(i) && opt(j)) {
			return true
		}
		return home(i) == home(j)
	}
	for i := range c.Files {
		m.path = append(m.path, p.prefix+home(i))
		if f := c.Files[i]; f.Gen && f.Svc {
			m.out[file(i)] = i
		}
	}
	return m
}

func (c *nmCase) request() *pluginpb.CodeGeneratorRequest {
	req := &pluginpb.CodeGeneratorRequest{}
	if len(c.Params) > 0 {
		req.Parameter = proto.String(strings.Join(c.Params, ","))
	}
	full := func(i int) string {
		n := fmt.Sprintf(".%s.Msg%d", c.Files[i].Package, i)
		return strings.Replace(n, "..", ".", 1)
	}
	for i := range c.Files {
		f := &c.Files[i]
		fd := &descriptorpb.FileDescriptorProto{Name: proto.String(f.Path), Syntax: proto.String("proto3"),
			MessageType: []*descriptorpb.DescriptorProto{{Name: proto.String(fmt.Sprintf("Msg%d", i))}}}
		if f.Package != "" {
			fd.Package = proto.String(f.Package)
		}
		if f.GoPackage != "" {
			fd.Options = &descriptorpb.FileOptions{GoPackage: proto.String(f.GoPackage)}
		}
		if f.Gen && f.Svc {
			s := &descriptorpb.ServiceDescriptorProto{Name: proto.String(fmt.Sprintf("Svc%d", i))}
			for k, u := range f.Uses {
				if u != i {
					fd.Dependency = append(fd.Dependency, c.Files[u].Path)
				}
				s.Method = append(s.Method, &descriptorpb.MethodDescriptorProto{Name: proto.String(fmt.Sprintf("Do%d", k)),
					InputType: proto.String(full(u)), OutputType: proto.String(full(i))})
			}
			fd.Service = append(fd.Service, s)
			for k := range f.More {
				fd.Service = append(fd.Service, &descriptorpb.ServiceDescriptorProto{Name: proto.String(fmt.Sprintf("More%d_%d", i, k)), Method: s.Method})
			}
		}
		req.ProtoFile = append(req.ProtoFile, fd)
		if f.Gen {
			req.FileToGenerate = append(req.FileToGenerate, f.Path)
		}
	}
	return req
}

var nmPaths = []string{"foo", "example.com/foo", "example.com/foo/v1", "example.com/foobar", "example.com/foo/bar", "a/b/c", "example.com/foo-bar", "example.com/2x", "/local", "example.com/foo/v1/v1"}

func genNmGoPackage(t *rapid.T) string {
	p := rapid.SampledFrom(nmPaths).Draw(t, "imp")
	switch rapid.IntRange(0, 9).Draw(t, "shape") {
	case 0:
		return rapid.SampledFrom([]string{"foo", "v1", "bar", "foo.bar", "my-pkg"}).Draw(t, "bare")
	case 1, 2, 3:
		return p + ";" + rapid.SampledFrom([]string{"foo", "v1", "bar", "x-y", "2z", "type", "_x", "__"}).Draw(t, "name")
	case 4:
		return ""
	}
	return p
}

func genNmCase(t *rapid.T) nmCase {
	c := nmCase{}
	n := rapid.IntRange(1, 5).Draw(t, "files")
	base := genNmGoPackage(t)
	dirs := []string{"", "foo/", "foo/v1/", "example.com/foo/", "a/b/c/"}
	pkg := rapid.SampledFrom([]string{"foo", "foo.v1", "", "example.bar"}).Draw(t, "pkg")
	bare := false
	nameless := rapid.IntRange(0, 7).Draw(t, "nameless") == 0
	for i := range n {
		f := nmFile{
			Path:    rapid.SampledFrom(dirs).Draw(t, "dir") + fmt.Sprintf("f%d", i) + rapid.SampledFrom([]string{".proto", ".proto", ".proto", ".protodevel", ".v1.proto", "", ".x", ".a.b-c.proto"}).Draw(t, "ext"),
			Package: pkg, GoPackage: base,
			Gen:  i == n-1 || rapid.Bool().Draw(t, "gen"),
			Svc:  i == n-1 || rapid.IntRange(0, 3).Draw(t, "svc") > 0,
			More: rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(t, "more"),
		}
		if rapid.IntRange(0, 2).Draw(t, "other") == 0 {
			f.GoPackage = genNmGoPackage(t)
		}
		if rapid.IntRange(0, 3).Draw(t, "otherpkg") == 0 {
			f.Package = rapid.SampledFrom([]string{"foo", "bar", "", "client", "foo.v1", "context"}).Draw(t, "pkg")
		}
		f.Uses = rapid.SliceOfN(rapid.IntRange(0, i), 1, 4).Draw(t, "uses")
		if nameless {
			// named after the file alone
			f.GoPackage, f.Package, f.Gen = "", "", i == n-1
		}
		bare = bare || f.GoPackage == ""
		c.Files = append(c.Files, f)
	}
	for range rapid.IntRange(0, 5).Draw(t, "params") {
		file := rapid.SampledFrom(c.Files).Draw(t, "of").Path
		imp := rapid.SampledFrom(nmPaths).Draw(t, "to") + rapid.SampledFrom([]string{"", "", "", ";other"}).Draw(t, "alias")
		var s string
		switch rapid.IntRange(0, 19).Draw(t, "param") {
		case 0, 1, 2, 3:
			s = "M" + file + "=" + "map/" + imp
		case 4, 5:
			s = "go_import_mapping@" + file + "=" + "map/" + imp
		case 6, 7, 8:
			s = "paths=source_relative"
		case 9:
			s = "paths=import"
		case 10, 11, 12:
			s = "module=" + rapid.SampledFrom([]string{"example.com/foo", "example.com/", "example.com", "foo", "example.com/foo/v1", "a/b/c", "/local"}).Draw(t, "module")
		case 13, 14:
			s = "import_prefix=" + rapid.SampledFrom([]string{"x.org/", "y/z/", "p"}).Draw(t, "prefix")
		case 15:
			s = ""
		case 16:
			s = "Munused.proto=" + imp
		default:
			s = rapid.SampledFrom([]string{"paths", "paths=", "paths=relative", "=", "=x", "M", "Mfoo.proto", "Mfoo.proto=", "x=y", "module=", "Paths=import", " paths=import", "go_import_mapping@", "plugins=grpc", "M=x",
				"go_import_mapping=a", "paths=import=x"}).Draw(t, "odd")
			if rapid.IntRange(0, 3).Draw(t, "wild") == 0 {
				s = strings.ReplaceAll(rapid.StringN(0, 12, 24).Draw(t, "text"), ",", "")
			}
			if rapid.IntRange(0, 2).Draw(t, "keep") > 0 {
				continue
			}
		}
		c.Params = append(c.Params, s)
	}
	return c
}

func runC22Names(e *engine.Env, c nmCase) {
	tools := gpGet()
	if tools.err != nil {
		e.Fatalf("%v", tools.err)
	}
	m := c.model()
	req := c.request()
	if !utf8.ValidString(req.GetParameter()) {
		e.Skipf("not a protoc request")
	}
	res, fail, err := gpRun(tools.plugin, req)
	if err != nil {
		e.Fatalf("%v", err)
	}
	// maps in the plugin must not show
	res2, fail2, err := gpRun(tools.plugin, req)
	if err != nil {
		e.Fatalf("%v", err)
	}
	if !proto.Equal(res, res2) || stripTime(fail) != stripTime(fail2) {
		e.Fatalf("two runs on one request differ: %q and %q", fail, fail2)
	}
	if m.err != (fail != "") {
		e.Fatalf("the plugin says %q, want an error: %v (params %q)", fail, m.err, c.Params)
	}
	if fail != "" {
		e.Class("error")
		if len(c.Params) > 0 {
			e.NonTrivial()
		}
		return
	}
	got := map[string]string{}
	for _, f := range res.File {
		got[f.GetName()] = f.GetContent()
	}
	if a, b := fmt.Sprint(keysOf(got)), fmt.Sprint(keysOf(m.out)); a != b || len(res.File) != len(got) {
		e.Fatalf("files %v (%d), want %v", a, len(res.File), b)
	}
	if len(c.Params) > 0 {
		e.Class("params")
	}
	for name, i := range m.out {
		c.checkFile(e, m, name, i, got[name])
	}
}

func stripTime(s string) string {
	// log lines start with date and time
	if len(s) > 20 && s[4] == '/' {
		return s[20:]
	}
	return s
}

func keysOf[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (c *nmCase) checkFile(e *engine.Env, m *nmModel, name string, i int, src string) {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, name, src, parser.ParseComments)
	if err != nil {
		e.Fatalf("%s: %v", name, err)
	}
	if b, err := format.Source([]byte(src)); err != nil || string(b) != src {
		e.Failf("%s is not formatted (%v): %s", name, err, firstDiff(src, string(b)))
	}
	if f.Name.Name != m.name {
		e.Failf("%s: package %s, want %s", name, f.Name.Name, m.name)
	}
	imports := map[string]string{}
	used := map[string]bool{}
	for _, s := range f.Imports {
		p, _ := strconv.Unquote(s.Path.Value)
		n := path.Base(p)
		if s.Name != nil {
			n = s.Name.Name
		}
		if imports[n] != "" {
			e.Failf("%s: two imports are called %s", name, n)
		}
		imports[n] = p
	}
	ast.Inspect(f, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if id, ok := s.X.(*ast.Ident); ok {
				used[id.Name] = true
			}
		}
		return true
	})
	for n, p := range imports {
		if !used[n] {
			e.Failf("%s: import %s %q is not used", name, n, p)
		}
	}
	found, more := 0, 0
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok {
			continue
		}
		for _, s := range g.Specs {
			ts, ok := s.(*ast.TypeSpec)
			if !ok {
				continue
			}
			if _, is := ts.Type.(*ast.InterfaceType); is && strings.HasPrefix(ts.Name.Name, fmt.Sprintf("More%d_", i)) && strings.HasSuffix(ts.Name.Name, "ServerImpl") {
				more++
			}
			if ts.Name.Name != fmt.Sprintf("Svc%dServerImpl", i) {
				continue
			}
			for k, meth := range ts.Type.(*ast.InterfaceType).Methods.List {
				found++
				if k >= len(c.Files[i].Uses) {
					e.Fatalf("%s: too many methods", name)
				}
				u := c.Files[i].Uses[k]
				ft := meth.Type.(*ast.FuncType)
				c.checkType(e, m, name, imports, i, u, ft.Params.List[1].Type)
				c.checkType(e, m, name, imports, i, i, ft.Results.List[0].Type)
				switch {
				case u == i:
				case m.same(i, u):
					e.Class("another file of the package")
					e.NonTrivial()
				default:
					e.Class("another package")
					e.NonTrivial()
				}
			}
		}
	}
	if more != c.Files[i].More {
		e.Failf("%s: %d further services, want %d", name, more, c.Files[i].More)
	}
	if found != len(c.Files[i].Uses) {
		e.Failf("%s: %d methods, want %d", name, found, len(c.Files[i].Uses))
	}
}

// checkType checks the type of file u's message in the output for file i.
func (c *nmCase) checkType(e *engine.Env, m *nmModel, name string, imports map[string]string, i, u int, x ast.Expr) {
	want := fmt.Sprintf("Msg%d", u)
	if s, ok := x.(*ast.StarExpr); ok {
		x = s.X
	}
	switch x := x.(type) {
	case *ast.Ident:
		if !m.same(i, u) || x.Name != want {
			e.Failf("%s: %s of %s is called %s, but belongs to package %q", name, want, c.Files[u].Path, x.Name, m.path[u])
		}
	case *ast.SelectorExpr:
		q := x.X.(*ast.Ident).Name
		if m.same(i, u) || x.Sel.Name != want || imports[q] != m.path[u] {
			e.Failf("%s: %s of %s is called %s.%s of %q, want %q (same package: %v)", name, want, c.Files[u].Path, q, x.Sel.Name, imports[q], m.path[u], m.same(i, u))
		}
	default:
		e.Failf("%s: %s has the type %T", name, want, x)
	}
}

// ---------------------------------------------------------------- malformed

type nmBad struct {
	Kind  string
	Texts []string
	Bytes []byte
	Typed bool
	N     int
}

var nmKinds = []string{"bytes", "no files", "unknown file", "topic name", "group mismatch", "group without topics", "group name", "go_package", "duplicate topics", "options.proto", "truncated"}

func genNmBad(t *rapid.T) nmBad {
	b := nmBad{Kind: rapid.SampledFrom(nmKinds).Draw(t, "kind"), Typed: rapid.Bool().Draw(t, "typed"), N: rapid.IntRange(0, 400).Draw(t, "n")}
	text := rapid.OneOf(rapid.SampledFrom([]string{"", "a", "A", "_", "__", "a-b", "1", "1x", "é", "É", "a b", "a.b", "日本", "\x01", "a_1", "_a", "`", "\"", "a\n", "room", "room_id", "roomId", "RoomId"}), rapid.StringN(0, 6, 12))
	b.Texts = rapid.SliceOfN(text, 1, 4).Draw(t, "texts")
	b.Bytes = rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(t, "bytes")
	return b
}

// nmBase is a valid case the malformed ones start from.
func nmBase(goPackage string) *gpCase {
	return &gpCase{Options: "options.proto", Files: []gpFile{{Path: "t0.proto", Package: "foo", GoPackage: goPackage, Gen: true, Msgs: []gpMsg{{Name: "Msg"}},
		Svcs: []gpSvc{{Name: "Svc", Methods: []gpMethod{{Name: "Do", Type: "QUEUE", In: gpRef{0, 0}, Out: gpRef{0, 0}}, {Name: "Go", Type: "QUEUE", In: gpRef{0, 0}, Out: gpRef{0, 0}}}}}}}}
}

func runC22Bad(e *engine.Env, b nmBad) {
	tools := gpGet()
	if tools.err != nil {
		e.Fatalf("%v", tools.err)
	}
	for _, t := range b.Texts {
		if !utf8.ValidString(t) {
			e.Skipf("not a protoc request")
		}
	}
	e.Class("%s", b.Kind)
	goPkg := gpRoot + "/gen"
	c := nmBase(goPkg)
	m0, m1 := &c.Files[0].Svcs[0].Methods[0], &c.Files[0].Svcs[0].Methods[1]
	// must: the plugin has to report an error; otherwise it may also succeed with
	// output that compiles
	must, mustNot := false, false
	distinct := func(names []string) bool {
		seen := map[string]bool{}
		for _, n := range names {
			if n == "" || seen[gpCamel(n)] {
				return false
			}
			seen[gpCamel(n)] = true
		}
		return true
	}
	var raw []byte
	switch b.Kind {
	case "bytes":
		raw, must = b.Bytes, true
		r := &pluginpb.CodeGeneratorRequest{}
		if proto.Unmarshal(raw, r) == nil && len(r.FileToGenerate) > 0 {
			must = false
		}
	case "truncated":
		raw, _ = proto.Marshal(c.request())
		raw = raw[:min(b.N*len(raw)/400, len(raw))]
		r := &pluginpb.CodeGeneratorRequest{}
		if proto.Unmarshal(raw, r) == nil {
			e.Skipf("still a request")
		}
		must = true
	case "no files":
		r := c.request()
		r.FileToGenerate, must = nil, true
		raw, _ = proto.Marshal(r)
	case "unknown file":
		r := c.request()
		r.FileToGenerate, must = append(r.FileToGenerate, "x"+b.Texts[0]), true
		raw, _ = proto.Marshal(r)
	case "topic name":
		m0.Topics, m0.Names, m0.Typed = true, b.Texts, b.Typed
		must = !distinct(b.Texts)
		mustNot = !must
		for _, n := range b.Texts {
			for i, r := range n {
				if r != '_' && !('a' <= r && r <= 'z' || 'A' <= r && r <= 'Z' || i > 0 && '0' <= r && r <= '9') {
					mustNot = false
				}
			}
			if n == "_" || strings.HasPrefix(n, "__") {
				mustNot = false
			}
		}
	case "duplicate topics":
		m0.Topics, m0.Typed = true, b.Typed
		m0.Names = []string{"room_id", "a", []string{"roomId", "room_id", "RoomId"}[b.N%3]}
		must = true
	case "group mismatch":
		m0.Topics, m0.Group, m0.Names, m0.Typed = true, "g", []string{"a", "b"}, true
		m1.Topics, m1.Group = true, "g"
		switch b.N % 4 {
		case 0:
			m1.Names, m1.Typed = []string{"b", "a"}, true
		case 1:
			m1.Names, m1.Typed = []string{"a", "b"}, false
		case 2:
			m1.Names, m1.Typed = []string{"a"}, true
		case 3:
			m1.Names = nil
		}
		must = true
	case "group without topics":
		// topics is not set: the parameters mean nothing
		m0.Group, m0.Names, m0.Typed = "g", []string{"a"}, b.Typed
		if b.N%2 == 0 {
			m1.Topics, m1.Group, m1.Names = true, "g", []string{"b"}
		}
	case "group name":
		m0.Topics, m0.Group, m0.Names = true, b.Texts[0], []string{"a"}
	case "go_package":
		s := rapidShape(b)
		c.Files[0].GoPackage = s
	case "options.proto":
		// a user's own file of that name, without a package
		c.Options = "psrpc/options.proto"
		c.Files = append([]gpFile{{Path: "options.proto", GoPackage: gpRoot + "/dep", Msgs: []gpMsg{{Name: "Opt"}}}}, c.Files...)
		c.Files[1].Svcs[0].Methods[0].In = gpRef{0, 0}
		if b.N%2 == 0 {
			c.Files[0].Package = "p"
		}
		for i := range c.Files[1].Svcs[0].Methods {
			c.Files[1].Svcs[0].Methods[i].Out = gpRef{1, 0}
		}
		mustNot = true
	}
	var res *pluginpb.CodeGeneratorResponse
	var fail string
	var err error
	if raw != nil || b.Kind == "bytes" {
		res, fail, err = gpRunRaw(tools.plugin, raw)
	} else {
		res, fail, err = gpRun(tools.plugin, c.request())
	}
	if err != nil {
		e.Fatalf("%s: %v", b.Kind, err)
	}
	e.NonTrivial()
	if fail != "" {
		e.Class("%s: refused", b.Kind)
		if mustNot {
			e.Failf("%s: refused: %s", b.Kind, fail[:min(len(fail), 1500)])
		}
		return
	}
	if must {
		e.Fatalf("%s: accepted without an error; %d files", b.Kind, len(res.File))
	}
	if raw != nil || b.Kind == "bytes" {
		return
	}
	// what it gives must compile
	g, err := c.protocGenGo("")
	if err != nil {
		if mustNot {
			e.Fatalf("harness: %v", err)
		}
		e.Skipf("protoc-gen-go refuses it")
	}
	ts := newGpTypes(tools.exports)
	for imp, fs := range g.files {
		for n, src := range fs {
			ts.add(imp, n, src)
		}
	}
	target := string(g.pkgs["t0.proto"])
	if b.Kind == "go_package" {
		// whether protoc-gen-go's own output compiles
		alone := newGpTypes(tools.exports)
		for n, src := range g.files[target] {
			alone.add(target, n, src)
		}
		if _, err := alone.Import(target); err != nil {
			e.Skipf("no Go package")
		}
	}
	for _, f := range res.File {
		ts.add(target, f.GetName(), f.GetContent())
	}
	if _, err := ts.Import(target); err != nil {
		errs := strings.Join(ts.errs, "\n")
		e.Failf("%s: accepted, but the output does not compile: %s", b.Kind, errs[:min(len(errs), 1500)])
	}
}

func rapidShape(b nmBad) string {
	t := b.Texts[0]
	shapes := []string{t, t + ";" + t, "/" + t, t + "/", "a/b;" + t, ";" + t, "a/" + t + ";x", "a;b;c", "a/b;c;d", "a//b", "./a", "a/../b"}
	return shapes[b.N%len(shapes)]
}

// gpRunRaw runs the plugin on any bytes.
func gpRunRaw(plugin string, in []byte) (*pluginpb.CodeGeneratorResponse, string, error) {
	cmd := exec.Command(plugin)
	return gpFinish(cmd, in)
}

func init() {
	engine.Add("C22", "names",
		"1-5 files in several directories with all shapes of go_package, proto packages and imports among them, 0-5 parameters (paths, module, mappings of both spellings, prefix, malformed ones); oracle: model of the documented output paths, package names and import paths; run twice for determinism; non-trivial: a message of another file or package is used, or an error is due to parameters",
		150, 4000, genNmCase, runC22Names, engine.Real())
	engine.Add("C22", "malformed",
		"malformed requests: any bytes, truncated requests, missing files, odd topic, group and package names, inconsistent groups, parameters without topics, a user's options.proto; each must be refused with a message or give output that compiles, never crash; non-trivial: every case",
		120, 3000, genNmBad, runC22Bad, engine.Real())
}
