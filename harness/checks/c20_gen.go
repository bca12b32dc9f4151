package checks

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"

	gengo "google.golang.org/protobuf/cmd/protoc-gen-go/internal_gengo"
	"google.golang.org/protobuf/compiler/protogen"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protodesc"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/known/emptypb"
	"google.golang.org/protobuf/types/known/timestamppb"
	"google.golang.org/protobuf/types/known/wrapperspb"
	"google.golang.org/protobuf/types/pluginpb"
	"pgregory.net/rapid"

	"github.com/livekit/psrpc/protoc-gen-psrpc/options"
)

// ---------------------------------------------------------------- model of the input

type gpMsg struct {
	Name   string
	Nested []gpMsg `json:",omitempty"`
}

// gpRef names a message: by file and number in the file, or a well-known one.
type gpRef struct {
	File int // -1: a well-known type
	Msg  int
}

type gpMethod struct {
	Name    string
	In, Out gpRef
	Plain   bool `json:",omitempty"` // no options at all
	Sub     bool `json:",omitempty"`
	Topics  bool `json:",omitempty"`
	Stream  bool `json:",omitempty"`
	Type    string
	Old     bool     `json:",omitempty"` // by the deprecated options
	Names   []string `json:",omitempty"`
	Typed   bool     `json:",omitempty"`
	Single  bool     `json:",omitempty"`
	Group   string   `json:",omitempty"`
	Comment string   `json:",omitempty"`
}

type gpSvc struct {
	Name    string
	Methods []gpMethod
	Comment string `json:",omitempty"`
}

type gpFile struct {
	Path, Package, GoPackage string
	Msgs                     []gpMsg
	Svcs                     []gpSvc `json:",omitempty"`
	Public                   []int   `json:",omitempty"` // files it imports publicly
	Comment                  string  `json:",omitempty"`
	Gen                      bool
}

// gpCase is a set of proto files. Those to generate come last and belong to one
// Go package.
type gpCase struct {
	Files   []gpFile
	Options string // path of options.proto
	Params  []string
}

const gpRoot = "gen.test/m"

var (
	gpMsgNames = []string{"Msg", "Req", "Res", "req", "msg", "_Lead", "_low", "A_b", "A_B", "URL", "foo_bar", "X1", "m_2x", "x2y", "type", "string", "Error",
		"Context", "Options", "s", "c", "__two", "end_", "a__b", "MyMessage", "Response", "Subscription", "Topic"}
	gpSvcNames  = []string{"Svc", "my_service", "_svc", "URLs", "s", "Foo_Bar", "echo2", "client", "server", "psrpc", "Type", "info", "rand_x", "bus", "Impl", "XTopic"}
	gpMethNames = []string{"Do", "do_it", "_m", "URL", "Get_x", "x2", "Type", "String", "Register", "Publish", "Update", "my_method", "M_2", "Kill", "Shutdown",
		"send", "Recv", "client", "Context", "Topics", "Error", "Foo", "foo_bar", "Svc", "Msg"}
	gpTopicNames = []string{"room", "room_id", "region", "node", "type", "ctx", "req", "msg", "opts", "s", "c", "client", "server", "psrpc", "context", "string", "nil", "range",
		"Room", "_x", "a1", "topic", "dep", "info", "error", "len", "func", "version", "rand", "bus", "sd", "err", "svc", "float32", "any", "roomId", "URL", "participant_identity"}
	gpDepPackages = []string{"dep", "client", "info", "server", "rand", "version", "context", "psrpc", "req", "topic", "opts", "msg", "c", "s", "ctx", "a.b", "foo_bar", "type", "string",
		"main", "error", "nil", "room", "gen", "livekit", "google.rpc", "a.range", "bus", "func", "x1", ""}
	gpImports = []string{"dep", "a/b", "client", "foo-bar.v2", "2fa", "type", "v1", "other/v1", "gen", "psrpc", "context", "x.y", "api/gen"}
	gpTargets = []string{"gen", "gen/v1", "client", "foo-bar", "svc;gen", "svc;my_pkg", "a/b;c", "psrpc", "2x", "range", "x.y;x-y", "rpc"}
	gpGroups  = []string{"g", "my_group", "G2", "room", "_all", "URL"}
	gpComment = []string{"", "", "", " A comment.\n", " Two\n lines.\n", "no space\n", " list:\n  - a\n  - b\n", "\tcode\n", " */ /* \n", " \n\n x\n", "go:build ignore\n",
		" Deprecated: no.\n", " trailing  \n", " 日本語 \"quotes\" `ticks`\n", " # Heading\n text\n", " a\r\n b\r\n", "//\n", " TODO(x): y\n 1. one\n 2. two\n"}
)

func gpCamel(s string) string { return strsGoCamelCase(s) }

// strsGoCamelCase is the naming rule of protoc-gen-go.
func strsGoCamelCase(s string) string {
	low := func(c byte) bool { return 'a' <= c && c <= 'z' }
	var b []byte
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '.' && i+1 < len(s) && low(s[i+1]):
		case c == '.':
			b = append(b, '_')
		case c == '_' && (i == 0 || s[i-1] == '.'):
			b = append(b, 'X')
		case c == '_' && i+1 < len(s) && low(s[i+1]):
		case '0' <= c && c <= '9':
			b = append(b, c)
		default:
			if low(c) {
				c -= 'a' - 'A'
			}
			b = append(b, c)
			for ; i+1 < len(s) && low(s[i+1]); i++ {
				b = append(b, s[i+1])
			}
		}
	}
	return string(b)
}

func genComment(t *rapid.T) string {
	if rapid.IntRange(0, 19).Draw(t, "wild") == 0 {
		return rapid.StringMatching(`( [!-~][ -~]{0,20}\n){1,3}`).Draw(t, "comment")
	}
	return rapid.SampledFrom(gpComment).Draw(t, "comment")
}

func genNames(t *rapid.T, pool []string, lo, hi int, label string) []string {
	return rapid.SliceOfNDistinct(rapid.SampledFrom(pool), lo, hi, gpCamel).Draw(t, label)
}

func genMsgs(t *rapid.T, lo, depth int) []gpMsg {
	var out []gpMsg
	for _, n := range genNames(t, gpMsgNames, lo, 3, "msgs") {
		m := gpMsg{Name: n}
		if depth > 0 && rapid.IntRange(0, 3).Draw(t, "nest") == 0 {
			m.Nested = genMsgs(t, 1, depth-1)
		}
		out = append(out, m)
	}
	return out
}

func genGpCase(t *rapid.T, maxSvc, minMeth, maxMeth int) gpCase {
	c := gpCase{Options: rapid.SampledFrom([]string{"options.proto", "options.proto", "livekit/psrpc/options.proto", "github.com/livekit/psrpc/protoc-gen-psrpc/options/options.proto"}).Draw(t, "optpath")}
	target := gpRoot + "/" + rapid.SampledFrom(gpTargets).Draw(t, "target")
	timp, _, _ := strings.Cut(target, ";")
	tpkg := rapid.SampledFrom([]string{"gen", "my.pkg", "dep", "client", "a.b.c", "foo", ""}).Draw(t, "tpkg")

	nd := rapid.IntRange(0, 3).Draw(t, "deps")
	used := map[string]int{}
	for i := range nd {
		f := gpFile{
			Package: rapid.SampledFrom(gpDepPackages).Draw(t, "pkg"),
			Path:    fmt.Sprintf("%sd%d.proto", rapid.SampledFrom([]string{"", "dir/", "x/y/"}).Draw(t, "dir"), i),
		}
		imp := gpRoot + "/" + rapid.SampledFrom(gpImports).Draw(t, "imp")
		if imp == timp {
			imp += "x"
		}
		f.GoPackage = imp
		if rapid.IntRange(0, 3).Draw(t, "alias") == 0 {
			f.GoPackage += ";" + rapid.SampledFrom([]string{"foo", "client", "x_y", "gen"}).Draw(t, "goname")
		}
		if j, ok := used[imp]; ok {
			f.GoPackage = c.Files[j].GoPackage
		}
		used[imp] = i
		if rapid.IntRange(0, 5).Draw(t, "public") == 0 && i > 0 {
			f.Public = []int{rapid.IntRange(0, i-1).Draw(t, "pub")}
		}
		f.Msgs = genMsgs(t, 1, 2)
		c.Files = append(c.Files, f)
	}
	// files of the target's Go package
	nt := rapid.SampledFrom([]int{1, 1, 2, 3}).Draw(t, "files")
	for i := range nt {
		f := gpFile{Package: tpkg, GoPackage: target, Path: fmt.Sprintf("%st%d.proto", rapid.SampledFrom([]string{"", "dir/", "x/y/"}).Draw(t, "dir"), i), Comment: genComment(t)}
		if strings.HasPrefix(f.Comment, "go:build") {
			f.Comment = "" // takes effect in protoc-gen-go's output
		}
		f.Gen = i == nt-1 || rapid.IntRange(0, 2).Draw(t, "gen") > 0
		f.Msgs = genMsgs(t, 0, 2)
		if rapid.IntRange(0, 7).Draw(t, "public") == 0 && len(c.Files) > 0 {
			f.Public = []int{rapid.IntRange(0, len(c.Files)-1).Draw(t, "pub")}
		}
		c.Files = append(c.Files, f)
	}
	usedSvc := map[string]bool{}
	for i := nd; i < len(c.Files); i++ {
		if !c.Files[i].Gen {
			continue
		}
		lo := 0
		if i == len(c.Files)-1 {
			lo = 1
		}
		for _, n := range genNames(t, gpSvcNames, lo, maxSvc, "svcs") {
			if usedSvc[gpCamel(n)] {
				continue
			}
			usedSvc[gpCamel(n)] = true
			c.Files[i].Svcs = append(c.Files[i].Svcs, genSvc(t, n, i, minMeth, maxMeth))
		}
	}
	return c
}

type gpGroup struct {
	name  string
	names []string
	typed bool
}

func genSvc(t *rapid.T, name string, file, minMeth, maxMeth int) gpSvc {
	s := gpSvc{Name: name, Comment: genComment(t)}
	var groups []gpGroup
	least, rare := 0, 2
	if rapid.IntRange(0, 2).Draw(t, "groupy") == 0 {
		least, rare = 2, 0 // several groups whose members take turns
	}
	for i, g := range genNames(t, gpGroups, least, 2, "groups") {
		gr := gpGroup{g, genNames(t, gpTopicNames, 0, 3, "names"), rapid.Bool().Draw(t, "typed")}
		if i > 0 && rapid.Bool().Draw(t, "alike") {
			gr.names, gr.typed = groups[0].names, groups[0].typed
		}
		groups = append(groups, gr)
	}
	ref := func() gpRef {
		if rapid.IntRange(0, 5).Draw(t, "wkt") == 0 {
			return gpRef{-1, rapid.IntRange(0, 3).Draw(t, "known")}
		}
		return gpRef{rapid.IntRange(0, file).Draw(t, "file"), rapid.IntRange(0, 6).Draw(t, "msg")}
	}
	for _, n := range genNames(t, gpMethNames, minMeth, maxMeth, "methods") {
		m := gpMethod{Name: n, In: ref(), Out: ref(), Type: rapid.SampledFrom([]string{"QUEUE", "QUEUE", "AFFINITY", "MULTI"}).Draw(t, "type"), Comment: genComment(t)}
		if rapid.IntRange(0, 9).Draw(t, "plain") == 0 {
			m.Plain, m.Type = true, "QUEUE"
			s.Methods = append(s.Methods, m)
			continue
		}
		switch rapid.IntRange(0, 5).Draw(t, "kind") {
		case 0, 1:
			m.Sub = rare > 0 || rapid.Bool().Draw(t, "sub")
		case 2:
			m.Stream = true
		}
		m.Old = rapid.IntRange(0, 4).Draw(t, "old") == 0
		m.Topics = rapid.IntRange(0, 1).Draw(t, "topics") == 0 || rare == 0
		if m.Topics {
			if len(groups) > 0 && rapid.IntRange(0, 2).Draw(t, "grouped") > 0 {
				g := rapid.SampledFrom(groups).Draw(t, "group")
				m.Group, m.Names, m.Typed = g.name, g.names, g.typed
			} else if rapid.Bool().Draw(t, "named") {
				m.Names, m.Typed = genNames(t, gpTopicNames, 1, 3, "names"), rapid.Bool().Draw(t, "typed")
			}
			m.Single = rapid.IntRange(0, 2).Draw(t, "single") == 0
		}
		s.Methods = append(s.Methods, m)
	}
	return s
}

// ---------------------------------------------------------------- request

var gpKnown = []protoreflect.MessageDescriptor{
	(&emptypb.Empty{}).ProtoReflect().Descriptor(),
	(&timestamppb.Timestamp{}).ProtoReflect().Descriptor(),
	(&wrapperspb.StringValue{}).ProtoReflect().Descriptor(),
	(&descriptorpb.DescriptorProto_ExtensionRange{}).ProtoReflect().Descriptor(),
}

type gpFlat struct {
	full string // without the leading dot
	msg  *gpMsg
}

func (f *gpFile) flat() []gpFlat {
	var out []gpFlat
	var rec func(prefix string, ms []gpMsg)
	rec = func(prefix string, ms []gpMsg) {
		for i := range ms {
			out = append(out, gpFlat{prefix + ms[i].Name, &ms[i]})
			rec(prefix+ms[i].Name+".", ms[i].Nested)
		}
	}
	p := f.Package
	if p != "" {
		p += "."
	}
	rec(p, f.Msgs)
	return out
}

// find resolves a reference; references to files without messages go elsewhere.
func (c *gpCase) find(r gpRef) (full, file string) {
	if r.File >= 0 && r.File < len(c.Files) {
		if ms := c.Files[r.File].flat(); len(ms) > 0 {
			return ms[r.Msg%len(ms)].full, c.Files[r.File].Path
		}
	}
	d := gpKnown[r.Msg%len(gpKnown)]
	return string(d.FullName()), d.ParentFile().Path()
}

func gpDesc(m gpMsg) *descriptorpb.DescriptorProto {
	d := &descriptorpb.DescriptorProto{Name: proto.String(m.Name), Field: []*descriptorpb.FieldDescriptorProto{{
		Name: proto.String("v"), JsonName: proto.String("v"), Number: proto.Int32(1),
		Type: descriptorpb.FieldDescriptorProto_TYPE_STRING.Enum(), Label: descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL.Enum(),
	}}}
	for _, n := range m.Nested {
		d.NestedType = append(d.NestedType, gpDesc(n))
	}
	return d
}

func (m *gpMethod) options() *options.Options {
	if m.Plain {
		return nil
	}
	o := &options.Options{Subscription: m.Sub, Topics: m.Topics, Stream: m.Stream}
	switch {
	case m.Old && m.Type == "MULTI":
		o.Routing = &options.Options_Multi{Multi: true}
	case m.Old && m.Type == "AFFINITY":
		o.Routing = &options.Options_AffinityFunc{AffinityFunc: true}
	case m.Old:
		o.Routing = &options.Options_Queue{Queue: true}
	default:
		o.Type = options.Routing(options.Routing_value[m.Type])
	}
	if m.Group != "" || len(m.Names) > 0 || m.Single {
		o.TopicParams = &options.TopicParamOptions{Group: m.Group, Names: m.Names, Typed: m.Typed, SingleServer: m.Single}
	}
	return o
}

func (c *gpCase) request() *pluginpb.CodeGeneratorRequest {
	req := &pluginpb.CodeGeneratorRequest{Parameter: proto.String(strings.Join(c.Params, ","))}
	descr := protodesc.ToFileDescriptorProto(descriptorpb.File_google_protobuf_descriptor_proto)
	opt := protodesc.ToFileDescriptorProto(options.File_options_proto)
	opt.Name = proto.String(c.Options)
	req.ProtoFile = append(req.ProtoFile, descr, opt)
	for _, d := range gpKnown[:3] {
		req.ProtoFile = append(req.ProtoFile, protodesc.ToFileDescriptorProto(d.ParentFile()))
	}
	for i := range c.Files {
		f := &c.Files[i]
		fd := &descriptorpb.FileDescriptorProto{Name: proto.String(f.Path), Syntax: proto.String("proto3")}
		if f.Package != "" {
			fd.Package = proto.String(f.Package)
		}
		if f.GoPackage != "" {
			fd.Options = &descriptorpb.FileOptions{GoPackage: proto.String(f.GoPackage)}
		}
		deps := map[string]bool{}
		dep := func(p string) {
			if p != f.Path && !deps[p] {
				deps[p] = true
				fd.Dependency = append(fd.Dependency, p)
			}
		}
		for _, p := range f.Public {
			if p < i {
				dep(c.Files[p].Path)
				fd.PublicDependency = append(fd.PublicDependency, int32(len(fd.Dependency)-1))
			}
		}
		for _, m := range f.Msgs {
			fd.MessageType = append(fd.MessageType, gpDesc(m))
		}
		info := &descriptorpb.SourceCodeInfo{}
		comment := func(text string, path ...int32) {
			if text != "" {
				info.Location = append(info.Location, &descriptorpb.SourceCodeInfo_Location{Path: path, Span: []int32{0, 0, 0}, LeadingComments: proto.String(text), TrailingComments: proto.String(" Behind.\n"), LeadingDetachedComments: []string{" Far away.\n"}})
			}
		}
		comment(f.Comment, 2)
		for j := range f.Svcs {
			s := &f.Svcs[j]
			sd := &descriptorpb.ServiceDescriptorProto{Name: proto.String(s.Name)}
			comment(s.Comment, 6, int32(j))
			comment(" About its name.\n", 6, int32(j), 1)
			for k := range s.Methods {
				m := &s.Methods[k]
				in, inf := c.find(m.In)
				out, outf := c.find(m.Out)
				dep(inf)
				dep(outf)
				md := &descriptorpb.MethodDescriptorProto{Name: proto.String(m.Name), InputType: proto.String("." + in), OutputType: proto.String("." + out)}
				if o := m.options(); o != nil {
					md.Options = &descriptorpb.MethodOptions{}
					proto.SetExtension(md.Options, options.E_Options, o)
					dep(c.Options)
				}
				// this one is about its options
				comment(" Not about the method.\n", 6, int32(j), 2, int32(k), 4)
				comment(m.Comment, 6, int32(j), 2, int32(k))
				sd.Method = append(sd.Method, md)
			}
			fd.Service = append(fd.Service, sd)
		}
		if len(info.Location) > 0 {
			fd.SourceCodeInfo = info
		}
		req.ProtoFile = append(req.ProtoFile, fd)
		if f.Gen {
			req.FileToGenerate = append(req.FileToGenerate, f.Path)
		}
	}
	return req
}

// ---------------------------------------------------------------- tools

type gpTools struct {
	plugin  string
	exports map[string]string
	err     error
}

// gpGet builds the plugin and the packages generated code uses from /repo's
// working tree, once; check.py does it for all shards.
var gpGet = sync.OnceValue(func() *gpTools {
	t := &gpTools{exports: map[string]string{}}
	dir := os.Getenv("CHK_GEN")
	if dir == "" {
		tmp := os.Getenv("CHK_TMP")
		if tmp != "" {
			_ = os.MkdirAll(tmp, 0o755)
		}
		d, err := os.MkdirTemp(tmp, "gen")
		if err != nil {
			t.err = err
			return t
		}
		dir = d
		if t.err = GenTools(dir); t.err != nil {
			return t
		}
	}
	t.plugin = filepath.Join(dir, "protoc-gen-psrpc")
	b, err := os.ReadFile(filepath.Join(dir, "exports"))
	t.err = err
	for _, l := range strings.Split(string(b), "\n") {
		if p, f, ok := strings.Cut(l, "\t"); ok && f != "" {
			t.exports[p] = f
		}
	}
	return t
})

// GenTools writes the plugin and the list of export data files to dir.
func GenTools(dir string) error {
	out, err := goTool(gpHarness(), "build", "-o", filepath.Join(dir, "protoc-gen-psrpc"), "github.com/livekit/psrpc/protoc-gen-psrpc")
	if err != nil {
		return fmt.Errorf("the plugin does not build: %v\n%s", err, out)
	}
	out, err = goTool(gpHarness(), "list", "-deps", "-export", "-f", "{{.ImportPath}}\t{{.Export}}",
		"github.com/livekit/psrpc", "github.com/livekit/psrpc/pkg/client", "github.com/livekit/psrpc/pkg/server", "github.com/livekit/psrpc/pkg/info",
		"github.com/livekit/psrpc/pkg/rand", "github.com/livekit/psrpc/version", "github.com/livekit/psrpc/protoc-gen-psrpc/options",
		"google.golang.org/protobuf/runtime/protoimpl", "google.golang.org/protobuf/types/known/emptypb", "google.golang.org/protobuf/types/known/timestamppb",
		"google.golang.org/protobuf/types/known/wrapperspb", "google.golang.org/protobuf/types/descriptorpb", "context", "reflect", "sync", "unsafe")
	if err != nil {
		return fmt.Errorf("the packages generated code imports do not build: %v\n%s", err, out)
	}
	return os.WriteFile(filepath.Join(dir, "exports"), []byte(out), 0o644)
}

func gpHarness() string {
	_, file, _, _ := runtime.Caller(0)
	return filepath.Dir(filepath.Dir(file))
}

func goTool(dir string, args ...string) (string, error) {
	cmd := exec.Command("go", args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "GOFLAGS=-mod=readonly", "GOWORK=off", "CGO_ENABLED=0")
	var out, errs bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errs
	err := cmd.Run()
	if err != nil {
		return out.String() + errs.String(), err
	}
	return out.String(), nil
}

// gpRun runs the plugin. fail is what it says when it reports an error to protoc;
// err when it does something else.
func gpRun(plugin string, req *pluginpb.CodeGeneratorRequest) (res *pluginpb.CodeGeneratorResponse, fail string, err error) {
	in, err := proto.Marshal(req)
	if err != nil {
		return nil, "", err
	}
	return gpFinish(exec.Command(plugin), in)
}

func gpFinish(cmd *exec.Cmd, in []byte) (res *pluginpb.CodeGeneratorResponse, fail string, err error) {
	cmd.Stdin = bytes.NewReader(in)
	cmd.Env = []string{"PATH=/usr/bin:/bin", "GOTRACEBACK=single"}
	var out, errs bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errs
	if err := cmd.Run(); err != nil {
		text := errs.String()
		x, ok := err.(*exec.ExitError)
		if !ok {
			return nil, "", fmt.Errorf("harness: %v", err)
		}
		if x.ExitCode() != 1 || strings.Contains(text, "panic:") || strings.Contains(text, "goroutine ") {
			return nil, "", fmt.Errorf("the plugin crashed (%v): %s", err, text[:min(len(text), 1500)])
		}
		if out.Len() > 0 {
			return nil, "", fmt.Errorf("the plugin failed and wrote %d bytes", out.Len())
		}
		if strings.TrimSpace(text) == "" {
			return nil, "", fmt.Errorf("the plugin failed without a message")
		}
		return nil, text, nil
	}
	res = &pluginpb.CodeGeneratorResponse{}
	if err := proto.Unmarshal(out.Bytes(), res); err != nil {
		return nil, "", fmt.Errorf("the plugin's output is no response: %v", err)
	}
	if res.Error != nil {
		return nil, res.GetError(), nil
	}
	return res, "", nil
}

// ---------------------------------------------------------------- type checking

// gpTypes type-checks generated packages in memory.
type gpTypes struct {
	fset    *token.FileSet
	base    types.Importer
	sources map[string]map[string]string // import path -> file -> source
	done    map[string]*types.Package
	errs    []string
	active  map[string]bool
}

var gpBase struct {
	sync.Mutex
	fset *token.FileSet
	imp  types.Importer
}

func newGpTypes(exports map[string]string) *gpTypes {
	gpBase.Lock()
	defer gpBase.Unlock()
	if gpBase.imp == nil {
		gpBase.fset = token.NewFileSet()
		gpBase.imp = importer.ForCompiler(gpBase.fset, "gc", func(p string) (io.ReadCloser, error) {
			f, ok := exports[p]
			if !ok {
				return nil, fmt.Errorf("no package %q", p)
			}
			return os.Open(f)
		})
	}
	return &gpTypes{fset: token.NewFileSet(), base: gpBase.imp, sources: map[string]map[string]string{}, done: map[string]*types.Package{}, active: map[string]bool{}}
}

func (g *gpTypes) add(imp, file, src string) {
	if g.sources[imp] == nil {
		g.sources[imp] = map[string]string{}
	}
	g.sources[imp][file] = src
}

func (g *gpTypes) Import(p string) (*types.Package, error) {
	if p == "unsafe" {
		return types.Unsafe, nil
	}
	if pkg, ok := g.done[p]; ok {
		if pkg == nil {
			return nil, fmt.Errorf("package %s has errors", p)
		}
		return pkg, nil
	}
	if _, ok := g.sources[p]; !ok {
		gpBase.Lock()
		defer gpBase.Unlock()
		return g.base.Import(p)
	}
	if g.active[p] {
		return nil, fmt.Errorf("import cycle at %s", p)
	}
	g.active[p] = true
	defer delete(g.active, p)
	before := len(g.errs)
	var names []string
	for n := range g.sources[p] {
		names = append(names, n)
	}
	sort.Strings(names)
	var files []*ast.File
	for _, n := range names {
		f, err := parser.ParseFile(g.fset, n, g.sources[p][n], parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			g.errs = append(g.errs, err.Error())
			continue
		}
		files = append(files, f)
	}
	cfg := types.Config{Importer: g, GoVersion: "go1.25", Error: func(err error) {
		g.errs = append(g.errs, err.Error())
	}}
	pkg, _ := cfg.Check(p, g.fset, files, nil)
	for _, f := range files {
		// one package per directory
		if f.Name.Name != files[0].Name.Name {
			g.errs = append(g.errs, fmt.Sprintf("package %s has files of the packages %s and %s", p, files[0].Name.Name, f.Name.Name))
		}
	}
	if len(g.errs) > before {
		g.done[p] = nil
		return nil, fmt.Errorf("package %s has errors", p)
	}
	g.done[p] = pkg
	return pkg, nil
}

// gpGo is what protoc-gen-go makes of a case.
type gpGo struct {
	gen    *protogen.Plugin
	files  map[string]map[string]string // import path -> name -> source of .pb.go
	idents map[string]protogen.GoIdent  // by full message name
	pkgs   map[string]protogen.GoImportPath
	prefix map[string]string // generated file name prefix by proto file
	names  map[string]protogen.GoPackageName
}

func (c *gpCase) protocGenGo(params string) (*gpGo, error) {
	req := c.request()
	req.Parameter = proto.String(params)
	req.FileToGenerate = nil
	for _, f := range c.Files {
		req.FileToGenerate = append(req.FileToGenerate, f.Path)
	}
	gen, err := protogen.Options{}.New(req)
	if err != nil {
		return nil, err
	}
	g := &gpGo{gen: gen, files: map[string]map[string]string{}, idents: map[string]protogen.GoIdent{}, pkgs: map[string]protogen.GoImportPath{}, prefix: map[string]string{}, names: map[string]protogen.GoPackageName{}}
	for _, f := range gen.Files {
		g.pkgs[f.Desc.Path()] = f.GoImportPath
		g.prefix[f.Desc.Path()] = f.GeneratedFilenamePrefix
		g.names[f.Desc.Path()] = f.GoPackageName
		var rec func(ms []*protogen.Message)
		rec = func(ms []*protogen.Message) {
			for _, m := range ms {
				g.idents[string(m.Desc.FullName())] = m.GoIdent
				rec(m.Messages)
			}
		}
		rec(f.Messages)
		if !f.Generate {
			continue
		}
		gf := gengo.GenerateFile(gen, f)
		src, err := gf.Content()
		if err != nil {
			return nil, err
		}
		imp := string(f.GoImportPath)
		if g.files[imp] == nil {
			g.files[imp] = map[string]string{}
		}
		g.files[imp][f.GeneratedFilenamePrefix+".pb.go"] = string(src)
	}
	return g, nil
}

// ---------------------------------------------------------------- documented interfaces

type gpTopic struct{ typ string }

// typed returns the typed topic parameters of a service in the order of their
// first use.
func (s *gpSvc) typed() []string {
	var out []string
	seen := map[string]bool{}
	for _, m := range s.Methods {
		if !m.Topics || !m.Typed {
			continue
		}
		for _, n := range m.Names {
			if k := gpCamel(n); !seen[k] {
				seen[k] = true
				out = append(out, k)
			}
		}
	}
	return out
}

func (s *gpSvc) topicTypes(m *gpMethod) []string {
	if !m.Topics {
		return nil
	}
	if len(m.Names) == 0 {
		return []string{"string"}
	}
	var out []string
	for _, n := range m.Names {
		t := "string"
		if m.Typed {
			for i, k := range s.typed() {
				if k == gpCamel(n) {
					t = fmt.Sprintf("K%d", i)
				}
			}
		}
		out = append(out, t)
	}
	return out
}

// groups returns the topic groups of a service: Go name and member methods.
func (s *gpSvc) groups() (names []string, members map[string][]*gpMethod) {
	members = map[string][]*gpMethod{}
	for i := range s.Methods {
		m := &s.Methods[i]
		if m.Group == "" || m.Sub || !m.Topics {
			continue
		}
		n := gpCamel(m.Group)
		if members[n] == nil {
			names = append(names, n)
		}
		members[n] = append(members[n], m)
	}
	return names, members
}

func (m *gpMethod) claim() bool { return m.Type != "MULTI" && !(m.Topics && m.Single) }

// gpImporter collects the imports of an assertion file.
type gpImporter struct {
	names map[string]string
	order []string
}

func (im *gpImporter) name(p string) string {
	if n, ok := im.names[p]; ok {
		return n
	}
	n := fmt.Sprintf("i%d", len(im.order))
	im.names[p] = n
	im.order = append(im.order, p)
	return n
}

// assertions writes a file which only compiles if the generated package declares
// the documented interfaces, and nothing more in them.
func (c *gpCase) assertions(g *gpGo, pkg, imp string) string {
	im := &gpImporter{names: map[string]string{}}
	var b strings.Builder
	t := im.name(imp)
	ctx, ps := im.name("context"), im.name("github.com/livekit/psrpc")
	typ := func(r gpRef) string {
		full, file := c.find(r)
		id, ok := g.idents[full]
		if !ok {
			panic("harness: no message " + full + " in " + file)
		}
		return "*" + im.name(string(id.GoImportPath)) + "." + id.GoName
	}
	keys := 0
	for i := range c.Files {
		if !c.Files[i].Gen {
			continue
		}
		for j := range c.Files[i].Svcs {
			s := &c.Files[i].Svcs[j]
			n := gpCamel(s.Name)
			k := s.typed()
			keys = max(keys, len(k))
			inst := ""
			if len(k) > 0 {
				var ks []string
				for x := range k {
					ks = append(ks, fmt.Sprintf("K%d", x))
				}
				inst = "[" + strings.Join(ks, ", ") + "]"
			}
			var cl, im2, sv []string
			for x := range s.Methods {
				m := &s.Methods[x]
				mn := gpCamel(m.Name)
				in, out := typ(m.In), typ(m.Out)
				args := ctx + ".Context"
				for _, tt := range s.topicTypes(m) {
					args += ", " + tt
				}
				topics := strings.Join(s.topicTypes(m), ", ")
				switch {
				case m.Sub:
					cl = append(cl, fmt.Sprintf("Subscribe%s(%s) (%s.Subscription[%s], error)", mn, args, ps, out))
					sv = append(sv, fmt.Sprintf("Publish%s(%s, %s) error", mn, args, out))
					continue
				case m.Stream:
					cl = append(cl, fmt.Sprintf("%s(%s, ...%s.RequestOption) (%s.ClientStream[%s, %s], error)", mn, args, ps, ps, in, out))
					im2 = append(im2, fmt.Sprintf("%s(%s.ServerStream[%s, %s]) error", mn, ps, out, in))
					if m.Type == "AFFINITY" {
						im2 = append(im2, fmt.Sprintf("%sAffinity(%s.Context) float32", mn, ctx))
					}
				default:
					res := out
					if m.Type == "MULTI" {
						res = fmt.Sprintf("<-chan *%s.Response[%s]", ps, out)
					}
					cl = append(cl, fmt.Sprintf("%s(%s, %s, ...%s.RequestOption) (%s, error)", mn, args, in, ps, res))
					im2 = append(im2, fmt.Sprintf("%s(%s.Context, %s) (%s, error)", mn, ctx, in, out))
					if m.Type == "AFFINITY" {
						im2 = append(im2, fmt.Sprintf("%sAffinity(%s.Context, %s) float32", mn, ctx, in))
					}
				}
				if m.Topics {
					sv = append(sv, fmt.Sprintf("Register%sTopic(%s) error", mn, topics), fmt.Sprintf("Deregister%sTopic(%s)", mn, topics))
				}
			}
			gn, gm := s.groups()
			for _, x := range gn {
				topics := strings.Join(s.topicTypes(gm[x][0]), ", ")
				sv = append(sv, fmt.Sprintf("RegisterAll%sTopics(%s) error", x, topics), fmt.Sprintf("DeregisterAll%sTopics(%s)", x, topics))
			}
			cl = append(cl, "Close()")
			sv = append(sv, "Shutdown()", "Kill()")
			for _, w := range []struct {
				name, inst string
				ms         []string
			}{{n + "Client", inst, cl}, {n + "ServerImpl", "", im2}, {n + "Server", inst, sv}} {
				fmt.Fprintf(&b, "type want%s interface {\n\t%s\n}\nvar _ want%s = %s.%s%s(nil)\nvar _ %s.%s%s = want%s(nil)\n",
					w.name, strings.Join(w.ms, "\n\t"), w.name, t, w.name, w.inst, t, w.name, w.inst, w.name)
			}
			fmt.Fprintf(&b, "var _ want%sServerImpl = %s.Unimplemented%sServer{}\n", n, t, n)
			fmt.Fprintf(&b, "var _ func(%s.MessageBus, ...%s.ClientOption) (%s.%sClient%s, error) = %s.New%sClient%s\n", ps, ps, t, n, inst, t, n, inst)
			fmt.Fprintf(&b, "var _ func(%s.%sServerImpl, %s.MessageBus, ...%s.ServerOption) (%s.%sServer%s, error) = %s.New%sServer%s\n", t, n, ps, ps, t, n, inst, t, n, inst)
		}
	}
	for x := range keys {
		fmt.Fprintf(&b, "type K%d string\n", x)
	}
	var h strings.Builder
	fmt.Fprintf(&h, "package %s\n\nimport (\n", pkg)
	body := b.String()
	for _, p := range im.order {
		if strings.Contains(body, im.names[p]+".") {
			fmt.Fprintf(&h, "\t%s %q\n", im.names[p], p)
		}
	}
	return h.String() + ")\n\n" + body
}
