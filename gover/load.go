package main

import (
	"regexp"
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the loaded package: the very files the go command would compile.
type Program struct {
	fset  *token.FileSet
	files []*ast.File
	info  *types.Info
	pkg   *types.Package
	ssa   *ssa.Package
	prog  *ssa.Program
	funcs map[string]*ssa.Function // by contract name
	dir   string
	esc   map[string]bool // escaping struct fields
	src   map[string][]byte
}

func loadProgram(dir string) (*Program, error) {
	ctx := build.Default
	ctx.CgoEnabled = false
	bp, err := ctx.ImportDir(dir, 0)
	if err != nil {
		return nil, err
	}
	p := &Program{fset: token.NewFileSet(), dir: dir, funcs: map[string]*ssa.Function{}, src: map[string][]byte{}}
	names := append([]string{}, bp.GoFiles...)
	sort.Strings(names)
	for _, n := range names {
		b, err := os.ReadFile(filepath.Join(dir, n))
		if err != nil {
			return nil, err
		}
		p.src[n] = b
		f, err := parser.ParseFile(p.fset, filepath.Join(dir, n), b, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			return nil, err
		}
		p.files = append(p.files, f)
	}
	build.Default.CgoEnabled = false
	conf := types.Config{Importer: importer.ForCompiler(p.fset, "source", nil), GoVersion: "go1.19",
		Sizes: types.SizesFor("gc", "amd64")}
	pkgName := bp.Name
	tp := types.NewPackage(pkgName, pkgName)
	_ = tp
	sp, info, err := ssautil.BuildPackage(&conf, p.fset, tp, p.files, ssa.NaiveForm|ssa.GlobalDebug|ssa.InstantiateGenerics)
	if err != nil {
		return nil, err
	}
	p.ssa = sp
	p.pkg = sp.Pkg
	p.prog = sp.Prog
	p.info = info
	for fn := range ssautil.AllFunctions(sp.Prog) {
		if fn.Pkg != sp && (fn.Origin() == nil || fn.Origin().Pkg != sp) {
			if fn.Parent() == nil || fn.Parent().Pkg != sp {
				continue
			}
		}
		n := funcName(fn)
		if fn.Synthetic != "" && !strings.HasPrefix(fn.Synthetic, "instance") {
			continue
		}
		p.funcs[n] = fn
	}
	p.computeEscapes()
	return p, nil
}

// funcName gives the name used in contract files: F, T.M (method, pointer or
// value receiver), F$1 for function literals.
func funcName(fn *ssa.Function) string {
	n := fn.Name()
	if fn.Parent() != nil {
		return funcName(fn.Parent()) + n[strings.Index(n, "$"):]
	}
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		if nt, ok := t.(*types.Named); ok {
			return nt.Obj().Name() + "." + n
		}
	}
	return n
}

func extName(fn *ssa.Function) string {
	pk := ""
	if fn.Pkg != nil {
		pk = fn.Pkg.Pkg.Name() + "."
	} else if o := fn.Object(); o != nil && o.Pkg() != nil {
		pk = o.Pkg().Name() + "."
	}
	return pk + funcName(fn)
}

func fieldKey(st types.Type, i int) string {
	s := st.Underlying().(*types.Struct)
	return typeKey(st) + "." + s.Field(i).Name()
}

// computeEscapes finds struct fields whose address is used other than for a
// direct load or store; those live in the element memory of their type.
func (p *Program) computeEscapes() {
	p.esc = map[string]bool{}
	var direct func(v ssa.Value, arr bool) bool
	direct = func(v ssa.Value, arr bool) bool {
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.DebugRef:
			case *ssa.UnOp:
				if r.Op != token.MUL {
					return false
				}
			case *ssa.Store:
				if r.Addr != v {
					return false
				}
			case *ssa.IndexAddr:
				if r.X != v || !direct(r, true) {
					return false
				}
			case *ssa.FieldAddr: // sub-field: struct typed, handled by emb
			default:
				return false
			}
		}
		return true
	}
	for fn := range ssautil.AllFunctions(p.prog) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				st := fa.X.Type().Underlying().(*types.Pointer).Elem()
				ft := st.Underlying().(*types.Struct).Field(fa.Field).Type()
				if _, isS := ft.Underlying().(*types.Struct); isS {
					continue
				}
				if !direct(fa, false) {
					p.esc[fieldKey(st, fa.Field)] = true
				}
			}
		}
	}
}

func typeKey(t types.Type) string {
	s := types.TypeString(t, func(p *types.Package) string {
		if p.Name() == "main" {
			return ""
		}
		return p.Name()
	})
	r := strings.NewReplacer(" ", "_", "|", "_")
	return r.Replace(aliasRe.ReplaceAllStringFunc(s, func(a string) string {
		switch a {
		case "byte":
			return "uint8"
		case "rune":
			return "int32"
		}
		return "interface{}"
	}))
}

// byte and uint8 (rune and int32, any and interface{}) are the same type
var aliasRe = regexp.MustCompile(`\b(byte|rune|any)\b`)

func (p *Program) pos(ps token.Pos) string {
	q := p.fset.Position(ps)
	return fmt.Sprintf("%s:%d", filepath.Base(q.Filename), q.Line)
}
