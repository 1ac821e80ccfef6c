package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/rdimitrov/go-tuf-metadata"

type World struct {
	prog    *ssa.Program
	pkgs    map[string]*ssa.Package // by path
	tpkgs   map[string]*types.Package
	byName  map[string]*types.Package // by short package name (repo first)
	structK map[*types.Struct]string
	loadMsg []string
	mu      sync.Mutex
	skMu    sync.Mutex
}

func LoadWorld(dir string) (*World, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: dir,
		Env: append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOWORK=off"),
	}
	initial, err := packages.Load(cfg, "./metadata/...")
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range initial {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(initial, ssa.InstantiateGenerics|ssa.BareInits)
	w := &World{prog: prog, pkgs: map[string]*ssa.Package{}, tpkgs: map[string]*types.Package{}, byName: map[string]*types.Package{}, structK: map[*types.Struct]string{}}
	prog.Build()
	for _, p := range prog.AllPackages() {
		w.pkgs[p.Pkg.Path()] = p
		w.tpkgs[p.Pkg.Path()] = p.Pkg
		n := p.Pkg.Name()
		if q, ok := w.byName[n]; !ok || (!strings.HasPrefix(q.Path(), modPath) && (strings.HasPrefix(p.Pkg.Path(), modPath) || len(p.Pkg.Path()) < len(q.Path()))) {
			w.byName[n] = p.Pkg
		}
	}
	return w, nil
}

func inRepo(p *types.Package) bool {
	return p != nil && strings.HasPrefix(p.Path(), modPath)
}

func shortQual(p *types.Package) string { return p.Name() }

func tstr(t types.Type) string { return types.TypeString(t, shortQual) }

// structKey is the canonical memory name of a struct type: types declared
// with the same underlying *types.Struct share it.
func (w *World) structKey(t types.Type) string {
	st := t.Underlying().(*types.Struct)
	w.skMu.Lock()
	defer w.skMu.Unlock()
	if k, ok := w.structK[st]; ok {
		return k
	}
	k := ""
	if n, ok := t.(*types.Named); ok && n.Obj().Parent() == n.Obj().Pkg().Scope() {
		k = tstr(t)
	} else {
		// look for a package-level named type with the same underlying struct
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			sc := n.Obj().Pkg().Scope()
			names := sc.Names()
			sort.Strings(names)
			for _, nm := range names {
				if tn, ok := sc.Lookup(nm).(*types.TypeName); ok {
					if nn, ok := tn.Type().(*types.Named); ok && nn.TypeParams() == nil {
						if u, ok := nn.Underlying().(*types.Struct); ok && u == st {
							k = tstr(nn)
							break
						}
					}
				}
			}
		}
		if k == "" {
			k = tstr(t)
		}
	}
	w.structK[st] = k
	return k
}

// origin returns the package-level type that t was declared from, for local
// alias types such as `type Alias RootType`.
func (w *World) sameStruct(a, b types.Type) bool {
	sa, ok1 := a.Underlying().(*types.Struct)
	sb, ok2 := b.Underlying().(*types.Struct)
	return ok1 && ok2 && (sa == sb || types.Identical(a, b))
}

func isOpaqueStruct(t types.Type) bool {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	n, ok := t.(*types.Named)
	if !ok || inRepo(n.Obj().Pkg()) {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Exported() {
			return false
		}
	}
	return true
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// isByteArr: [N]byte
func isByteArr(t types.Type) bool {
	a, ok := t.Underlying().(*types.Array)
	return ok && isByte(a.Elem())
}

func isByteSlice(t types.Type) bool {
	a, ok := t.Underlying().(*types.Slice)
	return ok && isByte(a.Elem())
}

// leafSort returns the SMT sort of a leaf type, or "" for composites.
func (w *World) leafSort(t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return "Bool"
		case u.Info()&types.IsInteger != 0:
			return "Int"
		case u.Info()&types.IsString != 0:
			return "Str"
		case u.Info()&types.IsFloat != 0:
			return "Float"
		case u.Kind() == types.UnsafePointer:
			return "Ref"
		case u.Kind() == types.UntypedNil:
			return "Ref"
		}
		return "Opq"
	case *types.Pointer, *types.Map, *types.Chan:
		return "Ref"
	case *types.Signature:
		return "Func"
	case *types.Slice:
		return "Slice"
	case *types.Interface:
		return "Iface"
	case *types.Array:
		if isByte(u.Elem()) {
			return "Str"
		}
		return ""
	case *types.Struct:
		if isOpaqueStruct(t) {
			return sym("T_" + tstr(t))
		}
		return ""
	case *types.Tuple:
		return ""
	}
	panic("leafSort: " + t.String())
}

// Val is the executor's value domain.
type Val interface{}

type Comp struct {
	t types.Type
	f []Val
}

type Tuple []Val

type Clo struct {
	fn    *ssa.Function
	binds []Val
}

// Addr is the address of a leaf cell that is not a plain Ref.
type Addr struct {
	// local promoted variable
	local *localKey
	path  []int
	// field of a heap struct
	ref *Term
	st  types.Type
	fi  int
	// byte element
	byteOf *Term // array ref
	idx    *Term
	t      types.Type // type of the cell
}

type localKey struct {
	a *ssa.Alloc
	f *FrameID
}

func (w *World) fieldTypes(t types.Type) []types.Type {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		r := make([]types.Type, u.NumFields())
		for i := range r {
			r[i] = u.Field(i).Type()
		}
		return r
	case *types.Array:
		r := make([]types.Type, u.Len())
		for i := range r {
			r[i] = u.Elem()
		}
		return r
	}
	panic("fieldTypes " + t.String())
}

func (w *World) leaves(t types.Type) []types.Type {
	if w.leafSort(t) != "" {
		return []types.Type{t}
	}
	var r []types.Type
	for _, f := range w.fieldTypes(t) {
		r = append(r, w.leaves(f)...)
	}
	return r
}

func (w *World) flatten(v Val, t types.Type) []*Term {
	switch x := v.(type) {
	case *Term:
		return []*Term{x}
	case *Comp:
		var r []*Term
		for i, ft := range w.fieldTypes(t) {
			r = append(r, w.flatten(x.f[i], ft)...)
		}
		return r
	}
	panic(fmt.Sprintf("flatten %T", v))
}

func (w *World) unflatten(ts []*Term, t types.Type) (Val, []*Term) {
	if w.leafSort(t) != "" {
		return ts[0], ts[1:]
	}
	c := &Comp{t: t}
	for _, ft := range w.fieldTypes(t) {
		var v Val
		v, ts = w.unflatten(ts, ft)
		c.f = append(c.f, v)
	}
	return c, ts
}

// findFunc resolves a contract name such as "metadata.Root",
// "(*metadata.Metadata[T]).VerifyDelegate" → all instances.
func (w *World) namedType(pkg *types.Package, name string) *types.Named {
	o := pkg.Scope().Lookup(name)
	if tn, ok := o.(*types.TypeName); ok {
		if n, ok := tn.Type().(*types.Named); ok {
			return n
		}
	}
	return nil
}

// instances of a generic type for the repository's role types
func (w *World) roleTypes() []types.Type {
	p := w.tpkgs[modPath+"/metadata"]
	var r []types.Type
	if p == nil {
		return nil
	}
	for _, n := range []string{"RootType", "SnapshotType", "TimestampType", "TargetsType"} {
		if t := w.namedType(p, n); t != nil {
			r = append(r, t)
		}
	}
	return r
}

func (w *World) inst(n *types.Named, arg types.Type) types.Type {
	if n.TypeParams() == nil || n.TypeParams().Len() == 0 {
		return n
	}
	t, err := types.Instantiate(nil, n, []types.Type{arg}, false)
	if err != nil {
		return n
	}
	return w.canonType(t)
}

// canonType maps an instantiated type to the identical one already used by
// the program, so that underlying struct pointers coincide.
func (w *World) canonType(t types.Type) types.Type {
	return t
}
