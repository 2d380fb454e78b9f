// govc dumps the SSA form (golang.org/x/tools/go/ssa) of every function of the
// module in the given directory, together with all types they mention, as JSON.
// Nothing is dropped from the functions' bodies: every instruction of every
// non-test function of the module is written out. Bodies of dependencies are
// not dumped (they are contracts/models on the Python side).
package main

import (
	"encoding/json"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/go-oidfed/lib"

func short(s string) string {
	s = strings.ReplaceAll(s, modPath+"/", "")
	return strings.ReplaceAll(s, modPath, "oidfed")
}

type M = map[string]any

type dumper struct {
	prog  *ssa.Program
	types map[types.Type]int
	byStr map[string]int
	tlist []M
	funcs map[string]M
	queue []*ssa.Function
	seen  map[*ssa.Function]bool
	fset  *token.FileSet
	extn  map[string]M
}

func inModule(p *types.Package) bool {
	return p != nil && (p.Path() == modPath || strings.HasPrefix(p.Path(), modPath+"/"))
}

// key names a type; function-local types of the same name are kept apart
func (d *dumper) key(t types.Type) string {
	if _, named := types.Unalias(t).(*types.Named); named {
		return d.key0(t)
	}
	return "~" + d.key0(t)
}

func (d *dumper) key0(t types.Type) string {
	switch u := types.Unalias(t).(type) {
	case *types.Named:
		k := types.TypeString(u, func(p *types.Package) string { return p.Path() })
		if tp := u.Obj(); tp.Parent() != nil && tp.Pkg() != nil && tp.Parent() != tp.Pkg().Scope() {
			p := d.fset.Position(tp.Pos())
			k = fmt.Sprintf("%s@%s:%d:%d", k, filepath.Base(p.Filename), p.Line, p.Column)
		}
		return k
	case *types.Pointer:
		return "*" + d.key0(u.Elem())
	case *types.Slice:
		return "[]" + d.key0(u.Elem())
	case *types.Array:
		return fmt.Sprintf("[%d]%s", u.Len(), d.key0(u.Elem()))
	case *types.Map:
		return "map[" + d.key0(u.Key()) + "]" + d.key0(u.Elem())
	default:
		return types.TypeString(types.Unalias(t), func(p *types.Package) string { return p.Path() })
	}
}

func (d *dumper) typ(t types.Type) int {
	if t == nil {
		return -1
	}
	if id, ok := d.types[t]; ok {
		return id
	}
	t = types.Unalias(t)
	key := d.key(t)
	if id, ok := d.byStr[key]; ok {
		d.types[t] = id
		return id
	}
	id := len(d.tlist)
	d.types[t] = id
	d.byStr[key] = id
	m := M{"s": short(strings.TrimPrefix(key, "~"))}
	d.tlist = append(d.tlist, m)
	switch u := t.(type) {
	case *types.Named:
		m["k"] = "named"
		m["name"] = u.Obj().Name()
		if u.Obj().Pkg() != nil {
			m["pkg"] = short(u.Obj().Pkg().Path())
		}
		m["u"] = d.typ(u.Underlying())
		if inModule(u.Obj().Pkg()) {
			d.methods(m, t)
		}
	case *types.Basic:
		m["k"] = "basic"
		m["name"] = u.Name()
	case *types.Pointer:
		m["k"] = "ptr"
		m["e"] = d.typ(u.Elem())
		if n, ok := types.Unalias(u.Elem()).(*types.Named); ok && inModule(n.Obj().Pkg()) {
			d.methods(m, t)
		}
	case *types.Slice:
		m["k"] = "slice"
		m["e"] = d.typ(u.Elem())
	case *types.Array:
		m["k"] = "array"
		m["e"] = d.typ(u.Elem())
		m["n"] = u.Len()
	case *types.Map:
		m["k"] = "map"
		m["key"] = d.typ(u.Key())
		m["e"] = d.typ(u.Elem())
	case *types.Chan:
		m["k"] = "chan"
		m["e"] = d.typ(u.Elem())
	case *types.Struct:
		m["k"] = "struct"
		fs := []M{}
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			fs = append(fs, M{"n": f.Name(), "t": d.typ(f.Type()), "emb": f.Embedded(), "tag": u.Tag(i)})
		}
		m["f"] = fs
	case *types.Interface:
		m["k"] = "iface"
		ms := []string{}
		for i := 0; i < u.NumMethods(); i++ {
			ms = append(ms, u.Method(i).Name())
		}
		m["ms"] = ms
	case *types.Signature:
		m["k"] = "func"
		m["p"] = d.tuple(u.Params())
		m["r"] = d.tuple(u.Results())
	case *types.Tuple:
		m["k"] = "tuple"
		m["r"] = d.tuple(u)
	case *types.TypeParam:
		m["k"] = "tparam"
	default:
		m["k"] = "other"
		m["go"] = fmt.Sprintf("%T", t)
	}
	return id
}

func (d *dumper) tuple(t *types.Tuple) []int {
	r := []int{}
	for i := 0; i < t.Len(); i++ {
		r = append(r, d.typ(t.At(i).Type()))
	}
	return r
}

// methods records the method set of t (name -> function name)
func (d *dumper) methods(m M, t types.Type) {
	if types.IsInterface(t) {
		return
	}
	if n, ok := t.(*types.Named); ok && n.TypeParams().Len() > 0 && n.TypeArgs().Len() == 0 {
		return
	}
	ms := d.prog.MethodSets.MethodSet(t)
	out := M{}
	for i := 0; i < ms.Len(); i++ {
		sel := ms.At(i)
		f := d.prog.MethodValue(sel)
		if f == nil {
			continue
		}
		out[sel.Obj().Name()] = d.fn(f)
	}
	m["methods"] = out
}

func (d *dumper) fn(f *ssa.Function) string {
	name := short(f.String())
	if !d.seen[f] {
		d.seen[f] = true
		d.queue = append(d.queue, f)
	}
	return name
}

func (d *dumper) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := d.fset.Position(p)
	i := strings.LastIndex(q.Filename, "/")
	return fmt.Sprintf("%s:%d", q.Filename[i+1:], q.Line)
}

func (d *dumper) val(v ssa.Value) any {
	if v == nil {
		return nil
	}
	switch x := v.(type) {
	case *ssa.Const:
		m := M{"k": "c", "t": d.typ(x.Type())}
		if x.Value == nil {
			m["v"] = nil
			m["ck"] = "nil"
		} else {
			switch x.Value.Kind() {
			case constant.Bool:
				m["ck"] = "bool"
				m["v"] = constant.BoolVal(x.Value)
			case constant.String:
				m["ck"] = "str"
				m["v"] = constant.StringVal(x.Value)
			case constant.Int:
				m["ck"] = "int"
				m["v"] = x.Value.ExactString()
			case constant.Float:
				m["ck"] = "float"
				m["v"] = x.Value.ExactString()
			default:
				m["ck"] = "other"
				m["v"] = x.Value.ExactString()
			}
		}
		return m
	case *ssa.Global:
		return M{"k": "g", "n": short(x.String()), "t": d.typ(x.Type())}
	case *ssa.Function:
		return M{"k": "f", "n": d.fn(x), "t": d.typ(x.Type())}
	case *ssa.Builtin:
		return M{"k": "b", "n": x.Name()}
	default:
		return M{"k": "r", "n": v.Name(), "t": d.typ(v.Type())}
	}
}

func (d *dumper) vals(vs []ssa.Value) []any {
	r := []any{}
	for _, v := range vs {
		r = append(r, d.val(v))
	}
	return r
}

func (d *dumper) call(c *ssa.CallCommon) M {
	m := M{"args": d.vals(c.Args), "sig": d.typ(c.Signature())}
	if c.IsInvoke() {
		m["invoke"] = c.Method.Name()
		m["recv"] = d.val(c.Value)
	} else {
		m["fn"] = d.val(c.Value)
	}
	return m
}

func (d *dumper) instr(in ssa.Instruction) M {
	m := M{"pos": d.pos(in.Pos())}
	if v, ok := in.(ssa.Value); ok {
		m["n"] = v.Name()
		m["t"] = d.typ(v.Type())
	}
	switch x := in.(type) {
	case *ssa.Alloc:
		m["op"], m["heap"], m["cm"] = "alloc", x.Heap, x.Comment
	case *ssa.Phi:
		m["op"], m["x"], m["cm"] = "phi", d.vals(x.Edges), x.Comment
	case *ssa.Call:
		m["op"], m["call"] = "call", d.call(&x.Call)
	case *ssa.BinOp:
		m["op"], m["o"], m["a"], m["b"] = "binop", x.Op.String(), d.val(x.X), d.val(x.Y)
	case *ssa.UnOp:
		m["op"], m["o"], m["a"], m["ok"] = "unop", x.Op.String(), d.val(x.X), x.CommaOk
	case *ssa.ChangeType:
		m["op"], m["a"] = "changetype", d.val(x.X)
	case *ssa.Convert:
		m["op"], m["a"] = "convert", d.val(x.X)
	case *ssa.MultiConvert:
		m["op"], m["a"] = "convert", d.val(x.X)
	case *ssa.ChangeInterface:
		m["op"], m["a"] = "changeiface", d.val(x.X)
	case *ssa.MakeInterface:
		m["op"], m["a"] = "makeiface", d.val(x.X)
	case *ssa.MakeClosure:
		m["op"], m["fn"], m["x"] = "closure", d.val(x.Fn), d.vals(x.Bindings)
	case *ssa.MakeMap:
		m["op"] = "makemap"
	case *ssa.MakeChan:
		m["op"] = "makechan"
	case *ssa.MakeSlice:
		m["op"], m["len"], m["cap"] = "makeslice", d.val(x.Len), d.val(x.Cap)
	case *ssa.Slice:
		m["op"], m["a"], m["lo"], m["hi"], m["max"] = "slice", d.val(x.X), d.val(x.Low), d.val(x.High), d.val(x.Max)
	case *ssa.FieldAddr:
		m["op"], m["a"], m["f"] = "fieldaddr", d.val(x.X), x.Field
	case *ssa.Field:
		m["op"], m["a"], m["f"] = "field", d.val(x.X), x.Field
	case *ssa.IndexAddr:
		m["op"], m["a"], m["i"] = "indexaddr", d.val(x.X), d.val(x.Index)
	case *ssa.Index:
		m["op"], m["a"], m["i"] = "index", d.val(x.X), d.val(x.Index)
	case *ssa.Lookup:
		m["op"], m["a"], m["i"], m["ok"] = "lookup", d.val(x.X), d.val(x.Index), x.CommaOk
	case *ssa.Range:
		m["op"], m["a"] = "range", d.val(x.X)
	case *ssa.Next:
		m["op"], m["a"], m["str"] = "next", d.val(x.Iter), x.IsString
	case *ssa.TypeAssert:
		m["op"], m["a"], m["at"], m["ok"] = "assert", d.val(x.X), d.typ(x.AssertedType), x.CommaOk
	case *ssa.Extract:
		m["op"], m["a"], m["i"] = "extract", d.val(x.Tuple), x.Index
	case *ssa.Jump:
		m["op"] = "jump"
	case *ssa.If:
		m["op"], m["a"] = "if", d.val(x.Cond)
	case *ssa.Return:
		m["op"], m["x"] = "return", d.vals(x.Results)
	case *ssa.RunDefers:
		m["op"] = "rundefers"
	case *ssa.Panic:
		m["op"], m["a"] = "panic", d.val(x.X)
	case *ssa.Go:
		m["op"], m["call"] = "go", d.call(&x.Call)
	case *ssa.Defer:
		m["op"], m["call"] = "defer", d.call(&x.Call)
	case *ssa.Send:
		m["op"], m["a"], m["b"] = "send", d.val(x.Chan), d.val(x.X)
	case *ssa.Store:
		m["op"], m["a"], m["b"] = "store", d.val(x.Addr), d.val(x.Val)
	case *ssa.MapUpdate:
		m["op"], m["a"], m["i"], m["b"] = "mapupdate", d.val(x.Map), d.val(x.Key), d.val(x.Value)
	case *ssa.DebugRef:
		return nil
	default:
		m["op"], m["go"] = "unsupported", fmt.Sprintf("%T", in)
	}
	return m
}

func (d *dumper) function(f *ssa.Function) {
	name := short(f.String())
	m := M{"name": name, "pos": d.pos(f.Pos()), "syn": f.Synthetic, "sig": d.typ(f.Signature)}
	if f.Parent() != nil {
		m["parent"] = short(f.Parent().String())
	}
	pkg := f.Package()
	own := false
	if pkg != nil {
		own = inModule(pkg.Pkg)
		m["pkg"] = short(pkg.Pkg.Path())
	} else if o := f.Origin(); o != nil && o.Package() != nil {
		own = inModule(o.Package().Pkg)
		m["pkg"] = short(o.Package().Pkg.Path())
		m["origin"] = short(o.String())
	} else if f.Object() != nil && f.Object().Pkg() != nil {
		own = inModule(f.Object().Pkg())
		m["pkg"] = short(f.Object().Pkg().Path())
	} else if f.Synthetic != "" {
		own = true
	}
	if f.Origin() != nil {
		m["origin"] = short(f.Origin().String())
		ta := []int{}
		for _, t := range f.TypeArgs() {
			ta = append(ta, d.typ(t))
		}
		m["targs"] = ta
	}
	ps := []any{}
	for _, p := range f.Params {
		ps = append(ps, M{"n": p.Name(), "t": d.typ(p.Type())})
	}
	m["params"] = ps
	fvs := []any{}
	for _, p := range f.FreeVars {
		fvs = append(fvs, M{"n": p.Name(), "t": d.typ(p.Type())})
	}
	m["freevars"] = fvs
	m["own"] = own
	if own && len(f.Blocks) > 0 {
		bs := []any{}
		for _, b := range f.Blocks {
			ins := []any{}
			for _, in := range b.Instrs {
				if x := d.instr(in); x != nil {
					ins = append(ins, x)
				}
			}
			su, pr := []int{}, []int{}
			for _, s := range b.Succs {
				su = append(su, s.Index)
			}
			for _, s := range b.Preds {
				pr = append(pr, s.Index)
			}
			bs = append(bs, M{"i": ins, "s": su, "p": pr, "c": b.Comment})
		}
		m["blocks"] = bs
		nr := []string{}
		if f.Signature.Results() != nil {
			for i := 0; i < f.Signature.Results().Len(); i++ {
				nr = append(nr, f.Signature.Results().At(i).Name())
			}
		}
		m["resnames"] = nr
	}
	d.funcs[name] = m
}

func main() {
	dir := os.Args[1]
	out := os.Args[2]
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule | packages.NeedExportFile,
		Dir: dir,
	}
	cfg.Mode &^= packages.NeedDeps
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	bad := false
	for _, p := range pkgs {
		for _, e := range p.Errors {
			fmt.Fprintln(os.Stderr, p.PkgPath, e)
			bad = true
		}
	}
	if bad {
		os.Exit(2)
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	d := &dumper{prog: prog, types: map[types.Type]int{}, byStr: map[string]int{}, funcs: map[string]M{}, seen: map[*ssa.Function]bool{}, fset: prog.Fset}
	globals := []M{}
	for _, sp := range spkgs {
		if sp == nil {
			continue
		}
		names := []string{}
		for n := range sp.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			switch x := sp.Members[n].(type) {
			case *ssa.Function:
				d.fn(x)
			case *ssa.Global:
				globals = append(globals, M{"n": short(x.String()), "t": d.typ(x.Type())})
			case *ssa.Type:
				d.typ(x.Type())
				if nt, ok := types.Unalias(x.Type()).(*types.Named); ok && nt.TypeParams().Len() == 0 {
					d.typ(types.NewPointer(x.Type()))
				}
			}
		}
	}
	for len(d.queue) > 0 {
		f := d.queue[0]
		d.queue = d.queue[1:]
		d.function(f)
		for _, a := range f.AnonFuncs {
			d.fn(a)
		}
	}
	fl, err := os.Create(out)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	enc := json.NewEncoder(fl)
	if err := enc.Encode(M{"types": d.tlist, "funcs": d.funcs, "globals": globals}); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	fl.Close()
}
