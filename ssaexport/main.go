// Command ssaexport type-checks the packages of zksigma in GOPATH mode and
// writes their SSA form (golang.org/x/tools/go/ssa) as JSON on standard output.
// It is the only front end of the verifier: what it writes is a mechanical
// translation of the current source; nothing is dropped except comments,
// debug references and function bodies of packages outside the repository.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build"
	"go/constant"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"

	"golang.org/x/tools/go/ssa"
)

type J = map[string]interface{}

var typeIDs = map[string]int{}
var typeList []J

func typ(t types.Type) int {
	key := types.TypeString(t, nil)
	if id, ok := typeIDs[key]; ok {
		return id
	}
	id := len(typeList)
	typeIDs[key] = id
	d := J{"s": key}
	typeList = append(typeList, d)
	switch u := t.(type) {
	case *types.Named:
		d["k"] = "named"
		d["u"] = typ(u.Underlying())
		d["name"] = key
	case *types.Alias:
		d["k"] = "alias"
		d["u"] = typ(types.Unalias(u))
	case *types.Basic:
		d["k"] = "basic"
		d["name"] = u.Name()
		d["kind"] = int(u.Kind())
	case *types.Pointer:
		d["k"] = "ptr"
		d["e"] = typ(u.Elem())
	case *types.Slice:
		d["k"] = "slice"
		d["e"] = typ(u.Elem())
	case *types.Array:
		d["k"] = "array"
		d["e"] = typ(u.Elem())
		d["n"] = u.Len()
	case *types.Struct:
		d["k"] = "struct"
		var fs []J
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			fs = append(fs, J{"n": f.Name(), "t": typ(f.Type()), "emb": f.Embedded()})
		}
		d["f"] = fs
	case *types.Map:
		d["k"] = "map"
		d["key"] = typ(u.Key())
		d["e"] = typ(u.Elem())
	case *types.Chan:
		d["k"] = "chan"
		d["e"] = typ(u.Elem())
	case *types.Signature:
		d["k"] = "func"
		var ps, rs []int
		for i := 0; i < u.Params().Len(); i++ {
			ps = append(ps, typ(u.Params().At(i).Type()))
		}
		for i := 0; i < u.Results().Len(); i++ {
			rs = append(rs, typ(u.Results().At(i).Type()))
		}
		d["p"] = ps
		d["r"] = rs
		d["variadic"] = u.Variadic()
	case *types.Interface:
		d["k"] = "iface"
	case *types.Tuple:
		d["k"] = "tuple"
		var es []int
		for i := 0; i < u.Len(); i++ {
			es = append(es, typ(u.At(i).Type()))
		}
		d["es"] = es
	default:
		d["k"] = "other"
	}
	return id
}

func val(v ssa.Value) interface{} {
	if v == nil {
		return nil
	}
	switch x := v.(type) {
	case *ssa.Const:
		d := J{"c": "const", "t": typ(x.Type())}
		if x.Value == nil {
			d["nil"] = true
		} else {
			switch x.Value.Kind() {
			case constant.Bool:
				d["b"] = constant.BoolVal(x.Value)
			case constant.String:
				d["str"] = constant.StringVal(x.Value)
			case constant.Int:
				d["i"] = x.Value.ExactString()
			default:
				if i := constant.ToInt(x.Value); i.Kind() == constant.Int {
					d["i"] = i.ExactString()
				} else {
					d["f"] = x.Value.ExactString()
				}
			}
		}
		return d
	case *ssa.Function:
		return J{"c": "func", "n": fname(x)}
	case *ssa.Global:
		return J{"c": "global", "n": x.String(), "t": typ(x.Type())}
	case *ssa.Builtin:
		return J{"c": "builtin", "n": x.Name()}
	case *ssa.FreeVar:
		return J{"c": "free", "n": x.Name()}
	case *ssa.Parameter:
		for i, p := range x.Parent().Params {
			if p == x {
				return J{"c": "param", "i": i}
			}
		}
	}
	return v.Name()
}

func fname(f *ssa.Function) string { return f.String() }

var fset = token.NewFileSet()

func call(d J, c *ssa.CallCommon) {
	if c.IsInvoke() {
		d["invoke"] = c.Method.Name()
		d["recv"] = val(c.Value)
		d["itype"] = typ(c.Value.Type())
	} else {
		d["fn"] = val(c.Value)
	}
	args := []interface{}{}
	for _, a := range c.Args {
		args = append(args, val(a))
	}
	d["args"] = args
	d["sig"] = typ(c.Signature())
}

func instr(in ssa.Instruction) J {
	d := J{}
	if v, ok := in.(ssa.Value); ok {
		d["r"] = v.Name()
		d["t"] = typ(v.Type())
	}
	if p := in.Pos(); p.IsValid() {
		pos := fset.Position(p)
		d["pos"] = fmt.Sprintf("%s:%d", filepath.Base(pos.Filename), pos.Line)
	}
	switch x := in.(type) {
	case *ssa.Alloc:
		d["o"] = "alloc"
		d["heap"] = x.Heap
	case *ssa.BinOp:
		d["o"] = "binop"
		d["op"] = x.Op.String()
		d["x"] = val(x.X)
		d["y"] = val(x.Y)
		d["xt"] = typ(x.X.Type())
		d["yt"] = typ(x.Y.Type())
	case *ssa.UnOp:
		d["o"] = "unop"
		d["op"] = x.Op.String()
		d["x"] = val(x.X)
		d["commaok"] = x.CommaOk
		d["xt"] = typ(x.X.Type())
	case *ssa.Call:
		d["o"] = "call"
		call(d, &x.Call)
	case *ssa.Go:
		d["o"] = "go"
		call(d, &x.Call)
	case *ssa.Defer:
		d["o"] = "defer"
		call(d, &x.Call)
	case *ssa.RunDefers:
		d["o"] = "rundefers"
	case *ssa.ChangeInterface:
		d["o"] = "changeiface"
		d["x"] = val(x.X)
	case *ssa.ChangeType:
		d["o"] = "changetype"
		d["x"] = val(x.X)
	case *ssa.Convert:
		d["o"] = "convert"
		d["x"] = val(x.X)
		d["xt"] = typ(x.X.Type())
	case *ssa.Extract:
		d["o"] = "extract"
		d["x"] = val(x.Tuple)
		d["i"] = x.Index
	case *ssa.Field:
		d["o"] = "field"
		d["x"] = val(x.X)
		d["i"] = x.Field
	case *ssa.FieldAddr:
		d["o"] = "fieldaddr"
		d["x"] = val(x.X)
		d["i"] = x.Field
	case *ssa.If:
		d["o"] = "if"
		d["x"] = val(x.Cond)
	case *ssa.Index:
		d["o"] = "index"
		d["x"] = val(x.X)
		d["i"] = val(x.Index)
		d["xt"] = typ(x.X.Type())
	case *ssa.IndexAddr:
		d["o"] = "indexaddr"
		d["x"] = val(x.X)
		d["i"] = val(x.Index)
		d["xt"] = typ(x.X.Type())
	case *ssa.Jump:
		d["o"] = "jump"
	case *ssa.Lookup:
		d["o"] = "lookup"
		d["x"] = val(x.X)
		d["i"] = val(x.Index)
		d["commaok"] = x.CommaOk
		d["xt"] = typ(x.X.Type())
	case *ssa.MakeChan:
		d["o"] = "makechan"
		d["n"] = val(x.Size)
	case *ssa.MakeClosure:
		d["o"] = "closure"
		d["fn"] = fname(x.Fn.(*ssa.Function))
		bs := []interface{}{}
		for _, b := range x.Bindings {
			bs = append(bs, val(b))
		}
		d["bind"] = bs
	case *ssa.MakeInterface:
		d["o"] = "makeiface"
		d["x"] = val(x.X)
		d["xt"] = typ(x.X.Type())
	case *ssa.MakeMap:
		d["o"] = "makemap"
	case *ssa.MakeSlice:
		d["o"] = "makeslice"
		d["len"] = val(x.Len)
		d["cap"] = val(x.Cap)
	case *ssa.MapUpdate:
		d["o"] = "mapupdate"
		d["m"] = val(x.Map)
		d["k"] = val(x.Key)
		d["v"] = val(x.Value)
	case *ssa.Next:
		d["o"] = "next"
		d["x"] = val(x.Iter)
		d["str"] = x.IsString
	case *ssa.Panic:
		d["o"] = "panic"
		d["x"] = val(x.X)
	case *ssa.Phi:
		d["o"] = "phi"
		es := []interface{}{}
		for _, e := range x.Edges {
			es = append(es, val(e))
		}
		d["e"] = es
		d["comment"] = x.Comment
	case *ssa.Range:
		d["o"] = "range"
		d["x"] = val(x.X)
		d["xt"] = typ(x.X.Type())
	case *ssa.Return:
		d["o"] = "return"
		rs := []interface{}{}
		for _, r := range x.Results {
			rs = append(rs, val(r))
		}
		d["x"] = rs
	case *ssa.Select:
		d["o"] = "select"
		d["blocking"] = x.Blocking
		ss := []J{}
		for _, s := range x.States {
			ss = append(ss, J{"send": s.Dir == types.SendOnly, "ch": val(s.Chan), "v": val(s.Send)})
		}
		d["states"] = ss
	case *ssa.Send:
		d["o"] = "send"
		d["ch"] = val(x.Chan)
		d["v"] = val(x.X)
	case *ssa.Slice:
		d["o"] = "slice"
		d["x"] = val(x.X)
		d["xt"] = typ(x.X.Type())
		d["lo"] = val(x.Low)
		d["hi"] = val(x.High)
		d["max"] = val(x.Max)
	case *ssa.SliceToArrayPointer:
		d["o"] = "slice2arr"
		d["x"] = val(x.X)
	case *ssa.Store:
		d["o"] = "store"
		d["a"] = val(x.Addr)
		d["v"] = val(x.Val)
	case *ssa.TypeAssert:
		d["o"] = "typeassert"
		d["x"] = val(x.X)
		d["at"] = typ(x.AssertedType)
		d["commaok"] = x.CommaOk
	default:
		d["o"] = "unsupported"
		d["s"] = in.String()
	}
	return d
}

func function(f *ssa.Function) J {
	d := J{"n": fname(f), "synthetic": f.Synthetic, "sig": typ(f.Signature)}
	if p := f.Pos(); p.IsValid() {
		pos := fset.Position(p)
		d["pos"] = fmt.Sprintf("%s:%d", filepath.Base(pos.Filename), pos.Line)
	}
	ps := []J{}
	for _, p := range f.Params {
		ps = append(ps, J{"n": p.Name(), "t": typ(p.Type())})
	}
	d["params"] = ps
	fv := []J{}
	for _, p := range f.FreeVars {
		fv = append(fv, J{"n": p.Name(), "t": typ(p.Type())})
	}
	d["free"] = fv
	bs := []J{}
	for _, b := range f.Blocks {
		is := []J{}
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			is = append(is, instr(in))
		}
		su, pr := []int{}, []int{}
		for _, s := range b.Succs {
			su = append(su, s.Index)
		}
		for _, s := range b.Preds {
			pr = append(pr, s.Index)
		}
		bs = append(bs, J{"i": is, "s": su, "p": pr})
	}
	d["blocks"] = bs
	if f.Recover != nil {
		d["recover"] = f.Recover.Index
	}
	return d
}

type imp struct {
	std types.Importer
	own map[string]*types.Package
}

func (i imp) Import(path string) (*types.Package, error) {
	if p, ok := i.own[path]; ok {
		return p, nil
	}
	return i.std.Import(path)
}

func main() {
	root := os.Args[1] // directory of the repository
	base := "github.com/mit-dci/zksigma"
	ctx := build.Default
	ctx.CgoEnabled = false
	build.Default.CgoEnabled = false
	im := imp{importer.ForCompiler(fset, "source", nil), map[string]*types.Package{}}
	prog := ssa.NewProgram(fset, ssa.InstantiateGenerics)
	created := map[*types.Package]bool{}
	var createAll func(ps []*types.Package)
	createAll = func(ps []*types.Package) {
		for _, p := range ps {
			if !created[p] {
				created[p] = true
				prog.CreatePackage(p, nil, nil, true)
				createAll(p.Imports())
			}
		}
	}
	var pkgs []*ssa.Package
	for _, sub := range []string{"wire", "btcec", ""} {
		dir := filepath.Join(root, sub)
		bp, err := ctx.ImportDir(dir, 0)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		var files []*ast.File
		for _, n := range bp.GoFiles {
			f, err := parser.ParseFile(fset, filepath.Join(dir, n), nil, parser.SkipObjectResolution)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(2)
			}
			files = append(files, f)
		}
		path := base
		if sub != "" {
			path += "/" + sub
		}
		info := &types.Info{
			Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{},
			Uses: map[*ast.Ident]types.Object{}, Implicits: map[ast.Node]types.Object{},
			Instances: map[*ast.Ident]types.Instance{}, Scopes: map[ast.Node]*types.Scope{},
			Selections: map[*ast.SelectorExpr]*types.Selection{}, FileVersions: map[*ast.File]string{},
		}
		conf := types.Config{Importer: im}
		tp, err := conf.Check(path, fset, files, info)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		im.own[path] = tp
		createAll(tp.Imports())
		created[tp] = true
		pkgs = append(pkgs, prog.CreatePackage(tp, files, info, true))
	}
	for _, p := range pkgs {
		p.Build()
	}
	own := map[*ssa.Package]bool{}
	for _, p := range pkgs {
		own[p] = true
	}
	seen := map[*ssa.Function]bool{}
	var work []*ssa.Function
	push := func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		work = append(work, f)
	}
	globals := []J{}
	for _, p := range pkgs {
		var names []string
		for n := range p.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			switch m := p.Members[n].(type) {
			case *ssa.Function:
				push(m)
			case *ssa.Global:
				globals = append(globals, J{"n": m.String(), "t": typ(m.Type())})
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						f := prog.MethodValue(ms.At(i))
						if f != nil && (f.Pkg == nil || own[f.Pkg]) {
							push(f)
						}
					}
				}
			}
		}
	}
	var fns []J
	for i := 0; i < len(work); i++ {
		f := work[i]
		for _, a := range f.AnonFuncs {
			push(a)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var ops []*ssa.Value
				for _, o := range in.Operands(ops) {
					if g, ok := (*o).(*ssa.Function); ok && (g.Pkg == nil || own[g.Pkg]) {
						push(g)
					}
				}
			}
		}
		fns = append(fns, function(f))
	}
	w := bufio.NewWriter(os.Stdout)
	defer w.Flush()
	json.NewEncoder(w).Encode(J{"types": typeList, "funcs": fns, "globals": globals})
}
