package main

// Contract files: parsing, evaluation of specification expressions, checking a
// function body against its contract and applying a contract at a call site.

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Clause struct {
	Name string
	Text string
	X    ast.Expr
	Pos  string
}

type SetClause struct {
	L, R ast.Expr
	Text string
}

type Contract struct {
	Key     string
	Params  []string
	Results []string
	Shape   map[string]ast.Expr // param path -> length
	Req     []Clause
	Ens     []Clause
	Mod     []ModClause // locations (reachable sets) the function may write, in order
	Frame   bool
	With    map[string]ast.Expr // param -> constructor expression
	Set     []SetClause
	Havoc   []ast.Expr
	Do      []DoClause
	Alias   []string // "out=t other=t" cases
	Enum    []enumC
	States  []*startEnd // scalar states the body was verified in
	poolGet map[string]bool
	poolPut map[string]string
	Uses    []string          // contracts to verify first
	Owned   map[string]string // result that lives in memory of a parameter
	Pooled  string
	PoolX   ast.Expr // content of a pool: constructor of what Get may return
	PoolDo  []ast.Expr
	PutX    ast.Expr
	Reveal  map[string]bool // opaque definitions unfolded while verifying this body
	Let     map[string]ast.Expr
	Fn      map[string]string // callback params: name -> symbol
	Apply   bool
	Assume  string // reason: contract is assumed or checked elsewhere ("fft", ...)
	Aux     bool
	Props   []string
	Levels  string
	Pos     string
	NoHist  bool
	Unroll  int64 // loops with more iterations are summarised
	Foreign bool
}

// ModClause adds memory to what may be written, or (Except) takes it away again.
type ModClause struct {
	X      ast.Expr
	Except bool
}
type DoClause struct {
	Var string
	L   ast.Expr // assignment to a location
	X   ast.Expr
}
type enumC struct {
	Name string
	X    []ast.Expr // lo, hi
}

type SpecDef struct {
	Name   string
	Params []string
	Body   ast.Expr
	Opaque bool
	Sort   string
	N      ast.Expr // length, for array-valued opaque functions
}

type Lemma struct {
	Name  string
	Vars  []string
	Types []string
	Req   []Clause
	Ens   []Clause
	Let   map[string]ast.Expr
	Props []string
	Enum  []enumC
	Pos   string
}

type Specs struct {
	Con    []*Contract
	Defs   map[string]*SpecDef
	Lets   map[string]ast.Expr
	Shapes map[string]ast.Expr // "pkg.Type.Field" -> length
	Lemmas []*Lemma
	Trust  []string
	memo   map[string]SV
	folds  map[string][]SV
}

func parseExpr(s, pos string) ast.Expr {
	x, err := parser.ParseExpr(s)
	if err != nil {
		panic(fmt.Sprintf("%s: %v in %q", pos, err, s))
	}
	return x
}

func loadSpecs(dir string) *Specs {
	sp := &Specs{Defs: map[string]*SpecDef{}, Lets: map[string]ast.Expr{}, Shapes: map[string]ast.Expr{}, memo: map[string]SV{}, folds: map[string][]SV{}}
	fs, _ := filepath.Glob(filepath.Join(dir, "*.gvc"))
	sort.Strings(fs)
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		sp.parse(string(b), filepath.Base(f))
	}
	return sp
}

func splitTop(s string, sep byte) []string {
	var out []string
	d, st := 0, 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		case sep:
			if d == 0 {
				out = append(out, strings.TrimSpace(s[st:i]))
				st = i + 1
			}
		}
	}
	if t := strings.TrimSpace(s[st:]); t != "" {
		out = append(out, t)
	}
	return out
}

// parse: line oriented; an indented line continues a "func"/"lemma" block, a
// line ending in a backslash or inside open brackets continues on the next.
func (sp *Specs) parse(src, file string) {
	lines := strings.Split(src, "\n")
	var cur *Contract
	var lem *Lemma
	for i := 0; i < len(lines); i++ {
		raw := lines[i]
		pos := fmt.Sprintf("%s:%d", file, i+1)
		if k := strings.Index(raw, "//"); k >= 0 {
			raw = raw[:k]
		}
		depth := func(s string) int {
			d := 0
			for _, c := range s {
				switch c {
				case '(', '[', '{':
					d++
				case ')', ']', '}':
					d--
				}
			}
			return d
		}
		for depth(raw) > 0 && i+1 < len(lines) {
			i++
			n := lines[i]
			if k := strings.Index(n, "//"); k >= 0 {
				n = n[:k]
			}
			raw += " " + strings.TrimSpace(n)
		}
		l := strings.TrimSpace(raw)
		if l == "" {
			continue
		}
		ind := raw[0] == ' ' || raw[0] == '\t'
		word, rest := l, ""
		if k := strings.IndexAny(l, " \t"); k >= 0 {
			word, rest = l[:k], strings.TrimSpace(l[k:])
		}
		if !ind {
			cur, lem = nil, nil
			switch word {
			case "shape": // shape tlwe.TLWELv0.P = n0+1
				k := strings.Index(rest, "=")
				sp.Shapes[strings.TrimSpace(rest[:k])] = parseExpr(strings.TrimSpace(rest[k+1:]), pos)
			case "let":
				k := strings.Index(rest, "=")
				sp.Lets[strings.TrimSpace(rest[:k])] = parseExpr(strings.TrimSpace(rest[k+1:]), pos)
			case "def", "opaque":
				// def name(a, b) = expr   |  opaque name(a,b) arr32 n = expr
				p := strings.Index(rest, "(")
				q := strings.Index(rest, ")")
				d := &SpecDef{Name: rest[:p], Params: splitTop(rest[p+1:q], ','), Opaque: word == "opaque"}
				t := strings.TrimSpace(rest[q+1:])
				if k := strings.Index(t, "="); k >= 0 {
					d.Body = parseExpr(strings.TrimSpace(t[k+1:]), pos)
					t = strings.TrimSpace(t[:k])
				}
				if d.Opaque {
					fs := strings.Fields(t)
					d.Sort = fs[0]
					if len(fs) > 1 {
						d.N = parseExpr(strings.Join(fs[1:], " "), pos)
					}
				}
				sp.Defs[d.Name] = d
			case "func":
				cur = sp.header(rest, pos)
				sp.Con = append(sp.Con, cur)
			case "lemma":
				p := strings.Index(rest, "(")
				q := strings.LastIndex(rest, ")")
				lem = &Lemma{Name: rest[:p], Let: map[string]ast.Expr{}, Pos: pos}
				for _, v := range splitTop(rest[p+1:q], ',') {
					f := strings.Fields(v)
					lem.Vars = append(lem.Vars, f[0])
					lem.Types = append(lem.Types, f[1])
				}
				sp.Lemmas = append(sp.Lemmas, lem)
			default:
				panic(pos + ": unknown item " + word)
			}
			continue
		}
		mkClause := func() Clause {
			c := Clause{Text: rest, Pos: pos}
			if strings.HasPrefix(rest, "[") {
				k := strings.Index(rest, "]")
				c.Name = rest[1:k]
				rest = strings.TrimSpace(rest[k+1:])
				c.Text = rest
			}
			c.X = parseExpr(rest, pos)
			return c
		}
		if lem != nil {
			switch word {
			case "requires":
				lem.Req = append(lem.Req, mkClause())
			case "ensures":
				lem.Ens = append(lem.Ens, mkClause())
			case "let":
				k := strings.Index(rest, "=")
				lem.Let[strings.TrimSpace(rest[:k])] = parseExpr(strings.TrimSpace(rest[k+1:]), pos)
			case "prop":
				lem.Props = append(lem.Props, strings.Fields(rest)...)
			case "enum":
				lem.Enum = append(lem.Enum, parseEnum(rest, pos))
			default:
				panic(pos + ": unknown lemma clause " + word)
			}
			continue
		}
		if cur == nil {
			panic(pos + ": clause outside a block")
		}
		switch word {
		case "requires":
			c0 := mkClause()
			eachConj(c0.X, func(x ast.Expr) {
				c := Clause{Name: c0.Name, Text: types.ExprString(x), X: x, Pos: c0.Pos}
				if b, ok := c.X.(*ast.BinaryExpr); ok && b.Op == token.EQL {
					if ce, ok := b.X.(*ast.CallExpr); ok && identName(ce.Fun) == "len" {
						cur.Shape[exprString(ce.Args[0])] = b.Y
					}
				}
				cur.Req = append(cur.Req, c)
			})
		case "ensures":
			cur.Ens = append(cur.Ens, mkClause())
		case "modifies":
			for _, m := range splitTop(rest, ',') {
				cur.Mod = append(cur.Mod, ModClause{parseExpr(m, pos), false})
			}
		case "except":
			for _, m := range splitTop(rest, ',') {
				cur.Mod = append(cur.Mod, ModClause{parseExpr(m, pos), true})
			}
		case "havoc":
			for _, m := range splitTop(rest, ',') {
				cur.Havoc = append(cur.Havoc, parseExpr(m, pos))
			}
		case "with":
			k := strings.Index(rest, "=")
			cur.With[strings.TrimSpace(rest[:k])] = parseExpr(strings.TrimSpace(rest[k+1:]), pos)
		case "set":
			k := strings.Index(rest, "=")
			cur.Set = append(cur.Set, SetClause{parseExpr(strings.TrimSpace(rest[:k]), pos), parseExpr(strings.TrimSpace(rest[k+1:]), pos), rest})
		case "let":
			k := strings.Index(rest, "=")
			cur.Let[strings.TrimSpace(rest[:k])] = parseExpr(strings.TrimSpace(rest[k+1:]), pos)
		case "do":
			d := DoClause{}
			if k := strings.Index(rest, "="); k > 0 && token.IsIdentifier(strings.TrimSpace(rest[:k])) {
				d.Var = strings.TrimSpace(rest[:k])
				rest = strings.TrimSpace(rest[k+1:])
			} else if k > 0 && rest[k+1] != '=' && !strings.ContainsAny(rest[:k], "(!<>") {
				d.L = parseExpr(strings.TrimSpace(rest[:k]), pos)
				rest = strings.TrimSpace(rest[k+1:])
			}
			d.X = parseExpr(rest, pos)
			cur.Do = append(cur.Do, d)
		case "alias":
			cur.Alias = append(cur.Alias, rest)
		case "enum":
			cur.Enum = append(cur.Enum, parseEnum(rest, pos))
		case "prop":
			cur.Props = append(cur.Props, strings.Fields(rest)...)
		case "levels":
			cur.Levels = rest
		case "apply":
			cur.Apply = true
		case "uses":
			cur.Uses = append(cur.Uses, strings.Fields(rest)...)
		case "owned": // owned r by ev
			f := strings.Fields(rest)
			if cur.Owned == nil {
				cur.Owned = map[string]string{}
			}
			cur.Owned[f[0]] = f[2]
		case "pooled": // pooled it = ctor
			k := strings.Index(rest, "=")
			cur.Pooled = strings.TrimSpace(rest[:k])
			cur.PoolX = parseExpr(strings.TrimSpace(rest[k+1:]), pos)
		case "pooldo":
			cur.PoolDo = append(cur.PoolDo, parseExpr(rest, pos))
		case "putlike":
			cur.PutX = parseExpr(rest, pos)
		case "reveal":
			if cur.Reveal == nil {
				cur.Reveal = map[string]bool{}
			}
			for _, f := range strings.Fields(rest) {
				cur.Reveal[f] = true
			}
		case "aux":
			cur.Aux = true
		case "unroll":
			k, err := strconv.Atoi(strings.TrimSpace(rest))
			if err != nil {
				panic(pos + ": unroll needs a number")
			}
			cur.Unroll = int64(k)
		case "nohistory":
			cur.NoHist = true
		case "checked":
			cur.Assume = rest
		default:
			panic(pos + ": unknown clause " + word)
		}
	}
}

// parseEnum: "k in lo .. hi" (inclusive lo, exclusive hi)
func parseEnum(s, pos string) enumC {
	f := strings.Fields(s)
	i := strings.Index(s, " in ")
	r := s[i+4:]
	k := strings.Index(r, "..")
	return enumC{f[0], []ast.Expr{parseExpr(strings.TrimSpace(r[:k]), pos), parseExpr(strings.TrimSpace(r[k+2:]), pos)}}
}

// header: tlwe.(*TLWELv0).Add(t, other) r
func (sp *Specs) header(s, pos string) *Contract {
	c := &Contract{Shape: map[string]ast.Expr{}, With: map[string]ast.Expr{}, Let: map[string]ast.Expr{}, Fn: map[string]string{}, Pos: pos}
	start := 0
	if i := strings.Index(s, ".(*"); i >= 0 {
		start = strings.Index(s, ")") + 1
	}
	p := start + strings.Index(s[start:], "(")
	q := p + strings.Index(s[p:], ")")
	c.Key = strings.TrimSpace(s[:p])
	c.Params = splitTop(s[p+1:q], ',')
	r := strings.Trim(strings.TrimSpace(s[q+1:]), "()")
	c.Results = splitTop(r, ',')
	return c
}

func identName(x ast.Expr) string {
	if id, ok := x.(*ast.Ident); ok {
		return id.Name
	}
	return ""
}

func exprString(x ast.Expr) string {
	switch y := x.(type) {
	case *ast.Ident:
		return y.Name
	case *ast.SelectorExpr:
		return exprString(y.X) + "." + y.Sel.Name
	case *ast.IndexExpr:
		return exprString(y.X) + "[]"
	case *ast.ParenExpr:
		return exprString(y.X)
	case *ast.StarExpr:
		return exprString(y.X)
	}
	return "?"
}

// ---- specification values ----------------------------------------------------

type SV struct {
	V Value
	T types.Type // nil: untyped integer; a *Term of array sort for spec arrays
}

var tyInt = types.Typ[types.Int]
var tyU32 = types.Typ[types.Uint32]
var tyF64 = types.Typ[types.Float64]
var tyBool = types.Typ[types.Bool]

type Env struct {
	e        *Engine
	sp       *Specs
	st       *State
	old      *State
	vars     map[string]SV
	let      map[string]ast.Expr
	bound    []*Term // variables bound by enclosing foralls
	boundN   []*Term
	depth    int
	reveal   map[string]bool
	famDepth int
	unfold   bool
	inPlace  bool
}

type specErr struct{ msg string }

func (n *Env) bad(x ast.Node, f string, a ...interface{}) {
	if os.Getenv("GOVC_PANIC") != "" {
		panic(fmt.Sprintf(f, a...))
	}
	panic(specErr{fmt.Sprintf(f, a...)})
}

func (n *Env) with(name string, v SV) *Env {
	m := *n
	m.vars = make(map[string]SV, len(n.vars)+1)
	for k, w := range n.vars {
		m.vars[k] = w
	}
	m.vars[name] = v
	return &m
}

func (n *Env) boolOf(x ast.Expr) *Term {
	v := n.eval(x)
	t, ok := v.V.(*Term)
	if !ok || t.S != Bool {
		n.bad(x, "boolean expected in %s", exprString(x))
	}
	return t
}
func (n *Env) intOf(x ast.Expr) *Term {
	v := n.eval(x)
	t, ok := v.V.(*Term)
	if !ok {
		n.bad(x, "integer expected")
	}
	if v.T == nil {
		return t
	}
	return to64(t, v.T)
}

func isArrTerm(v Value) (*Term, bool) {
	t, ok := v.(*Term)
	if !ok {
		return nil, false
	}
	return t, t.S.K == KArr || t.S.K == KArrF || t.S.K == KArrB
}

func sortType(s Sort) types.Type {
	switch s.K {
	case KBool:
		return tyBool
	case KF64:
		return tyF64
	case KBV:
		switch s.W {
		case 8:
			return types.Typ[types.Uint8]
		case 16:
			return types.Typ[types.Uint16]
		case 32:
			return tyU32
		}
		return tyInt
	}
	return nil
}

func (n *Env) eval(x ast.Expr) SV {
	e := n.e
	switch y := x.(type) {
	case *ast.ParenExpr:
		return n.eval(y.X)
	case *ast.BasicLit:
		switch y.Kind {
		case token.INT:
			u, err := strconv.ParseUint(y.Value, 0, 64)
			if err != nil {
				n.bad(x, "%v", err)
			}
			return SV{BVc(u, BV64), nil}
		case token.FLOAT:
			f, _ := strconv.ParseFloat(y.Value, 64)
			return SV{FloatC(f), tyF64}
		case token.STRING:
			s, _ := strconv.Unquote(y.Value)
			return SV{StrV(s), types.Typ[types.String]}
		}
	case *ast.Ident:
		if v, ok := n.vars[y.Name]; ok {
			return v
		}
		switch y.Name {
		case "true":
			return SV{True, tyBool}
		case "false":
			return SV{False, tyBool}
		case "nil":
			return SV{nil, nil}
		}
		if l, ok := n.let[y.Name]; ok {
			return n.eval(l)
		}
		if l, ok := n.sp.Lets[y.Name]; ok {
			key := y.Name + e.levelKey(n.st)
			if v, ok := n.sp.memo[key]; ok {
				return v
			}
			m := *n
			m.vars = map[string]SV{}
			m.let = nil
			v := m.eval(l)
			if t, ok := v.V.(*Term); ok && t.IsConst() {
				n.sp.memo[key] = v
			}
			return v
		}
		n.bad(x, "unknown name %s", y.Name)
	case *ast.SelectorExpr:
		if id, ok := y.X.(*ast.Ident); ok {
			if _, isVar := n.vars[id.Name]; !isVar && n.let[id.Name] == nil && n.sp.Lets[id.Name] == nil {
				if p := e.pkgs[id.Name]; p != nil {
					if t, ty, ok := e.constTerm(id.Name, y.Sel.Name); ok {
						return SV{t, ty}
					}
					if g := e.global(id.Name, y.Sel.Name); g != nil {
						et := g.Type().(*types.Pointer).Elem()
						return SV{n.load(&Ptr{Obj: e.globalObj(g)}, et), et}
					}
					n.bad(x, "unknown %s.%s", id.Name, y.Sel.Name)
				}
			}
		}
		b := n.eval(y.X)
		return n.field(b, y.Sel.Name, x)
	case *ast.StarExpr:
		b := n.eval(y.X)
		p, ok := b.T.Underlying().(*types.Pointer)
		if !ok {
			n.bad(x, "dereference of non-pointer")
		}
		return SV{n.load(b.V, p.Elem()), p.Elem()}
	case *ast.IndexExpr:
		b := n.eval(y.X)
		i := n.intOf(y.Index)
		return n.index(b, i, x)
	case *ast.SliceExpr:
		b := n.eval(y.X)
		s, ok := b.V.(*Slice)
		if !ok {
			n.bad(x, "slice expression on non-slice")
		}
		lo, hi := Int(0), s.Len
		if y.Low != nil {
			lo = n.intOf(y.Low)
		}
		if y.High != nil {
			hi = n.intOf(y.High)
		}
		return SV{&Slice{s.Obj, s.Fam, s.Path, Add(s.Off, lo), Sub(hi, lo), Sub(s.Cap, lo)}, b.T}
	case *ast.UnaryExpr:
		v := n.eval(y.X)
		t, ok := v.V.(*Term)
		if !ok {
			n.bad(x, "unary operator on %T", v.V)
		}
		switch y.Op {
		case token.NOT:
			return SV{Not(t), tyBool}
		case token.SUB:
			if t.S.K == KF64 {
				return SV{FNegT(t), v.T}
			}
			return SV{Neg(t), v.T}
		case token.XOR:
			return SV{NotBV(t), v.T}
		}
	case *ast.BinaryExpr:
		return n.binary(y)
	case *ast.CallExpr:
		return n.callX(y)
	}
	n.bad(x, "unsupported specification expression %T", x)
	return SV{}
}

func (n *Env) load(p Value, t types.Type) Value {
	e := n.e
	lg := e.logging
	e.logging = 0
	e.quiet++
	v := e.load(n.st, p, t, "spec")
	e.quiet--
	e.logging = lg
	return v
}

func (n *Env) field(b SV, name string, x ast.Expr) SV {
	if b.T == nil {
		n.bad(x, "field %s of untyped value", name)
	}
	t := b.T
	if p, ok := t.Underlying().(*types.Pointer); ok {
		st, ok := p.Elem().Underlying().(*types.Struct)
		if !ok {
			n.bad(x, "field of pointer to non-struct")
		}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				ft := st.Field(i).Type()
				n.e.quiet++
				fp := n.e.fieldAddr(n.st, b.V, i, "spec")
				n.e.quiet--
				// nested structs and arrays stay addresses
				switch ft.Underlying().(type) {
				case *types.Struct, *types.Array:
					return SV{fp, types.NewPointer(ft)}
				}
				return SV{n.load(fp, ft), ft}
			}
		}
		n.bad(x, "no field %s in %s", name, p.Elem())
	}
	if st, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				return SV{fieldOf(b.V, i), st.Field(i).Type()}
			}
		}
	}
	n.bad(x, "no field %s in %s", name, t)
	return SV{}
}

// eachAlt evaluates f for every alternative of a union and joins the results.
func (n *Env) eachAlt(u *Union, f func(v Value) SV) SV {
	var r SV
	for k := len(u.Alts) - 1; k >= 0; k-- {
		if c := n.e.underPc(n.st, u.Alts[k].C); c.IsFalse() {
			continue
		}
		w := f(u.Alts[k].V)
		if r.V == nil {
			r = w
		} else {
			r.V = iteVal(u.Alts[k].C, w.V, r.V)
		}
	}
	return r
}

func (n *Env) index(b SV, i *Term, x ast.Expr) SV {
	if u, ok := b.V.(*Union); ok {
		return n.eachAlt(u, func(v Value) SV { return n.index(SV{v, b.T}, i, x) })
	}
	if t, ok := isArrTerm(b.V); ok {
		r := selTerm(t, i)
		return SV{r, sortType(r.S)}
	}
	switch u := b.T.Underlying().(type) {
	case *types.Slice:
		s, ok := b.V.(*Slice)
		if !ok {
			n.bad(x, "index of %T", b.V)
		}
		if s.Obj == nil {
			n.bad(x, "index into an empty slice")
		}
		p := s.elemPtr(i)
		return n.elem(p, u.Elem())
	case *types.Array:
		a, ok := b.V.(*ArrayV)
		if !ok {
			n.bad(x, "index of %T", b.V)
		}
		if c, ok := i.Int(); ok {
			if c < 0 || int(c) >= len(a.E) {
				n.bad(x, "array index out of range")
			}
			return SV{a.E[c], u.Elem()}
		}
		v := a.E[len(a.E)-1]
		for j := len(a.E) - 2; j >= 0; j-- {
			v = iteVal(Eq(i, Int(int64(j))), a.E[j], v)
		}
		return SV{v, u.Elem()}
	case *types.Pointer:
		if at, ok := u.Elem().Underlying().(*types.Array); ok {
			if p, ok := b.V.(*Ptr); ok {
				return n.elem(p.index(i), at.Elem())
			}
		}
	}
	n.bad(x, "index of %s", b.T)
	return SV{}
}

func (n *Env) elem(p *Ptr, t types.Type) SV {
	switch t.Underlying().(type) {
	case *types.Struct:
		return SV{p, types.NewPointer(t)}
	case *types.Array:
		return SV{p, types.NewPointer(t)}
	}
	return SV{n.load(p, t), t}
}

// selTerm: element of a spec array, with the ring zero read as 0.0.
func selTerm(t, i *Term) *Term {
	if t.S.K == KArrF && t.Op == OConst {
		return FloatC(float64(int64(t.C)))
	}
	return Select(t, i)
}

// arrOf: the content of a slice as an array term.
func (n *Env) arrOf(v SV, x ast.Expr) *Term {
	if t, ok := isArrTerm(v.V); ok {
		return t
	}
	s, ok := v.V.(*Slice)
	if !ok {
		n.bad(x, "arr() of %T", v.V)
	}
	et := v.T.Underlying().(*types.Slice).Elem()
	return n.e.arrTerm(n.st, s, et)
}

func (e *Engine) arrTerm(st *State, s *Slice, et types.Type) *Term {
	lg := e.logging
	e.logging = 0
	e.quiet++
	defer func() { e.quiet--; e.logging = lg }()
	hi := int64(math.MaxInt64)
	if _, h, ok := s.Len.srange(); ok {
		hi = h - 1
	}
	iv := NewRVar("x", BV64, 0, hi)
	v := e.load(st, s.elemPtr(iv), et, "spec")
	t, ok := v.(*Term)
	if !ok {
		panic(specErr{"arr() of non-scalar elements"})
	}
	if f, ok := t.Float(); ok && f == 0 && !math.Signbit(f) {
		return BVc(0, ArrF)
	}
	l := Lam(iv, s.Len, t)
	c := compress(l)
	if c != l && s.Obj != nil && s.Off.IsConst() && s.Off.C == 0 && s.Obj.IsArr && s.Obj.Len == s.Len && len(s.Path) == 0 {
		// keep the heap small: the cell contents by their name
		e.mapStore(st, s, et, e.idxVar(s.Len), func(t *Term) Value { return Select(c, t) })
	}
	return c
}

func (n *Env) unify(a, b SV, x ast.Expr) (SV, SV) {
	if a.T == nil && b.T == nil {
		return SV{a.V, tyInt}, SV{b.V, tyInt}
	}
	conv := func(c SV, t types.Type) SV {
		ct, ok := c.V.(*Term)
		if !ok {
			return SV{c.V, t}
		}
		s, _, ok2 := basicSort(t)
		if !ok2 {
			n.bad(x, "cannot use an integer as %s", t)
		}
		if s.K == KF64 {
			return SV{I2F(ct, true), t}
		}
		return SV{TruncT(ct, s.W), t}
	}
	if a.T == nil {
		if _, ok := isArrTerm(b.V); ok {
			return a, b
		}
		return conv(a, b.T), b
	}
	if b.T == nil {
		return a, conv(b, a.T)
	}
	return a, b
}

func (n *Env) binary(y *ast.BinaryExpr) SV {
	e := n.e
	switch y.Op {
	case token.LAND:
		a := n.boolOf(y.X)
		if a == False {
			return SV{False, tyBool}
		}
		return SV{And(a, n.boolOf(y.Y)), tyBool}
	case token.LOR:
		a := n.boolOf(y.X)
		if a == True {
			return SV{True, tyBool}
		}
		return SV{Or(a, n.boolOf(y.Y)), tyBool}
	}
	a, b := n.eval(y.X), n.eval(y.Y)
	ta, oka := isArrTerm(a.V)
	tb, okb := isArrTerm(b.V)
	if oka || okb {
		if !oka {
			if s, ok := a.V.(*Slice); ok {
				ta, oka = n.arrOf(SV{s, a.T}, y.X), true
			} else if t, ok := a.V.(*Term); ok && t.IsConst() {
				ta, oka = BVc(t.C, tb.S), true
			}
		}
		if !okb {
			if s, ok := b.V.(*Slice); ok {
				tb, okb = n.arrOf(SV{s, b.T}, y.Y), true
			} else if t, ok := b.V.(*Term); ok && t.IsConst() {
				tb, okb = BVc(t.C, ta.S), true
			}
		}
		if !oka || !okb {
			n.bad(y, "array operation on a scalar")
		}
		switch y.Op {
		case token.EQL:
			return SV{arrEq(ta, tb), tyBool}
		case token.ADD:
			return SV{Add(ta, tb), nil}
		case token.SUB:
			return SV{Sub(ta, tb), nil}
		case token.MUL:
			return SV{Mul(ta, tb), nil}
		}
		n.bad(y, "array operator %s", y.Op)
	}
	if a.V == nil || b.V == nil {
		o := a
		if a.V == nil {
			o = b
		}
		c, ok := isNil(o.V)
		if !ok {
			n.bad(y, "nil comparison")
		}
		if y.Op == token.NEQ {
			c = Not(c)
		}
		return SV{c, tyBool}
	}
	if y.Op == token.SHL || y.Op == token.SHR {
		if a.T == nil {
			a.T = tyInt
		}
		if b.T == nil {
			b.T = tyInt
		}
		e.quiet++
		v := e.binop(n.st, y.Op, a.V, b.V, a.T, b.T, "spec")
		e.quiet--
		return SV{v, a.T}
	}
	a, b = n.unify(a, b, y)
	if y.Op == token.EQL || y.Op == token.NEQ {
		// structural comparison of reference values
		if _, ok := a.V.(*Term); !ok {
			c := n.sameRef(a, b, y)
			if y.Op == token.NEQ {
				c = Not(c)
			}
			return SV{c, tyBool}
		}
	}
	xa, okx := a.V.(*Term)
	xb, oky := b.V.(*Term)
	if okx && oky && xa.S != xb.S {
		n.bad(y, "operands of %s have different types (%v, %v)", y.Op, a.T, b.T)
	}
	if okx && oky && xa == xb && xa.S.K == KF64 && y.Op == token.EQL {
		return SV{True, tyBool} // the same operation tree: the same value, NaN included
	}
	e.quiet++
	v := e.binop(n.st, y.Op, a.V, b.V, a.T, b.T, "spec")
	e.quiet--
	switch y.Op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		return SV{v, tyBool}
	}
	return SV{v, a.T}
}

func (n *Env) sameRef(a, b SV, y ast.Expr) *Term {
	if sameVal(a.V, b.V) {
		return True
	}
	return n.e.eqVal(n.st, a.V, b.V)
}

// arrEq: equality of arrays as equality at a fresh index.
func arrEq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.S.K == KArrF {
		if ea, eb := expandRing(a), expandRing(b); ea == eb {
			return True
		}
		return Eq(App("ringid", BV64, a), App("ringid", BV64, b))
	}
	hi := int64(math.MaxInt64)
	for _, t := range []*Term{a, b} {
		if t.Op == OLam && t.Args[0].Hi < hi {
			hi = t.Args[0].Hi
		}
	}
	if os.Getenv("GOVC_DIFF") != "" {
		firstDiff(a, b, 0)
	}
	v := NewRVar("q", BV64, 0, hi)
	return Eq(Select(a, v), Select(b, v))
}
func expandRing(t *Term) *Term { return t }

func (n *Env) rangeVar(name string, cnt *Term) *Term {
	hi := int64(math.MaxInt64)
	if _, h, ok := cnt.srange(); ok {
		hi = h - 1
	}
	return NewRVar(name, BV64, 0, hi)
}

func (n *Env) callX(y *ast.CallExpr) SV {
	e := n.e
	fname := identName(y.Fun)
	arg := func(i int) SV { return n.eval(y.Args[i]) }
	term := func(i int) *Term {
		v := arg(i)
		t, ok := v.V.(*Term)
		if !ok {
			n.bad(y, "scalar expected in %s", fname)
		}
		return t
	}
	switch fname {
	case "len":
		v := arg(0)
		switch s := v.V.(type) {
		case *Union:
			return n.eachAlt(s, func(w Value) SV {
				sl, ok := w.(*Slice)
				if !ok {
					n.bad(y, "len of %T in %s", w, types.ExprString(y))
				}
				return SV{sl.Len, tyInt}
			})
		case *Slice:
			return SV{s.Len, tyInt}
		case *ArrayV:
			return SV{Int(int64(len(s.E))), tyInt}
		case *Ptr:
			if at, ok := v.T.Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); ok {
				return SV{Int(at.Len()), tyInt}
			}
		}
		n.bad(y, "len of %T in %s", v.V, types.ExprString(y))
	case "old":
		if n.old == nil {
			n.bad(y, "old() outside a postcondition")
		}
		m := *n
		m.st = n.old
		return m.eval(y.Args[0])
	case "usum": // a sum written out
		name := identName(y.Args[0])
		c, ok := n.intOf(y.Args[1]).Int()
		if !ok {
			n.bad(y, "usum needs a constant range")
		}
		acc := SV{}
		for i := int64(0); i < c; i++ {
			b := n.with(name, SV{Int(i), tyInt}).eval(y.Args[2])
			if acc.V == nil {
				acc = b
			} else {
				acc = SV{Add(acc.V.(*Term), b.V.(*Term)), b.T}
			}
		}
		if acc.V == nil {
			return SV{Int(0), nil}
		}
		return acc
	case "all": // conjunction over every value, one by one
		name := identName(y.Args[0])
		c, ok := n.intOf(y.Args[1]).Int()
		if !ok || c > 1024 {
			n.bad(y, "all() over a symbolic range")
		}
		r := True
		for i := int64(0); i < c && r != False; i++ {
			r = And(r, n.with(name, SV{Int(i), tyInt}).boolOf(y.Args[2]))
		}
		return SV{r, tyBool}
	case "forall", "sum", "lam":
		name := identName(y.Args[0])
		cnt := n.intOf(y.Args[1])
		if fname == "forall" {
			if c, ok := cnt.Int(); ok && c <= 16 {
				r := True
				for i := int64(0); i < c && r != False; i++ {
					r = And(r, n.with(name, SV{Int(i), tyInt}).boolOf(y.Args[2]))
				}
				return SV{r, tyBool}
			}
		}
		if c, ok := cnt.Int(); ok && fname == "sum" && c > 0 && c <= 16 {
			var acc *Term
			var ty types.Type
			for i := int64(0); i < c; i++ {
				b := n.with(name, SV{Int(i), tyInt}).eval(y.Args[2])
				bt, ok := b.V.(*Term)
				if !ok {
					n.bad(y, "sum over non-scalars")
				}
				if ty = b.T; acc == nil {
					acc = bt
				} else {
					acc = Add(acc, bt)
				}
			}
			return SV{acc, ty}
		}
		iv := n.rangeVar(name, cnt)
		m := n.with(name, SV{iv, tyInt})
		m.bound = append(append([]*Term(nil), n.bound...), iv)
		if fname == "forall" {
			if !cnt.IsConst() {
				// range condition as a path condition of the body
				s := n.st.Clone()
				s.Assume(Slt(iv, cnt))
				m.st = s
			}
			b := m.boolOf(y.Args[2])
			if b == True {
				return SV{True, tyBool}
			}
			if cnt.IsConst() {
				return SV{b, tyBool}
			}
			in := Slt(iv, cnt)
			if in.Op == ONot {
				b = Subst(b, map[*Term]*Term{in.Args[0]: False})
			} else if !in.IsConst() {
				b = Subst(b, map[*Term]*Term{in: True})
			}
			return SV{Or(Not(in), b), tyBool}
		}
		b := m.eval(y.Args[2])
		bt, ok := b.V.(*Term)
		if !ok {
			n.bad(y, "%s over non-scalars", fname)
		}
		if fname == "sum" {
			return SV{Sum(iv, cnt, bt), b.T}
		}
		return SV{Lam(iv, cnt, bt), nil}
	case "ite":
		c := n.boolOf(y.Args[0])
		if c == True {
			return arg(1)
		}
		if c == False {
			return arg(2)
		}
		a, b := n.unify(arg(1), arg(2), y)
		return SV{iteVal(c, a.V, b.V), a.T}
	case "imp":
		c := n.boolOf(y.Args[0])
		if c == False {
			return SV{True, tyBool}
		}
		return SV{Implies(c, n.boolOf(y.Args[1])), tyBool}
	case "iff":
		return SV{Eq(Ite(n.boolOf(y.Args[0]), Int(1), Int(0)), Ite(n.boolOf(y.Args[1]), Int(1), Int(0))), tyBool}
	case "sel":
		a := n.arrOf(arg(0), y.Args[0])
		t := selTerm(a, n.intOf(y.Args[1]))
		return SV{t, sortType(t.S)}
	case "disjoint":
		x, z := e.reach(n.st, arg(0).V), e.reach(n.st, arg(1).V)
		for _, a := range y.Args[2:] {
			for o := range e.reach(n.st, n.eval(a).V) {
				delete(x, o)
			}
		}
		for o := range x {
			if z[o] {
				return SV{False, tyBool}
			}
		}
		return SV{True, tyBool}
	case "sametables":
		if n.sameTables(arg(0).V, arg(1).V) {
			return SV{True, tyBool}
		}
		return SV{False, tyBool}
	case "tables":
		return SV{n.tables(arg(0).V), nil}
	case "arr":
		return SV{n.arrOf(arg(0), y.Args[0]), nil}
	case "fresh", "distinct", "private":
		return SV{n.fresh(fname, y), tyBool}
	case "combination":
		var alpha *SV
		if len(y.Args) > 3 {
			a := arg(3)
			alpha = &a
		}
		return SV{n.combination(arg(0).V, arg(1), n.intOf(y.Args[2]), alpha, y), tyBool}
	case "noise":
		return SV{n.noise(arg(0).V, arg(1)), tyBool}
	case "norms":
		return SV{Int(int64(len(e.norms))), nil}
	case "norm":
		i, ok := n.intOf(y.Args[0]).Int()
		if !ok || i < 0 || int(i) >= len(e.norms) {
			n.bad(y, "no Gaussian draw number %d was made", i)
		}
		d := e.norms[i]
		// extra arguments re-index the loop variables of the draw
		if len(y.Args) > 1 {
			as := append([]*Term(nil), d.Args...)
			for k := 1; k < len(y.Args); k++ {
				if k >= len(as) {
					n.bad(y, "draw %d has no loop index", i)
				}
				as[k] = n.intOf(y.Args[k])
			}
			d = App(d.Name, d.S, as...)
		}
		return SV{d, tyF64}
	case "ult", "ule":
		a, b := n.unify(arg(0), arg(1), y)
		x, z := a.V.(*Term), b.V.(*Term)
		if fname == "ult" {
			return SV{Ult(x, z), tyBool}
		}
		return SV{Not(Ult(z, x)), tyBool}
	case "sext":
		t := term(0)
		return SV{SextT(t, 64), tyInt}
	case "zext":
		t := term(0)
		return SV{ZextT(t, 64), tyInt}
	case "int", "int64", "uint32", "int32", "uint64", "uint8", "uint16", "float64", "uint":
		v := arg(0)
		to := types.Universe.Lookup(fname).Type()
		from := v.T
		if from == nil {
			from = tyInt
		}
		return SV{e.convert(n.st, v.V, from, to, "spec"), to}
	case "ghost":
		nm := n.eval(y.Args[0]).V.(StrV)
		return SV{NamedVar("ghost:"+string(nm), Arr32), nil}
	case "anyint": // an arbitrary int
		nm := n.eval(y.Args[0]).V.(StrV)
		return SV{NamedVar("any:"+string(nm), BV64), tyInt}
	case "fold":
		// fold(i, n, (vars...), (init...), (step...)) is written
		// fold(i, n, k, vars..., init..., step...) selecting component k
		return n.fold(y)
	case "argof":
		return n.argof(y)
	case "like":
		v := arg(0)
		if msg := n.like(v.V, v.T, y.Args[1], "", exprString(y.Args[0])); msg != "" {
			if os.Getenv("GOVC_SPEC") != "" {
				fmt.Fprintln(os.Stderr, "LIKE", msg)
			}
			return SV{False, tyBool}
		}
		return SV{True, tyBool}
	case "level": // the security level being verified
		return SV{e.levelT, tyInt}
	case "globals": // the unexported package-level variables of a package
		t := &TupleV{}
		var gs []*ssa.Global
		for g := range e.globals {
			if g.Pkg != nil && g.Pkg.Pkg.Name() == identName(y.Args[0]) && g.Object() != nil && !g.Object().Exported() {
				gs = append(gs, g)
			}
		}
		sort.Slice(gs, func(i, j int) bool { return gs[i].Name() < gs[j].Name() })
		for _, g := range gs {
			t.E = append(t.E, &Ptr{Obj: e.globals[g]})
		}
		return SV{t, nil}
	}
	if fname != "" {
		if d := n.sp.Defs[fname]; d != nil {
			return n.callDef(d, y)
		}
		if v, ok := n.vars[fname]; ok {
			if fv, ok := v.V.(*FuncV); ok {
				return n.callFuncV(fv, v.T, y)
			}
		}
		n.bad(y, "unknown function %s", fname)
	}
	sel, ok := y.Fun.(*ast.SelectorExpr)
	if !ok {
		n.bad(y, "unsupported call")
	}
	// package function
	if id, ok := sel.X.(*ast.Ident); ok {
		if _, isVar := n.vars[id.Name]; !isVar && n.let[id.Name] == nil {
			if id.Name == "math" {
				var as []*Term
				for i := range y.Args {
					v := arg(i)
					w, _ := n.unify(v, SV{FloatC(0), tyF64}, y)
					as = append(as, w.V.(*Term))
				}
				return SV{SApp("math."+sel.Sel.Name, F64, as...), tyF64}
			}
			if p := e.pkgs[id.Name]; p != nil {
				fn := p.Func(sel.Sel.Name)
				if fn == nil {
					if tn, ok := p.Members[sel.Sel.Name].(*ssa.Type); ok { // conversion
						v := arg(0)
						from := v.T
						if from == nil {
							from = tyInt
						}
						return SV{e.convert(n.st, v.V, from, tn.Type(), "spec"), tn.Type()}
					}
					n.bad(y, "no function %s.%s", id.Name, sel.Sel.Name)
				}
				return n.callReal(fn, nil, y)
			}
		}
	}
	b := n.eval(sel.X)
	ms := e.prog.MethodSets.MethodSet(b.T)
	var pk *types.Package
	if nm := namedOf(b.T); nm != nil {
		pk = nm.Obj().Pkg()
	}
	s := ms.Lookup(pk, sel.Sel.Name)
	if s == nil {
		n.bad(y, "no method %s", sel.Sel.Name)
	}
	return n.callReal(e.prog.MethodValue(s), &b, y)
}

func namedOf(t types.Type) *types.Named {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	nm, _ := t.(*types.Named)
	return nm
}

func (n *Env) callFuncV(fv *FuncV, t types.Type, y *ast.CallExpr) SV {
	sig := t.Underlying().(*types.Signature)
	var ts []*Term
	for i := range y.Args {
		v := n.eval(y.Args[i])
		w, _ := n.unify(v, SV{zeroVal(sig.Params().At(i).Type()), sig.Params().At(i).Type()}, y)
		ts = append(ts, w.V.(*Term))
	}
	rt := sig.Results().At(0).Type()
	s, _, _ := basicSort(rt)
	return SV{App(fv.Sym, s, ts...), rt}
}

// callReal executes a (pure) function of the repository in a copy of the state.
func (n *Env) callReal(fn *ssa.Function, recv *SV, y *ast.CallExpr) SV {
	e := n.e
	var args []Value
	ps := fn.Signature.Params()
	if recv != nil {
		args = append(args, recv.V)
	}
	for i := range y.Args {
		v := n.eval(y.Args[i])
		pt := ps.At(i).Type()
		if v.T == nil {
			if t, ok := v.V.(*Term); ok {
				if s, _, ok := basicSort(pt); ok {
					if s.K == KF64 {
						v.V = I2F(t, true)
					} else {
						v.V = TruncT(t, s.W)
					}
				}
			}
		}
		args = append(args, v.V)
	}
	sv := e.save()
	e.logging = 0
	e.quiet++
	s := n.st
	if !n.inPlace {
		s = n.st.Clone()
	}
	r := e.callStatic(s, fn, args, nil, nil)
	e.quiet--
	e.restore(sv)
	rs := fn.Signature.Results()
	// results are read through the callee's final state
	if rs.Len() == 1 {
		rt := rs.At(0).Type()
		switch rt.Underlying().(type) {
		case *types.Slice, *types.Pointer:
			// keep the heap effects visible to this evaluation
			for _, k := range s.heap.Diff(n.st.heap) {
				if n.st.heap.Get(k) == nil {
					n.st.heap.Set(k, s.heap.Get(k))
				}
			}
		}
		return SV{r, rt}
	}
	return SV{r, rs}
}

func (n *Env) callDef(d *SpecDef, y *ast.CallExpr) SV {
	if len(y.Args) != len(d.Params) {
		n.bad(y, "%s expects %d arguments", d.Name, len(d.Params))
	}
	if n.depth > 40 {
		n.bad(y, "definition depth")
	}
	if !d.Opaque || d.Body != nil && n.reveal[d.Name] {
		m := *n
		m.vars = map[string]SV{}
		m.let = nil
		m.depth++
		for i, p := range d.Params {
			m.vars[p] = n.eval(y.Args[i])
		}
		return m.eval(d.Body)
	}
	var ts []*Term
	for i := range y.Args {
		for _, t := range n.flat(n.eval(y.Args[i]), y.Args[i]) {
			ts = append(ts, compress(t))
		}
	}
	r := App(d.Name, parseSort(d.Sort), ts...)
	t := sortType(r.S)
	if _, ok := isArrTerm(r); ok {
		t = nil
	}
	return SV{r, t}
}

func parseSort(s string) Sort {
	switch s {
	case "u32", "bv32":
		return BV32
	case "int", "bv64":
		return BV64
	case "bool":
		return Bool
	case "f64":
		return F64
	case "arr32":
		return Arr32
	case "arrf", "ring":
		return ArrF
	}
	panic("sort " + s)
}

// flat: the terms that represent a value as argument of an opaque function.
func (n *Env) flat(v SV, x ast.Expr) []*Term {
	if t, ok := v.V.(*Term); ok {
		return []*Term{t}
	}
	if f, ok := v.V.(*FuncV); ok && f.Sym != "" {
		return []*Term{NamedVar("func:"+f.Sym, BV64)}
	}
	switch u := v.T.Underlying().(type) {
	case *types.Slice:
		s := v.V.(*Slice)
		switch u.Elem().Underlying().(type) {
		case *types.Basic:
			return []*Term{n.arrOf(v, x)}
		}
		c, ok := s.Len.Int()
		if !ok || c > 64 {
			// a family: the element at an arbitrary (canonical) index stands for
			// the content at every index
			hi := int64(math.MaxInt64)
			if _, h, ok := s.Len.srange(); ok {
				hi = h - 1
			}
			m := *n
			m.famDepth++
			iv := NamedRVar(fmt.Sprintf("fam%d", m.famDepth), BV64, 0, hi)
			return append([]*Term{s.Len}, m.flat(m.index(v, iv, x), x)...)
		}
		var out []*Term
		for i := int64(0); i < c; i++ {
			out = append(out, n.flat(n.index(v, Int(i), x), x)...)
		}
		return out
	case *types.Pointer:
		if st, ok := u.Elem().Underlying().(*types.Struct); ok {
			var out []*Term
			for i := 0; i < st.NumFields(); i++ {
				out = append(out, n.flat(n.field(v, st.Field(i).Name(), x), x)...)
			}
			return out
		}
	case *types.Struct:
		var out []*Term
		for i := 0; i < u.NumFields(); i++ {
			out = append(out, n.flat(n.field(v, u.Field(i).Name(), x), x)...)
		}
		return out
	}
	n.bad(x, "cannot flatten %v", v.T)
	return nil
}

// fold(i, n, k, v1..vm, init1..initm, step1..stepm): component k of the state
// after n steps.
func (n *Env) fold(y *ast.CallExpr) SV {
	name := identName(y.Args[0])
	cnt, ok := n.intOf(y.Args[1]).Int()
	if !ok {
		n.bad(y, "fold needs a constant trip count")
	}
	k, _ := n.intOf(y.Args[2]).Int()
	rest := y.Args[3:]
	m := len(rest) / 3
	key := fmt.Sprintf("%p|%d", n.st, cnt)
	for _, r := range rest {
		key += "|" + types.ExprString(r)
	}
	var vn []string
	for k := range n.vars {
		vn = append(vn, k)
	}
	sort.Strings(vn)
	for _, k := range vn {
		switch v := n.vars[k].V.(type) {
		case *Term:
			key += fmt.Sprintf("|%s=%d", k, v.ID)
		case *Ptr:
			key += fmt.Sprintf("|%s=%p%v", k, v.Obj, v.Path)
		case *Slice:
			key += fmt.Sprintf("|%s=%p%v", k, v.Obj, v.Path)
		default:
			key += fmt.Sprintf("|%s=%v", k, v)
		}
	}
	if v, ok := n.sp.folds[key]; ok {
		return v[k]
	}
	var cur []SV
	for i := 0; i < m; i++ {
		v := n.eval(rest[m+i])
		if t, ok := v.V.(*Term); ok {
			v.V = nameState(t)
		}
		cur = append(cur, v)
	}
	for i := int64(0); i < cnt; i++ {
		env := n.with(name, SV{Int(i), tyInt})
		for j := 0; j < m; j++ {
			env.vars[identName(rest[j])] = cur[j]
		}
		nx := make([]SV, m)
		for j := 0; j < m; j++ {
			nx[j] = env.eval(rest[2*m+j])
			if t, ok := nx[j].V.(*Term); ok {
				nx[j].V = nameState(t)
			}
		}
		cur = nx
	}
	n.sp.folds[key] = cur
	return cur[k]
}

// argof(r, f, k): argument k of the application of f that the content of r is
// computed from (outermost; all applications must agree).
func (n *Env) argof(y *ast.CallExpr) SV {
	v := n.eval(y.Args[0])
	var t *Term
	if tm, ok := v.V.(*Term); ok {
		t = tm
	} else {
		t = n.arrOf(v, y)
	}
	f := identName(y.Args[1])
	k, _ := n.intOf(y.Args[2]).Int()
	seen := map[*Term]bool{}
	var found *Term
	var visit func(t *Term)
	visit = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.Op == OApp && t.Name == f {
			if found != nil && found != t.Args[k] {
				n.bad(y, "the result depends on two different applications of %s", f)
			}
			found = t.Args[k]
			return
		}
		if d := abbrevDef[t]; d != nil {
			visit(d)
		}
		for _, a := range t.Args {
			visit(a)
		}
	}
	visit(t)
	if found == nil {
		n.bad(y, "the result is not computed by %s: %s", f, clip(t.String(), 300))
	}
	return SV{unfoldAbbrev(found), nil}
}

// ---- compression of large array terms -----------------------------------------

// Large lambda terms are abbreviated by definitional names (equal terms get equal
// names), which keeps iterated ciphertext terms small.
var abbrevOf = map[*Term]*Term{}
var abbrevDef = map[*Term]*Term{}
var compressOn = true

func compress(t *Term) *Term  { return compressN(t, 60) }
func nameState(t *Term) *Term { return compressN(t, 9) } // state carried between iterations

func compressN(t *Term, min int) *Term {
	if !compressOn || t.Op != OLam {
		return t
	}
	if a := abbrevOf[t]; a != nil {
		return a
	}
	if termSize(t, min) < min {
		return t
	}
	fv := freeVars(t)
	if len(fv) > 0 {
		return t
	}
	a := NamedVar(fmt.Sprintf("@%d", len(abbrevOf)), t.S)
	abbrevOf[t] = a
	abbrevDef[a] = t
	return a
}

func unfoldAbbrev(t *Term) *Term {
	m := map[*Term]*Term{}
	seen := map[*Term]bool{}
	var f func(t *Term)
	f = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if d := abbrevDef[t]; d != nil {
			m[t] = d
		}
		for _, a := range t.Args {
			f(a)
		}
	}
	f(t)
	if len(m) == 0 {
		return t
	}
	return Subst(t, m)
}

func termSize(t *Term, lim int) int {
	n := 0
	var f func(t *Term)
	f = func(t *Term) {
		n++
		for _, a := range t.Args {
			if n > lim {
				return
			}
			f(a)
		}
	}
	f(t)
	return n
}

// freeVars: loop/index variables (never named inputs) that occur free.
func freeVars(t *Term) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	var f func(t *Term)
	f = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.Op == OVar && strings.ContainsAny(t.Name, "!") || t.Op == OApp && strings.HasPrefix(t.Name, "U$") {
			out = append(out, t)
		}
		for _, a := range t.Args {
			f(a)
		}
	}
	f(t)
	return out
}

// noise(t, alpha): t is one Gaussian draw scaled by alpha, on the torus.  The
// draw is exhibited: it is one that occurs in t.
func (n *Env) noise(v Value, alpha SV) *Term {
	t, ok := v.(*Term)
	if !ok {
		panic(specErr{"noise of a non-scalar"})
	}
	f := n.e.findFunc("utils.F64ToTorus")
	if f == nil {
		panic(specErr{"utils.F64ToTorus not found"})
	}
	return n.noise1(t, alpha, f, 8)
}

func (n *Env) noise1(t *Term, alpha SV, f *ssa.Function, depth int) *Term {
	seen := map[*Term]bool{}
	var ds []*Term
	var split *Term
	var walk func(x *Term, lin bool)
	walk = func(x *Term, lin bool) {
		if seen[x] {
			return
		}
		seen[x] = true
		if x.Op == OApp && x.Name == "draw:norm" {
			ds = append(ds, x)
		}
		if lin && x.Op == OIte && split == nil {
			split = x.Args[0]
		}
		for _, a := range x.Args {
			walk(a, lin && (x.Op == OLin || x.Op == OIte))
		}
	}
	walk(t, true)
	for _, d := range ds {
		n.e.quiet++
		st := n.st.Clone()
		r := n.e.call(st, f, []Value{FBin(OFMul, d, asTerm(alpha.V))}, nil)
		n.e.quiet--
		if c := Eq(t, asTerm(r[0])); !c.IsFalse() && len(ds) == 1 || c.IsTrue() {
			return c
		}
	}
	if split != nil && depth > 0 {
		yes := under(t, split, True, 1<<20)
		if split.Op == OEq0 && split.Args[0].Op == OVar {
			yes = Subst(t, map[*Term]*Term{split.Args[0]: BVc(0, split.Args[0].S)})
		}
		a := n.noise1(yes, alpha, f, depth-1)
		b := n.noise1(under(t, split, False, 1<<20), alpha, f, depth-1)
		return And(Or(Not(split), a), Or(split, b))
	}
	if os.Getenv("GOVC_SPEC") != "" {
		fmt.Fprintln(os.Stderr, "NOISE", len(ds), t)
	}
	return False
}

// underPc: a condition that the path condition contradicts is false.
func (e *Engine) underPc(st *State, c *Term) *Term {
	if c.IsConst() || len(st.pc) == 0 {
		return c
	}
	nc := Not(c)
	for _, p := range st.pc {
		if p == nc {
			return False
		}
	}
	return c
}

// combination(t, list, y): t is the sum, over the list's ciphertexts, of the
// y-th component times a coefficient -1, 0 or 1 chosen without looking at y.
// With a fourth argument, plus one Gaussian draw scaled by it on the body.
func (n *Env) combination(v Value, list SV, y *Term, alpha *SV, at ast.Expr) *Term {
	t, ok := v.(*Term)
	if !ok {
		n.bad(at, "combination of a non-scalar")
	}
	sl, ok := list.V.(*Slice)
	if !ok {
		n.bad(at, "combination over a non-slice")
	}
	var coefs []*Term
	wrong := False
	res := True
	f64 := n.e.findFunc("utils.F64ToTorus")
	one := func(t, y *Term, isB bool) {
		c, as, ks := linParts(t)
		if alpha != nil && isB && f64 != nil {
			for i, a := range as {
				if a.Op == OSum && ks[i] == 1 && a.Args[1] == sl.Len {
					res = And(res, n.noise1(Sub(t, a), *alpha, f64, 8))
					c, as, ks = 0, []*Term{a}, []uint64{1}
					break
				}
			}
		}
		if c == 0 && len(as) == 0 { // no entry used: only right for an empty list
			coefs = append(coefs, nil)
			return
		}
		if c != 0 || len(as) != 1 || ks[0] != 1 || as[0].Op != OSum || as[0].Args[1] != sl.Len {
			n.bad(at, "not a sum over the list: %s", clip(t.String(), 300))
		}
		s := as[0]
		iv := NamedRVar("comb:i", BV64, 0, math.MaxInt64)
		body := Subst(s.Args[2], map[*Term]*Term{s.Args[0]: iv})
		p, ok := n.index(n.field(n.index(list, iv, at), "P", at), y, at).V.(*Term)
		if !ok {
			n.bad(at, "list element")
		}
		var coef func(b *Term) *Term
		coef = func(b *Term) *Term {
			c, as, ks := linParts(b)
			if c == 0 && len(as) == 0 {
				return BVc(0, b.S)
			}
			if c == 0 && len(as) == 1 {
				k := ks[0]
				if as[0] == p {
					if k != 1 && k != mask(b.S.W) {
						wrong = True
					}
					return BVc(k, b.S)
				}
				if as[0].Op == OIte && (k == 1 || k == mask(b.S.W)) {
					cd := as[0].Args[0]
					if y.Op == OVar && cd.fv&y.fv != 0 && Subst(cd, map[*Term]*Term{y: NamedVar("comb:other", y.S)}) != cd {
						wrong = True
					}
					r := Ite(cd, coef(as[0].Args[1]), coef(as[0].Args[2]))
					if k != 1 {
						r = Sub(BVc(0, r.S), r)
					}
					return r
				}
			}
			n.bad(at, "not a multiple of the list's element: %s", clip(b.String(), 300))
			return nil
		}
		coefs = append(coefs, coef(body))
	}
	if y.Op == OVar {
		// the body component is usually treated apart
		last, ok := n.intOf(parseExpr("n0", "combination")).Int()
		if !ok {
			n.bad(at, "n0")
		}
		k := BVc(uint64(last), y.S)
		one(Subst(t, map[*Term]*Term{y: k}), k, true)
		one(under(t, Eq(y, k), False, 1<<20), y, false)
	} else {
		one(t, y, false)
	}
	if wrong.IsTrue() {
		return False
	}
	for _, c := range coefs {
		if c == nil || c != coefs[0] {
			return False
		}
	}
	return res
}
