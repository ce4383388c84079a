package main

// SMT-LIB translation and solver processes (z3 5.x as "z3-new", cvc5 as second
// opinion on "unknown").  Arrays, Fourier contents and doubles are uninterpreted
// sorts with congruence; only the bit-vector and boolean layers are interpreted.

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

type Solver struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	name string
}

var (
	smtStats = struct {
		Queries, Unsat, Sat, Unknown, Cvc5 int
		Time                               time.Duration
	}{}
	theSolver *Solver
	smtCache  = map[string]string{}
	smtLimit  = 20000 // ms
)

func z3bin() string {
	for _, n := range []string{"z3-new", "z3"} {
		if p, err := exec.LookPath(n); err == nil {
			return p
		}
	}
	return "z3"
}

func startSolver() *Solver {
	s := &Solver{name: z3bin()}
	s.cmd = exec.Command(s.name, "-in", "-smt2")
	s.in, _ = s.cmd.StdinPipe()
	o, _ := s.cmd.StdoutPipe()
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.out = bufio.NewReaderSize(o, 1<<20)
	return s
}

func (s *Solver) kill() {
	s.in.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

type smtGen struct {
	decl  map[string]string
	order []string
	defs  strings.Builder
	done  map[*Term]string
	leafs []*Term
}

func sortName(s Sort) string {
	switch s.K {
	case KBool:
		return "Bool"
	case KBV:
		return fmt.Sprintf("(_ BitVec %d)", s.W)
	case KF64:
		return "F"
	}
	return "U"
}

func bvlit(c uint64, w uint8) string {
	return fmt.Sprintf("(_ bv%d %d)", c&mask(w), w)
}

func (g *smtGen) declare(name string, args []string, res string) {
	if _, ok := g.decl[name]; ok {
		return
	}
	d := fmt.Sprintf("(declare-fun %s (%s) %s)\n", name, strings.Join(args, " "), res)
	g.decl[name] = d
	g.order = append(g.order, name)
}

func sane(n string) string {
	var sb strings.Builder
	for _, r := range n {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '!' || r == '.' {
			sb.WriteRune(r)
		} else {
			fmt.Fprintf(&sb, "_%x_", r)
		}
	}
	return sb.String()
}

func (g *smtGen) uf(name string, t *Term, args []*Term) string {
	var as, ss []string
	for _, a := range args {
		as = append(as, g.term(a))
		ss = append(ss, sortName(a.S))
	}
	name = fmt.Sprintf("%s_%d_%d_%d", sane(name), len(args), t.S.K, t.S.W)
	for _, a := range args {
		name += fmt.Sprintf("_%d%d", a.S.K, a.S.W)
	}
	g.declare(name, ss, sortName(t.S))
	g.leafs = append(g.leafs, t)
	if len(args) == 0 {
		return name
	}
	return "(" + name + " " + strings.Join(as, " ") + ")"
}

func (g *smtGen) term(t *Term) string {
	if r, ok := g.done[t]; ok {
		return r
	}
	r := g.term0(t)
	if len(r) > 40 {
		n := fmt.Sprintf("t%d", t.ID)
		fmt.Fprintf(&g.defs, "(define-fun %s () %s %s)\n", n, sortName(t.S), r)
		r = n
	}
	g.done[t] = r
	return r
}

func (g *smtGen) term0(t *Term) string {
	switch t.Op {
	case OConst:
		switch t.S.K {
		case KBool:
			if t.C == 1 {
				return "true"
			}
			return "false"
		case KBV:
			return bvlit(t.C, t.S.W)
		}
		return g.uf(fmt.Sprintf("c%x", t.C), t, nil)
	case OVar:
		s := g.uf("v_"+t.Name, t, nil)
		if t.S.K == KBV && (t.Lo > -big || t.Hi < big) {
			if _, ok := g.decl["range "+s]; !ok {
				c := ""
				if t.S.W == 64 {
					c = fmt.Sprintf("(assert (and (bvsle %s %s) (bvsle %s %s)))\n", bvlit(uint64(t.Lo), 64), s, s, bvlit(uint64(t.Hi), 64))
				} else {
					c = fmt.Sprintf("(assert (and (bvule %s %s) (bvule %s %s)))\n", bvlit(uint64(t.Lo), t.S.W), s, s, bvlit(uint64(t.Hi), t.S.W))
				}
				g.decl["range "+s] = c
				g.order = append(g.order, "range "+s)
			}
		}
		return s
	case OLin:
		if t.S.K != KBV {
			break
		}
		var ps []string
		for i, a := range t.Args {
			x := g.term(a)
			if t.Coef[i] == 1 {
				ps = append(ps, x)
			} else if t.Coef[i] == mask(t.S.W) {
				ps = append(ps, "(bvneg "+x+")")
			} else {
				ps = append(ps, "(bvmul "+bvlit(t.Coef[i], t.S.W)+" "+x+")")
			}
		}
		if t.C != 0 {
			ps = append(ps, bvlit(t.C, t.S.W))
		}
		if len(ps) == 1 {
			return ps[0]
		}
		return "(bvadd " + strings.Join(ps, " ") + ")"
	case OMul:
		if t.S.K != KBV {
			break
		}
		var ps []string
		for _, a := range t.Args {
			ps = append(ps, g.term(a))
		}
		return "(bvmul " + strings.Join(ps, " ") + ")"
	case OUDiv, OSDiv, OURem, OSRem, OAnd, OOr, OXor, OShl, OLshr, OAshr:
		n := map[Op]string{OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem", OAnd: "bvand", OOr: "bvor", OXor: "bvxor", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr"}[t.Op]
		return "(" + n + " " + g.term(t.Args[0]) + " " + g.term(t.Args[1]) + ")"
	case OZext:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.S.W-t.Args[0].S.W, g.term(t.Args[0]))
	case OSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.S.W-t.Args[0].S.W, g.term(t.Args[0]))
	case OTrunc:
		return fmt.Sprintf("((_ extract %d 0) %s)", t.S.W-1, g.term(t.Args[0]))
	case OEq0:
		return fmt.Sprintf("(= %s %s)", g.term(t.Args[0]), bvlit(0, t.Args[0].S.W))
	case OLtZ:
		return fmt.Sprintf("(bvslt %s %s)", g.term(t.Args[0]), bvlit(0, t.Args[0].S.W))
	case OSlt:
		return fmt.Sprintf("(bvslt %s %s)", g.term(t.Args[0]), g.term(t.Args[1]))
	case OUlt:
		return fmt.Sprintf("(bvult %s %s)", g.term(t.Args[0]), g.term(t.Args[1]))
	case ONot:
		return "(not " + g.term(t.Args[0]) + ")"
	case OBAnd, OBOr:
		n := "(and"
		if t.Op == OBOr {
			n = "(or"
		}
		for _, a := range t.Args {
			n += " " + g.term(a)
		}
		return n + ")"
	case OIte:
		return "(ite " + g.term(t.Args[0]) + " " + g.term(t.Args[1]) + " " + g.term(t.Args[2]) + ")"
	case OSel:
		return g.uf("sel", t, t.Args)
	case OApp:
		if t.Name == "=" {
			return "(= " + g.term(t.Args[0]) + " " + g.term(t.Args[1]) + ")"
		}
		return g.uf("f_"+t.Name, t, t.Args)
	case OLam:
		return g.uf(fmt.Sprintf("lam%d", t.ID), t, nil)
	case OSum:
		return g.uf(fmt.Sprintf("sum%d", t.ID), t, nil)
	}
	if t.Op == OLin || t.Op == OMul { // Fourier ring elements
		return g.uf(fmt.Sprintf("ring%d", t.ID), t, nil)
	}
	return g.uf("o_"+opNames[t.Op], t, t.Args)
}

func (g *smtGen) script(asserts []*Term) string {
	g.decl = map[string]string{}
	g.done = map[*Term]string{}
	var as strings.Builder
	for _, a := range asserts {
		fmt.Fprintf(&as, "(assert %s)\n", g.term(a))
	}
	var sb strings.Builder
	sb.WriteString("(declare-sort U 0)\n(declare-sort F 0)\n")
	// declarations first, then range facts, then definitions
	for _, n := range g.order {
		if !strings.HasPrefix(n, "range ") {
			sb.WriteString(g.decl[n])
		}
	}
	for _, n := range g.order {
		if strings.HasPrefix(n, "range ") {
			sb.WriteString(g.decl[n])
		}
	}
	sb.WriteString(g.defs.String())
	sb.WriteString(as.String())
	return sb.String()
}

// canon renames the declared and defined symbols of a script in order of
// occurrence: scripts equal up to names have the same answer.
func (g *smtGen) canon(sc string) string {
	ids := map[string]int{}
	out := make([]byte, 0, len(sc))
	for i := 0; i < len(sc); {
		c := sc[i]
		if c == '(' || c == ')' || c == ' ' || c == '\n' {
			out = append(out, c)
			i++
			continue
		}
		j := i
		for j < len(sc) && sc[j] != '(' && sc[j] != ')' && sc[j] != ' ' && sc[j] != '\n' {
			j++
		}
		tok := sc[i:j]
		i = j
		def := tok[0] == 't' && len(tok) > 1 && tok[1] >= '0' && tok[1] <= '9'
		if !def {
			_, def = g.decl[tok]
		}
		if !def {
			out = append(out, tok...)
			continue
		}
		n, ok := ids[tok]
		if !ok {
			n = len(ids)
			ids[tok] = n
		}
		out = append(out, '#')
		out = strconv.AppendInt(out, int64(n), 10)
	}
	return string(out)
}

// checkSat returns "unsat", "sat" or "unknown" and, for sat, a model text.
func checkSat(asserts []*Term, wantModel bool, timeoutMs int) (string, string) {
	for _, a := range asserts {
		if a == False {
			return "unsat", ""
		}
	}
	g := &smtGen{}
	sc := g.script(asserts)
	key := ""
	if !wantModel {
		key = g.canon(sc)
		if r, ok := smtCache[key]; ok {
			return r, ""
		}
	}
	t0 := time.Now()
	defer func() {
		smtStats.Time += time.Since(t0)
		if d := time.Since(t0); d > time.Second && os.Getenv("GOVC_SLOW") != "" {
			fmt.Fprintln(os.Stderr, "SLOW", d, sc)
		}
	}()
	smtStats.Queries++
	if theSolver == nil {
		theSolver = startSolver()
	}
	s := theSolver
	q := fmt.Sprintf("(push)\n(set-option :timeout %d)\n%s(check-sat)\n", timeoutMs, sc)
	if os.Getenv("GOVC_SMT") != "" {
		fmt.Fprintln(os.Stderr, q)
	}
	io.WriteString(s.in, q)
	res := ""
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			res = "unknown"
			theSolver = nil
			break
		}
		l = strings.TrimSpace(l)
		if l == "sat" || l == "unsat" || l == "unknown" || l == "timeout" {
			res = l
			break
		}
		if strings.HasPrefix(l, "(error") {
			fmt.Fprintln(os.Stderr, "SMT error:", l)
			if os.Getenv("GOVC_DEBUG") != "" {
				os.WriteFile("/tmp/smt_err.smt2", []byte(sc), 0o644)
			}
			res = "unknown"
			s.kill()
			theSolver = nil
			break
		}
	}
	if res == "timeout" {
		res = "unknown"
	}
	model := ""
	if theSolver != nil {
		if res == "sat" && wantModel {
			model = s.model(g)
		}
		io.WriteString(s.in, "(pop)\n")
	}
	if res == "unknown" {
		r2 := runCvc5(sc, timeoutMs)
		if r2 == "unsat" || r2 == "sat" {
			res = r2
			smtStats.Cvc5++
		}
	}
	switch res {
	case "sat":
		smtStats.Sat++
	case "unsat":
		smtStats.Unsat++
	default:
		smtStats.Unknown++
	}
	smtCache[key] = res
	return res, model
}

func (s *Solver) model(g *smtGen) string {
	// ask for the values of scalar leaves
	seen := map[string]bool{}
	var names []string
	for _, t := range g.leafs {
		if t.S.K == KBV || t.S.K == KBool {
			n := g.done[t]
			if n != "" && !seen[n] {
				seen[n] = true
				names = append(names, n)
			}
		}
	}
	sort.Strings(names)
	if len(names) > 60 {
		names = names[:60]
	}
	if len(names) == 0 {
		return ""
	}
	label := map[string]string{}
	for _, t := range g.leafs {
		label[g.done[t]] = t.String()
	}
	var sb strings.Builder
	for _, n := range names {
		fmt.Fprintf(s.in, "(get-value (%s))\n", n)
		l, err := s.out.ReadString('\n')
		if err != nil {
			break
		}
		v := strings.TrimSpace(l)
		if i := strings.LastIndex(v, "#"); i >= 0 {
			v = strings.TrimRight(v[i:], ")")
		}
		lab := label[n]
		if len(lab) > 200 {
			lab = lab[:200] + "…"
		}
		fmt.Fprintf(&sb, "  %s = %s\n", lab, v)
	}
	return sb.String()
}

func runCvc5(sc string, ms int) string {
	p, err := exec.LookPath("cvc5")
	if err != nil {
		return "unknown"
	}
	c := exec.Command(p, "--lang=smt2", fmt.Sprintf("--tlimit=%d", ms), "-q")
	c.Stdin = strings.NewReader("(set-logic ALL)\n" + sc + "(check-sat)\n")
	o, _ := c.Output()
	return strings.TrimSpace(string(o))
}
