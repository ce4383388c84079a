package main

// Check mode: verify every contract of the given properties, and every contract
// these rely on, at one security level; write a JSON report.

import (
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"
)

type FailRep struct {
	Name   string `json:"name"`
	Status string `json:"status"`
	Detail string `json:"detail,omitempty"`
	Model  string `json:"model,omitempty"`
}
type FnRep struct {
	Key        string         `json:"key"`
	Kind       string         `json:"kind"` // contract, lemma, fft
	Instances  int            `json:"instances"`
	Obls       int            `json:"obligations"`
	Discharged int            `json:"discharged"`
	How        map[string]int `json:"how"`
	Failed     []FailRep      `json:"failed,omitempty"`
	Uses       []string       `json:"uses,omitempty"`
	Ms         int64          `json:"ms"`
}
type Report struct {
	Level    string         `json:"level"`
	Fns      []*FnRep       `json:"functions"`
	Ext      []string       `json:"externals"`
	Smt      map[string]int `json:"smt"`
	SmtMs    int64          `json:"smt_ms"`
	Vacuity  int            `json:"satisfiable_preconditions"`
	Unrolled []string       `json:"loops_unrolled,omitempty"`
	WallMs   int64          `json:"wall_ms"`
	Err      string         `json:"error,omitempty"`
}

func hasProp(ps []string, p string) bool {
	for _, x := range ps {
		if x == p || p == "all" {
			return true
		}
	}
	return false
}

func (v *Verifier) checkProp(prop, only string) *Report {
	e := v.e
	t0 := time.Now()
	rep := &Report{Level: v.level, Smt: map[string]int{}}
	v.prop = prop
	var work []*Contract
	seen := map[string]bool{}
	var add func(c *Contract)
	add = func(c *Contract) {
		if !seen[c.Key] {
			seen[c.Key] = true
			for _, u := range c.Uses {
				if d := v.byKey[u]; d != nil {
					add(d)
				}
			}
			work = append(work, c)
		}
	}
	for _, c := range v.sp.Con {
		if only != "" && !strings.Contains(c.Key, only) {
			continue
		}
		if hasProp(c.Props, prop) {
			add(c)
		}
	}
	for len(work) > 0 {
		c := work[0]
		work = work[1:]
		f := &FnRep{Key: c.Key, Kind: "contract", How: map[string]int{}}
		if c.Assume != "" {
			f.Kind = "contract (linear domain)"
		}
		t1 := time.Now()
		e.used = map[string]bool{}
		n := len(e.obls)
		v.inst = 0
		v.verify(c)
		f.Instances = v.inst
		for _, o := range e.obls[n:] {
			f.Obls++
			if o.Status == "proved" {
				f.Discharged++
				f.How[o.How]++
			} else if len(f.Failed) < 40 {
				f.Failed = append(f.Failed, FailRep{o.Name, o.Status, o.Detail, o.Model})
			}
		}
		e.obls = e.obls[:n]
		for k := range e.used {
			f.Uses = append(f.Uses, k)
			if d := v.byKey[k]; d != nil {
				add(d)
			}
		}
		sort.Strings(f.Uses)
		f.Ms = time.Since(t1).Milliseconds()
		rep.Fns = append(rep.Fns, f)
	}
	for _, l := range v.sp.Lemmas {
		if only != "" && !strings.Contains(l.Name, only) {
			continue
		}
		if hasProp(l.Props, prop) {
			rep.Fns = append(rep.Fns, v.checkLemma(l))
		}
	}
	for k := range extUsed {
		rep.Ext = append(rep.Ext, k)
	}
	sort.Strings(rep.Ext)
	rep.Smt["queries"], rep.Smt["sat"], rep.Smt["unsat"], rep.Smt["unknown"], rep.Smt["cvc5"] = smtStats.Queries, smtStats.Sat, smtStats.Unsat, smtStats.Unknown, smtStats.Cvc5
	rep.SmtMs = smtStats.Time.Milliseconds()
	rep.Vacuity = v.vac
	rep.WallMs = time.Since(t0).Milliseconds()
	return rep
}

func writeReport(path string, r *Report) {
	b, _ := json.MarshalIndent(r, "", " ")
	if path == "-" {
		os.Stdout.Write(append(b, '\n'))
		return
	}
	os.WriteFile(path, b, 0o644)
}

var lemTypes = map[string]types.Type{
	"uint32": tyU32, "int": tyInt, "bool": tyBool, "float64": tyF64,
	"uint64": types.Typ[types.Uint64], "int64": types.Typ[types.Int64], "int32": types.Typ[types.Int32],
	"uint8": types.Typ[types.Uint8], "uint16": types.Typ[types.Uint16],
}

func (v *Verifier) checkLemma(l *Lemma) *FnRep {
	e := v.e
	t0 := time.Now()
	f := &FnRep{Key: "lemma " + l.Name, Kind: "lemma", How: map[string]int{}}
	n0 := len(e.obls)
	c := &Contract{Let: l.Let, Enum: l.Enum}
	var ins []instance
	e.label = l.Name
	if err := e.guard(func() { ins = v.instances(c) }); err != "" {
		e.fail("lemma", err)
	}
	for _, in := range ins {
		f.Instances++
		e.label = "lemma " + l.Name
		for k, x := range in.enum {
			e.label += fmt.Sprintf("{%s=%d}", k, x)
		}
		e.label += "@" + v.level
		e.deadline = time.Now().Add(fnBudget)
		if err := e.guard(func() {
			st := v.base.Clone()
			env := v.env(st, nil)
			env.let = l.Let
			for k, x := range in.enum {
				env.vars[k] = SV{Int(x), tyInt}
			}
			curRanges = map[string][2]int64{}
			env.ranges(l.Req, "lem:")
			for i, nm := range l.Vars {
				t := l.Types[i]
				if t == "arr32" {
					env.vars[nm] = SV{NamedVar("lem:"+nm, Arr32), nil}
					continue
				}
				ty := lemTypes[t]
				if ty == nil {
					panic(specErr{"unknown lemma type " + t})
				}
				s, _, _ := basicSort(ty)
				env.vars[nm] = SV{symLeafS("lem:"+nm, s, 0, nil), ty}
			}
			for _, r := range l.Req {
				st.Assume(env.boolOf(r.X))
			}
			if len(st.pc) > 0 {
				if r, _ := checkSat(st.pc, false, 10000); r == "unsat" {
					e.fail("hypotheses satisfiable", "contradictory hypotheses")
					return
				}
				v.vac++
			}
			for i, cl := range l.Ens {
				nm := cl.Name
				if nm == "" {
					nm = fmt.Sprintf("claim %d: %s", i+1, clip(cl.Text, 100))
				}
				v.checkClause(env, nm, cl.X)
			}
		}); err != "" {
			e.failed++
			e.obls = append(e.obls, &Obligation{Name: e.label + " :: lemma", Status: "unknown", Detail: err})
		}
	}
	for _, o := range e.obls[n0:] {
		f.Obls++
		if o.Status == "proved" {
			f.Discharged++
			f.How[o.How]++
		} else {
			f.Failed = append(f.Failed, FailRep{o.Name, o.Status, o.Detail, o.Model})
		}
	}
	e.obls = e.obls[:n0]
	f.Ms = time.Since(t0).Milliseconds()
	return f
}
