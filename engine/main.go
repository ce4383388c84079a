package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"strings"
	"time"
)

func main() {
	repo := flag.String("repo", "/repo", "")
	con := flag.String("contracts", "/verif/contracts", "")
	level := flag.String("level", "Security128Bit", "")
	only := flag.String("only", "", "")
	verbose := flag.Bool("v", false, "")
	prop := flag.String("prop", "", "check mode: property id or all")
	jsonOut := flag.String("json", "", "report file")
	budget := flag.Int("budget", 150, "seconds per contract instance")
	flag.Parse()
	fnBudget = time.Duration(*budget) * time.Second
	debug.SetGCPercent(300)
	debug.SetMemoryLimit(2200 << 20)
	keepNames = *verbose
	if pf := os.Getenv("GOVC_PROF"); pf != "" {
		f, _ := os.Create(pf)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	t0 := time.Now()
	bad := func(msg string) {
		if *jsonOut != "" {
			writeReport(*jsonOut, &Report{Level: *level, Err: msg})
			os.Exit(0)
		}
		fmt.Println(msg)
		os.Exit(2)
	}
	prog, pkgs, err := loadProgram(*repo)
	if err != nil {
		bad("load: " + err.Error())
	}
	e := newEngine(prog, pkgs)
	var base *State
	if msg := e.guard(func() { base = e.initState() }); msg != "" {
		bad("init: " + msg)
	}
	if *prop == "" {
		fmt.Println("loaded", time.Since(t0), "terms", nTerms)
	}
	if !e.setLevel(base, *level) {
		bad("no level " + *level)
	}
	sp := loadSpecs(*con)
	v := newVerifier(e, sp, base, *level)
	if *prop != "" {
		writeReport(*jsonOut, v.checkProp(*prop, *only))
		return
	}
	for _, c := range sp.Con {
		if *only != "" && !strings.Contains(c.Key, *only) {
			continue
		}
		t1 := time.Now()
		n := len(e.obls)
		v.verify(c)
		bad := 0
		for _, o := range e.obls[n:] {
			if o.Status != "proved" {
				bad++
				fmt.Println("  FAIL", o.Status, o.Name, "\n     ", o.Detail, o.Model)
			} else if *verbose {
				fmt.Println("  ok", o.Name, o.How)
			}
		}
		fmt.Printf("%-50s obls %d failed %d  %v\n", c.Key, len(e.obls)-n, bad, time.Since(t1).Round(time.Millisecond))
	}
	fmt.Println("total", time.Since(t0), "smt", smtStats)
}
