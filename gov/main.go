package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/pprof"
	"strings"
	"time"
)

var verifDir = "/verif"
var repoDir = "/repo"

func main() {
	if d := os.Getenv("GOV_REPO"); d != "" {
		repoDir = d
	}
	if d := os.Getenv("GOV_VERIF"); d != "" {
		verifDir = d
	}
	if f := os.Getenv("GOV_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
		if d, err := time.ParseDuration(os.Getenv("GOV_PROFT")); err == nil {
			time.AfterFunc(d, func() { pprof.StopCPUProfile(); os.Exit(3) })
		}
	}
	cmd := "help"
	if len(os.Args) > 1 {
		cmd = os.Args[1]
	}
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	unit := fs.String("unit", "", "only this unit")
	quick := fs.Duration("quick", 2*time.Second, "")
	full := fs.Duration("full", 10*time.Second, "")
	verbose := fs.Bool("v", false, "")
	tier := fs.String("tier", "quick", "")
	if len(os.Args) > 2 {
		fs.Parse(os.Args[2:])
	}
	if cmd == "check" {
		os.Exit(checkMain(*prop, *tier))
	}
	ld := NewLoader(repoDir)
	if os.Getenv("GOV_OS") == "js" {
		ld.ctx.GOOS, ld.ctx.GOARCH = "js", "wasm"
	}
	var pkgs []string
	pkgs = append(pkgs, modPath, modPath+"/blend", modPath+"/color")
	if err := ld.Build(pkgs...); err != nil {
		fmt.Println("load:", err, ld.errs)
		os.Exit(1)
	}
	pr := NewProj(ld)
	switch cmd {
	case "dump":
		for _, n := range fs.Args() {
			for k, f := range pr.fnByName {
				if k == n || strings.HasSuffix(k, "."+n) {
					fmt.Println("##", k)
					f.WriteTo(os.Stdout)
				}
			}
		}
		return
	case "names":
		for _, k := range sortedKeys(pr.fnByName) {
			if strings.HasPrefix(k, "psd") {
				fmt.Println(k)
			}
		}
		return
	}
	if err := pr.LoadContracts(verifDir + "/contracts"); err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	switch cmd {
	case "verify":
		r := &Run{pr: pr, ld: ld, prop: *prop, only: *unit, quick: *quick, full: *full, verbose: true}
		_ = verbose
		t0 := time.Now()
		r.verifyAll()
		n, d := 0, 0
		for _, u := range r.units {
			for _, o := range u.obls {
				n++
				if o.res.status == "unsat" {
					d++
				}
			}
		}
		fmt.Printf("%d units, %d obligations, %d discharged, %v\n", len(r.units), n, d, time.Since(t0).Round(time.Millisecond))
	}
}
