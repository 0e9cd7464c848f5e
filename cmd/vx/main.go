// Command vx decides the properties of /verif/properties.jsonl by symbolic execution.
package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"

	"verif/checks"
)

func main() {
	tier := flag.String("tier", "quick", "quick or thorough")
	root := flag.String("root", "/verif", "framework directory")
	repo := flag.String("repo", "/repo", "tree under test")
	only := flag.String("only", "", "run only probes whose name contains this")
	v := flag.Bool("v", false, "print every probe")
	list := flag.Bool("list", false, "list the checks")
	dump := flag.String("dump", "", "write the probe programs to this directory")
	prof := flag.String("cpuprofile", "", "write a profile of the checker itself")
	flag.Parse()
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(16 << 30)
	if *dump != "" {
		checks.Dump(*dump)
		return
	}
	if *list {
		for _, id := range checks.IDs() {
			fmt.Println(id)
		}
		return
	}
	if flag.NArg() != 1 {
		fmt.Println("usage: vx [-tier quick|thorough] PROPERTY")
		os.Exit(0)
	}
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		checks.Run(flag.Arg(0), *root, *repo, *tier == "thorough", *only, *v)
		pprof.StopCPUProfile()
		return
	}
	os.Exit(checks.Run(flag.Arg(0), *root, *repo, *tier == "thorough", *only, *v))
}
