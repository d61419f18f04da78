package main

import (
	"flag"
	"fmt"
	"ginkgoverif/engine"
	"os"
	"time"
)

func main() {
	root := flag.String("root", "/repo", "")
	explore := flag.Bool("x", false, "explore")
	budget := flag.Int("b", 20000, "")
	flag.Parse()
	t := time.Now()
	p, err := engine.Load(*root)
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	fmt.Println(len(p.Pkgs), len(p.Funcs), time.Since(t), p.Module)
	for _, a := range flag.Args() {
		for _, f := range p.Funcs {
			if p.CalleeName(f) != a {
				continue
			}
			if !*explore {
				f.WriteTo(os.Stdout)
				continue
			}
			t = time.Now()
			x := engine.New(p, engine.Cfg{Root: f, Budget: *budget})
			x.Run()
			fmt.Println("states", x.NStates, "steps", x.Steps, time.Since(t), x.Undec)
			for i, e := range x.Exits {
				if i > 40 {
					fmt.Println("...", len(x.Exits))
					break
				}
				fmt.Printf("--- exit %s ret=%v facts=%v\n    mem=%v\n", e.Kind, e.Ret, e.St.Facts(), e.St.Mem())
			}
		}
	}
}
