package main

import (
	"flag"
	"fmt"
	"os"
	"time"

	"verifharness/lib"
	"verifharness/props"
)

func main() {
	prop := flag.String("prop", "", "property id")
	child := flag.String("child", "", "i/n (internal)")
	deadline := flag.Int64("deadline", 0, "unix time (internal)")
	verif := flag.String("verif", "/verif", "verif dir")
	thorough := flag.Bool("thorough", false, "thorough tier")
	only := flag.String("case", "", "replay one case")
	flag.Parse()
	p := props.Get(*prop)
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	if *child != "" {
		var i, n int
		fmt.Sscanf(*child, "%d/%d", &i, &n)
		lib.Child(p, *thorough, i, n, *only, time.Unix(*deadline, 0))
		return
	}
	os.Exit(lib.Parent(p, *thorough, *verif, *only))
}
