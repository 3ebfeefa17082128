//go:build race

package main

import (
	"os"
	"strconv"

	"verifharness/props"
)

func main() {
	o, _ := strconv.Atoi(os.Args[2])
	props.Races(os.Args[1], o)
}
