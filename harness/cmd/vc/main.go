package main

import (
	"os"

	"verifharness/checks"
	"verifharness/core"
)

func main() {
	if len(os.Args) > 2 && os.Args[1] == "-child" && os.Args[2] == "conc" {
		checks.ConcChild()
		return
	}
	if len(os.Args) > 2 && os.Args[1] == "-child" {
		checks.Child(os.Args[2:])
		return
	}
	core.Main()
}
