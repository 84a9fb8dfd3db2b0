package main

import (
	"fmt"
	"os"
)

var childRoles = map[string]func(args []string){}

// childMain runs a helper role in its own process.
func childMain(role string, args []string) {
	f := childRoles[role]
	if f == nil {
		fmt.Fprintln(os.Stderr, "vmon: no child role", role)
		os.Exit(2)
	}
	f(args)
}
