//go:build go1.21

// Command seq runs the sequential explorations.
package main

import (
	"fmt"
	"os"
	"runtime/pprof"
	"sort"
	"time"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/verifmc/lib"
)

var checks = map[string]func(){}

func main() {
	if len(os.Args) < 2 || checks[os.Args[1]] == nil {
		var l []string
		for k := range checks {
			l = append(l, k)
		}
		sort.Strings(l)
		fmt.Println("usage: seq PROPERTY; known:", l)
		os.Exit(2)
	}
	lib.InitNet()
	if f := os.Getenv("VERIF_CPUPROFILE"); f != "" {
		w, _ := os.Create(f)
		_ = pprof.StartCPUProfile(w)
		time.AfterFunc(15*time.Second, pprof.StopCPUProfile)
	}
	checks[os.Args[1]]()
}
