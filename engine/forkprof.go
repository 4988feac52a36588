package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
)

// forkProfile counts where paths fork, for the development of harnesses (GOSYM_FORKS=1).
var forkProfile = struct {
	sync.Mutex
	on bool
	n  map[string]int
}{on: os.Getenv("GOSYM_FORKS") != "", n: map[string]int{}}

func (m *M) profileFork(what string) {
	if !forkProfile.on {
		return
	}
	s := m.stackTrace()
	if ls := strings.Split(s, "\n"); len(ls) > 5 {
		s = strings.Join(ls[:5], "\n")
	}
	forkProfile.Lock()
	forkProfile.n[what+"\n"+s]++
	forkProfile.Unlock()
}

func printForkProfile() {
	var ks []string
	for k := range forkProfile.n {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return forkProfile.n[ks[i]] > forkProfile.n[ks[j]] })
	for i, k := range ks {
		if i < 12 {
			fmt.Fprintf(os.Stderr, "%d forks: %s\n", forkProfile.n[k], k)
		}
	}
}
