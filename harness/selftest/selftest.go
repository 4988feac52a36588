// Package selftest checks the executor itself.
package selftest

import (
	"errors"
	"fmt"
	"sort"
	"strconv"
	"strings"
	"sync"
	"unicode/utf8"

	"github.com/sjansen/pgutil/internal/zzverif/sym"
)

// Strings exercises string handling.
//
//verif:harness S01 strings
func Strings() {
	s := sym.StrIn("s", 3, "aZ \t1\xc3\xa9")
	t := strings.ToUpper(s)
	u := strings.ToUpper(t)
	sym.Observe("t", t)
	sym.Assert(t == u, "upper is idempotent")
	x := strings.TrimSpace(s)
	sym.Observe("x", x)
	sym.Assert(strings.TrimSpace(x) == x, "trim is idempotent")
	n := strings.Index(s, "a")
	sym.Observe("n", n)
	rs := []rune(s)
	sym.Observe("runes", len(rs))
	sym.Observe("f", fmt.Sprintf("%s|%d|%v|%q", s, len(s), len(rs), "x"))
}

type shape interface{ Area() int }
type sq struct{ a int }

func (s sq) Area() int { return s.a * s.a }

type rect struct{ a, b int }

func (r *rect) Area() int { return r.a * r.b }

// Misc exercises structs, interfaces, maps, closures, defer and panics.
//
//verif:harness S02 misc mapdev=1
func Misc() {
	a := sym.Int("a", 0, 9)
	b := sym.Int("b", -3, 3)
	var sh shape = sq{a}
	if sym.Bool("r") {
		sh = &rect{a, b}
	}
	sym.Observe("area", sh.Area())
	m := map[string]int{"x": 1, "y": 2, "z": a}
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	sym.Assert(strings.Join(ks, ",") == "x,y,z", "sorted keys")
	err := func() (err error) {
		defer func() {
			if r := recover(); r != nil {
				err = fmt.Errorf("recovered: %v", r)
			}
		}()
		arr := []int{1, 2, 3}
		_ = arr[sym.Concrete(a%4)]
		if b == 0 {
			panic("zero")
		}
		return nil
	}()
	if err != nil {
		sym.Observe("err", err.Error())
	}
	sym.Observe("itoa", strconv.Itoa(a))
	e := errors.New("base")
	w := fmt.Errorf("wrap: %w", e)
	sym.Assert(errors.Is(w, e), "errors.Is")
	sl := []struct{ n, v int }{{3, 1}, {a, 2}, {2, 3}}
	sort.Slice(sl, func(i, j int) bool { return sl[i].n < sl[j].n })
	sym.Assert(sl[0].n <= sl[1].n && sl[1].n <= sl[2].n, "sorted")
	sym.Observe("v0", sl[0].v)
}

// Conc exercises goroutines: the sum must be right in every interleaving.
//
//verif:harness S03 conc
func Conc() {
	ch := make(chan int)
	var mu sync.Mutex
	var wg sync.WaitGroup
	sum := 0
	for i := 0; i < 3; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			x := <-ch
			mu.Lock()
			sum += x
			mu.Unlock()
		}(i)
	}
	for i := 1; i <= 3; i++ {
		ch <- i
	}
	wg.Wait()
	sym.Assert(sum == 6, "sum")
	sym.Assert(sym.Quiesce() == 0, "no goroutine left")
}

// Dead must be reported as a deadlock (S04 is expected to fail).
//
//verif:harness S04 dead
func Dead() {
	a, b := make(chan int), make(chan int)
	c := make(chan int, 1)
	go func() {
		select {
		case <-a:
			<-b
		case c <- 1:
			<-a
		}
	}()
	select {
	case a <- 1:
		b <- 1
	case <-c:
	}
	sym.Reach("end")
	sym.Assert(sym.Quiesce() == 0, "left over")
}

// Bug must be found (S05 is expected to fail).
//
//verif:harness S05 bug
func Bug() {
	s := sym.StrN("s", 4)
	h := uint32(0)
	for i := 0; i < len(s); i++ {
		h = h*31 + uint32(s[i])
	}
	sym.Assert(h != 2999999, "hash")
}

// Runes compares decoding a text with the library's decoder.
//
//verif:harness S01 runes
func Runes() {
	s := sym.Str("s", 4)
	t := ""
	rest := s
	for i, r := range s {
		want, n := utf8.DecodeRuneInString(rest)
		sym.Assert(r == want, "a character is decoded")
		sym.Assert(i == len(s)-len(rest), "the offset is right")
		rest = rest[n:]
		t += string(r)
	}
	sym.Assert(rest == "", "all is decoded")
	if utf8.ValidString(s) {
		sym.Assert(t == s, "valid text survives")
	}
}
