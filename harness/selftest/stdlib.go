package selftest

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"os"
	"path"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"text/tabwriter"
	"text/template"
	"time"
	"unicode"

	"github.com/sjansen/pgutil/internal/zzverif/sym"
)

// Lib exercises functions of the library which a rewritten function may use, each on its own path.
//
//verif:harness S01 lib samples=400
func Lib() {
	s := sym.StrIn("s", 2, "aZ _=,%\xc3\xa9")
	switch sym.Choose("f", 50) {
	case 0:
		sym.Observe("v", strings.Join(strings.Fields(s), "|"))
	case 1:
		sym.Observe("v", strings.Map(func(r rune) rune {
			if unicode.IsLetter(r) {
				return unicode.ToUpper(r)
			}
			return -1
		}, s))
	case 2:
		sym.Observe("v", strings.NewReplacer("a", "b", "Z", "").Replace(s))
	case 3:
		var b strings.Builder
		fmt.Fprintf(&b, "%-5s|%5s|%q|%x", s, s, s, s)
		sym.Observe("v", b.String())
	case 4:
		sym.Observe("v", strings.EqualFold(s, "az"))
	case 5:
		sym.Observe("v", strings.Title(s))
	case 6:
		sym.Observe("v", strings.TrimFunc(s, unicode.IsSpace)+"|"+strings.TrimLeft(s, "a ")+"|"+strings.TrimRight(s, " Z")+"|"+strings.Trim(s, "a")+"|"+strings.TrimPrefix(s, "a")+"|"+strings.TrimSuffix(s, "Z"))
	case 7:
		sym.Observe("v", strings.SplitN(s, "=", 2))
	case 8:
		sym.Observe("v", strings.SplitAfter(s, ","))
	case 9:
		sym.Observe("v", strings.FieldsFunc(s, func(r rune) bool { return r == ',' || r == '=' }))
	case 10:
		sym.Observe("v", strings.IndexAny(s, "=,")*10+strings.LastIndex(s, "a")+strings.Count(s, "a")+strings.IndexByte(s, 'Z')+strings.IndexRune(s, 'é')+strings.LastIndexByte(s, 'Z')+strings.IndexFunc(s, unicode.IsUpper))
	case 11:
		sym.Observe("v", strings.ContainsAny(s, "=,") || strings.ContainsRune(s, 'a'))
	case 12:
		var b bytes.Buffer
		b.WriteString(s)
		b.WriteByte('x')
		b.WriteRune('é')
		b.Write([]byte(s))
		sym.Observe("v", b.String()+strconv.Itoa(b.Len()))
	case 13:
		sym.Observe("v", strconv.Quote(s)+strconv.FormatInt(int64(len(s)), 16))
	case 14:
		xs := []string{s, "b", "a"}
		sort.SliceStable(xs, func(i, j int) bool { return xs[i] < xs[j] })
		sym.Observe("v", xs)
	case 15:
		xs := []string{s, "b", "a"}
		sort.Sort(sort.Reverse(sort.StringSlice(xs)))
		sym.Observe("v", xs)
	case 16:
		xs := []string{"a", "b", "c"}
		sym.Observe("v", sort.SearchStrings(xs, s))
	case 17:
		sym.Observe("v", regexp.MustCompile(`^[a-z_]+$`).MatchString(s))
	case 18:
		sym.Observe("v", regexp.MustCompile(`[a=]`).ReplaceAllString(s, "#"))
	case 19:
		var b strings.Builder
		template.Must(template.New("x").Parse("{{.}}")).Execute(&b, s)
		sym.Observe("v", b.String())
	case 20:
		var b bytes.Buffer
		w := tabwriter.NewWriter(&b, 0, 8, 1, ' ', 0)
		fmt.Fprintf(w, "%s\tx\n", s)
		w.Flush()
		sym.Observe("v", b.String())
	case 21:
		sc := bufio.NewScanner(strings.NewReader(s + "\nx"))
		for sc.Scan() {
			sym.Observe("v", sc.Text())
		}
	case 22:
		w := bufio.NewWriter(&bytes.Buffer{})
		n, _ := w.WriteString(s)
		sym.Observe("v", n)
	case 23:
		ctx, cancel := context.WithCancel(context.Background())
		go cancel()
		<-ctx.Done()
		sym.Observe("v", ctx.Err().Error())
	case 24:
		var once sync.Once
		n := 0
		once.Do(func() { n++ })
		once.Do(func() { n++ })
		sym.Observe("v", n)
	case 26:
		var n int32
		atomic.AddInt32(&n, 2)
		sym.Observe("v", atomic.LoadInt32(&n) == 2 && atomic.CompareAndSwapInt32(&n, 2, 3))
	case 28:
		e := errors.New("x")
		sym.Observe("v", errors.Is(fmt.Errorf("a: %w", e), e))
		var p *os.PathError
		sym.Observe("w", errors.As(fmt.Errorf("a: %w", &os.PathError{Op: "o", Path: "p", Err: e}), &p))
	case 29:
		sym.Observe("v", path.Base(s)+filepath.Base(s)+filepath.Clean("a/"+s)+filepath.Join("a", s)+filepath.Ext(s))
	case 30:
		sym.Observe("v", fmt.Sprint(s, 1, true)+fmt.Sprintln(s))
	case 31:
		sym.Observe("v", fmt.Sprintf("%v %+v %#v %T", struct{ A string }{s}, struct{ A string }{s}, s, s))
	case 32:
		n, err := strconv.Atoi(s)
		sym.Observe("v", n)
		sym.Observe("e", err != nil)
	case 33:
		n, err := strconv.ParseBool(s)
		sym.Observe("v", n)
		sym.Observe("e", err != nil)
	case 34:
		n, err := strconv.ParseInt(s, 0, 16)
		sym.Observe("v", int(n))
		sym.Observe("e", err != nil)
	case 35:
		sym.Observe("v", strings.Repeat(s, 2)+strings.ReplaceAll(s, "a", "xx")+strings.Replace(s, "Z", "y", 1))
	case 36:
		sym.Observe("v", string(bytes.ToUpper([]byte(s)))+string(bytes.TrimSpace([]byte(s))))
	case 37:
		sym.Observe("v", bytes.Equal([]byte(s), []byte("a")) || bytes.Contains([]byte(s), []byte("Z")))
	case 38:
		sym.Observe("v", bytes.Fields([]byte(s)) == nil)
	case 39:
		sym.Observe("v", strings.Compare(s, "a"))
	case 40:
		sym.Observe("v", strings.ToLower(s)+strings.ToTitle(s)+strings.ToValidUTF8(s, "?"))
	case 41:
		var e error
		defer func() { _ = e }()
		sym.Observe("v", fmt.Sprintf("%v %d %s", e, []int{1, 2}, []string{s}))
	case 43:
		sym.Observe("v", regexp.MustCompile(`\s+`).Split(s, -1))
	case 44:
		var wg sync.WaitGroup
		out := make([]string, 2)
		for i := range out {
			wg.Add(1)
			go func(i int) { defer wg.Done(); out[i] = s }(i)
		}
		wg.Wait()
		sym.Observe("v", out)
	case 47:
		b, err := strconv.Unquote(`"` + s + `"`)
		sym.Observe("v", b)
		sym.Observe("e", err != nil)
	case 48:
		a := []byte(s)
		a = append(a[:0:0], a...)
		copy(a, "zz")
		sym.Observe("v", string(a))
	case 49:
		d := 3 * time.Duration(len(s)) * time.Second
		sym.Observe("v", d.String()+fmt.Sprint(d.Seconds()))
	}
}
