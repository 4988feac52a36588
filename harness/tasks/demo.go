package tasks

import (
	"context"
	"errors"

	rdemo "github.com/sjansen/pgutil/internal/runbook/demo"
	rtypes "github.com/sjansen/pgutil/internal/runbook/types"
	tdemo "github.com/sjansen/pgutil/internal/taskset/demo"
	ttypes "github.com/sjansen/pgutil/internal/taskset/types"
	"github.com/sjansen/pgutil/internal/zzverif/sym"
)

type out struct {
	text string
	fail error
}

func (o *out) Write(p []byte) (int, error) {
	if o.fail != nil {
		return 0, o.fail
	}
	o.text += string(p)
	return len(p), nil
}

func byteIn(lo, hi byte) byte {
	b := sym.Byte("c")
	sym.Assume(sym.And(b >= lo, b <= hi))
	return b
}

// char is one character in UTF-8.
func char() string {
	switch sym.Choose("kind", 8) {
	case 0:
		return string([]byte{byteIn(0, 0x7F)})
	case 1:
		return string([]byte{byteIn(0xC2, 0xDF), byteIn(0x80, 0xBF)})
	case 2:
		return string([]byte{0xE0, byteIn(0xA0, 0xBF), byteIn(0x80, 0xBF)})
	case 3:
		a := byteIn(0xE1, 0xEF)
		sym.Assume(a != 0xED)
		return string([]byte{a, byteIn(0x80, 0xBF), byteIn(0x80, 0xBF)})
	case 4:
		return string([]byte{0xED, byteIn(0x80, 0x9F), byteIn(0x80, 0xBF)})
	case 5:
		return string([]byte{0xF0, byteIn(0x90, 0xBF), byteIn(0x80, 0xBF), byteIn(0x80, 0xBF)})
	case 6:
		return string([]byte{byteIn(0xF1, 0xF3), byteIn(0x80, 0xBF), byteIn(0x80, 0xBF), byteIn(0x80, 0xBF)})
	default:
		return string([]byte{0xF4, byteIn(0x80, 0x8F), byteIn(0x80, 0xBF), byteIn(0x80, 0xBF)})
	}
}

// rotate is ROT13 of one byte.
func rotate(b byte) byte {
	low := b | 0x20
	first := sym.And(low >= 'a', low <= 'm')
	second := sym.And(low >= 'n', low <= 'z')
	letter := b >= 0x40
	return sym.IteByte(sym.And(letter, first), b+13, sym.IteByte(sym.And(letter, second), b-13, b))
}

// variant is the runbook or the task-set implementation of the demo target.
type variant struct {
	run func(task string) error
	set func(s string)
	get func() string
	out *out
}

func runbookDemo() *variant {
	o := &out{}
	t := (&rdemo.TargetFactory{Stdout: o}).NewTarget().(*rdemo.Target)
	return &variant{
		out: o,
		set: func(s string) { t.String = s },
		get: func() string { return t.String },
		run: func(class string) error {
			var x rtypes.TaskConfig
			x, err := t.NewTaskConfig(class)
			sym.Assert(err == nil, "the demo task classes can be created")
			sym.Assert(x.Check() == nil, "the demo tasks are valid")
			return t.Handle(context.TODO(), x)
		},
	}
}

func tasksetDemo() *variant {
	o := &out{}
	t := (&tdemo.TargetFactory{Stdout: o}).NewTarget().(*tdemo.Target)
	return &variant{
		out: o,
		set: func(s string) { t.String = s },
		get: func() string { return t.String },
		run: func(class string) error {
			var x ttypes.Task
			x, err := t.NewTask(class)
			sym.Assert(err == nil, "the demo task classes can be created")
			sym.Assert(x.Ready() == nil, "the demo tasks are valid")
			return t.Run(context.TODO(), x)
		},
	}
}

func either() *variant {
	if sym.Bool("taskset") {
		return tasksetDemo()
	}
	return runbookDemo()
}

func chars(max int) []string {
	var cs []string
	for i, n := 0, sym.Choose("chars", max+1); i < n; i++ {
		cs = append(cs, char())
	}
	return cs
}

func join(cs []string) string {
	s := ""
	for _, c := range cs {
		s += c
	}
	return s
}

// Reverse reverses any text.
//
//verif:harness C13 reverse chars=4 thorough:chars=5
//verif:bound every valid UTF-8 text of up to chars characters of one to four bytes, in both variants
//verif:reach end
func Reverse() {
	cs := chars(sym.Param("chars", 2))
	s := join(cs)
	want := ""
	for i := len(cs) - 1; i >= 0; i-- {
		want += cs[i]
	}
	v := either()
	v.set(s)
	sym.Assert(v.run("rev") == nil, "reversing succeeds")
	sym.Assert(sym.EqStr(v.get(), want), "the text is reversed character by character")
	sym.Assert(v.run("rev") == nil, "reversing succeeds")
	sym.Assert(sym.EqStr(v.get(), s), "reversing twice restores the text")
	sym.Assert(v.out.text == "", "reversing prints nothing")
	sym.Reach("end")
}

// Rotate applies ROT13 to any text.
//
//verif:harness C13 rot13 chars=3 thorough:chars=4
//verif:bound every valid UTF-8 text of up to chars characters of one to four bytes, in both variants
//verif:reach end
func Rotate() {
	cs := chars(sym.Param("chars", 2))
	s := join(cs)
	want := ""
	for _, c := range cs {
		if len(c) == 1 {
			c = string([]byte{rotate(c[0])})
		}
		want += c
	}
	v := either()
	v.set(s)
	sym.Assert(v.run("rot13") == nil, "rotating succeeds")
	sym.Assert(sym.EqStr(v.get(), want), "exactly the ASCII letters are rotated")
	sym.Assert(v.run("rot13") == nil, "rotating succeeds")
	sym.Assert(sym.EqStr(v.get(), s), "rotating twice restores the text")
	sym.Assert(v.out.text == "", "rotating prints nothing")
	sym.Reach("end")
}

// EchoFail prints and fails.
//
//verif:harness C13 echofail chars=2
//verif:bound texts of up to chars arbitrary bytes, in both variants; the output may fail
//verif:reach echo fail broken
func EchoFail() {
	s := sym.Str("text", sym.Param("chars", 2))
	v := either()
	v.set(s)
	switch sym.Choose("what", 3) {
	case 0:
		sym.Assert(v.run("echo") == nil, "echo succeeds")
		sym.Assert(sym.EqStr(v.out.text, s+"\n"), "echo prints the text and a newline")
		sym.Reach("echo")
	case 1:
		sym.Assert(v.run("fail") != nil, "the fail task fails")
		sym.Assert(v.out.text == "", "the fail task prints nothing")
		sym.Reach("fail")
	case 2:
		v.out.fail = errors.New("broken pipe")
		sym.Assert(v.run("echo") != nil, "a failure to print is reported")
		sym.Reach("broken")
	}
	sym.Assert(sym.EqStr(v.get(), s), "echo and fail change nothing")
}

var classes = []string{"rev", "rot13", "echo", "fail"}

// Sequence runs any sequence of tasks.
//
//verif:harness C13 sequence tasks=3 thorough:tasks=4
//verif:bound any sequence of up to tasks demo tasks on one target with a text of an ASCII letter, another ASCII character and a three byte character
//verif:reach end
func Sequence() {
	a := sym.StrNIn("a", 1, "amnzAMNZ")
	b := sym.StrNIn("b", 1, "@[`{0 ")
	cs := []string{a, b, "\u20ac"}
	v := either()
	v.set(join(cs))
	printed := ""
	for i, n := 0, sym.Choose("tasks", sym.Param("tasks", 2)+1); i < n; i++ {
		k := sym.Choose("class", 4)
		err := v.run(classes[k])
		switch k {
		case 0:
			cs[0], cs[2] = cs[2], cs[0]
		case 1:
			for j := range cs {
				if len(cs[j]) == 1 {
					cs[j] = string([]byte{rotate(cs[j][0])})
				}
			}
		case 2:
			printed += join(cs) + "\n"
		}
		sym.Assert((err != nil) == (k == 3), "exactly the fail task fails")
		sym.Assert(sym.EqStr(v.get(), join(cs)), "the text is what the tasks made of it")
		sym.Assert(sym.EqStr(v.out.text, printed), "the output is what echo printed")
	}
	sym.Reach("end")
}
