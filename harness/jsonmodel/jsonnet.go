package jsonmodel

import (
	"errors"
	"os"

	jsonnet "github.com/google/go-jsonnet"

	"github.com/sjansen/pgutil/internal/zzverif/sym"
)

// Files is what files contain in symbolic runs; natively they are in a scratch directory.
var Files map[string]string

// Resolve says which file a name means.
var Resolve = func(name string) string { return name }

// ReadFile stands for os.ReadFile.
//
//verif:stub os.ReadFile
func ReadFile(name string) ([]byte, error) {
	s, ok := Files[Resolve(name)]
	if !ok {
		return nil, &os.PathError{Op: "open", Path: name, Err: os.ErrNotExist}
	}
	return []byte(s), nil
}

// WriteFile makes a file for a run.
func WriteFile(name, text string) {
	if sym.Native() {
		if err := os.WriteFile(name, []byte(text), 0600); err != nil {
			panic(err)
		}
		return
	}
	if Files == nil {
		Files = map[string]string{}
	}
	Files[name] = text
}

// MakeVM stands for jsonnet.MakeVM.
//
//verif:stub github.com/google/go-jsonnet.MakeVM
func MakeVM() *jsonnet.VM { return &jsonnet.VM{} }

// Importer stands for (*jsonnet.VM).Importer.
//
//verif:stub (*github.com/google/go-jsonnet.VM).Importer
func Importer(vm *jsonnet.VM, i jsonnet.Importer) {}

// EvaluateSnippet stands for (*jsonnet.VM).EvaluateSnippet: every text of JSON evaluates to itself,
// and a text starting with ! does not evaluate.
//
//verif:stub (*github.com/google/go-jsonnet.VM).EvaluateSnippet
func EvaluateSnippet(vm *jsonnet.VM, name, text string) (string, error) {
	if len(text) > 0 && text[0] == '!' {
		return "", errors.New("STATIC ERROR: unexpected !")
	}
	return text, nil
}
