package tsparse

import (
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hclparse"
	"github.com/zclconf/go-cty/cty"

	"github.com/sjansen/pgutil/internal/zzverif/sym"
)

// attr is an attribute with a string, a list of strings or a number.
type attr struct {
	name  string
	value interface{}
}

type block struct {
	kind   string
	labels []string
	attrs  []attr
	blocks []*block
}

// The file that is parsed: symbolically the syntax tree is given to the parser, natively its text.
var current *block
var malformed bool

func failed(what string) hcl.Diagnostics {
	return hcl.Diagnostics{&hcl.Diagnostic{Severity: hcl.DiagError, Summary: what}}
}

// ParseHCLFile stands for (*hclparse.Parser).ParseHCLFile.
//
//verif:stub (*github.com/hashicorp/hcl2/hclparse.Parser).ParseHCLFile
func ParseHCLFile(p *hclparse.Parser, filename string) (*hcl.File, hcl.Diagnostics) {
	if filename != theFile {
		return nil, failed("no such file")
	}
	f := &hcl.File{Body: &body{b: current}}
	if malformed {
		return f, failed("malformed")
	}
	return f, nil
}

// expr is the expression of an attribute.
type expr struct{ value interface{} }

func (e *expr) Value(ctx *hcl.EvalContext) (cty.Value, hcl.Diagnostics) { panic("not modelled") }
func (e *expr) Variables() []hcl.Traversal                              { return nil }
func (e *expr) Range() hcl.Range                                        { return hcl.Range{} }
func (e *expr) StartRange() hcl.Range                                   { return hcl.Range{} }

// DecodeExpression stands for gohcl.DecodeExpression on the values of attr.
//
//verif:stub github.com/hashicorp/hcl2/gohcl.DecodeExpression
func DecodeExpression(e hcl.Expression, ctx *hcl.EvalContext, val interface{}) hcl.Diagnostics {
	v := e.(*expr).value
	switch p := val.(type) {
	case *string:
		switch x := v.(type) {
		case string:
			*p = x
			return nil
		case int:
			*p = fmt.Sprint(x)
			return nil
		}
	case *[]string:
		if x, ok := v.([]string); ok {
			*p = append([]string{}, x...)
			return nil
		}
	case *int:
		if x, ok := v.(int); ok {
			*p = x
			return nil
		}
	default:
		panic("unsuitable DecodeExpression target")
	}
	return failed("Unsuitable value type")
}

// body is a block's body, of which some attributes and blocks are already taken.
type body struct {
	b          *block
	takenAttr  map[string]bool
	takenBlock map[string]bool
}

func (b *body) Content(schema *hcl.BodySchema) (*hcl.BodyContent, hcl.Diagnostics) {
	c, rest, diags := b.PartialContent(schema)
	r := rest.(*body)
	for _, a := range b.b.attrs {
		if !r.takenAttr[a.name] {
			diags = append(diags, failed("Unsupported argument")...)
		}
	}
	for _, x := range b.b.blocks {
		if !r.takenBlock[x.kind] {
			diags = append(diags, failed("Unsupported block type")...)
		}
	}
	return c, diags
}

func (b *body) PartialContent(schema *hcl.BodySchema) (*hcl.BodyContent, hcl.Body, hcl.Diagnostics) {
	var diags hcl.Diagnostics
	c := &hcl.BodyContent{Attributes: hcl.Attributes{}}
	rest := &body{b: b.b, takenAttr: map[string]bool{}, takenBlock: map[string]bool{}}
	for k := range b.takenAttr {
		rest.takenAttr[k] = true
	}
	for k := range b.takenBlock {
		rest.takenBlock[k] = true
	}
	for _, s := range schema.Attributes {
		found := false
		for _, a := range b.b.attrs {
			if a.name == s.Name && !b.takenAttr[a.name] {
				c.Attributes[a.name] = &hcl.Attribute{Name: a.name, Expr: &expr{a.value}}
				found = true
			}
		}
		rest.takenAttr[s.Name] = true
		if !found && s.Required {
			diags = append(diags, failed("Missing required argument")...)
		}
	}
	for _, s := range schema.Blocks {
		rest.takenBlock[s.Type] = true
	}
	for _, x := range b.b.blocks {
		if b.takenBlock[x.kind] {
			continue
		}
		for _, s := range schema.Blocks {
			if s.Type == x.kind {
				if len(s.LabelNames) != len(x.labels) {
					diags = append(diags, failed("Missing or extraneous label")...)
					continue
				}
				c.Blocks = append(c.Blocks, &hcl.Block{Type: x.kind, Labels: x.labels, Body: &body{b: x}})
			}
		}
	}
	return c, rest, diags
}

func (b *body) JustAttributes() (hcl.Attributes, hcl.Diagnostics) {
	attrs := hcl.Attributes{}
	for _, a := range b.b.attrs {
		if !b.takenAttr[a.name] {
			attrs[a.name] = &hcl.Attribute{Name: a.name, Expr: &expr{a.value}}
		}
	}
	return attrs, nil
}

func (b *body) MissingItemRange() hcl.Range { return hcl.Range{} }

func text(b *block, indent string) string {
	var s strings.Builder
	for _, a := range b.attrs {
		s.WriteString(indent + a.name + " = ")
		switch x := a.value.(type) {
		case string:
			s.WriteString(fmt.Sprintf("%q", x))
		case int:
			s.WriteString(fmt.Sprint(x))
		case []string:
			s.WriteString("[")
			for i, e := range x {
				if i > 0 {
					s.WriteString(", ")
				}
				s.WriteString(fmt.Sprintf("%q", e))
			}
			s.WriteString("]")
		}
		s.WriteString("\n")
	}
	for _, x := range b.blocks {
		s.WriteString(indent + x.kind)
		for _, l := range x.labels {
			s.WriteString(fmt.Sprintf(" %q", l))
		}
		s.WriteString(" {\n" + text(x, indent+"  ") + indent + "}\n")
	}
	return s.String()
}

var theFile = "the.hcl"

// write puts the file where the parser looks for it and returns what removes it.
func write() func() {
	if !sym.Native() {
		return func() {}
	}
	dir, err := ioutil.TempDir("", "verif-hcl")
	if err != nil {
		panic(err)
	}
	theFile = filepath.Join(dir, "the.hcl")
	s := text(current, "")
	if malformed {
		s += "\n}{\n"
	}
	if err := ioutil.WriteFile(theFile, []byte(s), 0600); err != nil {
		panic(err)
	}
	return func() { os.RemoveAll(dir) }
}
