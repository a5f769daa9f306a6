// Package cxxrun interprets C++ abstractly over the syntax trees that clang prints. Values that come from outside are symbols.
package cxxrun

import (
	"encoding/json"
	"fmt"
	"strings"
)

// Node is a node of clang's syntax tree.
type Node struct {
	ID            string `json:"id"`
	Kind          string `json:"kind"`
	Name          string `json:"name"`
	Mangled       string `json:"mangledName"`
	Loc           *Loc   `json:"loc"`
	Range         *Range `json:"range"`
	Type          Type   `json:"type"`
	Value         any    `json:"value"`
	Opcode        string `json:"opcode"`
	Postfix       bool   `json:"isPostfix"`
	CastKind      string `json:"castKind"`
	ValueCategory string `json:"valueCategory"`
	Ref           *Node  `json:"referencedDecl"`
	Member        string `json:"referencedMemberDecl"`
	Arrow         bool   `json:"isArrow"`
	Previous      string `json:"previousDecl"`
	Parent        string `json:"parentDeclContextId"`
	Inner         []*Node
	HasElse       bool    `json:"hasElse"`
	HasInit       bool    `json:"hasInit"`
	HasVar        bool    `json:"hasVar"`
	AnyInit       *Node   `json:"anyInit"`
	BaseInit      *Type   `json:"baseInit"`
	Init          string  `json:"init"`
	Storage       string  `json:"storageClass"`
	Implicit      bool    `json:"isImplicit"`
	Bases         []*Base `json:"bases"`
	Complete      bool    `json:"completeDefinition"`
	Scoped        string  `json:"scopedEnumTag"`
	CtorType      *Type   `json:"ctorType"`
	Filler        []*Node `json:"array_filler"`
	Field         *Node   `json:"field"`

	tu    *tu
	up    *Node // the declaration or statement that this is in
	Line  int
	File  string
	qname string
}

type Base struct {
	Type Type `json:"type"`
}

type Type struct {
	Qual  string `json:"qualType"`
	Desug string `json:"desugaredQualType"`
}

func (t Type) String() string {
	if t.Desug != "" {
		return t.Desug
	}
	return t.Qual
}

type Loc struct {
	File      string `json:"file"`
	Line      int    `json:"line"`
	Spelling  *Loc   `json:"spellingLoc"`
	Expansion *Loc   `json:"expansionLoc"`
}

type Range struct {
	Begin *Loc `json:"begin"`
	End   *Loc `json:"end"`
}

type tu struct {
	byID map[string]*Node
}

// Program is the syntax trees of the files that are linked together.
type Program struct {
	tus     []*tu
	defs    map[string]*Node // function definitions by mangled name
	Records map[string]*Node // definitions of classes by qualified name
	Enums   map[string]*Node
	Globals map[string]*Node
	Funcs   map[string][]*Node // definitions by qualified name
}

// Load reads the syntax trees that clang printed.
func Load(dumps ...[]byte) (*Program, error) {
	p := &Program{defs: map[string]*Node{}, Records: map[string]*Node{}, Enums: map[string]*Node{}, Globals: map[string]*Node{}, Funcs: map[string][]*Node{}}
	for _, b := range dumps {
		var root Node
		if err := json.Unmarshal(b, &root); err != nil {
			return nil, fmt.Errorf("syntax tree: %v", err)
		}
		t := &tu{byID: map[string]*Node{}}
		p.tus = append(p.tus, t)
		pos := &pos{}
		t.walk(&root, nil, pos)
		p.index(&root, t)
	}
	return p, nil
}

type pos struct {
	file string
	line int
}

func (p *pos) see(l *Loc) (string, int) {
	if l == nil {
		return p.file, p.line
	}
	if l.Spelling != nil || l.Expansion != nil {
		p.see(l.Spelling)
		return p.see(l.Expansion)
	}
	if l.File != "" {
		p.file = l.File
	}
	if l.Line != 0 {
		p.line = l.Line
	}
	return p.file, p.line
}

func (t *tu) walk(n, up *Node, p *pos) {
	n.tu, n.up = t, up
	hasLoc := n.Loc != nil && (n.Loc.Line != 0 || n.Loc.File != "" || n.Loc.Spelling != nil || n.Loc.Expansion != nil)
	if n.Loc != nil {
		n.File, n.Line = p.see(n.Loc)
	}
	if n.Range != nil {
		f, l := p.see(n.Range.Begin)
		if !hasLoc && n.Loc == nil {
			n.File, n.Line = f, l
		}
		p.see(n.Range.End)
	}
	if n.ID != "" {
		if _, ok := t.byID[n.ID]; !ok {
			t.byID[n.ID] = n
		}
	}
	for _, c := range n.Inner {
		t.walk(c, n, p)
	}
	for _, c := range n.Filler {
		t.walk(c, n, p)
	}
}

// context is the name of the declaration that a declaration belongs to.
func (p *Program) context(n *Node) string {
	if n.Parent != "" {
		if u := n.tu.byID[n.Parent]; u != nil {
			return p.QName(u)
		}
	}
	for u := n.up; u != nil; u = u.up {
		switch u.Kind {
		case "NamespaceDecl", "CXXRecordDecl", "EnumDecl", "ClassTemplateSpecializationDecl":
			if u.Kind == "EnumDecl" && u.Scoped == "" {
				continue
			}
			return p.QName(u)
		case "FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl":
			return p.QName(u) + "()"
		}
	}
	return ""
}

// QName is the qualified name of a declaration.
func (p *Program) QName(n *Node) string {
	if n.qname == "" {
		c := p.context(n)
		n.qname = n.Name
		if c != "" {
			n.qname = c + "::" + n.Name
		}
	}
	return n.qname
}

func isFunc(k string) bool {
	switch k {
	case "FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl", "CXXConversionDecl":
		return true
	}
	return false
}

func (n *Node) body() *Node {
	for _, c := range n.Inner {
		if c.Kind == "CompoundStmt" {
			return c
		}
	}
	return nil
}

func (n *Node) params() (ps []*Node) {
	for _, c := range n.Inner {
		if c.Kind == "ParmVarDecl" {
			ps = append(ps, c)
		}
	}
	return
}

func (p *Program) index(n *Node, t *tu) {
	switch {
	case n.Kind == "FunctionTemplateDecl" || n.Kind == "ClassTemplateDecl":
		return
	case n.Kind == "CXXRecordDecl":
		if n.Complete {
			if q := p.QName(n); p.Records[q] == nil {
				p.Records[q] = n
			}
		}
	case n.Kind == "EnumDecl":
		if q := p.QName(n); p.Enums[q] == nil && len(n.Inner) > 0 {
			p.Enums[q] = n
		}
	case isFunc(n.Kind):
		if n.body() != nil {
			if n.Mangled != "" && p.defs[n.Mangled] == nil {
				p.defs[n.Mangled] = n
			}
			if q := p.QName(n); !hasDef(p.Funcs[q], n) {
				p.Funcs[q] = append(p.Funcs[q], n)
			}
		}
		return
	case n.Kind == "VarDecl":
		if q := p.QName(n); n.Init != "" && p.Globals[q] == nil {
			p.Globals[q] = n
		}
		return
	}
	for _, c := range n.Inner {
		p.index(c, t)
	}
}

func hasDef(ns []*Node, n *Node) bool {
	for _, m := range ns {
		if m.Mangled == n.Mangled {
			return true
		}
	}
	return false
}

// definition is the definition of a function, wherever it is, or nil.
func (p *Program) definition(n *Node) *Node {
	if n == nil {
		return nil
	}
	if n.body() != nil {
		return n
	}
	if n.Mangled != "" {
		return p.defs[n.Mangled]
	}
	return nil
}

// find is the full node of a declaration that a node refers to, if it is in the trees.
func (n *Node) find(id string) *Node { return n.tu.byID[id] }

// plain is the name of a type without qualifiers and references.
func plain(t string) string {
	t = strings.TrimSpace(t)
	for {
		o := t
		for _, w := range []string{"const ", "volatile ", "class ", "struct ", "enum ", "typename "} {
			t = strings.TrimPrefix(t, w)
		}
		for _, w := range []string{"&", "&&", " const"} {
			t = strings.TrimSpace(strings.TrimSuffix(t, w))
		}
		if t == o {
			return t
		}
	}
}
