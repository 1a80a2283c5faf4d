package main

// The registry of dynamic types and the mapping of Go types to term sorts.

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/types"
	"strings"
	"sync"
)

var (
	tagMu    sync.Mutex
	tagIDs   = map[string]int64{}
	tagNames = []string{"<nil>"}
	tagTypes = map[int64]types.Type{}
)

func typeName(t types.Type) string {
	return types.TypeString(types.Unalias(t), func(p *types.Package) string { return p.Name() })
}

func fmtTypeName(t types.Type) string {
	s := typeName(t)
	s = strings.ReplaceAll(s, "interface{}", "interface {}")
	s = strings.ReplaceAll(s, "any", "interface {}")
	// parameter names are not part of %T
	return s
}

func tagID(name string) int64 {
	tagMu.Lock()
	defer tagMu.Unlock()
	if i, ok := tagIDs[name]; ok {
		return i
	}
	i := int64(len(tagNames))
	tagIDs[name] = i
	tagNames = append(tagNames, name)
	return i
}

func tagOf(t types.Type) int64 {
	i := tagID(fmtTypeName(t))
	tagMu.Lock()
	if _, ok := tagTypes[i]; !ok {
		tagTypes[i] = t
	}
	tagMu.Unlock()
	return i
}

func tagName(i int64) (string, bool) {
	tagMu.Lock()
	defer tagMu.Unlock()
	if i >= 0 && i < int64(len(tagNames)) {
		return tagNames[i], true
	}
	return "", false
}

func tagByName(s string) (int64, bool) { return tagID(s), true }

func tagType(i int64) types.Type {
	tagMu.Lock()
	defer tagMu.Unlock()
	return tagTypes[i]
}

func tagCount() int64 {
	tagMu.Lock()
	defer tagMu.Unlock()
	return int64(len(tagNames))
}

// impossibleTag reports names that no dynamic type has: they are not type names, or name an interface type.
func impossibleTag(i int64) bool {
	if i == 0 {
		return false
	}
	if t := tagType(i); t != nil {
		_, isI := t.Underlying().(*types.Interface)
		return isI
	}
	n, _ := tagName(i)
	if n == "error" || n == "nil" || n == "" {
		return true
	}
	e, err := parser.ParseExpr(n)
	if err != nil {
		return true
	}
	if id, ok := e.(*ast.Ident); ok {
		return types.Universe.Lookup(id.Name) == nil
	}
	return false
}

// abstract object types: the struct of closures is seen as an object id.
func objKind(t types.Type) string {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return ""
	}
	if n.Obj().Pkg().Path() == jsonPath {
		switch n.Obj().Name() {
		case "Map", "Array", "Value":
			return n.Obj().Name()
		}
	}
	return ""
}

func ptrObjKind(t types.Type) string {
	p, ok := types.Unalias(t).Underlying().(*types.Pointer)
	if !ok {
		return ""
	}
	return objKind(p.Elem())
}

func isOpaqueStruct(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	if objKind(t) != "" {
		return false
	}
	if _, ok := t.Underlying().(*types.Struct); !ok {
		return false
	}
	return n.Obj().Pkg().Path() != jsonPath
}

func isBuilder(t types.Type) bool { return typeName(t) == "strings.Builder" }

// sortsOf lists the term components of a type; nil when it has none.
func sortsOf(t types.Type) []Sort {
	t = types.Unalias(t)
	if objKind(t) != "" {
		return []Sort{SInt}
	}
	if isBuilder(t) {
		return []Sort{SStr}
	}
	if isOpaqueStruct(t) {
		return []Sort{SInt}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return []Sort{SBool}
		case u.Info()&types.IsInteger != 0:
			return []Sort{SInt}
		case u.Info()&types.IsString != 0:
			return []Sort{SStr}
		case u.Kind() == types.Float64 || u.Kind() == types.UntypedFloat:
			return []Sort{SF64}
		case u.Kind() == types.Float32:
			return []Sort{SF32}
		case u.Kind() == types.UnsafePointer, u.Kind() == types.UntypedNil:
			return []Sort{SInt}
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return []Sort{SInt}
	case *types.Interface:
		return []Sort{SIface}
	case *types.Slice:
		return []Sort{SInt, SInt, SInt, SInt}
	case *types.Struct:
		var out []Sort
		for i := 0; i < u.NumFields(); i++ {
			s := sortsOf(u.Field(i).Type())
			if s == nil {
				return nil
			}
			out = append(out, s...)
		}
		return out
	}
	return nil
}

func intRange(t types.Type) (bits int, signed bool, ok bool) {
	b, isB := types.Unalias(t).Underlying().(*types.Basic)
	if !isB || b.Info()&types.IsInteger == 0 {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	}
	return 0, false, false
}

type unsupported struct{ msg string }

func unsup(f string, a ...interface{}) { panic(unsupported{fmt.Sprintf(f, a...)}) }

// isRefType reports types whose (first) component is a reference.
func isRefType(t types.Type) bool {
	if objKind(t) != "" {
		return true
	}
	switch types.Unalias(t).Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Slice:
		return true
	}
	return false
}

func isRefTag(i int64) bool {
	if t := tagType(i); t != nil {
		return isRefType(t)
	}
	n, _ := tagName(i)
	return strings.HasPrefix(n, "*") || strings.HasPrefix(n, "[") || strings.HasPrefix(n, "map[") || n == "json.Map" || n == "json.Array" || n == "json.Value"
}
