package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"path/filepath"
)

// dropFuncs blanks the top-level declarations of a contract file that contain type errors (the current tree no longer has
// what they refer to). The remaining functions keep their line numbers.
func dropFuncs(file string, src []byte, bad map[int]string) ([]byte, []string) {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, file, src, parser.ParseComments)
	if err != nil {
		return []byte("package x_broken\n"), []string{file + ": " + err.Error()}
	}
	out := append([]byte{}, src...)
	var names []string
	hit := map[int]bool{}
	for _, d := range f.Decls {
		p0, p1 := d.Pos(), d.End()
		name := "declaration"
		if fd, ok := d.(*ast.FuncDecl); ok {
			name = fd.Name.Name
			if fd.Doc != nil {
				p0 = fd.Doc.Pos()
			}
		}
		if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.IMPORT {
			continue
		}
		l0, l1 := fs.Position(p0).Line, fs.Position(p1).Line
		msg := ""
		for l, m := range bad {
			if l >= l0 && l <= l1 {
				msg = m
				hit[l] = true
			}
		}
		if msg == "" {
			continue
		}
		names = append(names, name+": "+msg)
		for i := fs.Position(p0).Offset; i < fs.Position(p1).Offset; i++ {
			if out[i] != '\n' {
				out[i] = ' '
			}
		}
	}
	for l, m := range bad {
		if hit[l] {
			continue
		}
		// unused import: blank the import
		done := false
		for _, im := range f.Imports {
			if fs.Position(im.Pos()).Line == l {
				for i := fs.Position(im.Pos()).Offset; i < fs.Position(im.End()).Offset; i++ {
					out[i] = ' '
				}
				// keep a syntactically valid import spec
				done = true
			}
		}
		if !done {
			return []byte("package " + f.Name.Name + "\n"), []string{fmt.Sprintf("%s:%d: %s", filepath.Base(file), l, m)}
		}
	}
	return out, names
}

func isFunc(d ast.Decl) (*ast.FuncDecl, bool) { f, ok := d.(*ast.FuncDecl); return f, ok }
