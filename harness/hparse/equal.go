package hparse

import (
	"github.com/HannesKimara/cddlc/ast"
	"github.com/HannesKimara/cddlc/token"
	"github.com/HannesKimara/cddlc/zzverif/sym"
)

// cmp compares trees; where tells if two nodes are at corresponding places.
type cmp struct {
	where func(x, y token.Position) bool
	// comments attached to rules and entries are compared too
	comments bool
}

func (c *cmp) at(x, y token.Position) {
	sym.Assert(c.where(x, y), "corresponding nodes are at corresponding places")
}

func (c *cmp) is(ok bool) {
	sym.Assert(ok, "corresponding nodes are equal")
}

func isNil(n ast.Node) bool {
	switch x := n.(type) {
	case nil:
		return true
	case *ast.UintLiteral:
		return x == nil
	case *ast.Comment:
		return x == nil
	case *ast.Identifier:
		return x == nil
	case *ast.TstrType:
		return x == nil
	case *ast.IntegerLiteral:
		return x == nil
	case *ast.FloatLiteral:
		return x == nil
	}
	return false
}

func (c *cmp) nodes(x, y ast.Node) {
	if isNil(x) || isNil(y) {
		c.is(isNil(x) && isNil(y))
		return
	}
	ok := false
	switch a := x.(type) {
	case *ast.Rule:
		var b *ast.Rule
		if b, ok = y.(*ast.Rule); ok {
			c.nodes(a.Name, b.Name)
			c.nodes(a.Value, b.Value)
			if c.comments {
				c.nodes(a.TrailingComment, b.TrailingComment)
			}
		}
	case *ast.Comment:
		var b *ast.Comment
		if b, ok = y.(*ast.Comment); ok {
			c.at(a.Pos, b.Pos)
			c.is(a.Text == b.Text)
		}
	case *ast.CommentGroup:
		var b *ast.CommentGroup
		if b, ok = y.(*ast.CommentGroup); ok {
			c.is(len(a.List) == len(b.List))
			for i := range a.List {
				c.nodes(a.List[i], b.List[i])
			}
		}
	case *ast.Group:
		var b *ast.Group
		if b, ok = y.(*ast.Group); ok {
			c.at(a.Pos, b.Pos)
			c.is(len(a.Entries) == len(b.Entries))
			for i := range a.Entries {
				c.nodes(a.Entries[i], b.Entries[i])
			}
		}
	case *ast.Array:
		var b *ast.Array
		if b, ok = y.(*ast.Array); ok {
			c.at(a.Pos, b.Pos)
			c.is(len(a.Rules) == len(b.Rules))
			for i := range a.Rules {
				c.nodes(a.Rules[i], b.Rules[i])
			}
		}
	case *ast.Map:
		var b *ast.Map
		if b, ok = y.(*ast.Map); ok {
			c.at(a.Pos, b.Pos)
			c.is(len(a.Rules) == len(b.Rules))
			for i := range a.Rules {
				c.nodes(a.Rules[i], b.Rules[i])
			}
		}
	case *ast.Entry:
		var b *ast.Entry
		if b, ok = y.(*ast.Entry); ok {
			c.at(a.Pos, b.Pos)
			c.nodes(a.Name, b.Name)
			c.nodes(a.Value, b.Value)
			if c.comments {
				c.nodes(a.TrailingComment, b.TrailingComment)
			}
		}
	case *ast.Optional:
		var b *ast.Optional
		if b, ok = y.(*ast.Optional); ok {
			c.at(a.Pos, b.Pos)
			c.nodes(a.Item, b.Item)
		}
	case *ast.NMOccurrence:
		var b *ast.NMOccurrence
		if b, ok = y.(*ast.NMOccurrence); ok {
			c.at(a.Pos, b.Pos)
			c.is(a.Token == b.Token)
			c.nodes(a.N, b.N)
			c.nodes(a.M, b.M)
			c.nodes(a.Item, b.Item)
		}
	case *ast.UintLiteral:
		var b *ast.UintLiteral
		if b, ok = y.(*ast.UintLiteral); ok {
			c.at(a.Pos, b.Pos)
			c.is(a.Literal == b.Literal)
		}
	case *ast.Unwrap:
		var b *ast.Unwrap
		if b, ok = y.(*ast.Unwrap); ok {
			c.at(a.Pos, b.Pos)
			c.nodes(a.Item, b.Item)
		}
	case *ast.Enumeration:
		var b *ast.Enumeration
		if b, ok = y.(*ast.Enumeration); ok {
			c.at(a.Pos, b.Pos)
			c.nodes(a.Value, b.Value)
		}
	case *ast.Tag:
		var b *ast.Tag
		if b, ok = y.(*ast.Tag); ok {
			c.at(a.Pos, b.Pos)
			c.nodes(a.Major, b.Major)
			c.nodes(a.TagNumber, b.TagNumber)
			c.nodes(a.Item, b.Item)
		}
	case *ast.TypeChoice:
		var b *ast.TypeChoice
		if b, ok = y.(*ast.TypeChoice); ok {
			c.at(a.Pos, b.Pos)
			c.is(a.Token == b.Token)
			c.nodes(a.First, b.First)
			c.nodes(a.Second, b.Second)
		}
	case *ast.GroupChoice:
		var b *ast.GroupChoice
		if b, ok = y.(*ast.GroupChoice); ok {
			c.at(a.Pos, b.Pos)
			c.nodes(a.First, b.First)
			c.nodes(a.Second, b.Second)
		}
	case *ast.Range:
		var b *ast.Range
		if b, ok = y.(*ast.Range); ok {
			c.at(a.Pos, b.Pos)
			c.is(a.Token == b.Token)
			c.nodes(a.From, b.From)
			c.nodes(a.To, b.To)
		}
	case *ast.SizeOperatorControl:
		var b *ast.SizeOperatorControl
		if b, ok = y.(*ast.SizeOperatorControl); ok {
			c.at(a.Pos, b.Pos)
			c.nodes(a.Type, b.Type)
			c.nodes(a.Size, b.Size)
		}
	case *ast.Regexp:
		var b *ast.Regexp
		if b, ok = y.(*ast.Regexp); ok {
			c.at(a.Pos, b.Pos)
			c.nodes(a.Base, b.Base)
			c.nodes(a.Regex, b.Regex)
		}
	case *ast.Bits:
		var b *ast.Bits
		if b, ok = y.(*ast.Bits); ok {
			c.at(a.Pos, b.Pos)
			c.nodes(a.Base, b.Base)
			c.nodes(a.Contstraint, b.Contstraint)
		}
	case *ast.ComparatorOpControl:
		var b *ast.ComparatorOpControl
		if b, ok = y.(*ast.ComparatorOpControl); ok {
			c.at(a.Pos, b.Pos)
			c.is(a.Token == b.Token)
			c.nodes(a.Left, b.Left)
			c.nodes(a.Right, b.Right)
		}
	case *ast.BadNode:
		_, ok = y.(*ast.BadNode)
	default:
		ok = c.leaf(x, y)
	}
	if !ok {
		sym.Fail("corresponding nodes are of the same kind")
	}
}

func (c *cmp) leaf(x, y ast.Node) bool {
	switch a := x.(type) {
	case *ast.Identifier:
		b, ok := y.(*ast.Identifier)
		if ok {
			c.at(a.Pos, b.Pos)
			c.is(a.Name == b.Name)
		}
		return ok
	case *ast.IntegerLiteral:
		b, ok := y.(*ast.IntegerLiteral)
		if ok {
			c.at(a.Pos, b.Pos)
			c.is(a.Literal == b.Literal)
		}
		return ok
	case *ast.FloatLiteral:
		b, ok := y.(*ast.FloatLiteral)
		if ok {
			c.at(a.Range.Start, b.Range.Start)
			c.is(a.Literal == b.Literal)
		}
		return ok
	case *ast.TextLiteral:
		b, ok := y.(*ast.TextLiteral)
		if ok {
			c.at(a.Pos, b.Pos)
			c.is(a.Literal == b.Literal)
		}
		return ok
	case *ast.BooleanLiteral:
		b, ok := y.(*ast.BooleanLiteral)
		if ok {
			c.at(a.Range.Start, b.Range.Start)
			c.is(a.Bool == b.Bool)
		}
		return ok
	case *ast.BooleanType:
		b, ok := y.(*ast.BooleanType)
		if ok {
			c.at(a.Pos, b.Pos)
		}
		return ok
	case *ast.IntegerType:
		b, ok := y.(*ast.IntegerType)
		if ok {
			c.at(a.Pos, b.Pos)
			c.is(a.Token == b.Token)
		}
		return ok
	case *ast.UintType:
		b, ok := y.(*ast.UintType)
		if ok {
			c.at(a.Range.Start, b.Range.Start)
		}
		return ok
	case *ast.NegativeIntegerType:
		b, ok := y.(*ast.NegativeIntegerType)
		if ok {
			c.at(a.Pos, b.Pos)
		}
		return ok
	case *ast.FloatType:
		b, ok := y.(*ast.FloatType)
		if ok {
			c.at(a.Pos, b.Pos)
			c.is(a.Token == b.Token)
		}
		return ok
	case *ast.TstrType:
		b, ok := y.(*ast.TstrType)
		if ok {
			c.at(a.Pos, b.Pos)
			c.is(a.Token == b.Token)
		}
		return ok
	case *ast.BytesType:
		b, ok := y.(*ast.BytesType)
		if ok {
			c.at(a.Pos, b.Pos)
		}
		return ok
	case *ast.BstrType:
		b, ok := y.(*ast.BstrType)
		if ok {
			c.at(a.Pos, b.Pos)
		}
		return ok
	case *ast.NullType:
		b, ok := y.(*ast.NullType)
		if ok {
			c.at(a.Pos, b.Pos)
			c.is(a.Token == b.Token)
		}
		return ok
	}
	return false
}
