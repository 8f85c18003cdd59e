package main

// Alphabets of calls.

import (
	"fmt"

	xw "github.com/shabbyrobe/xmlwriter"
)

// alphaFull is the broad alphabet: every kind of node, every kind of end. The
// position i makes names and values distinct so that order is observable.
func alphaFull(i int) []Op {
	k := func(s string) string { return fmt.Sprintf("%s%d", s, i) }
	return []Op{
		opStart(xw.Elem{Name: k("e")}),
		opWriteX(xw.Text(k("t<&>\"'"))),
		opWriteX(xw.Attr{Name: k("a"), Value: k("<&\">'")}),
		opEndX(xw.ElemNode),
		opStart(xw.Doc{}),
		opStartX(xw.Comment{}),
		opWrite(xw.CommentContent(k("m"))),
		opEndX(xw.CommentNode),
		opStartX(xw.CData{}),
		opWrite(xw.CDataContent(k("]]&<d"))),
		opEndX(xw.CDataNode),
		opWriteX(xw.Comment{Content: k("c")}),
		opWriteX(xw.CData{Content: k("]")}),
		opWriteX(xw.PI{Target: k("p"), Content: k("x='")}),
		opWriteX(xw.Elem{Name: k("w"), Attrs: []xw.Attr{{Name: "q", Value: k("v")}}, Content: []xw.Writable{xw.Elem{Name: k("in")}, xw.Text(k("&"))}}),
		opStart(xw.DTD{Name: k("d")}),
		opStart(xw.DTDAttList{Name: k("l")}),
		opWriteX(xw.DTDAttr{Name: k("x"), Type: xw.DTDAttrString, Value: k("\"<")}),
		opWriteX(xw.DTDElem{Name: k("de"), Decl: "(#PCDATA|b)*"}),
		opWriteX(xw.DTDEntity{Name: k("en"), Content: k("\"")}),
		opWriteX(xw.Notation{Name: k("no"), PublicID: k("pub"), SystemID: k("'")}),
		opWriteX(xw.DTDAttList{Name: k("al"), Attrs: []xw.DTDAttr{{Name: "y", Type: xw.DTDAttrID, Default: xw.DTDAttrRequired}}}),
		opEndX(xw.DTDNode),
		opEndX(xw.DTDAttListNode),
		opEndDoc(),
		opEndAny(),
		opNext(),
		opEndElemFull(),
		opStart(xw.Elem{Prefix: "p", URI: k("u"), Name: k("n"), Attrs: []xw.Attr{{Prefix: "z", URI: "zz", Name: "a"}}}),
		opStart(xw.Elem{Name: k("s"), Content: []xw.Writable{xw.Comment{Content: k("cc")}, xw.CData{Content: k("cd")}}}),
		opEndAll(),
		opStart(xw.Comment{Content: k("-c")}),
		opStart(xw.CData{Content: k("d]]")}),
		opWriteX(xw.Text("")),
		opWrite(xw.CommentContent("-")),
		opWrite(xw.CDataContent(">")),
		opFlush(),
	}
}

// alphaTree is the element-content alphabet, for deeper exploration.
func alphaTree(i int) []Op {
	k := func(s string) string { return fmt.Sprintf("%s%d", s, i) }
	return []Op{
		opStartX(xw.Elem{Name: k("e")}),
		opWriteX(xw.Text(k("t&"))),
		opWriteX(xw.Attr{Name: k("a"), Value: k("\n<")}),
		opEndX(xw.ElemNode),
		opWrite(xw.Elem{Name: k("w"), Content: []xw.Writable{xw.Elem{Name: "c"}}}),
		opWriteX(xw.Comment{Content: k("c")}),
		opWriteX(xw.CData{Content: k("d]")}),
		opWriteX(xw.PI{Target: k("p")}),
		opEndElemFull(),
		opStart(xw.Elem{Name: k("s"), Attrs: []xw.Attr{{Name: "b", Value: "1"}}, Content: []xw.Writable{xw.Text(k("x"))}}),
		opNext(),
	}
}

// alphaDTD is the markup-declaration alphabet.
func alphaDTD(i int) []Op {
	k := func(s string) string { return fmt.Sprintf("%s%d", s, i) }
	return []Op{
		opStartX(xw.DTD{Name: k("d")}),
		opStartX(xw.DTD{Name: k("d"), PublicID: k("pub"), SystemID: k("sys")}),
		opStartX(xw.DTDAttList{Name: k("l")}),
		opWrite(xw.DTDAttr{Name: k("x"), Type: xw.DTDAttrString, Value: k("<\"&")}),
		opWrite(xw.DTDAttr{Name: k("f"), Type: xw.DTDAttrNmtoken, Default: xw.DTDAttrFixed, Value: k("v")}),
		opWrite(xw.DTDElem{Name: k("de"), Decl: xw.DTDElemEmpty}),
		opWrite(xw.DTDEntity{Name: k("en"), IsPE: true, SystemID: k("s")}),
		opWrite(xw.Notation{Name: k("no"), PublicID: k("pub")}),
		opWriteX(xw.Comment{Content: k("c")}),
		opStart(xw.DTDAttList{Name: k("al"), Attrs: []xw.DTDAttr{{Name: "y", Type: xw.DTDAttrID}, {Name: "z", Type: xw.DTDAttrIDRef}}}),
		opEndX(xw.DTDNode),
		opEndX(xw.DTDAttListNode),
		opNext(),
		opEndAny(),
		opWriteX(xw.Elem{Name: k("r")}),
		opStartX(xw.Comment{Content: k("oc")}),
		opEndDoc(),
		opEndAll(),
	}
}

// alphaContent drives comment and CDATA sections in pieces.
func alphaContent(i int) []Op {
	return []Op{
		opStartX(xw.Comment{}),
		opStart(xw.Comment{Content: "-"}),
		opStart(xw.Comment{Content: "a-"}),
		opWriteX(xw.CommentContent("-")),
		opWriteX(xw.CommentContent("b")),
		opWriteX(xw.CommentContent("")),
		opWriteX(xw.CommentContent(">-")),
		opWriteX(xw.CommentContent("--")),
		opEndX(xw.CommentNode),
		opStartX(xw.CData{}),
		opStart(xw.CData{Content: "]"}),
		opStart(xw.CData{Content: "]]"}),
		opWriteX(xw.CDataContent("]")),
		opWriteX(xw.CDataContent("]]")),
		opWriteX(xw.CDataContent(">")),
		opWriteX(xw.CDataContent("")),
		opWriteX(xw.CDataContent("]]>")),
		opWriteX(xw.CDataContent("]>")),
		opEndX(xw.CDataNode),
		opEndAny(),
		opNext(),
		opStartX(xw.Elem{Name: "e"}),
		opEndAll(),
	}
}
