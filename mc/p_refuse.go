package main

// Calls that are refused for what they carry, not for where they stand.

import (
	"fmt"

	xw "github.com/shabbyrobe/xmlwriter"
)

// badNodes is every way in which a node can be refused for its own values,
// through every entry point. It has good parts around the bad ones, so that a
// node which is refused half way would show.
func badNodes() []Op {
	long := make([]xw.Attr, 12)
	for i := range long {
		long[i] = xw.Attr{Prefix: fmt.Sprintf("q%d", i), URI: "u", Name: "a", Value: "v"}
	}
	starts := []xw.Startable{
		xw.Elem{}, xw.Elem{Name: "a b"}, xw.Elem{Prefix: "b d", Name: "x"}, xw.Elem{Prefix: "p", URI: "pu", Name: "x>"},
		xw.Elem{Name: "x", Attrs: []xw.Attr{{Name: "ok", Value: "v"}, {Name: "b d"}}},
		xw.Elem{Name: "x", Attrs: []xw.Attr{{Name: ""}}},
		xw.Elem{Name: "x", Attrs: []xw.Attr{{Name: "ok"}, {URI: "u", Name: "nopfx"}}},
		xw.Elem{Name: "x", Attrs: []xw.Attr{{Prefix: "p", URI: "u", Name: "ok"}, {Prefix: "p", URI: "v", Name: "x"}}},
		xw.Elem{Prefix: "p", URI: "u", Name: "x", Attrs: []xw.Attr{{Prefix: "p", URI: "v", Name: "x"}}},
		xw.Elem{Name: "x", Full: true, Attrs: append(append([]xw.Attr{}, long...), xw.Attr{Prefix: "q3", URI: "other", Name: "b"})},
		xw.Elem{Name: "<", Full: true, Content: []xw.Writable{xw.Text("t")}},
		xw.Comment{Content: "a--b"}, xw.Comment{Content: "a\x01b"}, xw.Comment{Content: "a\xffb"}, xw.Comment{Content: "\u0080"},
		xw.CData{Content: "a]]>b"}, xw.CData{Content: "a\x01b"}, xw.CData{Content: "a\xffb"}, xw.CData{Content: "\u0080"},
		xw.DTD{}, xw.DTD{Name: "a b"}, xw.DTD{Name: "n", PublicID: "p"}, xw.DTD{Name: "n", PublicID: "é", SystemID: "s"}, xw.DTD{Name: "n", SystemID: `'"`}, xw.DTD{Name: "n", SystemID: "\x01"},
		xw.Doc{}.ForceEncoding("1bad"), xw.Doc{}.ForceEncoding("a b").WithStandalone(true),
		xw.DTDAttList{}, xw.DTDAttList{Name: "a b"}, xw.DTDAttList{Name: "l", Attrs: []xw.DTDAttr{{Name: "ok", Type: xw.DTDAttrID}, {Name: "b d", Type: xw.DTDAttrID}}},
		xw.DTDAttList{Name: "l", Attrs: []xw.DTDAttr{{Name: "ok", Type: xw.DTDAttrID}, {Name: "x"}}},
		xw.DTDAttList{Name: "l", Attrs: []xw.DTDAttr{{Name: "ok", Type: xw.DTDAttrID}, {Name: "x", Type: xw.DTDAttrID, Default: xw.DTDAttrRequired, Value: "v"}}},
	}
	writes := []xw.Writable{
		xw.Attr{}, xw.Attr{Name: "a b", Value: "v"}, xw.Attr{Prefix: "px", URI: "pu", Name: "a b"}, xw.Attr{Prefix: "p x", URI: "pu", Name: "a"}, xw.Attr{URI: "pu", Name: "a"}, xw.Attr{Prefix: "px", URI: "pu"},
		xw.PI{Target: "a b"}, xw.PI{Target: "xMl", Content: "c"}, xw.PI{Target: "t", Content: "a?>b"}, xw.PI{Target: "t", Content: "\x01"},
		xw.Elem{Name: "a b"}, xw.Elem{Name: "x", Attrs: []xw.Attr{{Name: "ok"}, {Name: "b d"}}, Content: []xw.Writable{xw.Text("t")}},
		xw.Comment{Content: "a--b"}, xw.Comment{Content: "ends-"}, xw.Comment{Content: "-"}, xw.Comment{Content: "\x01"}, xw.CData{Content: "]]>"}, xw.CData{Content: "\x01"},
		xw.CommentContent("--"), xw.CommentContent("\x01"), xw.CDataContent("x]]>"), xw.CDataContent("\x01"),
		xw.DTDElem{}, xw.DTDElem{Name: "n"}, xw.DTDElem{Name: "a b", Decl: "ANY"},
		xw.DTDEntity{}, xw.DTDEntity{Name: "a b", Content: "v"}, xw.DTDEntity{Name: "n", Content: `'"`}, xw.DTDEntity{Name: "n", Content: "\x01"}, xw.DTDEntity{Name: "n", Content: "c", SystemID: "s"},
		xw.DTDEntity{Name: "n", PublicID: "p"}, xw.DTDEntity{Name: "n", PublicID: "é", SystemID: "s"}, xw.DTDEntity{Name: "n", SystemID: `'"`}, xw.DTDEntity{Name: "n", NDataID: "d"},
		xw.DTDEntity{Name: "n", SystemID: "s", NDataID: "a b"}, xw.DTDEntity{Name: "n", SystemID: "s", IsPE: true, NDataID: "d"},
		xw.DTDAttr{}, xw.DTDAttr{Name: "n"}, xw.DTDAttr{Name: "a b", Type: xw.DTDAttrID}, xw.DTDAttr{Name: "n", Type: xw.DTDAttrID, Default: 9},
		xw.DTDAttr{Name: "n", Type: xw.DTDAttrID, Default: xw.DTDAttrRequired, Value: "v"}, xw.DTDAttr{Name: "n", Type: xw.DTDAttrID, Default: xw.DTDAttrImplied, Value: "v"},
		xw.DTDAttList{Name: "a b"}, xw.DTDAttList{Name: "l", Attrs: []xw.DTDAttr{{Name: "ok", Type: xw.DTDAttrID}, {}}},
		xw.Notation{}, xw.Notation{Name: "n"}, xw.Notation{Name: "a b", SystemID: "s"}, xw.Notation{Name: "n", PublicID: "é"}, xw.Notation{Name: "n", PublicID: "é", SystemID: "s"}, xw.Notation{Name: "n", PublicID: "p", SystemID: `'"`}, xw.Notation{Name: "n", SystemID: "\x01"},
	}
	var out []Op
	for _, s := range starts {
		out = append(out, opStart(s), opStartX(s))
	}
	for _, n := range writes {
		out = append(out, opWrite(n), opWriteX(n))
	}
	return out
}

// alphaRefuse mixes calls that are refused for their values with ordinary ones.
func alphaRefuse(i int) []Op {
	k := func(s string) string { return fmt.Sprintf("%s%d", s, i) }
	return []Op{
		opStart(xw.Elem{Name: k("e")}),
		opWrite(xw.Attr{Name: k("a"), Value: "v"}),
		opWrite(xw.Attr{Prefix: "p", URI: k("u"), Name: k("n")}),
		opWrite(xw.Text(k("t"))),
		opWrite(xw.Comment{Content: k("c")}),
		opWrite(xw.DTDElem{Name: k("de"), Decl: "ANY"}),
		opStart(xw.DTDAttList{Name: k("l")}),
		opStart(xw.CData{}),
		opEndAny(),
		opStart(xw.Elem{Name: "a b"}),
		opWriteX(xw.Elem{Name: "x", Attrs: []xw.Attr{{Name: "ok"}, {Name: "b d"}}}),
		opWrite(xw.Attr{Prefix: "p", URI: "bad", Name: "b d"}),
		opWrite(xw.Attr{Prefix: "p", URI: "other", Name: k("o")}),
		opWriteX(xw.Comment{Content: "x--y"}),
		opWrite(xw.Comment{Content: "x-"}),
		opStartX(xw.CData{Content: "]]>"}),
		opWrite(xw.CDataContent("]]>")),
		opWrite(xw.PI{Target: "xml"}),
		opStart(xw.DTD{Name: "d", PublicID: "p"}),
		opWrite(xw.DTDEntity{Name: "n", Content: "c", SystemID: "s"}),
		opWrite(xw.DTDAttr{Name: "n", Type: xw.DTDAttrID, Default: xw.DTDAttrRequired, Value: "v"}),
		opStart(xw.DTDAttList{Name: "l", Attrs: []xw.DTDAttr{{Name: "ok", Type: xw.DTDAttrID}, {Name: "b d", Type: xw.DTDAttrID}}}),
		opWrite(xw.Notation{Name: "n", PublicID: "é"}),
		opStart(xw.Doc{}.ForceEncoding("1")),
		opEnd(xw.ElemNode, "wrong"),
		opEndElemFull("wrong"),
		opEndScope(0, xw.PINode),
		opEndDoc(),
	}
}

var refusePrefixes = [][]Op{nil, {opStart(xw.Doc{}), opStart(xw.Elem{Name: "root"})}, {opStart(xw.Doc{}), opStart(xw.DTD{Name: "r"})}}

// refusalsPart explores histories full of refusals.
func refusalsPart(th bool, judge func(ops []Op, r *runResult) error) Part {
	return Part{"refusals", fmt.Sprintf("every sequence of up to %d calls that mixes ordinary calls with calls refused for their values, at the top, in an element and in a DTD", pick(th, 3, 4)), func(c *Ctx) {
		for _, pre := range refusePrefixes {
			c.sequences(seqOpts{depth: pick(th, 3, 4), judge: judge, prefix: pre}, alphaRefuse)
		}
	}}
}

// compoundPart: nodes that carry other nodes, some of which are refused when
// their turn comes. The node may have been written up to there; what is there
// must be well formed once everything is closed.
func compoundPart(th bool) Part {
	alpha := func(i int) []Op {
		k := func(s string) string { return fmt.Sprintf("%s%d", s, i) }
		do := func(d string, f func(w *xw.Writer) error) Op { return Op{Desc: d, Do: f} }
		bad := xw.Elem{Name: k("x"), Content: []xw.Writable{xw.Text("t"), xw.Comment{Content: "a--b"}, xw.Text("u")}}
		deep := xw.Elem{Name: k("y"), Content: []xw.Writable{xw.Elem{Name: "in", Content: []xw.Writable{xw.Elem{Name: "q", Attrs: []xw.Attr{{Name: "b d"}}}}}, xw.Text("after")}}
		kind := xw.Elem{Name: k("z"), Attrs: []xw.Attr{{Name: "a"}}, Content: []xw.Writable{xw.Text("t"), xw.PI{Target: "p"}}}
		out := []Op{
			opStart(bad), opWriteX(bad), opStart(deep), opWrite(deep), opWrite(kind), opStart(kind),
			opBlock(xw.Elem{Name: k("b")}, xw.Attr{Name: "a"}, xw.Attr{Name: "b d"}, xw.Text("t")),
			opBlock(xw.Elem{Name: k("b")}, xw.Text("t"), xw.Attr{Name: "late"}),
			opBlock(xw.Comment{}, xw.CommentContent("a-"), xw.CommentContent("-b")),
			opBlock(xw.CData{Content: "]"}, xw.CDataContent("]"), xw.CDataContent(">")),
			do("w.Write(Text, bad PI, Text)", func(w *xw.Writer) error { return w.Write(xw.Text("t"), xw.PI{Target: "xml"}, xw.Text("u")) }),
			do("w.Start(Elem, bad Elem, Elem)", func(w *xw.Writer) error {
				return w.Start(xw.Elem{Name: k("s")}, xw.Elem{Name: "a b"}, xw.Elem{Name: "never"})
			}),
			do("w.WriteAttr(good, bad, good)", func(w *xw.Writer) error {
				return w.WriteAttr(xw.Attr{Name: k("g")}, xw.Attr{Name: "b d"}, xw.Attr{Name: k("h")})
			}),
			opEndAny(), opEndElem(), opEndElemFull(), opEndScope(1, xw.ElemNode), opEndScope(2, xw.ElemNode), opNext(),
			opWrite(xw.Text("t")), opWrite(xw.Attr{Name: k("a")}), opWrite(xw.Elem{Name: k("w")}), opWrite(xw.CommentContent("m")), opWrite(xw.CDataContent(">")),
		}
		return out
	}
	return Part{"compound-refusals", fmt.Sprintf("every sequence of up to %d calls over nodes that carry a refused node somewhere inside: whatever was refused half way, the document is well formed if it can be closed", pick(th, 3, 4)), func(c *Ctx) {
		depth := pick(th, 3, 4)
		alphas := make([][]Op, depth)
		for i := range alphas {
			alphas[i] = alpha(i)
		}
		var rec func(seq []Op)
		rec = func(seq []Op) {
			if c.Stop() {
				return
			}
			if len(seq) > 0 && c.Take() {
				ops := append([]Op{opStart(xw.Elem{Name: "root"})}, seq...)
				c.Run(func() string { return descOps(ops) }, func() error {
					var s sink
					w := xw.Open(&s)
					errs := 0
					for _, o := range ops {
						if o.Do(w) != nil {
							errs++
						}
					}
					c.res.Traces++
					if err := w.EndAllFlush(); err != nil {
						// content that cannot be ended stays open: the caller has been told
						for i := 0; i < 8 && err != nil; i++ {
							w.WriteCommentContent(".")
							err = w.EndAllFlush()
						}
						if err != nil {
							return fmt.Errorf("cannot be closed: %v", err)
						}
					}
					c.Outcome(s.String())
					if _, err := parseFragment(s.String()); err != nil {
						return fmt.Errorf("%v (after %d refusals)\noutput: %q", err, errs, clip(s.String()))
					}
					return nil
				})
			}
			if len(seq) == depth {
				return
			}
			for _, o := range alphas[len(seq)] {
				rec(append(seq[:len(seq):len(seq)], o))
			}
		}
		rec(nil)
	}}
}
