package main

// C08 depth and width, C09 structured = procedural, C10 namespaces, C26 short
// and full forms.

import (
	"fmt"
	"strings"

	xw "github.com/shabbyrobe/xmlwriter"
)

// --- trees ------------------------------------------------------------------

// tnode is a document tree that can be written in several styles.
type tnode struct {
	kind string // elem text comment cdata
	elem xw.Elem
	text string
	kids []*tnode
	end  string // procedural end style
}

func (t *tnode) structured() xw.Writable {
	switch t.kind {
	case "text":
		return xw.Text(t.text)
	case "comment":
		return xw.Comment{Content: t.text}
	case "cdata":
		return xw.CData{Content: t.text}
	}
	e := t.elem
	e.Content = nil
	if len(e.Name) > 0 && e.Name[0] == 'f' {
		e.Content = []xw.Writable{}
	}
	for _, k := range t.kids {
		e.Content = append(e.Content, k.structured())
	}
	return e
}

func (t *tnode) canonical(b *strings.Builder) {
	switch t.kind {
	case "elem":
		fmt.Fprintf(b, "<%s %d %v>", t.elem.Name, len(t.elem.Attrs), t.elem.Full)
		for _, k := range t.kids {
			k.canonical(b)
		}
		b.WriteString("</>")
	default:
		b.WriteString(t.kind + t.text)
	}
}

// style picks how each element is written; the k-th element in document order
// uses code/base^k % base.
const nStyles = 5 // structured, procedural, block, attrs-separately, generic

func (t *tnode) write(w *xw.Writer, styles []int, next *int) error {
	switch t.kind {
	case "text":
		if len(styles) > 0 && styles[0]%2 == 1 {
			return w.Write(xw.Text(t.text))
		}
		return w.WriteText(t.text)
	case "comment":
		if len(styles) > 0 && styles[0]%2 == 1 {
			if err := w.StartComment(xw.Comment{}); err != nil {
				return err
			}
			if err := w.WriteCommentContent(t.text); err != nil {
				return err
			}
			return w.EndComment()
		}
		return w.WriteComment(xw.Comment{Content: t.text})
	case "cdata":
		if len(styles) > 0 && styles[0]%2 == 1 {
			if err := w.StartCData(xw.CData{}); err != nil {
				return err
			}
			if err := w.WriteCDataContent(t.text); err != nil {
				return err
			}
			return w.EndCData()
		}
		return w.WriteCData(xw.CData{Content: t.text})
	}
	st := styles[*next]
	*next++
	skip := func() { *next += t.elems() - 1 }
	switch st {
	case 0:
		skip()
		return w.WriteElem(t.structured().(xw.Elem))
	case 1:
		if err := w.StartElem(t.elem); err != nil {
			return err
		}
		for _, k := range t.kids {
			if err := k.write(w, styles, next); err != nil {
				return err
			}
		}
		return w.EndElem(t.elem.Name)
	case 2:
		skip()
		var ks []xw.Writable
		for _, k := range t.kids {
			ks = append(ks, k.structured())
		}
		return w.Block(t.elem, ks...)
	case 3:
		e := t.elem
		e.Attrs, e.Full = nil, false
		if err := w.Start(e); err != nil {
			return err
		}
		for _, a := range t.elem.Attrs {
			if err := w.WriteAttr(a); err != nil {
				return err
			}
		}
		for _, k := range t.kids {
			if err := k.write(w, styles, next); err != nil {
				return err
			}
		}
		if t.elem.Full {
			return w.EndElemFull()
		}
		return w.EndAny()
	case 4:
		skip()
		e := t.structured().(xw.Elem)
		if err := w.Start(e); err != nil {
			return err
		}
		return w.End(xw.ElemNode, e.Prefix, e.Name)
	}
	panic("style")
}

func (t *tnode) elems() int {
	if t.kind != "elem" {
		return 0
	}
	n := 1
	for _, k := range t.kids {
		n += k.elems()
	}
	return n
}

// forests enumerates every ordered forest with exactly n nodes, at most width
// kids per node.
func forests(n int, leaf func(i int) []*tnode, elem func(i int) []xw.Elem, f func(kids []*tnode)) {
	// id makes names distinct in document order
	var build func(n, id int, f func(kids []*tnode, id int))
	build = func(n, id int, f func(kids []*tnode, id int)) {
		if n == 0 {
			f(nil, id)
			return
		}
		// first node: a leaf, or an element over k nodes
		for _, l := range leaf(id) {
			l := l
			build(n-1, id+1, func(rest []*tnode, id2 int) {
				f(append([]*tnode{l}, rest...), id2)
			})
		}
		for _, e := range elem(id) {
			e := e
			for k := 0; k <= n-1; k++ {
				k := k
				build(k, id+1, func(kids []*tnode, id2 int) {
					kk := append([]*tnode{}, kids...)
					build(n-1-k, id2, func(rest []*tnode, id3 int) {
						f(append([]*tnode{{kind: "elem", elem: e, kids: kk}}, rest...), id3)
					})
				})
			}
		}
	}
	build(n, 0, func(kids []*tnode, _ int) { f(kids) })
}

func leaves(i int) []*tnode {
	return []*tnode{{kind: "text", text: fmt.Sprintf("t%d&", i)}, {kind: "comment", text: fmt.Sprintf("c%d", i)}, {kind: "cdata", text: fmt.Sprintf("d%d", i)}}
}

func elemsFor(i int) []xw.Elem {
	return []xw.Elem{
		{Name: fmt.Sprintf("e%d", i)},
		{Name: fmt.Sprintf("f%d", i), Prefix: "p", URI: "u", Full: true, Attrs: []xw.Attr{{Name: "a", Value: "<"}, {Prefix: "q", URI: "v", Name: "b", Value: "1"}}},
	}
}

func init() {
	register(&Prop{ID: "C08", Level: "model_checking",
		Rule:        "every depth and width up to the bound, one at a time (the only dimension varied), against the reference model; non-trivial = a distinct output",
		Assumptions: []string{"beyond the stated depth and width the node stack and namespace lists grow by the same code"},
		Parts: func(th bool) []Part {
			max := pick(th, 150, 600)
			return []Part{
				{"depth-x-call", fmt.Sprintf("every depth 0..%d reached by plain Starts, then every call of the full alphabet, then everything closed", max), func(c *Ctx) {
					for d := 0; d <= max; d++ {
						for ai, o := range alphaFull(0) {
							d, o, ai := d, o, ai
							if !c.Take() {
								continue
							}
							c.Run(func() string { return fmt.Sprintf("%d open elements; %s", d, o.Desc) }, func() error {
								var ops []Op
								for i := 0; i < d; i++ {
									ops = append(ops, opStartX(xw.Elem{Name: fmt.Sprintf("n%d", i)}))
								}
								ops = append(ops, o)
								r, err := runOps(ops, &Setup{})
								if err != nil {
									return err
								}
								c.res.Traces++
								c.State(fmt.Sprint(d))
								c.Trans(fmt.Sprint(d), fmt.Sprint(ai))
								c.Outcome(r.Out)
								if r.Poisoned {
									return nil
								}
								return checkTree(r, true)
							})
						}
					}
				}},
				{"depth-styles", "every depth reached in nine ways: with attributes, text between levels, prefixes, nested structured Content hanging at each depth, ended by EndElem(name)/EndAny/EndAll/EndToDepth", func(c *Ctx) {
					for d := 1; d <= max; d++ {
						for style := 0; style < 9; style++ {
							for endStyle := 0; endStyle < 5; endStyle++ {
								d, style, endStyle := d, style, endStyle
								c.Case(func() string { return fmt.Sprintf("depth %d, start style %d, end style %d", d, style, endStyle) }, func() error {
									var ops []Op
									nm := func(i int) string { return fmt.Sprintf("n%d", i) }
									base := 0
									if style == 5 {
										ops = append(ops, opStart(xw.Doc{}))
										base = 1
									}
									for i := 0; i < d; i++ {
										e := xw.Elem{Name: nm(i)}
										switch style {
										case 1:
											e.Attrs = []xw.Attr{{Name: "a", Value: nm(i)}, {Prefix: "z", URI: nm(i), Name: "b"}}
										case 2:
											e.Prefix, e.URI = "p", nm(i)
										case 3:
											e.Content = []xw.Writable{xw.Text("x"), xw.Elem{Name: "k", Content: []xw.Writable{xw.Elem{Name: "kk"}, xw.Comment{Content: nm(i)}}}, xw.CData{Content: "y"}}
										case 4:
											e.Full = i%2 == 0
										case 8:
											if i == d-1 {
												var in xw.Elem
												for j := 0; j < 20; j++ {
													in = xw.Elem{Name: fmt.Sprintf("in%d", j), Content: []xw.Writable{in}}
													if j == 0 {
														in.Content = nil
													}
												}
												e.Content = []xw.Writable{in, xw.Text("t"), in}
											}
										}
										ops = append(ops, opStartX(e))
										switch style {
										case 6:
											ops = append(ops, opWriteX(xw.Text(nm(i))))
										case 7:
											ops = append(ops, opWriteX(xw.Attr{Name: "a", Value: nm(i)}), opWriteX(xw.Comment{Content: nm(i)}), opWrite(xw.Elem{Name: "w"}))
										}
									}
									switch endStyle {
									case 1:
										for i := d - 1; i >= 0; i-- {
											ops = append(ops, opEndElem(nm(i)))
										}
									case 2:
										for i := d - 1; i >= 0; i-- {
											ops = append(ops, opEndAny(), opFlush())
										}
									case 3:
										ops = append(ops, opEndScope(base+d/2, xw.ElemNode, nm(d/2)), opEndAll())
									case 4:
										ops = append(ops, opEndScope(base, xw.ElemNode, nm(0)), opWrite(xw.Comment{Content: "end"}))
									}
									r, err := runOps(ops, &Setup{})
									if err != nil {
										return err
									}
									c.res.Traces++
									c.Outcome(r.Out)
									return checkTree(r, true)
								})
							}
						}
					}
				}},
				{"great-depths", "depths around every power of two from 256 up (styles and ends as above, and then every call)", func(c *Ctx) {
					var ds []int
					for p := 256; p <= pick(th, 4096, 65536); p *= 2 {
						ds = append(ds, p-1, p, p+1)
					}
					ds = append(ds, 65537)
					for _, d := range ds {
						al := alphaFull(0)
						for ai := -6; ai < len(al); ai++ {
							d, ai := d, ai
							if d > 5000 && ai >= 4 && !th {
								continue
							}
							c.Case(func() string { return fmt.Sprintf("%d open elements, then #%d", d, ai) }, func() error {
								ops := make([]Op, 0, d+4)
								nm := func(i int) string { return fmt.Sprintf("n%d", i%1000) }
								for i := 0; i < d; i++ {
									e := xw.Elem{Name: nm(i)}
									if ai == -1 && i%3 == 0 {
										e.Prefix, e.URI = "p", "u"
									}
									ops = append(ops, opStartX(e))
									if ai == -2 {
										ops = append(ops, opWriteX(xw.Text("x")))
									}
								}
								switch {
								case ai >= 0:
									ops = append(ops, al[ai])
								case ai == -3:
									for i := d - 1; i >= 0; i-- {
										ops = append(ops, opEndElem(nm(i)), opWriteX(xw.Comment{Content: "c"}))
									}
								case ai == -4:
									ops = append(ops, opEndScope(d/2, xw.ElemNode, nm(d/2)), opWriteX(xw.Elem{Name: "after"}), opEndScope(d/3, xw.ElemNode, nm(d/3)))
								case ai == -5:
									ops = append(ops, opEndAny(), opEndElemFull(), opWrite(xw.Elem{Name: "w", Content: []xw.Writable{xw.Elem{Name: "x"}}}), opEndAll(), opWrite(xw.Elem{Name: "again"}))
								case ai == -6:
									ops = append(ops, opEndElem("wrong"), opEndScope(1, xw.ElemNode, nm(1)))
								}
								r, err := runOps(ops, &Setup{})
								if err != nil {
									return err
								}
								c.res.Traces++
								c.Outcome(r.Out)
								c.State(fmt.Sprint(d))
								c.Trans(fmt.Sprint(d), fmt.Sprint(ai))
								if r.Poisoned {
									return nil
								}
								return checkTree(r, true)
							})
						}
					}
				}},
				{"content-at-depth", "structured Content of every depth 1..40 written at every stack depth 0..40", func(c *Ctx) {
					for base := 0; base <= 40; base++ {
						for d := 1; d <= 40; d++ {
							base, d := base, d
							c.Case(func() string { return fmt.Sprintf("%d open elements, then Elem with Content nested %d deep", base, d) }, func() error {
								var in []xw.Writable
								for j := d; j > 0; j-- {
									in = []xw.Writable{xw.Text("a"), xw.Elem{Name: fmt.Sprintf("c%d", j), Content: in}, xw.Comment{Content: "b"}}
								}
								var ops []Op
								for i := 0; i < base; i++ {
									ops = append(ops, opStartX(xw.Elem{Name: fmt.Sprintf("n%d", i)}))
								}
								ops = append(ops, opStart(xw.Elem{Name: "top", Content: in}), opWrite(xw.Elem{Name: "s"}), opEndElem("top"), opWriteX(xw.Elem{Name: "w", Content: in}))
								r, err := runOps(ops, &Setup{})
								if err != nil {
									return err
								}
								c.res.Traces++
								c.Outcome(r.Out)
								return checkTree(r, true)
							})
						}
					}
				}},
				{"width", fmt.Sprintf("every number 0..%d (and around powers of two beyond) of siblings, attributes, prefixes, attribute declarations, declarations, chunks, mixed content and top-level nodes", 2*max), func(c *Ctx) {
					ns := append(sweepLens(2*max, pick(th, 4096, 65536)), 32767, 32768, 32769, 65535, 65536, 65537)
					for _, n := range ns {
						for kind := 0; kind < 9; kind++ {
							if n > 2000 && (kind == 1 || kind == 2) {
								continue // the model compares every pair of attributes
							}
							n, kind := n, kind
							c.Case(func() string { return fmt.Sprintf("width %d kind %d", n, kind) }, func() error {
								var ops []Op
								nm := func(i int) string { return fmt.Sprintf("n%d", i) }
								switch kind {
								case 0:
									ops = append(ops, opStart(xw.Elem{Name: "r"}))
									for i := 0; i < n; i++ {
										ops = append(ops, opWriteX(xw.Elem{Name: nm(i)}))
									}
								case 1:
									var as []xw.Attr
									for i := 0; i < n; i++ {
										as = append(as, xw.Attr{Name: nm(i), Value: nm(i)})
									}
									ops = append(ops, opStart(xw.Elem{Name: "r", Attrs: as}))
								case 2:
									ops = append(ops, opStart(xw.Elem{Name: "r"}))
									for i := 0; i < n; i++ {
										ops = append(ops, opWriteX(xw.Attr{Prefix: nm(i), URI: "u" + nm(i), Name: "a"}))
									}
								case 3:
									var as []xw.DTDAttr
									for i := 0; i < n; i++ {
										as = append(as, xw.DTDAttr{Name: nm(i), Type: xw.DTDAttrString})
									}
									ops = append(ops, opStart(xw.DTD{Name: "d"}), opWrite(xw.DTDAttList{Name: "l", Attrs: as}))
								case 4:
									ops = append(ops, opStart(xw.Elem{Name: "r"}), opStart(xw.CData{}))
									for i := 0; i < n; i++ {
										ops = append(ops, opWrite(xw.CDataContent(nm(i))))
									}
								case 5:
									for i := 0; i < n; i++ {
										ops = append(ops, opWrite(xw.Comment{Content: nm(i)}))
									}
								case 7:
									ops = append(ops, opStart(xw.Doc{}), opStart(xw.DTD{Name: "d"}))
									for i := 0; i < n; i++ {
										ops = append(ops, opWriteX(xw.DTDElem{Name: nm(i), Decl: "ANY"}))
									}
									ops = append(ops, opEndX(xw.DTDNode), opWrite(xw.Elem{Name: "d"}))
								case 8:
									ops = append(ops, opStart(xw.Elem{Name: "r"}))
									for i := 0; i < n; i++ {
										ops = append(ops, opWrite(xw.Text("t")), opWrite(xw.PI{Target: "p"}))
									}
								case 6:
									var ks []xw.Writable
									for i := 0; i < n; i++ {
										ks = append(ks, xw.Elem{Name: nm(i), Content: []xw.Writable{xw.Text("x")}})
									}
									ops = append(ops, opWrite(xw.Elem{Name: "r", Content: ks}))
								}
								r, err := runOps(ops, &Setup{})
								if err != nil {
									return err
								}
								c.res.Traces++
								c.Outcome(r.Out)
								return checkTree(r, true)
							})
						}
					}
				}},
			}
		}})

	register(&Prop{ID: "C09", Level: "exploration",
		Rule:        "every document tree up to the stated size is written in every combination of API styles and the bytes compared with the fully procedural writing; non-trivial = a distinct document",
		Assumptions: []string{"Elem.Content is limited by the library to Text, Elem, Comment and CData"},
		Parts: func(th bool) []Part {
			confs := []*Setup{{}, {Opts: []xw.Option{xw.WithIndent()}}}
			return []Part{
				{"trees", fmt.Sprintf("every element tree of up to %d nodes below the root, each element in each of 5 styles, with and without WithIndent", pick(th, 4, 5)), func(c *Ctx) {
					for n := 0; n <= pick(th, 4, 5); n++ {
						forests(n, leaves, elemsFor, func(kids []*tnode) {
							if !c.Take() {
								return
							}
							root := &tnode{kind: "elem", elem: xw.Elem{Name: "r", Attrs: []xw.Attr{{Name: "ra", Value: "v"}}}, kids: kids}
							c.Run(func() string { var b strings.Builder; root.canonical(&b); return "every style of " + b.String() }, func() error {
								m := root.elems()
								total := 1
								for i := 0; i < m; i++ {
									total *= nStyles
								}
								styles := make([]int, m)
								for _, st := range confs {
									for i := range styles {
										styles[i] = 1
									}
									zero := 0
									want, err := produce(st, func(w *xw.Writer) error { return root.write(w, styles, &zero) })
									if err != nil {
										return fmt.Errorf("procedural: %v", err)
									}
									c.Outcome(want)
									for code := 0; code < total; code++ {
										for i, x := 0, code; i < m; i, x = i+1, x/nStyles {
											styles[i] = x % nStyles
										}
										nx := 0
										got, err := produce(st, func(w *xw.Writer) error { return root.write(w, styles, &nx) })
										c.res.Traces++
										if err != nil {
											return fmt.Errorf("styles %v: %v", styles, err)
										}
										if got != want {
											return fmt.Errorf("styles %v give %q, the procedural API gives %q", styles, got, want)
										}
									}
								}
								return nil
							})
						})
					}
				}},
				{"deep-content", "structured Content of every depth 1..60 at every base depth 0..16 against the procedural writing, indented and not", func(c *Ctx) {
					for base := 0; base <= 16; base++ {
						for d := 1; d <= 60; d++ {
							for ci, st := range confs {
								base, d, st, ci := base, d, st, ci
								c.Case(func() string { return fmt.Sprintf("base %d, content depth %d, configuration %d", base, d, ci) }, func() error {
									t := &tnode{kind: "text", text: "x"}
									for i := d; i > 0; i-- {
										t = &tnode{kind: "elem", elem: xw.Elem{Name: fmt.Sprintf("e%d", i)}, kids: []*tnode{{kind: "comment", text: "c"}, t, {kind: "elem", elem: xw.Elem{Name: "s"}}}}
									}
									var outs []string
									for style := 0; style < nStyles; style++ {
										styles := make([]int, t.elems())
										for i := range styles {
											styles[i] = style
										}
										nx := 0
										out, err := produce(st, func(w *xw.Writer) error {
											for i := 0; i < base; i++ {
												if err := w.StartElem(xw.Elem{Name: "b"}); err != nil {
													return err
												}
											}
											return t.write(w, styles, &nx)
										})
										if err != nil {
											return err
										}
										c.res.Traces++
										outs = append(outs, out)
										if out != outs[0] {
											return fmt.Errorf("style %d gives %q, style 0 %q", style, clip(out), clip(outs[0]))
										}
									}
									c.Outcome(outs[0])
									return nil
								})
							}
						}
					}
				}},
				{"refusals", "trees with one node that must be refused (or is on the edge of it) at every place: every style refuses it or none does, in every configuration", func(c *Ctx) {
					bad := []*tnode{}
					for _, s := range []string{"a--b", "--", "-", "a-", "-->", "\x01", "\uFFFE", "\xff", "\x7f", "]]>", "]]", "\r", ""} {
						bad = append(bad, &tnode{kind: "comment", text: s}, &tnode{kind: "cdata", text: s}, &tnode{kind: "text", text: s})
					}
					for _, n := range []string{"", "1x", "a b", "a>", "<", "-a", "a\xff", ":", "é", "a\x00"} {
						bad = append(bad, &tnode{kind: "elem", elem: xw.Elem{Name: n}}, &tnode{kind: "elem", elem: xw.Elem{Prefix: n, Name: "x"}},
							&tnode{kind: "elem", elem: xw.Elem{Name: "x", Full: true, Attrs: []xw.Attr{{Name: n, Value: "v"}}}},
							&tnode{kind: "elem", elem: xw.Elem{Name: "x", Attrs: []xw.Attr{{Name: "ok"}, {Prefix: n, URI: "u", Name: "y"}}}})
					}
					bad = append(bad, &tnode{kind: "elem", elem: xw.Elem{Name: "x", Attrs: []xw.Attr{{Prefix: "p", URI: "u", Name: "a"}, {Prefix: "p", URI: "v", Name: "b"}}}},
						&tnode{kind: "elem", elem: xw.Elem{Prefix: "p", URI: "w", Name: "x", Attrs: []xw.Attr{{Prefix: "p", URI: "v", Name: "b"}}}},
						&tnode{kind: "elem", elem: xw.Elem{Name: "x", Attrs: []xw.Attr{{URI: "v", Name: "b"}}}},
						&tnode{kind: "elem", elem: xw.Elem{Prefix: "xml", URI: "v", Name: "b"}}, &tnode{kind: "elem", elem: xw.Elem{Prefix: "xmlns", URI: "v", Name: "b"}})
					all := []struct {
						name string
						st   *Setup
					}{{"default", &Setup{}}, {"WithIndent", &Setup{Opts: []xw.Option{xw.WithIndent()}}}, {"StrictChars=false", &Setup{Opts: []xw.Option{lax()}}}, {"Enforce=false", &Setup{Opts: []xw.Option{noEnforce()}}}}
					for bi := range bad {
						for depth := 0; depth <= pick(th, 3, 6); depth++ {
							for place := 0; place < 4; place++ {
								for _, cf := range all {
									b, depth, place, cf := bad[bi], depth, place, cf
									root := b
									for i := 0; i <= depth; i++ {
										kids := []*tnode{root}
										if place&1 == 1 {
											kids = append([]*tnode{{kind: "text", text: "t"}, {kind: "elem", elem: xw.Elem{Name: "l"}}}, kids...)
										}
										if place&2 == 2 {
											kids = append(kids, &tnode{kind: "elem", elem: xw.Elem{Name: "r"}}, &tnode{kind: "comment", text: "c"})
										}
										root = &tnode{kind: "elem", elem: xw.Elem{Name: fmt.Sprintf("n%d", i), Full: i%2 == 1}, kids: kids}
									}
									c.Case(func() string { return fmt.Sprintf("%s, %s", cf.name, descForest([]*tnode{root})) }, func() error {
										var outs []string
										var errs []error
										m := root.elems()
										styles := make([]int, m)
										code := 0
										for s := 0; s < nStyles*nStyles; s++ {
											// the style changes at every second level
											for i := range styles {
												styles[i] = []int{s % nStyles, s / nStyles}[i%2]
											}
											nx := 0
											out, err := produce(cf.st, func(w *xw.Writer) error { return root.write(w, styles, &nx) })
											c.res.Traces++
											outs, errs = append(outs, out), append(errs, err)
											if (err == nil) != (errs[0] == nil) {
												return fmt.Errorf("styles %v: %v; structured: %v", styles, err, errs[0])
											}
											if err == nil && out != outs[0] {
												return fmt.Errorf("styles %v: %q; structured: %q", styles, clip(out), clip(outs[0]))
											}
											code++
										}
										c.Outcome(cf.name + fmt.Sprint(bi, depth, place, errs[0] == nil))
										return nil
									})
								}
							}
						}
					}
				}},
				{"variadic", "every split of node lists of length <= 4 into Write/Start/WriteAttr calls, and DTD nodes structured or not", func(c *Ctx) {
					kids := []xw.Writable{xw.Elem{Name: "k", Attrs: []xw.Attr{{Name: "a"}}}, xw.Text("t<"), xw.Comment{Content: "c"}, xw.PI{Target: "p", Content: "c"}, xw.CData{Content: "d"}, xw.Raw("raw")}
					for code := 0; code < 6*6*6*6; code++ {
						for ci, st := range confs {
							code, st, ci := code, st, ci
							c.Case(func() string { return fmt.Sprintf("Write of list #%d, configuration %d", code, ci) }, func() error {
								var ns []xw.Writable
								for i, x := 0, code; i < 4; i, x = i+1, x/6 {
									ns = append(ns, kids[x%6])
								}
								var want string
								for mask := 0; mask < 8; mask++ {
									out, err := produce(st, func(w *xw.Writer) error {
										if err := w.StartElem(xw.Elem{Name: "r"}); err != nil {
											return err
										}
										from := 0
										for i := 1; i <= 4; i++ {
											if i == 4 || mask>>uint(i-1)&1 == 1 {
												if err := w.Write(ns[from:i]...); err != nil {
													return err
												}
												from = i
											}
										}
										return nil
									})
									if err != nil {
										return err
									}
									c.res.Traces++
									if mask == 0 {
										want = out
									} else if out != want {
										return fmt.Errorf("split %d: %q, one call: %q", mask, out, want)
									}
								}
								blk, err := produce(st, func(w *xw.Writer) error { return w.Block(xw.Elem{Name: "r"}, ns...) })
								if err != nil {
									return err
								}
								if blk != want {
									return fmt.Errorf("Block: %q, Write: %q", blk, want)
								}
								c.Outcome(want)
								return nil
							})
						}
					}
					starts := []xw.Startable{xw.Elem{Name: "a"}, xw.Elem{Name: "b", Attrs: []xw.Attr{{Name: "x", Value: "1"}}}, xw.Elem{Prefix: "p", URI: "u", Name: "c"}, xw.Elem{Name: "d", Full: true}}
					for code := 0; code < 4*4*4; code++ {
						for mask := 0; mask < 4; mask++ {
							for ci, st := range confs {
								code, mask, st, ci := code, mask, st, ci
								c.Case(func() string { return fmt.Sprintf("Start of list #%d split %d, configuration %d", code, mask, ci) }, func() error {
									ns := []xw.Startable{xw.Doc{}, starts[code%4], starts[code/4%4], starts[code/16]}
									one, err := produce(st, func(w *xw.Writer) error { return w.Start(ns...) })
									if err != nil {
										return err
									}
									two, err := produce(st, func(w *xw.Writer) error {
										if err := w.Start(ns[:mask+1]...); err != nil {
											return err
										}
										for _, n := range ns[mask+1:] {
											if err := w.Start(n); err != nil {
												return err
											}
										}
										return nil
									})
									c.res.Traces += 2
									c.Outcome(one)
									if err != nil || one != two {
										return fmt.Errorf("one Start: %q, split: %q %v", one, two, err)
									}
									return nil
								})
							}
						}
					}
					for ci, st := range confs {
						for n := 0; n <= 6; n++ {
							st, n, ci := st, n, ci
							c.Case(func() string {
								return fmt.Sprintf("DTDAttList with %d attributes, structured and not, configuration %d", n, ci)
							}, func() error {
								var as []xw.DTDAttr
								for i := 0; i < n; i++ {
									as = append(as, xw.DTDAttr{Name: fmt.Sprintf("a%d", i), Type: xw.DTDAttrString, Value: strings.Repeat("v", i)})
								}
								var outs []string
								for style := 0; style < 5; style++ {
									out, err := produce(st, func(w *xw.Writer) error {
										if err := w.Start(xw.Doc{}, xw.DTD{Name: "d"}); err != nil {
											return err
										}
										switch style {
										case 0:
											if err := w.Write(xw.DTDAttList{Name: "l", Attrs: as}); err != nil {
												return err
											}
										case 1:
											if err := w.WriteDTDAttList(xw.DTDAttList{Name: "l", Attrs: as}); err != nil {
												return err
											}
										case 2:
											if err := w.StartDTDAttList(xw.DTDAttList{Name: "l", Attrs: as}); err != nil {
												return err
											}
											if err := w.EndDTDAttList(); err != nil {
												return err
											}
										case 3:
											if err := w.StartDTDAttList(xw.DTDAttList{Name: "l"}); err != nil {
												return err
											}
											for _, a := range as {
												if err := w.WriteDTDAttr(a); err != nil {
													return err
												}
											}
											if err := w.End(xw.DTDAttListNode, "l"); err != nil {
												return err
											}
										case 4:
											var ks []xw.Writable
											for _, a := range as {
												ks = append(ks, a)
											}
											if err := w.Block(xw.DTDAttList{Name: "l"}, ks...); err != nil {
												return err
											}
										}
										if err := w.EndDTD(); err != nil {
											return err
										}
										return w.WriteElem(xw.Elem{Name: "r"})
									})
									if err != nil {
										return err
									}
									c.res.Traces++
									outs = append(outs, out)
									if out != outs[0] {
										return fmt.Errorf("style %d: %q, structured: %q", style, out, outs[0])
									}
								}
								c.Outcome(outs[0])
								return nil
							})
						}
					}
				}},
			}
		}})

	register(&Prop{ID: "C10", Level: "model_checking",
		Rule:        "every combination of prefixes and URIs on an element and up to three attributes (and on its parent), supplied in every way, against the reference model; non-trivial = a distinct output",
		Assumptions: []string{"a prefix without a URI is taken to be declared by an ancestor", "attribute names are distinct"},
		Parts: func(th bool) []Part {
			type pu struct{ p, u string }
			pus := []pu{{"", ""}, {"p", ""}, {"p", "u"}, {"p", "v"}, {"q", "u"}, {"q", "w&\"'<>\n"}}
			epus := append([]pu{{"", "u"}, {"", "v"}}, pus...)
			return []Part{
				{"elem-x-attrs", "one element, up to 3 attributes, 5 ways of supplying them, an element with conflicting or equal declarations below", func(c *Ctx) {
					n := len(pus)
					for _, e := range epus {
						for count := 0; count <= 3; count++ {
							total := 1
							for i := 0; i < count; i++ {
								total *= n
							}
							for code := 0; code < total; code++ {
								for way := 0; way < 5; way++ {
									e, count, code, way := e, count, code, way
									c.Case(func() string {
										return fmt.Sprintf("Elem{Prefix:%q URI:%q} with %d attributes #%d, way %d", e.p, e.u, count, code, way)
									}, func() error {
										var as []xw.Attr
										for i, x := 0, code; i < count; i, x = i+1, x/n {
											as = append(as, xw.Attr{Prefix: pus[x%n].p, URI: pus[x%n].u, Name: fmt.Sprintf("a%d", i), Value: "v"})
										}
										el := xw.Elem{Prefix: e.p, URI: e.u, Name: "e"}
										var ops []Op
										switch way {
										case 0:
											el.Attrs = as
											ops = append(ops, opStart(el))
										case 1:
											ops = append(ops, opStartX(el))
											for _, a := range as {
												ops = append(ops, opWriteX(a))
											}
										case 2:
											if len(as) > 0 {
												el.Attrs = as[:1]
											}
											ops = append(ops, opStart(el))
											for i := 1; i < len(as); i++ {
												ops = append(ops, opWrite(as[i]))
											}
										case 3:
											el.Attrs = as
											ops = append(ops, opStart(xw.Elem{Prefix: "q", URI: "outer", Name: "o", Attrs: []xw.Attr{{Prefix: "p", URI: "outer", Name: "x"}}}), opWrite(el), opWrite(el))
										case 4:
											el.Attrs = as
											ops = append(ops, opStart(xw.Elem{Name: "o", Content: []xw.Writable{el, el}}), opNext(), opStart(el), opStart(el))
										}
										ops = append(ops, opWrite(xw.Text("t")))
										r, err := runOps(ops, small)
										if err != nil {
											return err
										}
										c.res.Traces++
										c.State(r.Final)
										c.Outcome(r.Out + fmt.Sprint(r.Verdicts))
										if r.Poisoned {
											return nil
										}
										if c.part.Evals%997 == 1 {
											c.Sample(descOps(ops) + " => " + r.Out)
										}
										return checkTree(r, false)
									})
								}
							}
						}
					}
				}},
				{"sequences", fmt.Sprintf("every sequence of up to %d calls over prefixed attributes, prefixed elements and ends", pick(th, 5, 6)), func(c *Ctx) {
					al := func(i int) []Op {
						k := func(s string) string { return fmt.Sprintf("%s%d", s, i) }
						return []Op{
							opStartX(xw.Elem{Name: k("e")}), opStartX(xw.Elem{Prefix: "p", URI: "u", Name: k("e")}), opStartX(xw.Elem{Prefix: "p", URI: "v", Name: k("e")}), opStart(xw.Elem{Prefix: "p", Name: k("e")}),
							opStart(xw.Elem{URI: "u", Name: k("e")}),
							opWriteX(xw.Attr{Prefix: "p", URI: "u", Name: k("a")}), opWriteX(xw.Attr{Prefix: "p", URI: "v", Name: k("a")}), opWriteX(xw.Attr{Prefix: "q", URI: "u", Name: k("a")}),
							opWriteX(xw.Attr{Prefix: "p", Name: k("a")}), opWriteX(xw.Attr{URI: "u", Name: k("a")}),
							opEndElem(), opWrite(xw.Text("t")), opNext(),
						}
					}
					c.sequences(seqOpts{depth: pick(th, 5, 6), judge: judgeTree(false), setup: small}, al)
				}},
				uriPairsPart(), prefixesPart(th),
				{"many-prefixes", "1..40 prefixes, each repeated, in every rotation", func(c *Ctx) {
					for n := 1; n <= 40; n++ {
						for rot := 0; rot < n; rot++ {
							n, rot := n, rot
							c.Case(func() string { return fmt.Sprintf("%d prefixes rotated by %d", n, rot) }, func() error {
								ops := []Op{opStart(xw.Elem{Prefix: "p0", URI: "u0", Name: "e"})}
								for rep := 0; rep < 2; rep++ {
									for i := 0; i < n; i++ {
										j := (i + rot) % n
										ops = append(ops, opWriteX(xw.Attr{Prefix: fmt.Sprintf("p%d", j), URI: fmt.Sprintf("u%d", j), Name: fmt.Sprintf("a%d", rep)}))
									}
								}
								ops = append(ops, opWriteX(xw.Attr{Prefix: fmt.Sprintf("p%d", rot), URI: "other", Name: "x"}))
								r, err := runOps(ops, small)
								if err != nil {
									return err
								}
								c.res.Traces++
								c.Outcome(r.Out)
								return checkTree(r, false)
							})
						}
					}
				}},
			}
		}})

	register(&Prop{ID: "C26", Level: "model_checking", Rule: ruleSeq, Assumptions: stdAssume, Parts: func(th bool) []Part {
		al := func(i int) []Op {
			k := func(s string) string { return fmt.Sprintf("%s%d", s, i) }
			return []Op{
				opStartX(xw.Elem{Name: k("e")}), opStart(xw.Elem{Name: k("f"), Full: true}), opStart(xw.Elem{Name: k("a"), Attrs: []xw.Attr{{Name: "x"}}}),
				opWriteX(xw.Attr{Name: k("a")}), opWriteX(xw.Text("")), opWriteX(xw.Text("t")), opWriteX(xw.Comment{}), opWriteX(xw.CData{}), opWriteX(xw.PI{Target: "p"}),
				opWriteX(xw.Elem{Name: k("w")}), opWrite(xw.Elem{Name: k("g"), Full: true}), opWrite(xw.Elem{Name: k("h"), Content: []xw.Writable{xw.Text("")}}), opStart(xw.Elem{Name: k("i"), Content: []xw.Writable{xw.Elem{Name: "z"}}}),
				opEndX(xw.ElemNode), opEndElemFull(), opEndAny(), opNext(), opFlush(),
				opStart(xw.Elem{Name: k("j"), Content: []xw.Writable{}}), opWrite(xw.Elem{Name: k("l"), Content: []xw.Writable{}, Attrs: []xw.Attr{}}),
			}
		}
		return []Part{
			{"sequences", fmt.Sprintf("every call sequence of length <= %d over 20 calls that bear on the form", pick(th, 5, 6)), func(c *Ctx) {
				c.sequences(seqOpts{depth: pick(th, 5, 6), judge: judgeTree(true), setup: small, pruneRefused: true}, al)
			}},
			{"in-document", "the same below an open element", func(c *Ctx) {
				c.sequences(seqOpts{depth: pick(th, 4, 5), judge: judgeTree(true), setup: small, pruneRefused: true, prefix: []Op{opStart(xw.Doc{}), opStart(xw.Elem{Name: "r", Full: true})}}, al)
			}},
			{"refused-calls", "length <= 3 over the full alphabet including refused calls", func(c *Ctx) {
				c.sequences(seqOpts{depth: 3, judge: judgeTree(true), setup: small, prefix: []Op{opStart(xw.Elem{Name: "r"})}}, alphaFull)
			}},
			{"indented", "the same forms with WithIndent", func(c *Ctx) {
				c.sequences(seqOpts{depth: pick(th, 3, 4), setup: &Setup{Opts: []xw.Option{xw.WithIndent()}}, pruneRefused: true, judge: func(ops []Op, r *runResult) error {
					if r.Poisoned {
						return nil
					}
					got, err := parseFragment(r.Out)
					if err != nil {
						return err
					}
					if a, b := shortForms(got), shortForms(r.Tree); a != b {
						return fmt.Errorf("forms %s, want %s: %q", a, b, r.Out)
					}
					return nil
				}}, al)
			}},
		}
	}})
}

func shortForms(n *XNode) string {
	s := ""
	if n.Kind == "elem" {
		s = n.Name + map[bool]string{true: "/ ", false: " "}[n.Short]
	}
	for _, k := range n.Kids {
		s += shortForms(k)
	}
	return s
}
