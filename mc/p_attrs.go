package main

// Attribute lists: every order of plain, prefixed and declaring attributes, in
// every split between Elem.Attrs and later calls, and a refused attribute at
// every index of a longer list.

import (
	"fmt"
	"reflect"
	"strings"

	xw "github.com/shabbyrobe/xmlwriter"
)

// attrKinds are attribute templates; x is also the prefix of one of the
// elements they are put on.
var attrKinds = []xw.Attr{
	{Value: "<v"},
	{Prefix: "p", URI: "up", Value: "1"},
	{Prefix: "p", URI: "other", Value: "2"},
	{Prefix: "q", URI: "up", Value: "\"3"},
	{Prefix: "p", Value: ""},
	{Prefix: "x", URI: "ux", Value: "&"},
	{Prefix: "x", URI: "other", Value: "6"},
	{URI: "up", Value: "7"},
}

func attrAt(kind, i int) xw.Attr {
	a := attrKinds[kind]
	a.Name = fmt.Sprintf("a%d", i)
	return a
}

var attrElems = []xw.Elem{{Name: "e"}, {Prefix: "x", URI: "ux", Name: "e"}, {URI: "ud", Name: "e"}, {Prefix: "x", Name: "e"}}

// attrLists yields every list of up to max attributes, then lists of up to
// long ones with one conflicting or ill-named attribute at every index.
func attrLists(max, long int, f func(as []xw.Attr)) {
	for n := 0; n <= max; n++ {
		words(len(attrKinds), n, func(w []int) {
			as := make([]xw.Attr, n)
			for i, k := range w {
				as[i] = attrAt(k, i)
			}
			f(as)
		})
	}
	for n := max + 1; n <= long; n++ {
		for i := 0; i < n; i++ {
			for j := -1; j < n; j++ {
				if i == j || i > 2 && i < n-2 && j > 2 && j < n-2 && j != i+1 && j != i-1 {
					continue
				}
				for bad := 0; bad < 3; bad++ {
					as := make([]xw.Attr, n)
					for k := range as {
						as[k] = attrAt(0, k)
						if k%3 == 1 {
							as[k] = xw.Attr{Prefix: fmt.Sprintf("r%d", k), URI: fmt.Sprintf("u%d", k), Name: as[k].Name}
						}
					}
					if j >= 0 {
						as[j] = attrAt(1, j)
					}
					switch bad {
					case 0:
						as[i] = attrAt(2, i)
					case 1:
						as[i] = attrAt(6, i)
					case 2:
						as[i].Name += " "
					}
					f(as)
				}
			}
		}
	}
}

// words yields every word of length n over k letters.
func words(k, n int, f func(w []int)) {
	w := make([]int, n)
	for {
		f(w)
		i := n - 1
		for ; i >= 0; i-- {
			if w[i]++; w[i] < k {
				break
			}
			w[i] = 0
		}
		if i < 0 {
			return
		}
	}
}

func attrListsPart(max, long int) Part {
	return Part{"attribute-lists", fmt.Sprintf("every list of up to %d attributes of 8 forms (plain, with a prefix declared, used, declared again, the element's, a URI alone) and lists of up to %d with a conflicting or ill-named one at each index, on 4 elements: in Elem.Attrs written or started, by a call each, or split", max, long), func(c *Ctx) {
		attrLists(max, long, func(as []xw.Attr) {
			for _, e := range attrElems {
				for way := 0; way < 4; way++ {
					if len(as) == 0 && way > 1 || len(as) == 1 && way > 2 || !c.Take() {
						continue
					}
					e := e
					var ops []Op
					switch way {
					case 0:
						e.Attrs = append([]xw.Attr{}, as...)
						ops = []Op{inElem, opWriteX(e)}
					case 1:
						e.Attrs = append([]xw.Attr{}, as...)
						ops = []Op{opStartX(e), opWrite(xw.Text("t"))}
					case 2:
						ops = []Op{opStartX(e)}
						for i, a := range as {
							if i%2 == 0 {
								ops = append(ops, opWriteAttrs(a))
							} else {
								ops = append(ops, opWrite(a))
							}
						}
						ops = append(ops, opWrite(xw.Elem{Prefix: "p", Name: "kid"}), opEndElem(e.Prefix, e.Name))
					case 3:
						h := (len(as) + 1) / 2
						e.Attrs = append([]xw.Attr{}, as[:h]...)
						ops = []Op{opStartX(e)}
						for _, a := range as[h:] {
							ops = append(ops, opWriteAttrs(a))
						}
					}
					c.Run(func() string { return descOps(ops) }, func() error { return runJudge(c, ops) })
				}
			}
		})
	}}
}

// attrValuesPart: no way of writing an element changes it.
func attrValuesPart(th bool) Part {
	max, long := 4, 12
	if th {
		max, long = 5, 24
	}
	setups := []*Setup{small, {Opts: []xw.Option{xw.WithIndent()}}, {Opts: []xw.Option{noEnforce()}}, {Opts: []xw.Option{lax(), xw.WithIndentString("\t")}}}
	return Part{"attribute-values", fmt.Sprintf("elements with every list of up to %d attributes of 8 forms and up to %d with a conflicting one, with content, accepted or refused, by Write, Start and Block, on 4 setups: the caller's value, its slices and their spare capacity are unchanged, and the same value written again, or a copy made before, gives the same", max, long), func(c *Ctx) {
		attrLists(max, long, func(as []xw.Attr) {
			for _, e := range attrElems {
				if !c.Take() {
					continue
				}
				e := e
				c.Run(func() string { return fmt.Sprintf("%#v with attributes %#v", e, as) }, func() error {
					for _, st := range setups {
						for way := 0; way < 3; way++ {
							if err := attrValue(c, st, e, as, way); err != nil {
								return err
							}
						}
					}
					return nil
				})
			}
		})
	}}
}

func attrValue(c *Ctx, st *Setup, e xw.Elem, as []xw.Attr, way int) error {
	build := func() (xw.Elem, []xw.Attr, []xw.Writable, []xw.Attr) {
		v := e
		attrs := append(append(make([]xw.Attr, 0, len(as)+2), as...), xw.Attr{Name: "spare"}, xw.Attr{Prefix: "spare", URI: "s", Name: "s"})
		kidAttrs := append(append(make([]xw.Attr, 0, len(as)+1), as...), xw.Attr{Name: "spare"})
		content := []xw.Writable{xw.Text("t"), xw.Elem{Name: "kid", Attrs: kidAttrs[:len(as)]}, xw.Text("spare")}
		v.Attrs = attrs[:len(as)]
		v.Content = content[:2]
		return v, attrs, content, kidAttrs
	}
	put := func(v xw.Elem) string {
		var s sink
		w := st.open(&s)
		var err error
		switch way {
		case 0:
			err = w.Write(v)
		case 1:
			if err = w.Start(v); err == nil {
				err = w.EndElem(v.Name)
			}
		case 2:
			err = w.Block(xw.Elem{Name: "outer"}, v, v)
		}
		w.EndAll()
		w.Flush()
		return fmt.Sprintf("%s|%v", s.String(), err != nil)
	}
	mine, attrs, content, kid := build()
	keep, keepAttrs, keepContent, keepKid := build()
	first := put(mine)
	if !reflect.DeepEqual(attrs, keepAttrs) || !reflect.DeepEqual(kid, keepKid) {
		return fmt.Errorf("the caller's attributes were changed from %v, %v to %v, %v (way %d)", keepAttrs, keepKid, attrs, kid, way)
	}
	if !reflect.DeepEqual(content, keepContent) || !reflect.DeepEqual(mine, keep) {
		return fmt.Errorf("the caller's element was changed from %v to %v (way %d)", keep, mine, way)
	}
	c.res.Traces++
	c.Outcome(first)
	if again := put(mine); again != first {
		return fmt.Errorf("first %q, then %q (way %d)", first, again, way)
	}
	if fresh := put(keep); fresh != first {
		return fmt.Errorf("first %q, an equal value then %q (way %d)", first, fresh, way)
	}
	return nil
}

// contentTreesPart: Elem.Content trees, where parents and children differ in
// everything that bears on how they are written.
func contentTreesPart(levels int) Part {
	return Part{"content-trees", fmt.Sprintf("every element value with up to %d levels of Content below it, each element with or without Full and an attribute, with no, empty, text, comment, CDATA and element Content and a leaf before or after the child element: written, started and ended either way, in a Block, beside a sibling", levels), func(c *Ctx) {
		leaf := []xw.Writable{xw.Text(""), xw.Text("t"), xw.Comment{}, xw.CData{}, xw.CData{Content: "c"}}
		forms := func(name string, content []xw.Writable) (out []xw.Elem) {
			for i := 0; i < 4; i++ {
				e := xw.Elem{Name: name, Full: i&1 != 0, Content: content}
				if i&2 != 0 {
					e.Attrs = []xw.Attr{{Name: "a", Value: "v"}}
				}
				out = append(out, e)
			}
			return
		}
		last := append(forms("l", nil), forms("l", []xw.Writable{})...)
		for _, l := range leaf {
			last = append(last, forms("l", []xw.Writable{l})...)
		}
		all := append([]xw.Elem{}, last...)
		for lv := 1; lv <= levels; lv++ {
			var next []xw.Elem
			name := fmt.Sprintf("n%d", lv)
			for _, k := range last {
				next = append(next, forms(name, []xw.Writable{k})...)
				for _, l := range leaf {
					if lv > 1 && !(l == leaf[0] || l == leaf[3]) {
						continue
					}
					next = append(next, forms(name, []xw.Writable{k, l})...)
					next = append(next, forms(name, []xw.Writable{l, k})...)
				}
				if lv == 1 {
					for _, k2 := range last[:12] {
						k2.Name = "s"
						next = append(next, forms(name, []xw.Writable{k, k2})...)
					}
				}
			}
			all = append(all, next...)
			last = next
		}
		for _, e := range all {
			for way := 0; way < 4; way++ {
				if !c.Take() {
					continue
				}
				var ops []Op
				switch way {
				case 0:
					ops = []Op{opWriteX(e), opWrite(xw.Elem{Name: "after"})}
				case 1:
					ops = []Op{inElem, opStart(e), opEndElem(e.Name), opWrite(e)}
				case 2:
					ops = []Op{opStartX(e), opEndElemFull()}
				case 3:
					ops = []Op{opBlock(xw.Elem{Name: "b", Full: !e.Full}, e)}
				}
				c.Run(func() string { return descOps(ops) }, func() error { return runJudge(c, ops) })
			}
		}
	}}
}

// uncheckedPart: without enforcement names and contents go out as they are.
// misplacedPart: without enforcement no node is refused for where it stands.
func misplacedPart() Part {
	ns := []xw.Writable{xw.Text("x"), xw.Attr{Name: "a", Value: "x"}, xw.Attr{Prefix: "p", URI: "u", Name: "a"}, xw.Comment{Content: "x"}, xw.CData{Content: "x"}, xw.PI{Target: "t", Content: "x"}, xw.Elem{Name: "x"}, xw.Elem{Name: "x", Content: []xw.Writable{xw.Text("t")}}, xw.DTDElem{Name: "x", Decl: "ANY"}, xw.DTDAttr{Name: "x", Type: "ID"}, xw.DTDAttList{Name: "x", Attrs: []xw.DTDAttr{{Name: "a", Type: "ID"}}}, xw.DTDEntity{Name: "x", Content: "c"}, xw.Notation{Name: "x", SystemID: "c"}, xw.CommentContent("x"), xw.CDataContent("x")}
	starts := []xw.Startable{xw.Elem{Name: "x"}, xw.DTD{Name: "x"}, xw.DTDAttList{Name: "x"}, xw.Comment{Content: "x"}, xw.CData{Content: "x"}, xw.Doc{}}
	return Part{"misplaced", fmt.Sprintf("%d nodes written and %d started in each of 8 places, with a node of each kind before, without enforcement: accepted", len(ns), len(starts)), func(c *Ctx) {
		type call struct {
			what string
			do   func(w *xw.Writer) error
		}
		var calls []call
		for _, n := range ns {
			n := n
			calls = append(calls, call{fmt.Sprintf("Write(%#v)", n), func(w *xw.Writer) error { return w.Write(n) }})
		}
		for _, n := range starts {
			n := n
			calls = append(calls, call{fmt.Sprintf("Start(%#v)", n), func(w *xw.Writer) error { return w.Start(n) }})
		}
		open := func(k *sink) *xw.Writer { return xw.Open(k, noEnforce(), withBuf(64)) }
		for _, h := range homes() {
			for _, b := range append([]call{{"nothing", func(*xw.Writer) error { return nil }}}, calls...) {
				for _, a := range calls {
					h, a, b := h, a, b
					c.Case(func() string { return descOps(h) + "; " + b.what + "; " + a.what }, func() error {
						var k sink
						w := open(&k)
						apply(w, h)
						if err := b.do(w); err != nil {
							return fmt.Errorf("%s is refused: %v", b.what, err)
						}
						if err := a.do(w); err != nil {
							return fmt.Errorf("%s is refused: %v", a.what, err)
						}
						if err := w.EndAllFlush(); err != nil {
							return fmt.Errorf("EndAllFlush: %v", err)
						}
						c.Outcome(k.String())
						return nil
					})
				}
			}
		}
	}}
}

func uncheckedPart() Part {
	type site struct {
		what string
		pre  []Op
		do   func(w *xw.Writer, s string) error
	}
	var sites []site
	add := func(what string, pre []Op, mk func(s string) xw.Writable) {
		sites = append(sites, site{what, pre, func(w *xw.Writer, s string) error { return w.Write(mk(s)) }})
		if _, ok := mk("x").(xw.Startable); ok {
			sites = append(sites, site{"started " + what, pre, func(w *xw.Writer, s string) error { return w.Start(mk(s).(xw.Startable)) }})
		}
	}
	in := []Op{inElem}
	add("Elem.Name", nil, func(s string) xw.Writable { return xw.Elem{Name: s} })
	add("Elem.Name", in, func(s string) xw.Writable { return xw.Elem{Name: s, Full: true} })
	add("Elem.Prefix", nil, func(s string) xw.Writable { return xw.Elem{Prefix: s, URI: "u", Name: "e"} })
	add("Attr.Name", in, func(s string) xw.Writable { return xw.Attr{Name: s, Value: "v"} })
	add("Attr.Prefix", in, func(s string) xw.Writable { return xw.Attr{Prefix: s, URI: "u", Name: "a"} })
	add("Elem.Attrs", in, func(s string) xw.Writable { return xw.Elem{Name: "k", Attrs: []xw.Attr{{Name: s, Value: "v"}}} })
	add("PI.Target", in, func(s string) xw.Writable { return xw.PI{Target: s, Content: "c"} })
	add("PI.Content", in, func(s string) xw.Writable { return xw.PI{Target: "t", Content: s} })
	add("Comment.Content", in, func(s string) xw.Writable { return xw.Comment{Content: s} })
	add("CData.Content", in, func(s string) xw.Writable { return xw.CData{Content: s} })
	add("DTDElem.Name", []Op{inDTD}, func(s string) xw.Writable { return xw.DTDElem{Name: s, Decl: "ANY"} })
	add("DTDAttList.Name", []Op{inDTD}, func(s string) xw.Writable { return xw.DTDAttList{Name: s} })
	add("DTDEntity.Name", []Op{inDTD}, func(s string) xw.Writable { return xw.DTDEntity{Name: s, Content: "c"} })
	add("Notation.Name", []Op{inDTD}, func(s string) xw.Writable { return xw.Notation{Name: s, SystemID: "s"} })
	add("DTDAttr.Name", []Op{inDTD, inList}, func(s string) xw.Writable { return xw.DTDAttr{Name: s, Type: "ID"} })
	bad := []string{"1a", "a b", "a<", "-", "--", "-->", "]]>", "?>", "xml", "XmL", "\x01", "\u0080", "a\x00", "\ufffe", ":", "", "é&"}
	mark := "PLACEHOLDER"
	setups := []*Setup{{Opts: []xw.Option{withBuf(64), noEnforce()}}, {Opts: []xw.Option{noEnforce(), lax()}}, {Opts: []xw.Option{noEnforce(), xw.WithIndent()}}}
	return Part{"unchecked", fmt.Sprintf("%d fields that hold names or contents x %d values that enforcement refuses x 3 setups without it: accepted, and written as given", len(sites), len(bad)), func(c *Ctx) {
		for _, s := range sites {
			for _, b := range bad {
				if b == "" && strings.HasSuffix(s.what, "Prefix") {
					continue
				}
				for si, st := range setups {
					s, b, st, si := s, b, st, si
					c.Case(func() string { return fmt.Sprintf("%s = %q, setup %d", s.what, b, si) }, func() error {
						run := func(v string) (string, error) {
							var k sink
							w := st.open(&k)
							apply(w, s.pre)
							if err := s.do(w, v); err != nil {
								return "", err
							}
							if err := w.EndAllFlush(); err != nil {
								return "", err
							}
							return k.String(), nil
						}
						want, err := run(mark)
						if err != nil {
							return fmt.Errorf("an ordinary name: %v", err)
						}
						got, err := run(b)
						if err != nil {
							return fmt.Errorf("refused without enforcement: %v", err)
						}
						c.Outcome(got)
						if want = strings.ReplaceAll(want, mark, b); got != want {
							return fmt.Errorf("writes %q, want %q", got, want)
						}
						return nil
					})
				}
			}
		}
	}}
}

// otherContentPart: what Elem.Content cannot hold is refused, not left out.
func otherContentPart() Part {
	other := []xw.Writable{xw.Attr{Name: "a", Value: "x"}, xw.PI{Target: "t", Content: "x"}, xw.DTDElem{Name: "x", Decl: "ANY"}, xw.DTDAttr{Name: "x", Type: "ID"}, xw.DTDEntity{Name: "x", Content: "c"}, xw.Notation{Name: "x", SystemID: "c"}, xw.CommentContent("x"), xw.CDataContent("x"), xw.Raw("x"), xw.DTDAttList{Name: "x"}}
	some := []xw.Writable{xw.Text("1"), xw.Elem{Name: "k"}, xw.Comment{Content: "c"}, xw.CData{Content: "d"}}
	setups := []*Setup{small, {Opts: []xw.Option{noEnforce()}}, {Opts: []xw.Option{xw.WithIndent()}}}
	return Part{"other-content", fmt.Sprintf("each of %d nodes Elem.Content does not hold at every index of lists of up to 4 that it does, at the top, in a child and in a Block, 3 setups: a call returns an error, or the output is that of the procedural calls", len(other)), func(c *Ctx) {
		for _, o := range other {
			for n := 0; n <= len(some); n++ {
				for at := 0; at <= n; at++ {
					for way := 0; way < 4; way++ {
						for si, st := range setups {
							o, n, at, way, st, si := o, n, at, way, st, si
							c.Case(func() string {
								return fmt.Sprintf("%T at index %d of %d, way %d, setup %d", o, at, n+1, way, si)
							}, func() error {
								content := append(append(append([]xw.Writable{}, some[:at]...), o), some[at:n]...)
								e := xw.Elem{Name: "e", Content: content}
								run := func(f func(w *xw.Writer) error) (string, error) {
									var k sink
									w := st.open(&k)
									err := f(w)
									if e := w.EndAllFlush(); err == nil {
										err = e
									}
									return k.String(), err
								}
								got, err := run(func(w *xw.Writer) error {
									switch way {
									case 0:
										return w.Write(e)
									case 1:
										if err := w.Start(e); err != nil {
											return err
										}
										return w.EndElem("e")
									case 2:
										return w.Block(e)
									}
									return w.Write(xw.Elem{Name: "o", Content: []xw.Writable{e}})
								})
								c.Outcome(fmt.Sprint(got, err != nil))
								if err != nil {
									return nil
								}
								want, err := run(func(w *xw.Writer) error {
									if way == 3 {
										if err := w.Start(xw.Elem{Name: "o"}); err != nil {
											return err
										}
									}
									if err := w.Start(xw.Elem{Name: "e"}); err != nil {
										return err
									}
									for _, n := range content {
										if err := w.Write(n); err != nil {
											return err
										}
									}
									return nil
								})
								if err != nil || got != want {
									return fmt.Errorf("accepted and written as %q; by calls of their own: %q, %v", got, want, err)
								}
								return nil
							})
						}
					}
				}
			}
		}
	}}
}

// attDefListsPart: lists of attribute definitions, equal ones among them, and
// a refused one at every index of a longer list.
func attDefListsPart(max, long int) Part {
	kinds := []xw.DTDAttr{
		{Name: "a", Type: xw.DTDAttrString, Value: "v<"},
		{Name: "a", Type: xw.DTDAttrString, Default: xw.DTDAttrFixed, Value: "\"&"},
		{Name: "b", Type: xw.DTDAttrID, Default: xw.DTDAttrRequired},
		{Name: "b", Type: xw.DTDAttrNmtokens},
		{Name: "c", Type: "(x|y)", Default: xw.DTDAttrDefault},
		{Name: "c", Type: xw.DTDAttrID, Default: xw.DTDAttrRequired, Value: "no"},
	}
	bad := []xw.DTDAttr{kinds[5], {Name: "1", Type: "ID"}, {Name: "n"}, {Type: "ID"}}
	return Part{"attdef-lists", fmt.Sprintf("every list of up to %d attribute definitions of 6 forms (equal ones, one that is refused) and lists of up to %d with a refused one at each index: in DTDAttList.Attrs written or started, by a call each, or split", max, long), func(c *Ctx) {
		list := func(as []xw.DTDAttr) {
			for way := 0; way < 4; way++ {
				if len(as) == 0 && way > 1 || len(as) == 1 && way > 2 || !c.Take() {
					continue
				}
				ops := []Op{inDTD}
				cp := append([]xw.DTDAttr{}, as...)
				switch way {
				case 0:
					ops = append(ops, opWriteX(xw.DTDAttList{Name: "l", Attrs: cp}))
				case 1:
					ops = append(ops, opStartX(xw.DTDAttList{Name: "l", Attrs: cp}), opWrite(xw.DTDAttr{Name: "z", Type: "ID"}), opEndAny())
				case 2:
					ops = append(ops, opStart(xw.DTDAttList{Name: "l"}))
					for i, a := range cp {
						if i%2 == 0 {
							ops = append(ops, opWriteX(a))
						} else {
							ops = append(ops, opWrite(a))
						}
					}
				case 3:
					h := (len(cp) + 1) / 2
					ops = append(ops, opStart(xw.DTDAttList{Name: "l", Attrs: cp[:h:h]}))
					for _, a := range cp[h:] {
						ops = append(ops, opWriteX(a))
					}
				}
				ops = append(ops, opWrite(xw.DTDElem{Name: "after", Decl: "ANY"}))
				c.Run(func() string { return descOps(ops) }, func() error { return runJudge(c, ops) })
			}
		}
		for n := 0; n <= max; n++ {
			words(len(kinds), n, func(w []int) {
				as := make([]xw.DTDAttr, n)
				for i, k := range w {
					as[i] = kinds[k]
				}
				list(as)
			})
		}
		for n := 1; n <= long; n++ {
			for at := -1; at < n; at++ {
				for bi, b := range bad {
					if at < 0 && bi > 0 {
						continue
					}
					for _, same := range []bool{false, true} {
						as := make([]xw.DTDAttr, n)
						for i := range as {
							as[i] = xw.DTDAttr{Name: fmt.Sprintf("a%d", i), Type: "CDATA", Value: "v"}
							if same {
								as[i].Name = "a"
							}
						}
						if at >= 0 {
							as[at] = b
						}
						list(as)
					}
				}
			}
		}
	}}
}

// switchedPart: sections written partly with and partly without enforcement.
func switchedPart(max int) Part {
	return Part{"switched-sections", fmt.Sprintf("every sequence of up to %d pieces of a comment or a CDATA section, each written with enforcement on or off: a piece is refused exactly when it is written with enforcement and completes a delimiter with what is there, and what is accepted is written", max), func(c *Ctx) {
		for _, sec := range []struct {
			open, bad, end string
			pieces         []string
			start          xw.Startable
			write          func(w *xw.Writer, s string) error
		}{
			{"<!--", "--", "-->", []string{"", "-", "a-", "-a", "a", "--"}, xw.Comment{}, func(w *xw.Writer, s string) error { return w.WriteCommentContent(s) }},
			{"<![CDATA[", "]]>", "]]>", []string{"", "]", "]]", "]>", ">", "a", "]]>"}, xw.CData{}, func(w *xw.Writer, s string) error { return w.WriteCDataContent(s) }},
		} {
			for n := 1; n <= max; n++ {
				words(2*len(sec.pieces), n, func(word []int) {
					if !c.Take() {
						return
					}
					sec, ws := sec, append([]int{}, word...)
					desc := func() string {
						s := sec.open
						for _, k := range ws {
							s += fmt.Sprintf(" %q/Enforce=%v", sec.pieces[k/2], k%2 == 0)
						}
						return s
					}
					c.Run(desc, func() error {
						var k sink
						w := xw.Open(&k, withBuf(16))
						if err := w.StartElem(xw.Elem{Name: "e"}); err != nil {
							return err
						}
						if err := w.Start(sec.start); err != nil {
							return err
						}
						text := ""
						for i, p := range ws {
							s := sec.pieces[p/2]
							w.Enforce = p%2 == 0
							bad := false
							for at := 0; at+len(sec.bad) <= len(text+s); at++ {
								bad = bad || at+len(sec.bad) > len(text) && strings.HasPrefix((text + s)[at:], sec.bad)
							}
							err := sec.write(w, s)
							if (err != nil) != (bad && w.Enforce) {
								return fmt.Errorf("piece %d, %q after %q: %v", i+1, s, text, err)
							}
							if err == nil {
								text += s
							}
						}
						w.Enforce = true
						err := w.EndAny()
						if wrong := sec.bad == "--" && strings.HasSuffix(text, "-"); (err != nil) != wrong {
							return fmt.Errorf("ending %q: %v", text, err)
						}
						if err != nil {
							w.Enforce = false
						}
						if err := w.EndAllFlush(); err != nil {
							return err
						}
						c.Outcome(text)
						if want := "<e>" + sec.open + text + sec.end + "</e>"; k.String() != want {
							return fmt.Errorf("writes %q, want %q", k.String(), want)
						}
						return nil
					})
				})
			}
		}
	}}
}
