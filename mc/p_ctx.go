package main

// C05 parent/child rules, C06 End matching, C07 scope enders and Depth,
// C18 Raw and Next: explored from every reachable control state.

import (
	"fmt"
	"strings"

	xw "github.com/shabbyrobe/xmlwriter"
)

const ruleCtx = "breadth-first exploration of the writer's control states (bounded number of open nodes, deduplicated on the reference model's canonical state); in every state every probe call is made on the real writer, reached by replaying a shortest call sequence"

// probes is every kind of node through every entry point.
func probes() []Op {
	starts := []xw.Startable{
		xw.Doc{}, xw.DTD{Name: "pd"}, xw.DTDAttList{Name: "pl"}, xw.Elem{Name: "pe"},
		xw.Elem{Prefix: "pp", URI: "pu", Name: "pe", Attrs: []xw.Attr{{Name: "pa", Value: "1"}}},
		xw.Elem{Name: "pe", Content: []xw.Writable{xw.Text("pt")}},
		xw.Comment{}, xw.Comment{Content: "pc"}, xw.CData{}, xw.CData{Content: "pc"},
	}
	writes := []xw.Writable{
		xw.Attr{Name: "pa", Value: "v"}, xw.Attr{Prefix: "px", URI: "pu", Name: "pa"}, xw.Text("pt"), xw.Text(""), xw.PI{Target: "pp", Content: "c"},
		xw.Comment{Content: "pc"}, xw.CData{Content: "pc"}, xw.Elem{Name: "pe"}, xw.Elem{Name: "pe", Full: true},
		xw.CommentContent("pc"), xw.CommentContent(""), xw.CDataContent("pc"), xw.CDataContent(""),
		xw.DTDElem{Name: "pe", Decl: "ANY"}, xw.DTDEntity{Name: "pe", Content: "v"}, xw.DTDEntity{Name: "pe", SystemID: "s", IsPE: true},
		xw.DTDAttr{Name: "pa", Type: xw.DTDAttrString}, xw.DTDAttList{Name: "pl"},
		xw.DTDAttList{Name: "pl", Attrs: []xw.DTDAttr{{Name: "x", Type: xw.DTDAttrID}}}, xw.Notation{Name: "pn", SystemID: "s"},
	}
	var out []Op
	for _, s := range starts {
		out = append(out, opStart(s), opStartX(s), opBlock(s))
	}
	for _, n := range writes {
		out = append(out, opWrite(n), opWriteX(n))
	}
	return out
}

// enders is every way of ending something.
func enders() []Op {
	out := []Op{opEndAny(), opEndElem(), opEndElemFull()}
	for k := xw.NodeKind(0); k <= 17; k++ {
		out = append(out, opEnd(k))
	}
	for _, k := range []xw.NodeKind{xw.CommentNode, xw.CDataNode, xw.DTDNode, xw.DTDAttListNode, xw.ElemNode} {
		out = append(out, opEndX(k))
	}
	names := [][]string{{""}, {"e"}, {"n"}, {"p"}, {"p:n"}, {"d"}, {"l"}, {"s"}, {"f"}, {"E"}, {"", "e"}, {"p", "n"}, {"n", "p"}, {"p", ""}, {"", "n"}, {"", "d"}, {"p", "n", "x"}, {"", "", ""}}
	for _, k := range []xw.NodeKind{xw.ElemNode, xw.DTDNode, xw.DTDAttListNode, xw.DocNode, xw.CommentNode, xw.CDataNode, xw.TextNode, xw.NoNode} {
		for _, n := range names {
			out = append(out, opEnd(k, n...))
		}
	}
	for _, n := range names {
		out = append(out, opEndElem(n...), opEndElemFull(n...))
	}
	return out
}

// followUps reveal any effect a refused call may have had.
func followUps() []Op {
	return []Op{
		opFlush(), opWrite(xw.Text("ft")), opWrite(xw.Attr{Name: "fa", Value: "v"}), opWrite(xw.Elem{Name: "fe"}), opWrite(xw.CommentContent("fc")),
		opWrite(xw.CDataContent(">")), opWrite(xw.DTDElem{Name: "fe", Decl: "ANY"}), opWrite(xw.DTDAttr{Name: "fa", Type: xw.DTDAttrID}),
		opWrite(xw.Comment{Content: "fc"}), opEndAny(), opEndElem(), opNext(), opStart(xw.Elem{Name: "fe"}), opWrite(xw.PI{Target: "fp"}), opEndElemFull(),
		opWrite(xw.Attr{Prefix: "px", URI: "other", Name: "fb"}),
	}
}

// stateSpace is the shared exploration: every control state with at most open
// nodes open.
func stateSpace(th bool) []context {
	cs, _ := contexts(alphaStates(), pick(th, 3, 4), pick(th, 1500, 20000))
	return cs
}

// noEffect checks that a refused op changes nothing observable from here on.
func noEffect(pre []Op, o Op, after []Op) error {
	base := append(append([]Op{}, pre...), after...)
	with := append(append(append([]Op{}, pre...), o), after...)
	m1, f1, e1 := snapshot(small, base)
	m2, f2, e2 := snapshot(small, with)
	e2 = e2[:len(pre)] + e2[len(pre)+1:]
	if m1 != m2 || f1 != f2 || e1 != e2 {
		return fmt.Errorf("the refused call had an effect: followed by %q it gives %q / %q (errors %s), without it %q / %q (errors %s)",
			descOps(after), clip(m2), clip(f2), e2, clip(m1), clip(f1), e1)
	}
	return nil
}

// probeAll makes every probe in every state.
func probeAll(c *Ctx, cs []context, ps []Op, st *Setup) {
	fu := followUps()
	for _, cx := range cs {
		if c.Stop() {
			return
		}
		for _, o := range ps {
			cx, o := cx, o
			if !c.Take() {
				continue
			}
			c.Run(func() string { return descOps(append(append([]Op{}, cx.ops...), o)) }, func() error {
				ops := append(append([]Op{}, cx.ops...), o)
				c.State(cx.key)
				c.Trans(cx.key, o.Desc)
				r, err := runOps(ops, st)
				if err != nil {
					return err
				}
				c.res.Traces++
				v := r.Verdicts[len(ops)-1]
				c.Outcome(cx.key + o.Desc + v.String() + r.Out)
				if v == Refuse {
					for _, f := range fu {
						c.res.Traces++
						if err := noEffect(cx.ops, o, []Op{f}); err != nil {
							return err
						}
					}
				}
				if r.Poisoned {
					return nil
				}
				if c.part.Evals%5003 == 1 {
					c.Sample(descOps(ops) + ": " + v.String())
				}
				return checkTree(r, false)
			})
		}
	}
}

func init() {
	ctxAssume := []string{
		"two call histories with the same canonical model state (stack of open kinds, names, open/opened, whether anything was written inside, pending content class, declared prefixes) have the same futures; C02 and C09 check that independently on full histories",
		"documents have at most the stated number of open nodes at once in this exploration (C08 covers deeper nesting)",
	}
	register(&Prop{ID: "C05", Level: "model_checking", Rule: ruleCtx, Assumptions: ctxAssume, Parts: func(th bool) []Part {
		return []Part{
			{"states-x-nodes", "every node kind through every entry point (Start, StartX, Write, WriteX, Block) in every control state; refused calls are followed by every follow-up and compared byte for byte with not having made the call", func(c *Ctx) {
				cs := stateSpace(th)
				c.Note("control_states", 0)
				probeAll(c, cs, probes(), small)
			}},
			{"states-x-values", "nodes of every kind that are refused for their name, attributes, identifiers or content, through every entry point in every control state: no effect, however much of the node is fine", func(c *Ctx) {
				probeAll(c, stateSpace(th), badNodes(), small)
			}},
			{"block-children", "Block and multi-argument Write/Start with every ordered pair of children in every parent kind", func(c *Ctx) {
				starts := []xw.Startable{xw.Doc{}, xw.DTD{Name: "d"}, xw.DTDAttList{Name: "l"}, xw.Elem{Name: "e"}, xw.Comment{}, xw.CData{}}
				kids := []xw.Writable{xw.Attr{Name: "a"}, xw.Text("t"), xw.PI{Target: "p"}, xw.Comment{Content: "c"}, xw.CData{Content: "c"}, xw.Elem{Name: "k"},
					xw.CommentContent("c"), xw.CDataContent("c"), xw.DTDElem{Name: "e", Decl: "ANY"}, xw.DTDEntity{Name: "n"}, xw.DTDAttr{Name: "a", Type: "ID"}, xw.DTDAttList{Name: "l"}, xw.Notation{Name: "n", SystemID: "s"}}
				for _, s := range starts {
					for _, a := range kids {
						for _, b := range kids {
							o := opBlock(s, a, b)
							c.Case(func() string { return o.Desc }, func() error {
								r, err := runOps([]Op{o}, small)
								if err != nil {
									return err
								}
								c.res.Traces++
								c.Outcome(o.Desc)
								if r.Poisoned {
									return nil
								}
								return checkTree(r, false)
							})
						}
					}
				}
			}},
			atDepthPart(th, "every kind of node through every entry point, fine or refused for its values; a refused call has no effect", func() []Op { return append(probes(), badNodes()...) }),
			{"enforcement-on-indent", "the same verdicts with an indenter configured", func(c *Ctx) {
				cs, _ := contexts(alphaStates(), 2, 400)
				for _, cx := range cs {
					for _, o := range probes() {
						cx, o := cx, o
						c.Case(func() string { return "WithIndent: " + descOps(append(append([]Op{}, cx.ops...), o)) }, func() error {
							c.res.Traces++
							_, err := runOps(append(append([]Op{}, cx.ops...), o), &Setup{Opts: []xw.Option{xw.WithIndent()}})
							return err
						})
					}
				}
			}},
		}
	}})

	register(&Prop{ID: "C06", Level: "model_checking", Rule: ruleCtx, Assumptions: ctxAssume, Parts: func(th bool) []Part {
		return []Part{
			{"states-x-ends", "every End variant with every node kind and name combination in every control state; refused calls are followed by every follow-up and compared byte for byte with not having made the call", func(c *Ctx) {
				cs, _ := contexts(alphaStates(), pick(th, 2, 3), pick(th, 600, 5000))
				probeAll(c, cs, enders(), small)
			}},
			{"names", "End with names over every element prefix/name pair from a small set against every name argument", func(c *Ctx) {
				ns := []string{"", "a", "b", "ab", "a.b", "é", "a:b", "b:a", "a:"}
				for _, pfx := range ns {
					for _, nm := range ns[1:] {
						for _, x := range ns {
							for _, y := range append([]string{"\x00none"}, ns...) {
								args := []string{x, y}
								if y == "\x00none" {
									args = args[:1]
								}
								for variant := 0; variant < 3; variant++ {
									o := opEnd(xw.ElemNode, args...)
									if variant == 1 {
										o = opEndElem(args...)
									} else if variant == 2 {
										o = opEndElemFull(args...)
									}
									pre := []Op{opStart(xw.Elem{Name: "outer"}), opStart(xw.Elem{Prefix: pfx, Name: nm})}
									c.Case(func() string { return descOps(append(append([]Op{}, pre...), o)) }, func() error {
										r, err := runOps(append(append([]Op{}, pre...), o), small)
										if err != nil {
											return err
										}
										c.res.Traces++
										c.Outcome(fmt.Sprint(o.Desc, r.Verdicts))
										if r.Verdicts[2] == Refuse {
											for _, f := range followUps() {
												if err := noEffect(pre, o, []Op{f}); err != nil {
													return err
												}
											}
										}
										return checkTree(r, true)
									})
								}
							}
						}
					}
				}
			}},
			atDepthPart(th, "every End variant; a refused one has no effect", enders),
			{"end-sequences", "every sequence of up to 3 (thorough: 4) End calls on a document four nodes deep", func(c *Ctx) {
				al := func(i int) []Op {
					return []Op{opEndElem(), opEndElem("a"), opEndElem("b"), opEndElem("p", "c"), opEndElem("c"), opEndElemFull("b"), opEndElemFull(), opEndElemFull("p", "b"), opEndX(xw.CommentNode), opEnd(xw.DocNode), opEndDoc(), opEndAny(), opEndAll(), opEnd(xw.TextNode), opWrite(xw.Text("x"))}
				}
				c.sequences(seqOpts{depth: pick(th, 3, 5), judge: judgeTree(true), setup: small,
					prefix: []Op{opStart(xw.Doc{}), opStart(xw.Elem{Name: "a"}), opStart(xw.Elem{Prefix: "p", Name: "c"}), opStart(xw.Elem{Name: "b"})}}, al)
			}},
		}
	}})

	register(&Prop{ID: "C07", Level: "model_checking", Rule: ruleCtx, Assumptions: ctxAssume, Parts: func(th bool) []Part {
		return []Part{
			{"enders-are-EndAny", "in every control state EndAll, EndAllFlush, EndDoc and EndToDepth (every recorded depth, every kind, right and wrong name) equal the corresponding EndAny calls byte for byte", func(c *Ctx) {
				cs := stateSpace(th)
				for _, cx := range cs {
					cx := cx
					if !c.Take() {
						continue
					}
					c.Run(func() string { return descOps(cx.ops) + "; <every scope ender>" }, func() error {
						m, ok := modelState(cx.ops)
						if !ok {
							return errSkip
						}
						c.State(cx.key)
						if mm, _ := modelState(cx.ops); mm.EndAll() != Accept {
							return errSkip
						}
						n := m.Depth()
						anys := func(k int) []Op {
							out := append([]Op{}, cx.ops...)
							for i := 0; i < k; i++ {
								out = append(out, opEndAny())
							}
							return out
						}
						same := func(what string, o Op, ref []Op) error {
							c.res.Traces++
							c.Trans(cx.key, o.Desc)
							for _, f := range append([]Op{{Desc: "nothing", Do: func(*xw.Writer) error { return nil }}}, followUps()...) {
								m1, f1, e1 := snapshot(small, append(append(append([]Op{}, cx.ops...), o), f))
								m2, f2, e2 := snapshot(small, append(append([]Op{}, ref...), f))
								if strings.Contains(e1[:len(cx.ops)+1], "E") || strings.Contains(e2[:len(ref)], "E") {
									return fmt.Errorf("%s: refused (%s / %s)", what, e1, e2)
								}
								if m1 != m2 || f1 != f2 || e1[len(cx.ops)+1:] != e2[len(ref):] {
									return fmt.Errorf("%s then %s: got %q / %q (%s), the EndAny calls give %q / %q (%s)", what, f.Desc, clip(m1), clip(f1), e1, clip(m2), clip(f2), e2)
								}
							}
							c.Outcome(cx.key + what)
							return nil
						}
						if err := same("EndAll", opEndAll(), anys(n)); err != nil {
							return err
						}
						if err := same("EndAllFlush", Op{Desc: "w.EndAllFlush()", Do: func(w *xw.Writer) error { return w.EndAllFlush() }}, anys(n)); err != nil {
							return err
						}
						// EndAllFlush leaves nothing in the buffer
						var s sink
						w := (&Setup{}).open(&s)
						apply(w, cx.ops)
						if err := w.EndAllFlush(); err != nil {
							return err
						}
						held := len(s.b)
						if err := w.Flush(); err != nil || len(s.b) != held {
							return fmt.Errorf("EndAllFlush left %d bytes unflushed (%v)", len(s.b)-held, err)
						}
						if n > 0 && m.Stack[0].Kind == "doc" {
							if err := same("EndDoc", opEndDoc(), anys(n)); err != nil {
								return err
							}
						}
						var endDocErr error
						if n == 0 || m.Stack[0].Kind != "doc" {
							var s2 sink
							w := (&Setup{}).open(&s2)
							apply(w, cx.ops)
							if endDocErr = w.EndDoc(); endDocErr == nil {
								return fmt.Errorf("EndDoc without an open document returned nil")
							}
							for _, f := range followUps() {
								if err := noEffect(cx.ops, opEndDoc(), []Op{f}); err != nil {
									return err
								}
							}
						}
						for open := 0; open < n; open++ {
							last := m.Stack[open]
							for k, ks := range kindOf {
								for _, name := range [][]string{nil, {last.Name}, {last.Name + "x"}, {last.Prefix, last.Name}} {
									named := last.Kind == "elem" || last.Kind == "dtd" || last.Kind == "attlist"
									right := ks == last.Kind && (len(name) == 0 || named && len(name) == 1 && name[0] == last.Name || last.Kind == "elem" && len(name) == 2)
									o := opEndScope(open, k, name...)
									if right {
										if err := same(o.Desc, o, anys(n-open)); err != nil {
											return err
										}
										continue
									}
									var s3 sink
									w := (&Setup{}).open(&s3)
									apply(w, cx.ops)
									if err := o.Do(w); err == nil {
										return fmt.Errorf("%s must report the wrong kind or name but returned nil", o.Desc)
									}
									if d := w.Depth() - depthBase; d <= open {
										return fmt.Errorf("%s failed but ended the node it should not have (depth %d)", o.Desc, d)
									}
									for _, f := range followUps() {
										if err := noEffect(cx.ops, o, []Op{f}); err != nil {
											return fmt.Errorf("%s: %v", o.Desc, err)
										}
									}
								}
							}
						}
						// nothing above the recorded depth: an error, and no effect
						for _, k := range []xw.NodeKind{xw.ElemNode, xw.DocNode, xw.DTDNode, xw.CommentNode, xw.CDataNode, xw.DTDAttListNode} {
							for extra := 0; extra < 3; extra++ {
								o := opEndScope(n+extra, k)
								for _, f := range followUps() {
									if err := noEffect(cx.ops, o, []Op{f}); err != nil {
										return fmt.Errorf("%s: %v", o.Desc, err)
									}
								}
								var s3 sink
								w := (&Setup{}).open(&s3)
								apply(w, cx.ops)
								if o.Do(w) == nil {
									return fmt.Errorf("%s with nothing open above that depth returned nil", o.Desc)
								}
							}
						}
						return nil
					})
				}
			}},
			{"depth-is-relative", "Depth() rises by one per Start and falls by one per End, over every call sequence of length <= 3 (thorough: 4)", func(c *Ctx) {
				c.sequences(seqOpts{depth: pick(th, 3, 4), setup: small}, alphaFull)
			}},
			{"depth-value", "Depth() is the number of open nodes in every control state", func(c *Ctx) {
				for _, cx := range stateSpace(false) {
					cx := cx
					c.Case(func() string { return descOps(cx.ops) + "; w.Depth()" }, func() error {
						m, ok := modelState(cx.ops)
						if !ok {
							return errSkip
						}
						var s sink
						w := (&Setup{}).open(&s)
						apply(w, cx.ops)
						c.res.Traces++
						if d := w.Depth(); d != m.Depth() {
							err := fmt.Errorf("Depth() = %d with %d nodes open", d, m.Depth())
							if d == m.Depth()-1 {
								return knownErr{"depth-off-by-one", err}
							}
							return err
						}
						return nil
					})
				}
			}},
			{"scope-pattern", "the documented scope idiom (d := Depth(); defer EndToDepth(d, ...)) nested in every arrangement of up to 4 scopes and 3 opens per scope, at base depths 0..20", func(c *Ctx) {
				for base := 0; base <= 20; base++ {
					// scope i opens opens[i] elements, then runs scope i+1 after its pos-th open
					for code := 0; code < 4*4*4*4; code++ {
						base, code := base, code
						c.Case(func() string { return fmt.Sprintf("base depth %d, opens per scope code %d", base, code) }, func() error {
							var s sink
							w := (&Setup{}).open(&s)
							var want strings.Builder
							closeTags := []string{}
							for i := 0; i < base; i++ {
								if err := w.StartElem(xw.Elem{Name: "b"}); err != nil {
									return err
								}
								want.WriteString("<b>")
								closeTags = append(closeTags, "</b>")
							}
							var scope func(level, code int) error
							scope = func(level, code int) (err error) {
								d := w.Depth()
								n := code%4 + 1
								if n == 4 {
									n = 9
								}
								if level == 4 {
									return nil
								}
								for i := 0; i < n; i++ {
									nm := fmt.Sprintf("s%d.%d", level, i)
									if err := w.StartElem(xw.Elem{Name: nm}); err != nil {
										return err
									}
									if err := w.WriteText("x"); err != nil {
										return err
									}
									want.WriteString("<" + nm + ">x")
									if i == n-1 {
										if err := scope(level+1, code/4); err != nil {
											return err
										}
									}
								}
								if err := w.EndToDepth(d, xw.ElemNode, fmt.Sprintf("s%d.0", level)); err != nil {
									return err
								}
								for i := n - 1; i >= 0; i-- {
									want.WriteString(fmt.Sprintf("</s%d.%d>", level, i))
								}
								if w.Depth() != d {
									return fmt.Errorf("Depth %d after EndToDepth(%d)", w.Depth(), d)
								}
								return nil
							}
							if err := scope(0, code); err != nil {
								return err
							}
							if err := w.EndAllFlush(); err != nil {
								return err
							}
							for _, t := range closeTags {
								want.WriteString(t)
							}
							c.res.Traces++
							if s.String() != want.String() {
								return fmt.Errorf("got %q, want %q", clip(s.String()), clip(want.String()))
							}
							c.Outcome(s.String())
							return nil
						})
					}
				}
			}},
		}
	}})

	register(&Prop{ID: "C18", Level: "model_checking", Rule: ruleCtx, Assumptions: append([]string{"no indenter is configured (an indenter sees Raw as an event of its own)"}, ctxAssume...), Parts: func(th bool) []Part {
		return []Part{
			{"raw-anywhere", "Raw written in every control state (WriteRaw, Write(Raw), in Block), followed by every follow-up: exactly the given bytes at exactly that point and no other difference", func(c *Ctx) {
				raws := []string{"\x01RAW<&>\"'\xff]]>--", "R\x00\n\r\n", strings.Repeat("Q", 3000), "", " ", "\n", "/>", ">"}
				for _, cx := range stateSpace(th) {
					for ri, raw := range raws {
						cx, raw, ri := cx, raw, ri
						if !c.Take() {
							continue
						}
						c.Run(func() string { return descOps(cx.ops) + fmt.Sprintf("; w.WriteRaw(%q)", clip(raw)) }, func() error {
							c.State(cx.key)
							c.Trans(cx.key, fmt.Sprint("raw", ri))
							at, _, _ := snapshot(small, cx.ops)
							fu := append(followUps(), Op{Desc: "nothing", Do: func(*xw.Writer) error { return nil }})
							for vi, ro := range []Op{
								{Desc: "WriteRaw", Do: func(w *xw.Writer) error { return w.WriteRaw(raw) }},
								{Desc: "Write(Raw)", Do: func(w *xw.Writer) error { return w.Write(xw.Raw(raw)) }},
							} {
								for _, f := range fu {
									_, f1, e1 := snapshot(small, append(append([]Op{}, cx.ops...), f))
									_, f2, e2 := snapshot(small, append(append(append([]Op{}, cx.ops...), ro), f))
									c.res.Traces++
									if e2[len(cx.ops)] != '.' {
										return fmt.Errorf("%s refused", ro.Desc)
									}
									e2 = e2[:len(cx.ops)] + e2[len(cx.ops)+1:]
									if e1 != e2 {
										return fmt.Errorf("%s changed whether later calls are accepted: %s, without it %s (follow-up %s)", ro.Desc, e2, e1, f.Desc)
									}
									want := f1[:len(at)] + raw + f1[len(at):]
									if f2 != want {
										return fmt.Errorf("%s then %s: got %q, want %q", ro.Desc, f.Desc, clip(f2), clip(want))
									}
								}
								c.Outcome(cx.key + fmt.Sprint(vi, ri))
							}
							return nil
						})
					}
				}
			}},
			{"raw-strings", "every byte, every byte pair and every length up to 5000 across buffer sizes comes out unchanged", func(c *Ctx) {
				for a := 0; a < 256; a++ {
					a := a
					c.Case(func() string { return fmt.Sprintf("WriteRaw of every pair starting with byte %#x", a) }, func() error {
						for b := 0; b < 256; b++ {
							raw := string([]byte{byte(a), byte(b)})
							out, err := produce(small, func(w *xw.Writer) error {
								if err := w.StartElem(xw.Elem{Name: "e"}); err != nil {
									return err
								}
								return w.WriteRaw(raw)
							})
							c.res.Traces++
							if err != nil || out != "<e"+raw+"/>" {
								return fmt.Errorf("WriteRaw(%q): %q %v", raw, out, err)
							}
						}
						c.Outcome(fmt.Sprint(a))
						return nil
					})
				}
				for _, buf := range []int{16, 64, 2048} {
					for n := 0; n < 5000; n += pick(th, 7, 1) {
						buf, n := buf, n
						c.Case(func() string { return fmt.Sprintf("InitialBufSize=%d: WriteRaw of %d bytes twice", buf, n) }, func() error {
							raw := strings.Repeat("0123456789", n/10+1)[:n]
							out, err := produce(&Setup{Opts: []xw.Option{withBuf(buf)}}, func(w *xw.Writer) error {
								if err := w.WriteRaw(raw); err != nil {
									return err
								}
								return w.Write(xw.Raw("|"), xw.Raw(raw))
							})
							c.res.Traces++
							if err != nil || out != raw+"|"+raw {
								return fmt.Errorf("%d bytes in, %d out, %v", 2*n+1, len(out), err)
							}
							return nil
						})
					}
				}
			}},
			{"next-closes-the-start-tag", "Next in every control state: closes a pending start tag (so that Raw lands in the content), is idempotent, and makes the element non-empty", func(c *Ctx) {
				for _, cx := range stateSpace(th) {
					cx := cx
					c.Case(func() string { return descOps(cx.ops) + "; w.Next()" }, func() error {
						m, ok := modelState(cx.ops)
						if !ok {
							return errSkip
						}
						c.State(cx.key)
						c.Trans(cx.key, "next")
						if mm, _ := modelState(cx.ops); mm.next() != Accept {
							return errSkip
						}
						c.res.Traces++
						with := append(append([]Op{}, cx.ops...), opNext())
						at, fin, e := snapshot(small, with)
						if e[len(cx.ops)] != '.' {
							return fmt.Errorf("Next refused: %s", e)
						}
						at2, fin2, _ := snapshot(small, append(append([]Op{}, with...), opNext()))
						if at != at2 || fin != fin2 {
							return fmt.Errorf("second Next had an effect: %q, once %q", clip(fin2), clip(fin))
						}
						rawOp := Op{Desc: "raw", Do: func(w *xw.Writer) error { return w.WriteRaw("\x01") }}
						_, f, _ := snapshot(small, append(append([]Op{}, with...), rawOp))
						if f != at+"\x01"+fin[len(at):] {
							return fmt.Errorf("Raw after Next: %q, without Raw %q", clip(f), clip(fin))
						}
						c.Outcome(f)
						if fr := m.top(); fr != nil && fr.Kind == "elem" {
							if !strings.HasSuffix(at, ">") && fr.Open && !fr.hadKids {
								return fmt.Errorf("start tag not closed by Next: %q", at)
							}
							if !strings.HasPrefix(fin[len(at):], "</"+qname(fr.Prefix, fr.Name)+">") {
								return fmt.Errorf("element not ended in full form after Next: %q", fin)
							}
						}
						r, err := runOps(with, small)
						if err != nil {
							return err
						}
						if r.Poisoned {
							return nil
						}
						return checkTree(r, true)
					})
				}
			}},
		}
	}})
}
