package main

// C21 independence of writers, C22 history independence and reuse of values,
// C23 validation off.

import (
	"fmt"
	"io"
	"os"
	"reflect"
	"strconv"
	"strings"
	"sync"

	xw "github.com/shabbyrobe/xmlwriter"
	"golang.org/x/text/encoding/charmap"
	"golang.org/x/text/encoding/unicode"
)

// script is a named history on one kind of writer.
type script struct {
	name string
	open func(dst io.Writer) *xw.Writer
	ops  []Op
}

func (s script) solo() (out, errs string) {
	var k sink
	w := s.open(&k)
	errs = apply(w, s.ops)
	if err := w.EndAllFlush(); err != nil {
		errs += " " + err.Error()
		w.Flush()
	}
	return k.String(), errs
}

func scripts() []script {
	utf8w := func(bs int) func(io.Writer) *xw.Writer {
		return func(dst io.Writer) *xw.Writer { return xw.Open(dst, withBuf(bs)) }
	}
	// one Option value configures many writers
	optInd, optInd2, optBuf := xw.WithIndent(), xw.WithIndentString("\t"), withBuf(16)
	ind := func(dst io.Writer) *xw.Writer { return xw.Open(dst, optBuf, optInd) }
	ind2 := func(dst io.Writer) *xw.Writer { return xw.Open(dst, optBuf, optInd2) }
	off := func(dst io.Writer) *xw.Writer { return xw.Open(dst, withBuf(16), noEnforce()) }
	u16 := func(dst io.Writer) *xw.Writer {
		return xw.OpenEncoding(dst, "utf-16", unicode.UTF16(unicode.BigEndian, unicode.UseBOM).NewEncoder(), withBuf(16))
	}
	w1252 := func(dst io.Writer) *xw.Writer {
		return xw.OpenEncoding(dst, "windows-1252", charmap.Windows1252.NewEncoder(), withBuf(16))
	}
	long := strings.Repeat("v<é>&\"' ж", 12)
	ops := func(k string) [][]Op {
		return [][]Op{
			{opStart(xw.Doc{}), opStartX(xw.Elem{Name: k + "a", Attrs: []xw.Attr{{Name: "x", Value: k + long}}}), opWriteX(xw.Text(k + long)), opWriteX(xw.Elem{Name: k + "b", Content: []xw.Writable{xw.Text(k), xw.Elem{Name: "c"}}}), opEndDoc()},
			{opStartX(xw.Elem{Prefix: k + "p", URI: k + "u", Name: "n"}), opWriteX(xw.Attr{Prefix: k + "q", URI: k + "w", Name: "m", Value: k}), opStartX(xw.Comment{Content: k}), opWrite(xw.CommentContent(k + strings.Repeat("c", 40))), opEndAny(), opEndElem()},
			{opStart(xw.Doc{}), opStartX(xw.DTD{Name: k + "d", SystemID: k + "sys"}), opWriteX(xw.DTDAttList{Name: k + "l", Attrs: []xw.DTDAttr{{Name: k, Type: xw.DTDAttrString, Value: k + long}}}), opWriteX(xw.DTDEntity{Name: k + "e", Content: k + "v"}), opWriteX(xw.Notation{Name: k + "n", PublicID: k}), opEndDoc()},
			{opStartX(xw.Elem{Name: k + "r"}), opStartX(xw.CData{}), opWrite(xw.CDataContent(k + "]")), opWrite(xw.CDataContent(">" + strings.Repeat(k, 30))), opEndX(xw.CDataNode), opWriteX(xw.PI{Target: k + "t", Content: k + long}), opEndElemFull()},
			{opStartX(xw.Elem{Name: k + "r"}), opEndElem("wrong"), opWriteX(xw.Text(k + "x")), opWrite(xw.DTDElem{Name: "no", Decl: "ANY"}), opWrite(xw.CommentContent("no")), opStartX(xw.Elem{Name: k + "s"}), opEndElem(k + "s")},
			{opStartX(xw.Elem{Name: k + "1"}), opStartX(xw.Elem{Name: k + "_2"}), opStartX(xw.Elem{Name: k + "_3"}), opWriteX(xw.Text("a\r\n" + long)), opEndAll()},
		}
	}
	var out []script
	for i, k := range []string{"k", "z"} {
		o := ops(k)
		// names must begin with a letter: k+"1" does
		out = append(out,
			script{fmt.Sprintf("utf8-16/%d", i), utf8w(16), o[0]}, script{fmt.Sprintf("utf8-2048/%d", i), utf8w(2048), o[1]},
			script{fmt.Sprintf("indented/%d", i), ind, o[2]}, script{fmt.Sprintf("utf8-1/%d", i), utf8w(1), o[3]},
			script{fmt.Sprintf("indented-tab/%d", i), ind2, o[0]}, script{fmt.Sprintf("utf16/%d", i), u16, o[0]},
			script{fmt.Sprintf("windows-1252/%d", i), w1252, o[3]}, script{fmt.Sprintf("refusing/%d", i), utf8w(16), o[4]},
			script{fmt.Sprintf("unenforced/%d", i), off, o[1]}, script{fmt.Sprintf("deep/%d", i), ind, o[5]},
		)
	}
	return out
}

// stepper runs a script call by call.
type stepper struct {
	s    script
	k    sink
	w    *xw.Writer
	i    int
	errs []byte
	done bool
	tail string
}

func newStepper(s script) *stepper {
	p := &stepper{s: s}
	p.w = s.open(&p.k)
	return p
}

// steps is the number of calls of a script including the closing one.
func (s script) steps() int { return len(s.ops) + 1 }

func (p *stepper) step() {
	if p.i < len(p.s.ops) {
		if p.s.ops[p.i].Do(p.w) != nil {
			p.errs = append(p.errs, 'E')
		} else {
			p.errs = append(p.errs, '.')
		}
		p.i++
		return
	}
	if !p.done {
		p.done = true
		if err := p.w.EndAllFlush(); err != nil {
			p.tail = " " + err.Error()
			p.w.Flush()
		}
	}
}
func (p *stepper) run(n int) {
	for i := 0; i < n; i++ {
		p.step()
	}
}
func (p *stepper) check(out, errs string) error {
	if got := p.k.String(); got != out {
		return fmt.Errorf("writer %s produced %q, alone it produces %q", p.s.name, clip(got), clip(out))
	}
	if got := string(p.errs) + p.tail; got != errs {
		return fmt.Errorf("writer %s: calls returned %q, alone %q", p.s.name, got, errs)
	}
	return nil
}

// hookSink calls f before each write.
type hookSink struct {
	k *sink
	f func()
}

func (h *hookSink) Write(p []byte) (int, error) {
	// the bytes are looked at after the other writer has run: a library that
	// shares a buffer between writers shows here
	h.f()
	return h.k.Write(p)
}

type hookIndenter struct {
	in xw.Indenter
	f  func()
}

func (h *hookIndenter) Indent(w *xw.Writer, last, next xw.Event) error {
	h.f()
	if h.in == nil {
		return nil
	}
	return h.in.Indent(w, last, next)
}
func (h *hookIndenter) Wrap(s string) string {
	h.f()
	if h.in == nil {
		return s
	}
	return h.in.Wrap(s)
}

// raceScripts only touch their own values.
func raceBody(a, b script) error {
	outA, errA := a.solo()
	outB, errB := b.solo()
	for round := 0; round < 3; round++ {
		pa, pb := newStepper(a), newStepper(b)
		var ready, done sync.WaitGroup
		ready.Add(2)
		done.Add(2)
		start := make(chan struct{})
		for _, p := range []*stepper{pa, pb} {
			p := p
			go func() {
				defer done.Done()
				ready.Done()
				<-start
				p.run(p.s.steps())
			}()
		}
		ready.Wait()
		close(start)
		done.Wait()
		if err := pa.check(outA, errA); err != nil {
			return err
		}
		if err := pb.check(outB, errB); err != nil {
			return err
		}
	}
	return nil
}

func init() {
	register(&Prop{ID: "C21", Level: "model_checking",
		Rule:        "every interleaving of the calls of two writers' scripts; every placement of one writer's calls inside the other's sink-write and indenter callbacks (the only points where a single call hands over control), cut into two pieces at every pair of points; and a happens-before (vector clock) check of the real accesses of every pair of scripts run on two goroutines: no conflicting pair of accesses means that all thread interleavings of the pair are equivalent to the serial one; non-trivial = a distinct (pair, schedule)",
		Assumptions: []string{"each writer has its own destination, encoder and indenter", "the happens-before check covers the accesses on the executed paths of the scripts"},
		Parts: func(th bool) []Part {
			return []Part{
				{"call-interleavings", "every interleaving of the calls of every pair of scripts", func(c *Ctx) {
					ss := scripts()
					for i, a := range ss {
						for j, b := range ss {
							if j < i || (!th && (i+j)%3 != 0 && j != i+10) {
								continue
							}
							a, b := a, b
							outA, errA := a.solo()
							outB, errB := b.solo()
							na, nb := a.steps(), b.steps()
							var rec func(sched []byte, x, y int)
							rec = func(sched []byte, x, y int) {
								if c.Stop() {
									return
								}
								if x == na && y == nb {
									sc := string(sched)
									c.Case(func() string { return fmt.Sprintf("%s (A) with %s (B), schedule %s", a.name, b.name, sc) }, func() error {
										pa, pb := newStepper(a), newStepper(b)
										for _, s := range sc {
											st := a.name + b.name + strconv.Itoa(pa.i) + "," + strconv.Itoa(pb.i) + "," + strconv.Itoa(len(pa.k.b)) + "," + strconv.Itoa(len(pb.k.b))
											c.State(st)
											c.Trans(st, string(s))
											if s == 'A' {
												pa.step()
											} else {
												pb.step()
											}
										}
										c.res.Traces++
										c.Outcome(a.name + b.name + sc)
										if err := pa.check(outA, errA); err != nil {
											return err
										}
										return pb.check(outB, errB)
									})
									return
								}
								if x < na {
									rec(append(sched, 'A'), x+1, y)
								}
								if y < nb {
									rec(append(sched, 'B'), x, y+1)
								}
							}
							rec(nil, 0, 0)
						}
					}
				}},
				{"inside-sink-writes", "every pair of scripts: B's calls run inside A's sink writes, cut into two pieces at every pair of writes and every cut", func(c *Ctx) {
					insideCallbacks(c, th, false)
				}},
				{"inside-indenter", "the same inside A's indenter callbacks", func(c *Ctx) {
					insideCallbacks(c, th, true)
				}},
				{"happens-before", "every pair of scripts on two goroutines in a build with the race detector", func(c *Ctx) {
					ss := scripts()
					for _, a := range ss {
						for _, b := range ss {
							a, b := a, b
							c.Case(func() string { return fmt.Sprintf("%s and %s concurrently", a.name, b.name) }, func() error {
								if !raceEnabled && os.Getenv("VERIF_NORACE") == "" {
									return fmt.Errorf("harness: built without the race detector")
								}
								c.res.Traces++
								c.Outcome("race" + a.name + b.name)
								return raceBody(a, b)
							})
						}
					}
				}},
			}
		}})

	register(&Prop{ID: "C22", Level: "exploration",
		Rule:        "every pair (preceding complete subtree, subtree) of a family under every context, every node value written twice, every node value with slices compared before and after; non-trivial = a distinct output",
		Assumptions: []string{"no indenter is configured (layout may depend on siblings)"},
		Parts: func(th bool) []Part {
			fam := func() []*tnode {
				var out []*tnode
				for n := 1; n <= pick(th, 3, 4); n++ {
					forests(n, leaves, elemsFor, func(kids []*tnode) {
						if len(kids) == 1 {
							out = append(out, kids[0])
						}
					})
				}
				return out
			}
			return []Part{
				{"siblings", "every pair of subtrees of up to 3 (thorough: 4) nodes: the second is written the same whatever stood before it", func(c *Ctx) {
					fs := fam()
					render := func(open []Op, ns ...*tnode) (string, error) {
						return produce(small, func(w *xw.Writer) error {
							for _, o := range open {
								if err := o.Do(w); err != nil {
									return err
								}
							}
							if err := w.WriteRaw("\x01"); err != nil {
								return err
							}
							for _, n := range ns {
								if n == nil {
									continue
								}
								next := 0
								styles := make([]int, 16)
								for i := range styles {
									styles[i] = 1
								}
								if err := n.write(w, styles, &next); err != nil {
									return err
								}
								if err := w.WriteRaw("\x01"); err != nil {
									return err
								}
							}
							return nil
						})
					}
					open := []Op{opStartX(xw.Elem{Name: "root"}), opNext()}
					for _, a := range fs {
						for _, b := range fs {
							a, b := a, b
							c.Case(func() string { return descForest([]*tnode{a}) + " then " + descForest([]*tnode{b}) }, func() error {
								alone, err := render(open, b)
								if err != nil {
									return err
								}
								both, err := render(open, a, b)
								if err != nil {
									return err
								}
								c.res.Traces++
								x, y := strings.Split(alone, "\x01"), strings.Split(both, "\x01")
								if len(x) != 3 || len(y) != 4 {
									return fmt.Errorf("harness: %q %q", alone, both)
								}
								if x[1] != y[2] {
									return fmt.Errorf("alone %q, after %q it is %q", x[1], y[1], y[2])
								}
								c.Outcome(both)
								return nil
							})
						}
					}
				}},
				{"after-history", "every subtree after every history of up to 3 (thorough: 4) calls that leaves the same node open (including refused calls, deep nesting, namespaces, unfinished content) is written the same", func(c *Ctx) {
					// histories return to the root's content
					alpha := func(i int) []Op {
						return append(alphaFull(i), opWrite(nest(20, "deep")), opWrite(xw.Elem{Name: "many", Attrs: manyAttrs(12)}),
							opWrite(xw.Elem{Prefix: "p", URI: "other", Name: "ns"}), opEndElem("nope"), opWrite(xw.Attr{Name: ""}),
							opStart(xw.CData{Content: "]]"}), opWrite(xw.CDataContent("]]")), opWrite(xw.CData{Content: "]]"}), opWrite(xw.CData{Content: "]"}), opWriteX(xw.Text("]]")), opStart(xw.Comment{Content: "a-"}))
					}
					probes, run := histProbes, histRun
					pre := []Op{opStartX(xw.Elem{Name: "root"}), opNext()}
					want := make([]string, len(probes))
					for i, p := range probes {
						want[i], _ = run(pre, p)
					}
					depth := pick(th, 3, 4)
					var rec func(ops []Op, n int)
					rec = func(ops []Op, n int) {
						if c.Stop() {
							return
						}
						m := newModel()
						v := Accept
						for _, o := range ops {
							if v = o.M(m); v == Out || v == Poison {
								return
							}
						}
						closed := append([]Op{}, ops...)
						f := m.top()
						if f != nil && f.Kind == "comment" && strings.HasSuffix(f.Node.Value+f.content, "-") {
							closed = append(closed, opWrite(xw.CommentContent("x")))
						}
						for d := m.Depth(); d > 1; d-- {
							closed = append(closed, opEndAny())
						}
						if m.Depth() >= 1 {
							if c.Take() {
								c.Run(func() string { return descOps(closed) }, func() error {
									if mm := newModel(); true {
										for _, o := range closed {
											if v := o.M(mm); v == Out || v == Poison {
												return errSkip
											}
										}
										if mm.Depth() != 1 || mm.cur() != "elem" || mm.top().Open {
											return errSkip
										}
									}
									for i, p := range probes {
										got, err := run(closed, p)
										if err != nil {
											return fmt.Errorf("then %s: %v", p.Desc, err)
										}
										c.res.Traces++
										if got != want[i] {
											return fmt.Errorf("then %s writes %q, in a fresh element %q", p.Desc, got, want[i])
										}
									}
									c.Outcome(descOps(closed))
									return nil
								})
							}
						}
						if n == 0 {
							return
						}
						for _, o := range alpha(len(ops)) {
							rec(append(ops[:len(ops):len(ops)], o), n-1)
						}
					}
					rec(pre, depth)
				}},
				{"after-switches", "every subtree after every history of up to 3 (thorough: 4) calls, including content only an unenforced writer takes, written with Enforce or StrictChars off or with an indenter, and switched back: written the same as in a fresh element", func(c *Ctx) { unenforced(c, th) }},
				{"reuse", "every node value (with spare capacity in its slices) written twice in every style, by one writer and by two: same bytes, and the value, its slices and the spare capacity unchanged", func(c *Ctx) {
					for _, t := range fam() {
						if t.kind != "elem" {
							continue
						}
						for style := 0; style < nStyles; style++ {
							for writers := 1; writers <= 2; writers++ {
								t, style, writers := t, style, writers
								c.Case(func() string { return fmt.Sprintf("%s, style %d, %d writers", descForest([]*tnode{t}), style, writers) }, func() error {
									return reuse(c, t, style, writers)
								})
							}
						}
					}
				}},
				{"reused-options", "one Option value opens many writers in a row, earlier ones finished or abandoned after every number of calls: each later one writes what a writer with options of its own writes", func(c *Ctx) {
					mk := func() []xw.Option {
						return []xw.Option{xw.WithIndent(), xw.WithIndentString("\t"), xw.WithIndentString("")}
					}
					ss := scripts()
					for oi := range mk() {
						for _, a := range ss {
							for _, b := range ss {
								for cut := 0; cut <= a.steps(); cut++ {
									a, b, cut, oi := a, b, cut, oi
									c.Case(func() string { return fmt.Sprintf("option %d: %d calls of %s, then %s", oi, cut, a.name, b.name) }, func() error {
										o := mk()[oi]
										with := func(s script, o xw.Option) script {
											s.open = func(dst io.Writer) *xw.Writer { return xw.Open(dst, withBuf(16), o) }
											return s
										}
										newStepper(with(a, o)).run(cut)
										got, gotE := with(b, o).solo()
										want, wantE := with(b, mk()[oi]).solo()
										c.res.Traces++
										c.Outcome(got)
										if got != want || gotE != wantE {
											return fmt.Errorf("got %q (%s), with an option of its own %q (%s)", clip(got), gotE, clip(want), wantE)
										}
										return nil
									})
								}
							}
						}
					}
				}},
				{"reuse-attlist", "DTDAttList values reused", func(c *Ctx) {
					for n := 0; n <= 3; n++ {
						for start := 0; start < 2; start++ {
							n, start := n, start
							c.Case(func() string { return fmt.Sprintf("attlist with %d attributes, started=%d", n, start) }, func() error {
								backing := make([]xw.DTDAttr, 5)
								for i := range backing {
									backing[i] = xw.DTDAttr{Name: fmt.Sprintf("a%d", i), Type: xw.DTDAttrString, Value: "v"}
								}
								keep := append([]xw.DTDAttr{}, backing...)
								al := xw.DTDAttList{Name: "l", Attrs: backing[:n]}
								out, err := produce(nil, func(w *xw.Writer) error {
									for i := 0; i < 2; i++ {
										if start == 0 {
											if err := w.Write(al); err != nil {
												return err
											}
											continue
										}
										if err := w.Start(al); err != nil {
											return err
										}
										if err := w.Write(xw.DTDAttr{Name: "own", Type: xw.DTDAttrID}); err != nil {
											return err
										}
										if err := w.EndDTDAttList(); err != nil {
											return err
										}
									}
									return nil
								})
								if err != nil {
									return err
								}
								c.res.Traces++
								c.Outcome(out)
								if out[:len(out)/2] != out[len(out)/2:] {
									return fmt.Errorf("written twice: %q", out)
								}
								if !reflect.DeepEqual(keep, backing) {
									return fmt.Errorf("the caller's slice was changed to %v", backing)
								}
								return nil
							})
						}
					}
				}},
			}
		}})

	register(&Prop{ID: "C23", Level: "model_checking", Rule: ruleSeq + "; every fully accepted sequence is run again with Enforce=false (and with StrictChars=false) and must give the same bytes without an error",
		Assumptions: stdAssume,
		Parts: func(th bool) []Part {
			judge := func(ops []Op, r *runResult) error {
				if r.Poisoned {
					return nil
				}
				for _, v := range r.Verdicts {
					if v != Accept {
						return errSkip
					}
				}
				_, want, errs := snapshot(small, ops)
				if strings.Contains(errs, "E") || strings.Contains(errs, ":") {
					return errSkip
				}
				for _, st := range []*Setup{{Opts: []xw.Option{noEnforce()}}, {Opts: []xw.Option{lax()}}, {Opts: []xw.Option{noEnforce(), lax()}}} {
					_, got, errs := snapshot(st, ops)
					if strings.Contains(errs, "E") || strings.Contains(errs, ":") {
						return fmt.Errorf("accepted with validation, refused without: %s", errs)
					}
					if got != want {
						return fmt.Errorf("with validation %q, without %q", clip(want), clip(got))
					}
				}
				return nil
			}
			doc := []Op{opStart(xw.Doc{}), opStart(xw.Elem{Name: "root"})}
			return []Part{
				{"full", "full alphabet", func(c *Ctx) {
					c.sequences(seqOpts{depth: pick(th, 3, 4), pruneRefused: true, judge: judge}, alphaFull)
				}},
				{"in-doc", "below an open document and root element", func(c *Ctx) {
					c.sequences(seqOpts{depth: pick(th, 3, 4), pruneRefused: true, judge: judge, prefix: doc}, alphaFull)
				}},
				{"tree-deep", "element content", func(c *Ctx) {
					c.sequences(seqOpts{depth: pick(th, 5, 6), pruneRefused: true, judge: judge}, alphaTree)
				}},
				{"dtd-deep", "markup declarations", func(c *Ctx) {
					c.sequences(seqOpts{depth: pick(th, 4, 5), pruneRefused: true, judge: judge, prefix: doc[:1]}, alphaDTD)
				}},
				{"content", "comment and CDATA sections in pieces", func(c *Ctx) {
					c.sequences(seqOpts{depth: pick(th, 4, 5), pruneRefused: true, judge: judge, prefix: doc[1:]}, alphaContent)
				}},
				{"rich", "rich documents", func(c *Ctx) {
					for di, ops := range richDocs() {
						ops := ops
						c.Case(func() string { return fmt.Sprintf("rich document %d", di) }, func() error {
							want, err := runAll(nil, ops)
							if err != nil {
								return err
							}
							got, err := runAll(&Setup{Opts: []xw.Option{noEnforce()}}, ops)
							if err != nil {
								return err
							}
							c.Outcome(got)
							if got != want {
								return fmt.Errorf("with validation %q, without %q", clip(want), clip(got))
							}
							return nil
						})
					}
				}},
			}
		}})
}

func nest(n int, name string) xw.Elem {
	e := xw.Elem{Name: name}
	for i := 0; i < n; i++ {
		e = xw.Elem{Name: fmt.Sprintf("%s%d", name, i), Content: []xw.Writable{e}}
	}
	return e
}

func manyAttrs(n int) []xw.Attr {
	var out []xw.Attr
	for i := 0; i < n; i++ {
		out = append(out, xw.Attr{Prefix: fmt.Sprintf("p%d", i), URI: fmt.Sprintf("u%d", i), Name: "a", Value: "v"})
	}
	return out
}

// spare gives a slice of attributes two elements of spare capacity.
func reuse(c *Ctx, t *tnode, style, writers int) error {
	var backings []interface{}
	var keeps []interface{}
	var fix func(n *tnode) *tnode
	fix = func(n *tnode) *tnode {
		m := *n
		if n.kind == "elem" {
			b := make([]xw.Attr, 0, len(n.elem.Attrs)+2)
			b = append(b, n.elem.Attrs...)
			full := b[:cap(b)]
			full[len(b)], full[len(b)+1] = xw.Attr{Name: "spare1"}, xw.Attr{Name: "spare2"}
			backings = append(backings, full)
			keeps = append(keeps, append([]xw.Attr{}, full...))
			m.elem.Attrs = b
			m.kids = nil
			for _, k := range n.kids {
				m.kids = append(m.kids, fix(k))
			}
		}
		return &m
	}
	f := fix(t)
	val := f.structured().(xw.Elem)
	content := make([]xw.Writable, 0, len(val.Content)+2)
	content = append(content, val.Content...)
	val.Content = content
	fullContent := content[:cap(content)]
	fullContent[len(content)] = xw.Text("spare")
	fullContent[len(content)+1] = xw.Text("spare")
	keepContent := append([]xw.Writable{}, fullContent...)
	keepVal := val

	put := func(w *xw.Writer) error {
		switch style {
		case 0:
			return w.Write(val)
		case 1:
			if err := w.Start(val); err != nil {
				return err
			}
			if err := w.WriteAttr(xw.Attr{Prefix: "own", URI: "o", Name: "own", Value: "x"}); err != nil {
				return err
			}
			return w.End(xw.ElemNode)
		case 2:
			return w.Block(val, xw.Text("block"))
		case 3:
			return w.Block(xw.Elem{Name: "outer"}, val, val)
		}
		if err := w.StartElem(val); err != nil {
			return err
		}
		return w.EndElemFull(val.Name)
	}
	var outs []string
	if writers == 1 {
		out, err := produce(small, func(w *xw.Writer) error {
			for i := 0; i < 2; i++ {
				if err := put(w); err != nil {
					return err
				}
			}
			return nil
		})
		if err != nil {
			return err
		}
		outs = []string{out[:len(out)/2], out[len(out)/2:]}
	} else {
		for i := 0; i < 2; i++ {
			out, err := produce(small, put)
			if err != nil {
				return err
			}
			outs = append(outs, out)
		}
	}
	c.res.Traces++
	c.Outcome(outs[0])
	if outs[0] != outs[1] {
		return fmt.Errorf("first %q, then %q", outs[0], outs[1])
	}
	for i := range backings {
		if !reflect.DeepEqual(backings[i], keeps[i]) {
			return fmt.Errorf("the caller's attributes were changed from %v to %v", keeps[i], backings[i])
		}
	}
	if !reflect.DeepEqual(fullContent, keepContent) {
		return fmt.Errorf("the caller's content was changed from %v to %v", keepContent, fullContent)
	}
	if !reflect.DeepEqual(val, keepVal) {
		return fmt.Errorf("the caller's value was changed")
	}
	return nil
}

// insideCallbacks runs B's calls inside A's callbacks.
func insideCallbacks(c *Ctx, th, indenter bool) {
	ss := scripts()
	openHooked := func(a script, f func()) *stepper {
		p := &stepper{s: a}
		if indenter {
			p.w = a.open(&p.k)
			p.w.Indenter = &hookIndenter{p.w.Indenter, f}
		} else {
			p.w = a.open(&hookSink{&p.k, f})
		}
		return p
	}
	for i, a := range ss {
		for j, b := range ss {
			if !th && (i*7+j)%5 != 0 {
				continue
			}
			a, b := a, b
			// A alone, with the hook doing nothing
			n := 0
			base := openHooked(a, func() { n++ })
			base.run(a.steps())
			outA, errA := base.k.String(), string(base.errs)+base.tail
			outB, errB := b.solo()
			nb := b.steps()
			pts := n
			if pts > 40 && !th {
				pts = 40
			}
			for p1 := 1; p1 <= pts; p1++ {
				for p2 := p1; p2 <= pts; p2++ {
					if p2 > p1+3 && p2 != pts && !th {
						continue
					}
					for cut := 0; cut < nb; cut++ {
						if p1 == p2 && cut > 0 {
							break
						}
						p1, p2, cut := p1, p2, cut
						c.Case(func() string {
							return fmt.Sprintf("%d calls of %s inside callback %d of %s, the rest inside callback %d", cut, b.name, p1, a.name, p2)
						}, func() error {
							k := 0
							pb := newStepper(b)
							pa := openHooked(a, func() {
								k++
								if k == p1 {
									pb.run(cut)
								}
								if k == p2 {
									pb.run(nb - cut)
								}
							})
							pa.run(a.steps())
							c.res.Traces++
							c.Outcome(fmt.Sprint(a.name, b.name, p1, p2, cut, indenter))
							if err := pa.check(outA, errA); err != nil {
								return err
							}
							return pb.check(outB, errB)
						})
						if c.Stop() {
							return
						}
					}
				}
			}
		}
	}
}

// histProbes are what is written after a history.
var histProbes = []Op{
	opWriteX(xw.Elem{Name: "probe"}), opWriteX(xw.Elem{Name: "probe", Attrs: []xw.Attr{{Prefix: "q", URI: "v", Name: "b", Value: "<"}}, Content: []xw.Writable{xw.Elem{Name: "x"}}}),
	opWriteX(xw.Comment{Content: "probe"}), opWriteX(xw.CData{Content: ">probe]"}), opWriteX(xw.Text("pro&be")), opWriteX(xw.PI{Target: "probe"}),
	opBlock(xw.Elem{Prefix: "p", URI: "u", Name: "n"}, xw.Attr{Prefix: "z", URI: "w", Name: "a"}, xw.Text("t")),
	opBlock(xw.Comment{}, xw.CommentContent("-"), xw.CommentContent("x")),
	opBlock(xw.CData{}, xw.CDataContent(">"), xw.CDataContent("]]")),
	opBlock(xw.Comment{Content: "-"}, xw.CommentContent(""), xw.CommentContent("x")), opBlock(xw.Comment{}), opBlock(xw.CData{}), opBlock(xw.CData{Content: ">"}), opBlock(xw.CData{}, xw.CDataContent("]>")),
	opBlock(xw.Elem{Name: "e"}), opBlock(xw.Elem{Name: "e"}, xw.Attr{Prefix: "p", URI: "v", Name: "a"}), opWrite(xw.Elem{Prefix: "p", URI: "v", Name: "e", Full: true}),
}

// histRun applies ops and then writes the probe between two marks.
func histRun(ops []Op, probe Op) (string, error) {
	var s sink
	w := small.open(&s)
	apply(w, ops)
	w.WriteRaw("\x01")
	if err := probe.Do(w); err != nil {
		return "", err
	}
	w.WriteRaw("\x01")
	if err := w.Flush(); err != nil {
		return "", err
	}
	x := strings.Split(s.String(), "\x01")
	if len(x) != 3 {
		return "", fmt.Errorf("harness: %q", s.String())
	}
	return x[1], nil
}

// twin is a call that only an unenforced writer takes; its effect on the
// structure is that of the legal call.
func twin(bad, legal Op) Op { return Op{Desc: bad.Desc, Do: bad.Do, M: legal.M} }

// unenforced: histories written with a check or the indenter switched off (or
// another one on), which is switched back before the probe.
func unenforced(c *Ctx, th bool) {
	alpha := func(i int, twins bool) []Op {
		legal := append(alphaFull(i), opWrite(nest(20, "deep")), opWrite(xw.Elem{Name: "many", Attrs: manyAttrs(12)}), opStart(xw.CData{Content: "]]"}), opWrite(xw.CDataContent("]]")))
		if !twins {
			return legal
		}
		return append(legal,
			twin(opWrite(xw.Comment{Content: "x-"}), opWrite(xw.Comment{})),
			twin(opWrite(xw.Comment{Content: "a--b"}), opWrite(xw.Comment{})),
			twin(opStart(xw.Comment{Content: "--"}), opStart(xw.Comment{})),
			twin(opWrite(xw.CommentContent("b--")), opWrite(xw.CommentContent("b"))),
			twin(opWrite(xw.CData{Content: "a]]>b]"}), opWrite(xw.CData{})),
			twin(opStart(xw.CData{Content: "]]>]]"}), opStart(xw.CData{})),
			twin(opWrite(xw.CDataContent("]]>]")), opWrite(xw.CDataContent(""))),
			twin(opWrite(xw.PI{Target: "xml", Content: "?>\x02"}), opWrite(xw.PI{Target: "t"})),
			twin(opWrite(xw.Elem{Name: "a b"}), opWrite(xw.Elem{Name: "e"})),
			twin(opStart(xw.Elem{Name: "1", Prefix: "-", URI: "u"}), opStart(xw.Elem{Name: "e"})),
			twin(opWrite(xw.Attr{Name: "<", Value: "v"}), opWrite(xw.Attr{Name: fmt.Sprintf("a%d", i), Value: "v"})),
		)
	}
	modes := []struct {
		name    string
		off, on func(w *xw.Writer)
	}{
		{"Enforce=false", func(w *xw.Writer) { w.Enforce = false }, func(w *xw.Writer) { w.Enforce = true }},
		{"Enforce=false, StrictChars=false", func(w *xw.Writer) { w.Enforce, w.StrictChars = false, false }, func(w *xw.Writer) { w.Enforce, w.StrictChars = true, true }},
		{"WithIndent", func(w *xw.Writer) { w.Indenter = xw.NewStandardIndenter() }, func(w *xw.Writer) { w.Indenter = nil }},
		{"WithIndent, Enforce=false", func(w *xw.Writer) { w.Indenter = xw.NewStandardIndenter(); w.Enforce = false }, func(w *xw.Writer) { w.Indenter = nil; w.Enforce = true }},
	}
	pre := []Op{opStartX(xw.Elem{Name: "root"}), opNext()}
	want := make([]string, len(histProbes))
	for i, p := range histProbes {
		want[i], _ = histRun(pre, p)
	}
	for _, md := range modes {
		md := md
		sw := func(d string, f func(w *xw.Writer)) Op {
			return Op{Desc: d, Do: func(w *xw.Writer) error { f(w); return nil }, M: func(m *Model) Verdict { return Accept }}
		}
		start := append(append([]Op{}, pre...), sw("switch to "+md.name, md.off))
		var rec func(ops []Op, n int)
		rec = func(ops []Op, n int) {
			if c.Stop() {
				return
			}
			m, ok := modelState(ops)
			if !ok || m.Depth() < 1 && strings.Contains(md.name, "Indent") {
				return // an indenter attached in mid-document is not told of the nodes already open
			}
			closed := append([]Op{}, ops...)
			f := m.top()
			if f != nil && f.Kind == "comment" && strings.HasSuffix(f.Node.Value+f.content, "-") {
				closed = append(closed, opWrite(xw.CommentContent("x")))
			}
			for d := m.Depth(); d > 1; d-- {
				closed = append(closed, opEndAny())
			}
			closed = append(closed, sw("switch back", md.on))
			if m.Depth() >= 1 && c.Take() {
				c.Run(func() string { return descOps(closed) }, func() error {
					mm, ok := modelState(closed)
					if !ok || mm.Depth() != 1 || mm.cur() != "elem" || mm.top().Open {
						return errSkip
					}
					for i, p := range histProbes {
						got, err := histRun(closed, p)
						if err != nil {
							return fmt.Errorf("then %s: %v", p.Desc, err)
						}
						c.res.Traces++
						if got != want[i] {
							return fmt.Errorf("then %s writes %q, in a fresh element %q", p.Desc, got, want[i])
						}
					}
					c.Outcome(descOps(closed))
					return nil
				})
			}
			if n == 0 {
				return
			}
			for _, o := range alpha(len(ops), strings.Contains(md.name, "Enforce")) {
				rec(append(ops[:len(ops):len(ops)], o), n-1)
			}
		}
		rec(start, pick(th, 3, 4))
	}
}
