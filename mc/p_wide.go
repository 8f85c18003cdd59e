package main

// Large buffers, every edge byte, collectors of every kind, the errors real
// destinations return, and every code point with the checks off.

import (
	ctx "context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"reflect"
	"runtime"
	"strings"
	"syscall"

	xw "github.com/shabbyrobe/xmlwriter"
	"golang.org/x/text/transform"
)

// --- C15 ------------------------------------------------------------------------

// bigBuffersPart writes documents several times as long as the buffer, in
// pieces of several sizes, and watches how much is held back.
func bigBuffersPart(th bool) Part {
	sizes := []int{-1, 0, 1, 2, 15, 16, 17, 63, 64, 65, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 10000, 16383, 16384, 16385, 32768, 50000, 65535, 65536, 65537}
	if th {
		sizes = append(sizes, 100000, 131072, 131073, 1<<18, 1<<20, 1<<20+1)
	}
	return Part{"big-buffers", fmt.Sprintf("documents of three times the buffer and more, for every buffer size of %v, in pieces from one byte to twice the buffer, of five kinds: after every call at most InitialBufSize bytes are held back, a Flush after the last piece delivers everything, and the whole equals what other buffers give", sizes), func(c *Ctx) {
		kinds := []struct {
			name string
			op   func(s string) Op
		}{
			{"text", func(s string) Op { return opWriteX(xw.Text(s)) }},
			{"raw", func(s string) Op { return opWriteX(xw.Raw(s)) }},
			{"elem", func(s string) Op {
				return opWriteX(xw.Elem{Name: "e", Attrs: []xw.Attr{{Name: "a", Value: s}}})
			}},
			{"comment", func(s string) Op { return opWriteX(xw.Comment{Content: s}) }},
			{"cdata", func(s string) Op { return opWriteX(xw.CData{Content: s}) }},
		}
		for _, n := range sizes {
			eff := n
			if n <= 0 {
				eff = 2048
			}
			pieces := []int{1, 7, 100, eff / 3, eff - 1, eff, eff + 1, 2 * eff}
			for _, p := range pieces {
				if p < 1 || eff/p > 6000 {
					continue
				}
				for _, k := range kinds {
					n, p, k := n, p, k
					c.Case(func() string { return fmt.Sprintf("InitialBufSize=%d, pieces of %d bytes of %s", n, p, k.name) }, func() error {
						v := strings.Repeat("y", p-1) + "z"
						o := k.op(v)
						var s sink
						w := bufSetup(n).open(&s)
						if errs := apply(w, []Op{inElem, opNext()}); errs != ".." {
							return fmt.Errorf("refused: %s", errs)
						}
						count := 3*eff/p + 2
						var want strings.Builder
						want.WriteString("<e>")
						for i := 0; i < count; i++ {
							if err := o.Do(w); err != nil {
								return err
							}
							switch k.name {
							case "elem":
								want.WriteString(`<e a="` + v + `"/>`)
							case "comment":
								want.WriteString("<!--" + v + "-->")
							case "cdata":
								want.WriteString("<![CDATA[" + v + "]]>")
							default:
								want.WriteString(v)
							}
							if held := want.Len() - len(s.b); held > eff {
								return fmt.Errorf("after piece %d, %d bytes are held back", i+1, held)
							}
						}
						if err := w.Flush(); err != nil {
							return err
						}
						if s.String() != want.String() {
							return fmt.Errorf("after a Flush the sink holds %q, want %q", clip(s.String()), clip(want.String()))
						}
						if err := w.EndAllFlush(); err != nil {
							return err
						}
						c.res.Traces++
						c.Outcome(fmt.Sprint(n, p, k.name))
						if s.String() != want.String()+"</e>" {
							return fmt.Errorf("got %q, want %q", clip(s.String()), clip(want.String()+"</e>"))
						}
						return nil
					})
				}
			}
		}
	}}
}

// edgeBytesPart: the first and last bytes of every value, for values around
// the size of the buffer.
func edgeBytesPart(th bool) Part {
	return Part{"edge-bytes", "values of 0, 1, 2, B-1, B, B+1, 2B, 3B+1 bytes for buffers B of 1, 16, 64 (thorough: and 2048), as text, raw content, attribute, comment, CDATA and PI, whose first, last or last two bytes are every byte value: the output is what a buffer larger than the document gives, and raw content is delivered byte for byte", func(c *Ctx) {
		type kind struct {
			name string
			op   func(s string) Op
		}
		kinds := []kind{
			{"WriteRaw", func(s string) Op { return opWriteX(xw.Raw(s)) }},
			{"Write(Raw)", func(s string) Op { return opWrite(xw.Raw(s)) }},
			{"text", func(s string) Op { return opWriteX(xw.Text(s)) }},
			{"attr", func(s string) Op { return opWriteX(xw.Attr{Name: "a", Value: s}) }},
			{"comment", func(s string) Op { return opWriteX(xw.Comment{Content: s}) }},
			{"cdata", func(s string) Op { return opWriteX(xw.CData{Content: s}) }},
			{"pi", func(s string) Op { return opWriteX(xw.PI{Target: "t", Content: s}) }},
		}
		for _, bs := range []int{1, 16, 64, 2048} {
			if bs == 2048 && !th {
				continue
			}
			seen := map[int]bool{}
			for _, n := range []int{0, 1, 2, bs - 1, bs, bs + 1, bs + 7, 2 * bs, 3*bs + 1} {
				if seen[n] || n < 0 {
					continue
				}
				seen[n] = true
				for _, k := range kinds {
					for b := 0; b < 256; b++ {
						for pos := 0; pos < 3; pos++ {
							if n == 0 && (b > 0 || pos > 0) || n < 2 && pos > 1 {
								continue
							}
							bs, n, k, b, pos := bs, n, k, b, pos
							c.Case(func() string {
								return fmt.Sprintf("buffer %d: %s of %d bytes, byte 0x%02x at %s", bs, k.name, n, b, []string{"start", "end", "last two"}[pos])
							}, func() error {
								v := []byte(strings.Repeat("a", n))
								pre := []Op{inElem}
								if strings.Contains(k.name, "Raw") {
									pre = append(pre, opNext())
								}
								if n > 0 {
									switch pos {
									case 0:
										v[0] = byte(b)
									case 1:
										v[n-1] = byte(b)
									case 2:
										v[n-1], v[n-2] = byte(b), byte(b)
									}
								}
								full := func(size int) (string, string, error) {
									var s sink
									w := bufSetup(size).open(&s)
									errs := apply(w, append(append([]Op{}, pre...), k.op(string(v)), opFlush()))
									if strings.Contains(errs, "E") {
										return "", errs, nil
									}
									again := k.op(string(v))
									if k.name == "attr" {
										again = opWriteX(xw.Attr{Name: "b", Value: string(v)})
									}
									if err := again.Do(w); err != nil {
										return s.String(), errs + "E", nil
									}
									err := w.EndAllFlush()
									return s.String(), errs, err
								}
								want, e1, err := full(1 << 16)
								if err != nil {
									return err
								}
								got, e2, err := full(bs)
								if err != nil {
									return err
								}
								c.res.Traces++
								c.Outcome(got + e2)
								if e1 != e2 {
									return fmt.Errorf("refused calls %q, with a large buffer %q", e2, e1)
								}
								if got != want {
									return fmt.Errorf("gives %q, a large buffer %q", clip(got), clip(want))
								}
								if strings.Contains(k.name, "Raw") {
									if exp := "<e>" + string(v) + string(v) + "</e>"; got != exp {
										return fmt.Errorf("gives %q, want %q", clip(got), clip(exp))
									}
								}
								return nil
							})
						}
					}
				}
			}
		}
	}}
}

// --- C20 ------------------------------------------------------------------------

type valueErr struct{ s string }

func (v valueErr) Error() string { return v.s }

type sliceErr []int // not comparable

func (v sliceErr) Error() string { return "slice" }

type ptrErr struct{}

func (v *ptrErr) Error() string { return "typed nil" }

// same compares error values, comparable or not.
func same(a, b error) bool { return reflect.DeepEqual(a, b) }

func collectorParts(th bool) []Part {
	return []Part{
		{"vectors", "one call with a vector of every length up to 300, the first error at every position, another after it at the end or nowhere, through Do and Must, on a fresh collector and on one that was used before: the first error is the one reported, at its position", func(c *Ctx) {
			for n := 0; n <= 300; n++ {
				for pos := 0; pos <= n; pos++ { // pos == n: none
					if n > 70 && pos > 3 && pos < n-3 && pos%17 != 0 {
						continue
					}
					for _, second := range []bool{false, true} {
						for _, must := range []bool{false, true} {
							for _, used := range []bool{false, true} {
								n, pos, second, must, used := n, pos, second, must, used
								c.Case(func() string {
									return fmt.Sprintf("%d results, the first error at %d, another at the end %v, Must %v, used before %v", n, pos+1, second, must, used)
								}, func() error {
									v := make([]error, n)
									e := errors.New("first")
									if second && n > 0 {
										v[n-1] = errors.New("last")
									}
									wantPos := 0
									var want error
									if pos < n {
										v[pos] = e
										want, wantPos = e, pos+1
									} else if second && n > 0 {
										want, wantPos = v[n-1], n
									}
									keep := append([]error{}, v...)
									ec := &xw.ErrCollector{}
									if used {
										ec.Do()
										ec.Do(nil)
										ec.Must(nil, nil)
									}
									var panicked interface{}
									func() {
										defer func() { panicked = recover() }()
										if must {
											ec.Must(v...)
										} else {
											ec.Do(v...)
										}
									}()
									c.res.Traces++
									c.State(fmt.Sprint(want != nil, wantPos))
									c.Outcome(fmt.Sprint(n, wantPos, must))
									if ec.Err != want || want != nil && ec.Index != wantPos {
										return fmt.Errorf("collected %v at %d, want %v at %d", ec.Err, ec.Index, want, wantPos)
									}
									if must && want != nil {
										if panicked != interface{}(ec) {
											return fmt.Errorf("Must panicked with %v", panicked)
										}
									} else if panicked != nil {
										return fmt.Errorf("panicked with %v", panicked)
									}
									for i := range v {
										if v[i] != keep[i] {
											return fmt.Errorf("the caller's slice was changed at %d", i)
										}
									}
									var ret error
									ec.Set(&ret)
									if want == nil && ret != nil || want != nil && ret != error(ec) {
										return fmt.Errorf("Set gave %v", ret)
									}
									return nil
								})
							}
						}
					}
				}
			}
		}},
		{"preset", "collectors built by the caller with every combination of fields set, then fed: an error that is already there is kept, without one the fed one is reported", func(c *Ctx) {
			pre := errors.New("preset")
			fed := errors.New("fed")
			for _, err0 := range []error{nil, pre} {
				for _, idx := range []int{0, 1, -1, 7} {
					for _, file := range []string{"", "x.go"} {
						for _, line := range []int{0, 5} {
							for vi, v := range [][]error{nil, {nil}, {fed}, {nil, fed}, {fed, nil}, {nil, nil, nil, fed}} {
								for how := 0; how < 4; how++ {
									err0, idx, file, line, vi, v, how := err0, idx, file, line, vi, v, how
									c.Case(func() string {
										return fmt.Sprintf("ErrCollector{File: %q, Line: %d, Index: %d, Err: %v}, then %s(%v)", file, line, idx, err0, []string{"Do", "Do twice", "Set", "Panic"}[how], v)
									}, func() error {
										ec := &xw.ErrCollector{File: file, Line: line, Index: idx, Err: err0}
										var want error = err0
										ret := fed
										if how < 2 {
											ec.Do(v...)
											if how == 1 {
												ec.Do(v...)
											}
											if want == nil {
												for _, e := range v {
													if e != nil {
														want = e
														break
													}
												}
											}
										}
										var panicked interface{}
										func() {
											defer func() { panicked = recover() }()
											if how == 3 {
												ec.Panic()
											} else {
												ec.Set(&ret)
											}
										}()
										c.res.Traces++
										c.Outcome(fmt.Sprint(err0, idx, vi, how))
										c.State(fmt.Sprint(want))
										if ec.Err != want {
											return fmt.Errorf("holds %v, want %v", ec.Err, want)
										}
										if err0 != nil && (ec.Index != idx || ec.File != file || ec.Line != line) {
											return fmt.Errorf("the position of the first error was changed to %s:%d #%d", ec.File, ec.Line, ec.Index)
										}
										if how == 3 {
											if (panicked != nil) != (want != nil) || want != nil && panicked != interface{}(ec) {
												return fmt.Errorf("Panic panicked with %v", panicked)
											}
										} else if want != nil && ret != error(ec) || want == nil && ret != fed {
											return fmt.Errorf("Set gave %v", ret)
										}
										if !errors.Is(ec, want) && want != nil {
											return fmt.Errorf("errors.Is does not find %v", want)
										}
										return nil
									})
								}
							}
						}
					}
				}
			}
		}},
		{"error-values", "every pair of error values of many kinds (sentinels, wrapped, joined, by value, not comparable, typed nil pointers, the collector of another writer, the library's own), fed as first and second through Do, Must, two calls, or nested collectors", func(c *Ctx) {
			w := xw.Open(io.Discard)
			own := w.WriteElem(xw.Elem{})
			w2 := xw.Open(io.Discard)
			w2.StartElem(xw.Elem{Name: "e"})
			own2 := w2.End(xw.DocNode)
			inner := &xw.ErrCollector{}
			inner.Do(io.ErrUnexpectedEOF)
			empty := &xw.ErrCollector{}
			var tnil *ptrErr
			vals := append(wellKnownErrors(), errors.New("a"), errors.New("a"), errors.New(""), fmt.Errorf("w: %w", io.EOF), valueErr{"v"}, &valueErr{"v"}, valueErr{}, sliceErr{1}, sliceErr{}, sliceErr(nil), tnil, own, own2, inner, empty, errors.Join(io.EOF, os.ErrClosed))
			for i, a := range vals {
				for j, b := range vals {
					for how := 0; how < 5; how++ {
						i, j, a, b, how := i, j, a, b, how
						c.Case(func() string { return fmt.Sprintf("%T %v then %T %v, way %d", a, a == nil, b, b == nil, how) }, func() error {
							ec := &xw.ErrCollector{}
							var panicked interface{}
							idx := 1
							func() {
								defer func() { panicked = recover() }()
								switch how {
								case 0:
									ec.Do(a, b)
								case 1:
									ec.Do(nil, a)
									ec.Do(b)
									idx = 2
								case 2:
									ec.Must(a, b)
								case 3:
									ec.Do(nil, a)
									idx = 2
									func() {
										defer func() { recover() }()
										ec.Do(b, a)
									}()
								case 4:
									in := &xw.ErrCollector{}
									in.Do(nil, nil, a)
									var ret error
									in.Set(&ret)
									ec.Do(ret, b)
									if ec.Err != error(in) {
										panic("the inner collector was not kept")
									}
									ec.Err = in.Err
								}
							}()
							c.res.Traces++
							c.Outcome(fmt.Sprint(i, j, how))
							c.State(fmt.Sprint(i))
							if how == 2 {
								if panicked != interface{}(ec) {
									return fmt.Errorf("Must panicked with %v", panicked)
								}
							} else if panicked != nil {
								return fmt.Errorf("panic: %v", panicked)
							}
							if !same(ec.Err, a) || reflect.TypeOf(ec.Err) != reflect.TypeOf(a) {
								return fmt.Errorf("holds %T %v, want %T", ec.Err, ec.Err, a)
							}
							if reflect.TypeOf(a).Comparable() && ec.Err != a {
								return fmt.Errorf("holds another value than the one fed")
							}
							if ec.Index != idx {
								return fmt.Errorf("position %d, want %d", ec.Index, idx)
							}
							var ret error
							ec.Set(&ret)
							if ret != error(ec) {
								return fmt.Errorf("Set gave %v", ret)
							}
							if reflect.TypeOf(a).Comparable() && !errors.Is(ret, a) {
								return fmt.Errorf("errors.Is does not find the error")
							}
							return nil
						})
					}
				}
			}
		}},
		{"writer-histories", "every vector of up to 4 results of real writer calls, some refused, fed to Do in one call, one by one, and in two calls at every cut: the first refused one is reported, at its position", func(c *Ctx) {
			ops := []Op{opStart(xw.Elem{Name: "e"}), opWrite(xw.Text("t")), opWrite(xw.Attr{Name: "a"}), opEnd(xw.DocNode), opEndAny(), opStart(xw.Elem{Name: ""}), opFlush()}
			var rec func(seq []Op)
			rec = func(seq []Op) {
				if len(seq) > 0 {
					sq := append([]Op{}, seq...)
					for cut := 0; cut <= len(sq); cut++ {
						cut := cut
						c.Case(func() string { return fmt.Sprintf("%s, cut at %d", descOps(sq), cut) }, func() error {
							w := xw.Open(io.Discard)
							var v []error
							first := -1
							for i, o := range sq {
								err := o.Do(w)
								if err != nil && first < 0 {
									first = i
								}
								v = append(v, err)
							}
							ec := &xw.ErrCollector{}
							ec.Do(v[:cut]...)
							line := 0
							if first >= 0 && first < cut {
								line = ec.Line
							}
							ec.Do(v[cut:]...)
							c.res.Traces++
							c.Outcome(fmt.Sprint(descOps(sq), cut))
							if first < 0 {
								if ec.Err != nil {
									return fmt.Errorf("invented %v", ec.Err)
								}
								return nil
							}
							pos := first + 1
							if first >= cut {
								pos -= cut
							}
							if ec.Err != v[first] || ec.Index != pos {
								return fmt.Errorf("collected %v at %d, want %v at %d", ec.Err, ec.Index, v[first], pos)
							}
							if line > 0 && ec.Line != line {
								return fmt.Errorf("the line of the first error was changed")
							}
							return nil
						})
					}
				}
				if len(seq) == pick(c.Thorough, 4, 5) || c.Stop() {
					return
				}
				for _, o := range ops {
					rec(append(seq, o))
				}
			}
			rec(nil)
		}},
		{"call-sites", "the reported file and line are those of the call to Do or Must, from a function, a method value, a deferred function and a closure", func(c *Ctx) {
			e := errors.New("e")
			for i := 0; i < 5; i++ {
				i := i
				c.Case(func() string { return fmt.Sprintf("call site %d", i) }, func() error {
					ec := &xw.ErrCollector{}
					line := 0
					switch i {
					case 0:
						_, _, line, _ = runtime.Caller(0)
						ec.Do(nil, e)
					case 1:
						func() {
							defer func() { recover() }()
							_, _, line, _ = runtime.Caller(0)
							ec.Must(nil, e)
						}()
					case 2:
						func() { _, _, line, _ = runtime.Caller(0); line--; ec.Do(nil, e) }()
					case 3:
						func() {
							defer func() {
								_, _, line, _ = runtime.Caller(0)
								ec.Do(nil, e)
							}()
						}()
					case 4:
						f := func(errs ...error) {
							_, _, line, _ = runtime.Caller(0)
							ec.Do(errs...)
						}
						f(nil, e)
					}
					c.res.Traces++
					c.Outcome(fmt.Sprint(i))
					if ec.Line != line+1 || !strings.HasSuffix(ec.File, "p_wide.go") || ec.Index != 2 {
						return fmt.Errorf("position %s:%d #%d, want p_wide.go:%d #2", ec.File, ec.Line, ec.Index, line+1)
					}
					return nil
				})
			}
		}},
	}
}

// --- C23 ------------------------------------------------------------------------

func laxCodePointsPart(th bool) Part {
	return Part{"code-points", "every code point (in blocks of 64, and alone first, last and doubled for the first 0x3000 and the ends of the planes; thorough: all) at every kind of site: what is accepted with the checks on is written just the same with Enforce, StrictChars or both off", func(c *Ctx) {
		type site struct {
			name  string
			ops   func(s string) []Op
			name2 bool
		}
		e := inElem
		sites := []site{
			{"text", func(s string) []Op { return []Op{e, opWriteX(xw.Text(s))} }, false},
			{"Elem.Content", func(s string) []Op {
				return []Op{opWrite(xw.Elem{Name: "e", Content: []xw.Writable{xw.Text(s), xw.Comment{Content: s}, xw.CData{Content: s}}})}
			}, false},
			{"attr", func(s string) []Op { return []Op{e, opWriteX(xw.Attr{Name: "a", Value: s})} }, false},
			{"Elem.Attrs", func(s string) []Op {
				return []Op{opStart(xw.Elem{Name: "e", Attrs: []xw.Attr{{Name: "a", Value: s}, {Prefix: "p", URI: "u" + s, Name: "a", Value: s}}})}
			}, false},
			{"Elem.URI", func(s string) []Op { return []Op{opStart(xw.Elem{Prefix: "p", URI: "u" + s, Name: "e"})} }, false},
			{"comment", func(s string) []Op { return []Op{e, opWriteX(xw.Comment{Content: s})} }, false},
			{"comment pieces", func(s string) []Op {
				return []Op{opStart(xw.Comment{Content: s}), opWrite(xw.CommentContent(s)), opEndX(xw.CommentNode)}
			}, false},
			{"cdata", func(s string) []Op { return []Op{e, opWriteX(xw.CData{Content: s})} }, false},
			{"cdata pieces", func(s string) []Op {
				return []Op{e, opStart(xw.CData{Content: s}), opWrite(xw.CDataContent(s)), opEndX(xw.CDataNode)}
			}, false},
			{"pi", func(s string) []Op { return []Op{e, opWriteX(xw.PI{Target: "t", Content: s})} }, false},
			{"entity", func(s string) []Op { return []Op{inDTD, opWriteX(xw.DTDEntity{Name: "n", Content: s})} }, false},
			{"system", func(s string) []Op {
				return []Op{opStart(xw.DTD{Name: "d", SystemID: s}), opWriteX(xw.Notation{Name: "n", SystemID: s}), opWriteX(xw.DTDEntity{Name: "n", SystemID: "s" + s})}
			}, false},
			{"public", func(s string) []Op {
				return []Op{opStart(xw.DTD{Name: "d", PublicID: "p" + s, SystemID: "s"}), opWriteX(xw.Notation{Name: "n", PublicID: "p" + s})}
			}, false},
			{"DTDAttr.Value", func(s string) []Op {
				return []Op{inDTD, inList, opWriteX(xw.DTDAttr{Name: "a", Type: xw.DTDAttrString, Default: xw.DTDAttrDefault, Value: s})}
			}, false},
			{"decl", func(s string) []Op { return []Op{inDTD, opWriteX(xw.DTDElem{Name: "a", Decl: "(" + s + ")"})} }, false},
			{"names", func(s string) []Op {
				return []Op{inElem, opWriteX(xw.Attr{Name: "n" + s}), opWriteX(xw.Elem{Name: "n" + s}), opWriteX(xw.PI{Target: "n" + s}), opWrite(xw.Elem{Prefix: "p" + s, URI: "u", Name: "n"})}
			}, true},
			{"names in DTD", func(s string) []Op {
				return []Op{inDTD, opWriteX(xw.DTDElem{Name: "n" + s, Decl: "ANY"}), opWriteX(xw.Notation{Name: "n" + s, SystemID: "s"}), opWrite(xw.DTDAttList{Name: "n" + s, Attrs: []xw.DTDAttr{{Name: "a" + s, Type: "ID"}}})}
			}, true},
		}
		settings := []*Setup{{Opts: []xw.Option{noEnforce()}}, {Opts: []xw.Option{lax()}}, {Opts: []xw.Option{noEnforce(), lax()}}}
		judge := func(st site, s string) error {
			ops := st.ops(s)
			_, want, errs := snapshot(small, ops)
			if strings.Trim(errs, ".") != "" {
				return errSkip
			}
			c.Outcome(want)
			for i, set := range settings {
				_, got, errs := snapshot(set, ops)
				c.res.Traces++
				if strings.Trim(errs, ".") != "" {
					return fmt.Errorf("setting %d: %q is accepted with validation, refused without (%s)", i, s, errs)
				}
				if got != want {
					return fmt.Errorf("setting %d: with validation %q, without %q", i, clip(want), clip(got))
				}
			}
			return nil
		}
		for _, st := range sites {
			for lo := rune(0); lo <= 0x10FFFF; lo += 64 {
				st, lo := st, lo
				c.Case(func() string { return fmt.Sprintf("%s with U+%04X..U+%04X", st.name, lo, lo+63) }, func() error {
					var b strings.Builder
					var each []string
					in := lo & 0xFFFF
					alone := th || lo < 0x3000 || in < 0x80 || in > 0xFC00
					for r := lo; r < lo+64; r++ {
						ok := specChars(encodeRune(r), true)
						if st.name2 {
							ok = specNameChar(r)
						}
						if ok {
							b.WriteRune(r)
							if alone {
								s := encodeRune(r)
								each = append(each, s, s+"x", "x"+s, s+s)
							}
						}
					}
					bad := errSkip
					for _, s := range append(each, b.String()) {
						switch err := judge(st, s); err {
						case nil:
							bad = nil
						case errSkip:
						default:
							return err
						}
					}
					return bad
				})
			}
		}
	}}
}

// --- C27 ------------------------------------------------------------------------

type timeoutErr struct{ timeout, temporary bool }

func (t timeoutErr) Error() string   { return "i/o timeout" }
func (t timeoutErr) Timeout() bool   { return t.timeout }
func (t timeoutErr) Temporary() bool { return t.temporary }

// wellKnownErrors are what real destinations return.
func wellKnownErrors() []error {
	return []error{
		io.EOF, io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrShortWrite, io.ErrShortBuffer, io.ErrNoProgress,
		os.ErrClosed, os.ErrDeadlineExceeded, os.ErrPermission, os.ErrInvalid, os.ErrNotExist,
		syscall.EPIPE, syscall.EINTR, syscall.EAGAIN, syscall.ENOSPC, syscall.EIO, syscall.ECONNRESET, syscall.Errno(0), syscall.EBADF,
		&os.PathError{Op: "write", Path: "f", Err: syscall.ENOSPC}, &os.SyscallError{Syscall: "write", Err: syscall.EPIPE},
		ctx.Canceled, ctx.DeadlineExceeded, net.ErrClosed,
		&net.OpError{Op: "write", Net: "tcp", Err: &os.SyscallError{Syscall: "write", Err: syscall.ECONNRESET}},
		timeoutErr{true, true}, timeoutErr{true, false}, timeoutErr{false, true},
		transform.ErrShortDst, transform.ErrShortSrc,
		fmt.Errorf("wrapped: %w", io.EOF), errors.New("EOF"), errors.New(""), fmt.Errorf("wrapped: %w", io.ErrClosedPipe),
		&xw.ErrCollector{Err: io.EOF, Index: 1},
	}
}

// errValueSink fails at write k with a given error value.
type errValueSink struct {
	b    []byte
	n    int
	at   int
	kind int
	err  error
	once bool
}

func (f *errValueSink) Write(p []byte) (int, error) {
	f.n++
	if f.at > 0 && (f.n == f.at || f.n > f.at && !f.once) {
		n := 0
		switch f.kind {
		case 1:
			n = len(p) / 2
		case 2:
			n = len(p)
		}
		f.b = append(f.b, p[:n]...)
		return n, f.err
	}
	f.b = append(f.b, p...)
	return len(p), nil
}

func errorValuesPart(th bool, utf16 func(bs int) func(io.Writer) *xw.Writer) Part {
	errs := wellKnownErrors()
	return Part{"error-values", fmt.Sprintf("rich documents, in UTF-8, indented and through an encoder, whose destination fails at the first, second, middle or last write with each of %d errors that real destinations return, with nothing, half or everything taken, flushing after every call or closing with EndAllFlush or with EndAll and Flush: that error is reported", len(errs)), func(c *Ctx) {
		opens := []struct {
			name string
			f    func(bs int) func(io.Writer) *xw.Writer
		}{
			{"UTF-8", func(bs int) func(io.Writer) *xw.Writer {
				return func(dst io.Writer) *xw.Writer { return xw.Open(dst, withBuf(bs)) }
			}},
			{"indented", func(bs int) func(io.Writer) *xw.Writer {
				return func(dst io.Writer) *xw.Writer { return xw.Open(dst, withBuf(bs), xw.WithIndent()) }
			}},
			{"UTF-16", utf16},
		}
		docs := append(richDocs()[:4], []Op{opWriteX(xw.Raw(strings.Repeat("r", 5000)))}, []Op{opStart(xw.Doc{}), opStart(xw.Elem{Name: "r"}), opEndDoc()})
		for di, ops := range docs {
			for _, op := range opens {
				for _, bs := range []int{1, 16, 300, 1 << 15} {
					cf := &errValueSink{}
					w := op.f(bs)(cf)
					apply(w, ops)
					w.EndAllFlush()
					total := cf.n
					ats := map[int]bool{1: true, 2: true, total / 2: true, total: true}
					for at := 1; at <= total; at++ {
						if !ats[at] && !(th && at%7 == 0) {
							continue
						}
						for ei, e := range errs {
							for kind := 0; kind < 3; kind++ {
								for how := 0; how < 4; how++ {
									once := how == 3
									di, op, bs, at, ei, e, kind, how := di, op, bs, at, ei, e, kind, how
									c.Case(func() string {
										return fmt.Sprintf("document %d, %s, buffer %d: write %d of %d fails with %T %q (taken: %d/2), way %d", di, op.name, bs, at, total, e, e, kind, how)
									}, func() error {
										f := &errValueSink{at: at, kind: kind, err: e, once: once}
										w := op.f(bs)(f)
										for _, o := range ops {
											o.Do(w)
											if how == 1 {
												if err := w.Flush(); f.n >= at && !is(err, e) {
													return fmt.Errorf("the destination failed during or before %s, but the Flush after it returned %v", o.Desc, err)
												}
											}
										}
										var err error
										if how == 2 {
											if err = w.EndAll(); err == nil || f.n < at {
												err = w.Flush()
											}
										} else {
											err = w.EndAllFlush()
										}
										if f.n < at {
											return errSkip // with flushes the writes fall differently
										}
										c.res.Traces++
										c.Outcome(fmt.Sprint(di, op.name, bs, at, ei, kind, how))
										if !is(err, e) {
											return fmt.Errorf("closing reported %v", err)
										}
										if err := w.Flush(); !is(err, e) {
											return fmt.Errorf("a Flush after closing reported %v", err)
										}
										return nil
									})
								}
							}
						}
					}
				}
			}
		}
	}}
}

// is: err is e, or has it in its chain.
func is(err, e error) bool { return err != nil && (err == e || errors.Is(err, e)) }

// addParts adds to a property that an earlier file registered.
func addParts(id string, f func(th bool) []Part) {
	p := findProp(id)
	old := p.Parts
	p.Parts = func(th bool) []Part { return append(old(th), f(th)...) }
}

func init() {
	addParts("C15", func(th bool) []Part { return []Part{bigBuffersPart(th), edgeBytesPart(th)} })
	addParts("C20", collectorParts)
	addParts("C23", func(th bool) []Part { return []Part{laxCodePointsPart(th)} })
}
