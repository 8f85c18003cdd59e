package main

// C11 typed attributes, C12 names, C13 Check functions, C14 DTD declarations,
// C19 XML declaration, C20 ErrCollector, C25 node kind names.

import (
	"errors"
	"fmt"
	"math"
	"runtime"
	"strconv"
	"strings"
	"unicode/utf8"

	xw "github.com/shabbyrobe/xmlwriter"
)

// throughWriter writes attrs on one element and returns the values read back.
func throughWriter(as []xw.Attr) ([]string, error) {
	out, err := produce(&Setup{}, func(w *xw.Writer) error { return w.WriteElem(xw.Elem{Name: "e", Attrs: as}) })
	if err != nil {
		return nil, err
	}
	t, err := parseFragment(out)
	if err != nil {
		return nil, err
	}
	if len(t.Kids) != 1 || len(t.Kids[0].Attrs) != len(as) {
		return nil, fmt.Errorf("%d attributes read back, want %d", len(t.Kids[0].Attrs), len(as))
	}
	vs := make([]string, len(as))
	for i, a := range t.Kids[0].Attrs {
		if a.Name != as[i].Name {
			return nil, fmt.Errorf("attribute %d read back as %q, want %q", i, a.Name, as[i].Name)
		}
		vs[i] = a.Value
	}
	return vs, nil
}

var tmpl = xw.Attr{Prefix: "p", URI: "u", Name: "n", Value: "old"}

func keeps(a xw.Attr) error {
	if a.Prefix != "p" || a.URI != "u" || a.Name != "n" {
		return fmt.Errorf("the setter changed the attribute's name: %#v", a)
	}
	if tmpl != (xw.Attr{Prefix: "p", URI: "u", Name: "n", Value: "old"}) {
		return fmt.Errorf("the setter changed its receiver: %#v", tmpl)
	}
	return nil
}

// blockInts checks a batch of integer conversions.
func blockInts(what string, n int, get func(i int) (a xw.Attr, want string)) error {
	as := make([]xw.Attr, n)
	wants := make([]string, n)
	for i := 0; i < n; i++ {
		a, w := get(i)
		if err := keeps(a); err != nil {
			return err
		}
		a.Prefix, a.URI, a.Name = "", "", fmt.Sprintf("a%d", i)
		as[i], wants[i] = a, w
	}
	vs, err := throughWriter(as)
	if err != nil {
		return err
	}
	for i, v := range vs {
		if v != wants[i] {
			return fmt.Errorf("%s: reads back as %q, want %q", what, v, wants[i])
		}
	}
	return nil
}

func intLattice(bits uint, signed bool) []uint64 {
	seen := map[uint64]bool{}
	var out []uint64
	mask := ^uint64(0)
	if bits < 64 {
		mask = 1<<bits - 1
	}
	add := func(v uint64) {
		v &= mask
		if !seen[v] {
			seen[v] = true
			out = append(out, v)
		}
	}
	for d := uint64(0); d < 130; d++ {
		add(d)
		add(-d)
	}
	for i := uint(0); i < bits; i++ {
		for j := uint(0); j < bits; j++ {
			for d := uint64(0); d < 4; d++ {
				add(uint64(1)<<i + uint64(1)<<j + d)
				add(uint64(1)<<i - uint64(1)<<j - d)
				add(-(uint64(1)<<i + uint64(1)<<j + d))
			}
		}
	}
	p := uint64(1)
	for k := 0; k < 20; k++ {
		for m := uint64(1); m < 10; m++ {
			for d := uint64(0); d < 3; d++ {
				add(p*m + d)
				add(p*m - d)
				add(-(p*m + d))
			}
		}
		p *= 10
	}
	return out
}

// specDecimal formats without strconv's formatting code.
func specDecimal(neg bool, v uint64) string {
	var b []byte
	for {
		b = append([]byte{byte('0' + v%10)}, b...)
		v /= 10
		if v == 0 {
			break
		}
	}
	if neg {
		return "-" + string(b)
	}
	return string(b)
}

func decS(v int64) string {
	if v < 0 {
		return specDecimal(true, uint64(-v))
	}
	return specDecimal(false, uint64(v))
}

func checkFloat(v string, bits int, want uint64) error {
	f, err := strconv.ParseFloat(v, bits)
	if err != nil {
		return fmt.Errorf("value %q does not parse: %v", v, err)
	}
	var got uint64
	if bits == 32 {
		got = uint64(math.Float32bits(float32(f)))
	} else {
		got = math.Float64bits(f)
	}
	if got == want {
		return nil
	}
	var w float64
	if bits == 32 {
		w = float64(math.Float32frombits(uint32(want)))
	} else {
		w = math.Float64frombits(want)
	}
	if math.IsNaN(w) && math.IsNaN(f) {
		return nil
	}
	return fmt.Errorf("float%d with bits %#x is written as %q, which reads back with bits %#x", bits, want, v, got)
}

type nameSite struct {
	name string
	full func(s string) string // the name that must be legal
	op   func(s string) Op
	pre  []Op
}

var nameSites = []nameSite{
	{"Elem.Name", nil, func(s string) Op { return opStart(xw.Elem{Name: s}) }, nil},
	{"Elem.Name (with prefix)", func(s string) string { return "p:" + s }, func(s string) Op { return opStart(xw.Elem{Prefix: "p", Name: s}) }, nil},
	{"Elem.Prefix", func(s string) string { return qname(s, "n") }, func(s string) Op { return opStart(xw.Elem{Prefix: s, Name: "n"}) }, nil},
	{"Elem.Prefix with URI", func(s string) string { return qname(s, "n") }, func(s string) Op { return opWrite(xw.Elem{Prefix: s, URI: "u", Name: "n"}) }, nil},
	{"Attr.Name", nil, func(s string) Op { return opWrite(xw.Attr{Name: s}) }, []Op{opStart(xw.Elem{Name: "e"})}},
	{"Attr.Prefix", func(s string) string { return qname(s, "n") }, func(s string) Op { return opWrite(xw.Attr{Prefix: s, Name: "n"}) }, []Op{opStart(xw.Elem{Name: "e"})}},
	{"Elem.Attrs[0].Name", nil, func(s string) Op { return opWrite(xw.Elem{Name: "e", Attrs: []xw.Attr{{Name: s}}}) }, nil},
	{"PI.Target", nil, func(s string) Op { return opWrite(xw.PI{Target: s, Content: "c"}) }, nil},
	{"DTD.Name", nil, func(s string) Op { return opStart(xw.DTD{Name: s}) }, nil},
	{"DTDElem.Name", nil, func(s string) Op { return opWrite(xw.DTDElem{Name: s, Decl: "ANY"}) }, nil},
	{"DTDEntity.Name", nil, func(s string) Op { return opWrite(xw.DTDEntity{Name: s, Content: "c"}) }, nil},
	{"DTDEntity.Name (PE)", nil, func(s string) Op { return opWrite(xw.DTDEntity{Name: s, SystemID: "c", IsPE: true}) }, nil},
	{"DTDEntity.NDataID", nil, func(s string) Op { return opWrite(xw.DTDEntity{Name: "n", SystemID: "s", NDataID: s}) }, nil},
	{"DTDAttList.Name", nil, func(s string) Op { return opStart(xw.DTDAttList{Name: s}) }, nil},
	{"DTDAttr.Name", nil, func(s string) Op { return opWrite(xw.DTDAttr{Name: s, Type: xw.DTDAttrID}) }, []Op{opStart(xw.DTDAttList{Name: "l"})}},
	{"DTDAttList.Attrs[0].Name", nil, func(s string) Op {
		return opWrite(xw.DTDAttList{Name: "l", Attrs: []xw.DTDAttr{{Name: s, Type: xw.DTDAttrID}}})
	}, nil},
	{"Notation.Name", nil, func(s string) Op { return opWrite(xw.Notation{Name: s, SystemID: "s"}) }, nil},
}

const knownNames = "name-chars-rejected"

type legalRefused struct {
	what, name string
	err        error
}

func (l legalRefused) Error() string {
	return fmt.Sprintf("%s: %q is a legal name but is refused: %v", l.what, l.name, l.err)
}

// judgeName: err is what the library says about a name the grammar says ok to.
func judgeName(c *Ctx, what, name string, ok bool, err error) error {
	switch {
	case ok && err != nil:
		f := c.known.Get(c.Prop, knownNames)
		for _, r := range name {
			if f.HasRune(r) {
				return knownErr{knownNames, legalRefused{what, name, err}}
			}
		}
		return legalRefused{what, name, err}
	case !ok && err == nil:
		return fmt.Errorf("%s: %q is not a legal name but is accepted", what, name)
	}
	return nil
}

var boundaryRunes = func() []rune {
	seen := map[rune]bool{}
	var out []rune
	add := func(rs ...rune) {
		for _, r := range rs {
			for d := rune(-2); d <= 2; d++ {
				if x := r + d; x >= 0 && x <= 0x10FFFF && !seen[x] {
					seen[x] = true
					out = append(out, x)
				}
			}
		}
	}
	for r := rune(0); r < 0x180; r++ {
		add(r)
	}
	add(0x2FF, 0x300, 0x36F, 0x370, 0x37D, 0x37F, 0x1FFF, 0x200C, 0x203F, 0x2070, 0x218F, 0x2C00, 0x2FEF, 0x3001, 0xD7FF, 0xE000, 0xF900, 0xFDCF, 0xFDD0, 0xFDEF, 0xFDF0, 0xFFFD, 0xFFFF)
	for p := rune(1); p <= 0x10; p++ {
		add(p<<16, p<<16|0xFFFE, p<<16|0x41)
	}
	return out
}()

func init() {
	register(&Prop{ID: "C11", Level: "exploration", Rule: "every value of the small types and a stated lattice of the large ones is set on an attribute, written, read back and parsed; non-trivial = a distinct written value",
		Assumptions: []string{"Attr.Uint takes an int; negative arguments are not unsigned values", "strconv.ParseFloat is trusted to parse"},
		Parts: func(th bool) []Part {
			return []Part{
				{"small-ints", "all int8, uint8, int16, uint16 values and both booleans", func(c *Ctx) {
					for lo := -32768; lo < 65536; lo += 256 {
						lo := lo
						c.Case(func() string { return fmt.Sprintf("8- and 16-bit setters for %d..%d", lo, lo+255) }, func() error {
							c.Outcome(fmt.Sprint(lo))
							c.res.Traces += 256
							if lo < 32768 {
								if err := blockInts("Int16", 256, func(i int) (xw.Attr, string) { return tmpl.Int16(int16(lo + i)), decS(int64(lo + i)) }); err != nil {
									return err
								}
							}
							if lo >= 0 {
								if err := blockInts("Uint16", 256, func(i int) (xw.Attr, string) { return tmpl.Uint16(uint16(lo + i)), decS(int64(lo + i)) }); err != nil {
									return err
								}
							}
							if err := blockInts("Int", 256, func(i int) (xw.Attr, string) { return tmpl.Int(lo + i), decS(int64(lo + i)) }); err != nil {
								return err
							}
							if err := blockInts("Int8", 256, func(i int) (xw.Attr, string) { return tmpl.Int8(int8(lo + i)), decS(int64(int8(lo + i))) }); err != nil {
								return err
							}
							return blockInts("Uint8", 256, func(i int) (xw.Attr, string) { return tmpl.Uint8(uint8(lo + i)), decS(int64(uint8(lo + i))) })
						})
					}
					c.Case(func() string { return "Bool" }, func() error {
						c.res.Traces += 2
						return blockInts("Bool", 2, func(i int) (xw.Attr, string) {
							if i == 0 {
								return tmpl.Bool(false), "false"
							}
							return tmpl.Bool(true), "true"
						})
					})
				}},
				{"large-ints", "int, uint, int32, uint32, int64, uint64: every value within 3 of a sum or difference of two powers of two, of m*10^k, and of the type bounds", func(c *Ctx) {
					l32, l64 := intLattice(32, true), intLattice(64, true)
					for i := 0; i < len(l64); i += 64 {
						i := i
						c.Case(func() string { return fmt.Sprintf("64-bit lattice block %d (from %#x)", i/64, l64[i]) }, func() error {
							vs := l64[i:]
							if len(vs) > 64 {
								vs = vs[:64]
							}
							c.res.Traces += int64(len(vs))
							c.Outcome(fmt.Sprint("64", i))
							if err := blockInts("Int64", len(vs), func(k int) (xw.Attr, string) { return tmpl.Int64(int64(vs[k])), decS(int64(vs[k])) }); err != nil {
								return err
							}
							if err := blockInts("Int", len(vs), func(k int) (xw.Attr, string) { return tmpl.Int(int(vs[k])), decS(int64(vs[k])) }); err != nil {
								return err
							}
							if err := blockInts("Uint", len(vs), func(k int) (xw.Attr, string) {
								v := vs[k] &^ (1 << 63)
								return tmpl.Uint(int(v)), specDecimal(false, v)
							}); err != nil {
								return err
							}
							return blockInts("Uint64", len(vs), func(k int) (xw.Attr, string) { return tmpl.Uint64(vs[k]), specDecimal(false, vs[k]) })
						})
					}
					for i := 0; i < len(l32); i += 64 {
						i := i
						c.Case(func() string { return fmt.Sprintf("32-bit lattice block %d (from %#x)", i/64, l32[i]) }, func() error {
							vs := l32[i:]
							if len(vs) > 64 {
								vs = vs[:64]
							}
							c.res.Traces += int64(len(vs))
							c.Outcome(fmt.Sprint("32", i))
							if err := blockInts("Int32", len(vs), func(k int) (xw.Attr, string) { return tmpl.Int32(int32(vs[k])), decS(int64(int32(vs[k]))) }); err != nil {
								return err
							}
							return blockInts("Uint32", len(vs), func(k int) (xw.Attr, string) {
								return tmpl.Uint32(uint32(vs[k])), specDecimal(false, uint64(uint32(vs[k])))
							})
						})
					}
				}},
				{"floats", "float32 and float64: every sign and exponent with zero, all-one, every single-bit and every two-adjacent-bit mantissa and their neighbours", func(c *Ctx) {
					for e := 0; e < 256; e++ {
						e := e
						c.Case(func() string { return fmt.Sprintf("float32 exponent %d", e) }, func() error {
							for _, sign := range []uint32{0, 1} {
								var ms []uint32
								for b := uint(0); b < 23; b++ {
									ms = append(ms, 1<<b, 1<<b-1, 1<<b+1, 3<<b&(1<<23-1), 1<<23-1-1<<b)
								}
								for m := uint32(0); m < 4096; m++ {
									ms = append(ms, m, m<<11)
								}
								var as []xw.Attr
								var bits []uint32
								for _, m := range ms {
									v := sign<<31 | uint32(e)<<23 | m&(1<<23-1)
									a := tmpl.Float32(math.Float32frombits(v))
									if err := keeps(a); err != nil {
										return err
									}
									if err := checkFloat(a.Value, 32, uint64(v)); err != nil {
										return err
									}
									if len(as) < 200 {
										a.Prefix, a.URI, a.Name = "", "", fmt.Sprintf("a%d", len(as))
										as = append(as, a)
										bits = append(bits, v)
									}
									c.res.Traces++
								}
								vs, err := throughWriter(as)
								if err != nil {
									return err
								}
								for i := range vs {
									if err := checkFloat(vs[i], 32, uint64(bits[i])); err != nil {
										return err
									}
								}
							}
							c.Outcome(fmt.Sprint("f32", e))
							return nil
						})
					}
					for e := 0; e < 2048; e++ {
						e := e
						c.Case(func() string { return fmt.Sprintf("float64 exponent %d", e) }, func() error {
							for _, sign := range []uint64{0, 1} {
								var ms []uint64
								const full = 1<<52 - 1
								ms = append(ms, 0, full)
								for b := uint(0); b < 52; b++ {
									ms = append(ms, 1<<b, 1<<b-1, 1<<b+1, 3<<b&full, full-1<<b)
								}
								var as []xw.Attr
								for k, m := range ms {
									v := sign<<63 | uint64(e)<<52 | m&full
									a := tmpl.Float64(math.Float64frombits(v))
									if err := keeps(a); err != nil {
										return err
									}
									if err := checkFloat(a.Value, 64, v); err != nil {
										return err
									}
									a.Prefix, a.URI, a.Name = "", "", fmt.Sprintf("a%d", k)
									as = append(as, a)
									c.res.Traces++
								}
								vs, err := throughWriter(as)
								if err != nil {
									return err
								}
								for i, m := range ms {
									if err := checkFloat(vs[i], 64, sign<<63|uint64(e)<<52|m&full); err != nil {
										return err
									}
								}
							}
							c.Outcome(fmt.Sprint("f64", e))
							return nil
						})
					}
				}},
				{"all-float32", "thorough only: all 2^32 float32 values", func(c *Ctx) {
					if !c.Thorough {
						return
					}
					for hi := 0; hi < 1<<16; hi++ {
						hi := hi
						c.Case(func() string { return fmt.Sprintf("float32 bits %#04x0000..%#04xffff", hi, hi) }, func() error {
							for lo := 0; lo < 1<<16; lo++ {
								v := uint32(hi)<<16 | uint32(lo)
								if err := checkFloat(tmpl.Float32(math.Float32frombits(v)).Value, 32, uint64(v)); err != nil {
									return err
								}
							}
							c.res.Traces += 1 << 16
							return nil
						})
					}
				}},
			}
		}})

	register(&Prop{ID: "C12", Level: "exploration", Rule: "every code point at the first and at a later position, and every short string over a boundary alphabet, at every API site that takes a name, compared with productions [4], [4a] and [5] of XML 1.0; non-trivial = a distinct (site, name)",
		Assumptions: []string{"an empty string is not a name: CheckName accepts it by documentation, so emptiness is judged at the sites (PI.Target excepted: an existing test pins that an empty PI is accepted)"},
		Parts: func(th bool) []Part {
			return []Part{
				{"CheckName", "CheckName on every code point (including surrogates) first, second, last and alone", func(c *Ctx) {
					for lo := rune(0); lo <= 0x10FFFF; lo += 256 {
						lo := lo
						for pos := 0; pos < 5; pos++ {
							pos := pos
							c.Case(func() string { return fmt.Sprintf("CheckName, U+%04X..U+%04X at position kind %d", lo, lo+255, pos) }, func() error {
								var kn error
								for r := lo; r < lo+256; r++ {
									s := encodeRune(r)
									n := [...]string{s, "a" + s, s + "b", "é" + s + "b", "a\u0370\u00b7" + s}[pos]
									c.res.Traces++
									if err := judgeName(c, "CheckName", n, specName(n), xw.CheckName(n)); err != nil {
										if _, ok := err.(knownErr); ok {
											kn = err
											continue
										}
										return err
									}
								}
								c.Outcome(fmt.Sprint(lo, pos))
								return kn
							})
						}
					}
				}},
				{"sites-x-code-points", "every name site with every code point of the BMP and the ends of the other planes (thorough: every code point), first and later", func(c *Ctx) {
					for _, site := range nameSites {
						for lo := rune(0); lo <= 0x10FFFF; lo += 256 {
							lo, site := lo, site
							if in := lo & 0xFFFF; !th && lo > 0xFFFF && in >= 0x300 && in < 0xFD00 {
								continue // the quick tier visits the ends of the supplementary planes
							}
							c.Case(func() string { return fmt.Sprintf("%s with U+%04X..U+%04X", site.name, lo, lo+255) }, func() error {
								var kn error
								for r := lo; r < lo+256; r++ {
									for _, n := range []string{encodeRune(r), "a" + encodeRune(r)} {
										full := n
										if site.full != nil {
											full = site.full(n)
										}
										err := smallDo(func(w *xw.Writer) error {
											for _, o := range site.pre {
												if err := o.Do(w); err != nil {
													panic(err)
												}
											}
											return site.op(n).Do(w)
										})
										c.res.Traces++
										if err := judgeName(c, site.name, full, specName(full), err); err != nil {
											if _, ok := err.(knownErr); ok {
												kn = err
												continue
											}
											return err
										}
									}
								}
								c.Outcome(fmt.Sprint(site.name, lo))
								return kn
							})
						}
					}
				}},
				{"sites-x-strings", "every name site with every string of up to 3 (thorough: 4) items over a 16-item alphabet; accepted names are read back", func(c *Ctx) {
					al := []string{"a", "Z", "_", ":", "-", ".", "0", " ", "<", ">", "\"", "=", "é", "\u00b7", "\u0370", "\xff"}
					for _, site := range nameSites {
						allStrings(al, pick(c.Thorough, 3, 4), func(s string, _ []string) bool {
							site := site
							c.Case(func() string { return fmt.Sprintf("%s = %q", site.name, s) }, func() error {
								full := s
								if site.full != nil {
									full = site.full(s)
								}
								ok := specName(full)
								if s == "" {
									ok = strings.HasPrefix(site.name, "Elem.Prefix") || site.name == "Attr.Prefix"
									if site.name == "DTDEntity.NDataID" || site.name == "Elem.Name (with prefix)" {
										return errSkip
									}
								}
								var sk sink
								w := xw.Open(&sk, withBuf(64))
								apply(w, site.pre)
								err := site.op(s).Do(w)
								c.res.Traces++
								if s == "" && site.name == "PI.Target" {
									if err == nil {
										return knownErr{"pi-empty-target", fmt.Errorf("PI with an empty target is accepted")}
									}
									return nil
								}
								if err := judgeName(c, site.name, full, ok, err); err != nil || !ok {
									return err
								}
								if err != nil {
									return nil
								}
								if err := w.EndAllFlush(); err != nil {
									return err
								}
								t, err := parseFragment(sk.String())
								if err != nil {
									return fmt.Errorf("%v: %q", err, sk.String())
								}
								if !strings.Contains(t.String(), full) {
									return fmt.Errorf("the name does not read back: %q", sk.String())
								}
								c.Outcome(sk.String())
								return nil
							})
							return !c.Stop()
						})
					}
				}},
				{"reserved-pi-targets", "every case variant of every string of up to 4 letters over {x,m,l,X,M,L} plus continuations: refused iff it is \"xml\"", func(c *Ctx) {
					allStrings([]string{"x", "m", "l", "X", "M", "L", "-"}, 4, func(s string, _ []string) bool {
						if s == "" {
							return true
						}
						c.Case(func() string { return fmt.Sprintf("PI target %q", s) }, func() error {
							c.res.Traces++
							c.Outcome(s)
							err := smallDo(func(w *xw.Writer) error { return w.WritePI(xw.PI{Target: s}) })
							want := specName(s) && !strings.EqualFold(s, "xml")
							if (err == nil) != want {
								return fmt.Errorf("PI target %q: %v", s, err)
							}
							return nil
						})
						return true
					})
				}},
				sweepPart(th, "value-lengths", "name"),
				nameFieldsPart(),
				{"long-names", "an illegal character at every position of names of every length up to 80 (thorough: 200)", func(c *Ctx) {
					max := pick(th, 80, 200)
					for n := 1; n <= max; n++ {
						n := n
						c.Case(func() string { return fmt.Sprintf("names of length %d", n) }, func() error {
							for p := 0; p < n; p++ {
								for _, bad := range []string{" ", "<", "/", "\u2190", "\x00", "\xff", "\uFFFF"} {
									name := strings.Repeat("n", p) + bad + strings.Repeat("m", n-p-1)
									c.res.Traces++
									if xw.CheckName(name) == nil {
										return fmt.Errorf("CheckName(%q) accepted", name)
									}
								}
							}
							if err := xw.CheckName(strings.Repeat("n", n)); err != nil {
								return err
							}
							c.Outcome(fmt.Sprint(n))
							return nil
						})
					}
				}},
			}
		}})

	register(&Prop{ID: "C13", Level: "exploration", Rule: "every code point in every position kind, every byte string of length <= 3 (thorough: 4 with a lead byte) and every short string over a boundary alphabet, compared with the XML 1.0 productions; non-trivial = a distinct input block",
		Assumptions: []string{"the empty string is accepted by all three functions and is not judged"},
		Parts: func(th bool) []Part {
			pub := func(s string) bool {
				for i := 0; i < len(s); i++ {
					if !isPubidChar(s[i]) {
						return false
					}
				}
				return true
			}
			judge := func(s string) error {
				for _, strict := range []bool{true, false} {
					if got, want := xw.CheckChars(s, strict) == nil, specChars(s, strict); got != want {
						return fmt.Errorf("CheckChars(%q, strict=%v) accepts: %v, want %v", s, strict, got, want)
					}
				}
				if s == "" {
					return nil
				}
				if got, want := xw.CheckEncoding(s) == nil, specEncName(s); got != want {
					return fmt.Errorf("CheckEncoding(%q) accepts: %v, want %v", s, got, want)
				}
				if got, want := xw.CheckPubID(s) == nil, pub(s); got != want {
					return fmt.Errorf("CheckPubID(%q) accepts: %v, want %v", s, got, want)
				}
				return nil
			}
			return []Part{
				{"code-points", "every code point (and surrogate encodings) alone, first, in the middle, last", func(c *Ctx) {
					for lo := rune(0); lo <= 0x10FFFF; lo += 256 {
						lo := lo
						c.Case(func() string { return fmt.Sprintf("U+%04X..U+%04X", lo, lo+255) }, func() error {
							for r := lo; r < lo+256; r++ {
								e := encodeRune(r)
								for _, s := range []string{e, e + "a", "a" + e, "a" + e + "b", "a" + e + e, strings.Repeat("abcd", 9) + e} {
									c.res.Traces++
									if err := judge(s); err != nil {
										return err
									}
								}
							}
							c.Outcome(fmt.Sprint(lo))
							return nil
						})
					}
				}},
				{"byte-strings", "every byte string of length <= 3", func(c *Ctx) {
					for a := 0; a < 256; a++ {
						for b := 0; b < 256; b++ {
							a, b := a, b
							c.Case(func() string { return fmt.Sprintf("bytes %02x %02x xx", a, b) }, func() error {
								if err := judge(string([]byte{byte(a), byte(b)})); err != nil {
									return err
								}
								for d := 0; d < 256; d++ {
									c.res.Traces++
									if err := judge(string([]byte{byte(a), byte(b), byte(d)})); err != nil {
										return err
									}
								}
								if a == 0 {
									return judge(string([]byte{byte(b)}))
								}
								c.Outcome(fmt.Sprint(a, b))
								return nil
							})
						}
					}
				}},
				{"four-byte-forms", "every 4-byte sequence with lead byte F0..F8 (quick: continuation bytes from their boundary set)", func(c *Ctx) {
					var conts []int
					for x := 0; x < 256; x++ {
						if th || x == 0 || x == 0x41 || x >= 0x7e && x <= 0x92 || x >= 0x9e && x <= 0xa1 || x >= 0xbc && x <= 0xc1 || x == 0xff {
							conts = append(conts, x)
						}
					}
					for l := 0xEF; l <= 0xF8; l++ {
						for _, b := range conts {
							l, b := l, b
							c.Case(func() string { return fmt.Sprintf("bytes %02x %02x xx xx", l, b) }, func() error {
								for _, d := range conts {
									for _, e := range conts {
										c.res.Traces++
										if err := judge(string([]byte{byte(l), byte(b), byte(d), byte(e)})); err != nil {
											return err
										}
									}
								}
								c.Outcome(fmt.Sprint(l, b))
								return nil
							})
						}
					}
				}},
				{"lengths", "every length 0..300 and around powers of two up to 65536 with 19 special pieces at seven places, and (up to 300 bytes) at every position", func(c *Ctx) {
					sps := []string{"", " ", "-", ".", "_", "9", "Z", "\"", "'", "&", "\n", "\t", "\r", "\x00", "\x7f", "\xff", "\u00e9", "\uFFFE", "\U0001FFFE"}
					for _, n := range sweepLens(300, 65536) {
						for _, sp := range sps {
							n, sp := n, sp
							c.Case(func() string { return fmt.Sprintf("%d bytes with %q", n, sp) }, func() error {
								c.Outcome(fmt.Sprint(n, sp))
								for _, fill := range []string{"a", "Ab-9"} {
									for pos := 0; pos < 7; pos++ {
										if v, ok := sweepValue(fill, sp, n, pos); ok {
											c.res.Traces++
											if err := judge(v); err != nil {
												return shorten(err)
											}
										}
									}
								}
								if n <= 300 && sp != "" {
									for p := 0; p < n; p++ {
										c.res.Traces++
										if err := judge(strings.Repeat("a", p) + sp + strings.Repeat("b", n-p-1)); err != nil {
											return err
										}
									}
								}
								return nil
							})
						}
					}
				}},
				{"strings", "every string of up to 4 (thorough: 5) items over a 14-item boundary alphabet", func(c *Ctx) {
					al := []string{"a", "Z", "9", "-", ".", "_", " ", "\"", "'", "\t", "\n", "\u007f", "\uFFFE", "\x80"}
					allStrings(al, pick(c.Thorough, 4, 5), func(s string, _ []string) bool {
						c.Case(func() string { return fmt.Sprintf("%q", s) }, func() error { c.res.Traces++; c.Outcome(s); return judge(s) })
						return !c.Stop()
					})
				}},
			}
		}})

	register(&Prop{ID: "C14", Level: "model_checking", Rule: "every combination of the declaration's fields over small value sets, and every short string over quoting alphabets, against the reference model and the DTD grammar; non-trivial = a distinct output",
		Assumptions: []string{"content models (DTDElem.Decl), attribute types and entity replacement text are written as given: their inner grammar is the caller's responsibility"},
		Parts: func(th bool) []Part {
			run := func(c *Ctx, ops []Op) error {
				r, err := runOps(ops, small)
				if err != nil {
					return err
				}
				c.res.Traces++
				c.Outcome(r.Out + fmt.Sprint(r.Verdicts))
				if c.part.Evals%4001 == 1 {
					c.Sample(descOps(ops) + " => " + r.Out)
				}
				if r.Poisoned {
					return nil
				}
				return checkTree(r, false)
			}
			both := func(c *Ctx, n xw.Writable) {
				for i, o := range []Op{opWrite(n), opWriteX(n)} {
					for _, pre := range [][]Op{nil, {opStart(xw.DTD{Name: "d"})}, {opStart(xw.Doc{}), opStart(xw.DTD{Name: "d", SystemID: "s"}), opWrite(xw.Comment{Content: "c"})}} {
						if i == 1 && len(pre) != 1 {
							continue
						}
						ops := append(append(append([]Op{}, pre...), o), opWrite(xw.Comment{Content: "after"}))
						c.Case(func() string { return descOps(ops) }, func() error { return run(c, ops) })
					}
				}
			}
			vals := []string{"", "x", "a b", "it's", "say \"hi\"", "both ' and \"", "é", "\x01", "\xff", "a&b", "<", ">", "%", "\n", "]]>", "]", "\U0001F600", "\u0080", "\uFFFE"}
			return []Part{
				{"doctype", "DTD name x public x system identifiers over an 19-value set, with and without an internal subset", func(c *Ctx) {
					for _, nm := range []string{"d", "", "a b", "é", "1"} {
						for _, pub := range vals {
							for _, sys := range vals {
								d := xw.DTD{Name: nm, PublicID: pub, SystemID: sys}
								for v := 0; v < 3; v++ {
									ops := []Op{opStart(xw.Doc{}), opStart(d)}
									if v == 1 {
										ops = append(ops, opWrite(xw.DTDElem{Name: "e", Decl: "ANY"}))
									}
									if v == 2 {
										ops[1] = opStartX(d)
										ops = append(ops, opNext())
									}
									ops = append(ops, opEndX(xw.DTDNode), opWrite(xw.Elem{Name: "d"}))
									c.Case(func() string { return descOps(ops) }, func() error { return run(c, ops) })
								}
							}
						}
					}
				}},
				{"entity", "DTDEntity name x content x IsPE x public x system x NDATA", func(c *Ctx) {
					sm := []string{"", "x", "it's", "\"q\"", "'\"", "\x01", "é"}
					for _, nm := range []string{"n", "", "<"} {
						for _, ct := range vals {
							for _, pe := range []bool{false, true} {
								for _, pub := range sm {
									for _, sys := range sm {
										for _, nd := range []string{"", "nd", "bad name", "é"} {
											if nm != "n" && (pub != "" || nd != "") {
												continue
											}
											both(c, xw.DTDEntity{Name: nm, Content: ct, IsPE: pe, PublicID: pub, SystemID: sys, NDataID: nd})
										}
									}
								}
							}
						}
					}
				}},
				{"notation", "Notation name x public x system", func(c *Ctx) {
					for _, nm := range []string{"n", "", "a b", "é"} {
						for _, pub := range vals {
							for _, sys := range vals {
								both(c, xw.Notation{Name: nm, PublicID: pub, SystemID: sys})
							}
						}
					}
				}},
				{"element", "DTDElem name x declaration", func(c *Ctx) {
					for _, nm := range []string{"n", "", "a b", "é", "p:n"} {
						for _, d := range []string{"", xw.DTDElemEmpty, xw.DTDElemAny, "(" + xw.DTDElemPCData + ")", "(#PCDATA|a|b)*", "(a,b?,(c|d)+)", "%pe;"} {
							both(c, xw.DTDElem{Name: nm, Decl: d})
						}
					}
				}},
				{"attlist", "DTDAttr type x default kind x value x name, alone and in lists of up to 3, structured and not", func(c *Ctx) {
					types := []xw.DTDAttrType{xw.DTDAttrString, xw.DTDAttrID, xw.DTDAttrIDRef, xw.DTDAttrIDRefs, xw.DTDAttrEntity, xw.DTDAttrEntities, xw.DTDAttrNmtoken, xw.DTDAttrNmtokens, "(a|b)", "NOTATION (n)", ""}
					for _, ty := range types {
						for df := xw.DTDAttrDefaultType(-1); df <= 6; df++ {
							for _, v := range vals {
								for _, nm := range []string{"n", "", "a b"} {
									a := xw.DTDAttr{Name: nm, Type: ty, Default: df, Value: v}
									ok := xw.DTDAttr{Name: "ok", Type: xw.DTDAttrID, Default: xw.DTDAttrRequired}
									for _, ops := range [][]Op{
										{opStart(xw.DTDAttList{Name: "l"}), opWrite(a), opWriteX(ok)},
										{opStart(xw.DTD{Name: "d"}), opStart(xw.DTDAttList{Name: "l"}), opWriteX(ok), opWriteX(a), opEndX(xw.DTDAttListNode)},
										{opStart(xw.DTD{Name: "d"}), opWrite(xw.DTDAttList{Name: "l", Attrs: []xw.DTDAttr{ok, a}}), opWrite(xw.Comment{Content: "after"})},
										{opWriteX(xw.DTDAttList{Name: "l", Attrs: []xw.DTDAttr{a, ok, {Name: "z", Type: xw.DTDAttrString, Default: xw.DTDAttrFixed, Value: v}}})},
										{opBlock(xw.DTDAttList{Name: "l"}, a)},
									} {
										ops := ops
										c.Case(func() string { return descOps(ops) }, func() error { return run(c, ops) })
									}
								}
							}
						}
					}
				}},
				{"quoting", "every string of up to 4 (thorough: 5) items over {a, \", ', <, &, >, \\n, é, \\x01} as system identifier, public identifier, entity value and default value", func(c *Ctx) {
					al := []string{"a", "\"", "'", "<", "&", ">", "\n", "é", "\x01"}
					allStrings(al, pick(c.Thorough, 4, 5), func(s string, _ []string) bool {
						for _, ops := range [][]Op{
							{opStart(xw.DTD{Name: "d", SystemID: s})},
							{opStart(xw.DTD{Name: "d", PublicID: "p", SystemID: s})},
							{opStart(xw.DTD{Name: "d", PublicID: s, SystemID: "s"})},
							{opWrite(xw.DTDEntity{Name: "n", Content: s})},
							{opWrite(xw.DTDEntity{Name: "n", IsPE: true, SystemID: s})},
							{opWrite(xw.DTDEntity{Name: "n", PublicID: s, SystemID: s})},
							{opWrite(xw.Notation{Name: "n", PublicID: s})},
							{opWrite(xw.Notation{Name: "n", SystemID: s})},
							{opWrite(xw.DTDAttList{Name: "l", Attrs: []xw.DTDAttr{{Name: "a", Type: xw.DTDAttrString, Default: xw.DTDAttrDefault, Value: s}, {Name: "b", Type: xw.DTDAttrString, Default: xw.DTDAttrFixed, Value: s}}})},
						} {
							ops := ops
							c.Case(func() string { return descOps(ops) }, func() error { return run(c, ops) })
						}
						return !c.Stop()
					})
				}},
				{"code-points", "every code point in system identifiers, public identifiers, entity values and defaults", func(c *Ctx) {
					for lo := rune(0); lo <= 0x10FFFF; lo += 128 {
						lo := lo
						c.Case(func() string { return fmt.Sprintf("U+%04X..U+%04X", lo, lo+127) }, func() error {
							for r := lo; r < lo+128; r++ {
								s := "x" + encodeRune(r) + "y"
								for _, o := range []Op{
									opWrite(xw.Notation{Name: "n", SystemID: s}), opWrite(xw.Notation{Name: "n", PublicID: s}),
									opWrite(xw.DTDEntity{Name: "n", Content: s}), opStart(xw.DTD{Name: "d", PublicID: s, SystemID: s}),
								} {
									if err := run(c, []Op{o}); err != nil {
										return fmt.Errorf("%s: %v", o.Desc, err)
									}
								}
							}
							return nil
						})
					}
				}},
				sweepPart(th, "value-lengths", "public", "system", "decl"),
				pairsPart("declarations"),
				{"attdef-pairs", "as coincidences, for attribute definitions", pairsPart("attdefs").Run},
				{"sequences", "every sequence of up to 4 (thorough: 5) declaration calls inside a DTD", func(c *Ctx) {
					c.sequences(seqOpts{depth: pick(th, 4, 5), judge: judgeTree(false), setup: small, pruneRefused: true, prefix: []Op{opStart(xw.Doc{}), opStart(xw.DTD{Name: "r"})}}, alphaDTD)
				}},
			}
		}})

	register(&Prop{ID: "C19", Level: "exploration", Rule: "every combination of the declaration's options; non-trivial = a distinct output",
		Assumptions: []string{"version strings are written as given (escaped as an attribute value)"},
		Parts: func(th bool) []Part {
			str := func(s string) *string { return &s }
			return []Part{
				{"options", "SuppressVersion x ForcedVersion x Writer.Version x SuppressEncoding x ForcedEncoding x encoding of the writer x Standalone x NewlineString x what follows", func(c *Ctx) {
					no, yes := false, true
					for _, sv := range []bool{false, true} {
						for _, fv := range []*string{nil, str("1.1"), str("pants"), str("")} {
							for _, wv := range []string{"", "1.0", "1.1"} {
								for _, se := range []bool{false, true} {
									for _, fe := range []*string{nil, str("latin-1"), str(""), str("1bad"), str("x y")} {
										for _, we := range []string{"UTF-8", "utf-16", "", "bad enc"} {
											for _, sa := range []*bool{nil, &no, &yes} {
												for _, nl := range []string{"\n", "", "\r\n"} {
													for what := 0; what < 4; what++ {
														d := xw.Doc{SuppressVersion: sv, ForcedVersion: fv, SuppressEncoding: se, ForcedEncoding: fe, Standalone: sa}
														wv, we, nl, what := wv, we, nl, what
														c.Case(func() string {
															return fmt.Sprintf("%s with Writer.Version=%q, encoding %q, NewlineString=%q, body %d", describe(d), wv, we, nl, what)
														}, func() error {
															var s sink
															var w *xw.Writer
															var o []xw.Option
															if wv != "1.0" || nl != "\n" {
																o = append(o, opt(func(w *xw.Writer) { w.Version = wv; w.NewlineString = nl }))
															}
															if we == "UTF-8" {
																w = xw.Open(&s, o...)
															} else {
																w = xw.OpenEncoding(&s, we, nopEncoder(), o...)
															}
															c.res.Traces++
															want := "<?xml"
															bad := false
															if !sv {
																v := wv
																if v == "" {
																	v = "1.0"
																}
																if fv != nil {
																	v = *fv
																}
																want += ` version="` + v + `"`
															}
															if !se {
																e := we
																if fe != nil {
																	e = *fe
																}
																if e != "" {
																	bad = !specEncName(e)
																	want += ` encoding="` + e + `"`
																}
															}
															if sa != nil {
																want += map[bool]string{true: ` standalone="yes"`, false: ` standalone="no"`}[*sa]
															}
															dd := d
															if what == 3 {
																// the fluent setters give the same value
																dd = xw.Doc{SuppressVersion: sv, SuppressEncoding: se}
																if fv != nil {
																	dd = dd.ForceVersion(*fv)
																}
																if fe != nil {
																	dd = dd.ForceEncoding(*fe)
																}
																if sa != nil {
																	dd = dd.WithStandalone(*sa)
																}
															}
															err := w.Start(dd)
															if bad {
																if err == nil {
																	return fmt.Errorf("an illegal encoding name was accepted: %s", want)
																}
																return nil
															}
															if err != nil {
																return err
															}
															rest := ""
															switch what {
															case 1:
																err = w.WriteElem(xw.Elem{Name: "r"})
																rest = "<r/>"
															case 2, 3:
																err = w.Block(xw.Elem{Name: "r"}, xw.Text("t"))
																rest = "<r>t</r>"
															}
															if err == nil && what > 0 {
																err = w.EndDoc()
															}
															if err == nil {
																err = w.EndAllFlush()
															}
															if err != nil {
																return err
															}
															got := s.String()
															c.Outcome(got)
															i := strings.Index(got, "?>")
															if i < 0 || strings.TrimRight(got[:i], " ") != want {
																return fmt.Errorf("got %q, want %q...", got, want)
															}
															if !sv && got[:i] != want {
																return fmt.Errorf("got %q, want %q", got[:i], want)
															}
															if got[i+2:] != nl+rest {
																return fmt.Errorf("after the declaration: %q, want %q", got[i+2:], nl+rest)
															}
															return nil
														})
													}
												}
											}
										}
									}
								}
							}
						}
					}
				}},
				{"encoding-names", "every encoding name of up to 4 characters over a 10-character alphabet, forced or from the writer: written iff it is an EncName", func(c *Ctx) {
					al := []string{"a", "Z", "0", "-", ".", "_", " ", "\"", "é", ":"}
					allStrings(al, pick(th, 4, 5), func(s string, _ []string) bool {
						if s == "" {
							return true
						}
						c.Case(func() string { return fmt.Sprintf("encoding %q", s) }, func() error {
							c.res.Traces++
							want := specEncName(s)
							var b sink
							w := xw.Open(&b, withBuf(16))
							err := w.Start(xw.Doc{}.ForceEncoding(s))
							if (err == nil) != want {
								return fmt.Errorf("ForceEncoding(%q): %v", s, err)
							}
							var b2 sink
							w2 := xw.OpenEncoding(&b2, s, nopEncoder(), withBuf(16))
							if err := w2.Start(xw.Doc{}); (err == nil) != want {
								return fmt.Errorf("OpenEncoding(%q): %v", s, err)
							}
							if want {
								w.EndAllFlush()
								w2.EndAllFlush()
								exp := `<?xml version="1.0" encoding="` + s + `"?>` + "\n"
								if b.String() != exp || b2.String() != exp {
									return fmt.Errorf("got %q and %q, want %q", b.String(), b2.String(), exp)
								}
							}
							c.Outcome(s)
							return nil
						})
						return !c.Stop()
					})
				}},
			}
		}})

	register(&Prop{ID: "C20", Level: "model_checking", Rule: "every sequence of up to 4 (thorough: 5) collector calls over error vectors of length <= 3; states = (first error, index), transitions = calls",
		Assumptions: []string{"a collector is used by one goroutine"},
		Parts: func(th bool) []Part {
			return []Part{{"sequences", "Do, Must, Set and Panic after every history of collected errors", func(c *Ctx) {
				e1, e2 := errors.New("e1"), fmt.Errorf("wrapped: %w", errSkip)
				var vecs [][]error
				vecs = append(vecs, nil)
				for n := 1; n <= 3; n++ {
					total := 1
					for i := 0; i < n; i++ {
						total *= 3
					}
					for code := 0; code < total; code++ {
						v := make([]error, n)
						for i, x := 0, code; i < n; i, x = i+1, x/3 {
							v[i] = [...]error{nil, e1, e2}[x%3]
						}
						vecs = append(vecs, v)
					}
				}
				type step struct {
					must bool
					v    []error
				}
				var steps []step
				for _, v := range vecs {
					steps = append(steps, step{false, v})
				}
				for _, v := range [][]error{nil, {nil}, {e1}, {e2}, {nil, e2}, {nil, nil, nil}, {e1, e2, nil}} {
					steps = append(steps, step{true, v})
				}
				max := pick(c.Thorough, 3, 4)
				var rec func(seq []int)
				rec = func(seq []int) {
					sq := append([]int{}, seq...)
					c.Case(func() string {
						s := ""
						for _, i := range sq {
							s += fmt.Sprintf("Do(%v) ", steps[i].v)
							if steps[i].must {
								s += "[as Must] "
							}
						}
						return s + "then Set, Panic, Error, Unwrap"
					}, func() error {
						ec := &xw.ErrCollector{}
						var first error
						idx, line := 0, 0
						var here int
						for k, i := range sq {
							st := steps[i]
							c.Trans(fmt.Sprint(first, idx), fmt.Sprint(i))
							var panicked interface{}
							func() {
								defer func() { panicked = recover() }()
								if st.must {
									_, _, here, _ = runtime.Caller(0)
									ec.Must(st.v...) // the line after the one recorded above
								} else {
									_, _, here, _ = runtime.Caller(0)
									ec.Do(st.v...) // the line after the one recorded above
								}
							}()
							fi := -1
							for j, e := range st.v {
								if e != nil {
									fi = j
									break
								}
							}
							if fi >= 0 && (first == nil || st.must) {
								first, idx, line = st.v[fi], fi+1, here+1
							}
							if st.must {
								if fi >= 0 {
									if panicked != interface{}(ec) {
										return fmt.Errorf("call %d: Must with an error panicked with %v", k, panicked)
									}
								} else if panicked != nil {
									return fmt.Errorf("call %d: Must without an error panicked with %v", k, panicked)
								}
							} else if panicked != nil {
								return fmt.Errorf("call %d: Do panicked with %v", k, panicked)
							}
							c.State(fmt.Sprint(first, idx))
							if ec.Err != first {
								return fmt.Errorf("after call %d: Err = %v, want the first error %v", k, ec.Err, first)
							}
							if first != nil {
								if ec.Index != idx {
									return fmt.Errorf("after call %d: Index = %d, want %d", k, ec.Index, idx)
								}
								if ec.Line != line || !strings.HasSuffix(ec.File, "p_values.go") {
									return fmt.Errorf("after call %d: location %s:%d, want p_values.go:%d", k, ec.File, ec.Line, line)
								}
							}
						}
						c.res.Traces++
						other := errors.New("other")
						ret := other
						ec.Set(&ret)
						var nilret error
						ec.Set(&nilret)
						var panicked interface{}
						func() {
							defer func() { panicked = recover() }()
							ec.Panic()
						}()
						if first == nil {
							if ret != other || nilret != nil || panicked != nil {
								return fmt.Errorf("nothing collected, but Set gave %v / %v and Panic %v", ret, nilret, panicked)
							}
							return nil
						}
						if ret != error(ec) || nilret != error(ec) || panicked != interface{}(ec) {
							return fmt.Errorf("collected %v, but Set gave %v / %v and Panic %v", first, ret, nilret, panicked)
						}
						if !errors.Is(ret, first) || errors.Unwrap(ret) != first || first == e2 && !errors.Is(ret, errSkip) {
							return fmt.Errorf("the collected error is not reachable through errors.Is / Unwrap")
						}
						var as *xw.ErrCollector
						if !errors.As(ret, &as) || as != ec {
							return fmt.Errorf("errors.As does not find the collector")
						}
						if msg := ec.Error(); !strings.Contains(msg, first.Error()) || !strings.Contains(msg, fmt.Sprint(line)) || !strings.Contains(msg, fmt.Sprintf("#%d", idx)) {
							return fmt.Errorf("message %q lacks the error, line or index", msg)
						}
						c.Outcome(fmt.Sprint(sq, idx, first))
						return nil
					})
					if len(seq) == max || c.Stop() {
						return
					}
					for i := range steps {
						rec(append(seq, i))
					}
				}
				rec(nil)
			}}}
		}})

	register(&Prop{ID: "C25", Level: "exploration", Rule: "every integer in -70000..70000 and the type's bounds as a NodeKind, and every NodeState",
		Assumptions: nil,
		Parts: func(th bool) []Part {
			return []Part{{"kinds", "Name, String for every value; names of the 17 kinds non-empty, pairwise distinct; others empty", func(c *Ctx) {
				kinds := []xw.NodeKind{xw.NoNode, xw.AttrNode, xw.CDataNode, xw.CDataContentNode, xw.CommentNode, xw.CommentContentNode, xw.DTDNode, xw.DTDAttListNode, xw.DTDAttrNode,
					xw.DTDElemNode, xw.DTDEntityNode, xw.DocNode, xw.ElemNode, xw.NotationNode, xw.PINode, xw.RawNode, xw.TextNode}
				names := map[string]xw.NodeKind{}
				for _, k := range kinds {
					names[k.Name()] = k
				}
				stable := []string{"none", "attr", "cdata", "cdatacontent", "comment", "commentcontent", "dtd", "dtdattlist", "dtdattr", "dtdelem", "dtdentity", "document", "elem", "notation", "pi", "raw", "text"}
				c.Case(func() string { return "the stable names" }, func() error {
					for i, k := range kinds {
						if k.Name() != stable[i] {
							return fmt.Errorf("kind %d is named %q, its stable name is %q", int(k), k.Name(), stable[i])
						}
					}
					return nil
				})
				c.Case(func() string { return "events" }, func() error {
					seen := map[string]xw.Event{}
					for _, k := range append(kinds, -1, 17, 1<<20) {
						for st := xw.StateOpen; st <= xw.StateEnded; st++ {
							for _, ch := range []int{0, 1, 2, 9, 10, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 1<<31 - 1} {
								e := xw.Event{State: st, Node: k, Children: ch}
								s := e.String()
								if !strings.Contains(s, k.Name()) {
									return fmt.Errorf("event of kind %q is printed as %q", k.Name(), s)
								}
								if o, dup := seen[s]; dup && k.Name() != "" {
									return fmt.Errorf("two events, %#v and %#v, are printed as %q", o, e, s)
								}
								seen[s] = e
							}
						}
					}
					return nil
				})
				c.Case(func() string { return "the 17 kinds" }, func() error {
					names := map[string]xw.NodeKind{}
					for _, k := range kinds {
						n := k.Name()
						if n == "" {
							return fmt.Errorf("kind %d has no name", int(k))
						}
						if o, dup := names[n]; dup {
							return fmt.Errorf("kinds %d and %d are both named %q", int(o), int(k), n)
						}
						names[n] = k
						c.Outcome(n)
						c.State(n)
						if s := k.String(); !strings.Contains(s, n) || !strings.Contains(s, fmt.Sprint(int(k))) {
							return fmt.Errorf("String of %q is %q", n, s)
						}
					}
					return nil
				})
				isKind := map[int]bool{}
				for _, k := range kinds {
					isKind[int(k)] = true
				}
				check := func(v int) error {
					if !isKind[v] {
						c.res.Traces++
						if n := xw.NodeKind(v).Name(); n != "" {
							return fmt.Errorf("invalid kind %d is named %q", v, n)
						}
						s := xw.NodeKind(v).String()
						if !strings.Contains(s, fmt.Sprint(v)) {
							return fmt.Errorf("String of invalid kind %d is %q", v, s)
						}
						for _, word := range strings.FieldsFunc(s, func(r rune) bool { return !(r >= 'a' && r <= 'z') }) {
							if k, valid := names[word]; valid {
								return fmt.Errorf("String of invalid kind %d is %q, which names kind %d", v, s, int(k))
							}
						}
					}
					return nil
				}
				for lo := -70000; lo < 70000; lo += 1000 {
					lo := lo
					c.Case(func() string { return fmt.Sprintf("NodeKind %d..%d", lo, lo+999) }, func() error {
						for v := lo; v < lo+1000; v++ {
							if err := check(v); err != nil {
								return err
							}
						}
						return nil
					})
				}
				for _, v := range []int{math.MaxInt32, math.MinInt32, math.MaxInt64, math.MinInt64, 1 << 32, 1<<32 + 5, -1 << 32} {
					v := v
					c.Case(func() string { return fmt.Sprintf("NodeKind %d", v) }, func() error { return check(v) })
				}
				c.Case(func() string { return "NodeState names" }, func() error {
					if xw.StateOpen.Name() != "open" || xw.StateOpened.Name() != "opened" || xw.StateEnded.Name() != "ended" {
						return fmt.Errorf("state names %q %q %q", xw.StateOpen.Name(), xw.StateOpened.Name(), xw.StateEnded.Name())
					}
					return nil
				})
			}}, {"errors-name-kinds", "the error of every refused End names both the open kind and the kind asked for", func(c *Ctx) {
				for _, s := range []xw.Startable{xw.Doc{}, xw.DTD{Name: "d"}, xw.DTDAttList{Name: "l"}, xw.Elem{Name: "e"}, xw.Comment{}, xw.CData{}} {
					for k := xw.NodeKind(0); k <= xw.TextNode; k++ {
						s, k := s, k
						c.Case(func() string { return fmt.Sprintf("w.Start(%s); w.End(%d)", describe(s), int(k)) }, func() error {
							c.res.Traces++
							w := xw.Open(&sink{})
							if err := w.Start(s); err != nil {
								return err
							}
							err := w.End(k)
							if err == nil {
								return nil
							}
							if !strings.Contains(err.Error(), k.Name()) {
								return fmt.Errorf("error %q does not name kind %q", err, k.Name())
							}
							return nil
						})
					}
				}
			}}}
		}})
	_ = utf8.RuneError
}
