package main

import (
	"fmt"
	"strings"

	xw "github.com/shabbyrobe/xmlwriter"
)

// units are the short call groups that leave the depth as it was.
func units(al []Op) [][]Op {
	var out [][]Op
	for _, a := range al {
		out = append(out, []Op{a})
		if strings.HasPrefix(a.Desc, "w.Start") {
			out = append(out, []Op{a, opEndAny()})
		}
	}
	return out
}

func repeated(home, unit []Op, n int) []Op {
	ops := append(make([]Op, 0, len(home)+n*len(unit)), home...)
	for i := 0; i < n; i++ {
		ops = append(ops, unit...)
	}
	return ops
}

// repeatable reports whether the model accepts unit again and again after home.
func repeatable(home, unit []Op) bool {
	m, ok := modelState(home)
	if !ok {
		return false
	}
	d := m.Depth()
	m, ok = modelState(repeated(home, unit, 4))
	return ok && m.Depth() == d && !dangling(m)
}

type counted struct {
	home, unit []Op
}

// countedUnits are the units that can be repeated in each home; core ones only
// if all is false.
func countedUnits(all bool) []counted {
	var out []counted
	al := alphaFull(0)
	if !all {
		al = []Op{opWrite(xw.Elem{Name: "k"}), opStart(xw.Elem{Name: "s"}), opWrite(xw.Text("t")), opWrite(xw.Comment{Content: "c"}), opWrite(xw.CData{}), opWrite(xw.PI{Target: "p"}),
			opWrite(xw.CommentContent("c")), opWrite(xw.CDataContent("]")), opWrite(xw.DTDElem{Name: "x", Decl: "ANY"}), opWrite(xw.DTDAttr{Name: "a", Type: "ID"}), opWrite(xw.DTDEntity{Name: "n", Content: "c"}), opStart(xw.DTDAttList{Name: "l"})}
	}
	for i, h := range homes() {
		if !all && (i == 0 || i == 3) {
			continue
		}
		for _, u := range units(al) {
			if repeatable(h, u) {
				out = append(out, counted{h, u})
			}
		}
	}
	return out
}

// countsPart: a node with very many children of one kind.
func countsPart(th bool) Part {
	near, far := []int{255, 256, 257}, []int{65535, 65536, 65537}
	if th {
		near, far = append(near, 127, 128, 129, 511, 512, 513, 1000, 1023, 1024, 1025, 4096), append(far, 32767, 32768, 32769, 131072)
	}
	return Part{"counts", fmt.Sprintf("in each of 8 places, every call (and every start with its end) that can be repeated there, n times for n in %v; the plainest ones n times for n in %v", near, far), func(c *Ctx) {
		run := func(us []counted, ns []int) {
			for _, u := range us {
				for _, n := range ns {
					u, n := u, n
					if !c.Take() {
						continue
					}
					c.Run(func() string { return fmt.Sprintf("%s; %d times %s", descOps(u.home), n, descOps(u.unit)) }, func() error {
						if c.judge != nil {
							c.res.Traces++
							return shortenOrNil(c.judge(c, repeated(u.home, u.unit, n)))
						}
						return c.ends(repeated(u.home, u.unit, n), small, false)
					})
				}
			}
		}
		run(countedUnits(true), near)
		run(countedUnits(false), far)
	}}
}

// periodicPart: equal siblings are written alike, however many there are.
func periodicPart(th bool, what string, sts func() []*Setup, homesOf func(h []Op) bool) Part {
	ns := append([]int{5, 6, 7, 8, 9, 10, 15, 16, 17}, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 512, 1025, 32768, 65536, 65537)
	if th {
		ns = append(ns, 11, 12, 13, 14, 18, 19, 20, 100, 511, 513, 1000, 1023, 1024, 2047, 2048, 2049, 4096, 10000, 32767, 32769, 65535, 100000, 131072)
	}
	return Part{"equal-siblings", fmt.Sprintf("%s: in each of 8 places, every call (and every start with its end) that can be repeated, n times for n in %v: every repetition after the second writes what the third and the fourth wrote", what, ns), func(c *Ctx) {
		for _, u := range countedUnits(true) {
			if homesOf != nil && !homesOf(u.home) {
				continue
			}
			for i := range sts() {
				if !c.Take() {
					continue
				}
				u, i := u, i
				c.Run(func() string {
					return fmt.Sprintf("%s; n times %s; configuration %d", descOps(u.home), descOps(u.unit), i)
				}, func() error {
					get := func(n int) (string, error) {
						c.res.Traces++
						_, out, errs := snapshot(sts()[i], repeated(u.home, u.unit, n))
						if !clean(errs) {
							return "", fmt.Errorf("%d times: a call or the end fails (%s)", n, clip(errs))
						}
						return out, nil
					}
					o3, err := get(3)
					if err != nil {
						return err
					}
					o4, err := get(4)
					if err != nil {
						return err
					}
					k, l := 0, len(o4)-len(o3)
					for k < len(o3) && o3[k] == o4[k] {
						k++
					}
					if l < 0 || k < l {
						return fmt.Errorf("3 times gives %q, 4 times %q", o3, o4)
					}
					for _, n := range ns {
						got, err := get(n)
						if err != nil {
							return err
						}
						if want := o4[:k] + strings.Repeat(o4[k-l:k], n-4) + o4[k:]; got != want {
							j := 0
							for j < len(got) && j < len(want) && got[j] == want[j] {
								j++
							}
							lo := j - 40
							if lo < 0 {
								lo = 0
							}
							return fmt.Errorf("%d times: at byte %d of %d (want %d) got %q, want %q", n, j, len(got), len(want), clip(got[lo:]), clip(want[lo:]))
						}
						c.Outcome(fmt.Sprint(len(got)))
					}
					return nil
				})
			}
		}
	}}
}
