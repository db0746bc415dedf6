package main

import "strings"

// The fourth enumeration: every place of the grammar far behind the beginning
// of the text, of its line, or of both.

var farSizes = []int{60, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 513, 1000, 1025, 2000, 2049, 4097, 8193, 16385, 32769, 65535, 65537, 70000, 131073}

// farFills are fillings of a gap that put what follows far away; the first two
// consist of white space only.
var farFills = []func(n int) string{
	func(n int) string { return strings.Repeat("\n", n) },
	func(n int) string { return strings.Repeat(" ", n) },
	func(n int) string { return "#" + strings.Repeat("x", n) + "\n" },
	func(n int) string { return strings.Repeat("#y\n", n/3) },
}

// far calls yield with the text without the filling, and with it.
func far(fills int, most int, yield func(plain, text string)) {
	for i, n := range farSizes {
		if n > most {
			break
		}
		for k, sk := range skeletons {
			toks, gs := splitSkeleton(sk)
			plain := joinSkeleton(toks, gs, k%3, -1, "")
			for f := 0; f < fills; f++ {
				if n > 4000 && (i+k+f)%4 != 0 {
					continue
				}
				fill := farFills[f](n)
				switch (i + k + f) % 3 {
				case 0:
					yield(plain, fill+plain)
				case 1: // in the first section
					j := strings.Index(plain, "{")
					yield(plain, plain[:j+1]+fill+plain[j+1:])
				default: // in a gap somewhere
					j := (i*7 + k*5 + f*3) % len(gs)
					if gs[j] == '|' {
						j = (j + 1) % len(gs)
					}
					yield(plain, joinSkeleton(toks, gs, k%3, j, fill))
				}
			}
		}
	}
}

// farTexts makes these texts available to checks of texts, every n-th in the
// quick tier; with errors, also ones with an error at the end or in the middle.
func farTexts(every int, errors bool) optFn {
	return enum(func(yield func(textCase)) {
		i := 0
		y := strided(every, func(s string) { yield(textCase{Txt(s)}) })
		far(len(farFills), farSizes[len(farSizes)-1], func(_, s string) {
			y(s)
			if !errors {
				return
			}
			i++
			for _, e := range []string{"}", "#\xff\n", "{", "\xc3", "input { a { b => 1", "\x00"} {
				if i++; i%3 != 0 {
					continue
				}
				y(s + e)
				if j := strings.LastIndexAny(s, "}]"); j >= 0 {
					y(s[:j] + e + s[j:])
				}
			}
		})
	})
}

// farLayouts are pairs of layouts, one of them with a wide or high gap.
func farLayouts(yield func(layoutCase)) {
	far(2, 70000, func(plain, s string) { yield(layoutCase{Txt(plain), Txt(s)}) })
	// the same with several high gaps, and with wide ones
	for k, sk := range skeletons {
		toks, gs := splitSkeleton(sk)
		plain := joinSkeleton(toks, gs, 0, -1, "")
		for _, n := range []int{2, 3, 5, 12, 40, 90} {
			for _, w := range []string{"\n", " ", "\r\n", "\t"} {
				yield(layoutCase{Txt(plain), Txt(strings.ReplaceAll(plain, " ", strings.Repeat(w, n)))})
				if k%2 == 0 {
					yield(layoutCase{Txt(joinSkeleton(toks, gs, 1, -1, "")), Txt(strings.ReplaceAll(plain, " ", w+strings.Repeat(" ", n)))})
				}
			}
		}
	}
}

// farErrors has an error behind a wide or high gap.
func farErrors(yield func(errCase)) {
	i := 0
	y := strided(2, yield)
	far(len(farFills), 70000, func(_, s string) {
		i++
		j := strings.LastIndexAny(s, "}]")
		if j < 0 {
			return
		}
		e := []string{"}", "\xff", "{", "é", "=", "\xc3", "\x00", "\n]"}[i%8]
		y(errCase{Text: Txt(s[:j] + e + s[j:]), Open: -1})
		y(errCase{Text: Txt(s[:j]), Open: -1})
	})
}
