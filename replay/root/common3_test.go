package limage_test

import "vimagination.zapto.org/limage"

func cut(n int) int {
	if n < 0 {
		return 0
	}
	if n > 0xffff {
		return 0xffff
	}
	return n
}

func quo(x, y int) int {
	switch {
	case y != 0:
		return cut(0xffff * x / y)
	case x != 0:
		return 0xffff
	}
	return 0
}

const one16, half16 = 0xffff, 0x7fff

var modeFormulas = map[limage.Composite]func(x, y int) int{
	limage.CompositeMultiply:    func(x, y int) int { return x * y / one16 },
	limage.CompositeScreen:      func(x, y int) int { return one16 - (one16-x)*(one16-y)/one16 },
	limage.CompositeOverlay:     overlaid,
	limage.CompositeSoftLight:   overlaid,
	limage.CompositeDifference:  func(x, y int) int { return cut(x-y) + cut(y-x) },
	limage.CompositeAddition:    func(x, y int) int { return cut(x + y) },
	limage.CompositeSubtract:    func(x, y int) int { return cut(x - y) },
	limage.CompositeDarkenOnly:  func(x, y int) int { return x - cut(x-y) },
	limage.CompositeLightenOnly: func(x, y int) int { return y + cut(x-y) },
	limage.CompositeDivide:      quo,
	limage.CompositeDodge:       func(x, y int) int { return quo(x, one16-y) },
	limage.CompositeBurn:        func(x, y int) int { return one16 - quo(one16-x, y) },
	limage.CompositeHardLight: func(x, y int) int {
		if y <= half16 {
			return x * 2 * y / one16
		}
		return one16 - (one16-x)*2*(one16-y)/one16
	},
	limage.CompositeGrainExtract: func(x, y int) int { return cut(x - y + half16) },
	limage.CompositeGrainMerge:   func(x, y int) int { return cut(x + y - half16) },
}

func overlaid(x, y int) int {
	t := one16 - y
	return t*(x*x/one16)/one16 + y*(one16-t*t/one16)/one16
}

// mixed is blend.
func mixed(a1, x1, a2, x2 int) uint16 {
	k := one16 * a2 / (one16 - (one16-a1)*(one16-a2)/one16)
	return uint16((one16-k)*x1/one16 + k*x2/one16)
}

func low(x, y uint16) int {
	if x < y {
		return int(x)
	}
	return int(y)
}
