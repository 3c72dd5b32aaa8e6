//go:build verif

package limage

import (
	"image"
	"image/color"
)

// what the contracts of other packages use

const Lim = lim

// Flat is the colour of a stack of layers at a point.
func Flat(g Image, i, x, y int) color.Color { return flat(g, i, x, y) }

// Faded is a colour with less opacity.
func Faded(c color.Color, o uint8) color.Color { return transparency(c, o) }

// Hull is the smallest rectangle holding the first n layers.
func Hull(g Image, n int) image.Rectangle { return hull(g, n) }

func WfLayer(l Layer) bool                        { return wfLayer(l) }
func AnyRect(r image.Rectangle) bool              { return anyRect(r) }
func Inside(x, y int, r image.Rectangle) bool     { return inside(x, y, r) }
func IsEmpty(r image.Rectangle) bool              { return isEmpty(r) }
func SectOf(a, b image.Rectangle) image.Rectangle { return sectOf(a, b) }
