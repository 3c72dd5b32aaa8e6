// Package vreplay drives the concrete replays of properties on the real code.
package vreplay

import (
	"fmt"
	"image"
	"image/color"
	"math/rand"
	"os"
	"runtime/debug"
	"strconv"
	"strings"
	"testing"
	"time"
)

// R is one run of a replay.
type R struct {
	*rand.Rand
	t     *testing.T
	end   time.Time
	N     int
	pool  []int
	about func() string
	stop  bool
}

// Run calls trial until the time is used up or a trial fails.
func Run(t *testing.T, trial func(r *R)) {
	seed, _ := strconv.Atoi(os.Getenv("REPLAY_SEED"))
	secs, _ := strconv.ParseFloat(os.Getenv("REPLAY_SECONDS"), 64)
	if secs == 0 {
		secs = 4
	}
	r := &R{Rand: rand.New(rand.NewSource(int64(seed)*7919 + 1)), t: t, end: time.Now().Add(time.Duration(secs * float64(time.Second)))}
	for _, s := range strings.Split(os.Getenv("REPLAY_INTS"), ",") {
		if n, err := strconv.Atoi(s); err == nil {
			r.pool = append(r.pool, n)
		}
	}
	for !r.stop && time.Now().Before(r.end) && r.N < 3000000 {
		r.about = nil
		r.N++
		func() {
			defer func() {
				if p := recover(); p != nil {
					if p == "vreplay: failed" {
						return
					}
					r.report(fmt.Sprintf("panic: %v at %s", p, place()))
				}
			}()
			trial(r)
		}()
	}
	fmt.Printf("\nREPLAY-TRIED %d\n", r.N)
}

func place() string {
	var s []string
	for _, l := range strings.Split(string(debug.Stack()), "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "/") && !strings.Contains(l, "/src/runtime/") && !strings.Contains(l, "vreplay") && !strings.Contains(l, "/debug/") {
			s = append(s, strings.Fields(l)[0])
		}
		if len(s) == 3 {
			break
		}
	}
	return strings.Join(s, " ")
}

// Trial is the number of this trial, from 0.
func (r *R) Trial() int { return r.N - 1 }

// About describes the input of this trial if it fails.
func (r *R) About(f func() string) { r.about = f }

func (r *R) report(msg string) {
	r.stop = true
	in := ""
	if r.about != nil {
		func() {
			defer func() { recover() }()
			in = " input: " + r.about()
		}()
	}
	s := strings.ReplaceAll(msg+in, "\n", " ")
	if len(s) > 4000 {
		s = s[:4000] + "..."
	}
	fmt.Printf("\nREPLAY-FAIL %s\n", s)
	r.t.Fail()
}

// Check fails the trial if ok is false.
func (r *R) Check(ok bool, format string, args ...interface{}) {
	if !ok {
		r.report(fmt.Sprintf(format, args...))
		panic("vreplay: failed")
	}
}

// Int is a number in [lo,hi], often one at a border or from the solver's models.
func (r *R) Int(lo, hi int) int {
	switch r.Intn(8) {
	case 0:
		return lo
	case 1:
		return hi
	case 2:
		if len(r.pool) > 0 {
			if v := r.pool[r.Intn(len(r.pool))]; v >= lo && v <= hi {
				return v
			}
		}
	}
	return lo + r.Intn(hi-lo+1)
}

var u16s = []uint16{0, 1, 2, 0xfe, 0xff, 0x100, 0x101, 0x7ffe, 0x7fff, 0x8000, 0x8001, 0xfffd, 0xfffe, 0xffff}

// U16 is a 16-bit number, often a special one.
func (r *R) U16() uint16 {
	switch r.Intn(4) {
	case 0:
		return u16s[r.Intn(len(u16s))]
	case 1:
		if len(r.pool) > 0 {
			return uint16(r.pool[r.Intn(len(r.pool))])
		}
		return uint16(r.Intn(256)) * 257
	}
	return uint16(r.Intn(65536))
}

// U8 is an 8-bit number.
func (r *R) U8() uint8 {
	switch r.Intn(5) {
	case 0:
		return 0
	case 1:
		return 255
	}
	return uint8(r.Intn(256))
}

// Bool is true or false.
func (r *R) Bool() bool { return r.Intn(2) == 0 }

// Rect is a small rectangle, possibly empty.
func (r *R) Rect(max int) image.Rectangle {
	x, y := r.Intn(2*max+1)-max, r.Intn(2*max+1)-max
	return image.Rect(x, y, x+r.Intn(max+1), y+r.Intn(max+1))
}

// NRGBA64 is a colour with special components.
func (r *R) NRGBA64() color.NRGBA64 {
	c := color.NRGBA64{R: r.U16(), G: r.U16(), B: r.U16(), A: r.U16()}
	switch r.Intn(6) {
	case 0:
		c.A = 0
	case 1, 2:
		c.A = 0xffff
	case 3:
		c.G, c.B = c.R, c.R
	}
	return c
}

// Color is a colour of one of the standard types.
func (r *R) Color() color.Color {
	n := r.NRGBA64()
	switch r.Intn(8) {
	case 0:
		return color.NRGBA{uint8(n.R), uint8(n.G), uint8(n.B), uint8(n.A)}
	case 1:
		return color.RGBA64Model.Convert(n)
	case 2:
		return color.RGBAModel.Convert(n)
	case 3:
		return color.Gray{uint8(n.R)}
	case 4:
		return color.Gray16{n.R}
	case 5:
		return color.Alpha{uint8(n.A)}
	}
	return n
}
