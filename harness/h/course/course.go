// Package course records, for every call of a driver, which statements of the library ran how
// often.  The driver is built with -cover.
package course

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"os"
	"runtime/coverage"
	"sort"
	"strings"

	"a0/drv"
)

func fail(x ...interface{}) {
	fmt.Fprintln(os.Stderr, append([]interface{}{"driver: coverage counters:"}, x...)...)
	os.Exit(3)
}

// course runs f and digests the counters: the functions that ran, each with the number of
// times each of its blocks did.
func course(f func()) string {
	if err := coverage.ClearCounters(); err != nil {
		fail(err)
	}
	f()
	var b bytes.Buffer
	if err := coverage.WriteCounters(&b); err != nil {
		fail(err)
	}
	return digest(b.Bytes())
}

// digest reads a counter file (internal/coverage: header, segment header, string table and
// arguments, whose order is not fixed, then one record per function, footer).
func digest(b []byte) string {
	if len(b) < 48 || string(b[:4]) != "\x00cwm" {
		fail("header", len(b))
	}
	flavor := b[24] // 1: fixed 32 bit, 2: ULEB128
	p := 32
	n := int(binary.LittleEndian.Uint64(b[p:]))
	p += 16 + int(binary.LittleEndian.Uint32(b[p+8:])) + int(binary.LittleEndian.Uint32(b[p+12:]))
	p = (p + 3) &^ 3
	next := func() (v uint64) {
		if flavor == 1 {
			v = uint64(binary.LittleEndian.Uint32(b[p:]))
			p += 4
			return
		}
		v, k := binary.Uvarint(b[p:])
		if k <= 0 {
			fail("number at", p)
		}
		p += k
		return v
	}
	var fs []string
	for i := 0; i < n; i++ {
		k, pkg, fn := int(next()), next(), next()
		h := sha256.New()
		any := uint64(0)
		for j := 0; j < k; j++ {
			c := next()
			any |= c
			fmt.Fprint(h, c, " ")
		}
		if any != 0 {
			fs = append(fs, fmt.Sprintf("%d.%d:%x", pkg, fn, h.Sum(nil)[:4]))
		}
	}
	sort.Strings(fs)
	return strings.Join(fs, " ")
}

// Main is drv.Main with the course of every call in its event.
func Main() {
	drv.Course = course
	drv.Main()
}
