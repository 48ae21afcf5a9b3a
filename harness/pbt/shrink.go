package pbt

import (
	"sort"
	"time"
)

// Shrink simplifies the choices as long as fails says that they still lead to
// a failure. fails returns the choices that were actually made.
func Shrink(c []uint32, fails func([]uint32) ([]uint32, [][2]int, bool), limit time.Duration) []uint32 {
	deadline := time.Now().Add(limit)
	best := append([]uint32(nil), c...)
	var spans [][2]int
	less := func(a, b []uint32) bool {
		if len(a) != len(b) {
			return len(a) < len(b)
		}
		for i := range a {
			if a[i] != b[i] {
				return a[i] < b[i]
			}
		}
		return false
	}
	seen := map[string]bool{}
	try := func(x []uint32) bool {
		if time.Now().After(deadline) {
			return false
		}
		k := key(x)
		if seen[k] {
			return false
		}
		seen[k] = true
		made, sp, bad := fails(x)
		if bad && (less(made, best) || spans == nil && !less(best, made)) {
			best = append([]uint32(nil), made...)
			spans = append([][2]int{}, sp...)
			sort.SliceStable(spans, func(i, j int) bool { return spans[i][1]-spans[i][0] > spans[j][1]-spans[j][0] })
			return true
		}
		return false
	}
	try(best)
	for {
		before := key(best)
		for i := 0; i < len(spans); i++ {
			lo, hi := spans[i][0], spans[i][1]
			if hi <= len(best) && try(append(append([]uint32(nil), best[:lo]...), best[hi:]...)) {
				i = -1
			}
			if time.Now().After(deadline) {
				return best
			}
		}
		for size := 64; size >= 1; size /= 2 {
			for i := 0; i < len(best); {
				end := min(i+size, len(best))
				x := append(append([]uint32(nil), best[:i]...), best[end:]...)
				if !try(x) {
					i += max(1, size/2)
				}
				if time.Now().After(deadline) {
					return best
				}
			}
		}
		for size := 32; size >= 2; size /= 2 {
			for i := 0; i < len(best); i += size {
				x := append([]uint32(nil), best...)
				z := true
				for j := i; j < min(i+size, len(x)); j++ {
					if x[j] != 0 {
						z = false
					}
					x[j] = 0
				}
				if !z {
					try(x)
				}
			}
		}
		for i := 0; i < len(best); i++ {
			lo, hi := uint32(0), best[i]
			for lo < hi {
				mid := (lo + hi) / 2
				x := append([]uint32(nil), best...)
				x[i] = mid
				if try(x) {
					if i >= len(best) {
						break
					}
					hi = best[i]
				} else {
					lo = mid + 1
				}
			}
			// a choice and the next one often are a length and an element
			if i+1 < len(best) && best[i] > 0 {
				x := append([]uint32(nil), best...)
				x[i]--
				x = append(x[:i+1], x[i+2:]...)
				try(x)
			}
		}
		if key(best) == before || time.Now().After(deadline) {
			return best
		}
	}
}

func key(x []uint32) string {
	b := make([]byte, 0, len(x)*4)
	for _, v := range x {
		b = append(b, byte(v), byte(v>>8), byte(v>>16), byte(v>>24))
	}
	return string(b)
}
