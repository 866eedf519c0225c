package core

import "time"

// Attempt runs one candidate choice list. It returns the choices actually
// consumed, their spans, and whether the wanted violation class occurred.
type Attempt func(choices []uint32) (rec []uint32, spans []Span, ok bool)

// Shrink minimises a failing choice list under budgets of attempts and time.
func Shrink(rec []uint32, spans []Span, try Attempt, maxAttempts int, maxTime time.Duration) ([]uint32, int) {
	deadline := time.Now().Add(maxTime)
	n := 0
	best, bestSpans := trimZeros(rec), spans
	attempt := func(c []uint32) bool {
		if n >= maxAttempts || time.Now().After(deadline) {
			return false
		}
		n++
		r, sp, ok := try(c)
		if !ok {
			return false
		}
		r = trimZeros(r)
		if !less(r, best) {
			// still failing, but not simpler
			return false
		}
		best, bestSpans = r, sp
		return true
	}
	for improved := true; improved && n < maxAttempts && time.Now().Before(deadline); {
		improved = false
		// delete spans, biggest first
		for {
			did := false
			sp := append([]Span(nil), bestSpans...)
			sortSpans(sp)
			for _, x := range sp {
				if x.From >= len(best) || x.To <= x.From {
					continue
				}
				to := min(x.To, len(best))
				c := append(append([]uint32(nil), best[:x.From]...), best[to:]...)
				if attempt(c) {
					did, improved = true, true
					break
				}
				if n >= maxAttempts {
					break
				}
			}
			if !did {
				break
			}
		}
		// zero spans
		for _, x := range append([]Span(nil), bestSpans...) {
			if x.From >= len(best) {
				continue
			}
			to := min(x.To, len(best))
			if allZero(best[x.From:to]) {
				continue
			}
			c := append([]uint32(nil), best...)
			for i := x.From; i < to; i++ {
				c[i] = 0
			}
			if attempt(c) {
				improved = true
			}
		}
		// delete chunks
		for size := 64; size >= 1; size /= 2 {
			for i := len(best) - size; i >= 0; i -= size {
				if i+size > len(best) {
					continue
				}
				c := append(append([]uint32(nil), best[:i]...), best[i+size:]...)
				if attempt(c) {
					improved = true
				}
				if n >= maxAttempts {
					break
				}
			}
		}
		// lower single values
		for i := len(best) - 1; i >= 0; i-- {
			if i >= len(best) || best[i] == 0 {
				continue
			}
			c := append([]uint32(nil), best...)
			c[i] = 0
			if attempt(c) {
				improved = true
				continue
			}
			lo := uint32(0)
			for i < len(best) && best[i]-lo > 1 && n < maxAttempts {
				mid := lo + (best[i]-lo)/2
				c := append([]uint32(nil), best...)
				c[i] = mid
				if attempt(c) {
					improved = true
				} else {
					lo = mid
				}
			}
		}
	}
	return best, n
}

func trimZeros(r []uint32) []uint32 {
	n := len(r)
	for n > 0 && r[n-1] == 0 {
		n--
	}
	return append([]uint32(nil), r[:n]...)
}

func less(a, b []uint32) bool {
	if len(a) != len(b) {
		return len(a) < len(b)
	}
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}

func allZero(a []uint32) bool {
	for _, x := range a {
		if x != 0 {
			return false
		}
	}
	return true
}

func sortSpans(s []Span) {
	for i := 1; i < len(s); i++ {
		for j := i; j > 0 && s[j].To-s[j].From > s[j-1].To-s[j-1].From; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
	if len(s) > 400 {
		s = s[:400]
	}
}
