package rt

import "unsafe"

func getg() uintptr

// goidAt is where the runtime keeps a goroutine's number, 0 if that could not be found out.
var goidAt = findGoid()

func word(p, off uintptr) uint64 {
	q := p + off
	return **(**uint64)(unsafe.Pointer(&q))
}

// findGoid compares what several goroutines have in their descriptors with their numbers.
func findGoid() uintptr {
	var hits [32]int
	const n = 8
	done := make(chan bool)
	for i := 0; i < n; i++ {
		go func() {
			id := slowGoid()
			for k := range hits {
				if word(getg(), uintptr(k)*8) == id {
					hits[k]++
				}
			}
			done <- true
		}()
		<-done
	}
	at := uintptr(0)
	for k, h := range hits {
		if h == n {
			if at != 0 {
				return 0
			}
			at = uintptr(k) * 8
		}
	}
	return at
}

func goid() uint64 {
	if goidAt == 0 {
		return slowGoid()
	}
	return word(getg(), goidAt)
}
