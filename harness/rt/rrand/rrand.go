// Package rrand is the randomness of libraries that draw it from the global source.
package rrand

import "verifsim/rt"

func next() uint64 {
	if s := rt.Current(); s != nil {
		return s.Rand()
	}
	return 4
}

// Intn replaces rand.Intn.
func Intn(n int) int { return int(next() % uint64(n)) }

// Int31n replaces rand.Int31n.
func Int31n(n int32) int32 { return int32(next() % uint64(n)) }

// Int63n replaces rand.Int63n.
func Int63n(n int64) int64 { return int64(next() % uint64(n)) }

// Seed replaces rand.Seed.
func Seed(int64) {}

// FastRand replaces the runtime's.
func FastRand() uint32 { return uint32(next() >> 32) }
