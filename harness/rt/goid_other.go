//go:build !amd64

package rt

func goid() uint64 { return slowGoid() }
