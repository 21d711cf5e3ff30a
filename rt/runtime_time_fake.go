//go:build faketime && !windows

package runtime

import "unsafe"

// faketime is the simulated time in nanoseconds since 1970.
var faketime int64 = 1700000000000000000

//go:linkname nanotime
//go:nosplit
func nanotime() int64 {
	return faketime
}

//go:linkname time_now time.now
func time_now() (sec int64, nsec int32, mono int64) {
	w := faketime + sim.wallOff
	return w / 1e9, int32(w % 1e9), faketime
}

func write(fd uintptr, p unsafe.Pointer, n int32) int32 {
	return write1(fd, p, n)
}
