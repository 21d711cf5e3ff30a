//go:build !race

package runtime

func simRaceIgnore(gp *g, on bool) {}
