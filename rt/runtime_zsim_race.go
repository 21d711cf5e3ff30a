//go:build race

package runtime

func simRaceIgnore(gp *g, on bool) {
	if on {
		gp.raceignore++
		if gp.raceignore == 1 {
			racecall(&__tsan_go_ignore_sync_begin, gp.racectx, 0, 0, 0)
		}
	} else {
		gp.raceignore--
		if gp.raceignore == 0 {
			racecall(&__tsan_go_ignore_sync_end, gp.racectx, 0, 0, 0)
		}
	}
}
