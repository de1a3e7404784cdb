package sched

func getg() uintptr

// G identifies the running goroutine among the living ones.
func G() uintptr { return getg() }
