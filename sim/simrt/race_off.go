//go:build !race

package simrt

const RaceEnabled = false

func raceDisable()    {}
func raceEnable()     {}
func RaceErrors() int { return 0 }

func raceAcquire(e *poolEntry) {}
func raceRelease(e *poolEntry) {}

func raceAcquireTask(t *Task) {}
func raceReleaseTask(t *Task) {}
