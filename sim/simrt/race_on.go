//go:build race

package simrt

import (
	"runtime"
	"unsafe"
)

const RaceEnabled = true

func raceDisable()    { runtime.RaceDisable() }
func raceEnable()     { runtime.RaceEnable() }
func RaceErrors() int { return runtime.RaceErrors() }

func raceAcquire(e *poolEntry) { runtime.RaceAcquire(unsafe.Pointer(e)) }
func raceRelease(e *poolEntry) { runtime.RaceRelease(unsafe.Pointer(e)) }

func raceAcquireTask(t *Task) { runtime.RaceAcquire(unsafe.Pointer(t)) }
func raceReleaseTask(t *Task) { runtime.RaceReleaseMerge(unsafe.Pointer(t)) }
