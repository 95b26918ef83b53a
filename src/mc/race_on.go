//go:build race

package mc

import (
	"runtime"
	"unsafe"
)

const raceOn = true

func raceDisable() { runtime.RaceDisable() }
func raceEnable()  { runtime.RaceEnable() }

func raceReleaseTok(t *token)      { runtime.RaceRelease(unsafe.Pointer(t)) }
func raceReleaseMergeTok(t *token) { runtime.RaceReleaseMerge(unsafe.Pointer(t)) }
func raceAcquireTok(t *token)      { runtime.RaceAcquire(unsafe.Pointer(t)) }
func raceErrors() int              { return runtime.RaceErrors() }
