//go:build race

package main

import "runtime"

// The simulator's own locks must not order what the code under test leaves
// unordered.
const raceMode = true

func raceQuiet() { runtime.RaceDisable() }
func raceLoud()  { runtime.RaceEnable() }
