//go:build !race

package main

const raceMode = false

func raceQuiet() {}
func raceLoud()  {}
