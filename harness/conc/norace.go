//go:build !race

package conc

const raceOn = false
