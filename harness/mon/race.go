//go:build race

package mon

const raceEnabled = true
