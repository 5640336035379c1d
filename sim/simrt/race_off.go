//go:build go1.25 && !race

package simrt

const Racing = false

func raceOff()            {}
func raceOn()             {}
func Acquire[T any](p *T) {}
func Release[T any](p *T) {}
func RaceCount() (n int)  { return }
