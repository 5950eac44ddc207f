//go:build !race

package checks

const raceBuild = false

func races() int         { panic("harness: not the race build") }
func raceReport() string { return "" }
