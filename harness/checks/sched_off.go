//go:build !sched

package checks

const instrumented = false

func setHook(f func(statement int)) { panic("harness: not the instrumented build") }
func libGlobals() []any             { panic("harness: not the instrumented build") }
func freshLibrary()                 { panic("harness: not the instrumented build") }
