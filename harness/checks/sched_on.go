//go:build sched

package checks

import (
	"verif/harness/fx"

	"github.com/PlatONnetwork/tecdsa/zzsched"
)

// The library is instrumented: it stops before every statement.
const instrumented = true

func setHook(f func(statement int)) { zzsched.Hook = f }
func libGlobals() []any             { return zzsched.Globals }

var pristine = fx.Snap(zzsched.Globals...)

// freshLibrary puts the package-level variables of the library back to what
// they were when the process started.
func freshLibrary() { pristine.Restore() }
