// Package all links every harness.
package all

import (
	_ "verifharness/bus"
	_ "verifharness/eng"
	_ "verifharness/integ"
	_ "verifharness/lockx"
	_ "verifharness/memx"
	_ "verifharness/models"
	_ "verifharness/redisx"
	_ "verifharness/selftest"
	_ "verifharness/sqlx"
	_ "verifharness/timerx"
)
