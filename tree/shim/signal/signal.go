// Package signal: no signals are delivered in a simulation.
package signal

import (
	"os"

	"github.com/younglifestyle/secs4go/verifsim/simrt"
)

func Notify(*simrt.Chan[os.Signal], ...os.Signal) {}
func Stop(*simrt.Chan[os.Signal])                 {}
func Ignore(...os.Signal)                         {}
