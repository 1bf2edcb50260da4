// Command mcsched explores schedules of instrumented go-qrcode code.
package main

import (
	"io"
	"log"

	"verif.local/mc/eng"
	_ "verif.local/mc/sprops"
	"verif.local/mc/vsched"
)

func main() {
	log.SetOutput(io.Discard) // the library's log lines
	vsched.Stop = func() bool { return eng.Stopped() }
	eng.Main()
}
