// Command mc enumerates executions of go-qrcode and checks them against package ref.
package main

import (
	"io"
	"log"

	"verif.local/mc/eng"
	"verif.local/mc/props"
)

func main() {
	log.SetOutput(io.Discard) // the library's log lines
	props.Helper()
	eng.Main()
}
