// Command mcterm checks the terminal writer, on a scripted terminal (tag verifstub) or on a real pseudo terminal.
package main

import (
	"io"
	"log"

	"verif.local/mc/eng"
	"verif.local/mc/tprops"
)

func main() {
	log.SetOutput(io.Discard)
	tprops.Helper()
	eng.Main()
}
