// pg checks the properties of the pango package.
package main

import (
	"io"
	"log"
	"os"

	"verifh/pbt"
)

func main() {
	if len(os.Args) == 2 && os.Args[1] == "lang-child" {
		langChild()
		return
	}
	for _, name := range []string{"LC_ALL", "LC_CTYPE", "LANGUAGE", "PANGO_LANGUAGE"} {
		os.Unsetenv(name)
	}
	os.Setenv("LANG", "en_US.UTF-8")
	log.SetOutput(io.Discard) // the package logs invalid sizes
	pbt.Main(propP01, propP02, propP03, propP04, propP05, propP06, propP07, propP08, propP09, propP10, propP11, propP12, propP13, propP14, propP15, propP16, propP17, propP18, propP19, propP20, propP21, propP22, propP23, propP24)
}
