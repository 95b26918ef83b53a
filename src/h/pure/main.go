// Command pure model-checks concurrent calls of the functions of a property.
package main

import (
	"os"

	"flychain/zzmc/mc"
	"flychain/zzmc/prod/conc"
)

func main() {
	mc.Main(func(thorough bool) []*mc.Scenario { return conc.Scenarios(os.Getenv("VERIF_PROP")) })
}
