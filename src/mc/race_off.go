//go:build !race

package mc

const raceOn = false

func raceDisable()                 {}
func raceEnable()                  {}
func raceReleaseTok(t *token)      {}
func raceReleaseMergeTok(t *token) {}
func raceAcquireTok(t *token)      {}
func raceErrors() int              { return 0 }
