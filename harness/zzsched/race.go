//go:build go1.21 && race

package zzsched

import "runtime"

func RaceOff() { runtime.RaceDisable() }
func RaceOn()  { runtime.RaceEnable() }
