//go:build verif18 && race

package main

import "runtime"

func raceErrors() int { return runtime.RaceErrors() }
