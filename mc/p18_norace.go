//go:build verif18 && !race

package main

func raceErrors() int { return 0 }
