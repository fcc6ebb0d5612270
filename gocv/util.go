package main

import "math"

func math32bits(f float32) uint32 { return math.Float32bits(f) }
func math64bits(f float64) uint64 { return math.Float64bits(f) }
