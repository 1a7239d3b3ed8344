package main

// Replaced through an overlay by the engine.
func main() {}
