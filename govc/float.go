package main

func (v *VC) floatFacts(t *Term) {}
