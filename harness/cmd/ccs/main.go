package main

import . "verif/harness/core"

func main() { Main([]Prop{p10, p11, p12, p13, p14, p38, p41}) }
