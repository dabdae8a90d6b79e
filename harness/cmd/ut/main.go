package main

import . "verif/harness/core"

func main() { Main([]Prop{p28, p29, p30, p31, p32}) }
