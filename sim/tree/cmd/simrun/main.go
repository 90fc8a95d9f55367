package main

import "github.com/ti-mo/comfo/zsim/harness"

func main() { harness.Main() }
