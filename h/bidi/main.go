package main

import "verifh/pbt"

func main() { pbt.Main(propB01, propB02, propB03, propB04, propB05) }
