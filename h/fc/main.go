package main

import "verifh/pbt"

func main() {
	pbt.Main(propF01, propF02, propF03, propF04, propF05, propF06, propF07, propF08, propF09, propF10, propF11, propF12, propF13, propF14, propF15, propF16, propF17)
}
