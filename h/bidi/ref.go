package main

import "verifh/uba"

// short names for the reference implementation
type cls = uba.Cls

const (
	cL   = uba.L
	cR   = uba.R
	cAL  = uba.AL
	cEN  = uba.EN
	cES  = uba.ES
	cET  = uba.ET
	cAN  = uba.AN
	cCS  = uba.CS
	cNSM = uba.NSM
	cBN  = uba.BN
	cB   = uba.B
	cS   = uba.S
	cWS  = uba.WS
	cON  = uba.ON
	cLRE = uba.LRE
	cLRO = uba.LRO
	cRLE = uba.RLE
	cRLO = uba.RLO
	cPDF = uba.PDF
	cLRI = uba.LRI
	cRLI = uba.RLI
	cFSI = uba.FSI
	cPDI = uba.PDI
)

const maxDepth = uba.MaxDepth

var (
	clsNames    = uba.ClsNames
	clsToFb     = uba.ClsToFb
	fbToCls     = uba.FbToCls
	isIsoInit   = uba.IsIsoInit
	isRemoved   = uba.IsRemoved
	isolates    = uba.Isolates
	firstStrong = uba.FirstStrong
)
