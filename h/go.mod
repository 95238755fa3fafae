module verifh

go 1.21

require (
	github.com/benoitkugler/textlayout v0.3.1
	github.com/benoitkugler/textprocessing v0.0.0
	golang.org/x/text v0.3.7
)

require (
	github.com/benoitkugler/pstokenizer v1.0.0 // indirect
	golang.org/x/image v0.0.0-20210504121937-7319ad40d33e // indirect
)

replace github.com/benoitkugler/textprocessing => /repo
