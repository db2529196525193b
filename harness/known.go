package main

type knownFinding struct {
	prop, id string
	run      func() string // a description when the finding still shows, "" otherwise
}

var knownFindings []knownFinding
