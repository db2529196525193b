module vharness

go 1.21.3

require github.com/jtcaraball/goexpdt v0.0.0

replace github.com/jtcaraball/goexpdt => /repo
