package main

import "go/token"

const (
	tokADD = token.ADD
	tokSUB = token.SUB
	tokMUL = token.MUL
	tokAND = token.AND
	tokOR  = token.OR
	tokXOR = token.XOR
	tokEQL = token.EQL
	tokLSS = token.LSS
)
