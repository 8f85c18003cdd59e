package main

import (
	"golang.org/x/text/encoding"
)

// nopEncoder passes UTF-8 through.
func nopEncoder() *encoding.Encoder { return encoding.Nop.NewEncoder() }
