//go:build go1.21

package main

import (
	"io"
	"log"
)

func logDiscard() { log.SetOutput(io.Discard) }
