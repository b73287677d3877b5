package main

import "golang.org/x/tools/go/ssa"

// summarise extracts the loop-level transition relation of a function that reads no tokens.
func (P *Program) summarise(fn *ssa.Function) (*Auto, error) {
	return P.extract(fn, false, func(x *extractor) { x.summary = true })
}
