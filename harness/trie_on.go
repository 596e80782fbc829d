//go:build vhtrie

package main

import "github.com/yanun0323/goast"

const haveTrie = true

type trieFuncs = goast.VHTrie

func newTrieFuncs(set map[string]int) trieFuncs { return goast.VHNewTrie(set) }
