//go:build !vhtrie

package main

const haveTrie = false

type trieFuncs struct {
	Add                 func(string, int)
	Insert              func(byte, int)
	Text, TextReversely func(string) (int, bool)
	Byte, ByteReversely func([]byte) (int, bool)
}

func newTrieFuncs(map[string]int) trieFuncs { panic("built without the trie") }
