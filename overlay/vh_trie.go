// Package goast: this file is laid over the repository by the check of C15. It hands the
// unexported text trie to the harness.
package goast

// VHTrie is one trie of numbers, through the functions that the repository's own tests use.
type VHTrie struct {
	Add                 func(string, int)
	Insert              func(byte, int)
	Text, TextReversely func(string) (int, bool)
	Byte, ByteReversely func([]byte) (int, bool)
}

// VHNewTrie makes a trie.
func VHNewTrie(set map[string]int) VHTrie {
	t := newTrie(set)
	return VHTrie{
		Add:           func(s string, v int) { _ = t.AddText(s, v) },
		Insert:        func(k byte, v int) { _ = t.Insert(k, v) },
		Text:          t.FindText,
		TextReversely: t.FindTextReversely,
		Byte:          t.FindByte,
		ByteReversely: t.FindByteReversely,
	}
}
