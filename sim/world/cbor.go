package world

import (
	"sort"

	"github.com/fxamacker/cbor/v2"
)

var cborMode = func() cbor.EncMode {
	m, err := cbor.EncOptions{Sort: cbor.SortCoreDeterministic}.EncMode()
	if err != nil {
		panic(err)
	}

	return m
}()

// EncCBOR encodes deterministically.
func EncCBOR(v any) []byte {
	b, err := cborMode.Marshal(v)
	if err != nil {
		panic(err)
	}

	return b
}

// Keys of an object in order.
func Keys(j J) []string {
	var ks []string
	for k := range j {
		ks = append(ks, k)
	}

	sort.Strings(ks)

	return ks
}
