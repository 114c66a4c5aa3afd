
seed("c24-uint32-truncated", "C24", "a JSON number between 2^32 and 2^64 given for a 32-bit field",
 "a number that does not fit 32 bits is accepted and silently cut to its low 32 bits", "common",
 [("common/hexint.go", "	if v64, err := intconv.ParseUint(s, 32); err == nil {", "	if v64, err := intconv.ParseUint(s, 64); err == nil {")],
'''package common

import (
	"encoding/json"
	"testing"
)

func TestZZDemo(t *testing.T) {
	var v HexUint32
	if err := json.Unmarshal([]byte("\\"0xffffffff\\""), &v); err != nil || v.Value != 0xffffffff {
		t.Fatal(err, v)
	}
	if err := json.Unmarshal([]byte("\\"0x100000001\\""), &v); err == nil {
		t.Fatalf("read as %d", v.Value)
	}
}
''')
seed("c24-btp-network-last-part", "C24", "a BTP address whose network has more than two dot-separated parts",
 "the blockchain of a BTP address is taken from the last part of its network instead of the second", "common/types",
 [("common/types/btpaddress.go", "			return ss[0], ss[1]\n", "			return ss[0], ss[len(ss)-1]\n")],
'''package types

import "testing"

func TestZZDemo(t *testing.T) {
	a := BtpAddress("btp://0x1.icon.test/cx01")
	if a.NetworkID() != "0x1" || a.BlockChain() != "icon" || a.Account() != "cx01" || a.NetworkAddress() != "0x1.icon.test" {
		t.Fatal(a.NetworkID(), a.BlockChain(), a.Account())
	}
}
''')
