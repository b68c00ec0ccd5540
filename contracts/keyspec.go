package bond

// Storage key layout: table | index | len(index value) | index value | len(order) | order | primary key.

func sKeyHead(t TableID, i IndexID, idx string) string {
	return string([]byte{byte(t)}) + string([]byte{byte(i)}) + vBe32(uint32(len(idx))) + idx
}

func sKeyTail(ord, pk string) string {
	return vBe32(uint32(len(ord))) + ord + pk
}

func sKey(t TableID, i IndexID, idx, ord, pk string) string {
	return sKeyHead(t, i, idx) + sKeyTail(ord, pk)
}

func sDataKey(t TableID, pk string) string {
	return sKey(t, 0, "", "", pk)
}

// sFits: the length fields are 32 bits wide.
func sFits(s string) bool { return len(s) < 4294967296 }

// sPrefix is the content already in the buffer a caller supplies.
func sPrefix(rawBuffs [][]byte) string {
	if len(rawBuffs) > 0 && rawBuffs[0] != nil {
		return string(rawBuffs[0])
	}
	return ""
}
