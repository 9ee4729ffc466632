package ref

import "math/big"

func newInt(v int64) *big.Int { return big.NewInt(v) }
