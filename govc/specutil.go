package main

import "math/big"

func pm63() *big.Int { return new(big.Int).Sub(pow2(63), b1) }
