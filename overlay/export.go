package bls

// Laid over the package by the checks (go build -overlay); never part of /repo.

// VerifMap1 and VerifMap2 map two field elements to the subgroup, as the
// hash functions do.
func VerifMap1(t, u FQ) *G1Affine  { return optimizedSWUMap(&t, &u) }
func VerifMap2(t, u FQ2) *G2Affine { return optimizedSWUMap2(&t, &u) }
