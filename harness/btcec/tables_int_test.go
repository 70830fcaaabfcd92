package btcec

import (
	"testing"
)

func init() { vcInternal["C06"] = vcTables }

// vcTables: every entry of both loaded tables.  The loaders have no input, so one run is exhaustive.
func vcTables(t *testing.T) {
	c := S256()
	for which, tab := range map[string]*[32][256][3]fieldVal{"G": c.bytePoints, "H": c.bytePointsH} {
		base := vc_oG()
		if which == "H" {
			base = vc_oSecond()
		}
		vc_begin("the table of %s", which)
		if tab == nil {
			vc_fail(t, "the table of %s is not loaded", which)
			continue
		}
		cur := base
		for i := 31; i >= 0; i-- {
			acc := vc_jac{vc_bi(1), vc_bi(1), vc_bi(0)}
			cj := vc_toJ(cur)
			for b := 0; b < 256; b++ {
				e := &tab[i][b]
				vc_begin("entry [%d][%d] of the table of %s", i, b, which)
				x, y, z := vc_fMod(vc_fVal(&e[0])), vc_fMod(vc_fVal(&e[1])), vc_fMod(vc_fVal(&e[2]))
				if acc.z.Sign() == 0 {
					if x.Sign()|y.Sign()|z.Sign() != 0 {
						vc_fail(t, "entry [%d][%d] of the table of %s is not the identity", i, b, which)
					}
				} else {
					// compare projectively: x/z^2, y/z^3
					zz, az := vc_fMod(vc_mul(z, z)), vc_fMod(vc_mul(acc.z, acc.z))
					ok := z.Sign() != 0 && vc_fMod(vc_mul(x, az)).Cmp(vc_fMod(vc_mul(acc.x, zz))) == 0 &&
						vc_fMod(vc_mul(y, vc_fMod(vc_mul(az, acc.z)))).Cmp(vc_fMod(vc_mul(acc.y, vc_fMod(vc_mul(zz, z))))) == 0
					if !ok {
						vc_fail(t, "entry [%d][%d] of the table of %s is (%x, %x, %x), not %d*256^%d times the base", i, b, which, x, y, z, b, 31-i)
					}
				}
				acc = vc_oAddJ(acc, cj)
			}
			cur = vc_fromJ(acc)
		}
	}
	vc_begin("derived constants")
	if c.halfOrder.Cmp(vc_div2(vc_oN)) != 0 {
		vc_fail(t, "halfOrder is %x", c.halfOrder)
	}
	if c.q.Cmp(vc_div2(vc_div2(vc_add(vc_oP, vc_bi(1))))) != 0 {
		vc_fail(t, "q is %x", c.q)
	}
	if c.byteSize != 32 {
		vc_fail(t, "byteSize is %d", c.byteSize)
	}
	l := vc_modN(c.lambda)
	if l.Cmp(vc_bi(1)) == 0 || vc_mulN(l, l, l).Cmp(vc_bi(1)) != 0 {
		vc_fail(t, "lambda %x is not a nontrivial cube root of 1", l)
	}
	p := vc_oMul(vc_oG(), l)
	if p.X.Cmp(vc_fMod(vc_mul(vc_fVal(c.beta), vc_oGx))) != 0 || p.Y.Cmp(vc_oGy) != 0 {
		vc_fail(t, "beta %x does not belong to lambda %x", vc_fVal(c.beta), l)
	}
	if vc_addN(c.a1, vc_mul(c.b1, l)).Sign() != 0 || vc_addN(c.a2, vc_mul(c.b2, l)).Sign() != 0 {
		vc_fail(t, "the lattice vectors (%x, %x), (%x, %x) do not annihilate lambda", c.a1, c.b1, c.a2, c.b2)
	}
}
