package ref

import "testing"

func TestRef(t *testing.T) {
	if Q.Text(10) != "4002409555221667393417789825735904156556882819939007885332058136124031650490837864442687629129015664037894272559787" {
		t.Fatal("q")
	}
	SelfTestHash()
	f := Pairing(G1, G2, 1)
	g := Pairing(G1.MulK(I(5)), G2.MulK(I(7)), 1)
	if !f.Exp(I(35)).Eq(g) || f.Eq(One12()) || !f.Exp(R).Eq(One12()) {
		t.Fatal("pairing")
	}
	t.Log(f)
}
