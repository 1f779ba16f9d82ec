package role

import "github.com/yahoojapan/athenz-authorizer/v5/internal/vf"

// Role tokens are validated at the same time.
func VF_C37_RoleParse() {
	vf.Races()
	p := vfProcessor()
	tok := func(i int) string {
		head := []string{"d=a;r=x,y;p=p;e=9999999999;t=7;k=0", "d=b;r=z;e=1;k=0", "garbage"}[i]
		return head + ";s=" + vf.ZMSSign(head, 0)
	}
	x, y := vf.Choice("one", 3), vf.Choice("other", 3)
	done := make(chan bool)
	one := func(i int) {
		if t, err := p.ParseAndValidateRoleToken(tok(i)); err == nil {
			t.Expired()
		}
		done <- true
	}
	go one(x)
	go one(y)
	<-done
	<-done
	vf.Cover("done")
}
