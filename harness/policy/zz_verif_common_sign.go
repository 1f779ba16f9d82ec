package policy

import (
	"encoding/json"
	"errors"

	authcore "github.com/AthenZ/athenz/libs/go/zmssvctoken"
	"github.com/AthenZ/athenz/utils/zpe-updater/util"
	"github.com/yahoojapan/athenz-authorizer/v5/pubkey"
)

// vfKey is an ideal public key: a signature is valid exactly when it was made
// with this key over exactly the data.
type vfKey struct{ name string }

func (k vfKey) Verify(data, sig string) error {
	if sig == vfSig(k.name, data) {
		return nil
	}
	return errors.New("bad signature")
}

func vfSig(key, data string) string { return "<" + key + ">" + data }

// vfKeys serves ZTS keys t1,t2 and ZMS keys m1,m2; ids 1 and 2 exist in
// both environments, 3 only for the ZTS (t3) and 4 only for the ZMS (m4).
func vfKeys(env pubkey.AthenzEnv, id string) authcore.Verifier {
	switch env {
	case pubkey.EnvZTS:
		if id != "1" && id != "2" && id != "3" {
			return nil
		}
		return vfKey{"t" + id}
	case pubkey.EnvZMS:
		if id != "1" && id != "2" && id != "4" {
			return nil
		}
		return vfKey{"m" + id}
	}
	return nil
}

func vfText(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return string(b)
}

// vfSignDoc signs the way the servers do.
func vfSignDoc(sp *SignedPolicy, zts, zms string) {
	sp.KeyId, sp.SignedPolicyData.ZmsKeyId = zts, zms
	sp.SignedPolicyData.ZmsSignature = vfSig("m"+zms, vfText(sp.SignedPolicyData.PolicyData))
	sp.Signature = vfSig("t"+zts, vfText(sp.SignedPolicyData))
}

var _ = util.Assertion{}
