package policy

//vf:use http
//vf:use sign

import (
	"context"
	"net/http"
	"time"

	"github.com/ardielle/ardielle-go/rdl"
	"github.com/yahoojapan/athenz-authorizer/v5/internal/vf"
)

// A document whose content, keys, signatures and expiry may each deviate.
func VF_C07_Verify() {
	now := time.Now()
	off := vf.Int("expiry", -3, 3)
	sp := vfAllowDoc(now.Add(time.Duration(off)*time.Second), "r")
	ass := sp.SignedPolicyData.PolicyData.Policies[0].Assertions[0]
	ass.Action = vf.StrOf("signed", "ab", 1, 1)
	want := off > 0
	// the ZMS signature
	zid := []string{"1", "4", "3", ""}[vf.Choice("zmsid", 4)]
	sp.SignedPolicyData.ZmsKeyId = zid
	zby := []string{"m1", "m2", "t1", "t3", "m4", ""}[vf.Choice("zmsby", 6)]
	if zby != "" {
		sp.SignedPolicyData.ZmsSignature = vfSig(zby, vfText(sp.SignedPolicyData.PolicyData))
	} else {
		sp.SignedPolicyData.ZmsSignature = ""
	}
	want = vf.And(want, vf.And(zid == "1" || zid == "4", zby == "m"+zid))
	change := vf.Choice("change", 3)
	if change == 1 { // content changed after the ZMS signed it
		act := vf.StrOf("actual", "ab", 1, 1)
		want = vf.And(want, act == ass.Action)
		ass.Action = act
	}
	tid := []string{"1", "3", "4", ""}[vf.Choice("ztsid", 4)]
	sp.KeyId = tid
	tby := []string{"t1", "t3", "m1", "t2", "m4", ""}[vf.Choice("ztsby", 6)]
	if tby != "" {
		sp.Signature = vfSig(tby, vfText(sp.SignedPolicyData))
	} else {
		sp.Signature = ""
	}
	want = vf.And(want, vf.And(tid == "1" || tid == "3", tby == "t"+tid))
	if change == 2 { // changed after the ZTS signed it
		m := vf.Int("modified", 0, 1)
		if m != 0 {
			sp.SignedPolicyData.Modified = &rdl.Timestamp{Time: now}
			want = false
		}
	}
	err := sp.Verify(vfKeys)
	if err == nil {
		vf.Cover("accepted")
	} else {
		vf.Cover("rejected")
	}
	vf.Observe("accepted", err == nil)
	vf.Assert((err == nil) == want, "accepted exactly when unexpired and signed by both named keys over exactly the content")
}

// Missing members.
func VF_C07_Missing() {
	sp := vfAllowDoc(time.Now().Add(time.Minute), "r")
	kind := vf.Choice("kind", 5)
	switch kind {
	case 1:
		sp.SignedPolicyData.Expires = nil
	case 2:
		sp.SignedPolicyData.Expires = &rdl.Timestamp{Time: time.Unix(0, 0)}
	case 3:
		sp.SignedPolicyData.Expires = &rdl.Timestamp{}
	}
	vfSignDoc(sp, "1", "2")
	if kind == 4 {
		sp.SignedPolicyData = nil
	}
	err := sp.Verify(vfKeys)
	vf.Assert((err == nil) == (kind == 0), "a document without signed policy data or expiry is rejected")
}

// A rejected document never takes effect, an accepted one does.
func VF_C07_Effect() {
	good := vfAllowDoc(time.Now().Add(time.Hour), "old")
	vfSignDoc(good, "1", "1")
	next := vfAllowDoc(time.Now().Add(time.Hour), "new")
	vfSignDoc(next, "1", "1")
	ok := true
	switch vf.Choice("defect", 12) {
	case 1:
		next.KeyId, ok = "2", false
	case 2:
		next.KeyId, ok = "9", false
	case 3:
		next.Signature, ok = good.Signature, false
	case 4:
		next.SignedPolicyData.ZmsSignature = good.SignedPolicyData.ZmsSignature
		next.Signature = vfSig("t1", vfText(next.SignedPolicyData))
		ok = false
	case 5:
		next.SignedPolicyData.ZmsKeyId = "9"
		next.Signature = vfSig("t1", vfText(next.SignedPolicyData))
		ok = false
	case 6:
		next = vfAllowDoc(time.Now().Add(-time.Second), "new")
		vfSignDoc(next, "1", "1")
		ok = false
	case 8: // no ZMS signature
		next.SignedPolicyData.ZmsSignature = ""
		next.Signature = vfSig("t1", vfText(next.SignedPolicyData))
		ok = false
	case 9: // no ZTS signature
		next.Signature, ok = "", false
	case 10: // no key ids
		next.KeyId, ok = "", false
	case 11:
		next.SignedPolicyData.ZmsKeyId = ""
		next.Signature = vfSig("t1", vfText(next.SignedPolicyData))
		ok = false
	case 7:
		next.SignedPolicyData.PolicyData.Policies[0].Assertions[0].Role = "d:role.other"
		next.Signature = vfSig("t1", vfText(next.SignedPolicyData))
		ok = false
	}
	body := vfJSON(good)
	s := &vfServer{answer: func(*http.Request) *vfReply { return &vfReply{status: 200, body: body} }}
	p := vfClientDaemon(s, WithPubKeyProvider(vfKeys))
	first := vf.Choice("first", 2) == 1
	ctx := context.Background()
	if first {
		vf.Assert(p.Update(ctx) == nil, "a properly signed document is accepted")
	}
	body = vfJSON(next)
	err := p.Update(ctx)
	vf.Assert(vfGranted(p, "new") == ok, "a document takes effect exactly when it verifies")
	vf.Assert(vfGranted(p, "old") == (first && !ok), "a document that does not verify replaces nothing")
	vf.Assert(first || (err == nil) == ok, "an update that has nothing verified to load fails")
}

// Documents of every shape (no policies, policies without assertions) need both signatures alike.
func VF_C07_Shapes() {
	sp := vfAllowDoc(time.Now().Add(time.Hour), "r")
	pd := sp.SignedPolicyData.PolicyData
	switch vf.Choice("shape", 4) {
	case 1:
		pd.Policies = nil
	case 2:
		pd.Policies[0].Assertions = nil
	case 3:
		pd.Policies = append(pd.Policies, pd.Policies[0])
	}
	vfSignDoc(sp, "1", "2")
	ok := true
	switch vf.Choice("defect", 7) {
	case 1:
		sp.SignedPolicyData.ZmsSignature, ok = vfSig("m1", vfText(pd)), false
		sp.Signature = vfSig("t1", vfText(sp.SignedPolicyData))
	case 2:
		sp.SignedPolicyData.ZmsSignature, ok = vfSig("m2", "other"), false
		sp.Signature = vfSig("t1", vfText(sp.SignedPolicyData))
	case 3:
		sp.SignedPolicyData.ZmsSignature, ok = "", false
		sp.Signature = vfSig("t1", vfText(sp.SignedPolicyData))
	case 4:
		sp.Signature, ok = vfSig("t2", vfText(sp.SignedPolicyData)), false
	case 5:
		sp.Signature, ok = vfSig("t1", "other"), false
	case 6:
		sp.Signature, ok = "", false
	}
	vf.Assert((sp.Verify(vfKeys) == nil) == ok, "both signatures are required whatever the document holds")
}
