package sign

// what is signed for the message or file digest ck
func vSigned(ck string) string { return vSha512("sigtool signed message" + ck) }

// the digest of a file with this content
func vFileDigest(c string) string { return vSha512(c + vBe64(uint64(len(c)))) }

// signing and verifying a message, whatever the comment
func vcC11_message() {
	sk := vAnyKey("1")
	s := string(sk.Sk)
	ck := vStr("msg")
	sig, err := sk.SignMessage([]byte(ck), vStr("comment"))
	vAssert("signing works", err == nil && sig != nil)
	vAssert("signature of the domain-separated digest", string(sig.Sig) == vEdSign(s[:32], s[32:64], vSigned(ck)))
	vAssert("verifies", sk.PublicKey().VerifyMessage([]byte(ck), sig))
	vAssert("and again", sk.PublicKey().VerifyMessage([]byte(ck), sig))
	// another message
	c2 := vStr("other")
	if sk.PublicKey().VerifyMessage([]byte(c2), sig) {
		vCover("same")
		vAssert("verifies for no other message", c2 == ck)
	}
	// another key
	pk := vAnyPub("p")
	if pk.VerifyMessage([]byte(ck), sig) {
		vCover("samekey")
		vAssert("verifies only with the key that made it", string(pk.Pk) == s[32:64])
	}
	vCover("end")
}

// verification of any signature with any key: exactly the Ed25519 check
func vcC11_verify() {
	pk := vAnyPub("p")
	sig := &Signature{Sig: vBytes("sig")}
	ck := vStr("msg")
	ok := pk.VerifyMessage([]byte(ck), sig)
	if ok {
		vCover("ok")
		vAssert("a signature is 64 bytes", len(sig.Sig) == 64)
		vAssert("accepted only if the Ed25519 check passes", vEdVerify(vStrN("p", 32), vSigned(ck), vStr("sig")))
		return
	}
	vCover("bad")
	if len(sig.Sig) == 64 {
		vAssert("refused only if the Ed25519 check fails", !vEdVerify(vStrN("p", 32), vSigned(ck), vStr("sig")))
	}
}

// signing a file
func vcC11_sign() {
	sk := vAnyKey("1")
	s := string(sk.Sk)
	fn := vStr("fn")
	f := vFailures()
	sig, err := sk.SignFile(fn)
	if err != nil {
		vCover("failed")
		vAssert("fails only if the file cannot be read", f.n > 0)
		vAssert("no signature", sig == nil)
		return
	}
	c := vFileText(fn)
	vAssert("signature of content and length", string(sig.Sig) == vEdSign(s[:32], s[32:64], vSigned(vFileDigest(c))))
	ok, err := sk.PublicKey().VerifyFile(fn, sig)
	if err != nil {
		vCover("vfailed")
		vAssert("verification fails only if the file cannot be read", f.n > 0)
		vAssert("a failure is no success", !ok)
		return
	}
	vAssert("verifies", ok)
	vCover("verified")
}

// verifying any file with any signature and key
func vcC11_file() {
	pk := vAnyPub("p")
	sig := &Signature{Sig: vBytes("sig")}
	fn := vStr("fn")
	f := vFailures()
	ok, err := pk.VerifyFile(fn, sig)
	if err != nil {
		vCover("failed")
		vAssert("fails only if the file cannot be read", f.n > 0)
		vAssert("a failure is no success", !ok)
		return
	}
	if ok {
		vCover("ok")
		vAssert("a signature is 64 bytes", len(sig.Sig) == 64)
		vAssert("accepted only if the Ed25519 check passes for content and length",
			vEdVerify(vStrN("p", 32), vSigned(vFileDigest(vFileText(fn))), vStr("sig")))
		return
	}
	vCover("bad")
	if len(sig.Sig) == 64 {
		vAssert("refused only if the Ed25519 check fails",
			!vEdVerify(vStrN("p", 32), vSigned(vFileDigest(vFileText(fn))), vStr("sig")))
	}
}

// a signature of one file, checked for another
func vcC11_other() {
	sk := vGenKey()
	f1, f2 := vStr("fn"), vStr("fn2")
	sig, err := sk.SignFile(f1)
	vAssume(err == nil)
	ok, err := sk.PublicKey().VerifyFile(f2, sig)
	vAssume(err == nil)
	if ok {
		vCover("same")
		vAssert("only for the same content", vFileText(f1) == vFileText(f2))
	} else {
		vCover("differ")
		vAssert("whatever the names", vFileText(f1) != vFileText(f2))
	}
}
