package sign

// the safe files made by a call
type vFiles struct {
	n, commits, aborts, failed int
	fn, data                   string
	ow                         bool
	mode                       uint32
	cfn                        string
}

func vWatchFiles() *vFiles {
	f := &vFiles{}
	vHook("file.new", func(fn string, ow bool, mode uint32, flag int) { f.n, f.fn, f.ow, f.mode = f.n+1, fn, ow, mode })
	vHook("file.commit", func(fn, data string) { f.commits, f.cfn, f.data = f.commits+1, fn, data })
	vHook("file.abort", func(fn string) { f.aborts = f.aborts + 1 })
	vHook("file.fail", func(what string) { f.failed = 1 })
	return f
}

// a file fn was written whole, or left alone with an error
func (f *vFiles) done(err error, fn string, ow bool) bool {
	vUnhook("file.new")
	vUnhook("file.commit")
	vUnhook("file.abort")
	vUnhook("file.fail")
	vAssert("nothing is left half done", f.n == f.commits+f.aborts)
	vAssert("only the file asked for", f.n <= 1 && (f.n == 0 || f.fn == fn))
	if err != nil {
		vCover("failed")
		vAssert("on error the file is left alone", f.commits == 0)
		return false
	}
	vAssert("no failing step is passed over", f.failed == 0)
	vAssert("the file is in place", f.commits == 1 && f.cfn == fn)
	vAssert("replaced only on request", f.ow == ow)
	vCover("written")
	return true
}

func vcC14_private() {
	sk := vAnyKey("1")
	s := string(sk.Sk)
	pw := vStr("pw")
	fn, ow := vStr("fn"), vBool("ow")
	f := vWatchFiles()
	err := sk.Serialize(fn, vStr("comment"), ow, []byte(pw))
	if !f.done(err, fn, ow) {
		vAssert("fails only if a step fails", f.failed > 0)
		return
	}
	vAssert("readable by the owner only", f.mode&0o77 == 0 && f.mode&0o400 == 0o400)
	k2, err := MakePrivateKey([]byte(f.data), func() ([]byte, error) { return []byte(pw), nil })
	vAssert("the whole key was written", err == nil && string(k2.Sk) == s)
}

func vcC14_public() {
	pk := vAnyPub("p")
	fn, ow := vStr("fn"), vBool("ow")
	b, err := pk.MarshalBinary(vStr("comment"))
	vAssume(err == nil)
	f := vWatchFiles()
	err = pk.Serialize(fn, vStr("comment"), ow)
	if !f.done(err, fn, ow) {
		vAssert("fails only if a step fails", f.failed > 0)
		return
	}
	vAssert("the whole serialized content", f.data == string(b))
	vAssert("readable", f.mode&0o400 == 0o400)
}

func vcC14_signature() {
	sig := &Signature{Sig: vBytes("sig"), pkhash: vBytes("hash")}
	fn, ow := vStr("fn"), vBool("ow")
	b, err := sig.MarshalBinary(vStr("comment"))
	vAssume(err == nil)
	f := vWatchFiles()
	err = sig.Serialize(fn, vStr("comment"), ow)
	if !f.done(err, fn, ow) {
		vAssert("fails only if a step fails", f.failed > 0)
		return
	}
	vAssert("the whole serialized content", f.data == string(b))
	vAssert("readable", f.mode&0o400 == 0o400)
}

// any content
func vcC14_any() {
	fn, ow := vStr("fn"), vBool("ow")
	f := vWatchFiles()
	err := writeFile(fn, vBytes("content"), ow, vU32("mode"))
	if !f.done(err, fn, ow) {
		vAssert("fails only if a step fails", f.failed > 0)
		return
	}
	vAssert("the whole content", f.data == vStr("content"))
	vAssert("with the mode asked for", f.mode == vU32("mode"))
}
