package sign

import "io"

// C01. requires: a fresh encryptor for any block size, nb recipients before and na after the one
// whose key is used, any plaintext. ensures: decryption yields the plaintext.
func vRoundTrip(auth bool, nb, na int, pt string) {
	var snd *PrivateKey
	var spk *PublicKey
	if auth {
		snd = vGenKey()
		spk = snd.PublicKey()
	}
	e, err := NewEncryptor(snd, vU64("blksize"))
	vAssert("NewEncryptor succeeds", err == nil)
	for i := 0; i < nb; i++ {
		err = e.AddRecipient(vGenKey().PublicKey())
		vAssert("AddRecipient succeeds", err == nil)
	}
	rx := vGenKey()
	err = e.AddRecipient(rx.PublicKey())
	vAssert("AddRecipient succeeds", err == nil)
	for i := 0; i < na; i++ {
		err = e.AddRecipient(vGenKey().PublicKey())
		vAssert("AddRecipient succeeds", err == nil)
	}
	w := vWriter("ok")
	err = e.Encrypt(vReader(pt, io.EOF), w)
	vAssert("Encrypt succeeds", err == nil || err == ErrTooManyBlocks || err == ErrHeaderTooBig && nb+na > 10000)
	if err != nil {
		return
	}
	vCover("encrypted")
	d, err := NewDecryptor(vReader(vOut(w), io.EOF))
	vAssert("NewDecryptor succeeds", err == nil)
	err = d.SetPrivateKey(rx, spk)
	vAssert("SetPrivateKey succeeds", err == nil)
	vCover("set")
	w2 := vWriter("ok")
	err = d.Decrypt(w2)
	vAssert("Decrypt succeeds", err == nil)
	vAssert("decrypted data equals the plaintext", vOut(w2) == pt)
	vCover("end")
}

// every plaintext and chunk size, anonymous and authenticated sender
func vcC01_plain() { vRoundTrip(false, 0, 0, vStr("pt")) }
func vcC01_auth()  { vRoundTrip(true, 0, 0, vStr("pt")) }

// every number of other recipients
func vcC01_many()      { vRoundTrip(false, vInt("nb"), vInt("na"), "") }
func vcC01_many_auth() { vRoundTrip(true, vInt("nb"), vInt("na"), "") }
