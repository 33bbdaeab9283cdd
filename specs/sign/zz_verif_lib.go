package sign

// a key pair made by the real key generator from an arbitrary seed
func vGenKey() *PrivateKey {
	sk, err := NewPrivateKey()
	vAssume(err == nil)
	return sk
}
