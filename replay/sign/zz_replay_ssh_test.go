package sign_test

// Reference writer of OpenSSH keys.

import (
	"crypto/aes"
	"crypto/cipher"
	"encoding/pem"
	mrand "math/rand"

	"github.com/dchest/bcrypt_pbkdf"
)

type sshOpts struct {
	magic, cipher, kdf string
	salt               []byte
	rounds             uint32
	pw                 []byte
	nkeys              uint32
	outer              []byte // public key blob
	c1, c2             uint32
	typ                string
	pub, priv          []byte
	comment            string
	pad                []byte // nil: as needed
	block              int
	trailer            []byte // after the private block
	crypt              string // what is really used to encrypt, if not cipher
}

func sshNew(sk []byte, rng *mrand.Rand) *sshOpts {
	c := rng.Uint32()
	return &sshOpts{magic: "openssh-key-v1\x00", cipher: "none", kdf: "none", nkeys: 1, outer: sshPub(sk[32:]), c1: c, c2: c,
		typ: "ssh-ed25519", pub: sk[32:], priv: sk, comment: "user@host", block: 8, salt: bytesOf(rng, 16), rounds: 1}
}

func (o *sshOpts) enc(cipher string, pw []byte) *sshOpts {
	o.cipher, o.kdf, o.pw, o.block = cipher, "bcrypt", pw, 16
	return o
}

func (o *sshOpts) blob() []byte {
	in := append(be4(o.c1), be4(o.c2)...)
	in = append(in, sshStr([]byte(o.typ), o.pub, o.priv, []byte(o.comment))...)
	if o.pad != nil {
		in = append(in, o.pad...)
	} else {
		for i := 1; len(in)%o.block != 0; i++ {
			in = append(in, byte(i))
		}
	}
	var opts []byte
	if o.kdf == "bcrypt" {
		opts = append(sshStr(o.salt), be4(o.rounds)...)
		k, err := bcrypt_pbkdf.Key(o.pw, o.salt, int(o.rounds), 48)
		if err == nil {
			b, _ := aes.NewCipher(k[:32])
			how := o.crypt
			if how == "" {
				how = o.cipher
			}
			switch how {
			case "aes256-ctr":
				cipher.NewCTR(b, k[32:48]).XORKeyStream(in, in)
			case "aes256-cbc":
				if len(in)%16 == 0 {
					cipher.NewCBCEncrypter(b, k[32:48]).CryptBlocks(in, in)
				}
			}
		}
	}
	b := append([]byte(o.magic), sshStr([]byte(o.cipher), []byte(o.kdf), opts)...)
	b = append(b, be4(o.nkeys)...)
	b = append(b, sshStr(o.outer, in)...)
	return append(b, o.trailer...)
}

func sshPEM(b []byte) []byte {
	return pem.EncodeToMemory(&pem.Block{Type: "OPENSSH PRIVATE KEY", Bytes: b})
}

func (o *sshOpts) file() []byte { return sshPEM(o.blob()) }
