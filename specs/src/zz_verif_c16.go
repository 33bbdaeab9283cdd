package main

import (
	"errors"
	"io"
	"os"
	"time"

	"github.com/opencoff/go-fio"
	flag "github.com/opencoff/pflag"
	"github.com/opencoff/sigtool/sign"
)

// C16: the tool is executed from main(); every operation outside this package is replaced by
// its contract (the ct_ functions below), which may succeed or fail in every way the real one
// may and records in ghost variables what was asked for and what was done.  The contracts of
// the sign package are what C01 to C15, C17 and C18 establish.

// the command line
var (
	gCanon string   // the command
	gWord  string   // its name or an abbreviation of it
	gRest  []string // what follows it
	gArgs  []string // its positional arguments
	gSets  int      // flag sets parsed
	gHelp  bool     // only help or the version was asked for

	// the options registered
	gNum  int
	gOpt  [16]string
	gStr  [16]*string
	gBool [16]*bool
	gHas  bool // there is an option for help
)

// what was done
var (
	gDone bool // the operation was completed, on the inputs named

	gIn     *os.File // the file opened last
	gInName string
	gFile   *fio.SafeFile // the output file
	gName   string
	gState  int
	gWr     io.Writer // where the tool sent its output
	gWrote  string    // what was written to the output file or to stdout
	gBad    bool      // writing to stdout or closing it failed
	gClosed bool

	gKey     *sign.PrivateKey // the generated key
	gSaved   bool
	gPkSaved bool
	gSig     *sign.Signature
	gSigText string
	gSigned  bool

	gEnc   *sign.Encryptor
	gDec   *sign.Decryptor
	gSet   bool
	gAdded int  // recipients added
	gMatch bool // each of them the one named at its place
)

const (
	sNone = iota
	sOpen
	sCommitted
	sAborted
)

var gErr = errors.New("failed")

// the options of the command
func fBool(n string) bool  { return vBool("flag:" + n) }
func fStr(n string) string { return vStr("flag:" + n) }

// ---- the end of the program

func vZero() {
	if gHelp {
		vCover("help")
		return
	}
	vCover("done")
	ok := false
	switch gCanon {
	case "verify":
		ok = gDone
	case "generate":
		ok = gSaved && gPkSaved
	case "sign":
		out := fStr("output")
		if len(out) == 0 {
			out = gArgs[1] + ".sig"
		}
		if out == "-" {
			ok = gSigned && gFile == nil && gWrote == gSigText && !gBad
		} else {
			ok = gSigned && gState == sCommitted && gName == out && gWrote == gSigText
		}
	case "encrypt":
		ok = gDone && vSent()
	case "decrypt":
		if fBool("test") {
			ok = gDone && gFile == nil && gWrote == ""
		} else {
			ok = gDone && vSent()
		}
	}
	vAssert("status 0 only if the operation was completed from the inputs named", ok)
	vAssert("no output is left uncommitted", gState != sOpen)
}

// the output of encrypt and decrypt went where it was asked to go, without an error
func vSent() bool {
	out := fStr("outfile")
	if len(out) == 0 || out == "-" {
		f, ok := gWr.(*os.File)
		return ok && f == os.Stdout && gFile == nil && !gBad
	}
	f, ok := gWr.(*fio.SafeFile)
	return ok && f == gFile && gName == out && gState == sCommitted
}

func ct_os_Exit(code int) {
	if code == 0 {
		vZero()
	} else {
		vCover("failed")
		vAssert("a failure leaves no partial output", gState != sOpen)
	}
	vStop()
}

// ---- the command line: pflag, Abbrev

func ct_flag_NewFlagSet(name string, h flag.ErrorHandling) *flag.FlagSet {
	gNum = 0
	gHas = false
	return new(flag.FlagSet)
}

func vOption(name string, s *string, b *bool) {
	if name == "help" {
		gHas = true
	}
	gOpt[gNum] = name
	gStr[gNum] = s
	gBool[gNum] = b
	gNum++
}

func ct_flag_FlagSet_StringVarP(f *flag.FlagSet, p *string, name, short, value, usage string) {
	*p = value
	vOption(name, p, nil)
}

func ct_flag_FlagSet_BoolVarP(f *flag.FlagSet, p *bool, name, short string, value bool, usage string) {
	*p = value
	vOption(name, nil, p)
}

func ct_flag_FlagSet_StringVar(f *flag.FlagSet, p *string, name, value, usage string) {
	*p = value
	vOption(name, p, nil)
}

func ct_flag_FlagSet_BoolVar(f *flag.FlagSet, p *bool, name string, value bool, usage string) {
	*p = value
	vOption(name, nil, p)
}

func ct_flag_FlagSet_StringP(f *flag.FlagSet, name, short, value, usage string) *string {
	p := new(string)
	*p = value
	vOption(name, p, nil)
	return p
}

func ct_flag_FlagSet_BoolP(f *flag.FlagSet, name, short string, value bool, usage string) *bool {
	p := new(bool)
	*p = value
	vOption(name, nil, p)
	return p
}

func ct_flag_FlagSet_SetInterspersed(f *flag.FlagSet, b bool) {}
func ct_flag_FlagSet_SetOutput(f *flag.FlagSet, w io.Writer)  {}
func ct_flag_FlagSet_PrintDefaults(f *flag.FlagSet)           {}

// With ExitOnError a bad option, or a request for help when there is no such option, runs
// Usage and ends the program with status 2.
func ct_flag_FlagSet_Parse(f *flag.FlagSet, args []string) error {
	gSets++
	if gSets == 2 {
		vAssert("a command gets the arguments that follow its name", len(args) == len(gRest))
	}
	if vFreshBool("badoption") {
		if f.Usage != nil {
			f.Usage()
		}
		os.Exit(2)
	}
	if !gHas && vFreshBool("askshelp") {
		gHelp = true
		if f.Usage != nil {
			f.Usage()
		}
		os.Exit(2)
	}
	pre := "flag:"
	if gSets == 1 {
		pre = "mainflag:"
	}
	for i := 0; i < gNum; i++ {
		if gStr[i] != nil {
			*gStr[i] = vStr(pre + gOpt[i])
		}
		if gBool[i] != nil {
			*gBool[i] = vBool(pre + gOpt[i])
		}
	}
	if gHas && vBool(pre+"help") {
		gHelp = true
	}
	if gSets == 1 && vBool(pre+"version") {
		gHelp = true
	}
	if gSets == 1 {
		if vFreshBool("nocommand") {
			gArgs = nil
		} else {
			gArgs = append([]string{gWord}, gRest...)
		}
	} else {
		gArgs = vStrs("args")
	}
	return nil
}

func ct_flag_FlagSet_Args(f *flag.FlagSet) []string { return gArgs }
func ct_flag_FlagSet_NArg(f *flag.FlagSet) int      { return len(gArgs) }

// the words stand for themselves, and their unambiguous beginnings for them
func ct_utils_Abbrev(words []string) map[string]string {
	m := make(map[string]string)
	for _, w := range words {
		m[w] = w
		if gCanon == "" {
			vAssume(vFun("lower ", gWord) != w)
		}
	}
	if gCanon != "" {
		m[vFun("lower ", gWord)] = gCanon
	}
	return m
}

func ct_strings_ToLower(s string) string { return vFun("lower ", s) }

// ---- the system

func ct_os_File_WriteString(f *os.File, s string) (int, error) { return f.Write([]byte(s)) }
func ct_os_File_Sync(f *os.File) error                         { return nil }

func ct_os_File_Write(f *os.File, b []byte) (int, error) {
	if f != os.Stdout {
		return len(b), nil
	}
	if vFreshBool("stdoutfails") {
		gBad = true
		return vFreshInt("n"), gErr
	}
	gWrote = gWrote + string(b)
	return len(b), nil
}

func ct_os_File_Close(f *os.File) error {
	if f != os.Stdout {
		return vErr("closein")
	}
	if gClosed {
		return os.ErrClosed
	}
	gClosed = true
	if vFreshBool("closefails") {
		gBad = true
		return gErr
	}
	return nil
}

func ct_os_OpenFile(fn string, fl int, mode os.FileMode) (*os.File, error) {
	vAssert("files other than the output are only read", fl&(os.O_WRONLY|os.O_RDWR|os.O_CREATE|os.O_TRUNC|os.O_APPEND) == 0)
	return ct_os_Open(fn)
}

func ct_os_Open(fn string) (*os.File, error) {
	if vFreshBool("cantopen") {
		return nil, gErr
	}
	gIn = new(os.File)
	gInName = fn
	return gIn, nil
}

func ct_ioutil_ReadFile(fn string) ([]byte, error) { return ct_os_ReadFile(fn) }

func ct_os_ReadFile(fn string) ([]byte, error) {
	if vFreshBool("cantread") {
		return nil, gErr
	}
	return vBytesOf(vFun("text of ", fn)), nil
}

type gInfo struct{}

func (gInfo) Name() string       { return vFreshStr("name") }
func (gInfo) Size() int64        { return int64(vFreshInt("size")) }
func (gInfo) Mode() os.FileMode  { return os.FileMode(vFreshInt("mode")) }
func (gInfo) ModTime() time.Time { return time.Time{} }
func (gInfo) IsDir() bool        { return vFreshBool("isdir") }
func (gInfo) Sys() interface{}   { return nil }

func ct_os_Stat(fn string) (os.FileInfo, error) {
	if vFreshBool("cantstat") {
		return nil, gErr
	}
	return gInfo{}, nil
}

func ct_os_Lstat(fn string) (os.FileInfo, error) { return ct_os_Stat(fn) }

func ct_os_File_Stat(f *os.File) (os.FileInfo, error) { return ct_os_Stat("") }

func ct_os_SameFile(a, b os.FileInfo) bool { return vFreshBool("samefile") }
func ct_os_IsNotExist(err error) bool      { return vFreshBool("isnotexist") }
func ct_os_IsExist(err error) bool         { return vFreshBool("isexist") }
func ct_os_Getenv(n string) string         { return vFun("environment ", n) }

func ct_os_LookupEnv(n string) (string, bool) {
	if vFreshBool("isset") {
		return vFun("environment ", n), true
	}
	return "", false
}

func ct_os_UserHomeDir() (string, error) {
	if vFreshBool("nohome") {
		return "", gErr
	}
	return vStr("home"), nil
}

func ct_path_Clean(s string) string     { return vFun("clean ", s) }
func ct_filepath_Clean(s string) string { return vFun("clean ", s) }
func ct_strings_Index(s, t string) int  { return vFreshInt("index") - 1 }

func ct_utils_Askpass(prompt string, verify bool) (string, error) {
	if vFreshBool("noanswer") {
		return "", gErr
	}
	return vStr("typed"), nil
}

func ct_utils_ParseSize(s string) (uint64, error) {
	if vFreshBool("badsize") {
		return 0, gErr
	}
	if s != fStr("block-size") {
		return uint64(vFreshInt("size")), nil
	}
	return vU64("size"), nil
}

// ---- fio.SafeFile: a temporary file, renamed when it is closed without errors

func ct_fio_NewSafeFile(nm string, opts uint32, fl int, perm os.FileMode) (*fio.SafeFile, error) {
	if opts&fio.OPT_OVERWRITE != 0 {
		vAssert("existing outputs are replaced only with the overwrite flag", fBool("overwrite"))
	}
	vAssert("one output", gState == sNone)
	if vFreshBool("cantcreate") {
		return nil, gErr
	}
	gName = nm
	gState = sOpen
	gFile = new(fio.SafeFile)
	return gFile, nil
}

func ct_fio_SafeFile_Write(f *fio.SafeFile, b []byte) (int, error) {
	if gState != sOpen {
		return 0, gErr
	}
	if vFreshBool("writefails") {
		gBad = true
		return vFreshInt("n"), gErr
	}
	gWrote = gWrote + string(b)
	return len(b), nil
}

func ct_fio_SafeFile_Close(f *fio.SafeFile) error {
	if gState == sCommitted {
		return nil
	}
	if gState == sAborted {
		return fio.ErrAborted
	}
	if gBad || vFreshBool("commitfails") {
		gState = sAborted
		return gErr
	}
	gState = sCommitted
	return nil
}

func ct_fio_SafeFile_Abort(f *fio.SafeFile) {
	if gState == sOpen {
		gState = sAborted
	}
}

// ---- keys

// the passphrase comes from where the options say
func vPassphrase(pw []byte) bool {
	if fBool("no-password") {
		return len(pw) == 0
	}
	env := fStr("env-password")
	if len(env) > 0 {
		return string(pw) == vFun("environment ", env)
	}
	return string(pw) == vStr("typed")
}

func ct_sign_Debug(n int) {}

func ct_sign_ReadPrivateKey(fn string, getpw func() ([]byte, error)) (*sign.PrivateKey, error) {
	if vFreshBool("cantreadkey") {
		return nil, gErr
	}
	if vFreshBool("needspw") {
		pw, err := getpw()
		if err != nil {
			return nil, gErr
		}
		vAssert("the passphrase comes from where the options say", vPassphrase(pw))
		if vFreshBool("wrongpw") {
			return nil, gErr
		}
	}
	return &sign.PrivateKey{Sk: vBytesOf(vFun("private key in ", fn))}, nil
}

func vIsSk(sk *sign.PrivateKey, fn string) bool {
	return string(sk.Sk) == vFun("private key in ", fn)
}

func ct_sign_ReadPublicKey(fn string) (*sign.PublicKey, error) {
	if vFreshBool("cantreadpub") {
		return nil, gErr
	}
	return &sign.PublicKey{Pk: vBytesOf(vFun("public key in ", fn)), Comment: vFreshStr("comment")}, nil
}

func ct_sign_MakePublicKeyFromString(s string) (*sign.PublicKey, error) {
	if vFreshBool("notakey") {
		return nil, gErr
	}
	return &sign.PublicKey{Pk: vBytesOf(vFun("public key ", s)), Comment: vFreshStr("comment")}, nil
}

func vPublicKeys(name string) []*sign.PublicKey    { panic(0) }
func vIsElem(list string, pk *sign.PublicKey) bool { panic(0) }

// any number of keys
func ct_sign_ParseAuthorizedKeys(in []byte) ([]*sign.PublicKey, error) {
	if len(in) == 0 {
		return nil, nil
	}
	if string(in) != vFun("text of ", vStr("home")+"/.ssh/authorized_keys") || vFreshBool("badauthorized") {
		return nil, gErr
	}
	return vPublicKeys("authorized"), nil
}

func ct_sign_NewPrivateKey() (*sign.PrivateKey, error) {
	if vFreshBool("nokey") {
		return nil, gErr
	}
	gKey = &sign.PrivateKey{Sk: vBytesOf(vFreshStr("newkey"))}
	return gKey, nil
}

func ct_sign_PrivateKey_PublicKey(sk *sign.PrivateKey) *sign.PublicKey {
	return &sign.PublicKey{Pk: vBytesOf(vFun("public half of ", string(sk.Sk)))}
}

func vMayWrite(ovwrite bool) {
	if ovwrite {
		vAssert("existing outputs are replaced only with the overwrite flag", fBool("overwrite"))
	}
}

func ct_sign_PrivateKey_Serialize(sk *sign.PrivateKey, fn, comment string, ovwrite bool, pw []byte) error {
	vMayWrite(ovwrite)
	if vFreshBool("cantsave") {
		return gErr
	}
	gSaved = sk == gKey && fn == vFun("clean ", gArgs[0])+".key" && comment == fStr("comment") && vPassphrase(pw)
	return nil
}

func ct_sign_PublicKey_Serialize(pk *sign.PublicKey, fn, comment string, ovwrite bool) error {
	vMayWrite(ovwrite)
	if vFreshBool("cantsavepub") {
		return gErr
	}
	gPkSaved = gKey != nil && string(pk.Pk) == vFun("public half of ", string(gKey.Sk)) && fn == vFun("clean ", gArgs[0])+".pub" && comment == fStr("comment")
	return nil
}

// ---- signatures

func ct_sign_PrivateKey_SignFile(sk *sign.PrivateKey, fn string) (*sign.Signature, error) {
	if vFreshBool("cantsign") {
		return nil, gErr
	}
	gSigned = vIsSk(sk, gArgs[0]) && fn == gArgs[1]
	gSig = &sign.Signature{Sig: vBytesOf(vFreshStr("signature"))}
	return gSig, nil
}

func ct_sign_Signature_MarshalBinary(s *sign.Signature, comment string) ([]byte, error) {
	if vFreshBool("cantmarshal") {
		return nil, gErr
	}
	gSigText = vFreshStr("sigtext")
	if s != gSig {
		gSigned = false
	}
	return vBytesOf(gSigText), nil
}

func ct_sign_ReadSignature(fn string) (*sign.Signature, error) {
	if vFreshBool("cantreadsig") {
		return nil, gErr
	}
	return &sign.Signature{Sig: vBytesOf(vFun("signature in ", fn))}, nil
}

func ct_sign_Signature_IsPKMatch(s *sign.Signature, pk *sign.PublicKey) bool {
	return vBool("pkmatch")
}

// VerifyFile doesn't look at the key's hash in the signature
func ct_sign_PublicKey_VerifyFile(pk *sign.PublicKey, fn string, s *sign.Signature) (bool, error) {
	if vFreshBool("cantverify") {
		return false, gErr
	}
	if !vFreshBool("valid") {
		return false, nil
	}
	key := string(pk.Pk) == vFun("public key ", gArgs[0]) || string(pk.Pk) == vFun("public key in ", gArgs[0])
	gDone = key && fn == gArgs[2] && string(s.Sig) == vFun("signature in ", gArgs[1]) && vBool("pkmatch")
	return true, nil
}

// ---- encryption

func ct_sign_NewEncryptor(sk *sign.PrivateKey, blksize uint64) (*sign.Encryptor, error) {
	if vFreshBool("noencryptor") {
		return nil, gErr
	}
	f := fStr("sign")
	ok := blksize == vU64("size")
	if len(f) == 0 {
		ok = ok && sk == nil
	} else {
		ok = ok && sk != nil && vIsSk(sk, f)
	}
	gEnc = new(sign.Encryptor)
	gMatch = ok
	gAdded = 0
	return gEnc, nil
}

func ct_sign_Encryptor_AddRecipient(e *sign.Encryptor, pk *sign.PublicKey) error {
	if vFreshBool("cantadd") {
		return gErr
	}
	ok := false
	if gAdded < len(gArgs)-1 {
		a := gArgs[gAdded]
		if vIsElem("authorized", pk) {
			ok = vEq(pk.Comment, a)
		} else {
			ok = vEq(string(pk.Pk), vFun("public key in ", a))
		}
	}
	gMatch = vAnd(gMatch, ok)
	gAdded++
	return nil
}

func vIsIn(rd io.Reader, fn string) bool {
	f, ok := rd.(*os.File)
	if fn == "-" {
		return ok && f == os.Stdin
	}
	return ok && f == gIn && gInName == fn
}

// succeeds only when all the output was written and closed (C01, C17, C18)
func ct_sign_Encryptor_Encrypt(e *sign.Encryptor, rd io.Reader, wr io.WriteCloser) error {
	if vFreshBool("encfails") {
		return gErr
	}
	if _, err := wr.Write(vBytesOf(vFreshStr("ciphertext"))); err != nil {
		return err
	}
	if vFreshBool("encfailslater") {
		return gErr
	}
	if err := wr.Close(); err != nil {
		return err
	}
	gWr = wr
	gDone = e == gEnc && vIsIn(rd, gArgs[len(gArgs)-1]) && gMatch && gAdded == len(gArgs)-1 && gAdded > 0
	return nil
}

func ct_sign_NewDecryptor(rd io.Reader) (*sign.Decryptor, error) {
	if vFreshBool("nodecryptor") {
		return nil, gErr
	}
	in := "-"
	if len(gArgs) > 1 {
		in = gArgs[1]
	}
	gDec = new(sign.Decryptor)
	gMatch = vIsIn(rd, in)
	return gDec, nil
}

func ct_sign_Decryptor_SetPrivateKey(d *sign.Decryptor, sk *sign.PrivateKey, pk *sign.PublicKey) error {
	if vFreshBool("wrongkey") {
		return gErr
	}
	f := fStr("verify-sender")
	gSet = d == gDec && vIsSk(sk, gArgs[0])
	if len(f) == 0 {
		gSet = gSet && pk == nil
	} else {
		gSet = gSet && pk != nil && string(pk.Pk) == vFun("public key in ", f)
	}
	return nil
}

func ct_sign_Decryptor_AuthenticatedSender(d *sign.Decryptor) bool { return vBool("authenticated") }

// succeeds only when the whole input was authentic and all of it was written (C02, C03, C17)
func ct_sign_Decryptor_Decrypt(d *sign.Decryptor, wr io.Writer) error {
	if vFreshBool("decfails") {
		return gErr
	}
	if _, err := wr.Write(vBytesOf(vFreshStr("plaintext"))); err != nil {
		return err
	}
	if vFreshBool("decfailslater") {
		return gErr
	}
	gWr = wr
	gDone = d == gDec && gMatch && gSet
	return nil
}

// ---- the program

func vRun(canon string) {
	gCanon = canon
	gWord = vStr("word")
	gRest = vStrs("rest")
	vAssume(len(os.Args) > 0)
	main()
	vZero()
}

func vcC16_verify()   { vRun("verify") }
func vcC16_sign()     { vRun("sign") }
func vcC16_generate() { vRun("generate") }
func vcC16_decrypt()  { vRun("decrypt") }

// encrypt, with and without a signing key and an output file
func vEncrypt(signed, file bool) {
	vAssume((len(fStr("sign")) > 0) == signed)
	o := fStr("outfile")
	vAssume((len(o) > 0 && o != "-") == file)
	vRun("encrypt")
}

func vcC16_encrypt()           { vEncrypt(false, false) }
func vcC16_encryptfile()       { vEncrypt(false, true) }
func vcC16_encryptsigned()     { vEncrypt(true, false) }
func vcC16_encryptsignedfile() { vEncrypt(true, true) }

func vcC16_help() {
	gHelp = true
	vRun("help")
}

// an unknown command
func vcC16_unknown() { vRun("") }

// Warn is replaced by its contract above: it only prints
func ct_main_Warn(f string, v ...interface{}) {}
