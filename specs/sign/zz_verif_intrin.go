package sign

import "io"

// Intrinsics of the specification language; the verifier interprets them, the bodies are
// never compiled into anything.

func vAssume(c bool)                                   { panic(0) }
func vAssert(name string, c bool)                      { panic(0) }
func vCover(name string)                               { panic(0) }
func vStop()                                           { panic(0) }
func vStr(name string) string                          { panic(0) }
func vStrN(name string, n int) string                  { panic(0) }
func vFreshStr(name string) string                     { panic(0) }
func vFreshInt(name string) int                        { panic(0) }
func vFreshBool(name string) bool                      { panic(0) }
func vBytes(name string) []byte                        { panic(0) }
func vBytesOf(s string) []byte                         { panic(0) }
func vInt(name string) int                             { panic(0) }
func vU64(name string) uint64                          { panic(0) }
func vU32(name string) uint32                          { panic(0) }
func vBool(name string) bool                           { panic(0) }
func vErr(name string) error                           { panic(0) }
func vReader(src string, end error) io.Reader          { panic(0) }
func vReaderPos(r io.Reader) int                       { panic(0) }
func vWriter(mode string) io.WriteCloser               { panic(0) }
func vOut(w io.Writer) string                          { panic(0) }
func vClosed(w io.Writer) int                          { panic(0) }
func vFailed(w io.Writer) bool                         { panic(0) }
func vHook(name string, f interface{})                 { panic(0) }
func vUnhook(name string)                              { panic(0) }
func vSha256(s string) string                          { panic(0) }
func vSha512(s string) string                          { panic(0) }
func vHmac256(k, s string) string                      { panic(0) }
func vHkdf512(secret, salt, info string, n int) string { panic(0) }
func vSeal(k, n, p, a string) string                   { panic(0) }
func vOpen(k, n, c, a string) string                   { panic(0) }
func vOpenOK(k, n, c, a string) bool                   { panic(0) }
func vX25519(s, p string) string                       { panic(0) }
func vEdPub(seed string) string                        { panic(0) }
func vEdSign(seed, pub, msg string) string             { panic(0) }
func vEdVerify(pub, msg, sig string) bool              { panic(0) }
func vCurvePK(p string) string                         { panic(0) }
func vClamp(s string) string                           { panic(0) }
func vScrypt(pw, salt string, N, r, p, n int) string   { panic(0) }
func vB64(s string) string                             { panic(0) }
func vBe32(v uint32) string                            { panic(0) }
func vBe64(v uint64) string                            { panic(0) }
func vRep(b byte, n int) string                        { panic(0) }
func vSub(s string, off, n int) string                 { panic(0) }
func vRange(lo, hi int, f func(i int) string) string   { panic(0) }
func vIsRand(s string, n int) bool                     { panic(0) }
func vDistinctRand(a, b string) bool                   { panic(0) }
func vMentions(s, t string) bool                       { panic(0) }
func vErrIs(e, t error) bool                           { panic(0) }
func vDump(name string, s string)                      { panic(0) }
func vDumpInt(name string, v int)                      { panic(0) }
func vDumpPC(name string)                              { panic(0) }
func vLeaks(s, t string) bool                          { panic(0) }
func vHavocRest(p interface{}, known string)           { panic(0) }
func vMontgomery(p string) string                      { panic(0) }
func vFileText(name string) string                     { panic(0) }
func vNoBlank(s string) bool                           { panic(0) }
func vOneLine(s string) bool                           { panic(0) }
func vPem(typ, body string) string                     { panic(0) }
func vYaml(kv ...interface{}) string                   { panic(0) }
func vYamlGet(d, tag string) (string, bool)            { panic(0) }
func vYamlInt(d, tag string) (int, bool)               { panic(0) }
func vIsYaml(d string) bool                            { panic(0) }
func vBcrypt(pw, salt string, rounds, n int) string    { panic(0) }
func vCtr(k, iv, s string) string                      { panic(0) }
func vCbcEnc(k, iv, s string) string                   { panic(0) }
func vCbcDec(k, iv, s string) string                   { panic(0) }
func vNoYaml(s string) bool                            { panic(0) }
func vNum32(s string, off int) uint32                  { panic(0) }
