package main

// Intrinsics of the specification language; the verifier interprets them, the bodies are
// never compiled into anything.

func vAssume(c bool)               { panic(0) }
func vAssert(name string, c bool)  { panic(0) }
func vCover(name string)           { panic(0) }
func vStop()                       { panic(0) }
func vStr(name string) string      { panic(0) }
func vStrs(name string) []string   { panic(0) }
func vBytesOf(s string) []byte     { panic(0) }
func vFreshStr(name string) string { panic(0) }
func vFreshInt(name string) int    { panic(0) }
func vFreshBool(name string) bool  { panic(0) }
func vU64(name string) uint64      { panic(0) }
func vBool(name string) bool       { panic(0) }
func vErr(name string) error       { panic(0) }
func vSha256(s string) string      { panic(0) }
func vFun(name, s string) string   { panic(0) }
func vDump(name string, s string)  { panic(0) }
func vDumpInt(name string, v int)  { panic(0) }
func vDumpPC(name string)          { panic(0) }
func vAnd(a, b bool) bool          { panic(0) }
func vOr(a, b bool) bool           { panic(0) }
func vNot(a bool) bool             { panic(0) }
func vEq(a, b string) bool         { panic(0) }
