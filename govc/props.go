package main

import (
	"time"
)

var props = map[string]*Prop{}

func add(p *Prop) { props[p.ID] = p }

// proofs: the specifications that prove the contract of a function; they are checked with every
// property whose proof uses the contract
var proofs = map[string][]Task{}

func proves(names []string, ts ...[]Task) {
	for _, n := range names {
		proofs[n] = append(proofs[n], cat(ts...)...)
	}
}

const pbH = "(*github.com/opencoff/sigtool/internal/pb.Header)."

// functions whose bodies are executed in place of their contract
var encPB = []string{pbH + "SizeVT", pbH + "MarshalToSizedBufferVT"}

func rp(id string) []Replay {
	return []Replay{{Pkg: "sign", Run: "TestVerif" + id, Files: []string{"ref", "c" + id[1:]}}}
}

// with further files
func rpx(id string, files ...string) []Replay {
	r := rp(id)
	r[0].Files = append(r[0].Files, files...)
	return r
}

func init() {
	c01 := Task{Pkg: "sign", Files: []string{"c01"}, Cover: []string{"encrypted", "set", "end"}, Weight: 3}
	add(&Prop{ID: "C01",
		Tasks:  fns(c01, "vcC01_plain", "vcC01_auth", "vcC01_many", "vcC01_many_auth"),
		Replay: rp("C01"),
	})
	c20 := Task{Pkg: "sign", Files: []string{"fmt"}, Cover: []string{"encrypted", "end"}, NoContracts: encPB, Weight: 3}
	add(&Prop{ID: "C20",
		Tasks: append(fns(c20, "vcC20_plain", "vcC20_auth", "vcC20_stream", "vcC20_stream_auth"),
			fns(Task{Pkg: "sign", Files: []string{"fmt"}, Cover: []string{"set", "end"}, Weight: 1}, "vcC20_read", "vcC20_read_auth")...),
		Replay: rp("C20"),
	})
	// the methods of the stream types, from any state between calls
	st := Task{Pkg: "sign", Files: []string{"fmt", "c03", "stream"}, Weight: 1}
	rd := fns(cov(st, "set", "rest", "end", "refused", "opened", "last"), "vcRead_plain", "vcRead_auth")
	wr := append(fns(cov(st, "end"), "vcStart"),
		append(fns(cov(st, "set", "written", "refused"), "vcWrite_plain", "vcWrite_auth"),
			fns(cov(st, "set", "end"), "vcClose_plain", "vcClose_auth")...)...)
	add(&Prop{ID: "C02",
		Tasks:  append(append(fns(c20, "vcC20_stream", "vcC20_stream_auth"), wr...), rd...),
		Replay: rp("C02"),
	})
	c03 := Task{Pkg: "sign", Files: []string{"fmt", "c03"}, Cover: []string{"set", "refused", "accepted"}, Weight: 2}
	add(&Prop{ID: "C03",
		Tasks:  append(fns(c03, "vcC03_plain", "vcC03_auth", "vcC03_splice", "vcC03_splice_auth"), rd...),
		Replay: rp("C03"),
	})
	add(&Prop{ID: "C04",
		Tasks:  fns(Task{Pkg: "sign", Files: []string{"fmt", "c04"}, Cover: []string{"refused", "accepted", "set", "end"}, Weight: 1}, "vcC04"),
		Replay: rp("C04"),
	})
	c05 := Task{Pkg: "sign", Files: []string{"fmt", "c05"}, Weight: 1}
	add(&Prop{ID: "C05",
		Tasks: append(append(fns(cov(c05, "refused", "accepted"), "vcC05_anon", "vcC05_sender"),
			fns(cov(c05, "refused", "accepted", "kept"), "vcC05_twice_an", "vcC05_twice_na", "vcC05_twice_aa", "vcC05_twice_nn")...),
			append(fns(cov(c03, "set", "refused", "accepted"), "vcC03_auth"), fns(cov(st, "set", "rest", "end", "refused", "opened", "last"), "vcRead_auth")...)...),
		Replay: rp("C05"),
	})
	c06 := Task{Pkg: "sign", Files: []string{"fmt", "c03", "stream", "c06"}, Weight: 1}
	add(&Prop{ID: "C06",
		Tasks: cat(fns(cov(c06, "first", "failed", "second"), "vcC06_batch", "vcC06_batch_auth", "vcC06_batch_fail", "vcC06_stream_fail"),
			fns(cov(c06, "first", "second"), "vcC06_stream"),
			fns(cov(c06, "set", "written", "failed", "end"), "vcC06_write_fail", "vcC06_write_fail_auth", "vcC06_close_fail", "vcC06_close_fail_auth"),
			fns(cov(c06, "end"), "vcC06_wraps"), wr),
		Replay: rp("C06"),
	})
	c07 := Task{Pkg: "sign", Files: []string{"fmt", "c07"}, Weight: 1}
	many := Task{Pkg: "sign", Files: []string{"c01"}, Cover: []string{"encrypted", "set", "end"}, Weight: 2}
	add(&Prop{ID: "C07",
		Tasks: cat(fns(cov(c07, "end"), "vcC07_wraps", "vcC07_wraps_auth", "vcC07_other", "vcC07_other_many"),
			fns(cov(c07, "opened", "refused"), "vcC07_unwrap"),
			fns(many, "vcC01_many", "vcC01_many_auth")),
		Replay: rp("C07"),
	})
	c17 := Task{Pkg: "sign", Files: []string{"fmt", "c03", "c17"}, Weight: 1}
	part := cov(c17, "encrypted", "end")
	part.NoContracts = encPB
	fw := cov(c17, "ok", "failed")
	fw.NoContracts = []string{modPath + "sign.fullwrite"}
	add(&Prop{ID: "C17",
		Tasks: cat(fns(fw, "vcC17_fullwrite"),
			fns(part, "vcC17_part", "vcC17_part_auth", "vcC17_part_stream", "vcC17_part_stream_auth", "vcC17_full"),
			fns(cov(c17, "ok", "failed"), "vcC17_enc", "vcC17_enc_auth", "vcC17_dec_fail", "vcC17_dec_fail_auth", "vcC17_dec_part", "vcC17_start"),
			fns(cov(c06, "set", "written", "failed", "end"), "vcC06_write_fail", "vcC06_write_fail_auth", "vcC06_close_fail", "vcC06_close_fail_auth"),
			rd),
		Replay: rp("C17"),
	})
	c08 := Task{Pkg: "sign", Files: []string{"fmt", "c03", "stream", "c05", "c08"}, Weight: 2}
	add(&Prop{ID: "C08",
		Tasks: cat(fns(cov(c08, "accepted", "refused", "set"), "vcC08_key", "vcC08_again_nn", "vcC08_again_ns", "vcC08_again_sn", "vcC08_again_ss"),
			fns(cov(c08, "accepted", "set", "decrypted", "failed"), "vcC08_batch"),
			fns(cov(c08, "accepted", "set", "read", "failed"), "vcC08_read")),
		Replay: rp("C08"),
	})
	c18 := Task{Pkg: "sign", Files: []string{"fmt", "c03", "stream", "c18"}, Weight: 1}
	add(&Prop{ID: "C18",
		Tasks: cat(fns(cov(c18, "toobig", "end"), "vcC18_listed"),
			fns(cov(c18, "nothing", "done", "failed", "end"), "vcC18_batch", "vcC18_batch_auth"),
			fns(cov(c18, "set", "end"), "vcC18_stream", "vcC18_stream_auth", "vcC18_closed", "vcC18_closed_auth"),
			fns(cov(c18, "set", "refused", "end"), "vcC18_nokey"),
			fns(cov(c18, "done", "failed", "end"), "vcC18_dec", "vcC18_dec_auth"),
			fns(cov(c18, "end"), "vcC18_reader", "vcC18_reader_auth"),
			fns(cov(st, "set", "end"), "vcClose_plain", "vcClose_auth"),
			fns(cov(c06, "set", "written", "failed", "end"), "vcC06_close_fail", "vcC06_close_fail_auth"), rd),
		Replay: rp("C18"),
	})
	c19 := Task{Pkg: "sign", Files: []string{"c19"}, Cover: []string{"end"}, Weight: 1}
	add(&Prop{ID: "C19",
		Tasks:  fns(c19, "vcC19_two", "vcC19_two_auth", "vcC19_wraps", "vcC19_trailer", "vcC19_trailer_stream", "vcC19_keys", "vcC19_serialized"),
		Replay: rp("C19"),
	})
	c09 := Task{Pkg: "sign", Files: []string{"c09"}, Cover: []string{"ok", "refused"}, Weight: 1}
	auth := cov(c09, "key", "ok")
	auth.Coarse = true
	auth.Weight = 2
	add(&Prop{ID: "C09",
		Tasks: cat(fns(c09, "vcC09_private", "vcC09_public", "vcC09_string", "vcC09_signature",
			"vcC09_readprivate", "vcC09_readpublic", "vcC09_readsignature"),
			fns(auth, "vcC09_authorized")),
		Replay: rpx("C09", "keys", "ssh"),
	})
	c11 := Task{Pkg: "sign", Files: []string{"keys", "c11"}, Weight: 1}
	add(&Prop{ID: "C11",
		Tasks: cat(fns(cov(c11, "same", "samekey", "end"), "vcC11_message"),
			fns(cov(c11, "ok", "bad"), "vcC11_verify"),
			fns(cov(c11, "failed", "verified", "vfailed"), "vcC11_sign"),
			fns(cov(c11, "ok", "bad", "failed"), "vcC11_file"),
			fns(cov(c11, "same", "differ"), "vcC11_other")),
		Replay: rp("C11"),
	})
	c12 := Task{Pkg: "sign", Files: []string{"keys", "c12"}, Weight: 1}
	add(&Prop{ID: "C12",
		Tasks: cat(fns(cov(c12, "end"), "vcC12_private", "vcC12_reload", "vcC12_nopw", "vcC12_pwfail", "vcC12_signature"),
			fns(cov(c12, "failed", "end"), "vcC12_readfile", "vcC12_public"),
			fns(cov(c12, "same", "refused"), "vcC12_wrong"),
			fns(cov(c12, "loaded", "refused"), "vcC12_edit", "vcC12_altered"),
			fns(cov(c12, "refused", "end"), "vcC12_anysig")),
		Replay: rpx("C12", "keys"),
	})
	c13 := Task{Pkg: "sign", Files: []string{"keys", "c13"}, Weight: 1}
	curve := cov(c13, "end")
	curve.NoContracts = []string{"(*" + modPath + "sign.PublicKey).ToCurve25519PK"}
	add(&Prop{ID: "C13",
		Tasks: cat(fns(curve, "vcC13_curve"),
			fns(cov(c13, "made", "refused", "end"), "vcC13_new"),
			fns(cov(c13, "end"), "vcC13_calls", "vcC13_used"),
			fns(cov(c13, "loaded", "refused"), "vcC13_load", "vcC13_loadpub", "vcC13_anysig"),
			fns(cov(c13, "loaded", "end"), "vcC13_loadhalf", "vcC13_match")),
		Replay: rpx("C13", "keys"),
	})
	c14 := Task{Pkg: "sign", Files: []string{"keys", "c14"}, Cover: []string{"failed", "written"}, Weight: 1}
	add(&Prop{ID: "C14",
		Tasks:  fns(c14, "vcC14_private", "vcC14_public", "vcC14_signature", "vcC14_any"),
		Replay: rpx("C14", "keys"),
	})
	c15 := Task{Pkg: "sign", Files: []string{"keys", "c15"}, Cover: []string{"end"}, Weight: 1}
	add(&Prop{ID: "C15",
		Tasks: cat(fns(c15, "vcC15_plain", "vcC15_ctr", "vcC15_cbc", "vcC15_type", "vcC15_public", "vcC15_algo", "vcC15_auth1", "vcC15_auth2", "vcC15_auth3"),
			fns(cov(c15, "refused", "loaded", "encrypted", "padding"), "vcC15_any"),
			fns(cov(c15, "refused", "loaded"), "vcC15_nopw", "vcC15_blob"),
			fns(cov(c15, "asked", "loaded"), "vcC15_pwfail"),
			fns(cov(c15, "refused", "loaded", "raw"), "vcC15_string")),
		Replay:  rpx("C15", "keys", "ssh"),
		Bounded: []string{"authorized_keys files are proved up to two lines (and any line between two keys), each of ten forms (blank, comment, key, other algorithm, two option lists), and for one line of eighteen forms with blanks and tabs between the fields, with arbitrary keys and comments; larger files and other options by the replay driver only"},
	})
	proves(curve.NoContracts, fns(curve, "vcC13_curve"))
	proves(fw.NoContracts, fns(fw, "vcC17_fullwrite"))
	c10 := Task{Pkg: "internal/pb", Files: []string{"c10"}, Cover: []string{"encoded", "end"}, Weight: 1}
	hdr, key, vint, any := c10, c10, cov(c10, "end"), cov(c10, "refused", "accepted")
	hdr.NoContracts = []string{pbH + "UnmarshalVT", pbH + "SizeVT", pbH + "MarshalToSizedBufferVT"}
	const pbW = "(*" + modPath + "internal/pb.WrappedKey)."
	key.NoContracts = []string{pbW + "UnmarshalVT", pbW + "SizeVT", pbW + "MarshalToSizedBufferVT"}
	const vt = "github.com/planetscale/vtprotobuf/protohelpers."
	vint.NoContracts = []string{vt + "SizeOfVarint", vt + "EncodeVarint"}
	any.Coarse = true
	anyh, anyk, skip := any, any, any
	anyh.NoContracts, anyk.NoContracts, skip.NoContracts = hdr.NoContracts, key.NoContracts, []string{vt + "Skip"}
	proves(hdr.NoContracts, fns(hdr, "vcC10_hdr", "vcC10_keys"), fns(anyh, "vcC10_any"))
	proves(key.NoContracts, fns(key, "vcC10_key"), fns(anyk, "vcC10_any_key"))
	proves(vint.NoContracts, fns(vint, "vcC10_varint"))
	proves(skip.NoContracts, fns(skip, "vcC10_skip"))
	add(&Prop{ID: "C10",
		Tasks: cat(fns(hdr, "vcC10_hdr", "vcC10_keys"), fns(key, "vcC10_key"), fns(vint, "vcC10_varint"),
			fns(anyh, "vcC10_any"), fns(anyk, "vcC10_any_key"), fns(skip, "vcC10_skip")),
		Replay:  []Replay{{Pkg: "internal/pb", Run: "TestVerifC10", Files: []string{"c10"}}},
		Bounded: []string{"the header's round trip is proved with no and with two wrapped keys of any content; more keys by the replay driver only"},
	})
	c16 := Task{Pkg: "src", Files: []string{"c16"}, Cover: []string{"done", "failed", "help"}, Weight: 1}
	enc := c16
	enc.Weight = 5
	enc.Budget = 400 * time.Second
	add(&Prop{ID: "C16",
		Tasks: cat(fns(enc, "vcC16_encryptsignedfile", "vcC16_encryptsigned", "vcC16_encryptfile", "vcC16_encrypt"),
			fns(c16, "vcC16_verify", "vcC16_sign", "vcC16_generate", "vcC16_decrypt"),
			fns(cov(c16, "failed", "help"), "vcC16_help", "vcC16_unknown")),
		Replay: []Replay{{Pkg: "src", Run: "TestVerifC16", Files: []string{"c16"}}},
		Assume: []string{"contracts written in Go (specs/src ct_*) of the sign API, SafeFile, pflag, abbrev and os: the sign API's are the statements proved under the other properties, the rest are assumed"},
	})
}

func cat(l ...[]Task) []Task {
	var r []Task
	for _, x := range l {
		r = append(r, x...)
	}
	return r
}

func cov(t Task, c ...string) Task {
	t.Cover = c
	return t
}

func fns(t Task, fn ...string) []Task {
	var r []Task
	for _, f := range fn {
		x := t
		x.Fn = f
		x.Panics = true
		r = append(r, x)
	}
	return r
}
