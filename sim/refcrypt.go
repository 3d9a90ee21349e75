package main

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/md5"
	"crypto/rc4"
	"fmt"
)

// An independent implementation of the standard security handler (RC4 and AES-128).

var padStr = []byte("\x28\xBF\x4E\x5E\x4E\x75\x8A\x41\x64\x00\x4E\x56\xFF\xFA\x01\x08\x2E\x2E\x00\xB6\xD0\x68\x3E\x80\x2F\x0C\xA9\xFE\x64\x53\x69\x7A")

// refEnc is the encryption of one document.
type refEnc struct {
	V, R, Len int
	O, U      []byte
	P         int32
	Meta      bool
	ID        []byte
	Key       []byte
	rng       *Rng
	cf        int
	tamper    func(d Dict)
}

// methods are the crypt filter methods of streams and strings.
func (e *refEnc) methods() (stm, str string) {
	if e.V < 4 {
		return "V2", "V2"
	}
	switch e.cf {
	case 1:
		return "V2", "V2"
	case 2:
		return "AESV2", "None"
	case 3:
		return "None", "AESV2"
	case 4:
		return "V2", "AESV2"
	case 5:
		return "AESV2", "V2"
	}
	return "AESV2", "AESV2"
}

// clear says whether a stream with dictionary d is left unencrypted.
func (e *refEnc) clear(d Dict) bool {
	if e.V >= 4 && ownIdentity(d) {
		return true
	}
	return d["Type"] == Name("XRef") || e.V >= 4 && !e.Meta && d["Type"] == Name("Metadata")
}

// ownIdentity says whether a stream has a crypt filter of its own, Identity.
func ownIdentity(d Dict) bool {
	f, p := d["Filter"], d["DecodeParms"]
	if a, ok := f.(Arr); ok && len(a) > 0 {
		f = a[0]
	}
	if a, ok := p.(Arr); ok && len(a) > 0 {
		p = a[0]
	}
	pd, _ := p.(Dict)
	return f == Name("Crypt") && (pd["Name"] == nil || pd["Name"] == Name("Identity"))
}

func pad32(p []byte) []byte { return append(append([]byte{}, p...), padStr...)[:32] }

func rc(key, data []byte) []byte {
	c, err := rc4.NewCipher(key)
	if err != nil {
		panic(err)
	}
	o := make([]byte, len(data))
	c.XORKeyStream(o, data)
	return o
}

func xorKey(k []byte, i int) []byte {
	o := make([]byte, len(k))
	for j := range k {
		o[j] = k[j] ^ byte(i)
	}
	return o
}

// newRefEnc makes the encryption for two passwords (algorithms 2 to 5 of the standard).
func newRefEnc(v, r, length int, user, owner []byte, p int32, meta bool, id []byte, rng *Rng) *refEnc {
	e := &refEnc{V: v, R: r, Len: length, P: p, Meta: meta, ID: id, rng: rng}
	if len(owner) == 0 {
		owner = user
	}
	h := md5.Sum(pad32(owner))
	k := h[:]
	if r >= 3 {
		for i := 0; i < 50; i++ {
			h = md5.Sum(k)
			k = h[:]
		}
	}
	ok := append([]byte{}, k[:length]...)
	o := rc(ok, pad32(user))
	if r >= 3 {
		for i := 1; i <= 19; i++ {
			o = rc(xorKey(ok, i), o)
		}
	}
	e.O = o
	var b bytes.Buffer
	b.Write(pad32(user))
	b.Write(o)
	b.Write([]byte{byte(p), byte(p >> 8), byte(p >> 16), byte(p >> 24)})
	b.Write(id)
	if r >= 4 && !meta {
		b.Write([]byte{255, 255, 255, 255})
	}
	h = md5.Sum(b.Bytes())
	k = h[:]
	if r >= 3 {
		for i := 0; i < 50; i++ {
			h = md5.Sum(k[:length])
			k = h[:]
		}
	}
	e.Key = append([]byte{}, k[:length]...)
	if r == 2 {
		e.U = rc(e.Key, padStr)
	} else {
		h = md5.Sum(append(append([]byte{}, padStr...), id...))
		u := h[:]
		for i := 0; i <= 19; i++ {
			u = rc(xorKey(e.Key, i), u)
		}
		e.U = append(append([]byte{}, u...), make([]byte, 16)...)
	}
	return e
}

// dict is the encryption dictionary.
func (e *refEnc) dict() Dict {
	d := Dict{"Filter": Name("Standard"), "V": int64(e.V), "R": int64(e.R), "O": Str(e.O), "U": Str(e.U), "P": int64(e.P), "Length": int64(e.Len * 8)}
	if e.V == 4 {
		stm, str := e.methods()
		cf := Dict{}
		use := func(m string) Val {
			if m == "None" && e.cf%2 == 0 {
				return Name("Identity")
			}
			n := "StdCF"
			if stm != str && m == str {
				n = "OtherCF"
			}
			cf[n] = Dict{"CFM": Name(m), "AuthEvent": Name("DocOpen"), "Length": int64(16)}
			return Name(n)
		}
		d["StmF"], d["StrF"] = use(stm), use(str)
		d["CF"] = cf
		if !e.Meta {
			d["EncryptMetadata"] = false
		}
	}
	if e.tamper != nil {
		e.tamper(d)
	}
	return d
}

// objKey is the key of an object.
func objKey(key []byte, aes bool, n, g int) []byte {
	k := append(append([]byte{}, key...), byte(n), byte(n>>8), byte(n>>16), byte(g), byte(g>>8))
	if aes {
		k = append(k, "sAlT"...)
	}
	h := md5.Sum(k)
	l := len(key) + 5
	if l > 16 {
		l = 16
	}
	return h[:l]
}

func (e *refEnc) encStm(n, g int, data []byte) []byte {
	m, _ := e.methods()
	return e.enc(m, n, g, data)
}

func (e *refEnc) encStr(n, g int, data []byte) []byte {
	_, m := e.methods()
	return e.enc(m, n, g, data)
}

func (e *refEnc) enc(m string, n, g int, data []byte) []byte {
	if m == "None" {
		return data
	}
	k := objKey(e.Key, m != "V2", n, g)
	if m == "V2" {
		return rc(k, data)
	}
	iv := e.rng.Bytes(16)
	p := 16 - len(data)%16
	pt := append(append([]byte{}, data...), bytes.Repeat([]byte{byte(p)}, p)...)
	blk, _ := aes.NewCipher(k)
	cipher.NewCBCEncrypter(blk, iv).CryptBlocks(pt, pt)
	return append(iv, pt...)
}

// refDec decrypts the data of an object.
func refDec(key []byte, m string, n, g int, data []byte) ([]byte, error) {
	if m == "None" {
		return data, nil
	}
	k := objKey(key, m != "V2", n, g)
	if m == "V2" {
		return rc(k, data), nil
	}
	if len(data) < 32 || len(data)%16 != 0 {
		return nil, fmt.Errorf("%d bytes of AES data", len(data))
	}
	blk, _ := aes.NewCipher(k)
	out := make([]byte, len(data)-16)
	cipher.NewCBCDecrypter(blk, data[:16]).CryptBlocks(out, data[16:])
	p := int(out[len(out)-1])
	if p < 1 || p > 16 || !bytes.Equal(out[len(out)-p:], bytes.Repeat([]byte{byte(p)}, p)) {
		return nil, fmt.Errorf("bad AES padding")
	}
	return out[:len(out)-p], nil
}

// weakIV says what is wrong with the initialisation vectors of AES data: half of one that
// is zero, or that other data have as well.
func weakIV(seen map[string]string, m string, data []byte) string {
	if m != "AESV2" && m != "AESV3" || len(data) < 32 {
		return ""
	}
	for _, i := range []int{0, 8} {
		half := string(data[i : i+8])
		if half == "\x00\x00\x00\x00\x00\x00\x00\x00" {
			return fmt.Sprintf("the initialisation vector %x has zeros", data[:16])
		}
		key := fmt.Sprint(i, half)
		if p, ok := seen[key]; ok && p != string(data) {
			return fmt.Sprintf("the initialisation vectors %x and %x have a half in common", p[:16], data[:16])
		}
		seen[key] = string(data)
	}
	return ""
}
