// Package world is the simulated environment of the code under test: keys, a registry of DID
// documents with history, an HTTP network, a JSON-LD context server and clocks, each of which can
// fail in the ways real ones do. Every failure is drawn from the run's choices.
package world

import (
	"bytes"
	"crypto"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/sha512"
	"crypto/x509"
	_ "embed"
	"encoding/binary"
	"encoding/pem"
	"fmt"
	"math/big"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/go-jose/go-jose/v3"
	"github.com/trustbloc/bbs-signature-go/bbs12381g2pub"
	"github.com/trustbloc/did-go/doc/did"
	"github.com/trustbloc/kms-go/doc/jose/jwk"
	"github.com/trustbloc/kms-go/doc/jose/jwk/jwksupport"
	"github.com/trustbloc/kms-go/spi/kms"
)

//go:embed rsa.pem
var rsaPEM []byte

// Kind of key.
type Kind string

const (
	Ed    Kind = "ed25519"
	P256  Kind = "p256"
	P384  Kind = "p384"
	P521  Kind = "p521"
	K256  Kind = "secp256k1"
	RSA   Kind = "rs256"
	RSAPS Kind = "ps256"
	BBS   Kind = "bbs" // signs several statements at once; not one of Kinds
)

// Kinds lists the key kinds JWTs can be signed with.
var Kinds = []Kind{Ed, P256, P384, K256, P521, RSA, RSAPS}

// Key is a key pair. Keys are the same in every process.
type Key struct {
	Kind Kind
	N    int
	Type kms.KeyType
	Alg  string
	JWK  *jwk.JWK
	Raw  []byte // raw public key bytes where a DID document would carry such
	priv crypto.Signer
	ec   *ecdsa.PrivateKey
	bbs  []byte
}

var keyCache = map[string]*Key{}

func init() {
	for _, k := range Kinds {
		for n := 0; n < 4; n++ {
			GetKey(k, n)
		}
	}
}

// GetKey is the n-th key of a kind (n < 8 for RSA).
func GetKey(kind Kind, n int) *Key {
	id := fmt.Sprintf("%s/%d", kind, n)
	if k := keyCache[id]; k != nil {
		return k
	}

	seed := sha256.Sum256([]byte("vcsim key " + id))
	k := &Key{Kind: kind, N: n}

	ec := func(c elliptic.Curve) {
		d := new(big.Int).SetBytes(seed[:])
		d.Mod(d, new(big.Int).Sub(c.Params().N, big.NewInt(1)))
		d.Add(d, big.NewInt(1))
		p := &ecdsa.PrivateKey{D: d}
		p.Curve = c
		p.X, p.Y = c.ScalarBaseMult(d.Bytes())
		k.priv, k.ec = p, p
	}

	switch kind {
	case Ed:
		p := ed25519.NewKeyFromSeed(seed[:])
		k.priv, k.Type, k.Alg = p, kms.ED25519Type, "EdDSA"
		k.Raw = p.Public().(ed25519.PublicKey)
	case P256:
		ec(elliptic.P256())
		k.Type, k.Alg = kms.ECDSAP256TypeIEEEP1363, "ES256"
	case P384:
		ec(elliptic.P384())
		k.Type, k.Alg = kms.ECDSAP384TypeIEEEP1363, "ES384"
	case P521:
		ec(elliptic.P521())
		k.Type, k.Alg = kms.ECDSAP521TypeIEEEP1363, "ES521"
	case K256:
		ec(btcec.S256())
		k.Type, k.Alg = kms.ECDSASecp256k1TypeIEEEP1363, "ES256K"
	case RSA, RSAPS:
		at := n % 8
		if kind == RSAPS {
			at += 8
		}

		rest := rsaPEM

		blk, rest := pem.Decode(rest)
		for ; at > 0; at-- {
			blk, rest = pem.Decode(rest)
		}

		p, err := x509.ParsePKCS1PrivateKey(blk.Bytes)
		if err != nil {
			panic(err)
		}

		k.priv, k.Type, k.Alg = p, kms.RSARS256Type, "RS256"
		if kind == RSAPS {
			k.Type, k.Alg = kms.RSAPS256Type, "PS256"
		}

		k.Raw = x509.MarshalPKCS1PublicKey(&p.PublicKey)
	}

	if kind == BBS {
		pub, priv, err := bbs12381g2pub.GenerateKeyPair(sha256.New, seed[:])
		if err != nil {
			panic(err)
		}

		k.Type = kms.BLS12381G2Type
		k.bbs, _ = priv.Marshal()
		k.Raw, _ = pub.Marshal()
		k.JWK = &jwk.JWK{JSONWebKey: jose.JSONWebKey{Key: pub}, Kty: "EC", Crv: "BLS12381_G2"}
		keyCache[id] = k

		return k
	}

	j, err := jwksupport.JWKFromKey(k.priv.Public())
	if err != nil {
		panic(fmt.Sprintf("%s: %v", id, err))
	}

	k.JWK = j
	keyCache[id] = k

	return k
}

// Sign signs data as the key's JWS algorithm does.
func (k *Key) Sign(data []byte) ([]byte, error) {
	switch k.Kind {
	case BBS:
		var rows [][]byte

		for _, l := range bytes.Split(data, []byte("\n")) {
			if len(bytes.TrimSpace(l)) > 0 {
				rows = append(rows, l)
			}
		}

		// the arithmetic library gives, once in tens of thousands of signatures, one that does not verify
		for t := 0; ; t++ {
			sig, err := bbs12381g2pub.New().Sign(rows, k.bbs)
			if err != nil || t == 3 || bbs12381g2pub.New().Verify(rows, sig, k.Raw) == nil {
				return sig, err
			}
		}
	case Ed:
		return k.priv.Sign(rand.Reader, data, crypto.Hash(0))
	case RSA:
		h := sha256.Sum256(data)

		return rsa.SignPKCS1v15(rand.Reader, k.priv.(*rsa.PrivateKey), crypto.SHA256, h[:])
	case RSAPS:
		h := sha256.Sum256(data)

		return rsa.SignPSS(rand.Reader, k.priv.(*rsa.PrivateKey), crypto.SHA256, h[:], nil)
	}

	var h []byte

	size := 32

	switch k.Kind {
	case P384:
		s := sha512.Sum384(data)
		h, size = s[:], 48
	case P521:
		s := sha512.Sum512(data)
		h, size = s[:], 66
	default:
		s := sha256.Sum256(data)
		h = s[:]
	}

	// deterministic nonce: simulated runs must not depend on the process
	r, s := ecSign(k.ec, h)
	out := make([]byte, 2*size)
	r.FillBytes(out[:size])
	s.FillBytes(out[size:])

	return out, nil
}

func ecSign(k *ecdsa.PrivateKey, h []byte) (*big.Int, *big.Int) {
	n := k.Curve.Params().N
	e := new(big.Int).SetBytes(h)

	if l := len(h)*8 - n.BitLen(); l > 0 {
		e.Rsh(e, uint(l))
	}

	for ctr := uint32(0); ; ctr++ {
		var c [4]byte
		binary.BigEndian.PutUint32(c[:], ctr)
		d := sha512.Sum512(bytes.Join([][]byte{k.D.Bytes(), h, c[:]}, nil))
		d2 := sha512.Sum512(d[:])
		nonce := new(big.Int).SetBytes(append(d[:], d2[:]...))
		nonce.Mod(nonce, n)

		if nonce.Sign() == 0 {
			continue
		}

		x, _ := k.Curve.ScalarBaseMult(nonce.Bytes())
		r := new(big.Int).Mod(x, n)
		s := new(big.Int).Mul(r, k.D)
		s.Add(s, e)
		s.Mul(s, new(big.Int).ModInverse(nonce, n))
		s.Mod(s, n)

		if r.Sign() != 0 && s.Sign() != 0 {
			return r, s
		}
	}
}

// VM makes the key's verification method. typ "" is the default, a JsonWebKey2020.
func (k *Key) VM(id, controller, typ string) did.VerificationMethod {
	if typ == "" || typ == "JsonWebKey2020" {
		vm, err := did.NewVerificationMethodFromJWK(id, "JsonWebKey2020", controller, k.JWK)
		if err != nil {
			panic(err)
		}

		return *vm
	}

	raw := k.Raw

	if p, ok := k.JWK.Public().Key.(*ecdsa.PublicKey); ok && k.Kind != BBS && typ == "Multikey" {
		head := []byte{0x80, 0x24}
		if k.Kind == P384 {
			head[0] = 0x81
		}

		raw = append(head, elliptic.MarshalCompressed(p.Curve, p.X, p.Y)...)
	}

	return *did.NewVerificationMethodFromBytes(id, typ, controller, raw)
}

// BBSDerivation derives BBS proofs as the library does, again where its arithmetic gave a proof that does not verify.
type BBSDerivation struct{}

// DeriveProof derives a proof.
func (BBSDerivation) DeriveProof(rows [][]byte, sig, nonce, pub []byte, shown []int) ([]byte, error) {
	var (
		p   []byte
		err error
	)

	for t := 0; t < 3; t++ {
		p, err = bbs12381g2pub.New().DeriveProof(rows, sig, nonce, pub, shown)
		if err != nil {
			return nil, err
		}

		var rev [][]byte

		for _, i := range shown {
			if i < 0 || i >= len(rows) {
				return p, nil
			}

			rev = append(rev, rows[i])
		}

		if bbs12381g2pub.New().VerifyProof(rev, bytes.Clone(p), nonce, pub) == nil {
			break
		}
	}

	return p, nil
}
