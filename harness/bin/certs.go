package bin

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"io"
	"log"
	"math/big"
	"net"
	"os"
	"path/filepath"
	"time"
)

// Authority signs certificates; its file holds its own certificate.
type Authority struct {
	File string
	cert *x509.Certificate
	key  *ecdsa.PrivateKey
	dir  string
}

// Pair is a certificate and its key on disk.
type Pair struct {
	CRT, Key string
	DER      []byte
}

var serial int64 = 1

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func write(file, kind string, der []byte) {
	must(os.WriteFile(file, pem.EncodeToMemory(&pem.Block{Type: kind, Bytes: der}), 0o600))
}

func NewAuthority(dir, name string) *Authority {
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	must(err)
	serial++
	t := &x509.Certificate{SerialNumber: big.NewInt(serial), Subject: pkix.Name{CommonName: name}, NotBefore: time.Now().Add(-48 * time.Hour), NotAfter: time.Now().Add(48 * time.Hour),
		IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign | x509.KeyUsageDigitalSignature}
	der, err := x509.CreateCertificate(rand.Reader, t, t, &key.PublicKey, key)
	must(err)
	c, err := x509.ParseCertificate(der)
	must(err)
	a := &Authority{File: filepath.Join(dir, name+".crt"), cert: c, key: key, dir: dir}
	write(a.File, "CERTIFICATE", der)
	return a
}

// Leaf signs a certificate for the host.
func (a *Authority) Leaf(name, host string, from, to time.Duration, usage ...x509.ExtKeyUsage) Pair {
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	must(err)
	serial++
	t := &x509.Certificate{SerialNumber: big.NewInt(serial), Subject: pkix.Name{CommonName: name}, NotBefore: time.Now().Add(from), NotAfter: time.Now().Add(to),
		KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: usage}
	if ip := net.ParseIP(host); ip != nil {
		t.IPAddresses = []net.IP{ip}
	} else if host != "" {
		t.DNSNames = []string{host}
	}
	der, err := x509.CreateCertificate(rand.Reader, t, a.cert, &key.PublicKey, a.key)
	must(err)
	p := Pair{CRT: filepath.Join(a.dir, name+".crt"), Key: filepath.Join(a.dir, name+".key"), DER: der}
	write(p.CRT, "CERTIFICATE", der)
	kd, err := x509.MarshalECPrivateKey(key)
	must(err)
	write(p.Key, "EC PRIVATE KEY", kd)
	return p
}

func (p Pair) TLS() tls.Certificate {
	c, err := tls.LoadX509KeyPair(p.CRT, p.Key)
	must(err)
	return c
}

// Kit holds the certificates the scenarios choose from.
type Kit struct {
	Dir                                 string
	CA1, CA2, System                    *Authority
	Good, Expired, OtherHost, ByCA2     Pair // servers
	BySystem, NotYet                    Pair
	Client, ClientCA2, ClientOld, Multi Pair
	Garbage, Missing                    string
}

const day = 24 * time.Hour

// NewKit makes them in a directory of their own.
func NewKit() *Kit {
	dir, err := os.MkdirTemp("", "kit")
	must(err)
	k := &Kit{Dir: dir, CA1: NewAuthority(dir, "ca1"), CA2: NewAuthority(dir, "ca2"), System: NewAuthority(dir, "system")}
	s, c := x509.ExtKeyUsageServerAuth, x509.ExtKeyUsageClientAuth
	k.Good = k.CA1.Leaf("good", "127.0.0.1", -day, day, s)
	k.Expired = k.CA1.Leaf("expired", "127.0.0.1", -2*day, -day, s)
	k.NotYet = k.CA1.Leaf("notyet", "127.0.0.1", day, 2*day, s)
	k.OtherHost = k.CA1.Leaf("otherhost", "elsewhere.example", -day, day, s)
	k.ByCA2 = k.CA2.Leaf("byca2", "127.0.0.1", -day, day, s)
	k.BySystem = k.System.Leaf("bysystem", "127.0.0.1", -day, day, s)
	k.Client = k.CA1.Leaf("client", "", -day, day, c)
	k.Multi = k.CA1.Leaf("multi", "", -day, day, s, c)
	k.ClientCA2 = k.CA2.Leaf("client2", "", -day, day, c)
	k.ClientOld = k.CA1.Leaf("clientold", "", -2*day, -day, c)
	k.Garbage = filepath.Join(dir, "garbage")
	must(os.WriteFile(k.Garbage, []byte("-----BEGIN CERTIFICATE-----\nnothing\n"), 0o600))
	k.Missing = filepath.Join(dir, "missing")
	return k
}

func (k *Kit) Close() { os.RemoveAll(k.Dir) }

// pemOf is the encoded form of a certificate.
func pemOf(der []byte) []byte {
	return pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der})
}

var quietLog = log.New(io.Discard, "", 0)
