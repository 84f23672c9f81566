package h

import (
	"bytes"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"math/big"
	"net"

	"github.com/ZZMarquis/gm/sm2"
	"github.com/ZZMarquis/gm/sm2/cert"

	"gmharness/sym"
)

// wanted is what a request asks for.
type wanted struct {
	subject   pkix.Name
	dns, mail []string
	ips       []net.IP
	x, y      *big.Int
}

// anyRequest is a parsed request for the key p with one of several contents.
func anyRequest(i string, p *sm2.PublicKey) (q *x509.CertificateRequest, w wanted, ok bool) {
	parts := baseParts()
	parts.point = derPoint(p.X, p.Y)
	w.x, w.y = p.X, p.Y
	cn := ascii(i+"cn", 1)
	w.subject = pkix.Name{CommonName: cn}
	parts.subject = derName([]byte(cn))
	switch sym.Choose(i+" subject", 3) {
	case 1:
		o := letters(i+"o", 2)
		w.subject.Organization = []string{o, "second"}
		parts.subject = asn1Name(w.subject)
	case 2:
		w.subject = pkix.Name{}
		parts.subject = derSeq()
	}
	var names []byte
	k := sym.Choose(i+" names", 5)
	if k == 1 || k == 3 {
		n := ascii(i+"dns", 2)
		w.dns = []string{n, "other.example"}
		names = cat(derWrap(0x82, []byte(n)), derWrap(0x82, []byte("other.example")))
	}
	if k == 2 || k == 3 {
		m := ascii(i+"mail", 1)
		a := net.IP(sym.Bytes(i+"ip", 4))
		w.mail, w.ips = []string{m}, []net.IP{a}
		names = cat(names, derWrap(0x81, []byte(m)), derWrap(0x87, a))
	}
	if k == 4 {
		parts.exts = derExtReq(derExt(derOID(1, 2, 3), true, sym.Bytes(i+"value", 2)))
	} else if k > 0 {
		parts.exts = derExtReq(derExt(derOID(2, 5, 29, 17), false, derSeq(names)))
	}
	q, err, ok := parseReq(parts.req())
	if !ok {
		return
	}
	sym.Assert(err == nil, "the request is accepted")
	return q, w, err == nil
}

func C40_FromRequest() {
	stdOnly()
	sym.StubSM3()
	sym.Bound("C40_FromRequest: one template filled from one or two requests in a row, for any keys (full-width coordinates), with subjects of a common name of one arbitrary ASCII byte, with organisations or empty, and no names, DNS names, a mail address and an IP address, all of these, or an unknown extension; template with arbitrary key usages, serial 1..128 and key id; parent with and without key id")
	c := sm2.GetSm2P256V1()
	_, p1 := keyPair("d", c)
	_, p2 := keyPair("e", c)
	fullWidth(-1, p1, p2)
	tmpl, parent, _ := baseTemplate()
	tmpl.Subject = pkix.Name{}
	tmpl.SerialNumber = big.NewInt(int64(sym.Byte("serial")&127) + 1)
	tmpl.KeyUsage = x509.KeyUsage(sym.Byte("usage")&0x60) | x509.KeyUsageDigitalSignature
	tmpl.SubjectKeyId = sym.Bytes("skid", 2)
	aki := sym.Bytes("template aki", 1)
	tmpl.AuthorityKeyId = aki
	if sym.Choose("parent id", 2) == 1 {
		aki = sym.Bytes("parent skid", 3)
		parent.SubjectKeyId = aki
	}
	rounds := 1
	first := ""
	if len(parent.SubjectKeyId) > 0 && sym.Choose("two", 2) == 1 {
		rounds, first = 2, "first"
	}
	for i := 0; i < rounds; i++ {
		p, name := p1, "a"
		if i == 1 {
			p, name = p2, "b"
		}
		q, w, ok := anyRequest(name, p)
		if !ok {
			return
		}
		if i == 0 && first != "" && len(w.subject.Organization) == 0 && !sym.Thorough() {
			sym.Stop() // the first of two requests has every field
		}
		sym.Freeze("the request", q)
		if !sym.NoPanic("FillCertificateTemplateByCSR", func() { cert.FillCertificateTemplateByCSR(tmpl, q) }) {
			return
		}
		sym.Freeze("the parent", parent)
		var info *cert.TBSCertificate
		var der []byte
		var err error
		if !sym.NoPanic("CreateCertificateInfo", func() { info, err = cert.CreateCertificateInfo(tmpl, parent, q) }) {
			return
		}
		sym.Unfreeze()
		sym.Assert(err == nil, "the template is accepted")
		if err != nil {
			return
		}
		if !sym.NoPanic("CreateCertificate", func() { der, err = cert.CreateCertificate(info, []byte{0x30, 6, 2, 1, 1, 2, 1, 2}) }) {
			return
		}
		sym.Assert(err == nil, "the certificate is made")
		if err != nil {
			return
		}
		x, err, ok := parseCert(der)
		if !ok {
			return
		}
		sym.Assert(err == nil, "the certificate is accepted by the parser")
		if err != nil {
			return
		}
		sym.Reach("certificate")
		pk, is := x.PublicKey.(*sm2.PublicKey)
		sym.Assert(is, "the key is an SM2 public key")
		if is {
			sym.Assert(pk.X.Cmp(w.x) == 0 && pk.Y.Cmp(w.y) == 0, "the key of the request")
		}
		sameName(&x.Subject, &w.subject)
		sym.Assert(strsEq(x.DNSNames, w.dns), "the DNS names of the request")
		sym.Assert(strsEq(x.EmailAddresses, w.mail), "the mail addresses of the request")
		sym.Assert(ipsEq(x.IPAddresses, w.ips) && len(x.URIs) == 0, "the addresses of the request")
		sym.Assert(x.Issuer.CommonName == "ca", "the issuer is the parent's subject")
		sym.Assert(bytes.Equal(x.AuthorityKeyId, aki), "the authority key id")
		sym.Assert(bytes.Equal(x.SubjectKeyId, tmpl.SubjectKeyId) && x.KeyUsage == tmpl.KeyUsage, "key id and usage of the template")
		sym.Assert(x.SerialNumber.Cmp(tmpl.SerialNumber) == 0 && x.NotBefore.Equal(t0) && x.NotAfter.Equal(t1), "serial number and validity of the template")
		sans, crit := 0, false
		for _, e := range x.Extensions {
			if e.Id.Equal(asn1.ObjectIdentifier{2, 5, 29, 17}) {
				sans++
				crit = e.Critical
			}
		}
		if len(w.dns)+len(w.mail)+len(w.ips) == 0 {
			sym.Assert(sans == 0, "no alternative names")
		} else {
			sym.Assert(sans == 1, "one alternative-name extension")
			sym.Assert(crit == (len(w.subject.CommonName) == 0), "critical exactly when the subject is empty")
		}
	}
}
