package h

import (
	"bytes"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"math/big"
	"net"
	"net/url"

	"gmharness/sym"

	"github.com/ZZMarquis/gm/sm2"
	"github.com/ZZMarquis/gm/sm2/cert"
)

// splitSigned takes a signed structure apart.
func splitSigned(der []byte) (tbs, sig []byte, ok bool) {
	body, rest, ok := derElem(der, 0x30)
	if !ok || len(rest) != 0 {
		return nil, nil, false
	}
	inner, rest, ok := derElem(body, 0x30)
	if !ok {
		return nil, nil, false
	}
	tbs = body[:len(body)-len(rest)]
	_ = inner
	alg := derSeq(derOID(algSM3SM2...))
	if !bytes.HasPrefix(rest, alg) {
		return nil, nil, false
	}
	s, rest, ok := derElem(rest[len(alg):], 3)
	if !ok || len(rest) != 0 || len(s) == 0 || s[0] != 0 {
		return nil, nil, false
	}
	return tbs, s[1:], true
}

// sigRS reads the two numbers of a signature string.
func sigRS(sig []byte) (r, s *big.Int, ok bool) {
	seq, rest, ok := derElem(sig, 0x30)
	if !ok || len(rest) != 0 {
		return nil, nil, false
	}
	a, seq, ok := derInt(seq)
	if !ok || a[0] >= 0x80 {
		return nil, nil, false
	}
	b, seq, ok := derInt(seq)
	if !ok || b[0] >= 0x80 || len(seq) != 0 {
		return nil, nil, false
	}
	return new(big.Int).SetBytes(a), new(big.Int).SetBytes(b), true
}

func extsEq(a, b []pkix.Extension, msg string) {
	sym.Assert(len(a) == len(b), msg+": count")
	if len(a) != len(b) {
		return
	}
	for i := range a {
		sym.Assert(oidEq(a[i].Id, b[i].Id), msg+": id")
		sym.Assert(a[i].Critical == b[i].Critical, msg+": critical")
		sym.Assert(bytes.Equal(a[i].Value, b[i].Value), msg+": value")
	}
}

var oidSAN = asn1.ObjectIdentifier{2, 5, 29, 17}

// ---- C31 ----

// Two requests in a row: for two keys with the same x coordinate, or the same
// key and other names; what the first parse returned stays as it was.
func C31_Twice() {
	stdOnly()
	sym.StubSM3()
	sym.Bound("C31_Twice: two requests in a row for any key d and n-d or d again (public keys with full-width coordinates), with names of one letter, parsed one after the other")
	c := sm2.GetSm2P256V1()
	priv, pub := keyPair("d", c)
	fullWidth(-1, pub)
	priv2, pub2 := priv, pub
	if sym.Choose("second key", 2) == 1 {
		sym.Assume(priv.D.Cmp(one) > 0) // n-1 is not a private key
		priv2 = &sm2.PrivateKey{D: new(big.Int).Sub(c.N, priv.D), Curve: c}
		pub2 = &sm2.PublicKey{X: new(big.Int).Set(pub.X), Y: new(big.Int).Sub(c.P, pub.Y), Curve: c}
		fullWidth(-1, pub2)
	}
	var first *x509.CertificateRequest
	for i := 0; i < 2; i++ {
		k, p := priv, pub
		if i == 1 {
			k, p = priv2, pub2
		}
		t := &x509.CertificateRequest{Subject: cnOf(letters("cn", 1)), DNSNames: []string{letters("dns", 1)}}
		var der []byte
		var err error
		if !sym.NoPanic("CreateCertificateRequest", func() {
			withRand(&rnd{failAt: -1, max: 1}, func() { der, err = cert.CreateCertificateRequest(t, p, k, nil) })
		}) {
			return
		}
		sym.Assert(err == nil, "the request is created")
		if err != nil {
			return
		}
		tbs, sig, ok := splitSigned(der)
		sym.Assert(ok, "a request with the SM3-with-SM2 algorithm")
		if !ok {
			return
		}
		if len(sig) != 70 {
			sym.Stop()
		}
		q, err, ok := parseReq(der)
		if !ok {
			return
		}
		sym.Assert(err == nil, "the created request is accepted by the parser")
		if err != nil {
			return
		}
		pk, is := q.PublicKey.(*sm2.PublicKey)
		sym.Assert(is, "the key is an SM2 public key")
		if !is {
			return
		}
		sym.Assert(pk.X.Cmp(p.X) == 0 && pk.Y.Cmp(p.Y) == 0, "public key")
		sym.Assert(bytes.Equal(q.RawTBSCertificateRequest, tbs), "parsed bytes")
		sym.Assert(q.Subject.CommonName == t.Subject.CommonName && strsEq(q.DNSNames, t.DNSNames), "names")
		if i == 0 {
			first = q
			sym.Freeze("the first request", first)
		} else {
			sym.Reach("second request")
		}
	}
	sym.Unfreeze()
}

// Requests with other attributes around the extension request.
func C31_Attributes() {
	stdOnly()
	sym.StubSM3()
	sym.Bound("C31_Attributes: parsed requests with an extension request (alternative names with one DNS name of 0..2 arbitrary ASCII bytes, an unknown extension of 2 arbitrary bytes) and, before or after it, an attribute with a string value of 0..2 arbitrary bytes, an empty set, two values, a set of sets, or a value of any tag; one or two extension requests")
	name := ascii("dns", sym.Choose("dns", 3))
	v := sym.Bytes("value", 2)
	x1 := asn1.ObjectIdentifier{1, 2, 3}
	var odd []byte
	oddID := derOID(1, 2, 840, 113549, 1, 9, 7)
	switch sym.Choose("attribute", 6) {
	case 1:
		odd = derSeq(oddID, derWrap(0x31, derWrap(0x13, []byte(letters("pw", sym.Choose("length", 3))))))
	case 2:
		odd = derSeq(oddID, derWrap(0x31, nil))
	case 3:
		odd = derSeq(oddID, derWrap(0x31, cat([]byte{2, 1, 1}, []byte{2, 1, 2})))
	case 4:
		odd = derSeq(oddID, derWrap(0x31, derSeq(derSeq(derOID(1, 2, 3), []byte{5, 0}))))
	case 5:
		tag := sym.Byte("tag")
		sym.Assume(tag&0x1f != 0x1f && tag&0x20 == 0)
		sym.Assume(tag != 1 && tag != 2 && tag != 6 && tag != 10 && tag < 0x80)
		odd = derSeq(oddID, derWrap(0x31, cat([]byte{tag, 1, 'A'})))
	}
	sanExt := derExt(derOID(2, 5, 29, 17), false, derSeq(derWrap(0x82, []byte(name))))
	x1Ext := derExt(derOID(1, 2, 3), false, v)
	want := []pkix.Extension{{Id: oidSAN, Value: derSeq(derWrap(0x82, []byte(name)))}, {Id: x1, Value: v}}
	reqs := derExtReq(sanExt, x1Ext)
	if sym.Choose("split", 2) == 1 {
		reqs = cat(derExtReq(sanExt), derExtReq(x1Ext))
	}
	p := baseParts()
	switch sym.Choose("order", 2) {
	case 0:
		p.exts = cat(odd, reqs)
	case 1:
		p.exts = cat(reqs, odd)
	}
	q, err, ok := parseReq(p.req())
	if !ok {
		return
	}
	sym.Assert(err == nil, "the request is accepted")
	if err != nil {
		return
	}
	sym.Reach("request")
	extsEq(q.Extensions, want, "requested extensions")
	sym.Assert(strsEq(q.DNSNames, []string{name}), "DNSNames")
	sym.Assert(len(q.EmailAddresses)+len(q.IPAddresses)+len(q.URIs) == 0, "no other names")
}

const reqBound = "all key pairs; four shapes: id absent and a common name of one letter; id of 16 bytes, two DNS names, a mail address, a 4- and a 16-byte address and a URI; id of 1 byte, a raw subject and a DNS name; empty id and two explicit extensions; ASCII names and other contents arbitrary"

func C31_Create() {
	stdOnly()
	sym.StubSM3()
	sym.Bound("C31_Create: " + reqBound + "; first signing attempt, signature numbers of 32 bytes with a clear top bit (for the absent id: of 31 or 32 bytes)")
	c := sm2.GetSm2P256V1()
	priv, pub := keyPair("d", c)
	fullWidth(-1, pub)
	var id []byte
	plain := false // all signature shapes
	t := new(x509.CertificateRequest)
	want := new(x509.CertificateRequest)
	switch sym.Choose("shape", 4) {
	case 0:
		plain = true
		t.Subject = cnOf(letters("cn", 1))
		want.Subject = t.Subject
	case 1:
		id = sym.Bytes("uid", 16)
		t.DNSNames = []string{ascii("dns", 2), ascii("dns", 1)}
		t.EmailAddresses = []string{ascii("mail", 3)}
		a := net.IP(sym.Bytes("ip", 16))
		sym.Assume(a[0] != 0)
		t.IPAddresses = []net.IP{sym.Bytes("ip", 4), a}
		t.URIs = []*url.URL{mustURL(uriList[0])}
		want.DNSNames, want.EmailAddresses, want.IPAddresses, want.URIs = t.DNSNames, t.EmailAddresses, t.IPAddresses, t.URIs
	case 2:
		id = sym.Bytes("uid", 1)
		t.DNSNames = []string{ascii("dns", 1)}
		want.DNSNames = t.DNSNames
		t.RawSubject = derName([]byte("raw"))
		want.Subject = cnOf("raw")
	case 3:
		id = []byte{}
		t.Subject = cnOf("x")
		want.Subject = t.Subject
		t.ExtraExtensions = []pkix.Extension{{Id: asn1.ObjectIdentifier{1, 2, 3, int(sym.Byte("arc") & 0x7f)}, Value: sym.Bytes("value", 3)},
			{Id: asn1.ObjectIdentifier{2, 5, 29, 15}, Value: []byte{}}}
		want.Extensions = t.ExtraExtensions
	}
	sym.Freeze("the template and the key", t, priv, pub)
	var der []byte
	var err error
	r := &rnd{failAt: -1, max: 1}
	if !sym.NoPanic("CreateCertificateRequest", func() {
		withRand(r, func() { der, err = cert.CreateCertificateRequest(t, pub, priv, id) })
	}) {
		return
	}
	sym.Unfreeze()
	sym.Assert(err == nil, "the request is created")
	if err != nil {
		return
	}
	tbs, sig, ok := splitSigned(der)
	sym.Assert(ok, "a request with the SM3-with-SM2 algorithm")
	if !ok {
		return
	}
	sr, ss, ok := sigRS(sig)
	sym.Assert(ok, "the signature is a sequence of two numbers")
	if !ok {
		return
	}
	if !plain && len(sig) != 70 {
		sym.Stop()
	}
	sym.Assert(specVerify(c, pub.X, pub.Y, specE(c, pub.X, pub.Y, id, tbs), sr, ss), "the signature is valid for the to-be-signed bytes")
	q, err, ok := parseReq(der)
	if !ok {
		return
	}
	sym.Assert(err == nil, "the created request is accepted by the parser")
	if err != nil {
		return
	}
	sym.Reach("request")
	sym.Assert(bytes.Equal(q.Raw, der) && bytes.Equal(q.RawTBSCertificateRequest, tbs) && bytes.Equal(q.Signature, sig), "parsed bytes")
	if len(t.RawSubject) > 0 {
		sym.Assert(bytes.Equal(q.RawSubject, t.RawSubject), "raw subject")
	}
	sameName(&q.Subject, &want.Subject)
	sym.Assert(strsEq(q.DNSNames, want.DNSNames), "DNSNames")
	sym.Assert(strsEq(q.EmailAddresses, want.EmailAddresses), "EmailAddresses")
	sym.Assert(ipsEq(q.IPAddresses, want.IPAddresses), "IPAddresses")
	sym.Assert(urisEq(q.URIs, want.URIs), "URIs")
	if len(want.DNSNames)+len(want.EmailAddresses)+len(want.IPAddresses)+len(want.URIs) == 0 {
		extsEq(q.Extensions, want.Extensions, "requested extensions")
	} else {
		sym.Assert(len(q.Extensions) == 1 && q.Extensions[0].Id.Equal(oidSAN), "one alternative-name extension")
	}
	pk, is := q.PublicKey.(*sm2.PublicKey)
	sym.Assert(is, "the key is an SM2 public key")
	if is {
		sym.Assert(pk.X.Cmp(pub.X) == 0 && pk.Y.Cmp(pub.Y) == 0, "public key")
	}
	ok = false
	if sym.NoPanic("VerifyCSRSign", func() { ok = cert.VerifyCSRSign(q, id) }) {
		sym.Assert(ok, "the request verifies with the id it was made with")
	}
	if sym.NoPanic("VerifyDERCSRSign", func() { ok, err = cert.VerifyDERCSRSign(der, id) }) {
		sym.Assert(ok && err == nil, "the encoded request verifies with the id it was made with")
	}
}

// Checking a request decides exactly the signature equation over its to-be-signed bytes.
func C31_Verify() {
	stdOnly()
	sym.StubSM3()
	sym.Bound("C31_Verify: requests with any public key, signed over their own or any other to-be-signed bytes, with the presented or another id, by the embedded or another key; or with arbitrary numbers; signature numbers of 32 bytes with a clear top bit")
	c := sm2.GetSm2P256V1()
	priv, pub := keyPair("d", c)
	fullWidth(-1, pub)
	id := userID(-1, 16)
	p := baseParts()
	p.subject = derName([]byte(ascii("cn", 1)))
	p.point = derPoint(pub.X, pub.Y)
	tbs := p.reqTBS()
	signed, sid, key := tbs, id, priv
	var sig []byte
	var err error
	k := sym.Choose("signature", 6)
	switch k {
	case 0: // its own signature
	case 1:
		sid = userID(16, 1)
	case 2:
		o := *p
		o.subject = derName([]byte(ascii("other", 1)))
		signed = o.reqTBS()
	case 3:
		key, _ = keyPair("other d", c)
	case 4:
		r, s := sym.Bytes("r", 32), sym.Bytes("s", 32)
		sym.Assume(r[0] > 0 && r[0] < 0x80 && s[0] > 0 && s[0] < 0x80)
		sig = derSeq(derWrap(2, r), derWrap(2, s))
	case 5:
		signed = p.spki()
	}
	if k != 4 {
		withRand(&rnd{failAt: -1, max: 1}, func() { sig, err = sm2.Sign(key, sid, signed) })
		if err != nil {
			sym.Stop()
		}
	}
	p.sig = derWrap(3, cat([]byte{0}, sig))
	r, s, ok := sigRS(sig)
	if !ok || len(sig) != 70 {
		sym.Stop()
	}
	der := p.req()
	got := false
	if !sym.NoPanic("VerifyDERCSRSign", func() { got, err = cert.VerifyDERCSRSign(der, id) }) {
		return
	}
	sym.Assert(err == nil, "a well-formed request is parsed")
	want := specVerify(c, pub.X, pub.Y, specE(c, pub.X, pub.Y, id, tbs), r, s)
	sym.Assert(got == want, "accepted exactly if the signature equation holds for the to-be-signed bytes, the embedded key and the id")
	if k == 0 {
		sym.Reach("own signature")
	}
}

// A request that does not hold an SM2 key does not verify.
func C31_ForeignKey() {
	stdOnly()
	sym.Bound("C31_ForeignKey: parsed or hand-made request values without key, with a key of another type or a nil key")
	var q x509.CertificateRequest
	q.RawTBSCertificateRequest, q.Signature = sym.Bytes("tbs", 3), fixedSig
	switch sym.Choose("key", 3) {
	case 1:
		q.PublicKey = &url.URL{}
	case 2:
		q.PublicKey = "key"
	}
	ok := true
	if sym.NoPanic("VerifyCSRSign", func() { ok = cert.VerifyCSRSign(&q, nil) }) {
		sym.Reach("checked")
		sym.Assert(!ok, "no SM2 key, no valid signature")
	}
}

// ---- C32 ----

var extArcs = [][]int{{2, 5, 29, 15}, {2, 5, 29, 37}, {2, 5, 29, 19}, {2, 5, 29, 14}, {2, 5, 29, 35}, {1, 3, 6, 1, 5, 5, 7, 1, 1}, {2, 5, 29, 17}, {2, 5, 29, 32}, {2, 5, 29, 30}, {2, 5, 29, 31}}

func fullTemplate() (tmpl, parent *x509.Certificate, csr *x509.CertificateRequest) {
	tmpl, parent, csr = baseTemplate()
	tmpl.KeyUsage = x509.KeyUsageCertSign | x509.KeyUsageDecipherOnly
	tmpl.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}
	tmpl.BasicConstraintsValid, tmpl.IsCA = true, true
	tmpl.SubjectKeyId, tmpl.AuthorityKeyId = []byte{1, 2}, []byte{3, 4}
	tmpl.OCSPServer = []string{"http://o"}
	tmpl.DNSNames = []string{"a.b"}
	tmpl.PolicyIdentifiers = []asn1.ObjectIdentifier{{1, 2, 3}}
	tmpl.PermittedDNSDomains = []string{"b"}
	tmpl.CRLDistributionPoints = []string{"http://c"}
	return
}

// noDerived removes the fields behind extension k.
func noDerived(t *x509.Certificate, k int) {
	switch k {
	case 0:
		t.KeyUsage = 0
	case 1:
		t.ExtKeyUsage = nil
	case 2:
		t.BasicConstraintsValid = false
	case 3:
		t.SubjectKeyId = nil
	case 4:
		t.AuthorityKeyId = nil
	case 5:
		t.OCSPServer = nil
	case 6:
		t.DNSNames = nil
	case 7:
		t.PolicyIdentifiers = nil
	case 8:
		t.PermittedDNSDomains = nil
	case 9:
		t.CRLDistributionPoints = nil
	}
}

func C32_Certificate() {
	stdOnly()
	sym.Bound("C32_Certificate: every template field set (with at most one explicit extension: or any one of them not), with no, one, any two or all of the ten extensions given explicitly, plus an unknown one before or after, with arbitrary contents of 3 bytes, any criticality for one explicit extension (thorough: two, in both orders)")
	tmpl, parent, csr := fullTemplate()
	plain, err := cert.CreateCertificateInfo(tmpl, parent, csr)
	if err != nil {
		sym.Assert(false, "the template is accepted")
		return
	}
	derived := plain.Extensions
	sym.Assert(len(derived) == 10, "ten derived extensions")
	var give []int
	switch sym.Choose("explicit", 4) {
	case 1:
		give = []int{sym.Choose("which", 10)}
	case 2:
		a, b := sym.Choose("first", 10), sym.Choose("second", 10)
		if a == b || a > b && !sym.Thorough() {
			sym.Stop()
		}
		give = []int{a, b}
	case 3:
		give = []int{9, 8, 7, 6, 5, 4, 3, 2, 1, 0}
	}
	missing := -1
	if len(give) < 2 && sym.Choose("one field not set", 2) == 1 {
		missing = sym.Choose("field", 10)
		noDerived(tmpl, missing)
	}
	var extra []pkix.Extension
	unknown := func() {
		extra = append(extra, pkix.Extension{Id: asn1.ObjectIdentifier{1, 2, 3, int(sym.Byte("arc") & 0x7f)}, Critical: sym.Bool("critical"), Value: sym.Bytes("value", 3)})
	}
	pos := 0
	if len(give) != 2 || sym.Thorough() {
		pos = sym.Choose("unknown extension", 3)
	}
	if pos == 1 {
		unknown()
	}
	for _, k := range give {
		crit := k%2 == 0
		if len(give) == 1 || sym.Thorough() && len(give) == 2 {
			crit = sym.Bool("critical")
		}
		extra = append(extra, pkix.Extension{Id: extArcs[k], Critical: crit, Value: sym.Bytes("value", 3)})
	}
	if pos == 2 {
		unknown()
	}
	tmpl.ExtraExtensions = extra
	sym.Freeze("the template", tmpl, parent, csr)
	var info *cert.TBSCertificate
	if !sym.NoPanic("CreateCertificateInfo", func() { info, err = cert.CreateCertificateInfo(tmpl, parent, csr) }) {
		return
	}
	sym.Unfreeze()
	sym.Assert(err == nil, "the template is accepted")
	if err != nil {
		return
	}
	sym.Reach("built")
	explicit := func(k int) bool {
		for _, g := range give {
			if g == k {
				return true
			}
		}
		return false
	}
	// exactly: the derived ones that are not explicit, and the explicit ones in order
	var exp []pkix.Extension
	i := 0
	for _, e := range info.Extensions {
		if i < len(extra) && e.Id.Equal(extra[i].Id) {
			exp = append(exp, e)
			i++
		}
	}
	extsEq(exp, extra, "explicit extensions in order")
	sym.Assert(len(info.Extensions) >= len(extra), "all explicit extensions")
	for k := range extArcs {
		n := 0
		for _, e := range info.Extensions {
			if e.Id.Equal(extArcs[k]) {
				n++
				if !explicit(k) {
					for _, d := range derived {
						if d.Id.Equal(extArcs[k]) {
							sym.Assert(d.Critical == e.Critical && bytes.Equal(d.Value, e.Value), "a derived extension does not depend on the explicit ones")
						}
					}
				}
			}
		}
		want := 1
		if k == missing && !explicit(k) {
			want = 0
		}
		sym.Assert(n == want, "each extension once")
	}
	tot := 10 + len(extra) - len(give)
	if missing >= 0 && !explicit(missing) {
		tot--
	}
	sym.Assert(len(info.Extensions) == tot, "no further extension")
}

// The same for requests, with the attribute merge.
func C32_Request() {
	stdOnly()
	sym.StubSM3()
	sym.Bound("C32_Request: with or without a derived alternative-name extension; 0..2 explicit extensions (alternative names, unknown); no attribute, an unrelated attribute, an extension-request attribute that is empty or holds the alternative names or another extension, an unrelated one before it, an unrelated one with an empty set, or two extension-request attributes; arbitrary contents of 2 bytes")
	d := big.NewInt(5)
	c := sm2.GetSm2P256V1()
	priv, pub := &sm2.PrivateKey{D: d, Curve: c}, pubOf(d, c)
	val := func() []byte { return derSeq(derWrap(0x82, []byte(ascii("dns", 2)))) }
	t := &x509.CertificateRequest{Subject: cnOf("x")}
	if sym.Choose("derived", 2) == 1 {
		t.DNSNames = []string{ascii("dns", 2)}
	}
	x1, x2 := asn1.ObjectIdentifier{1, 2, 3}, asn1.ObjectIdentifier{1, 2, 4}
	var extra []pkix.Extension
	switch sym.Choose("explicit", 5) {
	case 1:
		extra = []pkix.Extension{{Id: oidSAN, Value: val()}}
	case 2:
		extra = []pkix.Extension{{Id: x1, Value: sym.Bytes("v", 2)}}
	case 3:
		extra = []pkix.Extension{{Id: x1, Value: sym.Bytes("v", 2)}, {Id: oidSAN, Value: val()}}
	case 4:
		extra = []pkix.Extension{{Id: x1, Value: sym.Bytes("v", 2)}, {Id: x2, Value: sym.Bytes("v", 2)}}
	}
	t.ExtraExtensions = extra
	reqOID, otherOID := asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 14}, asn1.ObjectIdentifier{1, 2, 5}
	attr := func(id asn1.ObjectIdentifier, vs ...pkix.AttributeTypeAndValue) pkix.AttributeTypeAndValueSET {
		return pkix.AttributeTypeAndValueSET{Type: id, Value: [][]pkix.AttributeTypeAndValue{vs}}
	}
	sanAttr := pkix.AttributeTypeAndValue{Type: oidSAN, Value: val()}
	x1Attr := pkix.AttributeTypeAndValue{Type: x1, Value: sym.Bytes("v", 2)}
	other := attr(otherOID, pkix.AttributeTypeAndValue{Type: x1, Value: []byte{9}})
	var before, after []pkix.AttributeTypeAndValue // extensions already in the first and second extension-request attribute
	spare := sym.Choose("spare capacity", 2) == 1
	grow := func(a []pkix.AttributeTypeAndValue) []pkix.AttributeTypeAndValue {
		if spare {
			b := make([]pkix.AttributeTypeAndValue, len(a), len(a)+4)
			copy(b, a)
			return b
		}
		return a
	}
	switch sym.Choose("attributes", 10) {
	case 1:
		t.Attributes = []pkix.AttributeTypeAndValueSET{other}
	case 2:
		t.Attributes = []pkix.AttributeTypeAndValueSET{{Type: reqOID}}
	case 3:
		before = []pkix.AttributeTypeAndValue{sanAttr}
		t.Attributes = []pkix.AttributeTypeAndValueSET{attr(reqOID, grow(before)...)}
	case 4:
		before = []pkix.AttributeTypeAndValue{x1Attr}
		t.Attributes = []pkix.AttributeTypeAndValueSET{attr(reqOID, grow(before)...)}
	case 5:
		before = []pkix.AttributeTypeAndValue{sanAttr, x1Attr}
		t.Attributes = []pkix.AttributeTypeAndValueSET{other, attr(reqOID, grow(before)...)}
	case 6:
		before = []pkix.AttributeTypeAndValue{x1Attr}
		t.Attributes = []pkix.AttributeTypeAndValueSET{attr(reqOID, grow(before)...), other}
	case 7:
		t.Attributes = []pkix.AttributeTypeAndValueSET{{Type: otherOID}}
	case 8:
		before, after = []pkix.AttributeTypeAndValue{sanAttr}, []pkix.AttributeTypeAndValue{x1Attr}
		t.Attributes = []pkix.AttributeTypeAndValueSET{attr(reqOID, grow(before)...), attr(reqOID, grow(after)...)}
	case 9:
		before, after = []pkix.AttributeTypeAndValue{x1Attr}, []pkix.AttributeTypeAndValue{sanAttr}
		t.Attributes = []pkix.AttributeTypeAndValueSET{attr(reqOID, grow(before)...), other, attr(reqOID, grow(after)...)}
	}
	nattr := len(t.Attributes)
	sym.Freeze("the template", t)
	var der []byte
	var err error
	if !sym.NoPanic("CreateCertificateRequest", func() {
		withRand(&rnd{failAt: -1, max: 1}, func() { der, err = cert.CreateCertificateRequest(t, pub, priv, nil) })
	}) {
		return
	}
	sym.Unfreeze()
	sym.Assert(err == nil, "the request is created")
	if err != nil {
		return
	}
	q, err, ok := parseReq(der)
	if !ok {
		return
	}
	sym.Assert(err == nil, "the created request is accepted by the parser")
	if err != nil {
		return
	}
	sym.Reach("request")
	has := func(id asn1.ObjectIdentifier, l []pkix.Extension) bool {
		for _, e := range l {
			if e.Id.Equal(id) {
				return true
			}
		}
		return false
	}
	var want []pkix.Extension
	for _, a := range before {
		want = append(want, pkix.Extension{Id: a.Type, Value: a.Value.([]byte)})
	}
	inAttr := append([]pkix.Extension(nil), want...)
	for _, a := range after {
		inAttr = append(inAttr, pkix.Extension{Id: a.Type, Value: a.Value.([]byte)})
	}
	if t.DNSNames != nil && !has(oidSAN, extra) && !has(oidSAN, inAttr) {
		want = append(want, pkix.Extension{Id: oidSAN, Value: derSeq(derWrap(0x82, []byte(t.DNSNames[0])))})
	}
	for _, e := range extra {
		if !has(e.Id, inAttr) {
			want = append(want, e)
		}
	}
	want = append(want, inAttr[len(before):]...)
	extsEq(q.Extensions, want, "requested extensions")
	n := 0
	for _, a := range q.Attributes {
		if a.Type.Equal(reqOID) {
			n++
		} else {
			sym.Assert(a.Type.Equal(otherOID), "the unrelated attribute is kept")
		}
	}
	if before != nil {
		sym.Assert(n == 1 || after != nil && n == 2, "merged into the existing attribute")
		sym.Assert(len(q.Attributes) == nattr, "no attribute is added or lost")
	}
}

// ---- C34 ----

func C34_Issue() {
	stdOnly()
	sym.StubSM3()
	sym.Bound("C34_Issue: all CA keys, the id absent, empty or of 16 arbitrary bytes, to-be-signed information with any serial number 1..64 and any common name of one letter; first signing attempt, or a failing random source; signature numbers of 32 bytes with a clear top bit (for the absent id: of 31 or 32 bytes)")
	c := sm2.GetSm2P256V1()
	priv, pub := keyPair("d", c)
	id := userID(-1, 0, 16)
	tmpl, parent, csr := baseTemplate()
	tmpl.SerialNumber = big.NewInt(int64(sym.Byte("serial")&63) + 1)
	tmpl.Subject = cnOf(letters("cn", 1))
	info, err := cert.CreateCertificateInfo(tmpl, parent, csr)
	if err != nil {
		sym.Assert(false, "the template is accepted")
		return
	}
	r := &rnd{failAt: sym.Choose("failing read", 2) - 1, max: 1}
	var der []byte
	sym.Freeze("the information and the key", info, priv)
	if !sym.NoPanic("IssueCertificateBySoftCAKey", func() {
		withRand(r, func() { der, err = cert.IssueCertificateBySoftCAKey(info, priv, id) })
	}) {
		return
	}
	sym.Unfreeze()
	if r.failed {
		sym.Assert(err != nil && der == nil, "an error of the random source is returned")
		return
	}
	sym.Assert(err == nil, "the certificate is issued")
	if err != nil {
		return
	}
	tbs, sig, ok := splitSigned(der)
	sym.Assert(ok, "a certificate with the SM3-with-SM2 algorithm")
	if !ok {
		return
	}
	if id != nil && len(sig) != 70 {
		sym.Stop()
	}
	sym.Reach("issued")
	sym.Assert(bytes.Equal(tbs, info.Raw), "the to-be-signed bytes are those of the prepared information")
	sr, ss, ok := sigRS(sig)
	sym.Assert(ok, "the signature is a sequence of two numbers")
	if ok {
		sym.Assert(specVerify(c, pub.X, pub.Y, specE(c, pub.X, pub.Y, id, info.Raw), sr, ss), "the signature is valid for the CA key, the id and the to-be-signed bytes")
	}
}

func C34_Assemble() {
	stdOnly()
	sym.Bound("C34_Assemble: external signatures of 0, 1, 8, 64, 70, 72, 127, 128 and 300 arbitrary bytes")
	tmpl, parent, csr := baseTemplate()
	tmpl.Subject = cnOf(ascii("cn", sym.Choose("cn length", 4)))
	info, err := cert.CreateCertificateInfo(tmpl, parent, csr)
	if err != nil {
		sym.Assert(false, "the template is accepted")
		return
	}
	n := []int{0, 1, 8, 64, 70, 72, 127, 128, 300}[sym.Choose("signature length", 9)]
	sig := sym.Bytes("sig", n)
	sym.Freeze("the information and the signature", info, sig)
	var der []byte
	if !sym.NoPanic("CreateCertificate", func() { der, err = cert.CreateCertificate(info, sig) }) {
		return
	}
	sym.Unfreeze()
	sym.Assert(err == nil, "the certificate is assembled")
	if err != nil {
		return
	}
	sym.Reach("assembled")
	sym.Assert(bytes.Equal(der, derSeq(info.Raw, derSeq(derOID(algSM3SM2...)), derWrap(3, cat([]byte{0}, sig)))), "the certificate is the information, the algorithm and the signature")
	q, err, ok := parseCert(der)
	if !ok {
		return
	}
	sym.Assert(err == nil, "the parser accepts it")
	if err == nil {
		sym.Assert(bytes.Equal(q.RawTBSCertificate, info.Raw) && bytes.Equal(q.Signature, sig) && bytes.Equal(q.Raw, der), "parsing returns the same bytes")
	}
}

// ---- C35 ----

// anyOID is an OBJECT IDENTIFIER with arbitrary contents of nearly the length of the given one.
func anyOID(name string, arcs []int) (enc []byte, same bool) {
	good := derOID(arcs...)
	switch sym.Choose(name+" form", 4) {
	case 0:
		b := sym.Bytes(name, len(good)-2)
		return derWrap(6, b), bytes.Equal(b, good[2:])
	case 1:
		return derWrap(6, good[2:len(good)-1]), false
	case 2:
		return derWrap(6, cat(good[2:], sym.Bytes(name, 1))), false
	}
	b := cat(good)
	b[0] = sym.Byte(name)
	return b, b[0] == 6
}

func C35_Algorithms() {
	stdOnly()
	sym.Bound("C35_Algorithms: well-formed certificates and requests with the signature algorithm (outer and inner), key algorithm or curve identifier replaced by an identifier with arbitrary contents of the same length, one byte less or more, or another tag; algorithm parameters absent, NULL, of another type or with trailing bytes")
	p := baseParts()
	isCert := sym.Choose("kind", 2) == 0
	same := true
	switch sym.Choose("field", 6) {
	case 0:
		p.outer, same = anyOID("outer", algSM3SM2)
		p.outer = derSeq(p.outer)
	case 1:
		if !isCert {
			sym.Stop()
		}
		p.inner, same = anyOID("inner", algSM3SM2)
		p.inner = derSeq(p.inner)
	case 2:
		p.algo, same = anyOID("algorithm", algEC)
	case 3:
		p.param, same = anyOID("curve", curveSM2)
	case 4:
		same = false
		p.param = [][]byte{nil, {5, 0}, derSeq(derOID(curveSM2...)), derWrap(4, derOID(curveSM2...)), {6, 0}, {2, 1, 1}}[sym.Choose("parameters", 6)]
	case 5: // parameters of the signature algorithm are not looked at
		p.outer = derSeq(derOID(algSM3SM2...), []byte{5, 0})
	}
	var err error
	var ok, some bool
	if isCert {
		var c *x509.Certificate
		c, err, ok = parseCert(p.cert())
		some = c != nil
	} else {
		var c *x509.CertificateRequest
		c, err, ok = parseReq(p.req())
		some = c != nil
	}
	if !ok {
		return
	}
	sym.Reach("parsed")
	sym.Assert(some == (err == nil), "a value or an error")
	if same {
		sym.Reach("accepted")
		sym.Assert(err == nil, "the right algorithms are accepted")
	} else {
		sym.Assert(err != nil, "a foreign algorithm, key type or curve is refused")
	}
}

func C35_Point() {
	stdOnly()
	sym.Bound("C35_Point: key strings of 0, 1, 33, 64, 65, 66 and 129 bytes; of 65 bytes with any form byte and an arbitrary byte at any position of the generator, its negative, or all points of the curve with full-width coordinates; a coordinate not below p")
	p := baseParts()
	c := sm2.GetSm2P256V1()
	g := cat([]byte{4}, fix32(c.Gx), fix32(c.Gy))
	good := true
	switch sym.Choose("key", 6) {
	case 0:
		n := []int{0, 1, 33, 64, 66, 129}[sym.Choose("length", 6)]
		b := make([]byte, n)
		copy(b, g)
		if n > 0 {
			b[0] = sym.Byte("form")
			b[n-1] = sym.Byte("last")
		}
		g, good = b, false
	case 1:
		g[0] = sym.Byte("form")
		good = g[0] == 4
	case 2:
		i := 1 + sym.Choose("position", 64)
		old := g[i]
		g[i] = sym.Byte("byte")
		good = g[i] == old
		if i > 32 { // the same x: only the two roots fit, and -y differs in more than one byte
			break
		}
		x, y := new(big.Int).SetBytes(g[1:33]), new(big.Int).SetBytes(g[33:])
		good = c.IsOnCurve(x, y)
	case 3:
		copy(g[33:], fix32(new(big.Int).Sub(c.P, c.Gy)))
	case 4:
		d := sym.BigIn("d", one, new(big.Int).Sub(c.N, one))
		q := pubOf(d, c)
		fullWidth(-1, q)
		g = cat([]byte{4}, fix32(q.X), fix32(q.Y))
	case 5: // y + p would be the same residue, but is not a coordinate
		good = false
		if sym.Choose("which", 2) == 0 {
			copy(g[1:33], fix32(c.P))
		} else {
			copy(g[33:], bytes.Repeat([]byte{0xff}, 32))
		}
	}
	p.point = derWrap(3, cat([]byte{0}, g))
	var err error
	var ok bool
	var key any
	if sym.Choose("kind", 2) == 0 {
		var q *x509.Certificate
		if q, err, ok = parseCert(p.cert()); q != nil {
			key = q.PublicKey
		}
	} else {
		var q *x509.CertificateRequest
		if q, err, ok = parseReq(p.req()); q != nil {
			key = q.PublicKey
		}
	}
	if !ok {
		return
	}
	if !good {
		sym.Reach("refused")
		sym.Assert(err != nil, "a key that is not a point of the curve is refused")
		return
	}
	sym.Assert(err == nil, "a valid point is accepted")
	pk, is := key.(*sm2.PublicKey)
	sym.Assert(is, "the key is an SM2 public key")
	if is {
		sym.Reach("accepted")
		sym.Assert(pk.X.Cmp(new(big.Int).SetBytes(g[1:33])) == 0 && pk.Y.Cmp(new(big.Int).SetBytes(g[33:65])) == 0, "the key is the given point")
	}
}

// extValues are valid contents of the known extensions, in the order of extArcs.
func extValues() [][]byte {
	return [][]byte{
		{3, 2, 5, 0xa0},
		derSeq(derOID(1, 3, 6, 1, 5, 5, 7, 3, 1), derOID(1, 2, 3)),
		derSeq([]byte{1, 1, 0xff}, []byte{2, 1, 3}),
		derWrap(4, []byte{1, 2, 3}),
		derSeq(derWrap(0x80, []byte{4, 5})),
		derSeq(derSeq(derOID(1, 3, 6, 1, 5, 5, 7, 48, 1), derWrap(0x86, []byte("o"))), derSeq(derOID(1, 3, 6, 1, 5, 5, 7, 48, 2), derWrap(0x86, []byte("i")))),
		derSeq(derWrap(0x82, []byte("d.e")), derWrap(0x81, []byte("m@n")), derWrap(0x87, []byte{1, 2, 3, 4}), derWrap(0x86, []byte("http://h/p"))),
		derSeq(derSeq(derOID(1, 2, 3, 4))),
		derSeq(derWrap(0xa0, derSeq(derWrap(0x82, []byte(".a.b")))), derWrap(0xa1, cat(derSeq(derWrap(0x87, []byte{10, 0, 0, 0, 255, 0, 0, 0})), derSeq(derWrap(0x81, []byte("m@n"))), derSeq(derWrap(0x86, []byte("u")))))),
		derSeq(derSeq(derWrap(0xa0, derWrap(0xa0, derWrap(0x86, []byte("c")))))),
	}
}

func C35_Trailing() {
	stdOnly()
	sym.Bound("C35_Trailing: 1..3 arbitrary bytes after a certificate or request, or after the value of each of the ten known extensions (for requests: the alternative names)")
	p := baseParts()
	vals := extValues()
	isCert := sym.Choose("kind", 2) == 0
	extra := sym.Bytes("extra", 1+sym.Choose("count", 3))
	good := false
	switch k := sym.Choose("place", 12); k {
	case 10:
		p.tail = extra
	case 11:
		good = true
	default:
		if !isCert && k != 6 {
			sym.Stop()
		}
		vals[k] = cat(vals[k], extra)
	}
	var err error
	var ok bool
	if isCert {
		for i, v := range vals {
			p.exts = append(p.exts, derExt(derOID(extArcs[i]...), false, v)...)
		}
		_, err, ok = parseCert(p.cert())
	} else {
		p.exts = derExtReq(derExt(derOID(extArcs[6]...), false, vals[6]), derExt(derOID(extArcs[0]...), false, vals[0]))
		_, err, ok = parseReq(p.req())
	}
	if !ok {
		return
	}
	if good {
		sym.Reach("accepted")
		sym.Assert(err == nil, "without trailing bytes it is accepted")
	} else {
		sym.Reach("refused")
		sym.Assert(err != nil, "trailing bytes are refused")
	}
}

// ---- C36 ----

// specDomain: labels of printable non-space ASCII, none empty.
func specDomain(s []byte) bool {
	if len(s) == 0 {
		return true
	}
	ok := true
	for i, c := range s {
		ok = sym.And(ok, sym.And(c >= 33, c <= 126))
		ok = sym.And(ok, !sym.And(c == '.', i == 0 || i == len(s)-1))
		if i > 0 {
			ok = sym.And(ok, !sym.And(c == '.', s[i-1] == '.'))
		}
	}
	return ok
}

// specConstraintDomain: one leading period is allowed.
func specConstraintDomain(s []byte) bool {
	if len(s) > 0 && s[0] == '.' {
		s = s[1:]
	}
	return specDomain(s)
}

// constrained parses a certificate with one name constraint.
func constrained(tag byte, value []byte, excluded, crit bool) (c *x509.Certificate, err error, ok bool) {
	p := baseParts()
	k := byte(0xa0)
	if excluded {
		k = 0xa1
	}
	p.exts = derExt(derOID(2, 5, 29, 30), crit, derSeq(derWrap(k, derSeq(derWrap(tag, value)))))
	return parseCert(p.cert())
}

func judge(c *x509.Certificate, err error, valid bool, list func(c *x509.Certificate) []string, value []byte) {
	if !valid {
		sym.Reach("refused")
		sym.Assert(err != nil, "a malformed constraint is refused")
		return
	}
	sym.Reach("accepted")
	sym.Assert(err == nil, "a well-formed constraint is accepted")
	if err == nil {
		sym.Assert(strsEq(list(c), []string{string(value)}), "the constraint is reported as given")
		sym.Assert(len(c.UnhandledCriticalExtensions) == 0, "the extension is handled")
	}
}

func C36_Domain() {
	stdOnly()
	sym.Bound("C36_Domain: DNS constraints and mail constraints without @ of 0..5 (thorough 0..7) arbitrary bytes, permitted or excluded")
	max := 6
	if sym.Thorough() {
		max = 8
	}
	v := sym.Bytes("domain", sym.Choose("length", max))
	ex := sym.Choose("excluded", 2) == 1
	valid := specConstraintDomain(v)
	if sym.Choose("mail", 2) == 1 {
		for _, b := range v {
			sym.Assume(b != '@')
		}
		c, err, ok := constrained(0x81, v, ex, true)
		if ok {
			judge(c, err, valid, func(c *x509.Certificate) []string {
				if ex {
					return c.ExcludedEmailAddresses
				}
				return c.PermittedEmailAddresses
			}, v)
		}
		return
	}
	c, err, ok := constrained(0x82, v, ex, true)
	if ok {
		judge(c, err, valid, func(c *x509.Certificate) []string {
			if ex {
				return c.ExcludedDNSDomains
			}
			return c.PermittedDNSDomains
		}, v)
	}
}

var uriHosts = []string{"1.2.3.4", "::1", "1.2.3.", "1.2.3.256", "0:0:0:0:0:0:0:1", "::ffff:1.2.3.4", "255.255.255.255", "1.2.3.04", "fe80::1"}

func C36_URI() {
	stdOnly()
	sym.Bound("C36_URI: URI constraints of 0..4 arbitrary bytes, and IP addresses in text form with one arbitrary character at any position")
	var v []byte
	if k := sym.Choose("form", len(uriHosts)+1); k == 0 {
		max := 4
		if sym.Thorough() {
			max = 6
		}
		v = sym.Bytes("host", sym.Choose("length", max))
	} else {
		v = []byte(uriHosts[k-1])
		if i := sym.Choose("position", len(v)+1); i < len(v) {
			v[i] = sym.Byte("byte")
		}
	}
	valid := specConstraintDomain(v) && net.ParseIP(string(v)) == nil
	ex := sym.Choose("excluded", 2) == 1
	c, err, ok := constrained(0x86, v, ex, true)
	if ok {
		judge(c, err, valid, func(c *x509.Certificate) []string {
			if ex {
				return c.ExcludedURIDomains
			}
			return c.PermittedURIDomains
		}, v)
	}
}

func isAtext(c byte) bool {
	return c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || bytes.IndexByte([]byte("!#$%&'*+-/=?^_`{|}~"), c) >= 0
}

// specMailbox is the grammar of RFC 2821 mailboxes as the library documents it.
func specMailbox(s []byte) (ok, undecided bool) {
	for _, c := range s {
		if c >= 0x80 {
			return false, false
		}
	}
	i := 0
	if len(s) > 0 && s[0] == '"' {
		i = 1
		for {
			if i >= len(s) {
				return false, false
			}
			c := s[i]
			i++
			if c == '"' {
				break
			}
			if c == '\\' {
				if i >= len(s) {
					return false, false
				}
				c = s[i]
				i++
				if c == 0 || c == 10 || c == 13 {
					return false, false
				}
				continue
			}
			if c == 0 || c == 9 || c == 10 || c == 13 {
				return false, false
			}
		}
	} else {
		var local []byte
		for i < len(s) {
			c := s[i]
			if c == '\\' {
				i++
				if i >= len(s) {
					return false, false
				}
				local = append(local, s[i])
				i++
				continue
			}
			if !isAtext(c) && c != '.' {
				break
			}
			local = append(local, c)
			i++
		}
		if len(local) == 0 || local[0] == '.' || local[len(local)-1] == '.' {
			return false, false
		}
		for j := 1; j < len(local); j++ {
			if local[j] == '.' && local[j-1] == '.' {
				return false, false
			}
		}
	}
	if i >= len(s) || s[i] != '@' {
		return false, false
	}
	return specDomain(s[i+1:]), i+1 == len(s)
}

func C36_Mailbox() {
	stdOnly()
	sym.Bound("C36_Mailbox: mail constraints with an @: 0..2 (thorough 0..3) arbitrary bytes before \"@\" or quoted, 1..2 (3) arbitrary bytes after; a mailbox with nothing after the @ is not judged")
	var v []byte
	n := 3
	if sym.Thorough() {
		n = 4
	}
	switch sym.Choose("form", 4) {
	case 0:
		v = cat(sym.Bytes("local", sym.Choose("length", n)), []byte("@d"))
	case 1:
		v = cat([]byte("\""), sym.Bytes("local", sym.Choose("length", n)), []byte("\"@d"))
	case 2:
		v = cat([]byte("m@"), sym.Bytes("domain", 1+sym.Choose("length", n-1)))
	case 3:
		v = cat([]byte("a.b\\"), sym.Bytes("escaped", 1), []byte("c@"), sym.Bytes("domain", 1), []byte(".e"))
	}
	ex := v[0] == 'm' && sym.Choose("excluded", 2) == 1
	valid, skip := specMailbox(v)
	if skip {
		sym.Stop()
	}
	c, err, ok := constrained(0x81, v, ex, true)
	if ok {
		judge(c, err, valid, func(c *x509.Certificate) []string {
			if ex {
				return c.ExcludedEmailAddresses
			}
			return c.PermittedEmailAddresses
		}, v)
	}
}

func C36_Network() {
	stdOnly()
	sym.Bound("C36_Network: IP constraints of 0..9, 15..17, 31..33 and 64 arbitrary bytes")
	lens := []int{8, 32, 0, 1, 2, 3, 4, 5, 6, 7, 9, 15, 16, 17, 31, 33, 64}
	n := lens[sym.Choose("length", len(lens))]
	v := sym.Bytes("net", n)
	ex := sym.Choose("excluded", 2) == 1
	valid := n == 8 || n == 32
	if valid {
		ones := true // all bits so far are ones
		good := true
		for _, b := range v[n/2:] {
			for k := 7; k >= 0; k-- {
				bit := b>>uint(k)&1 == 1
				good = sym.And(good, sym.Or(ones, !bit))
				ones = sym.And(ones, bit)
			}
		}
		valid = good
	}
	c, err, ok := constrained(0x87, v, ex, true)
	if !ok {
		return
	}
	if !valid {
		sym.Reach("refused")
		sym.Assert(err != nil, "a malformed network is refused")
		return
	}
	sym.Reach("accepted")
	sym.Assert(err == nil, "a well-formed network is accepted")
	if err == nil {
		l := c.PermittedIPRanges
		if ex {
			l = c.ExcludedIPRanges
		}
		sym.Assert(netsEq(l, []*net.IPNet{{IP: v[:n/2], Mask: v[n/2:]}}), "the network is reported as given")
	}
}

func C36_Structure() {
	stdOnly()
	sym.Bound("C36_Structure: constraint extensions with no list, one or two empty lists, lists in the wrong order or repeated, junk of 1..2 arbitrary bytes in place of a subtree; two constraints of different kinds in one list, a malformed one after a well-formed one")
	d := derSeq(derWrap(0x82, []byte("a.b")))
	u := derSeq(derWrap(0x86, []byte("h")))
	bad := derSeq(derWrap(0x82, []byte("a..b")))
	var v []byte
	good := false
	switch sym.Choose("shape", 15) {
	case 0:
		v = derSeq()
	case 1:
		v = derSeq(derWrap(0xa0, nil))
	case 2:
		v = derSeq(derWrap(0xa1, nil))
	case 3:
		v = derSeq(derWrap(0xa0, nil), derWrap(0xa1, nil))
	case 4:
		v, good = derSeq(derWrap(0xa0, d), derWrap(0xa1, u)), true
	case 5:
		v = derSeq(derWrap(0xa1, u), derWrap(0xa0, d))
	case 6:
		v = derSeq(derWrap(0xa0, d), derWrap(0xa0, d))
	case 7:
		v = derSeq(derWrap(0xa0, sym.Bytes("junk", 1)))
	case 8:
		j := sym.Bytes("junk", 2)
		v = derSeq(derWrap(0xa0, cat(d, j)))
	case 9:
		v, good = derSeq(derWrap(0xa0, cat(d, u)), derWrap(0xa1, u)), true
		w := derSeq(derWrap(0xa0, d), derWrap(0xa1, u))
		v = w
	case 10:
		v = derSeq(derWrap(0xa0, cat(d, bad)))
	case 11:
		v = derSeq(derWrap(0xa0, d), derWrap(0xa1, cat(u, bad)))
	case 12:
		v = nil
	case 13:
		v = cat(derSeq(derWrap(0xa0, d), derWrap(0xa1, u)), sym.Bytes("junk", 1))
	case 14:
		v = derSeq(derWrap(0xa0, d), derWrap(0xa1, u), sym.Bytes("junk", 1))
	}
	p := baseParts()
	crit := sym.Bool("critical")
	p.exts = derExt(derOID(2, 5, 29, 30), crit, v)
	c, err, ok := parseCert(p.cert())
	if !ok {
		return
	}
	if !good {
		sym.Reach("refused")
		sym.Assert(err != nil, "a malformed constraint extension is refused")
		return
	}
	sym.Reach("accepted")
	sym.Assert(err == nil, "a well-formed constraint extension is accepted")
	if err == nil {
		want := &x509.Certificate{PermittedDNSDomains: []string{"a.b"}, ExcludedURIDomains: []string{"h"}, PermittedDNSDomainsCritical: crit}
		sameFields(c, want)
	}
}

// Alternative names in certificates and requests.
func C36_SAN() {
	stdOnly()
	sym.Bound("C36_SAN: IP alternative names of 0..5, 15..17 and 32 arbitrary bytes; URIs with an arbitrary byte at any position or 1..2 arbitrary bytes as host, from a list of shapes; DNS and mail names of 0..3 arbitrary bytes; names of other kinds before and after")
	var name []byte
	valid := true
	want := new(x509.Certificate)
	switch sym.Choose("kind of name", 3) {
	case 0:
		lens := []int{0, 1, 2, 3, 4, 5, 15, 16, 17, 32}
		n := lens[sym.Choose("length", len(lens))]
		b := sym.Bytes("ip", n)
		valid = n == 4 || n == 16
		name = derWrap(0x87, b)
		want.IPAddresses = []net.IP{b}
	case 1:
		var s []byte
		shapes := []string{"http://ab.c/x", "a://b.", "//[::1]/", "u:x"}
		if k := sym.Choose("shape", len(shapes)+1); k < len(shapes) {
			s = []byte(shapes[k])
			s[sym.Choose("position", len(s))] = sym.Byte("byte")
		} else {
			s = cat([]byte("h://"), sym.Bytes("host", 1+sym.Choose("host length", 2)), []byte("/"))
		}
		u, err := url.Parse(string(s))
		valid = err == nil
		if valid {
			valid = u.Host == "" || specDomain([]byte(u.Host))
			want.URIs = []*url.URL{u}
		}
		name = derWrap(0x86, s)
	case 2:
		b := sym.Bytes("name", sym.Choose("length", 4))
		if sym.Choose("mail", 2) == 1 {
			name = derWrap(0x81, b)
			want.EmailAddresses = []string{string(b)}
		} else {
			name = derWrap(0x82, b)
			want.DNSNames = []string{string(b)}
		}
	}
	switch sym.Choose("others", 3) {
	case 1:
		name = cat(derWrap(0x88, []byte{0x2a}), name)
	case 2:
		name = cat(name, derWrap(0x82, []byte("z")))
		want.DNSNames = append(want.DNSNames, "z")
	}
	p := baseParts()
	ext := derExt(derOID(2, 5, 29, 17), false, derSeq(name))
	if sym.Choose("request", 2) == 1 {
		p.exts = derExtReq(ext)
		q, err, ok := parseReq(p.req())
		if !ok {
			return
		}
		sym.Assert((err == nil) == valid, "a request is refused exactly for malformed alternative names")
		if err == nil && valid {
			sym.Reach("request")
			sym.Assert(strsEq(q.DNSNames, want.DNSNames), "DNSNames")
			sym.Assert(strsEq(q.EmailAddresses, want.EmailAddresses), "EmailAddresses")
			sym.Assert(ipsEq(q.IPAddresses, want.IPAddresses), "IPAddresses")
			sym.Assert(urisEq(q.URIs, want.URIs), "URIs")
		}
		return
	}
	p.exts = ext
	c, err, ok := parseCert(p.cert())
	if !ok {
		return
	}
	sym.Assert((err == nil) == valid, "a certificate is refused exactly for malformed alternative names")
	if err == nil && valid {
		sym.Reach("certificate")
		sameFields(c, want)
	}
}

// ---- C37 ----

func C37_Unhandled() {
	stdOnly()
	sym.Bound("C37_Unhandled: an extension 2.5.29.x with any x below 128 and any criticality, with contents valid for any of the known extensions; other identifiers of 3..9 arcs near the known ones; names of unsupported kinds; before or after a known critical extension")
	vals := extValues()
	p := baseParts()
	crit := sym.Bool("critical")
	handled := false
	var id asn1.ObjectIdentifier
	var enc, val []byte
	switch sym.Choose("id", 6) {
	case 0:
		x := int(sym.Byte("x") & 0x7f)
		id = asn1.ObjectIdentifier{2, 5, 29, x}
		enc = cat([]byte{6, 3, 0x55, 29}, []byte{byte(x)})
		k := sym.Choose("contents", len(vals))
		val = vals[k]
		if k != 6 {
			sym.Assume(x != 17) // foreign contents may hold nothing representable
		}
		if k != 8 {
			sym.Assume(x != 30)
		}
		for _, a := range extArcs {
			if len(a) == 4 {
				handled = sym.Or(handled, a[3] == x)
			}
		}
	case 1: // 2.5.a.b
		a, b := int(sym.Byte("a")&0x7f), int(sym.Byte("b")&0x7f)
		sym.Assume(a != 29)
		id = asn1.ObjectIdentifier{2, 5, a, b}
		enc = cat([]byte{6, 3, 0x55, byte(a), byte(b)})
		val = sym.Bytes("contents", 2)
	case 2: // c.d.29.e
		x, b := sym.Byte("cd"), int(sym.Byte("b")&0x7f)
		sym.Assume(x < 0x80 && x != 0x55)
		id = asn1.ObjectIdentifier{2, int(x) - 80, 29, b}
		if x < 40 {
			id[0], id[1] = 0, int(x)
		} else if x < 80 {
			id[0], id[1] = 1, int(x)-40
		}
		enc = cat([]byte{6, 3, x, 29, byte(b)})
		val = sym.Bytes("contents", 2)
	case 3: // one arc less or more
		if sym.Choose("longer", 2) == 1 {
			x := sym.Byte("x") & 0x7f
			k := extArcs[sym.Choose("known", len(extArcs))]
			id = append(append(asn1.ObjectIdentifier{}, k...), int(x))
		} else {
			id = asn1.ObjectIdentifier{2, 5, 29}
			if sym.Choose("aia", 2) == 1 {
				id = asn1.ObjectIdentifier{1, 3, 6, 1, 5, 5, 7, 1}
			}
		}
		enc = derOID(id...)
		val = sym.Bytes("contents", 2)
	case 4: // near the access-information identifier
		i := 2 + sym.Choose("position", 7)
		x := int(sym.Byte("x") & 0x7f)
		id = append(asn1.ObjectIdentifier{}, extArcs[5]...)
		handled = x == id[i]
		id[i] = x
		enc = cat([]byte{6, 8, 0x2b, 6, 1, 5, 5, 7, 1, 1})
		enc[1+i] = byte(x)
		val = vals[5]
	case 5: // known, but nothing the parser can represent
		switch sym.Choose("case", 4) {
		case 0:
			id, val = extArcs[6], derSeq(derWrap(0x88, []byte{0x2a}))
		case 1:
			id, val = extArcs[6], derSeq()
		case 2:
			tag := sym.Byte("tag")
			sym.Assume(tag != 0x81 && tag != 0x82 && tag != 0x86 && tag != 0x87 && tag&0x1f != 0x1f)
			id, val = extArcs[8], derSeq(derWrap(0xa0, derSeq(derWrap(tag, sym.Bytes("name", 1)))))
		case 3:
			id, val = extArcs[8], derSeq(derWrap(0xa0, derSeq(derWrap(0x82, []byte("a")))), derWrap(0xa1, cat(derSeq(derWrap(0x88, []byte{0x2a})), derSeq(derWrap(0x82, []byte("b"))))))
		}
		enc = derOID(id...)
	}
	e := derExt(enc, crit, val)
	other := derExt(derOID(2, 5, 29, 14), true, vals[3])
	at := 0
	n := 1
	switch sym.Choose("others", 3) {
	case 1:
		e, at, n = cat(other, e), 1, 2
	case 2:
		e, n = cat(e, other, derExt(derOID(1, 2, 3), true, nil)), 3
	}
	p.exts = e
	c, err, ok := parseCert(p.cert())
	if !ok || err != nil {
		return
	}
	sym.Reach("parsed")
	sym.Assert(len(c.Extensions) == n, "every extension is listed")
	if len(c.Extensions) != n {
		return
	}
	sym.Assert(oidEq(c.Extensions[at].Id, id) && c.Extensions[at].Critical == crit && bytes.Equal(c.Extensions[at].Value, val), "the extension is listed in order as encoded")
	var want []asn1.ObjectIdentifier
	if crit && !handled {
		want = append(want, id)
	}
	if n == 3 {
		want = append(want, asn1.ObjectIdentifier{1, 2, 3})
	}
	if len(want) > 0 {
		sym.Reach("unhandled")
	}
	sym.Assert(oidsEq(c.UnhandledCriticalExtensions, want), "the unhandled critical extensions")
}

// ---- C38 ----

// rich structures: every extension and name kind.
func richCert() []byte {
	p := baseParts()
	for i, v := range extValues() {
		p.exts = append(p.exts, derExt(derOID(extArcs[i]...), i%2 == 0, v)...)
	}
	p.exts = append(p.exts, derExt(derOID(1, 2, 3), true, []byte{1})...)
	return p.cert()
}

func richReq() []byte {
	p := baseParts()
	vals := extValues()
	p.exts = cat(derSeq(derOID(1, 2, 840, 113549, 1, 9, 7), derWrap(0x31, derWrap(0x13, []byte("pw")))),
		derExtReq(derExt(derOID(extArcs[6]...), false, vals[6]), derExt(derOID(extArcs[0]...), true, vals[0])))
	return p.req()
}

// anyParse runs the three entry points.
func anyParse(der []byte, isCert bool) {
	if isCert {
		c, err, ok := parseCert(der)
		if ok {
			sym.Assert((c != nil) == (err == nil), "a value or an error")
			sym.Reach("certificate")
			if err == nil {
				sym.Reach("accepted")
			}
		}
		return
	}
	c, err, ok := parseReq(der)
	if !ok {
		return
	}
	sym.Assert((c != nil) == (err == nil), "a value or an error")
	sym.Reach("request")
	if err == nil {
		sym.Reach("accepted")
		sym.NoPanic("VerifyCSRSign", func() { cert.VerifyCSRSign(c, nil) })
	}
}

func C38_Short() {
	stdOnly()
	sym.StubSM3()
	sym.Bound("C38_Short: all byte strings of 0..4 (thorough 0..6) bytes")
	n := 5
	if sym.Thorough() {
		n = 7
	}
	b := sym.Bytes("in", sym.Choose("length", n))
	anyParse(b, sym.Choose("kind", 2) == 0)
}

func C38_Window() {
	stdOnly()
	sym.StubSM3()
	sym.Bound("C38_Window: a certificate with every extension and name kind, and a request with attributes: an arbitrary byte (thorough: two adjacent arbitrary bytes) at any position")
	isCert := sym.Choose("kind", 2) == 0
	der := richReq()
	if isCert {
		der = richCert()
	}
	w := 1
	if sym.Thorough() {
		w = 2
	}
	i := sym.Choose("position", len(der)-w+1)
	copy(der[i:], sym.Bytes("window", w))
	anyParse(der, isCert)
}

// mutate replaces the k-th element, in order of appearance, by f of it; the
// lengths around it are adjusted. Elements inside octet strings count.
func mutate(der []byte, k *int, f func(elem []byte, tag byte, body []byte) []byte) []byte {
	var out []byte
	for len(der) > 0 {
		tag := der[0]
		body, rest, ok := derElem(der, tag)
		if !ok {
			return append(out, der...)
		}
		elem := der[:len(der)-len(rest)]
		*k--
		switch {
		case *k == -1:
			out = append(out, f(elem, tag, body)...)
		case *k >= 0 && (tag&0x20 != 0 || tag == 4 && oneElem(body)):
			out = append(out, derWrap(tag, mutate(body, k, f))...)
		default:
			out = append(out, elem...)
		}
		der = rest
	}
	return out
}

func oneElem(b []byte) bool {
	n := 0
	for len(b) > 0 {
		_, rest, ok := derElem(b, b[0])
		if !ok || b[0]&0x1f == 0 || b[0]&0xc0 == 0x40 {
			return false
		}
		b = rest
		n++
	}
	return n == 1
}

func elements(der []byte) int {
	k := 1 << 20
	mutate(der, &k, nil)
	return 1<<20 - k
}

// Well-formed nesting around one replaced element.
func C38_Element() {
	stdOnly()
	sym.StubSM3()
	sym.Bound("C38_Element: those structures with any one element (also inside extension values) removed, repeated, emptied, given any tag byte or the contents of 1..2 (thorough 1..3) arbitrary bytes, lengths adjusted")
	isCert := sym.Choose("kind", 2) == 0
	der := richReq()
	if isCert {
		der = richCert()
	}
	max := 6
	if sym.Thorough() {
		max = 7
	}
	how := sym.Choose("change", max)
	k := sym.Choose("element", elements(der))
	der = mutate(der, &k, func(elem []byte, tag byte, body []byte) []byte {
		switch how {
		case 0:
			return nil
		case 1:
			return cat(elem, elem)
		case 2:
			return []byte{tag, 0}
		case 3:
			return cat([]byte{sym.Byte("tag")}, elem[1:])
		}
		return derWrap(tag, sym.Bytes("contents", how-3))
	})
	anyParse(der, isCert)
}

func C38_Cut() {
	stdOnly()
	sym.StubSM3()
	sym.Bound("C38_Cut: every prefix of those structures, with an arbitrary last byte; and each extension value cut at any length with arbitrary last two bytes inside a well-formed certificate")
	isCert := sym.Choose("kind", 2) == 0
	if isCert && sym.Choose("inside", 2) == 1 {
		k := sym.Choose("extension", len(extArcs))
		v := extValues()[k]
		n := sym.Choose("length", len(v)+1)
		v = v[:n]
		for i := n - 2; i < n; i++ {
			if i >= 0 {
				v[i] = sym.Byte("byte")
			}
		}
		p := baseParts()
		p.exts = derExt(derOID(extArcs[k]...), sym.Bool("critical"), v)
		anyParse(p.cert(), true)
		return
	}
	der := richReq()
	if isCert {
		der = richCert()
	}
	n := sym.Choose("length", len(der))
	der = der[:n]
	if n > 0 {
		der[n-1] = sym.Byte("last")
	}
	anyParse(der, isCert)
}

// Arbitrary contents of the known extensions.
func C38_Contents() {
	stdOnly()
	sym.Bound("C38_Contents: each known extension (and the alternative names of a request) with 0..4 (thorough 0..6) arbitrary bytes as contents, alone or inside one sequence header")
	k := sym.Choose("extension", len(extArcs)+1)
	max := 5
	if sym.Thorough() {
		max = 7
	}
	v := sym.Bytes("contents", sym.Choose("length", max))
	if sym.Choose("in sequence", 2) == 1 {
		v = derSeq(v)
	}
	p := baseParts()
	if k == len(extArcs) {
		p.exts = derExtReq(derExt(derOID(extArcs[6]...), false, v))
		anyParse(p.req(), false)
		return
	}
	p.exts = derExt(derOID(extArcs[k]...), false, v)
	anyParse(p.cert(), true)
}
