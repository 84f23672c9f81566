package h

import (
	"bytes"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"math/big"
	"net"
	"net/url"
	"time"

	"gmharness/sym"

	"github.com/ZZMarquis/gm/sm2"
	"github.com/ZZMarquis/gm/sm2/cert"
)

// ---- C31-C38: certificate requests and certificates ----

// derOID writes an OBJECT IDENTIFIER.
func derOID(arcs ...int) []byte {
	var b []byte
	put := func(v int) {
		var t []byte
		for t = []byte{byte(v & 0x7f)}; v >= 0x80; {
			v >>= 7
			t = append([]byte{byte(v&0x7f) | 0x80}, t...)
		}
		b = append(b, t...)
	}
	put(arcs[0]*40 + arcs[1])
	for _, a := range arcs[2:] {
		put(a)
	}
	return derWrap(6, b)
}

func derSeq(bs ...[]byte) []byte { return derWrap(0x30, cat(bs...)) }

var (
	algSM3SM2 = []int{1, 2, 156, 10197, 1, 501}
	algEC     = []int{1, 2, 840, 10045, 2, 1}
	curveSM2  = []int{1, 2, 156, 10197, 1, 301}
)

// derName is a distinguished name with one common name.
func derName(cn []byte) []byte {
	return derSeq(derWrap(0x31, derSeq(derOID(2, 5, 4, 3), derWrap(0x0c, cn))))
}

func derPoint(x, y *big.Int) []byte {
	return derWrap(3, cat([]byte{0, 4}, fix32(x), fix32(y)))
}

// x509Parts are the encoded pieces of a certificate or request.
type x509Parts struct {
	version, serial, inner, issuer, validity, subject []byte
	algo, param, point                                []byte // subject public key
	exts                                              []byte // extension list contents, or the attributes
	outer, sig                                        []byte
	tail                                              []byte // after the structure
}

func baseParts() *x509Parts {
	g := sm2.GetSm2P256V1()
	return &x509Parts{
		version:  []byte{0xa0, 3, 2, 1, 2},
		serial:   []byte{2, 1, 77},
		inner:    derSeq(derOID(algSM3SM2...)),
		issuer:   derName([]byte("ca")),
		validity: derSeq(derWrap(0x17, []byte("200102030405Z")), derWrap(0x17, []byte("300102030405Z"))),
		subject:  derName([]byte("leaf")),
		algo:     derOID(algEC...),
		param:    derOID(curveSM2...),
		point:    derPoint(g.Gx, g.Gy),
		outer:    derSeq(derOID(algSM3SM2...)),
		sig:      derWrap(3, []byte{0, 0x30, 6, 2, 1, 1, 2, 1, 2}),
	}
}

func (p *x509Parts) spki() []byte { return derSeq(derSeq(p.algo, p.param), p.point) }

func (p *x509Parts) certTBS() []byte {
	e := p.exts
	if len(e) > 0 {
		e = derWrap(0xa3, derSeq(e))
	}
	return derSeq(p.version, p.serial, p.inner, p.issuer, p.validity, p.subject, p.spki(), e)
}

func (p *x509Parts) cert() []byte {
	return cat(derSeq(p.certTBS(), p.outer, p.sig), p.tail)
}

func (p *x509Parts) reqTBS() []byte {
	return derSeq([]byte{2, 1, 0}, p.subject, p.spki(), derWrap(0xa0, p.exts))
}

func (p *x509Parts) req() []byte {
	return cat(derSeq(p.reqTBS(), p.outer, p.sig), p.tail)
}

// derExt is one extension.
func derExt(id []byte, critical bool, value []byte) []byte {
	if critical {
		return derSeq(id, []byte{1, 1, 0xff}, derWrap(4, value))
	}
	return derSeq(id, derWrap(4, value))
}

// derExtReq is the extension request attribute of a request.
func derExtReq(exts ...[]byte) []byte {
	return derSeq(derOID(1, 2, 840, 113549, 1, 9, 14), derWrap(0x31, derSeq(exts...)))
}

func parseCert(der []byte) (c *x509.Certificate, err error, ok bool) {
	ok = sym.NoPanic("ParseCertificate", func() { c, err = cert.ParseCertificate(der) })
	return
}

func parseReq(der []byte) (c *x509.CertificateRequest, err error, ok bool) {
	ok = sym.NoPanic("ParseCertificateRequest", func() { c, err = cert.ParseCertificateRequest(der) })
	return
}

func strsEq(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = sym.And(ok, sym.BytesEq([]byte(a[i]), []byte(b[i])))
	}
	return ok
}

func ipsEq(a, b []net.IP) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = sym.And(ok, sym.BytesEq(a[i], b[i]))
	}
	return ok
}

func netsEq(a, b []*net.IPNet) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = sym.And(ok, sym.And(sym.BytesEq(a[i].IP, b[i].IP), sym.BytesEq(a[i].Mask, b[i].Mask)))
	}
	return ok
}

func urisEq(a, b []*url.URL) bool {
	var x, y []string
	for _, u := range a {
		x = append(x, u.String())
	}
	for _, u := range b {
		y = append(y, u.String())
	}
	return strsEq(x, y)
}

func oidEq(a, b asn1.ObjectIdentifier) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = sym.And(ok, a[i] == b[i])
	}
	return ok
}

func oidsEq(a, b []asn1.ObjectIdentifier) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = sym.And(ok, oidEq(a[i], b[i]))
	}
	return ok
}

func ekusEq(a, b []x509.ExtKeyUsage) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = sym.And(ok, a[i] == b[i])
	}
	return ok
}

// sameFields compares every extension field of a parsed certificate.
func sameFields(c, w *x509.Certificate) {
	sym.Assert(c.KeyUsage == w.KeyUsage, "KeyUsage")
	sym.Assert(ekusEq(c.ExtKeyUsage, w.ExtKeyUsage), "ExtKeyUsage")
	sym.Assert(oidsEq(c.UnknownExtKeyUsage, w.UnknownExtKeyUsage), "UnknownExtKeyUsage")
	sym.Assert(c.BasicConstraintsValid == w.BasicConstraintsValid, "BasicConstraintsValid")
	sym.Assert(c.IsCA == w.IsCA, "IsCA")
	sym.Assert(c.MaxPathLen == w.MaxPathLen, "MaxPathLen")
	sym.Assert(c.MaxPathLenZero == w.MaxPathLenZero, "MaxPathLenZero")
	sym.Assert(bytes.Equal(c.SubjectKeyId, w.SubjectKeyId), "SubjectKeyId")
	sym.Assert(bytes.Equal(c.AuthorityKeyId, w.AuthorityKeyId), "AuthorityKeyId")
	sym.Assert(strsEq(c.OCSPServer, w.OCSPServer), "OCSPServer")
	sym.Assert(strsEq(c.IssuingCertificateURL, w.IssuingCertificateURL), "IssuingCertificateURL")
	sym.Assert(strsEq(c.DNSNames, w.DNSNames), "DNSNames")
	sym.Assert(strsEq(c.EmailAddresses, w.EmailAddresses), "EmailAddresses")
	sym.Assert(ipsEq(c.IPAddresses, w.IPAddresses), "IPAddresses")
	sym.Assert(urisEq(c.URIs, w.URIs), "URIs")
	sym.Assert(oidsEq(c.PolicyIdentifiers, w.PolicyIdentifiers), "PolicyIdentifiers")
	sym.Assert(strsEq(c.PermittedDNSDomains, w.PermittedDNSDomains), "PermittedDNSDomains")
	sym.Assert(strsEq(c.ExcludedDNSDomains, w.ExcludedDNSDomains), "ExcludedDNSDomains")
	sym.Assert(netsEq(c.PermittedIPRanges, w.PermittedIPRanges), "PermittedIPRanges")
	sym.Assert(netsEq(c.ExcludedIPRanges, w.ExcludedIPRanges), "ExcludedIPRanges")
	sym.Assert(strsEq(c.PermittedEmailAddresses, w.PermittedEmailAddresses), "PermittedEmailAddresses")
	sym.Assert(strsEq(c.ExcludedEmailAddresses, w.ExcludedEmailAddresses), "ExcludedEmailAddresses")
	sym.Assert(strsEq(c.PermittedURIDomains, w.PermittedURIDomains), "PermittedURIDomains")
	sym.Assert(strsEq(c.ExcludedURIDomains, w.ExcludedURIDomains), "ExcludedURIDomains")
	sym.Assert(c.PermittedDNSDomainsCritical == w.PermittedDNSDomainsCritical, "PermittedDNSDomainsCritical")
	sym.Assert(strsEq(c.CRLDistributionPoints, w.CRLDistributionPoints), "CRLDistributionPoints")
	sym.Assert(len(c.UnhandledCriticalExtensions) == len(w.UnhandledCriticalExtensions), "UnhandledCriticalExtensions")
}

var (
	t0 = time.Date(2020, 1, 2, 3, 4, 5, 0, time.UTC)
	t1 = time.Date(2030, 1, 2, 3, 4, 5, 0, time.UTC)
)

func cnOf(s string) pkix.Name { return pkix.Name{CommonName: s} }

// baseTemplate is a template with only the mandatory fields, its parent and the request.
func baseTemplate() (tmpl, parent *x509.Certificate, csr *x509.CertificateRequest) {
	tmpl = &x509.Certificate{SerialNumber: big.NewInt(77), Subject: cnOf("leaf"), NotBefore: t0, NotAfter: t1}
	parent = &x509.Certificate{Subject: cnOf("ca")}
	csr = &x509.CertificateRequest{RawSubjectPublicKeyInfo: baseParts().spki()}
	return
}

var fixedSig = []byte{0x30, 6, 2, 1, 1, 2, 1, 2}

// issue builds the certificate with a given signature string and parses it.
func issue(tmpl, parent *x509.Certificate, csr *x509.CertificateRequest) (c *x509.Certificate, ok bool) {
	var info *cert.TBSCertificate
	var err error
	sym.Freeze("the template", tmpl, parent, csr)
	if !sym.NoPanic("CreateCertificateInfo", func() { info, err = cert.CreateCertificateInfo(tmpl, parent, csr) }) {
		return nil, false
	}
	sym.Assert(err == nil, "the template is accepted")
	if err != nil {
		return nil, false
	}
	var der []byte
	if !sym.NoPanic("CreateCertificate", func() { der, err = cert.CreateCertificate(info, fixedSig) }) {
		return nil, false
	}
	sym.Unfreeze()
	sym.Assert(err == nil, "the certificate is assembled")
	if err != nil {
		return nil, false
	}
	c, err, ok = parseCert(der)
	if !ok {
		return nil, false
	}
	sym.Assert(err == nil, "the issued certificate is accepted by the parser")
	if err != nil {
		return nil, false
	}
	sym.Assert(bytes.Equal(c.RawTBSCertificate, info.Raw), "the to-be-signed bytes are those of the prepared information")
	return c, true
}

// critical says whether the certificate has the extension and whether it is critical.
func critical(c *x509.Certificate, id ...int) (n int, crit bool) {
	for _, e := range c.Extensions {
		if e.Id.Equal(id) {
			n++
			crit = e.Critical
		}
	}
	return
}

func wantExt(c *x509.Certificate, crit bool, id ...int) {
	n, k := critical(c, id...)
	sym.Assert(n == 1, "the extension occurs once")
	sym.Assert(k == crit, "criticality")
	sym.Assert(len(c.Extensions) == 1, "no other extension")
}

func ascii(name string, n int) string {
	b := sym.Bytes(name, n)
	for _, c := range b {
		sym.Assume(c < 0x80)
	}
	return string(b)
}

func strList(name string, max int) (r []string) {
	n := sym.Choose(name+" count", max+1)
	for i := 0; i < n; i++ {
		r = append(r, ascii(name, sym.Choose(name+" length", 4)))
	}
	return
}

var ekuArcs = [][]int{{2, 5, 29, 37, 0}, {1, 3, 6, 1, 5, 5, 7, 3, 1}, {1, 3, 6, 1, 5, 5, 7, 3, 2}, {1, 3, 6, 1, 5, 5, 7, 3, 3}, {1, 3, 6, 1, 5, 5, 7, 3, 4},
	{1, 3, 6, 1, 5, 5, 7, 3, 5}, {1, 3, 6, 1, 5, 5, 7, 3, 6}, {1, 3, 6, 1, 5, 5, 7, 3, 7}, {1, 3, 6, 1, 5, 5, 7, 3, 8}, {1, 3, 6, 1, 5, 5, 7, 3, 9},
	{1, 3, 6, 1, 4, 1, 311, 10, 3, 3}, {2, 16, 840, 1, 113730, 4, 1}, {1, 3, 6, 1, 4, 1, 311, 2, 1, 22}, {1, 3, 6, 1, 4, 1, 311, 61, 1, 1}}

// Key usages, extended key usages and basic constraints.
func C33_Usage() {
	stdOnly()
	sym.Bound("C33_Usage: all nine key-usage bits; 0..2 extended key usages of the 14 known kinds and 0..2 unknown ones with an arbitrary last arc below 2^28; CA flag, path length -1..70000, path-length-zero flag")
	tmpl, parent, csr := baseTemplate()
	want := new(x509.Certificate)
	switch sym.Choose("field", 3) {
	case 0:
		u := int(sym.Uint16("usage"))
		sym.Assume(u < 512)
		tmpl.KeyUsage = x509.KeyUsage(u)
		want.KeyUsage = x509.KeyUsage(u)
		c, ok := issue(tmpl, parent, csr)
		if !ok {
			return
		}
		sameFields(c, want)
		if u != 0 {
			sym.Reach("key usage")
			wantExt(c, true, 2, 5, 29, 15)
			v := c.Extensions[0].Value
			// BIT STRING, minimal, bit i is usage i
			sym.Assert(len(v) >= 4 && v[0] == 3 && int(v[1]) == len(v)-2, "key usage is a BIT STRING")
			if len(v) >= 4 {
				for i := 0; i < 9; i++ {
					bit := false
					if 3+i/8 < len(v) {
						bit = v[3+i/8]>>(7-uint(i)%8)&1 == 1
					}
					sym.Assert(bit == (u>>uint(i)&1 == 1), "key usage bit position")
				}
			}
		} else {
			sym.Assert(len(c.Extensions) == 0, "no extension")
		}
	case 1:
		n, m := sym.Choose("known", 3), sym.Choose("unknown", 3)
		for i := 0; i < n; i++ {
			u := int(sym.Byte("eku"))
			sym.Assume(u < 14)
			tmpl.ExtKeyUsage = append(tmpl.ExtKeyUsage, x509.ExtKeyUsage(u))
		}
		for i := 0; i < m; i++ {
			a := int(sym.Uint32("arc"))
			sym.Assume(a < 1<<28)
			tmpl.UnknownExtKeyUsage = append(tmpl.UnknownExtKeyUsage, asn1.ObjectIdentifier{1, 2, 3, a})
		}
		want.ExtKeyUsage, want.UnknownExtKeyUsage = tmpl.ExtKeyUsage, tmpl.UnknownExtKeyUsage
		c, ok := issue(tmpl, parent, csr)
		if !ok {
			return
		}
		sameFields(c, want)
		if n+m > 0 {
			sym.Reach("extended key usage")
			wantExt(c, false, 2, 5, 29, 37)
			if n == 1 && m == 0 {
				u := sym.Concrete(int(tmpl.ExtKeyUsage[0]))
				sym.Assert(bytes.Equal(c.Extensions[0].Value, derSeq(derOID(ekuArcs[u]...))), "the identifier of the usage")
			}
		} else {
			sym.Assert(len(c.Extensions) == 0, "no extension")
		}
	case 2:
		tmpl.BasicConstraintsValid = sym.Bool("valid")
		tmpl.IsCA = sym.Bool("ca")
		tmpl.MaxPathLen = int(sym.Int32("path"))
		sym.Assume(tmpl.MaxPathLen >= -1 && tmpl.MaxPathLen <= 70000)
		tmpl.MaxPathLenZero = sym.Bool("zero")
		if tmpl.BasicConstraintsValid {
			want.BasicConstraintsValid = true
			want.IsCA = tmpl.IsCA
			want.MaxPathLen = tmpl.MaxPathLen
			if tmpl.MaxPathLen == 0 && !tmpl.MaxPathLenZero {
				want.MaxPathLen = -1 // no limit
			}
			want.MaxPathLenZero = want.MaxPathLen == 0
		}
		c, ok := issue(tmpl, parent, csr)
		if !ok {
			return
		}
		sameFields(c, want)
		if tmpl.BasicConstraintsValid {
			sym.Reach("basic constraints")
			wantExt(c, true, 2, 5, 29, 19)
		} else {
			sym.Assert(len(c.Extensions) == 0, "no extension")
		}
	}
}

// Key ids, URLs, policies and distribution points.
// A usage that has no identifier is refused, not a crash.
func C33_UnknownUsage() {
	stdOnly()
	sym.Bound("C33_UnknownUsage: one or two extended key usages of any 32-bit value, at least one of them without an identifier")
	tmpl, parent, csr := baseTemplate()
	bad := false
	for i := sym.Choose("before", 2); i >= 0; i-- {
		u := int(sym.Int32("eku"))
		bad = bad || u < 0 || u > 13
		tmpl.ExtKeyUsage = append(tmpl.ExtKeyUsage, x509.ExtKeyUsage(u))
	}
	sym.Assume(bad)
	var err error
	if !sym.NoPanic("CreateCertificateInfo", func() { _, err = cert.CreateCertificateInfo(tmpl, parent, csr) }) {
		return
	}
	sym.Reach("refused usage")
	sym.Assert(err != nil, "a usage without an identifier is an error")
}

func asn1Name(n pkix.Name) []byte {
	b, err := asn1.Marshal(n.ToRDNSequence())
	if err != nil {
		sym.Stop()
	}
	return b
}

func C33_Lists() {
	stdOnly()
	sym.Bound("C33_Lists: key ids of 0..4, 20 and 130 bytes; 0..2 OCSP, issuer and distribution-point URLs of 0..3 ASCII bytes each; 0..2 policies with two arbitrary arcs below 2^28")
	tmpl, parent, csr := baseTemplate()
	want := new(x509.Certificate)
	var id []int
	switch sym.Choose("field", 6) {
	case 0:
		n := []int{0, 1, 2, 3, 4, 20, 130}[sym.Choose("length", 7)]
		tmpl.SubjectKeyId = sym.Bytes("ski", n)
		want.SubjectKeyId = tmpl.SubjectKeyId
		if n > 0 {
			id = []int{2, 5, 29, 14}
		}
	case 1:
		n, m := []int{0, 1, 4, 20}[sym.Choose("length", 4)], []int{0, 1, 20, 130}[sym.Choose("parent length", 4)]
		tmpl.AuthorityKeyId = sym.Bytes("aki", n)
		parent.SubjectKeyId = sym.Bytes("pki", m)
		want.AuthorityKeyId = tmpl.AuthorityKeyId
		if sym.Choose("self issued", 2) == 1 {
			parent.Subject = tmpl.Subject
		} else if m > 0 {
			want.AuthorityKeyId = parent.SubjectKeyId
		}
		if len(want.AuthorityKeyId) > 0 {
			id = []int{2, 5, 29, 35}
		}
	case 2:
		tmpl.OCSPServer = strList("ocsp", 2)
		tmpl.IssuingCertificateURL = strList("issuer", 2)
		want.OCSPServer, want.IssuingCertificateURL = tmpl.OCSPServer, tmpl.IssuingCertificateURL
		if len(want.OCSPServer)+len(want.IssuingCertificateURL) > 0 {
			id = []int{1, 3, 6, 1, 5, 5, 7, 1, 1}
		}
	case 3:
		n := sym.Choose("policies", 3)
		for i := 0; i < n; i++ {
			a, b := int(sym.Uint32("arc")), int(sym.Uint32("arc"))
			sym.Assume(a < 1<<28 && b < 1<<28)
			if i > 0 {
				sym.Assume(b < 128)
			}
			tmpl.PolicyIdentifiers = append(tmpl.PolicyIdentifiers, asn1.ObjectIdentifier{1, 2, a, b})
		}
		want.PolicyIdentifiers = tmpl.PolicyIdentifiers
		if n > 0 {
			id = []int{2, 5, 29, 32}
		}
	case 5:
		// the issuer is another one exactly when the encoded names differ
		tmpl.AuthorityKeyId = sym.Bytes("aki", 2)
		parent.SubjectKeyId = sym.Bytes("pki", 2)
		same := false
		switch sym.Choose("names", 6) {
		case 0: // raw names, arbitrary
			a, b := sym.Byte("name"), sym.Byte("name")
			tmpl.RawSubject, parent.RawSubject = derName([]byte{a & 0x7f}), derName([]byte{b & 0x7f})
			same = a&0x7f == b&0x7f
		case 1: // the same name, raw on one side
			tmpl.RawSubject = asn1Name(tmpl.Subject)
			parent.Subject = tmpl.Subject
			same = true
		case 2: // a raw name beside another one that is not used
			tmpl.RawSubject = derName([]byte("raw"))
			parent.Subject = tmpl.Subject
		case 3:
			parent.RawSubject = derName([]byte("raw"))
			parent.Subject = tmpl.Subject
		case 4: // other attributes differ
			parent.Subject = tmpl.Subject
			parent.Subject.Organization = []string{"o"}
		case 5: // the same, encoded with another string type
			tmpl.Subject = cnOf("ab")
			parent.RawSubject = derName([]byte("ab"))
			same = bytes.Equal(asn1Name(tmpl.Subject), parent.RawSubject)
		}
		want.AuthorityKeyId = parent.SubjectKeyId
		if same {
			want.AuthorityKeyId = tmpl.AuthorityKeyId
		}
		id = []int{2, 5, 29, 35}
	case 4:
		tmpl.CRLDistributionPoints = strList("crl", 2)
		want.CRLDistributionPoints = tmpl.CRLDistributionPoints
		if len(want.CRLDistributionPoints) > 0 {
			id = []int{2, 5, 29, 31}
		}
	}
	c, ok := issue(tmpl, parent, csr)
	if !ok {
		return
	}
	sameFields(c, want)
	if id != nil {
		sym.Reach("extension")
		wantExt(c, false, id...)
	} else {
		sym.Assert(len(c.Extensions) == 0, "no extension")
	}
}

var uriList = []string{"http://a.example/x?y=z#f", "urn:a:b", "https://[::1]:8080/p", "mailto:a@b", "//h", "/p/q"}

func mustURL(s string) *url.URL {
	u, err := url.Parse(s)
	if err != nil {
		panic(err)
	}
	return u
}

// sanFields fills alternative names into four lists and gives what parsing must return.
func sanFields() (dns, mail []string, ips []net.IP, uris []*url.URL, wantIPs []net.IP) {
	dns, mail = strList("dns", 1+sym.Choose("two names", 2)), strList("mail", 1)
	switch sym.Choose("address", 5) {
	case 1:
		a := net.IP(sym.Bytes("ip", 4))
		ips, wantIPs = []net.IP{a}, []net.IP{a}
	case 2:
		a := net.IP(sym.Bytes("ip", 16))
		ips, wantIPs = []net.IP{a}, []net.IP{a}
		mapped := true
		for i, b := range a[:12] {
			w := byte(0)
			if i >= 10 {
				w = 0xff
			}
			mapped = sym.And(mapped, b == w)
		}
		if mapped {
			wantIPs[0] = a[12:]
		}
	case 3:
		b := sym.Bytes("ip", 4)
		ips, wantIPs = []net.IP{net.IPv4(b[0], b[1], b[2], b[3])}, []net.IP{b}
	case 4:
		a, b := net.IP(sym.Bytes("ip", 4)), net.IP(sym.Bytes("ip", 4))
		ips, wantIPs = []net.IP{a, b}, []net.IP{a, b}
	}
	if len(dns) > 1 && len(ips) > 0 && !sym.Thorough() {
		return
	}
	if k := sym.Choose("uri", len(uriList)+1); k > 0 {
		uris = []*url.URL{mustURL(uriList[k-1])}
	}
	return
}

// Alternative names, critical exactly when the subject is empty.
func C33_Names() {
	stdOnly()
	sym.Bound("C33_Names: 0..2 DNS names and 0..1 mail addresses of 0..3 ASCII bytes, 0..2 addresses with arbitrary bytes (4, 16 and mapped), 0..1 URI from a list, subject empty or not")
	tmpl, parent, csr := baseTemplate()
	want := new(x509.Certificate)
	tmpl.DNSNames, tmpl.EmailAddresses, tmpl.IPAddresses, tmpl.URIs, want.IPAddresses = sanFields()
	want.DNSNames, want.EmailAddresses, want.URIs = tmpl.DNSNames, tmpl.EmailAddresses, tmpl.URIs
	empty := false
	if len(want.DNSNames) > 1 && !sym.Thorough() {
		tmpl.Subject = pkix.Name{}
		empty = true
	} else {
		switch sym.Choose("subject", 4) {
		case 1:
			tmpl.Subject, empty = pkix.Name{}, true
		case 2:
			tmpl.RawSubject, empty = []byte{0x30, 0}, true
		case 3:
			tmpl.Subject, tmpl.RawSubject = pkix.Name{}, derName([]byte("raw"))
		}
	}
	c, ok := issue(tmpl, parent, csr)
	if !ok {
		return
	}
	sameFields(c, want)
	if len(tmpl.DNSNames)+len(tmpl.EmailAddresses)+len(tmpl.IPAddresses)+len(tmpl.URIs) > 0 {
		sym.Reach("names")
		wantExt(c, empty, 2, 5, 29, 17)
	} else {
		sym.Assert(len(c.Extensions) == 0, "no extension")
	}
}

func letters(name string, n int) string {
	b := sym.Bytes(name, n)
	for _, c := range b {
		sym.Assume(c >= 'a' && c <= 'z')
	}
	return string(b)
}

// domains is a list of 0..2 valid constraint domains.
func domains(name string, mail bool) (r []string) {
	k := sym.Choose(name, 6)
	switch k {
	case 1:
		r = []string{letters(name, 3)}
	case 2:
		r = []string{"." + letters(name, 2)}
	case 3:
		r = []string{letters(name, 1) + "." + letters(name, 2), ""}
	case 4:
		if !mail {
			sym.Stop()
		}
		r = []string{letters(name, 2) + "@" + letters(name, 2)}
	case 5:
		r = []string{"xn--" + letters(name, 1), letters(name, 1)}
	}
	return
}

func nets(name string) (in, want []*net.IPNet) {
	n := 4
	switch sym.Choose(name, 4) {
	case 0:
		return nil, nil
	case 1:
	case 2:
		n = 16
	case 3:
		a := &net.IPNet{IP: net.IP(sym.Bytes(name, 4)), Mask: net.CIDRMask(32, 32)}
		in, want = append(in, a), append(want, a)
	}
	bits := []int{0, 1, 7, 8, 9, 23, 31, 32}
	k := bits[sym.Choose(name+" bits", len(bits))]
	if n == 16 {
		k = k * 4
	}
	ip, mask := sym.Bytes(name, n), make([]byte, n)
	masked := make([]byte, n)
	for i := range ip {
		for b := 0; b < 8; b++ {
			if 8*i+b < k {
				mask[i] |= 0x80 >> uint(b)
			}
		}
		masked[i] = ip[i] & mask[i]
	}
	return append(in, &net.IPNet{IP: ip, Mask: mask}), append(want, &net.IPNet{IP: masked, Mask: mask})
}

// Name constraints.
func C33_Constraints() {
	stdOnly()
	sym.Bound("C33_Constraints: one or two of the eight constraint lists, each with 0..2 entries: domains and mailboxes of up to 5 arbitrary letters in the valid shapes, networks with arbitrary addresses and the prefix lengths 0, 1, 7, 8, 9, 23, 31, 32 (times four for IPv6)")
	tmpl, parent, csr := baseTemplate()
	want := new(x509.Certificate)
	crit := sym.Bool("critical")
	tmpl.PermittedDNSDomainsCritical = crit
	fill := func(k int) (n int) {
		switch k {
		case 0:
			tmpl.PermittedDNSDomains = domains("pdns", false)
			return len(tmpl.PermittedDNSDomains)
		case 1:
			tmpl.ExcludedDNSDomains = domains("xdns", false)
			return len(tmpl.ExcludedDNSDomains)
		case 2:
			tmpl.PermittedIPRanges, want.PermittedIPRanges = nets("pip")
			return len(tmpl.PermittedIPRanges)
		case 3:
			tmpl.ExcludedIPRanges, want.ExcludedIPRanges = nets("xip")
			return len(tmpl.ExcludedIPRanges)
		case 4:
			tmpl.PermittedEmailAddresses = domains("pmail", true)
			return len(tmpl.PermittedEmailAddresses)
		case 5:
			tmpl.ExcludedEmailAddresses = domains("xmail", true)
			return len(tmpl.ExcludedEmailAddresses)
		case 6:
			tmpl.PermittedURIDomains = domains("puri", false)
			return len(tmpl.PermittedURIDomains)
		}
		tmpl.ExcludedURIDomains = domains("xuri", false)
		return len(tmpl.ExcludedURIDomains)
	}
	k := sym.Choose("list", 8)
	n := fill(k)
	if l := sym.Choose("second list", 9); l < 8 {
		if l <= k || !sym.Thorough() && (l+k)%3 != 0 {
			sym.Stop()
		}
		n += fill(l)
	}
	want.PermittedDNSDomains, want.ExcludedDNSDomains = tmpl.PermittedDNSDomains, tmpl.ExcludedDNSDomains
	want.PermittedEmailAddresses, want.ExcludedEmailAddresses = tmpl.PermittedEmailAddresses, tmpl.ExcludedEmailAddresses
	want.PermittedURIDomains, want.ExcludedURIDomains = tmpl.PermittedURIDomains, tmpl.ExcludedURIDomains
	want.PermittedDNSDomainsCritical = n > 0 && crit
	c, ok := issue(tmpl, parent, csr)
	if !ok {
		return
	}
	sameFields(c, want)
	if n > 0 {
		sym.Reach("constraints")
		wantExt(c, crit, 2, 5, 29, 30)
	} else {
		sym.Assert(len(c.Extensions) == 0, "no extension")
	}
}

var times = []time.Time{t0, time.Date(1950, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(1949, 12, 31, 23, 59, 59, 0, time.UTC),
	time.Date(2049, 12, 31, 23, 59, 59, 0, time.UTC), time.Date(2050, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(9999, 12, 31, 23, 59, 59, 0, time.UTC),
	time.Date(2049, 12, 31, 23, 30, 0, 0, time.FixedZone("w", -3600)), time.Date(2024, 2, 29, 1, 2, 3, 999999999, time.FixedZone("e", 9*3600))}

// Serial number, validity, subject, issuer and key.
func C33_Identity() {
	stdOnly()
	sym.Bound("C33_Identity: serial numbers of 0..160 bits of either sign; validity instants from a list (around 1950, 2050, 9999, with zones and fractions); subject and parent names with common names of 0..3 arbitrary ASCII bytes plus other attributes, or raw names; arbitrary public key")
	tmpl, parent, csr := baseTemplate()
	switch sym.Choose("what", 4) {
	case 0:
		v := sym.Big("serial", 160)
		lengths(v)
		if sym.Choose("negative", 2) == 1 {
			v = new(big.Int).Neg(v)
		}
		tmpl.SerialNumber = v
		c, ok := issue(tmpl, parent, csr)
		if ok {
			sym.Reach("serial")
			sym.Assert(c.SerialNumber != nil && c.SerialNumber.Cmp(v) == 0, "serial number")
		}
	case 1:
		a, b := times[sym.Choose("from", len(times))], times[sym.Choose("to", len(times))]
		tmpl.NotBefore, tmpl.NotAfter = a, b
		c, ok := issue(tmpl, parent, csr)
		if ok {
			sym.Reach("validity")
			sym.Assert(c.NotBefore.Equal(a.Truncate(time.Second)), "not before")
			sym.Assert(c.NotAfter.Equal(b.Truncate(time.Second)), "not after")
		}
	case 2:
		cn, pn := ascii("cn", sym.Choose("cn length", 4)), ascii("pn", sym.Choose("pn length", 3))
		tmpl.Subject, parent.Subject = cnOf(cn), cnOf(pn)
		if sym.Choose("more", 2) == 1 {
			tmpl.Subject.Country, tmpl.Subject.Organization, tmpl.Subject.SerialNumber = []string{"CN"}, []string{"o1", "o2"}, "9"
			parent.Subject.Locality, parent.Subject.OrganizationalUnit = []string{"L"}, []string{"ou"}
		}
		c, ok := issue(tmpl, parent, csr)
		if ok {
			sym.Reach("names")
			sameName(&c.Subject, &tmpl.Subject)
			sameName(&c.Issuer, &parent.Subject)
		}
	case 3:
		n, m := sym.Choose("subject length", 3), sym.Choose("issuer length", 3)
		tmpl.RawSubject, parent.RawSubject = derName([]byte(ascii("cn", n))), derName([]byte(ascii("pn", m)))
		d := sym.BigIn("d", one, new(big.Int).Sub(sm2.GetSm2P256V1().N, one))
		p := baseParts()
		q := pubOf(d, sm2.GetSm2P256V1())
		fullWidth(-1, q)
		p.point = derPoint(q.X, q.Y)
		csr.RawSubjectPublicKeyInfo = p.spki()
		c, ok := issue(tmpl, parent, csr)
		if ok {
			sym.Reach("raw names and key")
			sym.Assert(bytes.Equal(c.RawSubject, tmpl.RawSubject), "raw subject")
			sym.Assert(bytes.Equal(c.RawIssuer, parent.RawSubject), "raw issuer")
			sym.Assert(bytes.Equal(c.RawSubjectPublicKeyInfo, csr.RawSubjectPublicKeyInfo), "raw key")
			pk, is := c.PublicKey.(*sm2.PublicKey)
			sym.Assert(is, "the key is an SM2 public key")
			if is {
				sym.Assert(pk.X.Cmp(q.X) == 0 && pk.Y.Cmp(q.Y) == 0, "the key of the request")
			}
		}
	}
}

func sameName(a, b *pkix.Name) {
	sym.Assert(a.CommonName == b.CommonName, "common name")
	sym.Assert(a.SerialNumber == b.SerialNumber, "name serial number")
	sym.Assert(strsEq(a.Country, b.Country) && strsEq(a.Organization, b.Organization) && strsEq(a.OrganizationalUnit, b.OrganizationalUnit) && strsEq(a.Locality, b.Locality), "name attributes")
}

// Parsing hands back the signed bytes and the signature.
func C34_Parse() {
	stdOnly()
	sym.Bound("C34_Parse: well-formed certificates and requests with arbitrary serial numbers of 1..20 bytes, common names of 0..4 ASCII bytes and signature strings of 0, 1, 8, 70, 72, 127, 128 and 300 bytes")
	p := baseParts()
	n := []int{0, 1, 8, 70, 72, 127, 128, 300}[sym.Choose("signature length", 8)]
	sig := sym.Bytes("sig", n)
	p.sig = derWrap(3, cat([]byte{0}, sig))
	p.subject = derName([]byte(ascii("cn", sym.Choose("name length", 5))))
	if sym.Choose("kind", 2) == 0 {
		serial := sym.Bytes("serial", []int{1, 2, 8, 20}[sym.Choose("serial length", 4)])
		sym.Assume(serial[0] > 0 && serial[0] < 0x80)
		p.serial = derWrap(2, serial)
		der := p.cert()
		c, err, ok := parseCert(der)
		if !ok {
			return
		}
		sym.Assert(err == nil, "a well-formed certificate is accepted")
		if err != nil {
			return
		}
		sym.Reach("certificate")
		sym.Assert(bytes.Equal(c.Raw, der), "Raw")
		sym.Assert(bytes.Equal(c.RawTBSCertificate, p.certTBS()), "RawTBSCertificate")
		sym.Assert(bytes.Equal(c.Signature, sig), "Signature")
		return
	}
	der := p.req()
	c, err, ok := parseReq(der)
	if !ok {
		return
	}
	sym.Assert(err == nil, "a well-formed request is accepted")
	if err != nil {
		return
	}
	sym.Reach("request")
	sym.Assert(bytes.Equal(c.Raw, der), "Raw")
	sym.Assert(bytes.Equal(c.RawTBSCertificateRequest, p.reqTBS()), "RawTBSCertificateRequest")
	sym.Assert(bytes.Equal(c.Signature, sig), "Signature")
}
