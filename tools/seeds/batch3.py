IMP='''package cert_test
import ("testing";"math/big";"crypto/x509";"crypto/x509/pkix";"crypto/rand";"encoding/asn1";"time";"net";"bytes";"strings";"encoding/hex";"github.com/ZZMarquis/gm/sm2";"github.com/ZZMarquis/gm/sm2/cert")
var _ = big.NewInt
var _ = rand.Reader
var _ = asn1.Marshal
var _ net.IP
var _ = bytes.Equal
var _ = strings.Index
var _ = hex.EncodeToString
func req(t *testing.T, k *sm2.PrivateKey, tm *x509.CertificateRequest) *x509.CertificateRequest {
	der, err := cert.CreateCertificateRequest(tm, sm2.CalculatePubKey(k), k, nil)
	if err != nil { t.Fatal(err) }
	c, err := cert.ParseCertificateRequest(der)
	if err != nil { t.Fatal(err) }
	return c
}
func key(t *testing.T) *sm2.PrivateKey {
	k, _, err := sm2.GenerateKey(rand.Reader)
	if err != nil { t.Fatal(err) }
	return k
}
func base(cn string) *x509.Certificate {
	return &x509.Certificate{SerialNumber: big.NewInt(5), Subject: pkix.Name{CommonName: cn}, NotBefore: time.Unix(1600000000, 0), NotAfter: time.Unix(1700000000, 0)}
}
func der(t *testing.T, tm, parent *x509.Certificate, sig []byte) []byte {
	info, err := cert.CreateCertificateInfo(tm, parent, req(t, key(t), &x509.CertificateRequest{Subject: pkix.Name{CommonName: "r"}}))
	if err != nil { t.Fatal(err) }
	d, err := cert.CreateCertificate(info, sig)
	if err != nil { t.Fatal(err) }
	return d
}
func round(t *testing.T, tm *x509.Certificate) *x509.Certificate {
	c, err := cert.ParseCertificate(der(t, tm, base("ca"), []byte{1}))
	if err != nil { t.Fatal(err) }
	return c
}
'''
F='sm2/cert/gmx509.go'
P='sm2/cert'
SEEDS=[
dict(id='csr-pubkey-memo',prop='C31',pkg=P,
 edits=[(F,'	publicKeyBytes = pub.GetUnCompressBytes()\n','	if memoX == nil || memoX.Cmp(pub.X) != 0 {\n		memoX, memoKey = new(big.Int).Set(pub.X), pub.GetUnCompressBytes()\n	}\n	publicKeyBytes = memoKey\n'),
  (F,'func marshalPublicKey(','// encoding of the key used last\nvar (\n	memoX   *big.Int\n	memoKey []byte\n)\n\nfunc marshalPublicKey(')],
 needs='two requests in a row for the keys d and n-d (same x coordinate)', breaks='the second request embeds the first key and does not verify',
 demo=IMP+'''
func TestSeedDemo(t *testing.T) {
	k := key(t)
	m := &sm2.PrivateKey{D: new(big.Int).Sub(k.Curve.N, k.D), Curve: k.Curve}
	tm := &x509.CertificateRequest{Subject: pkix.Name{CommonName: "r"}}
	if !cert.VerifyCSRSign(req(t, k, tm), nil) || !cert.VerifyCSRSign(req(t, m, tm), nil) { t.Fatal("does not verify") }
}
'''),
dict(id='csr-second-attribute-ignored',prop='C31',pkg=P,
 edits=[(F,'		if rest, err := asn1.Unmarshal(rawAttr.FullBytes, &attr); err != nil || len(rest) != 0 || len(attr.Values) == 0 {\n			// Ignore attributes that don\'t parse.\n			continue\n','		if rest, err := asn1.Unmarshal(rawAttr.FullBytes, &attr); err != nil || len(rest) != 0 || len(attr.Values) == 0 {\n			// Nothing usable in the attributes.\n			break\n')],
 needs='an attribute that is not of the expected form, or with an empty set, before the extension request', breaks='requested extensions and names are lost',
 demo=IMP+'''
func TestSeedDemo(t *testing.T) {
	tm := &x509.CertificateRequest{Subject: pkix.Name{CommonName: "r"}, DNSNames: []string{"a.b"}, Attributes: []pkix.AttributeTypeAndValueSET{{Type: asn1.ObjectIdentifier{1, 2, 3}}}}
	if c := req(t, key(t), tm); len(c.DNSNames) != 1 { t.Fatal(c.DNSNames) }
}
'''),
dict(id='ext-override-by-last-arc',prop='C32',pkg=P,
 edits=[(F,'		if e.Id.Equal(oid) {\n			return true\n','		if len(e.Id) > 0 && e.Id[len(e.Id)-1] == oid[len(oid)-1] && (len(e.Id) != len(oid) || e.Id.Equal(oid)) {\n			return true\n')],
 needs='an explicit private extension with another number of arcs that ends in the same arc as a derived one', breaks='the derived extension is dropped',
 demo=IMP+'''
func TestSeedDemo(t *testing.T) {
	tm := base("x"); tm.KeyUsage = 1
	tm.ExtraExtensions = []pkix.Extension{{Id: asn1.ObjectIdentifier{1, 2, 3, 4, 15}, Value: []byte{5, 0}}}
	if c := round(t, tm); c.KeyUsage != 1 { t.Fatal("key usage lost") }
}
'''),
dict(id='csr-specified-last-value-only',prop='C32',pkg=P,
 edits=[(F,'			for _, atvs := range atvSet.Value {\n				for _, atv := range atvs {\n					specifiedExtensions[atv.Type.String()] = true\n				}\n			}\n','			specifiedExtensions = make(map[string]bool)\n			for _, atvs := range atvSet.Value {\n				for _, atv := range atvs {\n					specifiedExtensions[atv.Type.String()] = true\n				}\n			}\n')],
 needs='two extension-request attributes in the template, the first of which names the extension', breaks='an explicitly given extension is added a second time',
 demo=IMP+'''
func TestSeedDemo(t *testing.T) {
	er := asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 14}
	san := asn1.ObjectIdentifier{2, 5, 29, 17}
	set := func(id asn1.ObjectIdentifier) pkix.AttributeTypeAndValueSET {
		return pkix.AttributeTypeAndValueSET{Type: er, Value: [][]pkix.AttributeTypeAndValue{{{Type: id, Value: []byte{0x30, 3, 0x82, 1, 'q'}}}}}
	}
	tm := &x509.CertificateRequest{Subject: pkix.Name{CommonName: "r"}, DNSNames: []string{"a.b"}, Attributes: []pkix.AttributeTypeAndValueSET{set(san), set(asn1.ObjectIdentifier{1, 2, 3})}}
	n := 0
	for _, e := range req(t, key(t), tm).Extensions { if e.Id.Equal(san) { n++ } }
	if n != 1 { t.Fatal(n) }
}
'''),
dict(id='cert-decipher-only-lost',prop='C33',pkg=P,
 edits=[(F,'		if a[1] != 0 {\n','		if template.KeyUsage > x509.KeyUsageDecipherOnly {\n')],
 needs='decipherOnly as the only key usage', breaks='the key usage is lost',
 demo=IMP+'''
func TestSeedDemo(t *testing.T) {
	tm := base("x"); tm.KeyUsage = x509.KeyUsageDecipherOnly
	if c := round(t, tm); c.KeyUsage != x509.KeyUsageDecipherOnly { t.Fatal(c.KeyUsage) }
}
'''),
dict(id='cert-aki-by-common-name',prop='C33',pkg=P,
 edits=[(F,'	if !bytes.Equal(asn1Issuer, asn1Subject) && len(parent.SubjectKeyId) > 0 {\n','	if parent.Subject.String() != template.Subject.String() && len(parent.SubjectKeyId) > 0 {\n')],
 needs='names given as raw bytes, or that only differ in how they are encoded', breaks='the authority key id is not taken from the parent',
 demo=IMP+'''
func TestSeedDemo(t *testing.T) {
	tm, parent := base("x"), base("x")
	tm.RawSubject, _ = asn1.Marshal(pkix.Name{CommonName: "leaf"}.ToRDNSequence())
	parent.SubjectKeyId = []byte{1, 2, 3}
	c, err := cert.ParseCertificate(der(t, tm, parent, []byte{1}))
	if err != nil { t.Fatal(err) }
	if !bytes.Equal(c.AuthorityKeyId, parent.SubjectKeyId) { t.Fatal(c.AuthorityKeyId) }
}
'''),
dict(id='cert-empty-id-is-default',prop='C34',pkg=P,
 edits=[(F,'	signature, err := sm2.Sign(caPri, userId, cinfo.Raw)\n','	if len(userId) == 0 {\n		userId = nil\n	}\n	signature, err := sm2.Sign(caPri, userId, cinfo.Raw)\n'),(F,'	return CreateCertificate(cinfo, signature)\n}','	return CreateCertificate(cinfo, signature[:len(signature):len(signature)])\n}')],
 needs='an explicitly empty user id', breaks='the certificate is signed under the default id',
 demo=IMP+'''
func TestSeedDemo(t *testing.T) {
	k := key(t)
	info, err := cert.CreateCertificateInfo(base("x"), base("ca"), req(t, key(t), &x509.CertificateRequest{Subject: pkix.Name{CommonName: "r"}}))
	if err != nil { t.Fatal(err) }
	d, err := cert.IssueCertificateBySoftCAKey(info, k, []byte{})
	if err != nil { t.Fatal(err) }
	c, err := cert.ParseCertificate(d)
	if err != nil { t.Fatal(err) }
	if !sm2.Verify(sm2.CalculatePubKey(k), []byte{}, c.RawTBSCertificate, c.Signature) { t.Fatal("signature") }
}
'''),
dict(id='cert-signature-bit-length',prop='C34',pkg=P,
 edits=[(F,'		asn1.BitString{Bytes: signature, BitLength: len(signature) * 8},\n','		asn1.BitString{Bytes: signature, BitLength: asn1BitLength(signature)},\n')],
 needs='an external signature whose last byte is even', breaks='the signature comes back shifted',
 demo=IMP+'''
func TestSeedDemo(t *testing.T) {
	sig := []byte{0x30, 6, 2, 1, 1, 2, 1, 4}
	c, err := cert.ParseCertificate(der(t, base("x"), base("ca"), sig))
	if err != nil { t.Fatal(err) }
	if !bytes.Equal(c.Signature, sig) { t.Fatal(c.Signature) }
}
'''),
dict(id='cert-hybrid-point-form',prop='C35',pkg=P,
 edits=[(F,'	x, y := elliptic.Unmarshal(curve, keyData.PublicKey.RightAlign())\n','	point := append([]byte(nil), keyData.PublicKey.RightAlign()...)\n	if len(point) == 65 && point[0] == 6|point[64]&1 {\n		point[0] = 4\n	}\n	x, y := elliptic.Unmarshal(curve, point)\n')],
 needs='a key in the hybrid point form', breaks='a key that is not an uncompressed point is accepted',
 demo=IMP+'''
func TestSeedDemo(t *testing.T) {
	d := der(t, base("x"), base("ca"), []byte{1})
	i := bytes.Index(d, []byte{3, 66, 0, 4}) + 3
	for _, f := range []byte{6, 7} {
		d[i] = f
		if _, err := cert.ParseCertificate(d); err == nil { t.Fatal("accepted") }
	}
}
'''),
dict(id='cert-san-trailing-when-critical',prop='C35',pkg=P,
 edits=[(F,'		return errors.New("x509: trailing data after X.509 extension")\n','		if seq.Class != 0 || seq.Tag != 16 || len(rest) > len(seq.Bytes) {\n			return errors.New("x509: trailing data after X.509 extension")\n		}\n')],
 needs='an alternative-name extension followed by fewer bytes than it has', breaks='trailing bytes inside the extension are accepted',
 demo=IMP+'''
func TestSeedDemo(t *testing.T) {
	tm := base("x")
	tm.ExtraExtensions = []pkix.Extension{{Id: asn1.ObjectIdentifier{2, 5, 29, 17}, Value: []byte{0x30, 3, 0x82, 1, 'q', 0}}}
	if _, err := cert.ParseCertificate(der(t, tm, base("ca"), []byte{1})); err == nil { t.Fatal("accepted") }
}
'''),
dict(id='cert-uri-constraint-ipv6',prop='C36',pkg=P,
 edits=[(F,'				if net.ParseIP(domain) != nil {\n','				if ip := net.ParseIP(domain); ip != nil && strings.Count(domain, ".") == 3 {\n')],
 needs='a URI constraint that is an IPv6 address', breaks='an IP address is accepted as URI host',
 demo=IMP+'''
func TestSeedDemo(t *testing.T) {
	tm := base("x"); tm.PermittedURIDomains = []string{"1::"}
	if _, err := cert.ParseCertificate(der(t, tm, base("ca"), []byte{1})); err == nil { t.Fatal("accepted") }
}
'''),
dict(id='cert-mask-byte-boundary',prop='C36',pkg=P,
 edits=[(F,'			if b != 0 {\n				return false\n			}\n\n			continue\n','			if b&1 != 0 {\n				return false\n			}\n\n			continue\n')],
 needs='an IP mask with ones, but no last one, in a byte after the first zero', breaks='a non-contiguous mask is accepted',
 demo=IMP+'''
func TestSeedDemo(t *testing.T) {
	tm := base("x"); tm.PermittedIPRanges = []*net.IPNet{{IP: net.IP{1, 2, 3, 4}, Mask: net.IPMask{255, 0, 2, 0}}}
	if _, err := cert.ParseCertificate(der(t, tm, base("ca"), []byte{1})); err == nil { t.Fatal("accepted") }
}
'''),
dict(id='cert-unhandled-sticks',prop='C37',pkg=P,
 edits=[(F,'	for _, e := range in.TBSCertificate.Extensions {\n		out.Extensions = append(out.Extensions, e)\n		unhandled := false\n','	unhandled := false\n	for _, e := range in.TBSCertificate.Extensions {\n		out.Extensions = append(out.Extensions, e)\n')],
 needs='a non-critical unknown extension before a known critical one', breaks='the handled critical extension is reported as unhandled',
 demo=IMP+'''
func TestSeedDemo(t *testing.T) {
	tm := base("x")
	tm.ExtraExtensions = []pkix.Extension{{Id: asn1.ObjectIdentifier{1, 2, 3}, Value: []byte{5, 0}}, {Id: asn1.ObjectIdentifier{2, 5, 29, 15}, Critical: true, Value: []byte{3, 2, 7, 128}}}
	if c := round(t, tm); len(c.UnhandledCriticalExtensions) != 0 { t.Fatal(c.UnhandledCriticalExtensions) }
}
'''),
dict(id='cert-name-constraint-last-subtree',prop='C37',pkg=P,
 edits=[(F,'			switch tag {\n			case dnsTag:\n','			unhandled = false\n			switch tag {\n			case dnsTag:\n')],
 needs='a critical name constraint with an unsupported kind of subtree followed by a supported one', breaks='the extension is not reported as unhandled',
 demo=IMP+'''
func TestSeedDemo(t *testing.T) {
	tm := base("x")
	tm.ExtraExtensions = []pkix.Extension{{Id: asn1.ObjectIdentifier{2, 5, 29, 30}, Critical: true, Value: []byte{0x30, 12, 0xa0, 10, 0x30, 3, 0x88, 1, 42, 0x30, 3, 0x82, 1, 'a'}}}
	if c := round(t, tm); len(c.UnhandledCriticalExtensions) != 1 { t.Fatal(c.UnhandledCriticalExtensions) }
}
'''),
dict(id='csr-empty-attribute-panics',prop='C38',pkg=P,
 edits=[(F,'err != nil || len(rest) != 0 || len(attr.Values) == 0 {\n			// Ignore','err != nil || len(rest) != 0 {\n			// Ignore')],
 needs='a request whose extension-request attribute holds an empty set', breaks='the parser panics with index out of range',
 demo=IMP+'''
func TestSeedDemo(t *testing.T) {
	tm := &x509.CertificateRequest{Subject: pkix.Name{CommonName: "r"}, Attributes: []pkix.AttributeTypeAndValueSET{{Type: asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 14}}}}
	req(t, key(t), tm)
}
'''),
dict(id='cert-extension-arcs-unchecked',prop='C38',pkg=P,
 edits=[(F,'		if len(e.Id) == 4 && e.Id[0] == 2 && e.Id[1] == 5 && e.Id[2] == 29 {\n','		if len(e.Id) >= 3 && e.Id[0] == 2 && e.Id[1] == 5 && e.Id[2] == 29 {\n')],
 needs='an extension with the identifier 2.5.29', breaks='the parser panics with index out of range',
 demo=IMP+'''
func TestSeedDemo(t *testing.T) {
	tm := base("x")
	tm.ExtraExtensions = []pkix.Extension{{Id: asn1.ObjectIdentifier{2, 5, 29}, Value: []byte{5, 0}}}
	round(t, tm)
}
'''),
]
