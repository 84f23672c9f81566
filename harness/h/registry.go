// Code generated by tools/genreg.sh; DO NOT EDIT.
package h

var Registry = map[string]func(){
	"C01_LongLength":      C01_LongLength,
	"C01_Object":          C01_Object,
	"C01_OneShot":         C01_OneShot,
	"C02_CallerBuffer":    C02_CallerBuffer,
	"C02_History":         C02_History,
	"C02_Independent":     C02_Independent,
	"C02_TwoWrites":       C02_TwoWrites,
	"C03_Geometry":        C03_Geometry,
	"C03_HMAC":            C03_HMAC,
	"C04_Block":           C04_Block,
	"C04_DecryptBlock":    C04_DecryptBlock,
	"C04_KeyLength":       C04_KeyLength,
	"C04_KeyReuse":        C04_KeyReuse,
	"C05_Inverse":         C05_Inverse,
	"C05_LongBuffers":     C05_LongBuffers,
	"C06_Modes":           C06_Modes,
	"C06_Refuse":          C06_Refuse,
	"C07_KeyCopied":       C07_KeyCopied,
	"C07_NoSharedWrites":  C07_NoSharedWrites,
	"C07_TwoCiphers":      C07_TwoCiphers,
	"C08_NilInput":        C08_NilInput,
	"C08_PKCS5":           C08_PKCS5,
	"C08_Zero":            C08_Zero,
	"C09_Arithmetic":      C09_Arithmetic,
	"C09_Infinity":        C09_Infinity,
	"C10_SignVerify":      C10_SignVerify,
	"C10_SignVerifyDER":   C10_SignVerifyDER,
	"C11_BadKey":          C11_BadKey,
	"C11_Equations":       C11_Equations,
	"C11_WeakNonce":       C11_WeakNonce,
	"C12_VerifyCorners":   C12_VerifyCorners,
	"C12_VerifyExact":     C12_VerifyExact,
	"C13_Digest":          C13_Digest,
	"C13_LongID":          C13_LongID,
	"C13_Twice":           C13_Twice,
	"C14_EncryptDecrypt":  C14_EncryptDecrypt,
	"C15_BadOrder":        C15_BadOrder,
	"C15_Layout":          C15_Layout,
	"C15_LongMessage":     C15_LongMessage,
	"C16_Arbitrary":       C16_Arbitrary,
	"C16_Tampered":        C16_Tampered,
	"C17_DecoderShapes":   C17_DecoderShapes,
	"C17_DecoderShort":    C17_DecoderShort,
	"C17_EncoderRefuses":  C17_EncoderRefuses,
	"C17_RoundTrip":       C17_RoundTrip,
	"C18_DecoderShapes":   C18_DecoderShapes,
	"C18_DecoderShort":    C18_DecoderShort,
	"C18_RoundTrip":       C18_RoundTrip,
	"C18_Verify":          C18_Verify,
	"C19_CalculatePubKey": C19_CalculatePubKey,
	"C19_Lengths":         C19_Lengths,
	"C19_PrivateKey":      C19_PrivateKey,
	"C19_PublicKey":       C19_PublicKey,
	"C20_Curve":           C20_Curve,
	"C20_Distinct":        C20_Distinct,
	"C20_GenerateKey":     C20_GenerateKey,
	"C21_Agreement":       C21_Agreement,
	"C22_Confirm":         C22_Confirm,
	"C22_Initiator":       C22_Initiator,
	"C22_LongID":          C22_LongID,
	"C22_OffCurve":        C22_OffCurve,
	"C22_Responder":       C22_Responder,
	"C23_Pure":            C23_Pure,
	"C23_Repeat":          C23_Repeat,
	"C24_LengthPrefixed":  C24_LengthPrefixed,
	"C24_Reads":           C24_Reads,
	"C25_Any":             C25_Any,
	"C25_Tagged":          C25_Tagged,
	"C26_Big":             C26_Big,
	"C26_Int64":           C26_Int64,
	"C26_Optional":        C26_Optional,
	"C26_Read":            C26_Read,
	"C27_OIDRead":         C27_OIDRead,
	"C27_OIDWrite":        C27_OIDWrite,
	"C27_Read":            C27_Read,
	"C27_Write":           C27_Write,
	"C28_Sizes":           C28_Sizes,
	"C28_Trees":           C28_Trees,
	"C29_Fixed":           C29_Fixed,
	"C29_Long":            C29_Long,
	"C30_Sticky":          C30_Sticky,
	"C30_Unwind":          C30_Unwind,
	"C30_Value":           C30_Value,
	"C31_Attributes":      C31_Attributes,
	"C31_Create":          C31_Create,
	"C31_ForeignKey":      C31_ForeignKey,
	"C31_Twice":           C31_Twice,
	"C31_Verify":          C31_Verify,
	"C32_Certificate":     C32_Certificate,
	"C32_Request":         C32_Request,
	"C33_Constraints":     C33_Constraints,
	"C33_Identity":        C33_Identity,
	"C33_Lists":           C33_Lists,
	"C33_Names":           C33_Names,
	"C33_UnknownUsage":    C33_UnknownUsage,
	"C33_Usage":           C33_Usage,
	"C34_Assemble":        C34_Assemble,
	"C34_Issue":           C34_Issue,
	"C34_Parse":           C34_Parse,
	"C35_Algorithms":      C35_Algorithms,
	"C35_Point":           C35_Point,
	"C35_Trailing":        C35_Trailing,
	"C36_Domain":          C36_Domain,
	"C36_Mailbox":         C36_Mailbox,
	"C36_Network":         C36_Network,
	"C36_SAN":             C36_SAN,
	"C36_Structure":       C36_Structure,
	"C36_URI":             C36_URI,
	"C37_Unhandled":       C37_Unhandled,
	"C38_Contents":        C38_Contents,
	"C38_Cut":             C38_Cut,
	"C38_Element":         C38_Element,
	"C38_Short":           C38_Short,
	"C38_Window":          C38_Window,
	"C39_Read":            C39_Read,
	"C39_Write":           C39_Write,
	"C40_FromRequest":     C40_FromRequest,
	"SELF_Format":         SELF_Format,
	"SELF_Lang":           SELF_Lang,
	"SELF_Sym":            SELF_Sym,
}
