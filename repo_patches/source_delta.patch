From 7f7fbb5ef4aecd0952d3d7636bec8489424525b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:03 +0000
Subject: [PATCH 01/24] fix: rfc1157: add missing [4] IMPLICIT tag to TrapPDU

RFC 1157 defines Trap-PDU ::= [4] IMPLICIT SEQUENCE; without the tag an SNMPv1
trap message can neither be produced nor decoded.
---
 pyasn1_modules/rfc1157.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyasn1_modules/rfc1157.py b/pyasn1_modules/rfc1157.py
index df49e48..e44eed3 100644
--- a/pyasn1_modules/rfc1157.py
+++ b/pyasn1_modules/rfc1157.py
@@ -95,6 +95,9 @@ class SetRequestPDU(_RequestBase):
 
 
 class TrapPDU(univ.Sequence):
+    tagSet = univ.Sequence.tagSet.tagImplicitly(
+        tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 4)
+    )
     componentType = namedtype.NamedTypes(
         namedtype.NamedType('enterprise', univ.ObjectIdentifier()),
         namedtype.NamedType('agent-addr', rfc1155.NetworkAddress()),
-- 
2.43.0


From 6f9749a530dde66e8e3f39857fabc8731781b44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:24 +0000
Subject: [PATCH 02/24] fix: rfc2251: encode UnbindRequest as a primitive NULL

UnbindRequest ::= [APPLICATION 2] NULL inherited its tag from SEQUENCE, so it
was encoded as the constructed 62 00 instead of 42 00.
---
 pyasn1_modules/rfc2251.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyasn1_modules/rfc2251.py b/pyasn1_modules/rfc2251.py
index 094922c..8a5e2f0 100644
--- a/pyasn1_modules/rfc2251.py
+++ b/pyasn1_modules/rfc2251.py
@@ -276,7 +276,7 @@ class SearchRequest(univ.Sequence):
 
 
 class UnbindRequest(univ.Null):
-    tagSet = univ.Sequence.tagSet.tagImplicitly(
+    tagSet = univ.Null.tagSet.tagImplicitly(
         tag.Tag(tag.tagClassApplication, tag.tagFormatSimple, 2)
     )
 
-- 
2.43.0


From 1b25df25c429a5c128d75df7d51b13d1f294efc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:29 +0000
Subject: [PATCH 03/24] fix: rfc2251: DelRequest is an LDAPDN, AbandonRequest a
 MessageID

RFC 2251 defines DelRequest ::= [APPLICATION 10] LDAPDN and AbandonRequest ::=
[APPLICATION 16] MessageID; both were declared as LDAPResult sequences, so real
requests could not be decoded and produced ones were not valid LDAP.
---
 pyasn1_modules/rfc2251.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/pyasn1_modules/rfc2251.py b/pyasn1_modules/rfc2251.py
index 8a5e2f0..12a4a7d 100644
--- a/pyasn1_modules/rfc2251.py
+++ b/pyasn1_modules/rfc2251.py
@@ -418,9 +418,9 @@ class AddResponse(LDAPResult):
     )
 
 
-class DelRequest(LDAPResult):
-    tagSet = univ.Sequence.tagSet.tagImplicitly(
-        tag.Tag(tag.tagClassApplication, tag.tagFormatConstructed, 10)
+class DelRequest(LDAPDN):
+    tagSet = LDAPDN.tagSet.tagImplicitly(
+        tag.Tag(tag.tagClassApplication, tag.tagFormatSimple, 10)
     )
 
 
@@ -466,9 +466,15 @@ class CompareResponse(LDAPResult):
     )
 
 
-class AbandonRequest(LDAPResult):
-    tagSet = univ.Sequence.tagSet.tagImplicitly(
-        tag.Tag(tag.tagClassApplication, tag.tagFormatConstructed, 16)
+class MessageID(univ.Integer):
+    subtypeSpec = univ.Integer.subtypeSpec + constraint.ValueRangeConstraint(
+        0, maxInt
+    )
+
+
+class AbandonRequest(MessageID):
+    tagSet = MessageID.tagSet.tagImplicitly(
+        tag.Tag(tag.tagClassApplication, tag.tagFormatSimple, 16)
     )
 
 
@@ -523,12 +529,6 @@ class ExtendedResponse(univ.Sequence):
     )
 
 
-class MessageID(univ.Integer):
-    subtypeSpec = univ.Integer.subtypeSpec + constraint.ValueRangeConstraint(
-        0, maxInt
-    )
-
-
 class LDAPMessage(univ.Sequence):
     componentType = namedtype.NamedTypes(
         namedtype.NamedType('messageID', MessageID()),
-- 
2.43.0


From 444142b9903ade3de73c4deefc59cd75503e098d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:19 +0000
Subject: [PATCH 04/24] fix: rfc2459: use a value range, not a size, on INTEGER
 types

ValueSizeConstraint takes len() of the value, so no value at all could be given
to TerminalType, CRLNumber, BaseCRLNumber, SkipCerts and
extension-attribute-type (TypeError).
---
 pyasn1_modules/rfc2459.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyasn1_modules/rfc2459.py b/pyasn1_modules/rfc2459.py
index 57f783e..1cce106 100644
--- a/pyasn1_modules/rfc2459.py
+++ b/pyasn1_modules/rfc2459.py
@@ -364,7 +364,7 @@ terminal_type = univ.Integer(23)
 
 
 class TerminalType(univ.Integer):
-    subtypeSpec = univ.Integer.subtypeSpec + constraint.ValueSizeConstraint(0, ub_integer_options)
+    subtypeSpec = univ.Integer.subtypeSpec + constraint.ValueRangeConstraint(0, ub_integer_options)
     namedValues = namedval.NamedValues(
         ('telex', 3),
         ('teletelex', 4),
@@ -595,7 +595,7 @@ common_name = univ.Integer(1)
 class ExtensionAttribute(univ.Sequence):
     componentType = namedtype.NamedTypes(
         namedtype.NamedType('extension-attribute-type', univ.Integer().subtype(
-            subtypeSpec=constraint.ValueSizeConstraint(0, ub_extension_attributes),
+            subtypeSpec=constraint.ValueRangeConstraint(0, ub_extension_attributes),
             explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 0))),
         namedtype.NamedType('extension-attribute-value',
                             univ.Any().subtype(explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 1)))
@@ -774,7 +774,7 @@ id_ce_cRLNumber = univ.ObjectIdentifier('2.5.29.20')
 
 
 class CRLNumber(univ.Integer):
-    subtypeSpec = univ.Integer.subtypeSpec + constraint.ValueSizeConstraint(0, MAX)
+    subtypeSpec = univ.Integer.subtypeSpec + constraint.ValueRangeConstraint(0, MAX)
 
 
 class BaseCRLNumber(CRLNumber):
@@ -815,7 +815,7 @@ class ReasonFlags(univ.BitString):
 
 
 class SkipCerts(univ.Integer):
-    subtypeSpec = univ.Integer.subtypeSpec + constraint.ValueSizeConstraint(0, MAX)
+    subtypeSpec = univ.Integer.subtypeSpec + constraint.ValueRangeConstraint(0, MAX)
 
 
 id_ce_policyConstraints = univ.ObjectIdentifier('2.5.29.36')
-- 
2.43.0


From a11903abf0233c793278cda24eb463fcc62b4d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:24 +0000
Subject: [PATCH 05/24] fix: rfc2459: DomainParameters.j is OPTIONAL

---
 pyasn1_modules/rfc2459.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyasn1_modules/rfc2459.py b/pyasn1_modules/rfc2459.py
index 1cce106..e4b2087 100644
--- a/pyasn1_modules/rfc2459.py
+++ b/pyasn1_modules/rfc2459.py
@@ -326,7 +326,7 @@ class DomainParameters(univ.Sequence):
         namedtype.NamedType('p', univ.Integer()),
         namedtype.NamedType('g', univ.Integer()),
         namedtype.NamedType('q', univ.Integer()),
-        namedtype.NamedType('j', univ.Integer()),
+        namedtype.OptionalNamedType('j', univ.Integer()),
         namedtype.OptionalNamedType('validationParms', ValidationParms())
     )
 
-- 
2.43.0


From 5324412c7929b760a674f771d2d13027fd90c3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:30 +0000
Subject: [PATCH 06/24] fix: rfc2459: IssuingDistributionPoint flags are
 DEFAULT FALSE

They were declared mandatory, so real extensions that leave a flag out (as DER
requires for the default) were rejected and FALSE was always encoded.
---
 pyasn1_modules/rfc2459.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyasn1_modules/rfc2459.py b/pyasn1_modules/rfc2459.py
index e4b2087..09b9be6 100644
--- a/pyasn1_modules/rfc2459.py
+++ b/pyasn1_modules/rfc2459.py
@@ -1135,13 +1135,13 @@ class IssuingDistributionPoint(univ.Sequence):
     componentType = namedtype.NamedTypes(
         namedtype.OptionalNamedType('distributionPoint', DistributionPointName().subtype(
             implicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 0))),
-        namedtype.NamedType('onlyContainsUserCerts', univ.Boolean(False).subtype(
+        namedtype.DefaultedNamedType('onlyContainsUserCerts', univ.Boolean(False).subtype(
             implicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 1))),
-        namedtype.NamedType('onlyContainsCACerts', univ.Boolean(False).subtype(
+        namedtype.DefaultedNamedType('onlyContainsCACerts', univ.Boolean(False).subtype(
             implicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 2))),
         namedtype.OptionalNamedType('onlySomeReasons', ReasonFlags().subtype(
             implicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 3))),
-        namedtype.NamedType('indirectCRL', univ.Boolean(False).subtype(
+        namedtype.DefaultedNamedType('indirectCRL', univ.Boolean(False).subtype(
             implicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 4)))
     )
 
-- 
2.43.0


From 66c7e3bd51b844d7707ec934398513b9d617d2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:36 +0000
Subject: [PATCH 07/24] fix: rfc2459: put the line limit of
 UnformattedPostalAddress on the list

SIZE(1..ub-pds-physical-address-lines) limits the number of lines; it was put
on each line, which could then not be longer than six characters.
---
 pyasn1_modules/rfc2459.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyasn1_modules/rfc2459.py b/pyasn1_modules/rfc2459.py
index 09b9be6..2e4f03d 100644
--- a/pyasn1_modules/rfc2459.py
+++ b/pyasn1_modules/rfc2459.py
@@ -457,8 +457,8 @@ class StreetAddress(PDSParameter):
 class UnformattedPostalAddress(univ.Set):
     componentType = namedtype.NamedTypes(
         namedtype.OptionalNamedType('printable-address', univ.SequenceOf(componentType=char.PrintableString().subtype(
-            subtypeSpec=constraint.ValueSizeConstraint(1, ub_pds_parameter_length)).subtype(
-            subtypeSpec=constraint.ValueSizeConstraint(1, ub_pds_physical_address_lines)))),
+            subtypeSpec=constraint.ValueSizeConstraint(1, ub_pds_parameter_length))).subtype(
+            subtypeSpec=constraint.ValueSizeConstraint(1, ub_pds_physical_address_lines))),
         namedtype.OptionalNamedType('teletex-string', char.TeletexString().subtype(
             subtypeSpec=constraint.ValueSizeConstraint(1, ub_unformatted_address_length)))
     )
-- 
2.43.0


From ad71f833b1d1df015311ecee0da06f173b9f76e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:23 +0000
Subject: [PATCH 08/24] fix: rfc2437: RSAES-OAEP-params fields are explicitly
 tagged and omittable

The PKCS #1 module uses EXPLICIT TAGS and gives each field a DEFAULT, so real
parameters (and the usual empty sequence) could not be decoded. Declared in the
same way as in rfc4055.
---
 pyasn1_modules/rfc2437.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyasn1_modules/rfc2437.py b/pyasn1_modules/rfc2437.py
index 88641cf..943dafc 100644
--- a/pyasn1_modules/rfc2437.py
+++ b/pyasn1_modules/rfc2437.py
@@ -60,10 +60,10 @@ class RSAPublicKey(univ.Sequence):
 # XXX defaults not set
 class RSAES_OAEP_params(univ.Sequence):
     componentType = namedtype.NamedTypes(
-        namedtype.NamedType('hashFunc', AlgorithmIdentifier().subtype(
-            implicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 0))),
-        namedtype.NamedType('maskGenFunc', AlgorithmIdentifier().subtype(
-            implicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 1))),
-        namedtype.NamedType('pSourceFunc', AlgorithmIdentifier().subtype(
-            implicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 2)))
+        namedtype.OptionalNamedType('hashFunc', AlgorithmIdentifier().subtype(
+            explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 0))),
+        namedtype.OptionalNamedType('maskGenFunc', AlgorithmIdentifier().subtype(
+            explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 1))),
+        namedtype.OptionalNamedType('pSourceFunc', AlgorithmIdentifier().subtype(
+            explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 2)))
     )
-- 
2.43.0


From 2e09a4666ef0d00e7fa8043ab2f2c9446ff986a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:38 +0000
Subject: [PATCH 09/24] fix: rfc2315: encryptedContent is ciphertext, not an
 open type

With decodeOpenTypes=True the encrypted octets were decoded as the plaintext
type named by contentType, which fails for practically every real message.
---
 pyasn1_modules/rfc2315.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyasn1_modules/rfc2315.py b/pyasn1_modules/rfc2315.py
index 1069fc2..6a56faf 100644
--- a/pyasn1_modules/rfc2315.py
+++ b/pyasn1_modules/rfc2315.py
@@ -61,8 +61,7 @@ class EncryptedContentInfo(univ.Sequence):
         namedtype.OptionalNamedType(
             'encryptedContent', EncryptedContent().subtype(
                 implicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 0)
-            ),
-            openType=opentype.OpenType('contentType', contentTypeMap)
+            )
         )
     )
 
-- 
2.43.0


From f94171b9da934917d6d569c3e00d414bdf395bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:42 +0000
Subject: [PATCH 10/24] fix: rfc2315: AttributeValueAssertion open type names a
 missing field

The field is called attributeType; decoding with decodeOpenTypes=True failed
with 'Name type not found' for every value.
---
 pyasn1_modules/rfc2315.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyasn1_modules/rfc2315.py b/pyasn1_modules/rfc2315.py
index 6a56faf..7eb62fe 100644
--- a/pyasn1_modules/rfc2315.py
+++ b/pyasn1_modules/rfc2315.py
@@ -26,7 +26,7 @@ class AttributeValueAssertion(univ.Sequence):
     componentType = namedtype.NamedTypes(
         namedtype.NamedType('attributeType', AttributeType()),
         namedtype.NamedType('attributeValue', AttributeValue(),
-                            openType=opentype.OpenType('type', certificateAttributesMap))
+                            openType=opentype.OpenType('attributeType', certificateAttributesMap))
     )
 
 
-- 
2.43.0


From 57c6bcce44dbde5608856ebb83fcb8678cbb1d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:02 +0000
Subject: [PATCH 11/24] fix: rfc2511: use the real GeneralName of rfc2459

GeneralName was an OCTET STRING placeholder, so CertId.issuer, pubLocation and
the sender of authInfo could hold neither the names found in real messages nor
produce valid ones.
---
 pyasn1_modules/rfc2511.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/pyasn1_modules/rfc2511.py b/pyasn1_modules/rfc2511.py
index 8935cda..0542699 100644
--- a/pyasn1_modules/rfc2511.py
+++ b/pyasn1_modules/rfc2511.py
@@ -30,14 +30,6 @@ id_regInfo_utf8Pairs = univ.ObjectIdentifier('1.3.6.1.5.5.7.5.2.1')
 id_regInfo_certReq = univ.ObjectIdentifier('1.3.6.1.5.5.7.5.2.2')
 
 
-# This should be in PKIX Certificate Extensions module
-
-class GeneralName(univ.OctetString):
-    pass
-
-
-# end of PKIX Certificate Extensions module
-
 class UTF8Pairs(char.UTF8String):
     pass
 
@@ -161,7 +153,7 @@ class POPOSigningKeyInput(univ.Sequence):
             'authInfo', univ.Choice(
                 componentType=namedtype.NamedTypes(
                     namedtype.NamedType(
-                        'sender', GeneralName().subtype(implicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 0))
+                        'sender', GeneralName().subtype(explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 0))
                     ),
                     namedtype.NamedType('publicKeyMAC', PKMACValue())
                 )
-- 
2.43.0


From 08f35d1c1982359c877af10f635c537ca58f100a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:16 +0000
Subject: [PATCH 12/24] fix: rfc2560: use the real GeneralName of rfc2459

GeneralName was an OCTET STRING placeholder: a request carrying a requestor
name, as 'openssl ocsp -signer' sends, could not be decoded.
---
 pyasn1_modules/rfc2560.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyasn1_modules/rfc2560.py b/pyasn1_modules/rfc2560.py
index 017ac0b..5ddc0fd 100644
--- a/pyasn1_modules/rfc2560.py
+++ b/pyasn1_modules/rfc2560.py
@@ -53,7 +53,7 @@ class CRLReason(univ.Enumerated):
 
 # This should be in PKIX Certificate Extensions module
 
-class GeneralName(univ.OctetString):
+class GeneralName(rfc2459.GeneralName):
     pass
 
 
-- 
2.43.0


From f33acc1b7847935f0892a06c354617edc5063cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:32 +0000
Subject: [PATCH 13/24] fix: rfc4210: PKIHeader.generalInfo SIZE(1..MAX) is on
 the list

It was put on each InfoTypeAndValue instead, so an empty list was accepted.
---
 pyasn1_modules/rfc4210.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyasn1_modules/rfc4210.py b/pyasn1_modules/rfc4210.py
index 0935e3e..4cdf63d 100644
--- a/pyasn1_modules/rfc4210.py
+++ b/pyasn1_modules/rfc4210.py
@@ -742,10 +742,9 @@ class PKIHeader(univ.Sequence):
             explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 7))),
         namedtype.OptionalNamedType('generalInfo',
                                     univ.SequenceOf(
-                                        componentType=InfoTypeAndValue().subtype(
-                                            sizeSpec=constraint.ValueSizeConstraint(1, MAX)
-                                        )
+                                        componentType=InfoTypeAndValue()
                                     ).subtype(
+            sizeSpec=constraint.ValueSizeConstraint(1, MAX),
             explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 8))
         )
     )
-- 
2.43.0


From c43d281671e2dbe553745d37dd56bf0b0aaf0185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:38 +0000
Subject: [PATCH 14/24] fix: rfc5208: PrivateKeyInfo attributes are X.501
 attributes

They were declared with the LDAP Attribute, whose type is an OCTET STRING, so a
real PKCS #8 attribute (whose type is an OBJECT IDENTIFIER) was not decodable.
---
 pyasn1_modules/rfc5208.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyasn1_modules/rfc5208.py b/pyasn1_modules/rfc5208.py
index 295fdbf..f2e3e6d 100644
--- a/pyasn1_modules/rfc5208.py
+++ b/pyasn1_modules/rfc5208.py
@@ -11,7 +11,6 @@
 #
 # Sample captures could be obtained with "openssl pkcs8 -topk8" command
 #
-from pyasn1_modules import rfc2251
 from pyasn1_modules.rfc2459 import *
 
 
@@ -39,7 +38,7 @@ class PrivateKey(univ.OctetString):
 
 
 class Attributes(univ.SetOf):
-    componentType = rfc2251.Attribute()
+    componentType = Attribute()
 
 
 class Version(univ.Integer):
-- 
2.43.0


From 91193461c5fe7d6fafeaedd8fbe1f1c38ef6d269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:03 +0000
Subject: [PATCH 15/24] fix: rfc5990: aes192_Wrap and aes256_Wrap name their
 own algorithm

The ready-made identifiers carried the OIDs of AES-128 key wrap and SHA-256.
---
 pyasn1_modules/rfc5990.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyasn1_modules/rfc5990.py b/pyasn1_modules/rfc5990.py
index 281316f..30e32ac 100644
--- a/pyasn1_modules/rfc5990.py
+++ b/pyasn1_modules/rfc5990.py
@@ -194,11 +194,11 @@ aes128_Wrap['algorithm'] = id_aes128_Wrap
 # aes128_Wrap['parameters'] are absent
 
 aes192_Wrap = AlgorithmIdentifier()
-aes192_Wrap['algorithm'] = id_aes128_Wrap
+aes192_Wrap['algorithm'] = id_aes192_Wrap
 # aes192_Wrap['parameters'] are absent
 
 aes256_Wrap = AlgorithmIdentifier()
-aes256_Wrap['algorithm'] = id_sha256
+aes256_Wrap['algorithm'] = id_aes256_Wrap
 # aes256_Wrap['parameters'] are absent
 
 tdes_Wrap = AlgorithmIdentifier()
-- 
2.43.0


From df14e1b5a7825f32965c107f7c51c0241d9ec54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:08 +0000
Subject: [PATCH 16/24] fix: rfc6402: tag extendedFailInfo of CMCStatusInfoV2
 with [1]

RFC 6402 has extendedFailInfo [1] ExtendedFailInfo (IMPLICIT TAGS). Without the
tag it clashed with pendInfo, so that no otherInfo at all could be decoded.
---
 pyasn1_modules/rfc6402.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyasn1_modules/rfc6402.py b/pyasn1_modules/rfc6402.py
index 5490b05..d24e2ce 100644
--- a/pyasn1_modules/rfc6402.py
+++ b/pyasn1_modules/rfc6402.py
@@ -151,7 +151,7 @@ CMCStatusInfoV2.componentType = namedtype.NamedTypes(
                     componentType=namedtype.NamedTypes(
                         namedtype.NamedType('failInfoOID', univ.ObjectIdentifier()),
                         namedtype.NamedType('failInfoValue', AttributeValue()))
-                    )
+                    ).subtype(implicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 1))
                 )
             )
         )
-- 
2.43.0


From 9619968dad75677c0db4b0f15fde47db5a32a8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:13 +0000
Subject: [PATCH 17/24] fix: rfc7292: a safeContentsBag holds SafeContents

The bag type map had SafeBag, so nested safe contents could not be decoded.
---
 pyasn1_modules/rfc7292.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyasn1_modules/rfc7292.py b/pyasn1_modules/rfc7292.py
index 1c9f319..72e5e09 100644
--- a/pyasn1_modules/rfc7292.py
+++ b/pyasn1_modules/rfc7292.py
@@ -312,7 +312,7 @@ _pkcs12BagTypeMap = {
     id_certBag: CertBag(),
     id_CRLBag: CRLBag(),
     id_secretBag: SecretBag(),
-    id_safeContentsBag: SafeBag(),
+    id_safeContentsBag: SafeContents(),
 }
 
 pkcs12BagTypeMap.update(_pkcs12BagTypeMap)
-- 
2.43.0


From 041f76e37f7b4f2fa64129277448e0652ae6ce83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:18 +0000
Subject: [PATCH 18/24] fix: rfc7292: BAG_TYPE open type names a missing field

The field is called id; decoding with decodeOpenTypes=True always failed.
---
 pyasn1_modules/rfc7292.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyasn1_modules/rfc7292.py b/pyasn1_modules/rfc7292.py
index 72e5e09..5622ac3 100644
--- a/pyasn1_modules/rfc7292.py
+++ b/pyasn1_modules/rfc7292.py
@@ -142,7 +142,7 @@ class BAG_TYPE(univ.Sequence):
 BAG_TYPE.componentType = namedtype.NamedTypes(
     namedtype.NamedType('id', univ.ObjectIdentifier()),
     namedtype.NamedType('unnamed1', univ.Any(),
-        openType=opentype.OpenType('attrType', pkcs12BagTypeMap)
+        openType=opentype.OpenType('id', pkcs12BagTypeMap)
     )
 )
 
-- 
2.43.0


From d5759f2e3b3e49e30d302aff7bd79be9b680de6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:11 +0000
Subject: [PATCH 19/24] fix: rfc7191: let siren_dn be cloned

pyasn1 passes keyword arguments when it copies a type, so decoding with
asn1Spec=siren_dn(), clone() and subtype() all raised TypeError.
---
 pyasn1_modules/rfc7191.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyasn1_modules/rfc7191.py b/pyasn1_modules/rfc7191.py
index 7c2be11..7ccab09 100644
--- a/pyasn1_modules/rfc7191.py
+++ b/pyasn1_modules/rfc7191.py
@@ -82,8 +82,8 @@ id_dn = univ.ObjectIdentifier('2.16.840.1.101.2.1.16.0')
 
 
 class siren_dn(SIREntityName):
-    def __init__(self):
-        SIREntityName.__init__(self)
+    def __init__(self, **kwargs):
+        SIREntityName.__init__(self, **kwargs)
         self['sirenType'] = id_dn
 
 
-- 
2.43.0


From 80394671ea02b9c6465913f13d488babacfa42e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:18 +0000
Subject: [PATCH 20/24] fix: rfc3280: drop the placeholder that shadows
 DirectoryString

A second DirectoryString, a CHOICE of ANY, replaced the real one defined above
it: no alternative could be chosen by name and decoded content was lost.
---
 pyasn1_modules/rfc3280.py | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/pyasn1_modules/rfc3280.py b/pyasn1_modules/rfc3280.py
index 4c6df13..5a54e13 100644
--- a/pyasn1_modules/rfc3280.py
+++ b/pyasn1_modules/rfc3280.py
@@ -1363,14 +1363,6 @@ id_ce_certificateIssuer = _OID(id_ce, 29)
 id_ce_invalidityDate = _OID(id_ce, 24)
 
 
-class DirectoryString(univ.Choice):
-    pass
-
-
-DirectoryString.componentType = namedtype.NamedTypes(
-    namedtype.NamedType('any', univ.Any())
-)
-
 id_ce_authorityKeyIdentifier = _OID(id_ce, 35)
 
 
-- 
2.43.0


From 4af8aa22c745e5b3ad371b0623d623fd6ebb8bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:43 +0000
Subject: [PATCH 21/24] fix: ocspclient: use BitString.asOctets() for the
 issuer key hash

---
 tools/ocspclient.py | 26 +++-----------------------
 1 file changed, 3 insertions(+), 23 deletions(-)

diff --git a/tools/ocspclient.py b/tools/ocspclient.py
index 84f06fb..04f3f19 100755
--- a/tools/ocspclient.py
+++ b/tools/ocspclient.py
@@ -25,28 +25,6 @@ from pyasn1_modules import pem
 sha1oid = univ.ObjectIdentifier((1, 3, 14, 3, 2, 26))
 
 
-# noinspection PyClassHasNoInit
-class ValueOnlyBitStringEncoder(encoder.encoder.BitStringEncoder):
-    # These methods just do not encode tag and length fields of TLV
-    def encodeTag(self, *args):
-        return ''
-
-    def encodeLength(self, *args):
-        return ''
-
-    def encodeValue(*args):
-        substrate, isConstructed = encoder.encoder.BitStringEncoder.encodeValue(*args)
-        # OCSP-specific hack follows: cut off the "unused bit count"
-        # encoded bit-string value.
-        return substrate[1:], isConstructed
-
-    def __call__(self, bitStringValue):
-        return self.encode(None, bitStringValue, defMode=True, maxChunkSize=0)
-
-
-valueOnlyBitStringEncoder = ValueOnlyBitStringEncoder()
-
-
 # noinspection PyShadowingNames
 def mkOcspRequest(issuerCert, userCert):
     issuerTbsCertificate = issuerCert.getComponentByName('tbsCertificate')
@@ -66,8 +44,10 @@ def mkOcspRequest(issuerCert, userCert):
     issuerSubjectPublicKey = issuerTbsCertificate.getComponentByName('subjectPublicKeyInfo').getComponentByName(
         'subjectPublicKey')
 
+    # The hash is calculated over the value (excluding tag, length and the
+    # number of unused bits) of the subject public key field
     issuerKeyHash = hashlib.sha1(
-        valueOnlyBitStringEncoder(issuerSubjectPublicKey)
+        issuerSubjectPublicKey.asOctets()
     ).digest()
 
     userSerialNumber = userTbsCertificate.getComponentByName('serialNumber')
-- 
2.43.0


From 14ce888c240a31aa078cb1bc35ee2af2c1e26cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:36 +0000
Subject: [PATCH 22/24] fix: cmcdump: do not spin forever on layers it can't
 open

---
 tools/cmcdump.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tools/cmcdump.py b/tools/cmcdump.py
index d16774d..87ff1b9 100755
--- a/tools/cmcdump.py
+++ b/tools/cmcdump.py
@@ -59,3 +59,8 @@ while next_layer:
 
         next_layer = None
         data = None
+
+    else:
+        print(" * Unsupported layer (%s)" % next_layer)
+
+        next_layer = None
-- 
2.43.0


From 96a48882c4793fc343aaf31c563e9e7f089fc1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:10 +0000
Subject: [PATCH 23/24] fix: rfc4334: SSID size limit was never applied

---
 pyasn1_modules/rfc4334.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyasn1_modules/rfc4334.py b/pyasn1_modules/rfc4334.py
index 44cd31b..8a7a1c7 100644
--- a/pyasn1_modules/rfc4334.py
+++ b/pyasn1_modules/rfc4334.py
@@ -42,7 +42,7 @@ id_kp_eapOverLAN = id_kp + (14, )
 id_pe_wlanSSID = id_pe + (13, )
 
 class SSID(univ.OctetString):
-    constraint.ValueSizeConstraint(1, 32)
+    subtypeSpec = constraint.ValueSizeConstraint(1, 32)
 
 
 class SSIDList(univ.SequenceOf):
-- 
2.43.0


From 7825531624e09c3670fb323bd79a31095d38e4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:47 +0000
Subject: [PATCH 24/24] fix: rfc7906: fill in aa_keyUse and
 aa_otherCertificateFormats

The identifier and type of these two attribute templates were written into
the templates defined just before them, spoiling four objects.
---
 pyasn1_modules/rfc7906.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyasn1_modules/rfc7906.py b/pyasn1_modules/rfc7906.py
index fa5f6b0..4111693 100644
--- a/pyasn1_modules/rfc7906.py
+++ b/pyasn1_modules/rfc7906.py
@@ -403,8 +403,8 @@ KeyUse.namedValues = namedval.NamedValues(
 
 
 aa_keyUse = Attribute()
-aa_keyPurpose['attrType'] = id_kma_keyUse
-aa_keyPurpose['attrValues'][0] = KeyUse()
+aa_keyUse['attrType'] = id_kma_keyUse
+aa_keyUse['attrValues'][0] = KeyUse()
 
 
 # Transport Key Attribute
@@ -615,8 +615,8 @@ id_kma_otherCertFormats = univ.ObjectIdentifier('2.16.840.1.101.2.1.13.19')
 
 
 aa_otherCertificateFormats = Attribute()
-aa_signatureUsage_v3['attrType'] = id_kma_otherCertFormats
-aa_signatureUsage_v3['attrValues'][0] = CertificateChoices()
+aa_otherCertificateFormats['attrType'] = id_kma_otherCertFormats
+aa_otherCertificateFormats['attrValues'][0] = CertificateChoices()
 
 
 # PKI Path Attribute
-- 
2.43.0

