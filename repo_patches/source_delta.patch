From a1fe1efdd5a50a98e6ecb94d3dd37f2c2294ade3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:08:26 +0000
Subject: [PATCH 01/34] fix: drop the previous identity of a connection when a
 re-bind fails

---
 pkg/ldapserver/server.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/ldapserver/server.go b/pkg/ldapserver/server.go
index 0ecab75..e7aa604 100644
--- a/pkg/ldapserver/server.go
+++ b/pkg/ldapserver/server.go
@@ -293,6 +293,9 @@ handler:
 
 		case ldap.ApplicationBindRequest:
 			server.Stats.countBinds(1)
+			// Whatever the outcome, the previous authorization state is gone
+			// as soon as a new bind is received (RFC 4513, section 4).
+			boundDN = ""
 			ldapResultCode := HandleBindRequest(req, server.BindFns, conn)
 			if ldapResultCode == ldap.LDAPResultSuccess {
 				boundDN, ok = req.Children[1].Value.(string)
-- 
2.43.0


From 2f29a384d203c0596204b1a96094d97a6e2b54ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:08:26 +0000
Subject: [PATCH 02/34] fix: boltdb: require authentication or permitted local
 anonymous access for searches

---
 server/handler/boltdb/handler.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/server/handler/boltdb/handler.go b/server/handler/boltdb/handler.go
index 4f192fb..902c8c4 100644
--- a/server/handler/boltdb/handler.go
+++ b/server/handler/boltdb/handler.go
@@ -121,7 +121,7 @@ func (h *boltdbHandler) Bind(bindDN, bindSimplePw string, conn net.Conn) (ldapse
 
 	// Handle anoymous bind
 	if bindDN == "" {
-		if !h.allowLocalAnonymousBind {
+		if !h.anonymousAllowed(conn) {
 			logger.Debugln("ldap anonymous Bind disabled")
 			return ldap.LDAPResultInvalidCredentials, nil
 		} else if bindSimplePw == "" {
@@ -294,6 +294,13 @@ func (h *boltdbHandler) Search(boundDN string, req *ldap.SearchRequest, conn net
 		"attrs":  req.Attributes,
 	})
 
+	if boundDN == "" && !h.anonymousAllowed(conn) {
+		logger.Debugln("ldap anonymous search rejected")
+		return ldapserver.ServerSearchResult{
+			ResultCode: ldap.LDAPResultInsufficientAccessRights,
+		}, errors.New("anonymous search not allowed")
+	}
+
 	logger.Debug("Calling boltdb search")
 	entries, _ := h.bdb.Search(req.BaseDN, req.Scope)
 	logger.Debugf("boltdb search returned %d entries", len(entries))
@@ -325,6 +332,16 @@ func (h *boltdbHandler) Reload(ctx context.Context) error {
 	return nil
 }
 
+// anonymousAllowed reports whether the peer may access the directory without
+// authentication. That is limited to local clients, and needs to be enabled.
+func (h *boltdbHandler) anonymousAllowed(conn net.Conn) bool {
+	if !h.allowLocalAnonymousBind {
+		return false
+	}
+	host, _, _ := net.SplitHostPort(conn.RemoteAddr().String())
+	return net.ParseIP(host).IsLoopback()
+}
+
 func (h *boltdbHandler) writeAllowed(boundDN string) bool {
 	if h.adminDN != "" && h.adminDN == boundDN {
 		return true
-- 
2.43.0


From e280cb01f6877a549924292ac1ccec6f9879965d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:08:26 +0000
Subject: [PATCH 03/34] fix: ldbbolt: refuse empty names and malformed new RDNs
 instead of panicking

---
 pkg/ldbbolt/ldbbolt.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/pkg/ldbbolt/ldbbolt.go b/pkg/ldbbolt/ldbbolt.go
index 2d6f554..d906b18 100644
--- a/pkg/ldbbolt/ldbbolt.go
+++ b/pkg/ldbbolt/ldbbolt.go
@@ -49,6 +49,7 @@ var (
 	ErrEntryAlreadyExists = errors.New("entry already exists")
 	ErrEntryNotFound      = errors.New("entry does not exist")
 	ErrNonLeafEntry       = errors.New("entry is not a leaf entry")
+	ErrEmptyDN            = errors.New("empty DN")
 )
 
 func (bdb *LdbBolt) Configure(logger logrus.FieldLogger, baseDN, dbfile string, options *bolt.Options) error {
@@ -180,7 +181,13 @@ func (bdb *LdbBolt) EntryPut(e *ldap.Entry) error {
 		panic(err)
 	}
 
-	dn, _ := ldap.ParseDN(e.DN)
+	dn, err := ldap.ParseDN(e.DN)
+	if err != nil {
+		return err
+	}
+	if len(dn.RDNs) == 0 {
+		return ErrEmptyDN
+	}
 	parentDN := &ldap.DN{
 		RDNs: dn.RDNs[1:],
 	}
@@ -191,7 +198,7 @@ func (bdb *LdbBolt) EntryPut(e *ldap.Entry) error {
 	}
 
 	nParentDN := ldapdn.Normalize(parentDN)
-	err := bdb.db.Update(func(tx *bolt.Tx) error {
+	err = bdb.db.Update(func(tx *bolt.Tx) error {
 		id2entry := tx.Bucket([]byte("id2entry"))
 		id := bdb.getIDByDN(tx, nDN)
 		if id != 0 {
@@ -224,6 +231,9 @@ func (bdb *LdbBolt) EntryDelete(dn string) error {
 	if err != nil {
 		return err
 	}
+	if len(parsed.RDNs) == 0 {
+		return ErrEmptyDN
+	}
 	pparentDN := &ldap.DN{
 		RDNs: parsed.RDNs[1:],
 	}
@@ -322,6 +332,13 @@ func (bdb *LdbBolt) EntryModifyDN(req *ldap.ModifyDNRequest) error {
 		return err
 	}
 
+	if len(olddn.RDNs) == 0 {
+		return ErrEmptyDN
+	}
+	if len(newrdn.RDNs) != 1 {
+		return ldap.NewError(ldap.LDAPResultInvalidDNSyntax, errors.New("new RDN must be a single RDN"))
+	}
+
 	var newDN ldap.DN
 
 	newDN.RDNs = []*ldap.RelativeDN{newrdn.RDNs[0]}
-- 
2.43.0


From a9226b076abde8910454f1f03a9bae0b60d5f991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:08:26 +0000
Subject: [PATCH 04/34] fix: ldbbolt: refuse to rename the base entry out of
 the database

---
 pkg/ldbbolt/ldbbolt.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/ldbbolt/ldbbolt.go b/pkg/ldbbolt/ldbbolt.go
index d906b18..017cbb7 100644
--- a/pkg/ldbbolt/ldbbolt.go
+++ b/pkg/ldbbolt/ldbbolt.go
@@ -348,6 +348,11 @@ func (bdb *LdbBolt) EntryModifyDN(req *ldap.ModifyDNRequest) error {
 		flatNewDN := ldapdn.Normalize(&newDN)
 		flatOldDN := ldapdn.Normalize(olddn)
 
+		// the base entry has to stay where it is
+		if flatOldDN == bdb.base {
+			return ldap.NewError(ldap.LDAPResultUnwillingToPerform, errors.New("renaming the base entry is not supported"))
+		}
+
 		// error out if there is an entry with the new name already
 		if id := bdb.getIDByDN(tx, flatNewDN); id != 0 {
 			return ErrEntryAlreadyExists
-- 
2.43.0


From 10f91ae54cc6eeeede70da3ad0bcba2c38b75441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:08:26 +0000
Subject: [PATCH 05/34] fix: ldappassword: reject malformed stored passwords
 instead of panicking

---
 pkg/ldappassword/ldappassword.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/pkg/ldappassword/ldappassword.go b/pkg/ldappassword/ldappassword.go
index d4c801c..998f565 100644
--- a/pkg/ldappassword/ldappassword.go
+++ b/pkg/ldappassword/ldappassword.go
@@ -22,6 +22,9 @@ var Argon2DefaultParams = argon2id.DefaultParams
 
 func Validate(password string, hash string) (bool, error) {
 	algorithm := ""
+	if hash == "" {
+		return false, fmt.Errorf("no password set")
+	}
 	if hash[0] == '{' {
 		algorithmEnd := strings.Index(hash[0:], "}")
 		if algorithmEnd >= 1 {
@@ -41,6 +44,13 @@ func Validate(password string, hash string) (bool, error) {
 	case "{ARGON2}":
 		// Follows the format used by the Argon2 reference C implementation and looks like this:
 		// $argon2id$v=19$m=65536,t=3,p=2$c29tZXNhbHQ$RdescudvJCsgt3ub+b+dWRWJTmaaJObG
+		params, _, _, err := argon2id.DecodeHash(hash)
+		if err != nil {
+			return false, fmt.Errorf("argon2 error: %w", err)
+		}
+		if params.Iterations < 1 || params.Parallelism < 1 {
+			return false, fmt.Errorf("argon2 error: invalid parameters")
+		}
 		match, err := argon2id.ComparePasswordAndHash(password, hash)
 		if err != nil {
 			return false, fmt.Errorf("argon2 error: %w", err)
@@ -51,6 +61,9 @@ func Validate(password string, hash string) (bool, error) {
 		return true, nil
 
 	case "{CRYPT}":
+		if len(hash) < 2 {
+			return false, fmt.Errorf("crypt error: hash too short")
+		}
 		// By default the salt is a two character string.
 		salt := hash[:2]
 		if hash[0] == '$' {
@@ -74,6 +87,9 @@ func Validate(password string, hash string) (bool, error) {
 		if err != nil {
 			return false, fmt.Errorf("ssha error: %w", err)
 		}
+		if len(decodedBytes) < 4 {
+			return false, fmt.Errorf("ssha error: hash too short")
+		}
 		salt := decodedBytes[len(decodedBytes)-4:]
 		h := sha1.New() //nolint,gosec
 		h.Write([]byte(password))
-- 
2.43.0


From 0a2e7e6fdcc10fad275fa1676e43ce42c4a0a8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:08:26 +0000
Subject: [PATCH 06/34] fix: ldapserver: do not crash on extended operation
 errors without a cause

---
 pkg/ldapserver/extended.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/ldapserver/extended.go b/pkg/ldapserver/extended.go
index 83ad790..751f27c 100644
--- a/pkg/ldapserver/extended.go
+++ b/pkg/ldapserver/extended.go
@@ -33,7 +33,9 @@ func HandleExtendedRequest(req *ber.Packet, boundDN string, server *Server, conn
 		msg := ""
 		if err != nil {
 			if lerr, ok := err.(*ldap.Error); ok {
-				msg = lerr.Err.Error()
+				if lerr.Err != nil {
+					msg = lerr.Err.Error()
+				}
 				resCode = LDAPResultCode(lerr.ResultCode)
 			} else {
 				msg = err.Error()
-- 
2.43.0


From 3da0a41a9e4adc9eec8af0ccb94ab3b0cd2d2f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:08:26 +0000
Subject: [PATCH 07/34] fix: ldapserver: do not crash on incomplete changes in
 modify requests

---
 pkg/ldapserver/modify.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/ldapserver/modify.go b/pkg/ldapserver/modify.go
index f9f4c20..bed1258 100644
--- a/pkg/ldapserver/modify.go
+++ b/pkg/ldapserver/modify.go
@@ -82,6 +82,9 @@ func parseModList(req *ber.Packet) ([]ldap.Change, error) {
 
 	for _, c := range req.Children {
 		var change ldap.Change
+		if len(c.Children) != 2 || c.Children[0].Data.Len() == 0 {
+			return nil, ldap.NewError(ldap.LDAPResultProtocolError, errors.New("error decoding change"))
+		}
 		switch c.Children[0].Data.Bytes()[0] {
 		default:
 			return nil, ldap.NewError(ldap.LDAPResultDecodingError, errors.New("invalid change operation"))
-- 
2.43.0


From 085800130f482753ecc16c3423e2fa525e5d17fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:08:26 +0000
Subject: [PATCH 08/34] fix: ldapentry: apply delete changes on top of the
 preceding changes of the request

---
 pkg/ldapentry/ldapentry.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/ldapentry/ldapentry.go b/pkg/ldapentry/ldapentry.go
index d2e83ad..aa2de08 100644
--- a/pkg/ldapentry/ldapentry.go
+++ b/pkg/ldapentry/ldapentry.go
@@ -65,7 +65,7 @@ func ApplyModify(old *ldap.Entry, mod *ldap.ModifyRequest) (newEntry *ldap.Entry
 					}
 				}
 			}
-			newValues := entryApplyModDelete(old.GetEqualFoldAttributeValues(nType), c.Modification.Vals)
+			newValues := entryApplyModDelete(newEntry.GetEqualFoldAttributeValues(nType), c.Modification.Vals)
 			newEntry.Attributes = entryReplaceValues(newEntry.Attributes, c.Modification.Type, newValues)
 		}
 	}
-- 
2.43.0


From a920d561eef791ef84fc3664b63f6d43e41f81ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:08:26 +0000
Subject: [PATCH 09/34] fix: ldapserver: release the statistics lock after
 counting an add

---
 pkg/ldapserver/stats.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/ldapserver/stats.go b/pkg/ldapserver/stats.go
index c18e627..2b30685 100644
--- a/pkg/ldapserver/stats.go
+++ b/pkg/ldapserver/stats.go
@@ -47,7 +47,7 @@ func (stats *Stats) countAdds(delta uint64) {
 	if stats != nil {
 		stats.statsMutex.Lock()
 		stats.Adds += delta
-		stats.statsMutex.Lock()
+		stats.statsMutex.Unlock()
 	}
 }
 
-- 
2.43.0


From 14bb8f987a412d0ce625e666567a5fb97e5dafb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:08:26 +0000
Subject: [PATCH 10/34] fix: ldapserver: report the maximum number of
 connections

---
 pkg/ldapserver/stats.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/ldapserver/stats.go b/pkg/ldapserver/stats.go
index 2b30685..2a1dbcd 100644
--- a/pkg/ldapserver/stats.go
+++ b/pkg/ldapserver/stats.go
@@ -106,6 +106,7 @@ func (stats *Stats) Clone() *Stats {
 		stats.statsMutex.RLock()
 		s2.Conns = stats.Conns
 		s2.ConnsCurrent = stats.ConnsCurrent
+		s2.ConnsMax = stats.ConnsMax
 		s2.Adds = stats.Adds
 		s2.Binds = stats.Binds
 		s2.Deletes = stats.Deletes
-- 
2.43.0


From a0d922c407de90a0ce997d7b0ee3603f3605a073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:08:26 +0000
Subject: [PATCH 11/34] fix: ldapserver: return the generated password instead
 of its hash

---
 pkg/ldapserver/pwmodifyexop.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/ldapserver/pwmodifyexop.go b/pkg/ldapserver/pwmodifyexop.go
index 8d71965..b7654c5 100644
--- a/pkg/ldapserver/pwmodifyexop.go
+++ b/pkg/ldapserver/pwmodifyexop.go
@@ -49,6 +49,7 @@ func HandlePasswordModifyExOp(req *ber.Packet, boundDN string, server *Server, c
 		}
 		passwordGenerated = true
 	}
+	clearPassword := pwReq.NewPassword
 	pwReq.NewPassword, err = ldappassword.Hash(pwReq.NewPassword, "{ARGON2}")
 	if err != nil {
 		return nil, ldap.NewError(ldap.LDAPResultOperationsError, err)
@@ -77,7 +78,7 @@ func HandlePasswordModifyExOp(req *ber.Packet, boundDN string, server *Server, c
 	var response *ber.Packet
 	if passwordGenerated {
 		response = ber.NewSequence("PasswdModifyResponseValue")
-		response.AppendChild(ber.NewString(ber.ClassContext, ber.TypePrimitive, 0, pwReq.NewPassword, "genPasswd"))
+		response.AppendChild(ber.NewString(ber.ClassContext, ber.TypePrimitive, 0, clearPassword, "genPasswd"))
 	}
 	return response, nil
 }
-- 
2.43.0


From 2ac685b0cec44a7c96c05302a93c5b4caf519181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:08:26 +0000
Subject: [PATCH 12/34] fix: ldapserver: keep accepting connections after
 temporary accept errors

---
 pkg/ldapserver/server.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/ldapserver/server.go b/pkg/ldapserver/server.go
index e7aa604..6fcfdf4 100644
--- a/pkg/ldapserver/server.go
+++ b/pkg/ldapserver/server.go
@@ -12,6 +12,7 @@ import (
 	"log"
 	"net"
 	"strings"
+	"time"
 
 	ber "github.com/go-asn1-ber/asn1-ber"
 	"github.com/go-ldap/ldap/v3"
@@ -186,6 +187,11 @@ func (server *Server) Serve(ln net.Listener) error {
 		for {
 			conn, err := ln.Accept()
 			if err != nil {
+				if ne, ok := err.(net.Error); ok && ne.Temporary() { //nolint:staticcheck
+					logger.Error(err, "Temporary error accepting network connection")
+					time.Sleep(50 * time.Millisecond)
+					continue
+				}
 				if !strings.HasSuffix(err.Error(), "use of closed network connection") {
 					logger.Error(err, "Error accepting network connection")
 				}
-- 
2.43.0


From 8c02f5fb867af22496fde85708c96f559b873c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:08:26 +0000
Subject: [PATCH 13/34] fix: ldapserver: return each attribute once even if
 requested repeatedly

---
 pkg/ldapserver/search.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/ldapserver/search.go b/pkg/ldapserver/search.go
index 992707d..ab9224a 100644
--- a/pkg/ldapserver/search.go
+++ b/pkg/ldapserver/search.go
@@ -164,6 +164,7 @@ func filterAttributes(entry *ldap.Entry, attributes []string) (*ldap.Entry, erro
 		for _, requested := range attributes {
 			if requested == "*" || strings.EqualFold(attr.Name, requested) {
 				newAttributes = append(newAttributes, attr)
+				break
 			}
 		}
 	}
-- 
2.43.0


From c5922ed36104a0b4d701fee349ed9ea8963415f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:08:26 +0000
Subject: [PATCH 14/34] fix: ldapserver: handle escaped commas in names for one
 level searches

---
 pkg/ldapserver/filter.go | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/pkg/ldapserver/filter.go b/pkg/ldapserver/filter.go
index 1ec4cc1..5b50756 100644
--- a/pkg/ldapserver/filter.go
+++ b/pkg/ldapserver/filter.go
@@ -163,15 +163,10 @@ func ServerFilterScope(baseDN string, scope int, entry *ldap.Entry) (bool, LDAPR
 			return false, ldap.LDAPResultSuccess
 		}
 	case ldap.ScopeSingleLevel: // The scope is constrained to the immediate subordinates of the entry named by baseObject.
-		parts := strings.Split(entry.DN, ",")
-		if len(parts) < 2 && !parsedDn.EqualFold(parsedBaseDn) {
+		if len(parsedDn.RDNs) == 0 {
 			return false, ldap.LDAPResultSuccess
 		}
-		subDn := strings.Join(parts[1:], ",")
-		parsedSubDn, err := ldap.ParseDN(subDn)
-		if err != nil {
-			return false, ldap.LDAPResultOperationsError
-		}
+		parsedSubDn := &ldap.DN{RDNs: parsedDn.RDNs[1:]}
 		if !parsedSubDn.EqualFold(parsedBaseDn) {
 			return false, ldap.LDAPResultSuccess
 		}
-- 
2.43.0


From 1aee830884212abb3a13bd76fdd9adeb01d6471e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:08:26 +0000
Subject: [PATCH 15/34] fix: ldapserver: evaluate all parts of a substrings
 filter

---
 pkg/ldapserver/filter.go | 47 ++++++++++++++++++++++++++--------------
 1 file changed, 31 insertions(+), 16 deletions(-)

diff --git a/pkg/ldapserver/filter.go b/pkg/ldapserver/filter.go
index 5b50756..5b6de39 100644
--- a/pkg/ldapserver/filter.go
+++ b/pkg/ldapserver/filter.go
@@ -110,25 +110,11 @@ func ServerApplyFilter(f *ber.Packet, entry *ldap.Entry) (bool, LDAPResultCode)
 			return false, ldap.LDAPResultOperationsError
 		}
 		attribute := f.Children[0].Value.(string)
-		bytes := f.Children[1].Children[0].Data.Bytes()
-		value := casefold.String(string(bytes))
 		for _, a := range entry.Attributes {
 			if strings.EqualFold(a.Name, attribute) {
 				for _, v := range a.Values {
-					v = casefold.String(v)
-					switch f.Children[1].Children[0].Tag {
-					case FilterSubstringsInitial:
-						if strings.HasPrefix(v, value) {
-							return true, ldap.LDAPResultSuccess
-						}
-					case FilterSubstringsAny:
-						if strings.Contains(v, value) {
-							return true, ldap.LDAPResultSuccess
-						}
-					case FilterSubstringsFinal:
-						if strings.HasSuffix(v, value) {
-							return true, ldap.LDAPResultSuccess
-						}
+					if substringsMatch(f.Children[1].Children, casefold.String(v)) {
+						return true, ldap.LDAPResultSuccess
 					}
 				}
 			}
@@ -146,6 +132,35 @@ func ServerApplyFilter(f *ber.Packet, entry *ldap.Entry) (bool, LDAPResultCode)
 	return false, ldap.LDAPResultSuccess
 }
 
+// substringsMatch checks that all parts of a substrings filter occur in the
+// value, in order and without overlapping.
+func substringsMatch(parts []*ber.Packet, v string) bool {
+	for _, part := range parts {
+		value := casefold.String(string(part.Data.Bytes()))
+		switch part.Tag {
+		case FilterSubstringsInitial:
+			if !strings.HasPrefix(v, value) {
+				return false
+			}
+			v = v[len(value):]
+		case FilterSubstringsAny:
+			i := strings.Index(v, value)
+			if i < 0 {
+				return false
+			}
+			v = v[i+len(value):]
+		case FilterSubstringsFinal:
+			if !strings.HasSuffix(v, value) {
+				return false
+			}
+			v = ""
+		default:
+			return false
+		}
+	}
+	return len(parts) > 0
+}
+
 func ServerFilterScope(baseDN string, scope int, entry *ldap.Entry) (bool, LDAPResultCode) {
 	// constrained search scope
 	parsedBaseDn, err := ldap.ParseDN(baseDN)
-- 
2.43.0


From 7e63d2133f6fe1e7a25f8893437b46e85fca2097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:50:49 +0000
Subject: [PATCH 16/34] fix: server: do not lose the termination signal to a
 pending reload signal

---
 server/server.go | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/server/server.go b/server/server.go
index ecbd250..dfd3d39 100644
--- a/server/server.go
+++ b/server/server.go
@@ -115,6 +115,7 @@ func (s *Server) Serve(ctx context.Context) error {
 	errCh := make(chan error, 2)
 	exitCh := make(chan struct{}, 1)
 	signalCh := make(chan os.Signal, 1)
+	reloadCh := make(chan os.Signal, 1)
 	readyCh := make(chan struct{}, 1)
 	triggerCh := make(chan bool, 1)
 
@@ -201,20 +202,21 @@ func (s *Server) Serve(ctx context.Context) error {
 
 	// Wait for exit or error, with support for HUP to reload
 	err = func() error {
-		signal.Notify(signalCh, syscall.SIGINT, syscall.SIGTERM, syscall.SIGHUP)
+		// Use separate channels, otherwise a pending reload signal makes the
+		// termination signal get lost.
+		signal.Notify(signalCh, syscall.SIGINT, syscall.SIGTERM)
+		signal.Notify(reloadCh, syscall.SIGHUP)
 		for {
 			select {
 			case errFromChannel := <-errCh:
 				return errFromChannel
-			case reason := <-signalCh:
-				if reason == syscall.SIGHUP {
-					logger.Infoln("reload signal received")
-					select {
-					case triggerCh <- true:
-					default:
-					}
-					continue
+			case <-reloadCh:
+				logger.Infoln("reload signal received")
+				select {
+				case triggerCh <- true:
+				default:
 				}
+			case reason := <-signalCh:
 				logger.WithField("signal", reason).Warnln("received signal")
 				return nil
 			}
-- 
2.43.0


From 849a7fe7ec61e5b25029f369093908404a0f5d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:51:11 +0000
Subject: [PATCH 17/34] fix: ldapserver: do not crash on malformed request
 controls

---
 pkg/ldapserver/server.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pkg/ldapserver/server.go b/pkg/ldapserver/server.go
index 6fcfdf4..1a4f02e 100644
--- a/pkg/ldapserver/server.go
+++ b/pkg/ldapserver/server.go
@@ -8,6 +8,7 @@ package ldapserver
 import (
 	"crypto/tls"
 	"errors"
+	"fmt"
 	"io"
 	"log"
 	"net"
@@ -250,7 +251,7 @@ handler:
 		controls := []ldap.Control{}
 		if len(packet.Children) > 2 {
 			for _, child := range packet.Children[2].Children {
-				c, err := ldap.DecodeControl(child)
+				c, err := decodeControl(child)
 				if err != nil {
 					logger.Error(err, "handleConnection decode control")
 					continue
@@ -447,6 +448,17 @@ handler:
 	server.Stats.countConnsClose(1)
 }
 
+// decodeControl decodes a request control. The underlying decoder panics on
+// several kinds of malformed controls, which must not affect other clients.
+func decodeControl(packet *ber.Packet) (c ldap.Control, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			c, err = nil, fmt.Errorf("malformed control: %v", r)
+		}
+	}()
+	return ldap.DecodeControl(packet)
+}
+
 func sendPacket(conn net.Conn, packet *ber.Packet) error {
 	_, err := conn.Write(packet.Bytes())
 	if err != nil {
-- 
2.43.0


From af084b881bd948786d39e6a7e6b5d606c4471831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:51:12 +0000
Subject: [PATCH 18/34] fix: ldapserver: keep accepting after any accept error

---
 pkg/ldapserver/server.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/pkg/ldapserver/server.go b/pkg/ldapserver/server.go
index 1a4f02e..dfa5677 100644
--- a/pkg/ldapserver/server.go
+++ b/pkg/ldapserver/server.go
@@ -188,15 +188,13 @@ func (server *Server) Serve(ln net.Listener) error {
 		for {
 			conn, err := ln.Accept()
 			if err != nil {
-				if ne, ok := err.(net.Error); ok && ne.Temporary() { //nolint:staticcheck
-					logger.Error(err, "Temporary error accepting network connection")
-					time.Sleep(50 * time.Millisecond)
-					continue
-				}
-				if !strings.HasSuffix(err.Error(), "use of closed network connection") {
-					logger.Error(err, "Error accepting network connection")
+				if errors.Is(err, net.ErrClosed) {
+					break
 				}
-				break
+				// Might be out of some resource, keep on trying.
+				logger.Error(err, "Error accepting network connection")
+				time.Sleep(50 * time.Millisecond)
+				continue
 			}
 			logger.V(1).Info("New Connection", "addr", ln.Addr())
 			newConn <- conn
-- 
2.43.0


From 638c5cfdc07cdc72e5faaa6c2eff2b9534c1f76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:05:10 +0000
Subject: [PATCH 19/34] fix: ldif: do not cut off values loaded with
 formatAsFileBase64

The base64 encoder was never closed, so the last one or two bytes of the
file were missing in the value.
---
 server/handler/ldif/template.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server/handler/ldif/template.go b/server/handler/ldif/template.go
index 846ffb1..5403ca8 100644
--- a/server/handler/ldif/template.go
+++ b/server/handler/ldif/template.go
@@ -109,6 +109,10 @@ func TemplateFuncs(m map[string]interface{}, options *Options) template.FuncMap
 			if err != nil {
 				return "", fmt.Errorf("LDIF template formatAsFile error: %w", err)
 			}
+			// The last bytes are only written on close.
+			if err = encoder.Close(); err != nil {
+				return "", fmt.Errorf("LDIF template formatAsFile error: %w", err)
+			}
 			if n > formatAsFileSizeLimit {
 				return "", fmt.Errorf("LDIF template formatAsFile size limit exceeded: %s", fn)
 			}
-- 
2.43.0


From a7eac96faf889c93de57be256f76a2f24c3920f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:05:10 +0000
Subject: [PATCH 20/34] fix: ldif: fail when a source cannot be read to its end

A read error, or a line too long for the scanner, ended the input without
an error and the part before it was served as the whole directory.
---
 server/handler/ldif/ldif.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/handler/ldif/ldif.go b/server/handler/ldif/ldif.go
index 1a77222..95b17e0 100644
--- a/server/handler/ldif/ldif.go
+++ b/server/handler/ldif/ldif.go
@@ -106,6 +106,9 @@ func parseLDIFTemplate(r io.Reader, options *Options, m map[string]interface{})
 		}
 		text = append(text, scanner.Text())
 	}
+	if err := scanner.Err(); err != nil {
+		return nil, fmt.Errorf("failed to read LDIF template: %w", err)
+	}
 
 	if m == nil {
 		m = make(map[string]interface{})
-- 
2.43.0


From 2834b638e957258cacdc564aa893d6805e529f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:05:10 +0000
Subject: [PATCH 21/34] fix: ldif: do not ignore errors reading the source
 directory

Such errors made the directory appear empty, and an empty LDAP directory
was served.
---
 server/handler/ldif/ldif.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/server/handler/ldif/ldif.go b/server/handler/ldif/ldif.go
index 95b17e0..758d23f 100644
--- a/server/handler/ldif/ldif.go
+++ b/server/handler/ldif/ldif.go
@@ -46,10 +46,17 @@ func parseLDIFFile(fn string, options *Options) (*ldif.LDIF, error) {
 // parseLDIFDirectory opens all ldif files in the given path in sorted order,
 // cats them all together and parses the result as LDIF.
 func parseLDIFDirectory(pn string, options *Options) (*ldif.LDIF, []error, error) {
-	matches, err := filepath.Glob(filepath.Join(pn, "*.ldif"))
+	// NOTE: filepath.Glob is no option here, since it ignores read errors.
+	dirEntries, err := os.ReadDir(pn)
 	if err != nil {
 		return nil, nil, err
 	}
+	var matches []string
+	for _, dirEntry := range dirEntries {
+		if strings.HasSuffix(dirEntry.Name(), ".ldif") {
+			matches = append(matches, filepath.Join(pn, dirEntry.Name()))
+		}
+	}
 	sort.Slice(matches, func(i, j int) bool {
 		return matches[i] < matches[j]
 	})
-- 
2.43.0


From df4925205f4c5dd785710e58cc5db8213b36f391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:05:10 +0000
Subject: [PATCH 22/34] fix: ldif: keep the old configuration when the reload
 fails

The new configuration was put in place before the main source was
reloaded, so a failing reload left a mix of old and new data.
---
 server/handler/ldif/middleware.go | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/server/handler/ldif/middleware.go b/server/handler/ldif/middleware.go
index f314444..08c2267 100644
--- a/server/handler/ldif/middleware.go
+++ b/server/handler/ldif/middleware.go
@@ -57,35 +57,35 @@ func NewLDIFMiddleware(logger logrus.FieldLogger, fn string, options *Options) (
 		baseDN: strings.ToLower(options.BaseDN),
 	}
 
-	err = h.open()
+	value, err := h.open()
 	if err != nil {
 		return nil, err
 	}
+	h.current.Store(value)
 
 	return h, nil
 }
 
-func (h *ldifMiddleware) open() error {
+func (h *ldifMiddleware) open() (*ldifMemoryValue, error) {
 	if !strings.EqualFold(h.options.BaseDN, h.baseDN) {
-		return fmt.Errorf("mismatched BaseDN")
+		return nil, fmt.Errorf("mismatched BaseDN")
 	}
 
 	h.logger.Debugln("loading LDIF")
 	l, err := parseLDIFFile(h.fn, h.options)
 	if err != nil {
-		return err
+		return nil, err
 	}
 
 	t, err := treeFromLDIF(l, nil, h.options)
 	if err != nil {
-		return err
+		return nil, err
 	}
 
-	// Store parsed data as memory value.
+	// Return parsed data as memory value.
 	value := &ldifMemoryValue{
 		t: t,
 	}
-	h.current.Store(value)
 
 	h.logger.WithFields(logrus.Fields{
 		"version":       l.Version,
@@ -94,7 +94,7 @@ func (h *ldifMiddleware) open() error {
 		"base_dn":       h.options.BaseDN,
 	}).Debugln("loaded LDIF")
 
-	return nil
+	return value, nil
 }
 
 func (h *ldifMiddleware) load() *ldifMemoryValue {
@@ -120,12 +120,20 @@ func (h *ldifMiddleware) WithContext(ctx context.Context) handler.Handler {
 }
 
 func (h *ldifMiddleware) Reload(ctx context.Context) error {
-	err := h.open()
+	value, err := h.open()
 	if err != nil {
 		return err
 	}
 
-	return h.next.Reload(ctx)
+	err = h.next.Reload(ctx)
+	if err != nil {
+		return err
+	}
+
+	// Only put the new data in place once everything has been reloaded.
+	h.current.Store(value)
+
+	return nil
 }
 
 func (h *ldifMiddleware) Add(_ string, _ *ldap.AddRequest, _ net.Conn) (ldapserver.LDAPResultCode, error) {
-- 
2.43.0


From 931547e33a95c6dc0e6853427516f1b2357b0a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:05:10 +0000
Subject: [PATCH 23/34] fix: ldif: ignore case in the substring indexes

Substring filters match case-insensitively, but the index lookup did not,
so matching entries were missing in the result.
---
 server/handler/ldif/index.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/server/handler/ldif/index.go b/server/handler/ldif/index.go
index 42c20fc..e956aaa 100644
--- a/server/handler/ldif/index.go
+++ b/server/handler/ldif/index.go
@@ -83,7 +83,7 @@ func newIndexSuffixTree() *indexSuffixTree {
 
 func (ist indexSuffixTree) Add(name, op string, values []string, entry *ldifEntry) bool {
 	for _, value := range values {
-		sfx := []byte(value)
+		sfx := []byte(strings.ToLower(value))
 		var entries []*ldifEntry
 		if v, ok := ist.t.Get(sfx); ok {
 			entries = v.([]*ldifEntry)
@@ -96,7 +96,7 @@ func (ist indexSuffixTree) Add(name, op string, values []string, entry *ldifEntr
 
 func (ist indexSuffixTree) Load(name, op string, value ...string) ([]*ldifEntry, bool) {
 	var entries []*ldifEntry
-	sfx := []byte(value[0])
+	sfx := []byte(strings.ToLower(value[0]))
 	ist.t.WalkSuffix(sfx, func(key []byte, value interface{}) bool {
 		entries = append(entries, value.([]*ldifEntry)...)
 		return false
@@ -116,7 +116,7 @@ func newIndexRadixTree() *indexRadixTree {
 
 func (irt *indexRadixTree) Add(name, op string, values []string, entry *ldifEntry) bool {
 	for _, value := range values {
-		pfx := value
+		pfx := strings.ToLower(value)
 		var entries []*ldifEntry
 		if v, ok := irt.t.Get(pfx); ok {
 			entries = v.([]*ldifEntry)
@@ -129,7 +129,7 @@ func (irt *indexRadixTree) Add(name, op string, values []string, entry *ldifEntr
 
 func (irt *indexRadixTree) Load(name, op string, value ...string) ([]*ldifEntry, bool) {
 	var entries []*ldifEntry
-	pfx := value[0]
+	pfx := strings.ToLower(value[0])
 	irt.t.WalkPrefix(pfx, func(key string, value interface{}) bool {
 		entries = append(entries, value.([]*ldifEntry)...)
 		return false
-- 
2.43.0


From 3e8ddfe8b2435d3b31e7477ea38fabcdc4cd1c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:06:14 +0000
Subject: [PATCH 24/34] fix: ldif: do not miss entries because of the index
 with or and not filters

Alternatives which cannot be looked up in an index (negations, object
classes next to other attributes) were left out of the lookup, so the
entries matching only those alternatives were missing in the result.
---
 server/handler/ldif/filter.go | 77 ++++++++++++++++++++---------------
 1 file changed, 44 insertions(+), 33 deletions(-)

diff --git a/server/handler/ldif/filter.go b/server/handler/ldif/filter.go
index cf32e50..a400a56 100644
--- a/server/handler/ldif/filter.go
+++ b/server/handler/ldif/filter.go
@@ -23,39 +23,32 @@ func parseFilterToIndexFilter(filter string) ([][]string, error) {
 	}
 
 	var result [][]string
-	matches, err := parseFilterMatchLeavesForIndex(f, nil, "")
+	matches, err := parseFilterMatchLeavesForIndex(f, "")
 	if err != nil {
 		return nil, fmt.Errorf("parse filter for index failed: %w", err)
-	} else {
-		withObjectClass := true
-		if len(matches) > 1 {
-			// NOTE(longsleep): In case of more than one filter, we remove the
-			// index lookup for objectClass since pretty much everything has
-			// an object class anyways and our index lookup does not support
-			// "and" lookups. Thus this gains a lot of efficiency.
-			for _, f := range matches {
-				if !strings.EqualFold("objectClass", f[1]) {
-					withObjectClass = false
-					break
-				}
-			}
-		}
-		for _, f := range matches {
-			if !withObjectClass && strings.EqualFold("objectClass", f[1]) {
-				continue
-			}
-			result = append(result, f[1:])
-		}
 	}
-	return result, err
+	for _, f := range matches {
+		result = append(result, f[1:])
+	}
+	return result, nil
 }
 
-func parseFilterMatchLeavesForIndex(f *ber.Packet, parent [][]string, level string) ([][]string, error) {
-	var err error
-
-	if parent == nil {
-		parent = make([][]string, 0)
+// onlyObjectClass returns true if all the provided index matches are for the
+// objectClass attribute.
+func onlyObjectClass(matches [][]string) bool {
+	for _, f := range matches {
+		if !strings.EqualFold("objectClass", f[1]) {
+			return false
+		}
 	}
+	return true
+}
+
+// parseFilterMatchLeavesForIndex returns the index lookups which together find
+// all entries which can match the provided filter. The result is empty if the
+// filter can match entries which cannot be found by index lookups.
+func parseFilterMatchLeavesForIndex(f *ber.Packet, level string) ([][]string, error) {
+	var result [][]string
 
 	switch f.Tag {
 	case ldapserver.FilterEqualityMatch:
@@ -64,14 +57,14 @@ func parseFilterMatchLeavesForIndex(f *ber.Packet, parent [][]string, level stri
 		}
 		attribute := f.Children[0].Value.(string)
 		value := f.Children[1].Value.(string)
-		parent = append(parent, []string{level, attribute, "eq", value})
+		result = append(result, []string{level, attribute, "eq", value})
 
 	case ldapserver.FilterPresent:
 		if len(f.Children) != 0 {
 			return nil, errors.New("unsupported number of children in presence match filter")
 		}
 		attribute := f.Data.String()
-		parent = append(parent, []string{level, attribute, "pres", ""})
+		result = append(result, []string{level, attribute, "pres", ""})
 
 	case ldapserver.FilterSubstrings:
 		if len(f.Children) != 2 {
@@ -84,23 +77,41 @@ func parseFilterMatchLeavesForIndex(f *ber.Packet, parent [][]string, level stri
 		value := f.Children[1].Children[0].Value.(string)
 		switch f.Children[1].Children[0].Tag {
 		case ldapserver.FilterSubstringsInitial, ldapserver.FilterSubstringsAny, ldapserver.FilterSubstringsFinal:
-			parent = append(parent, []string{level, attribute, "sub", value, strconv.FormatInt(int64(f.Children[1].Children[0].Tag), 10)})
+			result = append(result, []string{level, attribute, "sub", value, strconv.FormatInt(int64(f.Children[1].Children[0].Tag), 10)})
 		}
 
 	case ldapserver.FilterAnd:
+		// NOTE(longsleep): We use the index lookup for objectClass only if there
+		// is nothing else, since pretty much everything has an object class
+		// anyways and our index lookup does not support "and" lookups. Thus
+		// this gains a lot of efficiency.
+		var withObjectClass [][]string
 		for idx, child := range f.Children {
-			parent, err = parseFilterMatchLeavesForIndex(child, parent, fmt.Sprintf("%s.&%d", level, idx))
+			matches, err := parseFilterMatchLeavesForIndex(child, fmt.Sprintf("%s.&%d", level, idx))
 			if err != nil {
 				return nil, err
 			}
+			if onlyObjectClass(matches) {
+				withObjectClass = append(withObjectClass, matches...)
+			} else {
+				result = append(result, matches...)
+			}
+		}
+		if len(result) == 0 {
+			result = withObjectClass
 		}
 
 	case ldapserver.FilterOr:
 		for idx, child := range f.Children {
-			parent, err = parseFilterMatchLeavesForIndex(child, parent, fmt.Sprintf("%s.|%d", level, idx))
+			matches, err := parseFilterMatchLeavesForIndex(child, fmt.Sprintf("%s.|%d", level, idx))
 			if err != nil {
 				return nil, err
 			}
+			if len(matches) == 0 {
+				// This child can match entries which are not found by index.
+				return nil, nil
+			}
+			result = append(result, matches...)
 		}
 
 	case ldapserver.FilterNot:
@@ -109,5 +120,5 @@ func parseFilterMatchLeavesForIndex(f *ber.Packet, parent [][]string, level stri
 	default:
 	}
 
-	return parent, nil
+	return result, nil
 }
-- 
2.43.0


From 700356315fa21df3f6c8e2f822f0b33849c78d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:06:14 +0000
Subject: [PATCH 25/34] fix: ldif: compare the base of names at component
 boundaries

A name merely ending with the same characters as the base was treated as
being below it.
---
 server/handler/ldif/entry.go      | 19 +++++++++++++++++++
 server/handler/ldif/handler.go    |  9 ++++++---
 server/handler/ldif/middleware.go |  2 +-
 3 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/server/handler/ldif/entry.go b/server/handler/ldif/entry.go
index 150bf61..09c10c2 100644
--- a/server/handler/ldif/entry.go
+++ b/server/handler/ldif/entry.go
@@ -7,6 +7,7 @@ package ldif
 
 import (
 	"fmt"
+	"strings"
 
 	"github.com/go-ldap/ldap/v3"
 
@@ -29,3 +30,21 @@ func (entry *ldifEntry) validatePassword(bindSimplePw string) error {
 	}
 	return nil
 }
+
+// isSameOrBelowDN returns true if dn is baseDN or the name of an entry somewhere
+// below it. Both names must have the same case.
+func isSameOrBelowDN(dn, baseDN string) bool {
+	if !strings.HasSuffix(dn, baseDN) {
+		return false
+	}
+	rest := dn[:len(dn)-len(baseDN)]
+	if rest == "" || baseDN == "" {
+		return true
+	}
+	// What comes before must end with a separator which is not escaped.
+	if !strings.HasSuffix(rest, ",") {
+		return false
+	}
+	rest = rest[:len(rest)-1]
+	return (len(rest)-len(strings.TrimRight(rest, "\\")))%2 == 0
+}
diff --git a/server/handler/ldif/handler.go b/server/handler/ldif/handler.go
index d93dc27..1b460dd 100644
--- a/server/handler/ldif/handler.go
+++ b/server/handler/ldif/handler.go
@@ -250,7 +250,7 @@ func (h *ldifHandler) Search(bindDN string, searchReq *ldap.SearchRequest, conn
 
 	indexFilter, _ := parseFilterToIndexFilter(searchReq.Filter)
 
-	if !strings.HasSuffix(searchBaseDN, h.baseDN) {
+	if !isSameOrBelowDN(searchBaseDN, h.baseDN) {
 		err := fmt.Errorf("ldap search BaseDN is not in our BaseDN %s", h.baseDN)
 		return ldapserver.ServerSearchResult{
 			ResultCode: ldap.LDAPResultInsufficientAccessRights,
@@ -462,7 +462,7 @@ func (h *ldifHandler) searchEntriesPump(ctx context.Context, current *ldifMemory
 						// Prevent duplicates.
 						continue
 					}
-					if strings.HasSuffix(entryRecord.DN, searchBaseDN) {
+					if isSameOrBelowDN(entryRecord.DN, searchBaseDN) {
 						if ok := pump(entryRecord); !ok {
 							return
 						}
@@ -476,6 +476,9 @@ func (h *ldifHandler) searchEntriesPump(ctx context.Context, current *ldifMemory
 		// Walk through all entries (this is slow).
 		h.logger.WithField("filter", searchReq.Filter).Warnln("ldap search filter does not match any index, using slow walk")
 		current.t.WalkSuffix([]byte(searchBaseDN), func(key []byte, entryRecord interface{}) bool {
+			if !isSameOrBelowDN(string(key), searchBaseDN) {
+				return false
+			}
 			if ok := pump(entryRecord.(*ldifEntry)); !ok {
 				return true
 			}
@@ -496,7 +499,7 @@ func (h *ldifHandler) validateBindDN(bindDN string, conn net.Conn) error {
 		return fmt.Errorf("anonymous BindDN not allowed")
 	}
 
-	if strings.HasSuffix(bindDN, h.baseDN) {
+	if isSameOrBelowDN(bindDN, h.baseDN) {
 		return nil
 	}
 	return fmt.Errorf("the BindDN is not in our BaseDN: %s", h.baseDN)
diff --git a/server/handler/ldif/middleware.go b/server/handler/ldif/middleware.go
index 08c2267..8bc660e 100644
--- a/server/handler/ldif/middleware.go
+++ b/server/handler/ldif/middleware.go
@@ -156,7 +156,7 @@ func (h *ldifMiddleware) Bind(bindDN, bindSimplePw string, conn net.Conn) (resul
 			"remote_addr": conn.RemoteAddr().String(),
 		})
 
-		if !strings.HasSuffix(bindDN, h.baseDN) {
+		if !isSameOrBelowDN(bindDN, h.baseDN) {
 			err := fmt.Errorf("the BindDN is not in our BaseDN %s", h.baseDN)
 			logger.WithError(err).Infoln("ldap bind error")
 			return ldap.LDAPResultInvalidCredentials, nil
-- 
2.43.0


From 416d2888c7a89e389f4d0fd4e431fe841a69b168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:08:16 +0000
Subject: [PATCH 26/34] fix: ldif: end paged searches properly

Abandoning a paged search waited forever. A page which was filled by the
last matching entry was answered with a cookie which was refused later. A
search which was interrupted looked like a complete one. Searches with a
size limit kept their worker for one minute.
---
 server/handler/ldif/handler.go | 248 +++++++++++++++++++++------------
 1 file changed, 158 insertions(+), 90 deletions(-)

diff --git a/server/handler/ldif/handler.go b/server/handler/ldif/handler.go
index 1b460dd..8e0462b 100644
--- a/server/handler/ldif/handler.go
+++ b/server/handler/ldif/handler.go
@@ -17,6 +17,7 @@ import (
 	"sync/atomic"
 	"time"
 
+	ber "github.com/go-asn1-ber/asn1-ber"
 	"github.com/go-ldap/ldap/v3"
 	"github.com/go-ldap/ldif"
 	"github.com/longsleep/rndm"
@@ -269,42 +270,46 @@ func (h *ldifHandler) Search(bindDN string, searchReq *ldap.SearchRequest, conn
 		}
 	}
 
-	pumpCh, resultCode := func() (<-chan *ldifEntry, ldapserver.LDAPResultCode) {
-		var pumpCh chan *ldifEntry
-		var start = true
+	filterPacket, err := ldapserver.CompileFilter(searchReq.Filter)
+	if err != nil {
+		return ldapserver.ServerSearchResult{
+			ResultCode: ldap.LDAPResultOperationsError,
+		}, err
+	}
+
+	pump, resultCode := func() (*searchPump, ldapserver.LDAPResultCode) {
+		var pump *searchPump
 		if pagingControl != nil {
 			if len(pagingCookie) == 0 {
 				pagingCookie = []byte(base64.RawStdEncoding.EncodeToString(rndm.GenerateRandomBytes(8)))
 				pagingControl.Cookie = pagingCookie
-				pumpCh = make(chan *ldifEntry)
-				h.activeSearchPagings.Set(string(pagingControl.Cookie), pumpCh)
+				pump = newSearchPump(h.ctx)
+				h.activeSearchPagings.Set(string(pagingControl.Cookie), pump)
 				logger.WithField("paging_cookie", string(pagingControl.Cookie)).Debugln("ldap search paging pump start")
 			} else {
-				pumpChRecord, ok := h.activeSearchPagings.Get(string(pagingControl.Cookie))
+				pumpRecord, ok := h.activeSearchPagings.Get(string(pagingControl.Cookie))
 				if !ok {
 					return nil, ldap.LDAPResultUnwillingToPerform
 				}
+				pump = pumpRecord.(*searchPump)
 				if pagingControl.PagingSize > 0 {
 					logger.WithField("paging_cookie", string(pagingControl.Cookie)).Debugln("ldap search paging pump continue")
-					pumpCh = pumpChRecord.(chan *ldifEntry)
-					start = false
 				} else {
 					// No paging size with cookie, means abandon.
-					start = false
 					logger.WithField("paging_cookie", string(pagingControl.Cookie)).Debugln("search paging pump abandon")
-					// TODO(longsleep): Cancel paging pump context.
 					h.activeSearchPagings.Remove(string(pagingControl.Cookie))
+					pump.cancel()
+					return nil, ldap.LDAPResultSuccess
 				}
+				return pump, ldap.LDAPResultSuccess
 			}
 		} else {
-			pumpCh = make(chan *ldifEntry)
-		}
-		if start {
-			current := h.load()
-			go h.searchEntriesPump(h.ctx, current, pumpCh, searchReq, pagingControl, indexFilter)
+			pump = newSearchPump(h.ctx)
 		}
+		current := h.load()
+		go h.searchEntriesPump(pump, current, searchReq, filterPacket, pagingControl, indexFilter)
 
-		return pumpCh, ldap.LDAPResultSuccess
+		return pump, ldap.LDAPResultSuccess
 	}()
 	if resultCode != ldap.LDAPResultSuccess {
 		err := fmt.Errorf("search unable to perform: %d", resultCode)
@@ -312,84 +317,77 @@ func (h *ldifHandler) Search(bindDN string, searchReq *ldap.SearchRequest, conn
 			ResultCode: resultCode,
 		}, err
 	}
-
-	filterPacket, err := ldapserver.CompileFilter(searchReq.Filter)
-	if err != nil {
+	if pump == nil {
+		// Abandoned.
 		return ldapserver.ServerSearchResult{
-			ResultCode: ldap.LDAPResultOperationsError,
-		}, err
+			Referrals: []string{},
+			Controls: []ldap.Control{&ldap.ControlPaging{
+				PagingSize: 0,
+				Cookie:     []byte{},
+			}},
+			ResultCode: ldap.LDAPResultSuccess,
+		}, nil
+	}
+	if pagingControl == nil {
+		// There is no way to continue, so end the pump in any case.
+		defer pump.cancel()
 	}
 
-	var entryRecord *ldifEntry
 	var entries []*ldap.Entry
 	var entry *ldap.Entry
 	var count uint32
-	var keep bool
 results:
 	for {
-		select {
-		case entryRecord = <-pumpCh:
-			if entryRecord == nil {
-				// All done, set cookie to empty.
-				pagingCookie = []byte{}
-				break results
-
-			} else {
-				entry = entryRecord.Entry
-
-				// Apply filter.
-				keep, resultCode = ldapserver.ServerApplyFilter(filterPacket, entry)
-				if resultCode != ldap.LDAPResultSuccess {
-					return ldapserver.ServerSearchResult{
-						ResultCode: resultCode,
-					}, errors.New("search filter apply error")
-				}
-				if !keep {
-					continue
-				}
-
-				// Filter scope.
-				keep, resultCode = ldapserver.ServerFilterScope(searchReq.BaseDN, searchReq.Scope, entry)
-				if resultCode != ldap.LDAPResultSuccess {
-					return ldapserver.ServerSearchResult{
-						ResultCode: resultCode,
-					}, errors.New("search scope apply error")
-				}
-				if !keep {
-					continue
-				}
+		result, ok := <-pump.ch
+		if !ok {
+			// The pump was cancelled or timed out, so there are entries missing.
+			return ldapserver.ServerSearchResult{
+				ResultCode: ldap.LDAPResultUnavailable,
+			}, errors.New("search ended before it was complete")
+		}
+		if result.err != nil {
+			return ldapserver.ServerSearchResult{
+				ResultCode: result.resultCode,
+			}, result.err
+		}
+		if result.entry != nil {
+			entry = result.entry.Entry
 
-				// Make a copy, before filtering attributes.
-				e := &ldap.Entry{
-					DN:         entry.DN,
-					Attributes: make([]*ldap.EntryAttribute, len(entry.Attributes)),
-				}
-				copy(e.Attributes, entry.Attributes)
-
-				// Filter attributes from entry.
-				resultCode, err = ldapserver.ServerFilterAttributes(searchReq.Attributes, e)
-				if err != nil {
-					return ldapserver.ServerSearchResult{
-						ResultCode: resultCode,
-					}, err
-				}
+			// Make a copy, before filtering attributes.
+			e := &ldap.Entry{
+				DN:         entry.DN,
+				Attributes: make([]*ldap.EntryAttribute, len(entry.Attributes)),
+			}
+			copy(e.Attributes, entry.Attributes)
+
+			// Filter attributes from entry.
+			resultCode, err = ldapserver.ServerFilterAttributes(searchReq.Attributes, e)
+			if err != nil {
+				return ldapserver.ServerSearchResult{
+					ResultCode: resultCode,
+				}, err
+			}
 
-				// Append entry as result.
-				entries = append(entries, e)
+			// Append entry as result.
+			entries = append(entries, e)
+		}
+		if result.last {
+			// All done, set cookie to empty.
+			pagingCookie = []byte{}
+			break results
+		}
 
-				// Count and more.
-				count++
-				if pagingControl != nil {
-					if count >= pagingControl.PagingSize {
-						break results
-					}
-				}
-				if searchReq.SizeLimit > 0 && count >= uint32(searchReq.SizeLimit) {
-					// TODO(longsleep): handle total sizelimit for paging.
-					break results
-				}
+		// Count and more.
+		count++
+		if pagingControl != nil {
+			if count >= pagingControl.PagingSize {
+				break results
 			}
 		}
+		if searchReq.SizeLimit > 0 && count >= uint32(searchReq.SizeLimit) {
+			// TODO(longsleep): handle total sizelimit for paging.
+			break results
+		}
 	}
 
 	if pagingControl != nil {
@@ -407,28 +405,61 @@ results:
 	}, nil
 }
 
-func (h *ldifHandler) searchEntriesPump(ctx context.Context, current *ldifMemoryValue, pumpCh chan<- *ldifEntry, searchReq *ldap.SearchRequest, pagingControl *ldap.ControlPaging, indexFilter [][]string) {
+// searchPump delivers the entries found by a search.
+type searchPump struct {
+	ctx    context.Context
+	cancel context.CancelFunc
+
+	// ch is closed at the end. If that happens without a last result, the
+	// search is not complete.
+	ch chan searchPumpResult
+}
+
+// searchPumpResult is either an entry or an error.
+type searchPumpResult struct {
+	entry *ldifEntry
+	last  bool // Nothing follows. If nothing was found, there is no entry either.
+
+	resultCode ldapserver.LDAPResultCode
+	err        error
+}
+
+func newSearchPump(ctx context.Context) *searchPump {
+	p := &searchPump{
+		ch: make(chan searchPumpResult),
+	}
+	p.ctx, p.cancel = context.WithCancel(ctx)
+	return p
+}
+
+func (h *ldifHandler) searchEntriesPump(searchPump *searchPump, current *ldifMemoryValue, searchReq *ldap.SearchRequest, filterPacket *ber.Packet, pagingControl *ldap.ControlPaging, indexFilter [][]string) {
 	defer func() {
+		if r := recover(); r != nil {
+			h.logger.WithField("panic", r).Errorln("ldap search pump panic")
+		}
+		searchPump.cancel()
 		if pagingControl != nil {
 			h.activeSearchPagings.Remove(string(pagingControl.Cookie))
-			close(pumpCh)
+			close(searchPump.ch)
 			h.logger.WithField("paging_cookie", string(pagingControl.Cookie)).Debugln("ldap search paging pump ended")
 		} else {
-			close(pumpCh)
+			close(searchPump.ch)
 		}
 	}()
 
-	pump := func(entryRecord *ldifEntry) bool {
+	send := func(result searchPumpResult) bool {
+		timeout := time.NewTimer(1 * time.Minute)
+		defer timeout.Stop()
 		select {
-		case pumpCh <- entryRecord:
-		case <-ctx.Done():
+		case searchPump.ch <- result:
+		case <-searchPump.ctx.Done():
 			if pagingControl != nil {
-				h.logger.WithField("paging_cookie", string(pagingControl.Cookie)).Warnln("ldap search paging pump context done")
+				h.logger.WithField("paging_cookie", string(pagingControl.Cookie)).Debugln("ldap search paging pump context done")
 			} else {
-				h.logger.Warnln("ldap search pump context done")
+				h.logger.Debugln("ldap search pump context done")
 			}
 			return false
-		case <-time.After(1 * time.Minute):
+		case <-timeout.C:
 			if pagingControl != nil {
 				h.logger.WithField("paging_cookie", string(pagingControl.Cookie)).Warnln("ldap search paging pump timeout")
 			} else {
@@ -439,6 +470,36 @@ func (h *ldifHandler) searchEntriesPump(ctx context.Context, current *ldifMemory
 		return true
 	}
 
+	// Entries are sent one behind, so that the last one is known to be the last.
+	var pending *ldifEntry
+	pump := func(entryRecord *ldifEntry) bool {
+		// Apply filter.
+		keep, resultCode := ldapserver.ServerApplyFilter(filterPacket, entryRecord.Entry)
+		if resultCode != ldap.LDAPResultSuccess {
+			send(searchPumpResult{resultCode: resultCode, err: errors.New("search filter apply error")})
+			return false
+		}
+		if !keep {
+			return true
+		}
+
+		// Filter scope.
+		keep, resultCode = ldapserver.ServerFilterScope(searchReq.BaseDN, searchReq.Scope, entryRecord.Entry)
+		if resultCode != ldap.LDAPResultSuccess {
+			send(searchPumpResult{resultCode: resultCode, err: errors.New("search scope apply error")})
+			return false
+		}
+		if !keep {
+			return true
+		}
+
+		if pending != nil && !send(searchPumpResult{entry: pending}) {
+			return false
+		}
+		pending = entryRecord
+		return true
+	}
+
 	searchBaseDN := strings.ToLower(searchReq.BaseDN)
 
 	load := true
@@ -475,16 +536,23 @@ func (h *ldifHandler) searchEntriesPump(ctx context.Context, current *ldifMemory
 	if load {
 		// Walk through all entries (this is slow).
 		h.logger.WithField("filter", searchReq.Filter).Warnln("ldap search filter does not match any index, using slow walk")
+		stopped := false
 		current.t.WalkSuffix([]byte(searchBaseDN), func(key []byte, entryRecord interface{}) bool {
 			if !isSameOrBelowDN(string(key), searchBaseDN) {
 				return false
 			}
 			if ok := pump(entryRecord.(*ldifEntry)); !ok {
+				stopped = true
 				return true
 			}
 			return false
 		})
+		if stopped {
+			return
+		}
 	}
+
+	send(searchPumpResult{entry: pending, last: true})
 }
 
 func (h *ldifHandler) validateBindDN(bindDN string, conn net.Conn) error {
-- 
2.43.0


From e2c688df9cb4298a81ea7f61e03b8f7c1a9c50db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:58:51 +0000
Subject: [PATCH 27/34] fix: export values so that they can be read back, and
 report write errors

Values that start with a space, colon or less-than sign were exported
as they are, so they came back differently or broke the import. Such
values, and entry names that need it, are base64 encoded now. A failed
write to standard output is reported instead of being ignored.
---
 cmd/idmd/boltdb/export/export.go | 55 ++++++++++++++++++++++++++------
 1 file changed, 46 insertions(+), 9 deletions(-)

diff --git a/cmd/idmd/boltdb/export/export.go b/cmd/idmd/boltdb/export/export.go
index 773da03..af8d0e6 100644
--- a/cmd/idmd/boltdb/export/export.go
+++ b/cmd/idmd/boltdb/export/export.go
@@ -6,11 +6,14 @@
 package export
 
 import (
+	"bufio"
+	"encoding/base64"
 	"fmt"
+	"io"
 	"os"
+	"strings"
 
 	"github.com/go-ldap/ldap/v3"
-	"github.com/go-ldap/ldif"
 	"github.com/sirupsen/logrus"
 	bolt "go.etcd.io/bbolt"
 
@@ -59,18 +62,52 @@ func (l *LDIFExporter) Export() error {
 		return err
 	}
 
-	ld, err := ldif.ToLDIF(entries)
-	if err != nil {
+	out := bufio.NewWriter(os.Stdout)
+	for _, entry := range entries {
+		writeLine(out, "dn", entry.DN)
+		for _, attr := range entry.Attributes {
+			for _, value := range attr.Values {
+				writeLine(out, attr.Name, value)
+			}
+		}
+		fmt.Fprintln(out)
+	}
+	// The writer keeps the first error and returns it here.
+	if err := out.Flush(); err != nil {
 		l.logger.Error(err)
 		return err
 	}
+	return nil
+}
 
-	output, err := ldif.Marshal(ld)
-	if err != nil {
-		l.logger.Error(err)
-		return err
+// foldWidth is the maximum length of the lines in the output.
+const foldWidth = 76
+
+// writeLine writes name and value as one, possibly folded, LDIF line. The
+// value is base64 encoded unless it is a safe string (RFC 2849).
+func writeLine(w io.Writer, name, value string) {
+	line := name + ": " + value
+	if !isSafeString(value) {
+		line = name + ":: " + base64.StdEncoding.EncodeToString([]byte(value))
+	}
+	for width := foldWidth; len(line) > width; width = foldWidth - 1 {
+		fmt.Fprint(w, line[:width], "\n ")
+		line = line[width:]
 	}
+	fmt.Fprintln(w, line)
+}
 
-	fmt.Print(output)
-	return nil
+func isSafeString(s string) bool {
+	if s == "" {
+		return true
+	}
+	if strings.HasSuffix(s, " ") || strings.ContainsRune(" :<", rune(s[0])) {
+		return false
+	}
+	for i := 0; i < len(s); i++ {
+		if s[i] < ' ' || s[i] > '~' {
+			return false
+		}
+	}
+	return true
 }
-- 
2.43.0


From 722db7ceb4a5fa154717f59f7ac22bc55503edf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:01:02 +0000
Subject: [PATCH 28/34] fix: refuse user lists that are incomplete

A line with five or six fields crashed newusers. A read error or an
overlong line ended the list silently, with success.
---
 cmd/idmd/gen/newusers/newusers.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/idmd/gen/newusers/newusers.go b/cmd/idmd/gen/newusers/newusers.go
index 4c0f135..b383454 100644
--- a/cmd/idmd/gen/newusers/newusers.go
+++ b/cmd/idmd/gen/newusers/newusers.go
@@ -154,7 +154,7 @@ func parsePasswdFile(r io.Reader) ([]*entry, error) {
 
 		// pw_name:pw_passwd:pw_uid:pw_gid:pw_gecos:pw_dir:pw_shell
 		parts := strings.Split(line, ":")
-		if len(parts) < 5 {
+		if len(parts) < 7 {
 			return nil, fmt.Errorf("not enough fields in line %d", count)
 		}
 		e := &entry{
@@ -179,6 +179,9 @@ func parsePasswdFile(r io.Reader) ([]*entry, error) {
 		results = append(results, e)
 
 	}
+	if err := scanner.Err(); err != nil {
+		return nil, fmt.Errorf("failed to read line %d: %w", count+1, err)
+	}
 
 	return results, nil
 }
-- 
2.43.0


From e69f93ba1a1340306d4fb9312c37cbcb36786121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:01:04 +0000
Subject: [PATCH 29/34] fix: never assign a user number twice in newusers

The listed number 0 was replaced by an automatic one that other users
got as well. Automatic numbers no longer wrap around.
---
 cmd/idmd/gen/newusers/newusers.go    | 6 ++----
 cmd/idmd/gen/newusers/output_ldif.go | 4 ++++
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/cmd/idmd/gen/newusers/newusers.go b/cmd/idmd/gen/newusers/newusers.go
index b383454..87ea485 100644
--- a/cmd/idmd/gen/newusers/newusers.go
+++ b/cmd/idmd/gen/newusers/newusers.go
@@ -38,10 +38,8 @@ objectClass: posixAccount
 objectClass: top
 objectClass: inetOrgPerson
 uid: <<.entry.Name>>
-uidNumber: <<with .detail.uidNumber>><<.>><<else>><<AutoIncrement>><<end>>
-<<- with .detail.gidNumber>>
-gidNumber: <<.>>
-<<- end>>
+uidNumber: <<.detail.uidNumber>>
+gidNumber: <<.detail.gidNumber>>
 <<- with .detail.userPassword>>
 userPassword: <<.>>
 <<- end>>
diff --git a/cmd/idmd/gen/newusers/output_ldif.go b/cmd/idmd/gen/newusers/output_ldif.go
index ab862ea..a11dea9 100644
--- a/cmd/idmd/gen/newusers/output_ldif.go
+++ b/cmd/idmd/gen/newusers/output_ldif.go
@@ -8,6 +8,7 @@ package newusers
 import (
 	"fmt"
 	"io"
+	"math"
 	"os"
 	"strconv"
 	"strings"
@@ -109,6 +110,9 @@ func outputLDIF(r io.Reader) error {
 			detail["cn"] = entry.Name
 		}
 		if entry.UID == "" || entry.GID == "" {
+			if autoIncrement == math.MaxInt64 {
+				return fmt.Errorf("no unused number left, line %d", entry.line)
+			}
 			autoIncrement++
 			if entry.UID == "" {
 				detail["uidNumber"] = autoIncrement
-- 
2.43.0


From 7bd3a1aaffea7f4778f109b1ce0b5a9857ab2529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:01:06 +0000
Subject: [PATCH 30/34] fix: report write errors of newusers

Errors while writing the lines around an entry were ignored.
---
 cmd/idmd/gen/newusers/output_ldif.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cmd/idmd/gen/newusers/output_ldif.go b/cmd/idmd/gen/newusers/output_ldif.go
index a11dea9..564e6b1 100644
--- a/cmd/idmd/gen/newusers/output_ldif.go
+++ b/cmd/idmd/gen/newusers/output_ldif.go
@@ -6,6 +6,7 @@
 package newusers
 
 import (
+	"bufio"
 	"fmt"
 	"io"
 	"math"
@@ -28,7 +29,7 @@ func outputLDIF(r io.Reader) error {
 		BaseDN:            DefaultLDIFBaseDN,
 		DefaultMailDomain: DefaultLDIFMailDomain,
 	}
-	out := os.Stdout
+	out := bufio.NewWriter(os.Stdout)
 
 	var details []map[string]interface{}
 	var autoIncrement int64 = 1000
@@ -129,5 +130,9 @@ func outputLDIF(r io.Reader) error {
 		fmt.Fprintf(out, "\n")
 	}
 
+	// The writer keeps the first error and returns it here.
+	if err = out.Flush(); err != nil {
+		return fmt.Errorf("failed to write: %w", err)
+	}
 	return nil
 }
-- 
2.43.0


From a86978b5a4197a200af031ac3d3dcf1bdd49324d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:01:08 +0000
Subject: [PATCH 31/34] fix: encode values of newusers that are not plain text

Names and unhashed passwords with template delimiters or a leading
space, colon or less-than sign made the output impossible to load or
changed the value. An unhashed password that looks like it has a scheme
is refused because nobody could bind with it.
---
 cmd/idmd/gen/newusers/newusers.go    |  8 ++++----
 cmd/idmd/gen/newusers/output_ldif.go |  6 +++++-
 cmd/idmd/gen/newusers/utils.go       | 17 +++++++++++++++++
 3 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/cmd/idmd/gen/newusers/newusers.go b/cmd/idmd/gen/newusers/newusers.go
index 87ea485..583548d 100644
--- a/cmd/idmd/gen/newusers/newusers.go
+++ b/cmd/idmd/gen/newusers/newusers.go
@@ -41,18 +41,18 @@ uid: <<.entry.Name>>
 uidNumber: <<.detail.uidNumber>>
 gidNumber: <<.detail.gidNumber>>
 <<- with .detail.userPassword>>
-userPassword: <<.>>
+<<line "userPassword" .>>
 <<- end>>
 mail: <<.entry.Name>>@{{.MailDomain}}
 <<- range .detail.mail>>
 mailAlternateAddress: <<.>>
 <<- end>>
-cn: <<.detail.cn>>
+<<line "cn" .detail.cn>>
 <<- with .detail.givenName>>
-givenName: <<.>>
+<<line "givenName" .>>
 <<- end>>
 <<- with .detail.sn>>
-sn: <<.>>
+<<line "sn" .>>
 <<- end>>
 `
 
diff --git a/cmd/idmd/gen/newusers/output_ldif.go b/cmd/idmd/gen/newusers/output_ldif.go
index 564e6b1..c5c6636 100644
--- a/cmd/idmd/gen/newusers/output_ldif.go
+++ b/cmd/idmd/gen/newusers/output_ldif.go
@@ -62,7 +62,7 @@ func outputLDIF(r io.Reader) error {
 	}
 
 	m := map[string]interface{}{}
-	tpl, err := template.New("tpl").Delims("<<", ">>").Funcs(ldif.TemplateFuncs(m, options)).Parse(DefaultLDIFUserTemplate)
+	tpl, err := template.New("tpl").Delims("<<", ">>").Funcs(ldif.TemplateFuncs(m, options)).Funcs(template.FuncMap{"line": ldifLine}).Parse(DefaultLDIFUserTemplate)
 	if err != nil {
 		panic(err)
 	}
@@ -77,6 +77,10 @@ func outputLDIF(r io.Reader) error {
 			if hashErr != nil {
 				return hashErr
 			}
+			if hash == entry.Passwd && hash[0] == '{' && strings.Contains(hash, "}") {
+				// Would be taken for the name of a password scheme.
+				return fmt.Errorf("secret not usable without hash in line %d", entry.line)
+			}
 			detail["userPassword"] = hash
 		} else {
 			// Use entry name as password, if none is set.
diff --git a/cmd/idmd/gen/newusers/utils.go b/cmd/idmd/gen/newusers/utils.go
index e8fb7dc..c259503 100644
--- a/cmd/idmd/gen/newusers/utils.go
+++ b/cmd/idmd/gen/newusers/utils.go
@@ -6,7 +6,9 @@
 package newusers
 
 import (
+	"encoding/base64"
 	"regexp"
+	"strings"
 )
 
 var emailRegex = regexp.MustCompile("^[a-zA-Z0-9.!#$%&'*+\\/=?^_`{|}~-]+@[a-zA-Z0-9](?:[a-zA-Z0-9-]{0,61}[a-zA-Z0-9])?(?:\\.[a-zA-Z0-9](?:[a-zA-Z0-9-]{0,61}[a-zA-Z0-9])?)*$")
@@ -17,3 +19,18 @@ func isValidEmail(s string) bool {
 	}
 	return emailRegex.MatchString(s)
 }
+
+// ldifLine returns name and value as LDIF line. The value is base64 encoded
+// if it would otherwise not be taken literally when the LDIF gets loaded.
+func ldifLine(name, value string) string {
+	safe := !strings.HasSuffix(value, " ") && !strings.Contains(value, "{{")
+	for i := 0; i < len(value); i++ {
+		if value[i] < ' ' || value[i] > '~' || i == 0 && strings.IndexByte(" :<", value[i]) >= 0 {
+			safe = false
+		}
+	}
+	if safe {
+		return name + ": " + value
+	}
+	return name + ":: " + base64.StdEncoding.EncodeToString([]byte(value))
+}
-- 
2.43.0


From ad799c59825e38fc5fd51509aaaa585ad9f566e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:24:40 +0000
Subject: [PATCH 32/34] fix: ldapserver: do not run out of stack on deeply
 nested packets

---
 pkg/ldapserver/nesting.go | 88 +++++++++++++++++++++++++++++++++++++++
 pkg/ldapserver/server.go  |  2 +-
 2 files changed, 89 insertions(+), 1 deletion(-)
 create mode 100644 pkg/ldapserver/nesting.go

diff --git a/pkg/ldapserver/nesting.go b/pkg/ldapserver/nesting.go
new file mode 100644
index 0000000..4b4efd2
--- /dev/null
+++ b/pkg/ldapserver/nesting.go
@@ -0,0 +1,88 @@
+package ldapserver
+
+import (
+	"errors"
+	"io"
+)
+
+// maxNesting limits how deep the elements of a packet may be nested. Decoding
+// needs stack for every level, and running out of stack ends the process.
+const maxNesting = 10000
+
+// nestingReader reads a BER encoded packet, and fails when its elements are
+// nested deeper than maxNesting.
+type nestingReader struct {
+	io.Reader
+
+	pos    int64   // bytes read
+	skip   int64   // end of the content of the current primitive element
+	ends   []int64 // ends of the open constructed elements, negative if indefinite
+	header []byte  // what has been read of the header of the next element
+}
+
+func (r *nestingReader) Read(p []byte) (int, error) {
+	n, err := r.Reader.Read(p)
+	for i := 0; i < n; {
+		if r.pos < r.skip {
+			content := min(r.skip-r.pos, int64(n-i))
+			r.pos += content
+			i += int(content)
+			continue
+		}
+		r.readHeader(p[i])
+		r.pos++
+		i++
+	}
+	if len(r.ends) > maxNesting {
+		return 0, errors.New("packet is nested too deep")
+	}
+	return n, err
+}
+
+func (r *nestingReader) readHeader(b byte) {
+	if len(r.header) == 0 {
+		// Close what ends before this element.
+		for l := len(r.ends); l > 0 && r.ends[l-1] >= 0 && r.ends[l-1] <= r.pos; l-- {
+			r.ends = r.ends[:l-1]
+		}
+	}
+	r.header = append(r.header, b)
+
+	at := 1
+	if r.header[0]&0x1f == 0x1f {
+		for at < len(r.header) && r.header[at]&0x80 != 0 {
+			at++
+		}
+		at++
+	}
+	if len(r.header) <= at {
+		return
+	}
+	length := int64(r.header[at])
+	if length == 0x80 {
+		length = -1
+	} else if length > 0x80 {
+		if len(r.header) <= at+int(length&0x7f) {
+			return
+		}
+		length = 0
+		for _, b := range r.header[at+1:] {
+			length = length<<8 | int64(b)
+		}
+	}
+
+	end := r.pos + 1 + length
+	if length < 0 {
+		end = -1
+	}
+	switch l := len(r.ends); {
+	case r.header[0]&0x20 != 0:
+		r.ends = append(r.ends, end)
+	case r.header[0] == 0 && length == 0 && l > 0 && r.ends[l-1] < 0:
+		// End of contents.
+		r.ends = r.ends[:l-1]
+	default:
+		r.skip = end
+	}
+	r.header = r.header[:0]
+}
diff --git a/pkg/ldapserver/server.go b/pkg/ldapserver/server.go
index dfa5677..55a37f2 100644
--- a/pkg/ldapserver/server.go
+++ b/pkg/ldapserver/server.go
@@ -221,7 +221,7 @@ func (server *Server) handleConnection(conn net.Conn) {
 handler:
 	for {
 		// Read incoming LDAP packet.
-		packet, err := ber.ReadPacket(conn)
+		packet, err := ber.ReadPacket(&nestingReader{Reader: conn})
 		if err == io.EOF || err == io.ErrUnexpectedEOF { // Client closed connection.
 			break
 		} else if err != nil {
-- 
2.43.0


From abaef1aeb7b802d579265ad2d906e2f0a4081c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:54:22 +0000
Subject: [PATCH 33/34] fix: sync the database when opening it

When the process is killed after a commit wrote its meta page but before
that page was synced, the next process continues from it and reuses the
pages the commit freed. A power loss before the next sync then loses the
meta page, while the older one refers to pages already overwritten.
---
 pkg/ldbbolt/ldbbolt.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/ldbbolt/ldbbolt.go b/pkg/ldbbolt/ldbbolt.go
index 017cbb7..71b20ce 100644
--- a/pkg/ldbbolt/ldbbolt.go
+++ b/pkg/ldbbolt/ldbbolt.go
@@ -61,6 +61,15 @@ func (bdb *LdbBolt) Configure(logger logrus.FieldLogger, baseDN, dbfile string,
 		logger.WithError(err).Error("Error opening database")
 		return err
 	}
+	if options == nil || !options.ReadOnly {
+		// The last commit of a process that was killed might not be on disk
+		// yet. It needs to be before any of the pages it freed is reused.
+		if err := db.Sync(); err != nil {
+			logger.WithError(err).Error("Error syncing database")
+			db.Close()
+			return err
+		}
+	}
 	bdb.db = db
 	bdb.options = options
 	bdb.base, _ = ldapdn.ParseNormalize(baseDN)
-- 
2.43.0


From d5a318891e5ddf05008774286645baa8f8b4f027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:27:21 +0000
Subject: [PATCH 34/34] fix: keep all values of an attribute listed more than
 once in an add request

---
 pkg/ldapentry/ldapentry.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/ldapentry/ldapentry.go b/pkg/ldapentry/ldapentry.go
index aa2de08..d26f1a4 100644
--- a/pkg/ldapentry/ldapentry.go
+++ b/pkg/ldapentry/ldapentry.go
@@ -136,9 +136,16 @@ func entryApplyModDelete(curVals, delVals []string) (newVals []string) {
 
 func EntryFromAddRequest(add *ldap.AddRequest) *ldap.Entry {
 	attrs := map[string][]string{}
+	names := map[string]string{}
 
+	casefold := cases.Fold()
 	for _, a := range add.Attributes {
-		attrs[a.Type] = a.Vals
+		// The values of an attribute may be listed in several places.
+		nType := casefold.String(a.Type)
+		if _, ok := names[nType]; !ok {
+			names[nType] = a.Type
+		}
+		attrs[names[nType]] = append(attrs[names[nType]], a.Vals...)
 	}
 	return ldap.NewEntry(add.DN, attrs)
 }
-- 
2.43.0

