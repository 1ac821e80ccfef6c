From 7b7ecd5df0d5b70dfdfd1c67c59c171a4ff6b5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:26 +0000
Subject: [PATCH 01/24] fix: return the target group that reached the threshold
 in GetTargetInfo

---
 metadata/multirepo/multirepo.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metadata/multirepo/multirepo.go b/metadata/multirepo/multirepo.go
index 019bfad..7d278e3 100644
--- a/metadata/multirepo/multirepo.go
+++ b/metadata/multirepo/multirepo.go
@@ -261,7 +261,7 @@ func (client *MultiRepoClient) GetTargetInfo(targetPath string) (*metadata.Targe
 					// we went through all repositories listed in that mapping
 					// lets see if we have matched the threshold consensus for the given target file
 					var result *targetMatch
-					for _, target := range matchedTargetGroups {
+					for i, target := range matchedTargetGroups {
 						// compare thresholds for each target info we found with the value stated for its mapping
 						if len(target.repositories) >= eachMap.Threshold {
 							// this target has enough repositories signed for it
@@ -272,7 +272,7 @@ func (client *MultiRepoClient) GetTargetInfo(targetPath string) (*metadata.Targe
 								return nil, nil, fmt.Errorf("more than one target info matching the necessary threshold value")
 							} else {
 								// this is the first target we found matching the necessary threshold so save it
-								result = &target
+								result = &matchedTargetGroups[i]
 							}
 						}
 					}
-- 
2.43.0


From 0606a844f08273e73b385d4ce210d9aa9b7742af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:29 +0000
Subject: [PATCH 02/24] fix: reject metadata without signed part or type
 instead of panicking

---
 metadata/metadata.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index c017773..73484ee 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -881,7 +881,14 @@ func checkType[T Roles](data []byte) error {
 	if err := json.Unmarshal(data, &m); err != nil {
 		return err
 	}
-	signedType := m["signed"].(map[string]any)["_type"].(string)
+	signed, ok := m["signed"].(map[string]any)
+	if !ok {
+		return ErrValue{Msg: "metadata has no signed part"}
+	}
+	signedType, ok := signed["_type"].(string)
+	if !ok {
+		return ErrValue{Msg: "metadata has no type"}
+	}
 	switch i.(type) {
 	case *RootType:
 		if ROOT != signedType {
-- 
2.43.0


From 2082a9cb828cc69a8845c029035daa80d45a8a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:31 +0000
Subject: [PATCH 03/24] fix: verify the type of the decoded metadata object in
 FromBytes

---
 metadata/metadata.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index 73484ee..fe850ea 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -855,6 +855,10 @@ func fromBytes[T Roles](data []byte) (*Metadata[T], error) {
 	if err := json.Unmarshal(data, meta); err != nil {
 		return nil, err
 	}
+	// the type field is matched case-insensitively when decoding, so verify the decoded value too
+	if err := checkDecodedType(meta); err != nil {
+		return nil, err
+	}
 	// Make sure signature key IDs are unique
 	if err := checkUniqueSignatures(*meta); err != nil {
 		return nil, err
@@ -874,6 +878,25 @@ func checkUniqueSignatures[T Roles](meta Metadata[T]) error {
 	return nil
 }
 
+// checkDecodedType verifies that the type of the decoded signed part is the one of its Go type
+func checkDecodedType[T Roles](meta *Metadata[T]) error {
+	var got, want string
+	switch m := any(meta).(type) {
+	case *Metadata[RootType]:
+		got, want = m.Signed.Type, ROOT
+	case *Metadata[SnapshotType]:
+		got, want = m.Signed.Type, SNAPSHOT
+	case *Metadata[TimestampType]:
+		got, want = m.Signed.Type, TIMESTAMP
+	case *Metadata[TargetsType]:
+		got, want = m.Signed.Type, TARGETS
+	}
+	if got != want {
+		return ErrValue{Msg: fmt.Sprintf("expected metadata type %s, got - %s", want, got)}
+	}
+	return nil
+}
+
 // checkType verifies if the generic type used to create the object is the same as the type of the metadata file in bytes
 func checkType[T Roles](data []byte) error {
 	var m map[string]any
-- 
2.43.0


From 5cb769ee5631af1e72643b0983bda3821d70616c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:34 +0000
Subject: [PATCH 04/24] fix: reject null entries in metadata maps instead of
 dereferencing nil later

---
 metadata/marshal.go | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/metadata/marshal.go b/metadata/marshal.go
index 7d262c7..a9967f4 100644
--- a/metadata/marshal.go
+++ b/metadata/marshal.go
@@ -15,6 +15,7 @@ import (
 	"encoding/hex"
 	"encoding/json"
 	"errors"
+	"fmt"
 )
 
 // The following marshal/unmarshal methods override the default behavior for for each TUF type
@@ -42,6 +43,12 @@ func (signed *RootType) UnmarshalJSON(data []byte) error {
 		return err
 	}
 	*signed = RootType(s)
+	if err := checkNoNullEntries(signed.Keys, "keys"); err != nil {
+		return err
+	}
+	if err := checkNoNullEntries(signed.Roles, "roles"); err != nil {
+		return err
+	}
 
 	var dict map[string]any
 	if err := json.Unmarshal(data, &dict); err != nil {
@@ -78,6 +85,9 @@ func (signed *SnapshotType) UnmarshalJSON(data []byte) error {
 		return err
 	}
 	*signed = SnapshotType(s)
+	if err := checkNoNullEntries(signed.Meta, "meta"); err != nil {
+		return err
+	}
 
 	var dict map[string]any
 	if err := json.Unmarshal(data, &dict); err != nil {
@@ -112,6 +122,9 @@ func (signed *TimestampType) UnmarshalJSON(data []byte) error {
 		return err
 	}
 	*signed = TimestampType(s)
+	if err := checkNoNullEntries(signed.Meta, "meta"); err != nil {
+		return err
+	}
 
 	var dict map[string]any
 	if err := json.Unmarshal(data, &dict); err != nil {
@@ -149,6 +162,9 @@ func (signed *TargetsType) UnmarshalJSON(data []byte) error {
 		return err
 	}
 	*signed = TargetsType(s)
+	if err := checkNoNullEntries(signed.Targets, "targets"); err != nil {
+		return err
+	}
 
 	// populate the path field for each target
 	for name, targetFile := range signed.Targets {
@@ -441,6 +457,9 @@ func (d *Delegations) UnmarshalJSON(data []byte) error {
 		return err
 	}
 	*d = Delegations(a)
+	if err := checkNoNullEntries(d.Keys, "keys"); err != nil {
+		return err
+	}
 
 	var dict map[string]any
 	if err := json.Unmarshal(data, &dict); err != nil {
@@ -553,6 +572,16 @@ func (b HexBytes) String() string {
 	return hex.EncodeToString(b)
 }
 
+// checkNoNullEntries verifies that no entry of a decoded JSON object is null
+func checkNoNullEntries[V any](entries map[string]*V, field string) error {
+	for name, v := range entries {
+		if v == nil {
+			return ErrValue{Msg: fmt.Sprintf("%s entry %q is null", field, name)}
+		}
+	}
+	return nil
+}
+
 // copyMapValues copies the values of the src map to dst
 func copyMapValues(src, dst map[string]any) {
 	for k, v := range src {
-- 
2.43.0


From d6887bddadc63ac7b46572d5ee46953c4443e97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:37 +0000
Subject: [PATCH 05/24] fix: reject ed25519 keys of the wrong size instead of
 panicking when verifying

---
 metadata/keys.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metadata/keys.go b/metadata/keys.go
index f5150a6..0d1c849 100644
--- a/metadata/keys.go
+++ b/metadata/keys.go
@@ -71,6 +71,9 @@ func (k *Key) ToPublicKey() (crypto.PublicKey, error) {
 		if err != nil {
 			return nil, err
 		}
+		if len(publicKey) != ed25519.PublicKeySize {
+			return nil, fmt.Errorf("invalid ed25519 public key")
+		}
 		ed25519Key := ed25519.PublicKey(publicKey)
 		// done for verification - ref. https://github.com/theupdateframework/go-tuf/pull/357
 		if _, err := x509.MarshalPKIXPublicKey(ed25519Key); err != nil {
-- 
2.43.0


From 6b30dfb6129f0527935066c3c2cb1534f312344d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:39 +0000
Subject: [PATCH 06/24] fix: reject role thresholds below 1 when decoding
 metadata

---
 metadata/marshal.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/metadata/marshal.go b/metadata/marshal.go
index a9967f4..fb17b42 100644
--- a/metadata/marshal.go
+++ b/metadata/marshal.go
@@ -424,6 +424,9 @@ func (role *Role) UnmarshalJSON(data []byte) error {
 		return err
 	}
 	*role = Role(a)
+	if role.Threshold < 1 {
+		return ErrValue{Msg: "threshold should be at least 1"}
+	}
 
 	var dict map[string]any
 	if err := json.Unmarshal(data, &dict); err != nil {
@@ -500,6 +503,9 @@ func (role *DelegatedRole) UnmarshalJSON(data []byte) error {
 		return err
 	}
 	*role = DelegatedRole(a)
+	if role.Threshold < 1 {
+		return ErrValue{Msg: "threshold should be at least 1"}
+	}
 
 	var dict map[string]any
 	if err := json.Unmarshal(data, &dict); err != nil {
@@ -534,6 +540,9 @@ func (role *SuccinctRoles) UnmarshalJSON(data []byte) error {
 		return err
 	}
 	*role = SuccinctRoles(a)
+	if role.Threshold < 1 {
+		return ErrValue{Msg: "threshold should be at least 1"}
+	}
 
 	var dict map[string]any
 	if err := json.Unmarshal(data, &dict); err != nil {
-- 
2.43.0


From dd2d75f64125f171dd9fcb9d881fa9c674f347a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:42 +0000
Subject: [PATCH 07/24] fix: reject succinct roles with a bit length outside
 1..32

---
 metadata/marshal.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metadata/marshal.go b/metadata/marshal.go
index fb17b42..5fdacec 100644
--- a/metadata/marshal.go
+++ b/metadata/marshal.go
@@ -540,6 +540,9 @@ func (role *SuccinctRoles) UnmarshalJSON(data []byte) error {
 		return err
 	}
 	*role = SuccinctRoles(a)
+	if role.BitLength < 1 || role.BitLength > 32 {
+		return ErrValue{Msg: "bit_length should be between 1 and 32"}
+	}
 	if role.Threshold < 1 {
 		return ErrValue{Msg: "threshold should be at least 1"}
 	}
-- 
2.43.0


From d4cd73859f9ac149c389780e1524d6dc0c450cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:41 +0000
Subject: [PATCH 08/24] fix: reject timestamp without snapshot information
 instead of panicking

---
 metadata/trustedmetadata/trustedmetadata.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metadata/trustedmetadata/trustedmetadata.go b/metadata/trustedmetadata/trustedmetadata.go
index 0792493..570ccc1 100644
--- a/metadata/trustedmetadata/trustedmetadata.go
+++ b/metadata/trustedmetadata/trustedmetadata.go
@@ -116,6 +116,10 @@ func (trusted *TrustedMetadata) UpdateTimestamp(timestampData []byte) (*metadata
 	if err != nil {
 		return nil, err
 	}
+	// timestamp has to provide information about snapshot
+	if _, ok := newTimestamp.Signed.Meta[fmt.Sprintf("%s.json", metadata.SNAPSHOT)]; !ok {
+		return nil, metadata.ErrRepository{Msg: fmt.Sprintf("timestamp does not contain information for %s", metadata.SNAPSHOT)}
+	}
 	// if an existing trusted timestamp is updated,
 	// check for a rollback attack
 	if trusted.Timestamp != nil {
-- 
2.43.0


From 9587cad01679ca714e609232543e17362076f18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:43 +0000
Subject: [PATCH 09/24] fix: fail to load a role the snapshot does not list
 instead of panicking

---
 metadata/updater/updater.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/metadata/updater/updater.go b/metadata/updater/updater.go
index d38a049..1a9ac0c 100644
--- a/metadata/updater/updater.go
+++ b/metadata/updater/updater.go
@@ -434,7 +434,10 @@ func (update *Updater) loadTargets(roleName, parentName string) (*metadata.Metad
 		return nil, fmt.Errorf("trusted snapshot not set")
 	}
 	// extract the targets meta from the trusted snapshot metadata
-	metaInfo := update.trusted.Snapshot.Signed.Meta[fmt.Sprintf("%s.json", roleName)]
+	metaInfo, ok := update.trusted.Snapshot.Signed.Meta[fmt.Sprintf("%s.json", roleName)]
+	if !ok {
+		return nil, metadata.ErrRepository{Msg: fmt.Sprintf("snapshot does not contain information for %s", roleName)}
+	}
 	// extract the length of the target metadata to be downloaded
 	length := metaInfo.Length
 	if length == 0 {
-- 
2.43.0


From 0dd83b08fdbacec15e42c84606ee0fdb5221a3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:45 +0000
Subject: [PATCH 10/24] fix: verify that the role is one of the succinct roles
 in VerifyDelegate

---
 metadata/metadata.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index fe850ea..f8d544d 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -280,6 +280,10 @@ func (meta *Metadata[T]) VerifyDelegate(delegatedRole string, delegatedMetadata
 				return ErrValue{Msg: fmt.Sprintf("no delegation found for %s", delegatedRole)}
 			}
 		} else if i.Signed.Delegations.SuccinctRoles != nil {
+			// the delegated role is not one of the succinct roles, no need to proceed
+			if !i.Signed.Delegations.SuccinctRoles.IsDelegatedRole(delegatedRole) {
+				return ErrValue{Msg: fmt.Sprintf("no delegation found for %s", delegatedRole)}
+			}
 			roleKeyIDs = i.Signed.Delegations.SuccinctRoles.KeyIDs
 			roleThreshold = i.Signed.Delegations.SuccinctRoles.Threshold
 		}
-- 
2.43.0


From eb5718a741363d9ed5ce11668d8105eca9a47883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:48 +0000
Subject: [PATCH 11/24] fix: accept only the spelling used for succinct role
 names in IsDelegatedRole

---
 metadata/metadata.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index f8d544d..b4a1b0c 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -641,7 +641,8 @@ func (role *SuccinctRoles) IsDelegatedRole(roleName string) bool {
 	}
 
 	// check if the bin we calculated is indeed within the range of what we support
-	return (value >= 0) && (value < int64(numberOfBins))
+	// and that the suffix is how its number is spelled in the role names
+	return (value >= 0) && (value < int64(numberOfBins)) && suffix == fmt.Sprintf("%0*x", suffixLen, value)
 }
 
 // AddKey adds new signing key for delegated role "role"
-- 
2.43.0


From f7d28368c2ffcfd6f0e854bd3da288a2d829259b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:19 +0000
Subject: [PATCH 12/24] fix: visit delegated roles in the order of appearance,
 not in random map order

---
 metadata/updater/updater.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/metadata/updater/updater.go b/metadata/updater/updater.go
index 1a9ac0c..e1dc919 100644
--- a/metadata/updater/updater.go
+++ b/metadata/updater/updater.go
@@ -547,7 +547,8 @@ func (update *Updater) preOrderDepthFirstWalk(targetFilePath string) (*metadata.
 			// note that this may be a slow operation if there are many
 			// delegated roles
 			roles := targets.Signed.Delegations.GetRolesForTarget(targetFilePath)
-			for child, terminating := range roles {
+			for _, child := range rolesInOrder(targets.Signed.Delegations, roles) {
+				terminating := roles[child]
 				log.Info("Adding child role", "role", child)
 				childRolesToVisit = append(childRolesToVisit, roleParentTuple{Role: child, Parent: delegation.Role})
 				if terminating {
@@ -572,6 +573,25 @@ func (update *Updater) preOrderDepthFirstWalk(targetFilePath string) (*metadata.
 	return nil, fmt.Errorf("target %s not found", targetFilePath)
 }
 
+// rolesInOrder returns the names of the given roles in the order in which
+// they appear in delegations
+func rolesInOrder(delegations *metadata.Delegations, roles map[string]bool) []string {
+	res := []string{}
+	if delegations.Roles == nil {
+		// succinct roles, there is only one responsible for a target
+		for name := range roles {
+			res = append(res, name)
+		}
+		return res
+	}
+	for _, role := range delegations.Roles {
+		if _, ok := roles[role.Name]; ok {
+			res = append(res, role.Name)
+		}
+	}
+	return res
+}
+
 // persistMetadata writes metadata to disk atomically to avoid data loss
 func (update *Updater) persistMetadata(roleName string, data []byte) error {
 	log := metadata.GetLogger()
-- 
2.43.0


From 6c6dd84ac77df1999a26dbe1b73e61bf069200c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:22 +0000
Subject: [PATCH 13/24] fix: reject delegated roles that are unnamed,
 duplicated or named as a top level role

---
 metadata/marshal.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/metadata/marshal.go b/metadata/marshal.go
index 5fdacec..761be30 100644
--- a/metadata/marshal.go
+++ b/metadata/marshal.go
@@ -463,6 +463,9 @@ func (d *Delegations) UnmarshalJSON(data []byte) error {
 	if err := checkNoNullEntries(d.Keys, "keys"); err != nil {
 		return err
 	}
+	if err := checkDelegatedRoleNames(d.Roles); err != nil {
+		return err
+	}
 
 	var dict map[string]any
 	if err := json.Unmarshal(data, &dict); err != nil {
@@ -594,6 +597,23 @@ func checkNoNullEntries[V any](entries map[string]*V, field string) error {
 	return nil
 }
 
+// checkDelegatedRoleNames verifies that the names of the delegated roles are
+// set, differ from each other and are not those of the top level roles
+func checkDelegatedRoleNames(roles []DelegatedRole) error {
+	names := map[string]bool{}
+	for _, role := range roles {
+		switch role.Name {
+		case "", ROOT, TIMESTAMP, SNAPSHOT, TARGETS:
+			return ErrValue{Msg: fmt.Sprintf("%q is not allowed as the name of a delegated role", role.Name)}
+		}
+		if names[role.Name] {
+			return ErrValue{Msg: fmt.Sprintf("multiple delegated roles are named %s", role.Name)}
+		}
+		names[role.Name] = true
+	}
+	return nil
+}
+
 // copyMapValues copies the values of the src map to dst
 func copyMapValues(src, dst map[string]any) {
 	for k, v := range src {
-- 
2.43.0


From 116a6f154420ed0ecc00032c9ac70d4f91a27f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:24 +0000
Subject: [PATCH 14/24] fix: read cached delegated roles from the file they are
 persisted to

---
 metadata/updater/updater.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metadata/updater/updater.go b/metadata/updater/updater.go
index e1dc919..6b352a7 100644
--- a/metadata/updater/updater.go
+++ b/metadata/updater/updater.go
@@ -406,7 +406,7 @@ func (update *Updater) loadTargets(roleName, parentName string) (*metadata.Metad
 		return role, nil
 	}
 	// try to read local targets
-	data, err := update.loadLocalMetadata(filepath.Join(update.cfg.LocalMetadataDir, roleName))
+	data, err := update.loadLocalMetadata(filepath.Join(update.cfg.LocalMetadataDir, url.QueryEscape(roleName)))
 	if err != nil {
 		// this means there's no existing local target file so we should proceed downloading it without the need to UpdateDelegatedTargets
 		log.Info("Local role does not exist", "role", roleName)
-- 
2.43.0


From 2c0806f0267baeb61d77050b54eb3170d4972abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:26 +0000
Subject: [PATCH 15/24] fix: put the hash prefix on the file name of targets in
 nested directories

---
 metadata/updater/updater.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/metadata/updater/updater.go b/metadata/updater/updater.go
index 6b352a7..50ba9ad 100644
--- a/metadata/updater/updater.go
+++ b/metadata/updater/updater.go
@@ -225,13 +225,12 @@ func (update *Updater) DownloadTarget(targetFile *metadata.TargetFiles, filePath
 			hashes = hex.EncodeToString(v)
 			break
 		}
-		dirName, baseName, ok := strings.Cut(targetFilePath, "/")
-		if !ok {
+		if i := strings.LastIndex(targetFilePath, "/"); i < 0 {
 			// <hash>.<target-name>
-			targetFilePath = fmt.Sprintf("%s.%s", hashes, dirName)
+			targetFilePath = fmt.Sprintf("%s.%s", hashes, targetFilePath)
 		} else {
 			// <dir-prefix>/<hash>.<target-name>
-			targetFilePath = fmt.Sprintf("%s/%s.%s", dirName, hashes, baseName)
+			targetFilePath = fmt.Sprintf("%s/%s.%s", targetFilePath[:i], hashes, targetFilePath[i+1:])
 		}
 	}
 	fullURL := fmt.Sprintf("%s%s", targetBaseURL, targetFilePath)
-- 
2.43.0


From d08cd459482f5893cb441fb7ab606a23d85c8d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:03 +0000
Subject: [PATCH 16/24] fix: make ErrRepository and ErrDownload carrying a
 message match themselves in errors.Is

---
 metadata/errors.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/metadata/errors.go b/metadata/errors.go
index 4086720..b6d217b 100644
--- a/metadata/errors.go
+++ b/metadata/errors.go
@@ -32,6 +32,11 @@ func (e ErrRepository) Error() string {
 	return fmt.Sprintf("repository error: %s", e.Msg)
 }
 
+// ErrRepository matches ErrRepository{} whatever its message
+func (e ErrRepository) Is(target error) bool {
+	return target == ErrRepository{}
+}
+
 // ErrUnsignedMetadata - An error about metadata object with insufficient threshold of signatures
 type ErrUnsignedMetadata struct {
 	Msg string
@@ -113,6 +118,11 @@ func (e ErrDownload) Error() string {
 	return fmt.Sprintf("download error: %s", e.Msg)
 }
 
+// ErrDownload matches ErrDownload{} whatever its message
+func (e ErrDownload) Is(target error) bool {
+	return target == ErrDownload{}
+}
+
 // ErrDownloadLengthMismatch - Indicate that a mismatch of lengths was seen while downloading a file
 type ErrDownloadLengthMismatch struct {
 	Msg string
-- 
2.43.0


From 3acd6aca7410ac83d0b4d532151e8b0a43c5ea36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:04 +0000
Subject: [PATCH 17/24] fix: replace damaged cached metadata from the remote
 instead of failing the refresh

---
 metadata/updater/updater.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/metadata/updater/updater.go b/metadata/updater/updater.go
index 50ba9ad..2180bd7 100644
--- a/metadata/updater/updater.go
+++ b/metadata/updater/updater.go
@@ -287,6 +287,14 @@ func (update *Updater) FindCachedTarget(targetFile *metadata.TargetFiles, filePa
 	return targetFilePath, data, nil
 }
 
+// isInvalidLocalMetadata tells whether err, returned on loading metadata cached
+// locally, is about that metadata (it is damaged or does not verify, so it should
+// be replaced from the remote) and not about the way it was used
+func isInvalidLocalMetadata(err error) bool {
+	var runtimeErr metadata.ErrRuntime
+	return !errors.As(err, &runtimeErr)
+}
+
 // loadTimestamp load local and remote timestamp metadata
 func (update *Updater) loadTimestamp() error {
 	log := metadata.GetLogger()
@@ -299,7 +307,7 @@ func (update *Updater) loadTimestamp() error {
 		// local timestamp exists, let's try to verify it and load it to the trusted metadata set
 		_, err := update.trusted.UpdateTimestamp(data)
 		if err != nil {
-			if errors.Is(err, metadata.ErrRepository{}) {
+			if isInvalidLocalMetadata(err) {
 				// local timestamp is not valid, proceed downloading from remote; note that this error type includes several other subset errors
 				log.Info("Local timestamp is not valid")
 			} else {
@@ -348,7 +356,7 @@ func (update *Updater) loadSnapshot() error {
 		_, err = update.trusted.UpdateSnapshot(data, true)
 		if err != nil {
 			// this means snapshot verification/loading failed
-			if errors.Is(err, metadata.ErrRepository{}) {
+			if isInvalidLocalMetadata(err) {
 				// local snapshot is not valid, proceed downloading from remote; note that this error type includes several other subset errors
 				log.Info("Local snapshot is not valid")
 			} else {
@@ -414,7 +422,7 @@ func (update *Updater) loadTargets(roleName, parentName string) (*metadata.Metad
 		delegatedTargets, err := update.trusted.UpdateDelegatedTargets(data, roleName, parentName)
 		if err != nil {
 			// this means targets verification/loading failed
-			if errors.Is(err, metadata.ErrRepository{}) {
+			if isInvalidLocalMetadata(err) {
 				// local target file is not valid, proceed downloading from remote; note that this error type includes several other subset errors
 				log.Info("Local role is not valid", "role", roleName)
 			} else {
-- 
2.43.0


From 67c0049dee5e655c7a0a2b1403dd629bcb84b89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:06 +0000
Subject: [PATCH 18/24] fix: close and clean up the temporary file when
 persisting metadata

---
 metadata/updater/updater.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/metadata/updater/updater.go b/metadata/updater/updater.go
index 2180bd7..352350e 100644
--- a/metadata/updater/updater.go
+++ b/metadata/updater/updater.go
@@ -617,6 +617,8 @@ func (update *Updater) persistMetadata(roleName string, data []byte) error {
 	if err != nil {
 		return err
 	}
+	// the file is written by its name
+	file.Close()
 	// write the data content to the temporary file
 	err = os.WriteFile(file.Name(), data, 0644)
 	if err != nil {
@@ -630,6 +632,11 @@ func (update *Updater) persistMetadata(roleName string, data []byte) error {
 	// if all okay, rename the temporary file to the desired one
 	err = os.Rename(file.Name(), fileName)
 	if err != nil {
+		// delete the temporary file if it could not be renamed
+		errRemove := os.Remove(file.Name())
+		if errRemove != nil {
+			log.Info("Failed to delete temporary file", "name", file.Name())
+		}
 		return err
 	}
 	return nil
-- 
2.43.0


From 18bf41429e4342727a6cfcaad15e5b5ef3816362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:08 +0000
Subject: [PATCH 19/24] fix: reject multi-repository map files the client
 cannot use or contain

---
 metadata/multirepo/multirepo.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/metadata/multirepo/multirepo.go b/metadata/multirepo/multirepo.go
index 7d278e3..2417c43 100644
--- a/metadata/multirepo/multirepo.go
+++ b/metadata/multirepo/multirepo.go
@@ -16,6 +16,7 @@ import (
 	"fmt"
 	"os"
 	"path/filepath"
+	"strings"
 
 	"github.com/rdimitrov/go-tuf-metadata/metadata"
 	"github.com/rdimitrov/go-tuf-metadata/metadata/config"
@@ -68,14 +69,36 @@ func NewConfig(repoMap []byte, roots map[string][]byte) (*MultiRepoConfig, error
 	if err := json.Unmarshal(repoMap, &mapFile); err != nil {
 		return nil, err
 	}
+	if mapFile == nil {
+		return nil, fmt.Errorf("failed to create multi-repository config: the map file is empty")
+	}
 
 	// make sure we have enough trusted root metadata files provided based on the repository list
-	for repo := range mapFile.Repositories {
+	for repo, urls := range mapFile.Repositories {
 		// check if we have a trusted root metadata for this repository
 		_, ok := roots[repo]
 		if !ok {
 			return nil, fmt.Errorf("no trusted root metadata provided for repository - %s", repo)
 		}
+		// the metadata of a repository is persisted in a folder named after it
+		if repo == "" || repo == "." || repo == ".." || strings.ContainsAny(repo, "/\\") {
+			return nil, fmt.Errorf("invalid repository name - %q", repo)
+		}
+		if len(urls) == 0 {
+			return nil, fmt.Errorf("no URL provided for repository - %s", repo)
+		}
+	}
+
+	// make sure the mappings use only the repositories from that list
+	for _, mapping := range mapFile.Mapping {
+		if mapping == nil {
+			return nil, fmt.Errorf("failed to create multi-repository config: a mapping is null")
+		}
+		for _, repo := range mapping.Repositories {
+			if _, ok := mapFile.Repositories[repo]; !ok {
+				return nil, fmt.Errorf("mapping uses unknown repository - %s", repo)
+			}
+		}
 	}
 
 	return &MultiRepoConfig{
-- 
2.43.0


From b83c29ddde21505e789b91ad07b98faf3fae1fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:55 +0000
Subject: [PATCH 20/24] fix: value, type and runtime errors are recognised as
 themselves whatever their message

---
 metadata/errors.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/metadata/errors.go b/metadata/errors.go
index b6d217b..9450bc2 100644
--- a/metadata/errors.go
+++ b/metadata/errors.go
@@ -161,6 +161,11 @@ func (e ErrValue) Error() string {
 	return fmt.Sprintf("value error: %s", e.Msg)
 }
 
+// ErrValue matches ErrValue{} whatever its message
+func (e ErrValue) Is(target error) bool {
+	return target == ErrValue{}
+}
+
 // TypeError
 type ErrType struct {
 	Msg string
@@ -170,6 +175,11 @@ func (e ErrType) Error() string {
 	return fmt.Sprintf("type error: %s", e.Msg)
 }
 
+// ErrType matches ErrType{} whatever its message
+func (e ErrType) Is(target error) bool {
+	return target == ErrType{}
+}
+
 // RuntimeError
 type ErrRuntime struct {
 	Msg string
@@ -178,3 +188,8 @@ type ErrRuntime struct {
 func (e ErrRuntime) Error() string {
 	return fmt.Sprintf("runtime error: %s", e.Msg)
 }
+
+// ErrRuntime matches ErrRuntime{} whatever its message
+func (e ErrRuntime) Is(target error) bool {
+	return target == ErrRuntime{}
+}
-- 
2.43.0


From adb51e4bd29f0a5219fa7335d6b6b48118d7f918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:43 +0000
Subject: [PATCH 21/24] fix: TargetsType.AddKey reports an error when there are
 no delegated roles

---
 metadata/metadata.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index b4a1b0c..09a750e 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -733,6 +733,9 @@ func (signed *TargetsType) AddKey(key *Key, role string) error {
 		}
 		log.Info("SuccinctRoles role already has keyID", "ID", key.ID())
 
+	} else {
+		// there are no delegated roles at all
+		return ErrValue{Msg: fmt.Sprintf("delegated role %s doesn't exist", role)}
 	}
 	signed.Delegations.Keys[key.ID()] = key // TODO: should we check if we don't accidentally override an existing keyID with another key value?
 	return nil
-- 
2.43.0


From fe0d2f32f77f51b521ca3d84dba30f3b47ec4a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:27 +0000
Subject: [PATCH 22/24] fix: read cached metadata of roles named like relative
 paths from where it is stored

---
 metadata/updater/updater.go | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/metadata/updater/updater.go b/metadata/updater/updater.go
index 352350e..0cd4a8f 100644
--- a/metadata/updater/updater.go
+++ b/metadata/updater/updater.go
@@ -143,8 +143,7 @@ func (update *Updater) onlineRefresh() error {
 func (update *Updater) unsafeLocalRefresh() error {
 	// Root is already loaded
 	// load timestamp
-	var p = filepath.Join(update.cfg.LocalMetadataDir, metadata.TIMESTAMP)
-	data, err := update.loadLocalMetadata(p)
+	data, err := update.loadLocalMetadata(metadata.TIMESTAMP)
 	if err != nil {
 		return err
 	}
@@ -154,8 +153,7 @@ func (update *Updater) unsafeLocalRefresh() error {
 	}
 
 	// load snapshot
-	p = filepath.Join(update.cfg.LocalMetadataDir, metadata.SNAPSHOT)
-	data, err = update.loadLocalMetadata(p)
+	data, err = update.loadLocalMetadata(metadata.SNAPSHOT)
 	if err != nil {
 		return err
 	}
@@ -165,8 +163,7 @@ func (update *Updater) unsafeLocalRefresh() error {
 	}
 
 	// targets
-	p = filepath.Join(update.cfg.LocalMetadataDir, metadata.TARGETS)
-	data, err = update.loadLocalMetadata(p)
+	data, err = update.loadLocalMetadata(metadata.TARGETS)
 	if err != nil {
 		return err
 	}
@@ -299,7 +296,7 @@ func isInvalidLocalMetadata(err error) bool {
 func (update *Updater) loadTimestamp() error {
 	log := metadata.GetLogger()
 	// try to read local timestamp
-	data, err := update.loadLocalMetadata(filepath.Join(update.cfg.LocalMetadataDir, metadata.TIMESTAMP))
+	data, err := update.loadLocalMetadata(metadata.TIMESTAMP)
 	if err != nil {
 		// this means there's no existing local timestamp so we should proceed downloading it without the need to UpdateTimestamp
 		log.Info("Local timestamp does not exist")
@@ -347,7 +344,7 @@ func (update *Updater) loadTimestamp() error {
 func (update *Updater) loadSnapshot() error {
 	log := metadata.GetLogger()
 	// try to read local snapshot
-	data, err := update.loadLocalMetadata(filepath.Join(update.cfg.LocalMetadataDir, metadata.SNAPSHOT))
+	data, err := update.loadLocalMetadata(metadata.SNAPSHOT)
 	if err != nil {
 		// this means there's no existing local snapshot so we should proceed downloading it without the need to UpdateSnapshot
 		log.Info("Local snapshot does not exist")
@@ -413,7 +410,7 @@ func (update *Updater) loadTargets(roleName, parentName string) (*metadata.Metad
 		return role, nil
 	}
 	// try to read local targets
-	data, err := update.loadLocalMetadata(filepath.Join(update.cfg.LocalMetadataDir, url.QueryEscape(roleName)))
+	data, err := update.loadLocalMetadata(roleName)
 	if err != nil {
 		// this means there's no existing local target file so we should proceed downloading it without the need to UpdateDelegatedTargets
 		log.Info("Local role does not exist", "role", roleName)
@@ -666,7 +663,7 @@ func (update *Updater) generateTargetFilePath(tf *metadata.TargetFiles) (string,
 
 // loadLocalMetadata reads a local <roleName>.json file and returns its bytes
 func (update *Updater) loadLocalMetadata(roleName string) ([]byte, error) {
-	return readFile(fmt.Sprintf("%s.json", roleName))
+	return readFile(filepath.Join(update.cfg.LocalMetadataDir, fmt.Sprintf("%s.json", url.QueryEscape(roleName))))
 }
 
 // GetTopLevelTargets returns the top-level target files
-- 
2.43.0


From 5d2adaed00ce42710521f76bf611a03bf4e5f9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:03 +0000
Subject: [PATCH 23/24] fix: allow a multi-repository client without a common
 targets directory

---
 metadata/multirepo/multirepo.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/metadata/multirepo/multirepo.go b/metadata/multirepo/multirepo.go
index 2417c43..e6e954e 100644
--- a/metadata/multirepo/multirepo.go
+++ b/metadata/multirepo/multirepo.go
@@ -357,7 +357,12 @@ func (cfg *MultiRepoConfig) EnsurePathsExist() error {
 	if cfg.DisableLocalCache {
 		return nil
 	}
-	for _, path := range []string{cfg.LocalMetadataDir, cfg.LocalTargetsDir} {
+	paths := []string{cfg.LocalMetadataDir}
+	// without a common targets folder each repository has its own one
+	if len(cfg.LocalTargetsDir) != 0 {
+		paths = append(paths, cfg.LocalTargetsDir)
+	}
+	for _, path := range paths {
 		err := os.MkdirAll(path, os.ModePerm)
 		if err != nil {
 			return err
-- 
2.43.0


From e741927dfe43f79dfd2c1b2e158e6f9f8821fc2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:03 +0000
Subject: [PATCH 24/24] fix: store targets below a local directory whose path
 needs URL escaping

---
 metadata/updater/updater.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metadata/updater/updater.go b/metadata/updater/updater.go
index 0cd4a8f..7c9000f 100644
--- a/metadata/updater/updater.go
+++ b/metadata/updater/updater.go
@@ -658,7 +658,7 @@ func (update *Updater) generateTargetFilePath(tf *metadata.TargetFiles) (string,
 		return "", metadata.ErrValue{Msg: "LocalTargetsDir must be set if filepath is not given"}
 	}
 	// Use URL encoded target path as filename
-	return url.JoinPath(update.cfg.LocalTargetsDir, url.QueryEscape(tf.Path))
+	return filepath.Join(update.cfg.LocalTargetsDir, url.QueryEscape(tf.Path)), nil
 }
 
 // loadLocalMetadata reads a local <roleName>.json file and returns its bytes
-- 
2.43.0

