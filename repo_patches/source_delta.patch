From bb91f1e4c5fa913ee2d177c5f6272073819740c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:03 +0000
Subject: [PATCH 01/26] fix: multirepo returns the target group that reached
 the threshold

The address of the shared range variable was kept, so the group returned was
the last one examined, which may be below the mapping's threshold.
---
 metadata/multirepo/multirepo.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metadata/multirepo/multirepo.go b/metadata/multirepo/multirepo.go
index 019bfad..7d278e3 100644
--- a/metadata/multirepo/multirepo.go
+++ b/metadata/multirepo/multirepo.go
@@ -261,7 +261,7 @@ func (client *MultiRepoClient) GetTargetInfo(targetPath string) (*metadata.Targe
 					// we went through all repositories listed in that mapping
 					// lets see if we have matched the threshold consensus for the given target file
 					var result *targetMatch
-					for _, target := range matchedTargetGroups {
+					for i, target := range matchedTargetGroups {
 						// compare thresholds for each target info we found with the value stated for its mapping
 						if len(target.repositories) >= eachMap.Threshold {
 							// this target has enough repositories signed for it
@@ -272,7 +272,7 @@ func (client *MultiRepoClient) GetTargetInfo(targetPath string) (*metadata.Targe
 								return nil, nil, fmt.Errorf("more than one target info matching the necessary threshold value")
 							} else {
 								// this is the first target we found matching the necessary threshold so save it
-								result = &target
+								result = &matchedTargetGroups[i]
 							}
 						}
 					}
-- 
2.43.0


From 8a4b4619c74efdd66ff5851b1bcc9b30606dd95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:35 +0000
Subject: [PATCH 02/26] fix: consult delegated roles in the order the metadata
 lists them

Delegations.GetRolesForTarget returned a map, so the delegation search visited
the roles, and applied terminating delegations, in random order.
---
 metadata/metadata.go        | 13 +++++++------
 metadata/types.go           |  7 +++++++
 metadata/updater/updater.go |  8 ++++----
 3 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index c017773..8268aa8 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -548,15 +548,16 @@ func isTargetInPathPattern(targetpath string, pathpattern string) bool {
 }
 
 // GetRolesForTarget return the names and terminating status of all
-// delegated roles who are responsible for targetFilepath
-func (role *Delegations) GetRolesForTarget(targetFilepath string) map[string]bool {
-	res := map[string]bool{}
+// delegated roles who are responsible for targetFilepath, in the order
+// in which the delegations list them
+func (role *Delegations) GetRolesForTarget(targetFilepath string) []RoleResult {
+	res := []RoleResult{}
 	// standard delegations
 	if role.Roles != nil {
 		for _, r := range role.Roles {
 			ok, err := r.IsDelegatedPath(targetFilepath)
 			if err == nil && ok {
-				res[r.Name] = r.Terminating
+				res = append(res, RoleResult{Name: r.Name, Terminating: r.Terminating})
 			}
 		}
 	} else if role.SuccinctRoles != nil {
@@ -570,7 +571,7 @@ func (role *Delegations) GetRolesForTarget(targetFilepath string) map[string]boo
 // The target at path "targetFilepath" is assigned to a bin by casting
 // the left-most "BitLength" of bits of the file path hash digest to
 // int, using it as bin index between 0 and “2**BitLength - 1“.
-func (role *SuccinctRoles) GetRolesForTarget(targetFilepath string) map[string]bool {
+func (role *SuccinctRoles) GetRolesForTarget(targetFilepath string) []RoleResult {
 	// calculate the suffixLen value based on the total number of bins in
 	// hex. If bit_length = 10 then numberOfBins = 1024 or bin names will
 	// have a suffix between "000" and "3ff" in hex and suffixLen will be 3
@@ -592,7 +593,7 @@ func (role *SuccinctRoles) GetRolesForTarget(targetFilepath string) map[string]b
 	suffix := fmt.Sprintf("%0*x", suffixLen, binNumber)
 	// we consider all succinct_roles as terminating.
 	// for more information read TAP 15.
-	return map[string]bool{fmt.Sprintf("%s-%s", role.NamePrefix, suffix): true}
+	return []RoleResult{{Name: fmt.Sprintf("%s-%s", role.NamePrefix, suffix), Terminating: true}}
 }
 
 // GetRoles returns the names of all different delegated roles
diff --git a/metadata/types.go b/metadata/types.go
index 81f8cbc..64425b5 100644
--- a/metadata/types.go
+++ b/metadata/types.go
@@ -156,6 +156,13 @@ type DelegatedRole struct {
 	UnrecognizedFields map[string]any `json:"-"`
 }
 
+// RoleResult represents a delegated role responsible for a target and
+// whether the search should stop after it
+type RoleResult struct {
+	Name        string
+	Terminating bool
+}
+
 // SuccinctRoles represents a delegation graph that covers all targets,
 // distributing them uniformly over the delegated roles (i.e. bins) in the graph.
 type SuccinctRoles struct {
diff --git a/metadata/updater/updater.go b/metadata/updater/updater.go
index d38a049..1a1b849 100644
--- a/metadata/updater/updater.go
+++ b/metadata/updater/updater.go
@@ -544,10 +544,10 @@ func (update *Updater) preOrderDepthFirstWalk(targetFilePath string) (*metadata.
 			// note that this may be a slow operation if there are many
 			// delegated roles
 			roles := targets.Signed.Delegations.GetRolesForTarget(targetFilePath)
-			for child, terminating := range roles {
-				log.Info("Adding child role", "role", child)
-				childRolesToVisit = append(childRolesToVisit, roleParentTuple{Role: child, Parent: delegation.Role})
-				if terminating {
+			for _, child := range roles {
+				log.Info("Adding child role", "role", child.Name)
+				childRolesToVisit = append(childRolesToVisit, roleParentTuple{Role: child.Name, Parent: delegation.Role})
+				if child.Terminating {
 					log.Info("Not backtracking to other roles")
 					delegationsToVisit = []roleParentTuple{}
 					break
-- 
2.43.0


From 2379a0df94af6f0cecadb1321ad240e2dfdfdd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:39 +0000
Subject: [PATCH 03/26] fix: return an error for metadata without a signed
 object or type

Loading such a document panicked on an unchecked type assertion.
---
 metadata/metadata.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index 8268aa8..6437075 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -882,7 +882,14 @@ func checkType[T Roles](data []byte) error {
 	if err := json.Unmarshal(data, &m); err != nil {
 		return err
 	}
-	signedType := m["signed"].(map[string]any)["_type"].(string)
+	signed, ok := m["signed"].(map[string]any)
+	if !ok {
+		return ErrValue{Msg: "metadata has no \"signed\" object"}
+	}
+	signedType, ok := signed["_type"].(string)
+	if !ok {
+		return ErrValue{Msg: "metadata has no \"_type\" string"}
+	}
 	switch i.(type) {
 	case *RootType:
 		if ROOT != signedType {
-- 
2.43.0


From fb5f93ab696d23b4c871d930a5a81c9769d8f7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:14 +0000
Subject: [PATCH 04/26] fix: reject metadata that declares a signature
 threshold below 1

A role with threshold 0 or less was considered verified without any signature.
---
 metadata/marshal.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/metadata/marshal.go b/metadata/marshal.go
index 7d262c7..c499fb8 100644
--- a/metadata/marshal.go
+++ b/metadata/marshal.go
@@ -15,6 +15,7 @@ import (
 	"encoding/hex"
 	"encoding/json"
 	"errors"
+	"fmt"
 )
 
 // The following marshal/unmarshal methods override the default behavior for for each TUF type
@@ -407,6 +408,9 @@ func (role *Role) UnmarshalJSON(data []byte) error {
 	if err := json.Unmarshal(data, &a); err != nil {
 		return err
 	}
+	if a.Threshold < 1 {
+		return ErrValue{Msg: fmt.Sprintf("threshold must be at least 1, got %d", a.Threshold)}
+	}
 	*role = Role(a)
 
 	var dict map[string]any
@@ -480,6 +484,9 @@ func (role *DelegatedRole) UnmarshalJSON(data []byte) error {
 	if err := json.Unmarshal(data, &a); err != nil {
 		return err
 	}
+	if a.Threshold < 1 {
+		return ErrValue{Msg: fmt.Sprintf("threshold must be at least 1, got %d", a.Threshold)}
+	}
 	*role = DelegatedRole(a)
 
 	var dict map[string]any
@@ -514,6 +521,9 @@ func (role *SuccinctRoles) UnmarshalJSON(data []byte) error {
 	if err := json.Unmarshal(data, &a); err != nil {
 		return err
 	}
+	if a.Threshold < 1 {
+		return ErrValue{Msg: fmt.Sprintf("threshold must be at least 1, got %d", a.Threshold)}
+	}
 	*role = SuccinctRoles(a)
 
 	var dict map[string]any
-- 
2.43.0


From 749cdb90412a451060576ea19c444d89ab6bac9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:17 +0000
Subject: [PATCH 05/26] fix: reject succinct roles whose bit_length is not
 between 1 and 32

Outside that range the bin of a target is undefined, and a value above 32
makes looking a target up panic with a negative shift.
---
 metadata/marshal.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metadata/marshal.go b/metadata/marshal.go
index c499fb8..a4174e3 100644
--- a/metadata/marshal.go
+++ b/metadata/marshal.go
@@ -524,6 +524,9 @@ func (role *SuccinctRoles) UnmarshalJSON(data []byte) error {
 	if a.Threshold < 1 {
 		return ErrValue{Msg: fmt.Sprintf("threshold must be at least 1, got %d", a.Threshold)}
 	}
+	if a.BitLength < 1 || a.BitLength > 32 {
+		return ErrValue{Msg: fmt.Sprintf("bit_length must be between 1 and 32, got %d", a.BitLength)}
+	}
 	*role = SuccinctRoles(a)
 
 	var dict map[string]any
-- 
2.43.0


From 027961c88b7c1591316e8ba8f840f01cd12de75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:21 +0000
Subject: [PATCH 06/26] fix: reject metadata with null keys, roles, meta or
 targets entries

A null entry was kept as a nil pointer and dereferenced later on.
---
 metadata/marshal.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/metadata/marshal.go b/metadata/marshal.go
index a4174e3..59aa697 100644
--- a/metadata/marshal.go
+++ b/metadata/marshal.go
@@ -42,6 +42,9 @@ func (signed *RootType) UnmarshalJSON(data []byte) error {
 	if err := json.Unmarshal(data, &s); err != nil {
 		return err
 	}
+	if hasNilValue(s.Keys) || hasNilValue(s.Roles) {
+		return ErrValue{Msg: "root keys and roles must not be null"}
+	}
 	*signed = RootType(s)
 
 	var dict map[string]any
@@ -78,6 +81,9 @@ func (signed *SnapshotType) UnmarshalJSON(data []byte) error {
 	if err := json.Unmarshal(data, &s); err != nil {
 		return err
 	}
+	if hasNilValue(s.Meta) {
+		return ErrValue{Msg: "snapshot meta entries must not be null"}
+	}
 	*signed = SnapshotType(s)
 
 	var dict map[string]any
@@ -112,6 +118,9 @@ func (signed *TimestampType) UnmarshalJSON(data []byte) error {
 	if err := json.Unmarshal(data, &s); err != nil {
 		return err
 	}
+	if hasNilValue(s.Meta) {
+		return ErrValue{Msg: "timestamp meta entries must not be null"}
+	}
 	*signed = TimestampType(s)
 
 	var dict map[string]any
@@ -149,6 +158,9 @@ func (signed *TargetsType) UnmarshalJSON(data []byte) error {
 	if err := json.Unmarshal(data, &s); err != nil {
 		return err
 	}
+	if hasNilValue(s.Targets) {
+		return ErrValue{Msg: "targets entries must not be null"}
+	}
 	*signed = TargetsType(s)
 
 	// populate the path field for each target
@@ -444,6 +456,9 @@ func (d *Delegations) UnmarshalJSON(data []byte) error {
 	if err := json.Unmarshal(data, &a); err != nil {
 		return err
 	}
+	if hasNilValue(a.Keys) {
+		return ErrValue{Msg: "delegations keys must not be null"}
+	}
 	*d = Delegations(a)
 
 	var dict map[string]any
@@ -566,6 +581,16 @@ func (b HexBytes) String() string {
 	return hex.EncodeToString(b)
 }
 
+// hasNilValue reports whether any value of the map is nil
+func hasNilValue[V any](m map[string]*V) bool {
+	for _, v := range m {
+		if v == nil {
+			return true
+		}
+	}
+	return false
+}
+
 // copyMapValues copies the values of the src map to dst
 func copyMapValues(src, dst map[string]any) {
 	for k, v := range src {
-- 
2.43.0


From 3eb0bbd179f54bd5050c2460dfe594213a05b3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:56 +0000
Subject: [PATCH 07/26] fix: report metadata missing from timestamp or snapshot
 as an error

A timestamp without an entry for the snapshot, or a delegated role the snapshot
does not list, led to a nil pointer dereference in the client.
---
 metadata/trustedmetadata/trustedmetadata.go | 6 +++++-
 metadata/updater/updater.go                 | 5 ++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/metadata/trustedmetadata/trustedmetadata.go b/metadata/trustedmetadata/trustedmetadata.go
index 0792493..69d34cd 100644
--- a/metadata/trustedmetadata/trustedmetadata.go
+++ b/metadata/trustedmetadata/trustedmetadata.go
@@ -116,6 +116,11 @@ func (trusted *TrustedMetadata) UpdateTimestamp(timestampData []byte) (*metadata
 	if err != nil {
 		return nil, err
 	}
+	// a timestamp is of no use without information about the snapshot
+	newSnapshotMeta, ok := newTimestamp.Signed.Meta[fmt.Sprintf("%s.json", metadata.SNAPSHOT)]
+	if !ok {
+		return nil, metadata.ErrRepository{Msg: fmt.Sprintf("timestamp does not contain information for %s", metadata.SNAPSHOT)}
+	}
 	// if an existing trusted timestamp is updated,
 	// check for a rollback attack
 	if trusted.Timestamp != nil {
@@ -130,7 +135,6 @@ func (trusted *TrustedMetadata) UpdateTimestamp(timestampData []byte) (*metadata
 		}
 		// prevent rolling back snapshot version
 		snapshotMeta := trusted.Timestamp.Signed.Meta[fmt.Sprintf("%s.json", metadata.SNAPSHOT)]
-		newSnapshotMeta := newTimestamp.Signed.Meta[fmt.Sprintf("%s.json", metadata.SNAPSHOT)]
 		if newSnapshotMeta.Version < snapshotMeta.Version {
 			return nil, metadata.ErrBadVersionNumber{Msg: fmt.Sprintf("new snapshot version %d must be >= %d", newSnapshotMeta.Version, snapshotMeta.Version)}
 		}
diff --git a/metadata/updater/updater.go b/metadata/updater/updater.go
index 1a1b849..7616828 100644
--- a/metadata/updater/updater.go
+++ b/metadata/updater/updater.go
@@ -434,7 +434,10 @@ func (update *Updater) loadTargets(roleName, parentName string) (*metadata.Metad
 		return nil, fmt.Errorf("trusted snapshot not set")
 	}
 	// extract the targets meta from the trusted snapshot metadata
-	metaInfo := update.trusted.Snapshot.Signed.Meta[fmt.Sprintf("%s.json", roleName)]
+	metaInfo, ok := update.trusted.Snapshot.Signed.Meta[fmt.Sprintf("%s.json", roleName)]
+	if !ok {
+		return nil, metadata.ErrRepository{Msg: fmt.Sprintf("snapshot does not contain information for %s", roleName)}
+	}
 	// extract the length of the target metadata to be downloaded
 	length := metaInfo.Length
 	if length == 0 {
-- 
2.43.0


From 0660c9be6aecea607ea95792e5a106a98b075965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:00 +0000
Subject: [PATCH 08/26] fix: make ErrRepository errors match ErrRepository in
 errors.Is

Only the subset errors matched, so a plain ErrRepository (such as a wrong
metadata type or a role missing from the snapshot) in a cached file aborted the
update instead of being replaced from the remote repository.
---
 metadata/errors.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/metadata/errors.go b/metadata/errors.go
index 4086720..87afa5f 100644
--- a/metadata/errors.go
+++ b/metadata/errors.go
@@ -32,6 +32,11 @@ func (e ErrRepository) Error() string {
 	return fmt.Sprintf("repository error: %s", e.Msg)
 }
 
+// ErrRepository matches any other ErrRepository
+func (e ErrRepository) Is(target error) bool {
+	return target == ErrRepository{}
+}
+
 // ErrUnsignedMetadata - An error about metadata object with insufficient threshold of signatures
 type ErrUnsignedMetadata struct {
 	Msg string
-- 
2.43.0


From 8b4ffd5852b59b691262ceeaba8b6219f353d74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:48 +0000
Subject: [PATCH 09/26] fix: put the hash prefix on the file name of targets in
 nested directories

The prefix went after the first slash of the target path, so the target a/b/c
was requested as a/<hash>.b/c instead of a/b/<hash>.c.
---
 metadata/updater/updater.go | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/metadata/updater/updater.go b/metadata/updater/updater.go
index 7616828..1f90fd8 100644
--- a/metadata/updater/updater.go
+++ b/metadata/updater/updater.go
@@ -225,14 +225,9 @@ func (update *Updater) DownloadTarget(targetFile *metadata.TargetFiles, filePath
 			hashes = hex.EncodeToString(v)
 			break
 		}
-		dirName, baseName, ok := strings.Cut(targetFilePath, "/")
-		if !ok {
-			// <hash>.<target-name>
-			targetFilePath = fmt.Sprintf("%s.%s", hashes, dirName)
-		} else {
-			// <dir-prefix>/<hash>.<target-name>
-			targetFilePath = fmt.Sprintf("%s/%s.%s", dirName, hashes, baseName)
-		}
+		// <dir-prefix>/<hash>.<target-name>, where the prefix may be empty
+		baseStart := strings.LastIndex(targetFilePath, "/") + 1
+		targetFilePath = fmt.Sprintf("%s%s.%s", targetFilePath[:baseStart], hashes, targetFilePath[baseStart:])
 	}
 	fullURL := fmt.Sprintf("%s%s", targetBaseURL, targetFilePath)
 	data, err := update.cfg.Fetcher.DownloadFile(fullURL, targetFile.Length, time.Second*15)
-- 
2.43.0


From e6878481d97017a63a4aa4ec58942d9e7de34221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:52 +0000
Subject: [PATCH 10/26] fix: stage cached metadata next to the file it replaces
 and leak nothing

The temporary file was created in the working directory, where the rename fails
across file systems, was never closed, and was left behind on a failed rename.
---
 metadata/updater/updater.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/metadata/updater/updater.go b/metadata/updater/updater.go
index 1f90fd8..9e7d6e4 100644
--- a/metadata/updater/updater.go
+++ b/metadata/updater/updater.go
@@ -576,15 +576,12 @@ func (update *Updater) persistMetadata(roleName string, data []byte) error {
 	}
 	// caching enabled, proceed with persisting the metadata locally
 	fileName := filepath.Join(update.cfg.LocalMetadataDir, fmt.Sprintf("%s.json", url.QueryEscape(roleName)))
-	cwd, err := os.Getwd()
-	if err != nil {
-		return err
-	}
-	// create a temporary file
-	file, err := os.CreateTemp(cwd, "tuf_tmp")
+	// create a temporary file in the same directory, so it can be renamed atomically
+	file, err := os.CreateTemp(update.cfg.LocalMetadataDir, "tuf_tmp")
 	if err != nil {
 		return err
 	}
+	file.Close()
 	// write the data content to the temporary file
 	err = os.WriteFile(file.Name(), data, 0644)
 	if err != nil {
@@ -598,6 +595,11 @@ func (update *Updater) persistMetadata(roleName string, data []byte) error {
 	// if all okay, rename the temporary file to the desired one
 	err = os.Rename(file.Name(), fileName)
 	if err != nil {
+		// delete the temporary file if it did not replace the desired one
+		errRemove := os.Remove(file.Name())
+		if errRemove != nil {
+			log.Info("Failed to delete temporary file", "name", file.Name())
+		}
 		return err
 	}
 	return nil
-- 
2.43.0


From 5bc0ab07c4560fd8351c3e474afea8982aa74235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:55 +0000
Subject: [PATCH 11/26] fix: read cached metadata from the file name it was
 written to

Metadata was cached under the escaped role name but read back under the raw one,
so roles with special characters were never found in the cache and a role name
with path separators could name a file outside the metadata directory.
---
 metadata/updater/updater.go | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/metadata/updater/updater.go b/metadata/updater/updater.go
index 9e7d6e4..dcacd9e 100644
--- a/metadata/updater/updater.go
+++ b/metadata/updater/updater.go
@@ -143,8 +143,7 @@ func (update *Updater) onlineRefresh() error {
 func (update *Updater) unsafeLocalRefresh() error {
 	// Root is already loaded
 	// load timestamp
-	var p = filepath.Join(update.cfg.LocalMetadataDir, metadata.TIMESTAMP)
-	data, err := update.loadLocalMetadata(p)
+	data, err := update.loadLocalMetadata(metadata.TIMESTAMP)
 	if err != nil {
 		return err
 	}
@@ -154,8 +153,7 @@ func (update *Updater) unsafeLocalRefresh() error {
 	}
 
 	// load snapshot
-	p = filepath.Join(update.cfg.LocalMetadataDir, metadata.SNAPSHOT)
-	data, err = update.loadLocalMetadata(p)
+	data, err = update.loadLocalMetadata(metadata.SNAPSHOT)
 	if err != nil {
 		return err
 	}
@@ -165,8 +163,7 @@ func (update *Updater) unsafeLocalRefresh() error {
 	}
 
 	// targets
-	p = filepath.Join(update.cfg.LocalMetadataDir, metadata.TARGETS)
-	data, err = update.loadLocalMetadata(p)
+	data, err = update.loadLocalMetadata(metadata.TARGETS)
 	if err != nil {
 		return err
 	}
@@ -287,7 +284,7 @@ func (update *Updater) FindCachedTarget(targetFile *metadata.TargetFiles, filePa
 func (update *Updater) loadTimestamp() error {
 	log := metadata.GetLogger()
 	// try to read local timestamp
-	data, err := update.loadLocalMetadata(filepath.Join(update.cfg.LocalMetadataDir, metadata.TIMESTAMP))
+	data, err := update.loadLocalMetadata(metadata.TIMESTAMP)
 	if err != nil {
 		// this means there's no existing local timestamp so we should proceed downloading it without the need to UpdateTimestamp
 		log.Info("Local timestamp does not exist")
@@ -335,7 +332,7 @@ func (update *Updater) loadTimestamp() error {
 func (update *Updater) loadSnapshot() error {
 	log := metadata.GetLogger()
 	// try to read local snapshot
-	data, err := update.loadLocalMetadata(filepath.Join(update.cfg.LocalMetadataDir, metadata.SNAPSHOT))
+	data, err := update.loadLocalMetadata(metadata.SNAPSHOT)
 	if err != nil {
 		// this means there's no existing local snapshot so we should proceed downloading it without the need to UpdateSnapshot
 		log.Info("Local snapshot does not exist")
@@ -401,7 +398,7 @@ func (update *Updater) loadTargets(roleName, parentName string) (*metadata.Metad
 		return role, nil
 	}
 	// try to read local targets
-	data, err := update.loadLocalMetadata(filepath.Join(update.cfg.LocalMetadataDir, roleName))
+	data, err := update.loadLocalMetadata(roleName)
 	if err != nil {
 		// this means there's no existing local target file so we should proceed downloading it without the need to UpdateDelegatedTargets
 		log.Info("Local role does not exist", "role", roleName)
@@ -627,9 +624,9 @@ func (update *Updater) generateTargetFilePath(tf *metadata.TargetFiles) (string,
 	return url.JoinPath(update.cfg.LocalTargetsDir, url.QueryEscape(tf.Path))
 }
 
-// loadLocalMetadata reads a local <roleName>.json file and returns its bytes
+// loadLocalMetadata reads the file persistMetadata writes for roleName and returns its bytes
 func (update *Updater) loadLocalMetadata(roleName string) ([]byte, error) {
-	return readFile(fmt.Sprintf("%s.json", roleName))
+	return readFile(filepath.Join(update.cfg.LocalMetadataDir, fmt.Sprintf("%s.json", url.QueryEscape(roleName))))
 }
 
 // GetTopLevelTargets returns the top-level target files
-- 
2.43.0


From d894cadf32fb95283fa6db788d5ab6983882d25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:24 +0000
Subject: [PATCH 12/26] fix: replace unusable cached metadata from the remote
 repository

A cached timestamp, snapshot or targets file that is corrupt (not just outdated
or badly signed) made every update fail until the user removed the file.
---
 metadata/updater/updater.go | 32 ++++++++------------------------
 1 file changed, 8 insertions(+), 24 deletions(-)

diff --git a/metadata/updater/updater.go b/metadata/updater/updater.go
index dcacd9e..05dbd87 100644
--- a/metadata/updater/updater.go
+++ b/metadata/updater/updater.go
@@ -292,15 +292,11 @@ func (update *Updater) loadTimestamp() error {
 		// local timestamp exists, let's try to verify it and load it to the trusted metadata set
 		_, err := update.trusted.UpdateTimestamp(data)
 		if err != nil {
-			if errors.Is(err, metadata.ErrRepository{}) {
-				// local timestamp is not valid, proceed downloading from remote; note that this error type includes several other subset errors
-				log.Info("Local timestamp is not valid")
-			} else {
-				// another error
-				return err
-			}
+			// local timestamp is not valid, whatever the reason, proceed downloading from remote
+			log.Info("Local timestamp is not valid", "error", err.Error())
+		} else {
+			log.Info("Local timestamp is valid")
 		}
-		log.Info("Local timestamp is valid")
 		// all okay, local timestamp exists and it is valid, nevertheless proceed with downloading from remote
 	}
 	// load from remote (whether local load succeeded or not)
@@ -340,14 +336,8 @@ func (update *Updater) loadSnapshot() error {
 		// successfully read a local snapshot metadata, so let's try to verify and load it to the trusted metadata set
 		_, err = update.trusted.UpdateSnapshot(data, true)
 		if err != nil {
-			// this means snapshot verification/loading failed
-			if errors.Is(err, metadata.ErrRepository{}) {
-				// local snapshot is not valid, proceed downloading from remote; note that this error type includes several other subset errors
-				log.Info("Local snapshot is not valid")
-			} else {
-				// another error
-				return err
-			}
+			// local snapshot is not valid, whatever the reason, proceed downloading from remote
+			log.Info("Local snapshot is not valid", "error", err.Error())
 		} else {
 			// this means snapshot verification/loading succeeded
 			log.Info("Local snapshot is valid: not downloading new one")
@@ -406,14 +396,8 @@ func (update *Updater) loadTargets(roleName, parentName string) (*metadata.Metad
 		// successfully read a local targets metadata, so let's try to verify and load it to the trusted metadata set
 		delegatedTargets, err := update.trusted.UpdateDelegatedTargets(data, roleName, parentName)
 		if err != nil {
-			// this means targets verification/loading failed
-			if errors.Is(err, metadata.ErrRepository{}) {
-				// local target file is not valid, proceed downloading from remote; note that this error type includes several other subset errors
-				log.Info("Local role is not valid", "role", roleName)
-			} else {
-				// another error
-				return nil, err
-			}
+			// local target file is not valid, whatever the reason, proceed downloading from remote
+			log.Info("Local role is not valid", "role", roleName, "error", err.Error())
 		} else {
 			// this means targets verification/loading succeeded
 			log.Info("Local role is valid: not downloading new one", "role", roleName)
-- 
2.43.0


From 50c6fd1d785b5924d62ae2c0333cf598fb702046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:45 +0000
Subject: [PATCH 13/26] fix: never download delegated metadata in unsafe local
 mode

The mode promises no network interaction, but a target lookup fetched delegated
roles that were missing from or invalid in the cache.
---
 metadata/updater/updater.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metadata/updater/updater.go b/metadata/updater/updater.go
index 05dbd87..7b37331 100644
--- a/metadata/updater/updater.go
+++ b/metadata/updater/updater.go
@@ -404,6 +404,10 @@ func (update *Updater) loadTargets(roleName, parentName string) (*metadata.Metad
 			return delegatedTargets, nil
 		}
 	}
+	// no network interaction is allowed in this mode
+	if update.cfg.UnsafeLocalMode {
+		return nil, fmt.Errorf("no valid local metadata for role %s", roleName)
+	}
 	// local "roleName" does not exist or is invalid, update from remote
 	log.Info("Failed to load local role", "role", roleName)
 	if update.trusted.Snapshot == nil {
-- 
2.43.0


From c053d1f1e70ab22b6f187af75a54861e516674d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:45 +0000
Subject: [PATCH 14/26] fix: list no top-level targets before the first refresh

GetTopLevelTargets dereferenced the missing targets metadata.
---
 metadata/updater/updater.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/metadata/updater/updater.go b/metadata/updater/updater.go
index 7b37331..8a25323 100644
--- a/metadata/updater/updater.go
+++ b/metadata/updater/updater.go
@@ -619,7 +619,12 @@ func (update *Updater) loadLocalMetadata(roleName string) ([]byte, error) {
 
 // GetTopLevelTargets returns the top-level target files
 func (update *Updater) GetTopLevelTargets() map[string]*metadata.TargetFiles {
-	return update.trusted.Targets[metadata.TARGETS].Signed.Targets
+	targets, ok := update.trusted.Targets[metadata.TARGETS]
+	if !ok {
+		// not loaded yet
+		return nil
+	}
+	return targets.Signed.Targets
 }
 
 // GetTrustedMetadataSet returns the trusted metadata set
-- 
2.43.0


From b926ceb375f80d258d883244ae93c7dad185ecc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:48 +0000
Subject: [PATCH 15/26] fix: store targets in the configured directory,
 whatever its name

The directory was treated as a URL, so a space in it came out as %20, and the
target paths "." and ".." named the directory itself or its parent.
---
 metadata/updater/updater.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/metadata/updater/updater.go b/metadata/updater/updater.go
index 8a25323..353abdc 100644
--- a/metadata/updater/updater.go
+++ b/metadata/updater/updater.go
@@ -609,7 +609,11 @@ func (update *Updater) generateTargetFilePath(tf *metadata.TargetFiles) (string,
 		return "", metadata.ErrValue{Msg: "LocalTargetsDir must be set if filepath is not given"}
 	}
 	// Use URL encoded target path as filename
-	return url.JoinPath(update.cfg.LocalTargetsDir, url.QueryEscape(tf.Path))
+	fileName := url.QueryEscape(tf.Path)
+	if fileName == "" || fileName == "." || fileName == ".." {
+		return "", metadata.ErrValue{Msg: fmt.Sprintf("target path %q can not be used as a file name", tf.Path)}
+	}
+	return filepath.Join(update.cfg.LocalTargetsDir, fileName), nil
 }
 
 // loadLocalMetadata reads the file persistMetadata writes for roleName and returns its bytes
-- 
2.43.0


From cd226cbdc63d09337e9856286c2a27d5958d4506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:20 +0000
Subject: [PATCH 16/26] fix: reject ed25519 keys of the wrong length

Verifying a signature with such a key panicked.
---
 metadata/keys.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metadata/keys.go b/metadata/keys.go
index f5150a6..0d1c849 100644
--- a/metadata/keys.go
+++ b/metadata/keys.go
@@ -71,6 +71,9 @@ func (k *Key) ToPublicKey() (crypto.PublicKey, error) {
 		if err != nil {
 			return nil, err
 		}
+		if len(publicKey) != ed25519.PublicKeySize {
+			return nil, fmt.Errorf("invalid ed25519 public key")
+		}
 		ed25519Key := ed25519.PublicKey(publicKey)
 		// done for verification - ref. https://github.com/theupdateframework/go-tuf/pull/357
 		if _, err := x509.MarshalPKIXPublicKey(ed25519Key); err != nil {
-- 
2.43.0


From 057ce6c150559aa35b7d0b09fc1455d3a6a11bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:24 +0000
Subject: [PATCH 17/26] fix: verify only the bins of a succinct delegation with
 its keys

Any role name at all was accepted as delegated by succinct roles.
---
 metadata/metadata.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index 6437075..b98af1f 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -280,6 +280,10 @@ func (meta *Metadata[T]) VerifyDelegate(delegatedRole string, delegatedMetadata
 				return ErrValue{Msg: fmt.Sprintf("no delegation found for %s", delegatedRole)}
 			}
 		} else if i.Signed.Delegations.SuccinctRoles != nil {
+			// the delegated role is not one of the bins, no need to proceed
+			if !i.Signed.Delegations.SuccinctRoles.IsDelegatedRole(delegatedRole) {
+				return ErrValue{Msg: fmt.Sprintf("no delegation found for %s", delegatedRole)}
+			}
 			roleKeyIDs = i.Signed.Delegations.SuccinctRoles.KeyIDs
 			roleThreshold = i.Signed.Delegations.SuccinctRoles.Threshold
 		}
-- 
2.43.0


From a087d13320245d507708bab4108afa9011396ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:28 +0000
Subject: [PATCH 18/26] fix: accept only the names of existing bins as succinct
 roles

Suffixes such as +f or 0F parse as hex numbers too, but no bin has that name.
---
 metadata/metadata.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index b98af1f..4481622 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -642,7 +642,8 @@ func (role *SuccinctRoles) IsDelegatedRole(roleName string) bool {
 	}
 
 	// check if the bin we calculated is indeed within the range of what we support
-	return (value >= 0) && (value < int64(numberOfBins))
+	// and that it is written the way the names of the bins are
+	return (value >= 0) && (value < int64(numberOfBins)) && suffix == fmt.Sprintf("%0*x", suffixLen, value)
 }
 
 // AddKey adds new signing key for delegated role "role"
-- 
2.43.0


From f17802b50c936348f7f0352e82bc445ad50ed552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:31 +0000
Subject: [PATCH 19/26] fix: replace the previous signature when signing again
 with the same key

Two signatures with one key ID make the metadata fail to load.
---
 metadata/metadata.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index 4481622..16880ca 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -229,8 +229,14 @@ func (meta *Metadata[T]) Sign(signer signature.Signer) (*Signature, error) {
 		KeyID:     key.ID(),
 		Signature: sb,
 	}
-	// update the Signatures part
-	meta.Signatures = append(meta.Signatures, *sig)
+	// update the Signatures part, replacing any previous signature of that key
+	signatures := []Signature{}
+	for _, s := range meta.Signatures {
+		if s.KeyID != sig.KeyID {
+			signatures = append(signatures, s)
+		}
+	}
+	meta.Signatures = append(signatures, *sig)
 	// return the new signature
 	log.Info("Signed metadata with key", "ID", key.ID())
 	return sig, nil
-- 
2.43.0


From f86916adcb63d907ba20be604414fe892e5b1296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:21 +0000
Subject: [PATCH 20/26] fix: fail to add a key when there is no delegated role
 to add it to

With neither roles nor succinct roles present the key was stored and success
reported, although no role is signed by it.
---
 metadata/metadata.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index 16880ca..db43bfd 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -740,6 +740,8 @@ func (signed *TargetsType) AddKey(key *Key, role string) error {
 		}
 		log.Info("SuccinctRoles role already has keyID", "ID", key.ID())
 
+	} else {
+		return ErrValue{Msg: fmt.Sprintf("delegated role %s doesn't exist", role)}
 	}
 	signed.Delegations.Keys[key.ID()] = key // TODO: should we check if we don't accidentally override an existing keyID with another key value?
 	return nil
-- 
2.43.0


From 8ed31d21d5c16db242046d5e11e2a1cd92a195c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:26 +0000
Subject: [PATCH 21/26] fix: reject delegations to roles without a name or
 named like a top-level role

A delegated role called timestamp, say, took the place of the cached timestamp.
---
 metadata/marshal.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/metadata/marshal.go b/metadata/marshal.go
index 59aa697..2725b4d 100644
--- a/metadata/marshal.go
+++ b/metadata/marshal.go
@@ -16,6 +16,8 @@ import (
 	"encoding/json"
 	"errors"
 	"fmt"
+
+	"golang.org/x/exp/slices"
 )
 
 // The following marshal/unmarshal methods override the default behavior for for each TUF type
@@ -459,6 +461,11 @@ func (d *Delegations) UnmarshalJSON(data []byte) error {
 	if hasNilValue(a.Keys) {
 		return ErrValue{Msg: "delegations keys must not be null"}
 	}
+	for _, r := range a.Roles {
+		if r.Name == "" || slices.Contains(TOP_LEVEL_ROLE_NAMES[:], r.Name) {
+			return ErrValue{Msg: fmt.Sprintf("not allowed to delegate to a role named %q", r.Name)}
+		}
+	}
 	*d = Delegations(a)
 
 	var dict map[string]any
-- 
2.43.0


From 96eaf2c96f91c0d152bc5b53ded1f720457da44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:57 +0000
Subject: [PATCH 22/26] fix: reject repository names that are not a plain
 folder name

A name such as ../x in the map file placed the metadata of that repository
outside the configured metadata directory.
---
 metadata/multirepo/multirepo.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/metadata/multirepo/multirepo.go b/metadata/multirepo/multirepo.go
index 7d278e3..72843a3 100644
--- a/metadata/multirepo/multirepo.go
+++ b/metadata/multirepo/multirepo.go
@@ -16,6 +16,7 @@ import (
 	"fmt"
 	"os"
 	"path/filepath"
+	"strings"
 
 	"github.com/rdimitrov/go-tuf-metadata/metadata"
 	"github.com/rdimitrov/go-tuf-metadata/metadata/config"
@@ -105,6 +106,10 @@ func (client *MultiRepoClient) initTUFClients() error {
 
 	// loop through each repository listed in the map file and initialize it
 	for repoName, repoURL := range client.Config.RepoMap.Repositories {
+		// the name is also used as the name of the folder for the repository
+		if repoName == "" || repoName == "." || repoName == ".." || strings.ContainsAny(repoName, `/\`) {
+			return fmt.Errorf("invalid repository name - %q", repoName)
+		}
 		log.Info("Initializing", "name", repoName, "url", repoURL[0])
 
 		// get the trusted root file from the location specified in the map file relevant to its path
-- 
2.43.0


From 9e4c6954e910167b6d717e6ca21c35051ca4a866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:59 +0000
Subject: [PATCH 23/26] fix: survive incomplete multi-repository map files

A null map or mapping, a repository without a URL and a mapping that names an
undescribed repository each caused a panic.
---
 metadata/multirepo/multirepo.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/metadata/multirepo/multirepo.go b/metadata/multirepo/multirepo.go
index 72843a3..1b59885 100644
--- a/metadata/multirepo/multirepo.go
+++ b/metadata/multirepo/multirepo.go
@@ -70,6 +70,10 @@ func NewConfig(repoMap []byte, roots map[string][]byte) (*MultiRepoConfig, error
 		return nil, err
 	}
 
+	if mapFile == nil || slices.Contains(mapFile.Mapping, nil) {
+		return nil, fmt.Errorf("failed to create multi-repository config: null map file or mapping")
+	}
+
 	// make sure we have enough trusted root metadata files provided based on the repository list
 	for repo := range mapFile.Repositories {
 		// check if we have a trusted root metadata for this repository
@@ -110,6 +114,9 @@ func (client *MultiRepoClient) initTUFClients() error {
 		if repoName == "" || repoName == "." || repoName == ".." || strings.ContainsAny(repoName, `/\`) {
 			return fmt.Errorf("invalid repository name - %q", repoName)
 		}
+		if len(repoURL) == 0 {
+			return fmt.Errorf("no URL provided for repository - %s", repoName)
+		}
 		log.Info("Initializing", "name", repoName, "url", repoURL[0])
 
 		// get the trusted root file from the location specified in the map file relevant to its path
@@ -229,8 +236,13 @@ func (client *MultiRepoClient) GetTargetInfo(targetPath string) (*metadata.Targe
 					// and see if we can find a consensus among them to cover the threshold for that mapping
 					var matchedTargetGroups []targetMatch
 					for _, repoName := range eachMap.Repositories {
+						// a repository the map file does not describe can't vouch for anything
+						repoTUFClient, ok := client.TUFClients[repoName]
+						if !ok {
+							continue
+						}
 						// get target info from that repository
-						newTargetInfo, err := client.TUFClients[repoName].GetTargetInfo(targetPath)
+						newTargetInfo, err := repoTUFClient.GetTargetInfo(targetPath)
 						if err != nil {
 							// failed to get target info for the given target
 							// there's probably no such target
-- 
2.43.0


From c8f1f3a0c730657ff79b98bb46958bf36a13776c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:18 +0000
Subject: [PATCH 24/26] fix: allow a multi-repository client without a shared
 targets directory

Leaving it unset selects a targets folder per repository, but creating the
folders failed on the empty path.
---
 metadata/multirepo/multirepo.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/metadata/multirepo/multirepo.go b/metadata/multirepo/multirepo.go
index 1b59885..36b4164 100644
--- a/metadata/multirepo/multirepo.go
+++ b/metadata/multirepo/multirepo.go
@@ -351,7 +351,12 @@ func (cfg *MultiRepoConfig) EnsurePathsExist() error {
 	if cfg.DisableLocalCache {
 		return nil
 	}
-	for _, path := range []string{cfg.LocalMetadataDir, cfg.LocalTargetsDir} {
+	paths := []string{cfg.LocalMetadataDir}
+	if cfg.LocalTargetsDir != "" {
+		// if not set, a targets folder is created for each repository instead
+		paths = append(paths, cfg.LocalTargetsDir)
+	}
+	for _, path := range paths {
 		err := os.MkdirAll(path, os.ModePerm)
 		if err != nil {
 			return err
-- 
2.43.0


From 99d9772164212a80218bcc49e75ea326ea196585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:56 +0000
Subject: [PATCH 25/26] fix: refuse to serialise delegations with both roles
 and succinct_roles

MarshalJSON silently left succinct_roles out, so that they could be added to
signed metadata without invalidating its signatures.
---
 metadata/marshal.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/metadata/marshal.go b/metadata/marshal.go
index 2725b4d..d4e4e15 100644
--- a/metadata/marshal.go
+++ b/metadata/marshal.go
@@ -442,8 +442,11 @@ func (d Delegations) MarshalJSON() ([]byte, error) {
 	if len(d.UnrecognizedFields) != 0 {
 		copyMapValues(d.UnrecognizedFields, dict)
 	}
-	// only one is allowed
 	dict["keys"] = d.Keys
+	// make sure we have only one of the two (per spec)
+	if d.Roles != nil && d.SuccinctRoles != nil {
+		return nil, ErrValue{Msg: "failed to marshal: not allowed to have both \"roles\" and \"succinct_roles\" present"}
+	}
 	if d.Roles != nil {
 		dict["roles"] = d.Roles
 	} else if d.SuccinctRoles != nil {
-- 
2.43.0


From 3364af8f1fede7316472b3d485867a2f4bb1faed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:26 +0000
Subject: [PATCH 26/26] fix: add keys to metadata that has no key store yet

---
 metadata/metadata.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index db43bfd..387a715 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -666,6 +666,9 @@ func (signed *RootType) AddKey(key *Key, role string) error {
 		signed.Roles[role].KeyIDs = append(signed.Roles[role].KeyIDs, key.ID())
 	}
 	// update Keys
+	if signed.Keys == nil {
+		signed.Keys = map[string]*Key{}
+	}
 	signed.Keys[key.ID()] = key // TODO: should we check if we don't accidentally override an existing keyID with another key value?
 	return nil
 }
@@ -722,7 +725,7 @@ func (signed *TargetsType) AddKey(key *Key, role string) error {
 				// add key if keyID is not already part of keyIDs for that role
 				if !slices.Contains(d.KeyIDs, key.ID()) {
 					signed.Delegations.Roles[i].KeyIDs = append(signed.Delegations.Roles[i].KeyIDs, key.ID())
-					signed.Delegations.Keys[key.ID()] = key // TODO: should we check if we don't accidentally override an existing keyID with another key value?
+					signed.Delegations.storeKey(key)
 					return nil
 				}
 				log.Info("Delegated role already has keyID", "role", role, "ID", key.ID())
@@ -735,7 +738,7 @@ func (signed *TargetsType) AddKey(key *Key, role string) error {
 		// add key if keyID is not already part of keyIDs for the SuccinctRoles role
 		if !slices.Contains(signed.Delegations.SuccinctRoles.KeyIDs, key.ID()) {
 			signed.Delegations.SuccinctRoles.KeyIDs = append(signed.Delegations.SuccinctRoles.KeyIDs, key.ID())
-			signed.Delegations.Keys[key.ID()] = key // TODO: should we check if we don't accidentally override an existing keyID with another key value?
+			signed.Delegations.storeKey(key)
 			return nil
 		}
 		log.Info("SuccinctRoles role already has keyID", "ID", key.ID())
@@ -743,10 +746,18 @@ func (signed *TargetsType) AddKey(key *Key, role string) error {
 	} else {
 		return ErrValue{Msg: fmt.Sprintf("delegated role %s doesn't exist", role)}
 	}
-	signed.Delegations.Keys[key.ID()] = key // TODO: should we check if we don't accidentally override an existing keyID with another key value?
+	signed.Delegations.storeKey(key)
 	return nil
 }
 
+// storeKey adds a key to the key store, creating the store if necessary
+func (role *Delegations) storeKey(key *Key) {
+	if role.Keys == nil {
+		role.Keys = map[string]*Key{}
+	}
+	role.Keys[key.ID()] = key // TODO: should we check if we don't accidentally override an existing keyID with another key value?
+}
+
 // RevokeKey revokes key from delegated role "role" and updates the delegations key store
 // keyID: Identifier of the key to be removed for “role“.
 // role: Name of the role, for which a signing key is removed.
-- 
2.43.0

