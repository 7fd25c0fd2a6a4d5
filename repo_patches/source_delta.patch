From 372c7a30c7de9de14adf5ca9e31c19f8403414f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:50 +0000
Subject: [PATCH 01/32] fix: accept only the names of the bins under succinct
 delegations

VerifyDelegate accepted metadata for any role name from a delegator that
uses succinct roles.
---
 metadata/metadata.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index c017773..5847e94 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -280,6 +280,10 @@ func (meta *Metadata[T]) VerifyDelegate(delegatedRole string, delegatedMetadata
 				return ErrValue{Msg: fmt.Sprintf("no delegation found for %s", delegatedRole)}
 			}
 		} else if i.Signed.Delegations.SuccinctRoles != nil {
+			// only the names of the bins are delegated
+			if !i.Signed.Delegations.SuccinctRoles.IsDelegatedRole(delegatedRole) {
+				return ErrValue{Msg: fmt.Sprintf("no delegation found for %s", delegatedRole)}
+			}
 			roleKeyIDs = i.Signed.Delegations.SuccinctRoles.KeyIDs
 			roleThreshold = i.Signed.Delegations.SuccinctRoles.Threshold
 		}
-- 
2.43.0


From 6a897dac99894bfd80c76147d32fa2b0640330f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:25 +0000
Subject: [PATCH 02/32] fix: refuse metadata that delegates with a threshold
 below one

With a threshold of zero the delegated metadata was accepted without any
valid signature.
---
 metadata/marshal.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/metadata/marshal.go b/metadata/marshal.go
index 7d262c7..d38c4b7 100644
--- a/metadata/marshal.go
+++ b/metadata/marshal.go
@@ -15,6 +15,7 @@ import (
 	"encoding/hex"
 	"encoding/json"
 	"errors"
+	"fmt"
 )
 
 // The following marshal/unmarshal methods override the default behavior for for each TUF type
@@ -407,6 +408,10 @@ func (role *Role) UnmarshalJSON(data []byte) error {
 	if err := json.Unmarshal(data, &a); err != nil {
 		return err
 	}
+	// a threshold below one would accept unsigned metadata
+	if a.Threshold < 1 {
+		return ErrValue{Msg: fmt.Sprintf("invalid threshold %d", a.Threshold)}
+	}
 	*role = Role(a)
 
 	var dict map[string]any
@@ -480,6 +485,10 @@ func (role *DelegatedRole) UnmarshalJSON(data []byte) error {
 	if err := json.Unmarshal(data, &a); err != nil {
 		return err
 	}
+	// a threshold below one would accept unsigned metadata
+	if a.Threshold < 1 {
+		return ErrValue{Msg: fmt.Sprintf("invalid threshold %d", a.Threshold)}
+	}
 	*role = DelegatedRole(a)
 
 	var dict map[string]any
@@ -514,6 +523,10 @@ func (role *SuccinctRoles) UnmarshalJSON(data []byte) error {
 	if err := json.Unmarshal(data, &a); err != nil {
 		return err
 	}
+	// a threshold below one would accept unsigned metadata
+	if a.Threshold < 1 {
+		return ErrValue{Msg: fmt.Sprintf("invalid threshold %d", a.Threshold)}
+	}
 	*role = SuccinctRoles(a)
 
 	var dict map[string]any
-- 
2.43.0


From bb4e038cd62c2e971563ac5168d648c62a4a2108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:58 +0000
Subject: [PATCH 03/32] fix: store metadata through a temporary file next to
 it, and leave none behind

---
 metadata/updater/updater.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/metadata/updater/updater.go b/metadata/updater/updater.go
index d38a049..e402747 100644
--- a/metadata/updater/updater.go
+++ b/metadata/updater/updater.go
@@ -578,17 +578,17 @@ func (update *Updater) persistMetadata(roleName string, data []byte) error {
 	}
 	// caching enabled, proceed with persisting the metadata locally
 	fileName := filepath.Join(update.cfg.LocalMetadataDir, fmt.Sprintf("%s.json", url.QueryEscape(roleName)))
-	cwd, err := os.Getwd()
-	if err != nil {
-		return err
-	}
-	// create a temporary file
-	file, err := os.CreateTemp(cwd, "tuf_tmp")
+	// create a temporary file next to the desired one so that it can always be renamed to it
+	file, err := os.CreateTemp(update.cfg.LocalMetadataDir, "tuf_tmp")
 	if err != nil {
 		return err
 	}
+	// the file is written by name below
+	err = file.Close()
 	// write the data content to the temporary file
-	err = os.WriteFile(file.Name(), data, 0644)
+	if err == nil {
+		err = os.WriteFile(file.Name(), data, 0644)
+	}
 	if err != nil {
 		// delete the temporary file if there was an error while writing
 		errRemove := os.Remove(file.Name())
@@ -600,6 +600,11 @@ func (update *Updater) persistMetadata(roleName string, data []byte) error {
 	// if all okay, rename the temporary file to the desired one
 	err = os.Rename(file.Name(), fileName)
 	if err != nil {
+		// delete the temporary file if it could not be renamed
+		errRemove := os.Remove(file.Name())
+		if errRemove != nil {
+			log.Info("Failed to delete temporary file", "name", file.Name())
+		}
 		return err
 	}
 	return nil
-- 
2.43.0


From 6d5b01d56a235fea95637da47403a99825672a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:09 +0000
Subject: [PATCH 04/32] fix: replace an unreadable cached metadata file instead
 of failing on it

---
 metadata/updater/updater.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/metadata/updater/updater.go b/metadata/updater/updater.go
index e402747..febfca5 100644
--- a/metadata/updater/updater.go
+++ b/metadata/updater/updater.go
@@ -300,8 +300,8 @@ func (update *Updater) loadTimestamp() error {
 		// local timestamp exists, let's try to verify it and load it to the trusted metadata set
 		_, err := update.trusted.UpdateTimestamp(data)
 		if err != nil {
-			if errors.Is(err, metadata.ErrRepository{}) {
-				// local timestamp is not valid, proceed downloading from remote; note that this error type includes several other subset errors
+			if !errors.As(err, &metadata.ErrRuntime{}) {
+				// local timestamp is not valid or not even readable, proceed downloading from remote
 				log.Info("Local timestamp is not valid")
 			} else {
 				// another error
@@ -349,8 +349,8 @@ func (update *Updater) loadSnapshot() error {
 		_, err = update.trusted.UpdateSnapshot(data, true)
 		if err != nil {
 			// this means snapshot verification/loading failed
-			if errors.Is(err, metadata.ErrRepository{}) {
-				// local snapshot is not valid, proceed downloading from remote; note that this error type includes several other subset errors
+			if !errors.As(err, &metadata.ErrRuntime{}) {
+				// local snapshot is not valid or not even readable, proceed downloading from remote
 				log.Info("Local snapshot is not valid")
 			} else {
 				// another error
@@ -415,8 +415,8 @@ func (update *Updater) loadTargets(roleName, parentName string) (*metadata.Metad
 		delegatedTargets, err := update.trusted.UpdateDelegatedTargets(data, roleName, parentName)
 		if err != nil {
 			// this means targets verification/loading failed
-			if errors.Is(err, metadata.ErrRepository{}) {
-				// local target file is not valid, proceed downloading from remote; note that this error type includes several other subset errors
+			if !errors.As(err, &metadata.ErrRuntime{}) {
+				// local target file is not valid or not even readable, proceed downloading from remote
 				log.Info("Local role is not valid", "role", roleName)
 			} else {
 				// another error
-- 
2.43.0


From fe906a63fc01fb2f5aa07deed30cee21525d12fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:11 +0000
Subject: [PATCH 05/32] fix: refuse a role that the snapshot does not list
 instead of crashing

---
 metadata/updater/updater.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/metadata/updater/updater.go b/metadata/updater/updater.go
index febfca5..7b356ab 100644
--- a/metadata/updater/updater.go
+++ b/metadata/updater/updater.go
@@ -434,7 +434,10 @@ func (update *Updater) loadTargets(roleName, parentName string) (*metadata.Metad
 		return nil, fmt.Errorf("trusted snapshot not set")
 	}
 	// extract the targets meta from the trusted snapshot metadata
-	metaInfo := update.trusted.Snapshot.Signed.Meta[fmt.Sprintf("%s.json", roleName)]
+	metaInfo, ok := update.trusted.Snapshot.Signed.Meta[fmt.Sprintf("%s.json", roleName)]
+	if !ok {
+		return nil, metadata.ErrRepository{Msg: fmt.Sprintf("snapshot does not contain information for %s", roleName)}
+	}
 	// extract the length of the target metadata to be downloaded
 	length := metaInfo.Length
 	if length == 0 {
-- 
2.43.0


From b393db6ae15b80a04b2239fb084a5623a053c427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:13 +0000
Subject: [PATCH 06/32] fix: read cached metadata from the file name it was
 stored under

---
 metadata/updater/updater.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metadata/updater/updater.go b/metadata/updater/updater.go
index 7b356ab..aaca550 100644
--- a/metadata/updater/updater.go
+++ b/metadata/updater/updater.go
@@ -406,7 +406,7 @@ func (update *Updater) loadTargets(roleName, parentName string) (*metadata.Metad
 		return role, nil
 	}
 	// try to read local targets
-	data, err := update.loadLocalMetadata(filepath.Join(update.cfg.LocalMetadataDir, roleName))
+	data, err := update.loadLocalMetadata(filepath.Join(update.cfg.LocalMetadataDir, url.QueryEscape(roleName)))
 	if err != nil {
 		// this means there's no existing local target file so we should proceed downloading it without the need to UpdateDelegatedTargets
 		log.Info("Local role does not exist", "role", roleName)
-- 
2.43.0


From f2d3143e97539075835b66e44f40dda98a7d66bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:14 +0000
Subject: [PATCH 07/32] fix: map target paths to file names inside the targets
 directory, one each

---
 metadata/updater/updater.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/metadata/updater/updater.go b/metadata/updater/updater.go
index aaca550..5b1d8c7 100644
--- a/metadata/updater/updater.go
+++ b/metadata/updater/updater.go
@@ -631,8 +631,15 @@ func (update *Updater) generateTargetFilePath(tf *metadata.TargetFiles) (string,
 	if update.cfg.LocalTargetsDir == "" && !update.cfg.DisableLocalCache {
 		return "", metadata.ErrValue{Msg: "LocalTargetsDir must be set if filepath is not given"}
 	}
-	// Use URL encoded target path as filename
-	return url.JoinPath(update.cfg.LocalTargetsDir, url.QueryEscape(tf.Path))
+	// Use URL encoded target path as filename, URL encoding leaves dots as they are
+	fileName := url.QueryEscape(tf.Path)
+	switch fileName {
+	case "":
+		return "", metadata.ErrValue{Msg: "target path must not be empty"}
+	case ".", "..":
+		fileName = strings.ReplaceAll(fileName, ".", "%2E")
+	}
+	return filepath.Join(update.cfg.LocalTargetsDir, fileName), nil
 }
 
 // loadLocalMetadata reads a local <roleName>.json file and returns its bytes
-- 
2.43.0


From d1ef854d1cf3790f426498e4266880be2a38cee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:16 +0000
Subject: [PATCH 08/32] fix: keep delegated roles from replacing cached
 top-level metadata

---
 metadata/updater/updater.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metadata/updater/updater.go b/metadata/updater/updater.go
index 5b1d8c7..e65c7c5 100644
--- a/metadata/updater/updater.go
+++ b/metadata/updater/updater.go
@@ -405,6 +405,10 @@ func (update *Updater) loadTargets(roleName, parentName string) (*metadata.Metad
 	if ok {
 		return role, nil
 	}
+	// a delegated role must not take the place of a top-level role in the local cache
+	if parentName != metadata.ROOT && (roleName == metadata.ROOT || roleName == metadata.TIMESTAMP || roleName == metadata.SNAPSHOT) {
+		return nil, metadata.ErrRepository{Msg: fmt.Sprintf("delegated role has the name of a top-level role: %s", roleName)}
+	}
 	// try to read local targets
 	data, err := update.loadLocalMetadata(filepath.Join(update.cfg.LocalMetadataDir, url.QueryEscape(roleName)))
 	if err != nil {
-- 
2.43.0


From a18f761d7fa62c6e3032db05e1ffe2cb88e4febd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:18 +0000
Subject: [PATCH 09/32] fix: put the hash prefix before the file name of a
 target in nested directories

---
 metadata/updater/updater.go | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/metadata/updater/updater.go b/metadata/updater/updater.go
index e65c7c5..43256a6 100644
--- a/metadata/updater/updater.go
+++ b/metadata/updater/updater.go
@@ -225,14 +225,9 @@ func (update *Updater) DownloadTarget(targetFile *metadata.TargetFiles, filePath
 			hashes = hex.EncodeToString(v)
 			break
 		}
-		dirName, baseName, ok := strings.Cut(targetFilePath, "/")
-		if !ok {
-			// <hash>.<target-name>
-			targetFilePath = fmt.Sprintf("%s.%s", hashes, dirName)
-		} else {
-			// <dir-prefix>/<hash>.<target-name>
-			targetFilePath = fmt.Sprintf("%s/%s.%s", dirName, hashes, baseName)
-		}
+		// <hash>.<target-name> or <dir-prefix>/<hash>.<target-name>
+		i := strings.LastIndex(targetFilePath, "/") + 1
+		targetFilePath = fmt.Sprintf("%s%s.%s", targetFilePath[:i], hashes, targetFilePath[i:])
 	}
 	fullURL := fmt.Sprintf("%s%s", targetBaseURL, targetFilePath)
 	data, err := update.cfg.Fetcher.DownloadFile(fullURL, targetFile.Length, time.Second*15)
-- 
2.43.0


From e0d67bdb808490af1b16beaf9668e99e4f02f1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:20 +0000
Subject: [PATCH 10/32] fix: return no targets from GetTopLevelTargets before a
 refresh instead of crashing

---
 metadata/updater/updater.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/metadata/updater/updater.go b/metadata/updater/updater.go
index 43256a6..faa6299 100644
--- a/metadata/updater/updater.go
+++ b/metadata/updater/updater.go
@@ -648,7 +648,12 @@ func (update *Updater) loadLocalMetadata(roleName string) ([]byte, error) {
 
 // GetTopLevelTargets returns the top-level target files
 func (update *Updater) GetTopLevelTargets() map[string]*metadata.TargetFiles {
-	return update.trusted.Targets[metadata.TARGETS].Signed.Targets
+	targets, ok := update.trusted.Targets[metadata.TARGETS]
+	if !ok {
+		// not refreshed yet
+		return nil
+	}
+	return targets.Signed.Targets
 }
 
 // GetTrustedMetadataSet returns the trusted metadata set
-- 
2.43.0


From b6383209448b8fc3022ec52796e418f1f71c9823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:43 +0000
Subject: [PATCH 11/32] fix: visit delegated roles in order of appearance and
 stop at the first terminating one

---
 metadata/metadata.go        | 19 ++++++++++++++++---
 metadata/types.go           |  6 ++++++
 metadata/updater/updater.go | 10 +++++-----
 3 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index 5847e94..0142b09 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -555,17 +555,30 @@ func isTargetInPathPattern(targetpath string, pathpattern string) bool {
 // delegated roles who are responsible for targetFilepath
 func (role *Delegations) GetRolesForTarget(targetFilepath string) map[string]bool {
 	res := map[string]bool{}
+	for _, r := range role.GetOrderedRolesForTarget(targetFilepath) {
+		res[r.Name] = r.Terminating
+	}
+	return res
+}
+
+// GetOrderedRolesForTarget return the names and terminating status of all
+// delegated roles who are responsible for targetFilepath, in order of
+// appearance in the delegations
+func (role *Delegations) GetOrderedRolesForTarget(targetFilepath string) []RoleResult {
+	res := []RoleResult{}
 	// standard delegations
 	if role.Roles != nil {
 		for _, r := range role.Roles {
 			ok, err := r.IsDelegatedPath(targetFilepath)
 			if err == nil && ok {
-				res[r.Name] = r.Terminating
+				res = append(res, RoleResult{Name: r.Name, Terminating: r.Terminating})
 			}
 		}
 	} else if role.SuccinctRoles != nil {
-		// SuccinctRoles delegations
-		res = role.SuccinctRoles.GetRolesForTarget(targetFilepath)
+		// SuccinctRoles delegations, only one of the bins is responsible
+		for name, terminating := range role.SuccinctRoles.GetRolesForTarget(targetFilepath) {
+			res = append(res, RoleResult{Name: name, Terminating: terminating})
+		}
 	}
 	return res
 }
diff --git a/metadata/types.go b/metadata/types.go
index 81f8cbc..f855bb9 100644
--- a/metadata/types.go
+++ b/metadata/types.go
@@ -156,6 +156,12 @@ type DelegatedRole struct {
 	UnrecognizedFields map[string]any `json:"-"`
 }
 
+// RoleResult represents a delegated role responsible for a target
+type RoleResult struct {
+	Name        string
+	Terminating bool
+}
+
 // SuccinctRoles represents a delegation graph that covers all targets,
 // distributing them uniformly over the delegated roles (i.e. bins) in the graph.
 type SuccinctRoles struct {
diff --git a/metadata/updater/updater.go b/metadata/updater/updater.go
index faa6299..a083363 100644
--- a/metadata/updater/updater.go
+++ b/metadata/updater/updater.go
@@ -545,11 +545,11 @@ func (update *Updater) preOrderDepthFirstWalk(targetFilePath string) (*metadata.
 			childRolesToVisit := []roleParentTuple{}
 			// note that this may be a slow operation if there are many
 			// delegated roles
-			roles := targets.Signed.Delegations.GetRolesForTarget(targetFilePath)
-			for child, terminating := range roles {
-				log.Info("Adding child role", "role", child)
-				childRolesToVisit = append(childRolesToVisit, roleParentTuple{Role: child, Parent: delegation.Role})
-				if terminating {
+			roles := targets.Signed.Delegations.GetOrderedRolesForTarget(targetFilePath)
+			for _, child := range roles {
+				log.Info("Adding child role", "role", child.Name)
+				childRolesToVisit = append(childRolesToVisit, roleParentTuple{Role: child.Name, Parent: delegation.Role})
+				if child.Terminating {
 					log.Info("Not backtracking to other roles")
 					delegationsToVisit = []roleParentTuple{}
 					break
-- 
2.43.0


From c91c5557dd6fb704400404a6757c00d3fdee2514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:49 +0000
Subject: [PATCH 12/32] fix: refuse metadata without a signed part or type
 instead of crashing

---
 metadata/metadata.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index 0142b09..c1c59ae 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -898,7 +898,14 @@ func checkType[T Roles](data []byte) error {
 	if err := json.Unmarshal(data, &m); err != nil {
 		return err
 	}
-	signedType := m["signed"].(map[string]any)["_type"].(string)
+	signed, ok := m["signed"].(map[string]any)
+	if !ok {
+		return ErrValue{Msg: "metadata has no signed part"}
+	}
+	signedType, ok := signed["_type"].(string)
+	if !ok {
+		return ErrValue{Msg: "metadata has no type"}
+	}
 	switch i.(type) {
 	case *RootType:
 		if ROOT != signedType {
-- 
2.43.0


From be6ee773249088e0e3f748334eb083ec80b2a5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:28 +0000
Subject: [PATCH 13/32] fix: refuse metadata with null entries or a timestamp
 without snapshot instead of crashing

---
 metadata/marshal.go | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/metadata/marshal.go b/metadata/marshal.go
index d38c4b7..30011c8 100644
--- a/metadata/marshal.go
+++ b/metadata/marshal.go
@@ -42,6 +42,12 @@ func (signed *RootType) UnmarshalJSON(data []byte) error {
 	if err := json.Unmarshal(data, &s); err != nil {
 		return err
 	}
+	if err := checkNoNullEntries("key", s.Keys); err != nil {
+		return err
+	}
+	if err := checkNoNullEntries("role", s.Roles); err != nil {
+		return err
+	}
 	*signed = RootType(s)
 
 	var dict map[string]any
@@ -78,6 +84,9 @@ func (signed *SnapshotType) UnmarshalJSON(data []byte) error {
 	if err := json.Unmarshal(data, &s); err != nil {
 		return err
 	}
+	if err := checkNoNullEntries("meta", s.Meta); err != nil {
+		return err
+	}
 	*signed = SnapshotType(s)
 
 	var dict map[string]any
@@ -112,6 +121,13 @@ func (signed *TimestampType) UnmarshalJSON(data []byte) error {
 	if err := json.Unmarshal(data, &s); err != nil {
 		return err
 	}
+	if err := checkNoNullEntries("meta", s.Meta); err != nil {
+		return err
+	}
+	// the snapshot is what a timestamp is about
+	if _, ok := s.Meta["snapshot.json"]; !ok {
+		return ErrValue{Msg: "timestamp does not contain information for snapshot"}
+	}
 	*signed = TimestampType(s)
 
 	var dict map[string]any
@@ -149,6 +165,9 @@ func (signed *TargetsType) UnmarshalJSON(data []byte) error {
 	if err := json.Unmarshal(data, &s); err != nil {
 		return err
 	}
+	if err := checkNoNullEntries("target", s.Targets); err != nil {
+		return err
+	}
 	*signed = TargetsType(s)
 
 	// populate the path field for each target
@@ -445,6 +464,9 @@ func (d *Delegations) UnmarshalJSON(data []byte) error {
 	if err := json.Unmarshal(data, &a); err != nil {
 		return err
 	}
+	if err := checkNoNullEntries("key", a.Keys); err != nil {
+		return err
+	}
 	*d = Delegations(a)
 
 	var dict map[string]any
@@ -572,3 +594,13 @@ func copyMapValues(src, dst map[string]any) {
 		dst[k] = v
 	}
 }
+
+// checkNoNullEntries returns an error if an entry is null, there is nothing to be done with such
+func checkNoNullEntries[V any](what string, entries map[string]*V) error {
+	for name, entry := range entries {
+		if entry == nil {
+			return ErrValue{Msg: fmt.Sprintf("%s %s is null", what, name)}
+		}
+	}
+	return nil
+}
-- 
2.43.0


From 950e49f51973db83ce02bf30089dce6b81d03dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:31 +0000
Subject: [PATCH 14/32] fix: refuse succinct delegations with an impossible bit
 length instead of crashing

---
 metadata/marshal.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metadata/marshal.go b/metadata/marshal.go
index 30011c8..1b5119d 100644
--- a/metadata/marshal.go
+++ b/metadata/marshal.go
@@ -549,6 +549,10 @@ func (role *SuccinctRoles) UnmarshalJSON(data []byte) error {
 	if a.Threshold < 1 {
 		return ErrValue{Msg: fmt.Sprintf("invalid threshold %d", a.Threshold)}
 	}
+	// there is no bin number for any other bit length
+	if a.BitLength < 1 || a.BitLength > 32 {
+		return ErrValue{Msg: fmt.Sprintf("invalid bit length %d", a.BitLength)}
+	}
 	*role = SuccinctRoles(a)
 
 	var dict map[string]any
-- 
2.43.0


From 5918c1838461a079d7a13baeea75a80234e7da59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:34 +0000
Subject: [PATCH 15/32] fix: refuse an ed25519 key of the wrong size instead of
 crashing

---
 metadata/keys.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metadata/keys.go b/metadata/keys.go
index f5150a6..0d1c849 100644
--- a/metadata/keys.go
+++ b/metadata/keys.go
@@ -71,6 +71,9 @@ func (k *Key) ToPublicKey() (crypto.PublicKey, error) {
 		if err != nil {
 			return nil, err
 		}
+		if len(publicKey) != ed25519.PublicKeySize {
+			return nil, fmt.Errorf("invalid ed25519 public key")
+		}
 		ed25519Key := ed25519.PublicKey(publicKey)
 		// done for verification - ref. https://github.com/theupdateframework/go-tuf/pull/357
 		if _, err := x509.MarshalPKIXPublicKey(ed25519Key); err != nil {
-- 
2.43.0


From 3af37f01dee447e96c5d471a45aa48056bd3594b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:30 +0000
Subject: [PATCH 16/32] fix: download no metadata of delegated roles in unsafe
 local mode

---
 metadata/updater/updater.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metadata/updater/updater.go b/metadata/updater/updater.go
index a083363..268391c 100644
--- a/metadata/updater/updater.go
+++ b/metadata/updater/updater.go
@@ -614,6 +614,10 @@ func (update *Updater) persistMetadata(roleName string, data []byte) error {
 
 // downloadMetadata download a metadata file and return it as bytes
 func (update *Updater) downloadMetadata(roleName string, length int64, version string) ([]byte, error) {
+	// only the metadata on disk may be used
+	if update.cfg.UnsafeLocalMode {
+		return nil, metadata.ErrDownload{Msg: fmt.Sprintf("no download of %s metadata in unsafe local mode", roleName)}
+	}
 	urlPath := ensureTrailingSlash(update.cfg.RemoteMetadataURL)
 	// build urlPath
 	if version == "" {
-- 
2.43.0


From cd8f135a79a6f7ba78a60e105f1b773683952dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:54 +0000
Subject: [PATCH 17/32] fix: recognise only the exact names of succinct bins,
 without signs or upper case

---
 metadata/metadata.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index c1c59ae..f5e981d 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -653,6 +653,11 @@ func (role *SuccinctRoles) IsDelegatedRole(roleName string) bool {
 		return false
 	}
 
+	// make sure the bin number is written the way bins are named (no sign, lower case)
+	if suffix != fmt.Sprintf("%0*x", suffixLen, value) {
+		return false
+	}
+
 	// check if the bin we calculated is indeed within the range of what we support
 	return (value >= 0) && (value < int64(numberOfBins))
 }
-- 
2.43.0


From 66cf5a5e5ead489739fe9943383e7ece2bb261f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:14 +0000
Subject: [PATCH 18/32] fix: refuse targets metadata that lists a target
 without any hash

---
 metadata/marshal.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metadata/marshal.go b/metadata/marshal.go
index 1b5119d..4b3931f 100644
--- a/metadata/marshal.go
+++ b/metadata/marshal.go
@@ -243,6 +243,10 @@ func (signed *TargetFiles) UnmarshalJSON(data []byte) error {
 	if err := json.Unmarshal(data, &s); err != nil {
 		return err
 	}
+	// without a hash there is nothing to recognise the target file by
+	if len(s.Hashes) == 0 {
+		return ErrValue{Msg: "target without hashes"}
+	}
 	*signed = TargetFiles(s)
 
 	var dict map[string]any
-- 
2.43.0


From 3599bc4c97ddd9f99d1ac7ea526711675d47772f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:33 +0000
Subject: [PATCH 19/32] fix: return the target info that reached the threshold,
 not the last one seen

---
 metadata/multirepo/multirepo.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metadata/multirepo/multirepo.go b/metadata/multirepo/multirepo.go
index 019bfad..7d278e3 100644
--- a/metadata/multirepo/multirepo.go
+++ b/metadata/multirepo/multirepo.go
@@ -261,7 +261,7 @@ func (client *MultiRepoClient) GetTargetInfo(targetPath string) (*metadata.Targe
 					// we went through all repositories listed in that mapping
 					// lets see if we have matched the threshold consensus for the given target file
 					var result *targetMatch
-					for _, target := range matchedTargetGroups {
+					for i, target := range matchedTargetGroups {
 						// compare thresholds for each target info we found with the value stated for its mapping
 						if len(target.repositories) >= eachMap.Threshold {
 							// this target has enough repositories signed for it
@@ -272,7 +272,7 @@ func (client *MultiRepoClient) GetTargetInfo(targetPath string) (*metadata.Targe
 								return nil, nil, fmt.Errorf("more than one target info matching the necessary threshold value")
 							} else {
 								// this is the first target we found matching the necessary threshold so save it
-								result = &target
+								result = &matchedTargetGroups[i]
 							}
 						}
 					}
-- 
2.43.0


From 4dbd0bd79a6fc5734f9cc6c2f9f3c7750fbf8809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:35 +0000
Subject: [PATCH 20/32] fix: refuse map files with unusable repository names,
 without URLs or with unknown repositories

---
 metadata/multirepo/multirepo.go | 36 +++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/metadata/multirepo/multirepo.go b/metadata/multirepo/multirepo.go
index 7d278e3..d743455 100644
--- a/metadata/multirepo/multirepo.go
+++ b/metadata/multirepo/multirepo.go
@@ -16,6 +16,7 @@ import (
 	"fmt"
 	"os"
 	"path/filepath"
+	"strings"
 
 	"github.com/rdimitrov/go-tuf-metadata/metadata"
 	"github.com/rdimitrov/go-tuf-metadata/metadata/config"
@@ -69,6 +70,11 @@ func NewConfig(repoMap []byte, roots map[string][]byte) (*MultiRepoConfig, error
 		return nil, err
 	}
 
+	// make sure the map file is one that can be worked with
+	if err := mapFile.validate(); err != nil {
+		return nil, err
+	}
+
 	// make sure we have enough trusted root metadata files provided based on the repository list
 	for repo := range mapFile.Repositories {
 		// check if we have a trusted root metadata for this repository
@@ -84,8 +90,38 @@ func NewConfig(repoMap []byte, roots map[string][]byte) (*MultiRepoConfig, error
 	}, nil
 }
 
+// validate makes sure that each repository has a location and a name that can be used for a directory of its own
+// and that the mappings use no other repositories
+func (m *MultiRepoMapType) validate() error {
+	if m == nil {
+		return fmt.Errorf("no map file is provided")
+	}
+	for name, urls := range m.Repositories {
+		if name == "" || name == "." || name == ".." || strings.ContainsAny(name, "/\\") {
+			return fmt.Errorf("invalid repository name in map file - %q", name)
+		}
+		if len(urls) == 0 {
+			return fmt.Errorf("no URL provided for repository - %s", name)
+		}
+	}
+	for _, mapping := range m.Mapping {
+		if mapping == nil {
+			return fmt.Errorf("invalid mapping in map file")
+		}
+		for _, name := range mapping.Repositories {
+			if _, ok := m.Repositories[name]; !ok {
+				return fmt.Errorf("unknown repository in map file - %s", name)
+			}
+		}
+	}
+	return nil
+}
+
 // New returns a multi-repository TUF client. All repositories described in the provided map file are initialized too
 func New(config *MultiRepoConfig) (*MultiRepoClient, error) {
+	if err := config.RepoMap.validate(); err != nil {
+		return nil, err
+	}
 	// create a multi repo client instance
 	client := &MultiRepoClient{
 		Config:     config,
-- 
2.43.0


From 34498d00726bd5b3f15fd6ff79cff68b970cfc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:37 +0000
Subject: [PATCH 21/32] fix: let multi-repository clients have a targets folder
 per repository as documented

---
 metadata/multirepo/multirepo.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/metadata/multirepo/multirepo.go b/metadata/multirepo/multirepo.go
index d743455..bfc4b6d 100644
--- a/metadata/multirepo/multirepo.go
+++ b/metadata/multirepo/multirepo.go
@@ -370,7 +370,12 @@ func (cfg *MultiRepoConfig) EnsurePathsExist() error {
 	if cfg.DisableLocalCache {
 		return nil
 	}
-	for _, path := range []string{cfg.LocalMetadataDir, cfg.LocalTargetsDir} {
+	paths := []string{cfg.LocalMetadataDir}
+	// without a common targets folder there's one for each repository
+	if len(cfg.LocalTargetsDir) != 0 {
+		paths = append(paths, cfg.LocalTargetsDir)
+	}
+	for _, path := range paths {
 		err := os.MkdirAll(path, os.ModePerm)
 		if err != nil {
 			return err
-- 
2.43.0


From da31ec9539093e930d06555ef0e1955bae26a2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:39 +0000
Subject: [PATCH 22/32] fix: list all top-level targets the map file allows
 although it does not allow others

---
 metadata/multirepo/multirepo.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/metadata/multirepo/multirepo.go b/metadata/multirepo/multirepo.go
index bfc4b6d..0168d7f 100644
--- a/metadata/multirepo/multirepo.go
+++ b/metadata/multirepo/multirepo.go
@@ -207,6 +207,8 @@ func (client *MultiRepoClient) Refresh() error {
 
 // GetTopLevelTargets returns the top-level target files for all repositories
 func (client *MultiRepoClient) GetTopLevelTargets() (map[string]*metadata.TargetFiles, error) {
+	log := metadata.GetLogger()
+
 	// collection of all target files for all clients
 	result := map[string]*metadata.TargetFiles{}
 
@@ -219,7 +221,8 @@ func (client *MultiRepoClient) GetTopLevelTargets() (map[string]*metadata.Target
 			if err != nil {
 				// we skip saving this target since there's no way/policy do download it with this map.json file
 				// possible causes like not enough repositories for that threshold, target info mismatch, etc.
-				return nil, err
+				log.Info("Skipping target", "target", targetName, "reason", err.Error())
+				continue
 			}
 			// check if this target file is already present in the collection
 			if val, ok := result[targetName]; ok {
-- 
2.43.0


From 8d08730a8e622a891eba3483d7c9214e8a648ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:41 +0000
Subject: [PATCH 23/32] fix: skip unknown repositories when downloading a
 target instead of crashing

---
 metadata/multirepo/multirepo.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/metadata/multirepo/multirepo.go b/metadata/multirepo/multirepo.go
index 0168d7f..d0f8043 100644
--- a/metadata/multirepo/multirepo.go
+++ b/metadata/multirepo/multirepo.go
@@ -344,8 +344,14 @@ func (client *MultiRepoClient) DownloadTarget(repos []string, targetFile *metada
 	log := metadata.GetLogger()
 
 	for _, repoName := range repos {
+		// there's nothing to be had from a repository we do not know
+		repoTUFClient, ok := client.TUFClients[repoName]
+		if !ok {
+			log.Info("Unknown repository", "repo", repoName)
+			continue
+		}
 		// see if the target is already present locally
-		targetPath, targetBytes, err := client.TUFClients[repoName].FindCachedTarget(targetFile, filePath)
+		targetPath, targetBytes, err := repoTUFClient.FindCachedTarget(targetFile, filePath)
 		if err != nil {
 			return "", nil, err
 		}
@@ -355,7 +361,7 @@ func (client *MultiRepoClient) DownloadTarget(repos []string, targetFile *metada
 			return targetPath, targetBytes, nil
 		}
 		// not present locally, so let's try to download it
-		targetPath, targetBytes, err = client.TUFClients[repoName].DownloadTarget(targetFile, filePath, targetBaseURL)
+		targetPath, targetBytes, err = repoTUFClient.DownloadTarget(targetFile, filePath, targetBaseURL)
 		if err != nil {
 			// TODO: decide if we should error if one repository serves the expected target info, but we fail to download the actual target
 			// try downloading the target from the next available repository
-- 
2.43.0


From 100ab2504d6c14ea7bddc19f2e6eaf342a8aa11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:51 +0000
Subject: [PATCH 24/32] fix: add keys to a missing key store, and none for a
 role that does not exist

---
 metadata/metadata.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index f5e981d..0b5a3e3 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -676,6 +676,9 @@ func (signed *RootType) AddKey(key *Key, role string) error {
 		signed.Roles[role].KeyIDs = append(signed.Roles[role].KeyIDs, key.ID())
 	}
 	// update Keys
+	if signed.Keys == nil {
+		signed.Keys = map[string]*Key{}
+	}
 	signed.Keys[key.ID()] = key // TODO: should we check if we don't accidentally override an existing keyID with another key value?
 	return nil
 }
@@ -732,7 +735,7 @@ func (signed *TargetsType) AddKey(key *Key, role string) error {
 				// add key if keyID is not already part of keyIDs for that role
 				if !slices.Contains(d.KeyIDs, key.ID()) {
 					signed.Delegations.Roles[i].KeyIDs = append(signed.Delegations.Roles[i].KeyIDs, key.ID())
-					signed.Delegations.Keys[key.ID()] = key // TODO: should we check if we don't accidentally override an existing keyID with another key value?
+					signed.Delegations.storeKey(key)
 					return nil
 				}
 				log.Info("Delegated role already has keyID", "role", role, "ID", key.ID())
@@ -745,16 +748,26 @@ func (signed *TargetsType) AddKey(key *Key, role string) error {
 		// add key if keyID is not already part of keyIDs for the SuccinctRoles role
 		if !slices.Contains(signed.Delegations.SuccinctRoles.KeyIDs, key.ID()) {
 			signed.Delegations.SuccinctRoles.KeyIDs = append(signed.Delegations.SuccinctRoles.KeyIDs, key.ID())
-			signed.Delegations.Keys[key.ID()] = key // TODO: should we check if we don't accidentally override an existing keyID with another key value?
+			signed.Delegations.storeKey(key)
 			return nil
 		}
 		log.Info("SuccinctRoles role already has keyID", "ID", key.ID())
-
+	} else {
+		// nothing is delegated
+		return ErrValue{Msg: fmt.Sprintf("delegated role %s doesn't exist", role)}
 	}
-	signed.Delegations.Keys[key.ID()] = key // TODO: should we check if we don't accidentally override an existing keyID with another key value?
+	signed.Delegations.storeKey(key)
 	return nil
 }
 
+// storeKey adds a key to the delegations key store
+func (d *Delegations) storeKey(key *Key) {
+	if d.Keys == nil {
+		d.Keys = map[string]*Key{}
+	}
+	d.Keys[key.ID()] = key // TODO: should we check if we don't accidentally override an existing keyID with another key value?
+}
+
 // RevokeKey revokes key from delegated role "role" and updates the delegations key store
 // keyID: Identifier of the key to be removed for “role“.
 // role: Name of the role, for which a signing key is removed.
-- 
2.43.0


From fbf0d83383dafb0975db44b4b49366dda3c93226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:45 +0000
Subject: [PATCH 25/32] fix: do not return an empty body when the length limit
 is the largest integer

---
 metadata/fetcher/fetcher.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/metadata/fetcher/fetcher.go b/metadata/fetcher/fetcher.go
index 635aa6c..19f31bb 100644
--- a/metadata/fetcher/fetcher.go
+++ b/metadata/fetcher/fetcher.go
@@ -14,6 +14,7 @@ package fetcher
 import (
 	"fmt"
 	"io"
+	"math"
 	"net/http"
 	"strconv"
 	"time"
@@ -69,7 +70,11 @@ func (d *DefaultFetcher) DownloadFile(urlPath string, maxLength int64, timeout t
 	// the reported size is inaccurate, or size is -1 which indicates an
 	// unknown length. We read maxLength + 1 in order to check if the read data
 	// surpased our set limit.
-	data, err := io.ReadAll(io.LimitReader(res.Body, maxLength+1))
+	readLimit := maxLength
+	if readLimit < math.MaxInt64 {
+		readLimit++
+	}
+	data, err := io.ReadAll(io.LimitReader(res.Body, readLimit))
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 3a82166282dd8aae62fec0c97043db2f71fbe1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:50 +0000
Subject: [PATCH 26/32] fix: recognise repository and download errors whatever
 their message

---
 metadata/errors.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/metadata/errors.go b/metadata/errors.go
index 4086720..625b74a 100644
--- a/metadata/errors.go
+++ b/metadata/errors.go
@@ -32,6 +32,11 @@ func (e ErrRepository) Error() string {
 	return fmt.Sprintf("repository error: %s", e.Msg)
 }
 
+// ErrRepository is recognised whatever its message
+func (e ErrRepository) Is(target error) bool {
+	return target == ErrRepository{}
+}
+
 // ErrUnsignedMetadata - An error about metadata object with insufficient threshold of signatures
 type ErrUnsignedMetadata struct {
 	Msg string
@@ -113,6 +118,11 @@ func (e ErrDownload) Error() string {
 	return fmt.Sprintf("download error: %s", e.Msg)
 }
 
+// ErrDownload is recognised whatever its message
+func (e ErrDownload) Is(target error) bool {
+	return target == ErrDownload{}
+}
+
 // ErrDownloadLengthMismatch - Indicate that a mismatch of lengths was seen while downloading a file
 type ErrDownloadLengthMismatch struct {
 	Msg string
-- 
2.43.0


From 046bdae49dd1b587f12b82937f549d31ab1e353f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:13 +0000
Subject: [PATCH 27/32] fix: compute key identifiers from the current content
 of the key

---
 metadata/keys.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/metadata/keys.go b/metadata/keys.go
index 0d1c849..aa3a3f2 100644
--- a/metadata/keys.go
+++ b/metadata/keys.go
@@ -117,13 +117,15 @@ func KeyFromPublicKey(k crypto.PublicKey) (*Key, error) {
 // ID returns the keyID value for the given Key
 func (k *Key) ID() string {
 	// the identifier is a hexdigest of the SHA-256 hash of the canonical form of the key
-	if k.id == "" {
-		data, err := cjson.EncodeCanonical(k)
-		if err != nil {
-			panic(fmt.Errorf("error creating key ID: %w", err))
-		}
-		digest := sha256.Sum256(data)
-		k.id = hex.EncodeToString(digest[:])
+	data, err := cjson.EncodeCanonical(k)
+	if err != nil {
+		panic(fmt.Errorf("error creating key ID: %w", err))
+	}
+	digest := sha256.Sum256(data)
+	id := hex.EncodeToString(digest[:])
+	// the content of the key may have changed since the last call
+	if k.id != id {
+		k.id = id
 	}
-	return k.id
+	return id
 }
-- 
2.43.0


From 508a7ffc9d93cfc8a7a58c1252b89ef05c14f72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:20 +0000
Subject: [PATCH 28/32] fix: keep large numbers in unrecognized fields exact

---
 metadata/marshal.go | 104 ++++++++++++++++++++++++++++++++------------
 1 file changed, 76 insertions(+), 28 deletions(-)

diff --git a/metadata/marshal.go b/metadata/marshal.go
index 4b3931f..bb54abd 100644
--- a/metadata/marshal.go
+++ b/metadata/marshal.go
@@ -12,10 +12,12 @@
 package metadata
 
 import (
+	"bytes"
 	"encoding/hex"
 	"encoding/json"
 	"errors"
 	"fmt"
+	"math"
 )
 
 // The following marshal/unmarshal methods override the default behavior for for each TUF type
@@ -50,8 +52,8 @@ func (signed *RootType) UnmarshalJSON(data []byte) error {
 	}
 	*signed = RootType(s)
 
-	var dict map[string]any
-	if err := json.Unmarshal(data, &dict); err != nil {
+	dict, err := unmarshalFields(data)
+	if err != nil {
 		return err
 	}
 	delete(dict, "_type")
@@ -89,8 +91,8 @@ func (signed *SnapshotType) UnmarshalJSON(data []byte) error {
 	}
 	*signed = SnapshotType(s)
 
-	var dict map[string]any
-	if err := json.Unmarshal(data, &dict); err != nil {
+	dict, err := unmarshalFields(data)
+	if err != nil {
 		return err
 	}
 	delete(dict, "_type")
@@ -130,8 +132,8 @@ func (signed *TimestampType) UnmarshalJSON(data []byte) error {
 	}
 	*signed = TimestampType(s)
 
-	var dict map[string]any
-	if err := json.Unmarshal(data, &dict); err != nil {
+	dict, err := unmarshalFields(data)
+	if err != nil {
 		return err
 	}
 	delete(dict, "_type")
@@ -175,8 +177,8 @@ func (signed *TargetsType) UnmarshalJSON(data []byte) error {
 		targetFile.Path = name
 	}
 
-	var dict map[string]any
-	if err := json.Unmarshal(data, &dict); err != nil {
+	dict, err := unmarshalFields(data)
+	if err != nil {
 		return err
 	}
 	delete(dict, "_type")
@@ -213,8 +215,8 @@ func (signed *MetaFiles) UnmarshalJSON(data []byte) error {
 	}
 	*signed = MetaFiles(s)
 
-	var dict map[string]any
-	if err := json.Unmarshal(data, &dict); err != nil {
+	dict, err := unmarshalFields(data)
+	if err != nil {
 		return err
 	}
 	delete(dict, "length")
@@ -249,8 +251,8 @@ func (signed *TargetFiles) UnmarshalJSON(data []byte) error {
 	}
 	*signed = TargetFiles(s)
 
-	var dict map[string]any
-	if err := json.Unmarshal(data, &dict); err != nil {
+	dict, err := unmarshalFields(data)
+	if err != nil {
 		return err
 	}
 	delete(dict, "length")
@@ -280,8 +282,8 @@ func (key *Key) UnmarshalJSON(data []byte) error {
 	// nolint
 	*key = Key(a)
 
-	var dict map[string]any
-	if err := json.Unmarshal(data, &dict); err != nil {
+	dict, err := unmarshalFields(data)
+	if err != nil {
 		return err
 	}
 	delete(dict, "keytype")
@@ -303,8 +305,8 @@ func (meta Metadata[T]) MarshalJSON() ([]byte, error) {
 
 func (meta *Metadata[T]) UnmarshalJSON(data []byte) error {
 	tmp := any(new(T))
-	var m map[string]any
-	if err := json.Unmarshal(data, &m); err != nil {
+	m, err := unmarshalFields(data)
+	if err != nil {
 		return err
 	}
 	switch tmp.(type) {
@@ -379,8 +381,8 @@ func (s *Signature) UnmarshalJSON(data []byte) error {
 	}
 	*s = Signature(a)
 
-	var dict map[string]any
-	if err := json.Unmarshal(data, &dict); err != nil {
+	dict, err := unmarshalFields(data)
+	if err != nil {
 		return err
 	}
 	delete(dict, "keyid")
@@ -406,8 +408,8 @@ func (kv *KeyVal) UnmarshalJSON(data []byte) error {
 	}
 	*kv = KeyVal(a)
 
-	var dict map[string]any
-	if err := json.Unmarshal(data, &dict); err != nil {
+	dict, err := unmarshalFields(data)
+	if err != nil {
 		return err
 	}
 	delete(dict, "public")
@@ -437,8 +439,8 @@ func (role *Role) UnmarshalJSON(data []byte) error {
 	}
 	*role = Role(a)
 
-	var dict map[string]any
-	if err := json.Unmarshal(data, &dict); err != nil {
+	dict, err := unmarshalFields(data)
+	if err != nil {
 		return err
 	}
 	delete(dict, "keyids")
@@ -473,8 +475,8 @@ func (d *Delegations) UnmarshalJSON(data []byte) error {
 	}
 	*d = Delegations(a)
 
-	var dict map[string]any
-	if err := json.Unmarshal(data, &dict); err != nil {
+	dict, err := unmarshalFields(data)
+	if err != nil {
 		return err
 	}
 	delete(dict, "keys")
@@ -517,8 +519,8 @@ func (role *DelegatedRole) UnmarshalJSON(data []byte) error {
 	}
 	*role = DelegatedRole(a)
 
-	var dict map[string]any
-	if err := json.Unmarshal(data, &dict); err != nil {
+	dict, err := unmarshalFields(data)
+	if err != nil {
 		return err
 	}
 	delete(dict, "name")
@@ -559,8 +561,8 @@ func (role *SuccinctRoles) UnmarshalJSON(data []byte) error {
 	}
 	*role = SuccinctRoles(a)
 
-	var dict map[string]any
-	if err := json.Unmarshal(data, &dict); err != nil {
+	dict, err := unmarshalFields(data)
+	if err != nil {
 		return err
 	}
 	delete(dict, "keyids")
@@ -596,6 +598,52 @@ func (b HexBytes) String() string {
 	return hex.EncodeToString(b)
 }
 
+// unmarshalFields returns the fields of a JSON object. Numbers that float64
+// cannot hold exactly are kept as json.Number, they would change otherwise.
+func unmarshalFields(data []byte) (map[string]any, error) {
+	var dict map[string]any
+	decoder := json.NewDecoder(bytes.NewReader(data))
+	decoder.UseNumber()
+	if err := decoder.Decode(&dict); err != nil {
+		return nil, err
+	}
+	for name, value := range dict {
+		dict[name] = simplifyNumbers(value)
+	}
+	return dict, nil
+}
+
+// simplifyNumbers replaces each json.Number within value by a float64 unless this would lose precision
+func simplifyNumbers(value any) any {
+	switch v := value.(type) {
+	case json.Number:
+		f, err := v.Float64()
+		if err != nil {
+			return v
+		}
+		if math.Trunc(f) == f && math.Abs(f) <= 1<<53 {
+			// 2^53 + 1 is rounded to 2^53
+			if i, err := v.Int64(); err == nil && int64(f) != i {
+				return v
+			}
+			return f
+		}
+		if text, err := json.Marshal(f); err != nil || string(text) != v.String() {
+			return v
+		}
+		return f
+	case []any:
+		for i := range v {
+			v[i] = simplifyNumbers(v[i])
+		}
+	case map[string]any:
+		for name := range v {
+			v[name] = simplifyNumbers(v[name])
+		}
+	}
+	return value
+}
+
 // copyMapValues copies the values of the src map to dst
 func copyMapValues(src, dst map[string]any) {
 	for k, v := range src {
-- 
2.43.0


From 6c9ab664f114246472cf8b36b878d3df01b244e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:24 +0000
Subject: [PATCH 29/32] fix: keep optional fields that are present without a
 value

---
 metadata/marshal.go | 37 +++++++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/metadata/marshal.go b/metadata/marshal.go
index bb54abd..e4f5e22 100644
--- a/metadata/marshal.go
+++ b/metadata/marshal.go
@@ -186,7 +186,10 @@ func (signed *TargetsType) UnmarshalJSON(data []byte) error {
 	delete(dict, "version")
 	delete(dict, "expires")
 	delete(dict, "targets")
-	delete(dict, "delegations")
+	// an optional field that is present without a value is kept as it is
+	if signed.Delegations != nil {
+		delete(dict, "delegations")
+	}
 	signed.UnrecognizedFields = dict
 	return nil
 }
@@ -219,8 +222,13 @@ func (signed *MetaFiles) UnmarshalJSON(data []byte) error {
 	if err != nil {
 		return err
 	}
-	delete(dict, "length")
-	delete(dict, "hashes")
+	// an optional field that is present without a value is kept as it is
+	if signed.Length != 0 {
+		delete(dict, "length")
+	}
+	if len(signed.Hashes) != 0 {
+		delete(dict, "hashes")
+	}
 	delete(dict, "version")
 	signed.UnrecognizedFields = dict
 	return nil
@@ -257,7 +265,10 @@ func (signed *TargetFiles) UnmarshalJSON(data []byte) error {
 	}
 	delete(dict, "length")
 	delete(dict, "hashes")
-	delete(dict, "custom")
+	// an optional field that is present without a value is kept as it is
+	if signed.Custom != nil {
+		delete(dict, "custom")
+	}
 	signed.UnrecognizedFields = dict
 	return nil
 }
@@ -480,8 +491,13 @@ func (d *Delegations) UnmarshalJSON(data []byte) error {
 		return err
 	}
 	delete(dict, "keys")
-	delete(dict, "roles")
-	delete(dict, "succinct_roles")
+	// an optional field that is present without a value is kept as it is
+	if d.Roles != nil {
+		delete(dict, "roles")
+	}
+	if d.SuccinctRoles != nil {
+		delete(dict, "succinct_roles")
+	}
 	d.UnrecognizedFields = dict
 	return nil
 }
@@ -527,8 +543,13 @@ func (role *DelegatedRole) UnmarshalJSON(data []byte) error {
 	delete(dict, "keyids")
 	delete(dict, "threshold")
 	delete(dict, "terminating")
-	delete(dict, "paths")
-	delete(dict, "path_hash_prefixes")
+	// an optional field that is present without a value is kept as it is
+	if role.Paths != nil {
+		delete(dict, "paths")
+	}
+	if role.PathHashPrefixes != nil {
+		delete(dict, "path_hash_prefixes")
+	}
 	role.UnrecognizedFields = dict
 	return nil
 }
-- 
2.43.0


From b0a47e4201765be4aa44a56f8b6d596954316fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:45 +0000
Subject: [PATCH 30/32] fix: refuse delegations that name both roles and
 succinct roles

---
 metadata/marshal.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metadata/marshal.go b/metadata/marshal.go
index e4f5e22..669d27f 100644
--- a/metadata/marshal.go
+++ b/metadata/marshal.go
@@ -484,6 +484,10 @@ func (d *Delegations) UnmarshalJSON(data []byte) error {
 	if err := checkNoNullEntries("key", a.Keys); err != nil {
 		return err
 	}
+	// only one is allowed
+	if a.Roles != nil && a.SuccinctRoles != nil {
+		return ErrValue{Msg: "not allowed to have both \"roles\" and \"succinct_roles\" present"}
+	}
 	*d = Delegations(a)
 
 	dict, err := unmarshalFields(data)
-- 
2.43.0


From 82ea03ec187a4f2edc2a5ce3be0b2a39660aeb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:17 +0000
Subject: [PATCH 31/32] fix: read cached metadata of roles named like a path
 component from the file it was written to

---
 metadata/updater/updater.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/metadata/updater/updater.go b/metadata/updater/updater.go
index 268391c..0ea15fc 100644
--- a/metadata/updater/updater.go
+++ b/metadata/updater/updater.go
@@ -405,7 +405,7 @@ func (update *Updater) loadTargets(roleName, parentName string) (*metadata.Metad
 		return nil, metadata.ErrRepository{Msg: fmt.Sprintf("delegated role has the name of a top-level role: %s", roleName)}
 	}
 	// try to read local targets
-	data, err := update.loadLocalMetadata(filepath.Join(update.cfg.LocalMetadataDir, url.QueryEscape(roleName)))
+	data, err := readFile(update.localMetadataPath(roleName))
 	if err != nil {
 		// this means there's no existing local target file so we should proceed downloading it without the need to UpdateDelegatedTargets
 		log.Info("Local role does not exist", "role", roleName)
@@ -579,7 +579,7 @@ func (update *Updater) persistMetadata(roleName string, data []byte) error {
 		return nil
 	}
 	// caching enabled, proceed with persisting the metadata locally
-	fileName := filepath.Join(update.cfg.LocalMetadataDir, fmt.Sprintf("%s.json", url.QueryEscape(roleName)))
+	fileName := update.localMetadataPath(roleName)
 	// create a temporary file next to the desired one so that it can always be renamed to it
 	file, err := os.CreateTemp(update.cfg.LocalMetadataDir, "tuf_tmp")
 	if err != nil {
@@ -612,6 +612,12 @@ func (update *Updater) persistMetadata(roleName string, data []byte) error {
 	return nil
 }
 
+// localMetadataPath returns the local file for the metadata of a role,
+// the extension is added before joining so that no role name is a path
+func (update *Updater) localMetadataPath(roleName string) string {
+	return filepath.Join(update.cfg.LocalMetadataDir, fmt.Sprintf("%s.json", url.QueryEscape(roleName)))
+}
+
 // downloadMetadata download a metadata file and return it as bytes
 func (update *Updater) downloadMetadata(roleName string, length int64, version string) ([]byte, error) {
 	// only the metadata on disk may be used
-- 
2.43.0


From 6e8fde5329f5fed0bd91cc396cb21401de4c45cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:44 +0000
Subject: [PATCH 32/32] fix: do not accept a negative root version after the
 largest one

---
 metadata/trustedmetadata/trustedmetadata.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metadata/trustedmetadata/trustedmetadata.go b/metadata/trustedmetadata/trustedmetadata.go
index 0792493..63ddaa3 100644
--- a/metadata/trustedmetadata/trustedmetadata.go
+++ b/metadata/trustedmetadata/trustedmetadata.go
@@ -70,7 +70,7 @@ func (trusted *TrustedMetadata) UpdateRoot(rootData []byte) (*metadata.Metadata[
 		return nil, err
 	}
 	// verify version
-	if newRoot.Signed.Version != trusted.Root.Signed.Version+1 {
+	if newRoot.Signed.Version <= trusted.Root.Signed.Version || newRoot.Signed.Version != trusted.Root.Signed.Version+1 {
 		return nil, metadata.ErrBadVersionNumber{Msg: fmt.Sprintf("bad version number, expected %d, got %d", trusted.Root.Signed.Version+1, newRoot.Signed.Version)}
 	}
 	// verify that new root is signed by itself
-- 
2.43.0

