From 6628af91923b94dbcaf3c9757bcb493164a72291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:40 +0000
Subject: [PATCH 01/24] fix: treat an unsolicited 304 from a database host as
 an error

A host answering 304 although nothing was cached (so the request carried no
validators) made the detector dereference a nil cache.
---
 pkg/database/zip.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/database/zip.go b/pkg/database/zip.go
index 4d7f8f6..1cacf40 100644
--- a/pkg/database/zip.go
+++ b/pkg/database/zip.go
@@ -88,7 +88,9 @@ func (db *ZipDB) fetchZip() ([]byte, error) {
 
 	defer resp.Body.Close()
 
-	if resp.StatusCode == http.StatusNotModified {
+	// without a cache the request was not conditional, so there is nothing
+	// that a "not modified" response could be vouching for
+	if resp.StatusCode == http.StatusNotModified && cache != nil {
 		db.UpdatedAt = cache.Date
 
 		return cache.Body, nil
-- 
2.43.0


From b7bd680abf2253abe3b4eb1674adfce936959b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:03 +0000
Subject: [PATCH 02/24] fix: ignore a cached database that is damaged

A cache file that only partly decoded, or whose body is not an archive, was
still used: its validators were sent, the server answered 304 and the database
could then never be loaded again.
---
 pkg/database/zip.go | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/pkg/database/zip.go b/pkg/database/zip.go
index 1cacf40..6f45308 100644
--- a/pkg/database/zip.go
+++ b/pkg/database/zip.go
@@ -48,18 +48,35 @@ func (db *ZipDB) cachePath() string {
 	return filepath.Join(os.TempDir(), fileName)
 }
 
-func (db *ZipDB) fetchZip() ([]byte, error) {
+// readCache returns the cached archive, or nil if there isn't one that is usable
+func (db *ZipDB) readCache(cachePath string) *Cache {
+	cacheContent, err := os.ReadFile(cachePath)
+
+	if err != nil {
+		return nil
+	}
+
 	var cache *Cache
-	cachePath := db.cachePath()
 
-	if cacheContent, err := os.ReadFile(cachePath); err == nil {
-		err := json.Unmarshal(cacheContent, &cache)
+	err = json.Unmarshal(cacheContent, &cache)
 
-		if err != nil {
-			_, _ = fmt.Fprintf(os.Stderr, "Failed to parse cache from %s: %v\n", cachePath, err)
-		}
+	if err == nil && cache != nil {
+		_, err = zip.NewReader(bytes.NewReader(cache.Body), int64(len(cache.Body)))
 	}
 
+	if err != nil {
+		_, _ = fmt.Fprintf(os.Stderr, "Failed to parse cache from %s: %v\n", cachePath, err)
+
+		return nil
+	}
+
+	return cache
+}
+
+func (db *ZipDB) fetchZip() ([]byte, error) {
+	cachePath := db.cachePath()
+	cache := db.readCache(cachePath)
+
 	if db.Offline {
 		if cache == nil {
 			return nil, ErrOfflineDatabaseNotFound
-- 
2.43.0


From c5d5fde77754558bdb0cc57be4e3feb2072d2198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:05 +0000
Subject: [PATCH 03/24] fix: do not cache a response that is not an archive

A captive portal or proxy page answered with status 200 replaced the cached
database, breaking --offline and (with its validators) later online runs.
---
 pkg/database/zip.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/database/zip.go b/pkg/database/zip.go
index 6f45308..acc2c76 100644
--- a/pkg/database/zip.go
+++ b/pkg/database/zip.go
@@ -123,6 +123,11 @@ func (db *ZipDB) fetchZip() ([]byte, error) {
 		return nil, fmt.Errorf("could not read OSV database archive from response: %w", err)
 	}
 
+	// don't let something that is not an archive replace what has been cached
+	if _, err := zip.NewReader(bytes.NewReader(body), int64(len(body))); err != nil {
+		return nil, fmt.Errorf("could not read OSV database archive: %w", err)
+	}
+
 	etag := resp.Header.Get("ETag")
 	date := resp.Header.Get("Date")
 
-- 
2.43.0


From bf15b9ba39cf04bd52ac9407da230cfe96a45f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:07 +0000
Subject: [PATCH 04/24] fix: replace the database cache atomically

The cache was truncated and rewritten in place, so a full disk, a crash or a
concurrent run could leave or see a partial cache and lose the previous copy.
---
 pkg/database/zip.go | 36 ++++++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/pkg/database/zip.go b/pkg/database/zip.go
index acc2c76..088c1f1 100644
--- a/pkg/database/zip.go
+++ b/pkg/database/zip.go
@@ -73,6 +73,39 @@ func (db *ZipDB) readCache(cachePath string) *Cache {
 	return cache
 }
 
+// writeCache replaces the cache in one step, so that neither a failure part way
+// nor another process can observe or leave behind a partially written cache
+func writeCache(cachePath string, contents []byte) error {
+	f, err := os.CreateTemp(filepath.Dir(cachePath), filepath.Base(cachePath)+".*.tmp")
+
+	if err != nil {
+		return fmt.Errorf("%w", err)
+	}
+
+	_, err = f.Write(contents)
+
+	if err == nil {
+		// being world readable is fine
+		err = f.Chmod(0644)
+	}
+
+	if cerr := f.Close(); err == nil {
+		err = cerr
+	}
+
+	if err == nil {
+		err = os.Rename(f.Name(), cachePath)
+	}
+
+	if err != nil {
+		_ = os.Remove(f.Name())
+
+		return fmt.Errorf("%w", err)
+	}
+
+	return nil
+}
+
 func (db *ZipDB) fetchZip() ([]byte, error) {
 	cachePath := db.cachePath()
 	cache := db.readCache(cachePath)
@@ -140,8 +173,7 @@ func (db *ZipDB) fetchZip() ([]byte, error) {
 	cacheContents, err := json.Marshal(cache)
 
 	if err == nil {
-		//nolint:gosec // being world readable is fine
-		err = os.WriteFile(cachePath, cacheContents, 0644)
+		err = writeCache(cachePath, cacheContents)
 
 		if err != nil {
 			_, _ = fmt.Fprintf(os.Stderr, "Failed to write cache to %s: %v\n", cachePath, err)
-- 
2.43.0


From 1af0aa259c5843a1cb3a114b8b127768c39afaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:32 +0000
Subject: [PATCH 05/24] fix: update configs atomically

The config was truncated before its new contents were encoded and written, so
a crash, power loss or full disk lost its ignores and extra databases.
---
 internal/configer/update.go | 72 +++++++++++++++++++++++++++++++++----
 1 file changed, 66 insertions(+), 6 deletions(-)

diff --git a/internal/configer/update.go b/internal/configer/update.go
index c46a95c..735ca76 100644
--- a/internal/configer/update.go
+++ b/internal/configer/update.go
@@ -1,34 +1,94 @@
 package configer
 
 import (
+	"bytes"
 	"fmt"
 	"os"
+	"path/filepath"
 
 	"gopkg.in/yaml.v3"
 )
 
-func UpdateWithIgnores(pathToConfig string, ignores []string) error {
-	raw, err := load(pathToConfig)
+// replaceFile swaps the contents of an existing file in one durable step, so
+// that it always has either all of its previous or all of its new contents
+func replaceFile(path string, contents []byte) error {
+	// make sure that if this is a link it stays one
+	path, err := filepath.EvalSymlinks(path)
 
 	if err != nil {
 		return fmt.Errorf("%w", err)
 	}
 
-	raw.Ignore = ignores
+	info, err := os.Stat(path)
+
+	if err != nil {
+		return fmt.Errorf("%w", err)
+	}
+
+	// respect the file being read-only
+	existing, err := os.OpenFile(path, os.O_WRONLY, 0)
+
+	if err != nil {
+		return fmt.Errorf("%w", err)
+	}
+
+	_ = existing.Close()
 
-	f, err := os.OpenFile(pathToConfig, os.O_TRUNC|os.O_WRONLY, os.ModePerm)
+	f, err := os.CreateTemp(filepath.Dir(path), filepath.Base(path)+".*.tmp")
 
 	if err != nil {
 		return fmt.Errorf("%w", err)
 	}
 
-	encoder := yaml.NewEncoder(f)
+	_, err = f.Write(contents)
+
+	if err == nil {
+		err = f.Chmod(info.Mode().Perm())
+	}
+
+	if err == nil {
+		err = f.Sync()
+	}
+
+	if cerr := f.Close(); err == nil {
+		err = cerr
+	}
+
+	if err == nil {
+		err = os.Rename(f.Name(), path)
+	}
+
+	if err != nil {
+		_ = os.Remove(f.Name())
+
+		return fmt.Errorf("%w", err)
+	}
+
+	return nil
+}
+
+func UpdateWithIgnores(pathToConfig string, ignores []string) error {
+	raw, err := load(pathToConfig)
+
+	if err != nil {
+		return fmt.Errorf("%w", err)
+	}
+
+	raw.Ignore = ignores
+
+	var buf bytes.Buffer
+
+	encoder := yaml.NewEncoder(&buf)
 	encoder.SetIndent(2)
 	err = encoder.Encode(raw)
 
+	if err == nil {
+		err = encoder.Close()
+	}
+
 	if err != nil {
 		return fmt.Errorf("%w", err)
 	}
 
-	return nil
+	return replaceFile(pathToConfig, buf.Bytes())
 }
-- 
2.43.0


From b0a6ae5eb3633f302d10ee9f5124c1534bf656d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:48 +0000
Subject: [PATCH 06/24] fix: report inputs that cannot be inspected or listed

The errors of Stat and ReadDir were shadowed, so a directory that could not be
listed was treated as having no lockfiles without any error.
---
 main.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/main.go b/main.go
index 21ef194..e4ef813 100644
--- a/main.go
+++ b/main.go
@@ -239,11 +239,15 @@ func findLockfiles(r *reporter.Reporter, pathToLockOrDirectory string, parseAs s
 	file, err := os.Open(pathToLockOrDirectory)
 
 	if err == nil {
-		info, err := file.Stat()
+		defer file.Close()
+
+		var info os.FileInfo
+		info, err = file.Stat()
 
 		if err == nil {
 			if info.IsDir() {
-				dirs, err := file.ReadDir(-1)
+				var dirs []os.DirEntry
+				dirs, err = file.ReadDir(-1)
 
 				if err == nil {
 					for _, dir := range dirs {
-- 
2.43.0


From 0ebfd5b65429986d2759f667acd8ece71a214780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:49 +0000
Subject: [PATCH 07/24] fix: do not share databases between lockfiles without a
 config

With --no-config (or none found) all lockfiles held the same config, so the
ecosystem databases of earlier lockfiles were also used for later ones.
---
 main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/main.go b/main.go
index e4ef813..bbe094e 100644
--- a/main.go
+++ b/main.go
@@ -449,8 +449,8 @@ func readAllLockfiles(
 			}
 
 			config = &con
-		} else if config.FilePath != "" {
-			// if there's a global config, then copy it - otherwise all lockfiles
+		} else {
+			// copy the global config (if there is one) - otherwise all lockfiles
 			// will hold a reference to the same config, which can result in configs
 			// for ecosystem-specific databases being used unnecessarily for lockfiles
 			// that don't have any packages that are part of that ecosystem
-- 
2.43.0


From e5d669921fce3bd3a26eb3760023a2fef6f2fbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:51 +0000
Subject: [PATCH 08/24] fix: check a lockfile against its databases in their
 configured order

The databases were used in the order they were loaded for all lockfiles, so
which copy of an advisory was reported depended on the other lockfiles.
---
 main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/main.go b/main.go
index bbe094e..005c4a3 100644
--- a/main.go
+++ b/main.go
@@ -118,8 +118,8 @@ func (dbs OSVDatabases) check(r *reporter.Reporter, lockf lockfile.Lockfile, ign
 func (dbs OSVDatabases) forConfigs(dbConfigs []database.Config) OSVDatabases {
 	specificDBs := make(OSVDatabases, 0)
 
-	for _, db := range dbs {
-		for _, dbConfig := range dbConfigs {
+	for _, dbConfig := range dbConfigs {
+		for _, db := range dbs {
 			if dbConfig.Identifier() == db.Identifier() {
 				specificDBs = append(specificDBs, db)
 			}
-- 
2.43.0


From 0c513bf83bf47789c08c992e615a498d290b0b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:06 +0000
Subject: [PATCH 09/24] fix: do not update config ignores after an incomplete
 scan

When a database, lockfile or API check failed, the ignores of everything that
was therefore not found were removed from the configs.
---
 main.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/main.go b/main.go
index 005c4a3..92bb3ab 100644
--- a/main.go
+++ b/main.go
@@ -734,7 +734,13 @@ This flag can be passed multiple times to ignore different vulnerabilities`)
 	}
 
 	if *updateConfigIgnores {
-		writeUpdatedConfigs(r, vulnsPerConfig)
+		// if something could not be loaded or checked then we don't know about all
+		// the osvs that are present, and would drop the ignores of those we missed
+		if r.HasErrored() {
+			r.PrintErrorf("\nNot updating configs, as not everything could be checked\n")
+		} else {
+			writeUpdatedConfigs(r, vulnsPerConfig)
+		}
 	}
 
 	if r.HasErrored() && exitCode == 0 {
-- 
2.43.0


From 9e5e71532f89c360ea627320aef3049c5c58fa01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:22 +0000
Subject: [PATCH 10/24] fix: fail to load a directory database whose root
 cannot be listed

It was loaded as an empty database, so nothing in it was ever reported and the
detector could exit with 0.
---
 pkg/database/dir.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/database/dir.go b/pkg/database/dir.go
index 8a20564..ce2ba44 100644
--- a/pkg/database/dir.go
+++ b/pkg/database/dir.go
@@ -51,6 +51,11 @@ func (db *DirDB) load(pkgNames []string) error {
 			return err
 		}
 
+		// without its root there is no database at all
+		if err != nil && path == p {
+			return err
+		}
+
 		if err != nil {
 			errored = true
 			_, _ = fmt.Fprintf(os.Stderr, "\n    %v", err)
-- 
2.43.0


From 72abd363e3aab6a16d42be5e4a2ae7209fc1c4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:23 +0000
Subject: [PATCH 11/24] fix: update a config used through different paths only
 once

With lockfiles given by both relative and absolute paths, the same config was
written once per spelling, each time with only the osvs of some lockfiles, and
in random order.
---
 main.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/main.go b/main.go
index 92bb3ab..70497b5 100644
--- a/main.go
+++ b/main.go
@@ -626,6 +626,7 @@ This flag can be passed multiple times to ignore different vulnerabilities`)
 	}
 
 	vulnsPerConfig := make(map[string]map[string]struct{})
+	configPaths := make(map[string]string)
 
 	for i, result := range files {
 		if i >= 1 {
@@ -713,17 +714,29 @@ This flag can be passed multiple times to ignore different vulnerabilities`)
 		// then we need to capture the id of each osv from each file
 		// against the location of each config being used for that lockfile
 		if *updateConfigIgnores && config.FilePath != "" {
-			if _, ok := vulnsPerConfig[config.FilePath]; !ok {
-				vulnsPerConfig[config.FilePath] = make(map[string]struct{})
+			// the same config can be reached by different paths (e.g. relative and
+			// absolute), in which case it must still only be updated once
+			configPath := config.FilePath
+
+			if absPath, err := filepath.Abs(configPath); err == nil {
+				if _, ok := configPaths[absPath]; !ok {
+					configPaths[absPath] = configPath
+				}
+
+				configPath = configPaths[absPath]
+			}
+
+			if _, ok := vulnsPerConfig[configPath]; !ok {
+				vulnsPerConfig[configPath] = make(map[string]struct{})
 			}
 
 			for _, pkg := range report.Packages {
 				for _, vul := range pkg.Vulnerabilities.Unique() {
-					vulnsPerConfig[config.FilePath][vul.ID] = struct{}{}
+					vulnsPerConfig[configPath][vul.ID] = struct{}{}
 				}
 
 				for _, vul := range pkg.Ignored.Unique() {
-					vulnsPerConfig[config.FilePath][vul.ID] = struct{}{}
+					vulnsPerConfig[configPath][vul.ID] = struct{}{}
 				}
 			}
 		}
-- 
2.43.0


From 8f8f9aebe6df534867eb9c4354ff9f7207c1fefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:51 +0000
Subject: [PATCH 12/24] fix: do not panic on lockfiles that are a JSON null

---
 pkg/lockfile/parse-bun-lock.go      | 2 +-
 pkg/lockfile/parse-composer-lock.go | 2 +-
 pkg/lockfile/parse-npm-lock.go      | 4 ++--
 pkg/lockfile/parse-nuget-lock.go    | 4 ++--
 pkg/lockfile/parse-pipenv-lock.go   | 2 +-
 pkg/lockfile/parse-renv-lock.go     | 2 +-
 6 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pkg/lockfile/parse-bun-lock.go b/pkg/lockfile/parse-bun-lock.go
index e4857d8..9aaa34f 100644
--- a/pkg/lockfile/parse-bun-lock.go
+++ b/pkg/lockfile/parse-bun-lock.go
@@ -49,7 +49,7 @@ func structurePackageDetails(pkg []any) (string, string, string) {
 }
 
 func ParseBunLock(pathToLockfile string) ([]PackageDetails, error) {
-	var parsedLockfile *BunLockfile
+	var parsedLockfile BunLockfile
 
 	lockfileContents, err := os.ReadFile(pathToLockfile)
 
diff --git a/pkg/lockfile/parse-composer-lock.go b/pkg/lockfile/parse-composer-lock.go
index 55d0740..d840c5d 100644
--- a/pkg/lockfile/parse-composer-lock.go
+++ b/pkg/lockfile/parse-composer-lock.go
@@ -34,7 +34,7 @@ func extractCommit(pkg ComposerPackage) string {
 }
 
 func ParseComposerLock(pathToLockfile string) ([]PackageDetails, error) {
-	var parsedLockfile *ComposerLock
+	var parsedLockfile ComposerLock
 
 	lockfileContents, err := os.ReadFile(pathToLockfile)
 
diff --git a/pkg/lockfile/parse-npm-lock.go b/pkg/lockfile/parse-npm-lock.go
index 1ed5d65..d741b0a 100644
--- a/pkg/lockfile/parse-npm-lock.go
+++ b/pkg/lockfile/parse-npm-lock.go
@@ -152,7 +152,7 @@ func parseNpmLock(lockfile NpmLockfile) map[string]PackageDetails {
 }
 
 func ParseNpmLock(pathToLockfile string) ([]PackageDetails, error) {
-	var parsedLockfile *NpmLockfile
+	var parsedLockfile NpmLockfile
 
 	lockfileContents, err := os.ReadFile(pathToLockfile)
 
@@ -166,5 +166,5 @@ func ParseNpmLock(pathToLockfile string) ([]PackageDetails, error) {
 		return []PackageDetails{}, fmt.Errorf("could not parse %s: %w", pathToLockfile, err)
 	}
 
-	return pkgDetailsMapToSlice(parseNpmLock(*parsedLockfile)), nil
+	return pkgDetailsMapToSlice(parseNpmLock(parsedLockfile)), nil
 }
diff --git a/pkg/lockfile/parse-nuget-lock.go b/pkg/lockfile/parse-nuget-lock.go
index 5456526..79681ab 100644
--- a/pkg/lockfile/parse-nuget-lock.go
+++ b/pkg/lockfile/parse-nuget-lock.go
@@ -51,7 +51,7 @@ func parseNuGetLock(lockfile NuGetLockfile) ([]PackageDetails, error) {
 var ErrNuGetUnsupportedLockfileVersion = errors.New("unsupported lockfile version")
 
 func ParseNuGetLock(pathToLockfile string) ([]PackageDetails, error) {
-	var parsedLockfile *NuGetLockfile
+	var parsedLockfile NuGetLockfile
 
 	lockfileContents, err := os.ReadFile(pathToLockfile)
 
@@ -69,5 +69,5 @@ func ParseNuGetLock(pathToLockfile string) ([]PackageDetails, error) {
 		return []PackageDetails{}, fmt.Errorf("could not parse %s: %w", pathToLockfile, ErrNuGetUnsupportedLockfileVersion)
 	}
 
-	return parseNuGetLock(*parsedLockfile)
+	return parseNuGetLock(parsedLockfile)
 }
diff --git a/pkg/lockfile/parse-pipenv-lock.go b/pkg/lockfile/parse-pipenv-lock.go
index 47ecbf7..1ecd5d4 100644
--- a/pkg/lockfile/parse-pipenv-lock.go
+++ b/pkg/lockfile/parse-pipenv-lock.go
@@ -18,7 +18,7 @@ type PipenvLock struct {
 const PipenvEcosystem = PipEcosystem
 
 func ParsePipenvLock(pathToLockfile string) ([]PackageDetails, error) {
-	var parsedLockfile *PipenvLock
+	var parsedLockfile PipenvLock
 
 	lockfileContents, err := os.ReadFile(pathToLockfile)
 
diff --git a/pkg/lockfile/parse-renv-lock.go b/pkg/lockfile/parse-renv-lock.go
index e44c29a..c286c96 100644
--- a/pkg/lockfile/parse-renv-lock.go
+++ b/pkg/lockfile/parse-renv-lock.go
@@ -19,7 +19,7 @@ type RenvLockfile struct {
 const CRANEcosystem Ecosystem = "CRAN"
 
 func ParseRenvLock(pathToLockfile string) ([]PackageDetails, error) {
-	var parsedLockfile *RenvLockfile
+	var parsedLockfile RenvLockfile
 
 	lockfileContents, err := os.ReadFile(pathToLockfile)
 
-- 
2.43.0


From 03031767e0852762d4eca4ec7356c3e1f07cdcc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:54 +0000
Subject: [PATCH 13/24] fix: do not panic on lockfile entries that are cut
 short

---
 pkg/lockfile/parse-bun-lock.go     |  4 ++++
 pkg/lockfile/parse-npm-lock.go     | 11 ++++++++---
 pkg/lockfile/parse-pipenv-lock.go  |  5 +++--
 pkg/lockfile/parse-pnpm-lock.go    |  4 ++++
 pkg/lockfile/parse-pubspec-lock.go |  4 ++--
 5 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/pkg/lockfile/parse-bun-lock.go b/pkg/lockfile/parse-bun-lock.go
index 9aaa34f..9d3db9b 100644
--- a/pkg/lockfile/parse-bun-lock.go
+++ b/pkg/lockfile/parse-bun-lock.go
@@ -19,6 +19,10 @@ const BunEcosystem = NpmEcosystem
 // structurePackageDetails returns the name, version, and commit of a package
 // specified as a tuple in a bun.lock
 func structurePackageDetails(pkg []any) (string, string, string) {
+	if len(pkg) == 0 {
+		return "", "", ""
+	}
+
 	str, ok := pkg[0].(string)
 
 	if !ok {
diff --git a/pkg/lockfile/parse-npm-lock.go b/pkg/lockfile/parse-npm-lock.go
index d741b0a..7ae2e0f 100644
--- a/pkg/lockfile/parse-npm-lock.go
+++ b/pkg/lockfile/parse-npm-lock.go
@@ -68,9 +68,14 @@ func parseNpmLockDependencies(dependencies map[string]NpmLockDependency) map[str
 		} else {
 			// use the name of the underlying package rather than the alias
 			if strings.HasPrefix(detail.Version, "npm:") {
-				i := strings.LastIndex(detail.Version, "@")
-				name = detail.Version[4:i]
-				finalVersion = detail.Version[i+1:]
+				name = detail.Version[4:]
+				finalVersion = ""
+
+				// a leading "@" is part of the name
+				if i := strings.LastIndex(name, "@"); i > 0 {
+					finalVersion = name[i+1:]
+					name = name[:i]
+				}
 			}
 
 			commit = tryExtractCommit(detail.Version)
diff --git a/pkg/lockfile/parse-pipenv-lock.go b/pkg/lockfile/parse-pipenv-lock.go
index 1ecd5d4..343a135 100644
--- a/pkg/lockfile/parse-pipenv-lock.go
+++ b/pkg/lockfile/parse-pipenv-lock.go
@@ -4,6 +4,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"os"
+	"strings"
 )
 
 type PipenvPackage struct {
@@ -39,7 +40,7 @@ func ParsePipenvLock(pathToLockfile string) ([]PackageDetails, error) {
 			continue
 		}
 
-		version := pipenvPackage.Version[2:]
+		version := strings.TrimLeft(pipenvPackage.Version, "=<>~!")
 
 		packages[name+"@"+version] = PackageDetails{
 			Name:      name,
@@ -54,7 +55,7 @@ func ParsePipenvLock(pathToLockfile string) ([]PackageDetails, error) {
 			continue
 		}
 
-		version := pipenvPackage.Version[2:]
+		version := strings.TrimLeft(pipenvPackage.Version, "=<>~!")
 
 		packages[name+"@"+version] = PackageDetails{
 			Name:      name,
diff --git a/pkg/lockfile/parse-pnpm-lock.go b/pkg/lockfile/parse-pnpm-lock.go
index 8372054..a512b2e 100644
--- a/pkg/lockfile/parse-pnpm-lock.go
+++ b/pkg/lockfile/parse-pnpm-lock.go
@@ -98,6 +98,10 @@ func extractPnpmPackageNameAndVersion(dependencyPath string, lockfileVersion flo
 	parts = parts[1:]
 
 	if strings.HasPrefix(parts[0], "@") {
+		if len(parts) == 1 {
+			return "", "", errInvalidPackagePath
+		}
+
 		name = strings.Join(parts[:2], "/")
 		parts = parts[2:]
 	} else {
diff --git a/pkg/lockfile/parse-pubspec-lock.go b/pkg/lockfile/parse-pubspec-lock.go
index ef7df54..9adb8e3 100644
--- a/pkg/lockfile/parse-pubspec-lock.go
+++ b/pkg/lockfile/parse-pubspec-lock.go
@@ -33,7 +33,7 @@ func (pld *PubspecLockDescription) UnmarshalYAML(value *yaml.Node) error {
 		return nil
 	}
 
-	var str *string
+	var str string
 
 	err = value.Decode(&str)
 
@@ -41,7 +41,7 @@ func (pld *PubspecLockDescription) UnmarshalYAML(value *yaml.Node) error {
 		return fmt.Errorf("%w", err)
 	}
 
-	pld.Path = *str
+	pld.Path = str
 
 	return nil
 }
-- 
2.43.0


From 09836b427d76fbc6e800cb62713cd590b38130f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:36 +0000
Subject: [PATCH 14/24] fix: do not panic on versions that cannot be parsed

---
 pkg/database/osv.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pkg/database/osv.go b/pkg/database/osv.go
index 520ecca..4360213 100644
--- a/pkg/database/osv.go
+++ b/pkg/database/osv.go
@@ -93,7 +93,13 @@ func (ar AffectsRange) containsVersion(pkg internal.PackageDetails) bool {
 		return false
 	}
 
-	vp := semantic.MustParse(pkg.Version, string(pkg.CompareAs))
+	vp, err := semantic.Parse(pkg.Version, string(pkg.CompareAs))
+
+	// if we can't compare the version of the package, assume that it is affected
+	// since a false positive is better than a false negative
+	if err != nil {
+		return true
+	}
 
 	sort.Slice(ar.Events, func(i, j int) bool {
 		a := ar.Events[i]
@@ -108,7 +114,13 @@ func (ar AffectsRange) containsVersion(pkg internal.PackageDetails) bool {
 		}
 
 		// Ignore errors as we assume the version is correct
-		order, _ := semantic.MustParse(a.version(), string(pkg.CompareAs)).CompareStr(b.version())
+		va, err := semantic.Parse(a.version(), string(pkg.CompareAs))
+
+		if err != nil {
+			return false
+		}
+
+		order, _ := va.CompareStr(b.version())
 
 		return order < 0
 	})
-- 
2.43.0


From fbe13ef2b224bd0bdb4131f2c50b1932dd8f50d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:35 +0000
Subject: [PATCH 15/24] fix: order packages that differ only in their commit

---
 pkg/lockfile/parse.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/lockfile/parse.go b/pkg/lockfile/parse.go
index ec3e6a4..acfa1f2 100644
--- a/pkg/lockfile/parse.go
+++ b/pkg/lockfile/parse.go
@@ -135,11 +135,15 @@ func Parse(pathToLockfile string, parseAs string) (Lockfile, error) {
 	packages, err := parser(pathToLockfile)
 
 	sort.Slice(packages, func(i, j int) bool {
-		if packages[i].Name == packages[j].Name {
+		if packages[i].Name != packages[j].Name {
+			return packages[i].Name < packages[j].Name
+		}
+
+		if packages[i].Version != packages[j].Version {
 			return packages[i].Version < packages[j].Version
 		}
 
-		return packages[i].Name < packages[j].Name
+		return packages[i].Commit < packages[j].Commit
 	})
 
 	return Lockfile{
-- 
2.43.0


From 8138d923d4753584790a17a81ac44c5efdbd553e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:27 +0000
Subject: [PATCH 16/24] fix: check all ranges of an advisory that also has a
 git range

---
 pkg/database/osv.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pkg/database/osv.go b/pkg/database/osv.go
index 4360213..70d6fd4 100644
--- a/pkg/database/osv.go
+++ b/pkg/database/osv.go
@@ -150,9 +150,6 @@ type Affects []AffectsRange
 // specified by the events of any "Ecosystem" or "Semver" type ranges
 func (a Affects) affectsVersion(pkg internal.PackageDetails) bool {
 	for _, r := range a {
-		if r.Type != TypeEcosystem && r.Type != TypeSemver {
-			return false
-		}
 		if r.containsVersion(pkg) {
 			return true
 		}
-- 
2.43.0


From 30f092c7b3b187992ec3c6aa266c4abddb8b4cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:25 +0000
Subject: [PATCH 17/24] fix: find advisories for packages whose ecosystem has a
 suffix

---
 pkg/database/mem-check.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/database/mem-check.go b/pkg/database/mem-check.go
index 9cad474..6d69bd7 100644
--- a/pkg/database/mem-check.go
+++ b/pkg/database/mem-check.go
@@ -55,7 +55,8 @@ func (db *memDB) Vulnerabilities(includeWithdrawn bool) []OSV {
 func (db *memDB) VulnerabilitiesAffectingPackage(pkg internal.PackageDetails) Vulnerabilities {
 	var vulnerabilities Vulnerabilities
 
-	hash := string(pkg.Ecosystem) + "-" + pkg.Name
+	p := Package{Name: pkg.Name, Ecosystem: pkg.Ecosystem}
+	hash := string(p.NormalizedEcosystem()) + "-" + pkg.Name
 
 	if vulns, ok := db.vulnerabilities[hash]; ok {
 		for _, vulnerability := range vulns {
-- 
2.43.0


From 964eff8680cfacc5f3491e72e82e0b3f67fc91bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:26 +0000
Subject: [PATCH 18/24] fix: match python packages whatever the spelling of
 their name

---
 main.go                   | 3 ++-
 pkg/database/mem-check.go | 2 +-
 pkg/database/osv.go       | 4 +++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/main.go b/main.go
index 70497b5..213899d 100644
--- a/main.go
+++ b/main.go
@@ -604,7 +604,8 @@ This flag can be passed multiple times to ignore different vulnerabilities`)
 	pkgSet := make(map[string]struct{})
 	for _, p := range files {
 		for _, pkg := range p.lockf.Packages {
-			pkgSet[pkg.Name] = struct{}{}
+			name := database.Package{Name: pkg.Name, Ecosystem: pkg.Ecosystem}.NormalizedName()
+			pkgSet[name] = struct{}{}
 		}
 	}
 	allPackages := make([]string, 0, len(pkgSet))
diff --git a/pkg/database/mem-check.go b/pkg/database/mem-check.go
index 6d69bd7..ee56953 100644
--- a/pkg/database/mem-check.go
+++ b/pkg/database/mem-check.go
@@ -56,7 +56,7 @@ func (db *memDB) VulnerabilitiesAffectingPackage(pkg internal.PackageDetails) Vu
 	var vulnerabilities Vulnerabilities
 
 	p := Package{Name: pkg.Name, Ecosystem: pkg.Ecosystem}
-	hash := string(p.NormalizedEcosystem()) + "-" + pkg.Name
+	hash := string(p.NormalizedEcosystem()) + "-" + p.NormalizedName()
 
 	if vulns, ok := db.vulnerabilities[hash]; ok {
 		for _, vulnerability := range vulns {
diff --git a/pkg/database/osv.go b/pkg/database/osv.go
index 70d6fd4..768e183 100644
--- a/pkg/database/osv.go
+++ b/pkg/database/osv.go
@@ -291,9 +291,11 @@ func areEcosystemsEqual(a, b internal.Ecosystem) bool {
 }
 
 func (osv *OSV) IsAffected(pkg internal.PackageDetails) bool {
+	name := Package{Name: pkg.Name, Ecosystem: pkg.Ecosystem}.NormalizedName()
+
 	for _, affected := range osv.Affected {
 		if areEcosystemsEqual(affected.Package.Ecosystem, pkg.Ecosystem) &&
-			affected.Package.NormalizedName() == pkg.Name {
+			affected.Package.NormalizedName() == name {
 			if len(affected.Ranges) == 0 && len(affected.Versions) == 0 {
 				_, _ = fmt.Fprintf(
 					os.Stderr,
-- 
2.43.0


From 22abe4845852753250e475a2afed406887202fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:48 +0000
Subject: [PATCH 19/24] fix: do not replace the database cache when there is
 nothing to cache

---
 pkg/database/zip.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pkg/database/zip.go b/pkg/database/zip.go
index 088c1f1..8b503bf 100644
--- a/pkg/database/zip.go
+++ b/pkg/database/zip.go
@@ -166,11 +166,12 @@ func (db *ZipDB) fetchZip() ([]byte, error) {
 
 	db.UpdatedAt = date
 
-	if etag != "" || date != "" {
-		cache = &Cache{ETag: etag, Date: date, Body: body, URL: db.ArchiveURL}
+	// without a validator there is nothing that could be cached
+	if etag == "" && date == "" {
+		return body, nil
 	}
 
-	cacheContents, err := json.Marshal(cache)
+	cacheContents, err := json.Marshal(Cache{ETag: etag, Date: date, Body: body, URL: db.ArchiveURL})
 
 	if err == nil {
 		err = writeCache(cachePath, cacheContents)
-- 
2.43.0


From f440649f686c4c019adf565b2434e2d5d50c0f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:49 +0000
Subject: [PATCH 20/24] fix: do not reorder the events of a shared advisory

---
 pkg/database/osv.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pkg/database/osv.go b/pkg/database/osv.go
index 768e183..a940e23 100644
--- a/pkg/database/osv.go
+++ b/pkg/database/osv.go
@@ -101,9 +101,12 @@ func (ar AffectsRange) containsVersion(pkg internal.PackageDetails) bool {
 		return true
 	}
 
-	sort.Slice(ar.Events, func(i, j int) bool {
-		a := ar.Events[i]
-		b := ar.Events[j]
+	// the events belong to an advisory that is shared, so they must not be reordered in place
+	events := slices.Clone(ar.Events)
+
+	sort.Slice(events, func(i, j int) bool {
+		a := events[i]
+		b := events[j]
 
 		if a.Introduced == "0" {
 			return true
@@ -126,7 +129,7 @@ func (ar AffectsRange) containsVersion(pkg internal.PackageDetails) bool {
 	})
 
 	var affected bool
-	for _, e := range ar.Events {
+	for _, e := range events {
 		if affected {
 			if e.Fixed != "" {
 				order, _ := vp.CompareStr(e.Fixed)
-- 
2.43.0


From f7c081e7da079c148be5548d064d56c2f176186c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:59 +0000
Subject: [PATCH 21/24] fix: update a config that several projects link to only
 once

---
 main.go | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/main.go b/main.go
index 213899d..45e6b77 100644
--- a/main.go
+++ b/main.go
@@ -716,15 +716,17 @@ This flag can be passed multiple times to ignore different vulnerabilities`)
 		// against the location of each config being used for that lockfile
 		if *updateConfigIgnores && config.FilePath != "" {
 			// the same config can be reached by different paths (e.g. relative and
-			// absolute), in which case it must still only be updated once
+			// absolute, or links), in which case it must still only be updated once
 			configPath := config.FilePath
 
-			if absPath, err := filepath.Abs(configPath); err == nil {
-				if _, ok := configPaths[absPath]; !ok {
-					configPaths[absPath] = configPath
+			if realPath, err := resolvePath(configPath); err == nil {
+				if _, ok := configPaths[realPath]; !ok {
+					configPaths[realPath] = configPath
 				}
 
-				configPath = configPaths[absPath]
+				configPath = configPaths[realPath]
+			} else {
+				r.PrintErrorf("Error updating config: %v\n", err)
 			}
 
 			if _, ok := vulnsPerConfig[configPath]; !ok {
@@ -764,6 +766,21 @@ This flag can be passed multiple times to ignore different vulnerabilities`)
 	return exitCode
 }
 
+// resolvePath returns the absolute path of the actual file behind the given path
+func resolvePath(path string) (string, error) {
+	path, err := filepath.EvalSymlinks(path)
+
+	if err == nil {
+		path, err = filepath.Abs(path)
+	}
+
+	if err != nil {
+		return "", fmt.Errorf("%w", err)
+	}
+
+	return path, nil
+}
+
 func writeUpdatedConfigs(r *reporter.Reporter, vulnsPerConfig map[string]map[string]struct{}) {
 	if len(vulnsPerConfig) != 0 {
 		r.PrintTextf("\n")
-- 
2.43.0


From 6026324bee93cca33142b450db392eb78fe01f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:34 +0000
Subject: [PATCH 22/24] fix: never use the details of one advisory for another

---
 pkg/database/api-fetch-all.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/database/api-fetch-all.go b/pkg/database/api-fetch-all.go
index 98d3ec9..fc1e5cd 100644
--- a/pkg/database/api-fetch-all.go
+++ b/pkg/database/api-fetch-all.go
@@ -20,6 +20,11 @@ func (db APIDB) FetchAll(ids []string) Vulnerabilities {
 			// the user too, but for now we just silently eat the error
 			osv, _ := db.Fetch(id)
 
+			// never take the details of something else for those of the vulnerability
+			if osv.ID != id {
+				osv = OSV{ID: id}
+			}
+
 			osvs[i] = osv
 
 			return nil
-- 
2.43.0


From 7c1f1c29e3afc07b5aaab9ff4e14b5f3538a8a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:04 +0000
Subject: [PATCH 23/24] fix: always use the same details when npm packages
 share a commit

---
 pkg/lockfile/parse-npm-lock.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/lockfile/parse-npm-lock.go b/pkg/lockfile/parse-npm-lock.go
index 7ae2e0f..d396179 100644
--- a/pkg/lockfile/parse-npm-lock.go
+++ b/pkg/lockfile/parse-npm-lock.go
@@ -6,6 +6,7 @@ import (
 	"maps"
 	"os"
 	"path"
+	"slices"
 	"strings"
 )
 
@@ -116,11 +117,14 @@ func extractNpmPackageName(name string) string {
 func parseNpmLockPackages(packages map[string]NpmLockPackage) map[string]PackageDetails {
 	details := map[string]PackageDetails{}
 
-	for namePath, detail := range packages {
+	// go through these in order so that it's always the same one that is used
+	// should there be different details for the same package and commit
+	for _, namePath := range slices.Sorted(maps.Keys(packages)) {
 		if namePath == "" {
 			continue
 		}
 
+		detail := packages[namePath]
 		finalName := detail.Name
 		if finalName == "" {
 			finalName = extractNpmPackageName(namePath)
-- 
2.43.0


From f370dbc2456637b6fe257561bda8c6fb43027463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:46 +0000
Subject: [PATCH 24/24] fix: load directory databases that are reached through
 a link

---
 pkg/database/dir.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pkg/database/dir.go b/pkg/database/dir.go
index ce2ba44..6b1f582 100644
--- a/pkg/database/dir.go
+++ b/pkg/database/dir.go
@@ -25,6 +25,7 @@ func (db *DirDB) Name() string       { return db.name }
 func (db *DirDB) Identifier() string { return db.identifier }
 
 var ErrDirPathWrongProtocol = errors.New("directory path must start with \"file:\" protocol")
+var ErrDirPathNotDirectory = errors.New("not a directory")
 
 // load walks the filesystem starting with the working directory within the local path,
 // loading all OSVs found along the way.
@@ -46,6 +47,13 @@ func (db *DirDB) load(pkgNames []string) error {
 	p := filepath.Join(strings.TrimPrefix(u.Path, "/"), db.WorkingDirectory)
 	errored := false
 
+	// links are not followed when walking, including if that's what we start with
+	p, err = filepath.EvalSymlinks(p)
+
+	if err != nil {
+		return fmt.Errorf("could not read OSV database directory: %w", err)
+	}
+
 	err = filepath.Walk(p, func(path string, info fs.FileInfo, err error) error {
 		if info == nil {
 			return err
@@ -64,6 +72,10 @@ func (db *DirDB) load(pkgNames []string) error {
 		}
 
 		if !strings.HasSuffix(info.Name(), ".json") {
+			if path == p && !info.IsDir() {
+				return ErrDirPathNotDirectory
+			}
+
 			return nil
 		}
 
-- 
2.43.0

