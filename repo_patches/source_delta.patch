From 2cd5fb4f77508123c1d1273db8a7b47c6425805c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:14 +0000
Subject: [PATCH 01/49] fix: report a missing package file or working directory
 as an install error

---
 rcmd/install.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rcmd/install.go b/rcmd/install.go
index 28a40b3..08c498d 100644
--- a/rcmd/install.go
+++ b/rcmd/install.go
@@ -84,6 +84,9 @@ func Install(
 	} else {
 		ok, err := afero.DirExists(fs, rdir)
 		if !ok || err != nil {
+			if err == nil {
+				err = fmt.Errorf("working directory %s does not exist", rdir)
+			}
 			// TODO replace with better error
 			return CmdResult{
 				Stderr:   err.Error(),
@@ -112,6 +115,7 @@ func Install(
 		} else {
 			// nil error not ok
 			errs = fmt.Sprintf("%s does not exist", pkgPath)
+			err = errors.New(errs)
 		}
 		return CmdResult{
 			Stderr:   fmt.Sprintf("err: %s, ok: %v", errs, ok),
-- 
2.43.0


From 426663b4e8620078cad14a9d434be791c87f5b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:14 +0000
Subject: [PATCH 02/49] fix: fail the package, not the process, when no
 temporary directory can be made

---
 rcmd/install.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rcmd/install.go b/rcmd/install.go
index 08c498d..80ea3d7 100644
--- a/rcmd/install.go
+++ b/rcmd/install.go
@@ -304,7 +304,11 @@ func InstallThroughBinary(
 	)
 	err := fs.MkdirAll(tmpdir, 0777)
 	if err != nil {
-		log.Fatalf("could not make tmpdir at: %s to install package", tmpdir)
+		log.Errorf("could not make tmpdir at: %s to install package", tmpdir)
+		return CmdResult{
+			Stderr:   err.Error(),
+			ExitCode: 1,
+		}, "", err
 	}
 	origDir := ir.ExecSettings.WorkDir
 	if origDir == "" {
-- 
2.43.0


From 92193a1766989840c0c15ec7f09c786cff08a741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:14 +0000
Subject: [PATCH 03/49] fix: do not roll back a package that could not be moved
 aside

---
 rollback/operations.go | 11 ++++++++---
 rollback/types.go      |  6 +++++-
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/rollback/operations.go b/rollback/operations.go
index fd901cf..d72f72b 100644
--- a/rollback/operations.go
+++ b/rollback/operations.go
@@ -130,13 +130,18 @@ func createUpdateBackupFolders(fileSystem afero.Fs, libraryPath string, outdated
 
 	//Tag each outdated pkg directory in library with "__OLD__"
 	for _, pkg := range outdatedPackages {
-		updateAttempts = append(updateAttempts, tagOldInstallation(fileSystem, libraryPath, pkg))
+		updateAttempt, err := tagOldInstallation(fileSystem, libraryPath, pkg)
+		if err != nil {
+			// still in place: there is no backup to restore or delete
+			continue
+		}
+		updateAttempts = append(updateAttempts, updateAttempt)
 	}
 
 	return updateAttempts
 }
 
-func tagOldInstallation(fileSystem afero.Fs, libraryPath string, outdatedPackage cran.OutdatedPackage) UpdateAttempt {
+func tagOldInstallation(fileSystem afero.Fs, libraryPath string, outdatedPackage cran.OutdatedPackage) (UpdateAttempt, error) {
 	packageDir := filepath.Join(libraryPath, outdatedPackage.Package)
 	taggedPackageDir := filepath.Join(libraryPath, "__OLD__"+outdatedPackage.Package)
 
@@ -154,5 +159,5 @@ func tagOldInstallation(fileSystem afero.Fs, libraryPath string, outdatedPackage
 		BackupPackageDirectory: taggedPackageDir,
 		OldVersion:             outdatedPackage.OldVersion,
 		NewVersion:             outdatedPackage.NewVersion,
-	}
+	}, err
 }
diff --git a/rollback/types.go b/rollback/types.go
index 9b827f8..940e541 100644
--- a/rollback/types.go
+++ b/rollback/types.go
@@ -58,11 +58,15 @@ func (rp *RollbackPlan) PrepareAdditionalPackagesForOverwrite(fs afero.Fs, libra
 	for pkg := range rp.InstallPlan.AdditionalPackageSources {
 		preinstPkg, isPreinstalled := rp.PreinstalledPackages[pkg]
 		if isPreinstalled {
-			overwriteAttempt := tagOldInstallation(fs, library, cran.OutdatedPackage{
+			overwriteAttempt, err := tagOldInstallation(fs, library, cran.OutdatedPackage{
 				Package:    pkg,
 				OldVersion: preinstPkg.Version,
 				NewVersion: "[from tarball]",
 			})
+			if err != nil {
+				// still in place: there is no backup to restore or delete
+				continue
+			}
 			overwriteAttempts = append(overwriteAttempts, overwriteAttempt)
 		}
 	}
-- 
2.43.0


From fd7ba080d60ff45519e829ca681adad47f871c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:14 +0000
Subject: [PATCH 04/49] fix: stage packages only once everything has been
 downloaded

---
 cmd/install.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/cmd/install.go b/cmd/install.go
index b8ad05a..555390a 100644
--- a/cmd/install.go
+++ b/cmd/install.go
@@ -83,12 +83,6 @@ func rInstall(cmd *cobra.Command, args []string) error {
 		}
 	}
 
-	if !cfg.NoUpdate { // } && cfg.Rollback { We actually need this to run either way, as the "prepare packages for update" operation moves the current installations to __OLD__ folders, thus allowing updated versions to be installed.
-		log.Info("update argument passed. staging packages for update...")
-		rollbackPlan.PreparePackagesForUpdate(fs, cfg.Library)
-	}
-	rollbackPlan.PrepareAdditionalPackagesForOverwrite(fs, cfg.Library)
-
 	// Create a list of package download objects using our install plan and our "nexus" object.
 	// pkgsToDownload := getPackagesToDownload(installPlan, pkgNexus)
 
@@ -101,6 +95,13 @@ func rInstall(cmd *cobra.Command, args []string) error {
 		log.Fatalf("error downloading packages: %s", err)
 	}
 
+	// Nothing is moved aside in the library until everything to install has been fetched.
+	if !cfg.NoUpdate { // } && cfg.Rollback { We actually need this to run either way, as the "prepare packages for update" operation moves the current installations to __OLD__ folders, thus allowing updated versions to be installed.
+		log.Info("update argument passed. staging packages for update...")
+		rollbackPlan.PreparePackagesForUpdate(fs, cfg.Library)
+	}
+	rollbackPlan.PrepareAdditionalPackagesForOverwrite(fs, cfg.Library)
+
 	// Set the arguments to be passed in to the R Package Installer
 	pkgInstallArgs := rcmd.NewDefaultInstallArgs()
 	pkgInstallArgs.Library, _ = filepath.Abs(cfg.Library)
-- 
2.43.0


From de7e6adf5c3271cea2e25f6af8da8f0555762ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:14 +0000
Subject: [PATCH 05/49] fix: keep the backups of updated packages when the
 rollback fails

---
 cmd/install.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cmd/install.go b/cmd/install.go
index 555390a..7dcdeb3 100644
--- a/cmd/install.go
+++ b/cmd/install.go
@@ -137,18 +137,23 @@ func rInstall(cmd *cobra.Command, args []string) error {
 
 	log.WithField("duration", time.Since(startTime)).Info("total package install time")
 
+	keepBackups := false
 	if !cfg.NoRollback {
 		// If anything went wrong during the installation, rollback the environment.
 		if err != nil || errInstallAdditional != nil {
 			errRollback := rollback.RollbackPackageEnvironment(fs, rollbackPlan)
 			if errRollback != nil {
 				log.WithFields(log.Fields{}).Error("failed to reset package environment after bad installation. Your package Library will be in a corrupt state. It is recommended you delete your Library and reinstall all packages.")
+				keepBackups = true
 			}
 		}
 	}
 	// If any packages were being updated, we need to remove any leftover backup folders that were created.
 	// Errors are handled in the lower functions
-	_ = rollbackPlan.DeleteBackupPackageFolders(fs)
+	// After a failed rollback they hold the only copy of a package that was not restored.
+	if !keepBackups {
+		_ = rollbackPlan.DeleteBackupPackageFolders(fs)
+	}
 
 	log.Info("duration:", time.Since(startTime))
 
-- 
2.43.0


From abc5e7125737930a3b7bd2d9411dfbacb2264a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:43 +0000
Subject: [PATCH 06/49] fix: never leave the install waiting for a package that
 is not going to be installed

---
 rcmd/install.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rcmd/install.go b/rcmd/install.go
index 80ea3d7..0442fb1 100644
--- a/rcmd/install.go
+++ b/rcmd/install.go
@@ -433,6 +433,7 @@ func InstallPackagePlan(
 		ncpu,
 		InstallThroughBinary,
 		func(iu InstallUpdate) {
+			defer wg.Done()
 			if iu.Err != nil {
 				log.WithField("err", iu.Err).Warn("error installing")
 				anyFailed = true
@@ -502,7 +503,6 @@ func InstallPackagePlan(
 
 				}
 			}
-			wg.Done()
 		}, // End anonymous function
 	) // End NewInstallQueue
 	go func(c chan string) {
@@ -510,6 +510,7 @@ func InstallPackagePlan(
 		for p := range c {
 			if anyFailed {
 				// stop trying to install any more
+				wg.Done()
 				continue
 			}
 
@@ -518,6 +519,7 @@ func InstallPackagePlan(
 			_, seen := requestedPkgs[p]
 			if seen {
 				// should only need to request a package once to install
+				wg.Done()
 				continue
 			} else {
 				requestedPkgs[p] = true
-- 
2.43.0


From 0fdf3783cbbec7a9e7db62b0e7ecb1595179bf0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:43 +0000
Subject: [PATCH 07/49] fix: share the failure flag of an installation without
 a data race

---
 rcmd/install.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/rcmd/install.go b/rcmd/install.go
index 0442fb1..05cf4ac 100644
--- a/rcmd/install.go
+++ b/rcmd/install.go
@@ -12,6 +12,7 @@ import (
 	"runtime"
 	"strings"
 	"sync"
+	"sync/atomic"
 	"syscall"
 	"time"
 
@@ -421,7 +422,7 @@ func InstallPackagePlan(
 	installedPkgs := make(map[string]bool)
 	// if packages ID'd as ready to install signal so can push them only the queue
 	shouldInstall := make(chan string)
-	anyFailed := false
+	var anyFailed int32 // set by the updater, read by the goroutine that requests packages
 
 	packagesNeeded := plan.GetNumPackagesToInstall()
 
@@ -436,7 +437,7 @@ func InstallPackagePlan(
 			defer wg.Done()
 			if iu.Err != nil {
 				log.WithField("err", iu.Err).Warn("error installing")
-				anyFailed = true
+				atomic.StoreInt32(&anyFailed, 1)
 				failedPkgs = append(failedPkgs, iu.Package)
 			} else {
 				// set that the package is installed,
@@ -467,7 +468,7 @@ func InstallPackagePlan(
 								allInstalled = false
 							}
 						}
-						if allInstalled && !anyFailed {
+						if allInstalled && atomic.LoadInt32(&anyFailed) == 0 {
 							wg.Add(1)
 							log.WithFields(log.Fields{
 								"from":      iu.Package,
@@ -508,7 +509,7 @@ func InstallPackagePlan(
 	go func(c chan string) {
 		requestedPkgs := make(map[string]bool)
 		for p := range c {
-			if anyFailed {
+			if atomic.LoadInt32(&anyFailed) != 0 {
 				// stop trying to install any more
 				wg.Done()
 				continue
@@ -553,7 +554,7 @@ func InstallPackagePlan(
 		}
 	}
 
-	if anyFailed {
+	if atomic.LoadInt32(&anyFailed) != 0 {
 		log.Errorf("installation failed for packages: %s", strings.Join(failedPkgs, ", "))
 		return fmt.Errorf("failed installation for packages: %s", strings.Join(failedPkgs, ", "))
 	}
-- 
2.43.0


From 81b3bf0703afd294b186c14ea1b4a692a76cadb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:40 +0000
Subject: [PATCH 08/49] fix: use the repository's type for packages that only
 customize their repository

---
 cran/pkg_nexus.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cran/pkg_nexus.go b/cran/pkg_nexus.go
index c235fa4..09536dc 100644
--- a/cran/pkg_nexus.go
+++ b/cran/pkg_nexus.go
@@ -128,12 +128,13 @@ func isCorrectRepo(pkg string, r RepoURL, cfg map[string]PkgConfig) bool {
 func (pkgNexus *PkgNexus) GetPackage(pkg string) (desc.Desc, PkgConfig, bool) {
 	cfg, exists := pkgNexus.Config.Packages[pkg]
 	st := pkgNexus.DefaultSourceType
-	if exists && cfg.Type != Default {
+	typeSet := exists && cfg.Type != Default
+	if typeSet {
 		st = cfg.Type
 	}
 	for _, db := range pkgNexus.Db {
 		rst := st
-		if db.DefaultSourceType != rst && !exists && db.DefaultSourceType != Default {
+		if db.DefaultSourceType != rst && !typeSet && db.DefaultSourceType != Default {
 			rst = db.DefaultSourceType
 		}
 		// For now package existence is checked exactly as the package is specified
-- 
2.43.0


From 5c489b33eb368b814dfbac388e78f96a1209a341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:51 +0000
Subject: [PATCH 09/49] fix: keep the fifth component of a version

---
 desc/version.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/desc/version.go b/desc/version.go
index 84dda6c..f311560 100644
--- a/desc/version.go
+++ b/desc/version.go
@@ -8,7 +8,7 @@ import (
 // ParseVersion parses a package string to a version
 func ParseVersion(v string) Version {
 	ver := Version{String: v}
-	parts := regexp.MustCompile(`[\.-]`).Split(v, 4)
+	parts := regexp.MustCompile(`[\.-]`).Split(v, 5)
 	ver.Major, _ = strconv.Atoi(parts[0])
 	ver.Minor, _ = strconv.Atoi(parts[1])
 	if len(parts) > 2 {
-- 
2.43.0


From 2c80f8e922ea574d35d4bed2c8e37c24fa0fa539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:53 +0000
Subject: [PATCH 10/49] fix: sort versions by their first differing component

---
 desc/version.go | 14 +-------------
 1 file changed, 1 insertion(+), 13 deletions(-)

diff --git a/desc/version.go b/desc/version.go
index f311560..ec320ed 100644
--- a/desc/version.go
+++ b/desc/version.go
@@ -72,19 +72,7 @@ func CompareVersions(v1 Version, v2 Version) int {
 type Versions []Version
 
 func isLowerVersion(v1 Version, v2 Version) bool {
-	if v1.Major < v2.Major {
-		return true
-	}
-	if v1.Minor < v2.Minor {
-		return true
-	}
-	if v1.Dev < v2.Dev {
-		return true
-	}
-	if v1.Other < v2.Other {
-		return true
-	}
-	return false
+	return CompareVersions(v1, v2) < 0
 }
 func (v Versions) Len() int           { return len(v) }
 func (v Versions) Swap(i, j int)      { v[i], v[j] = v[j], v[i] }
-- 
2.43.0


From 7d23802784385cb54bab29ad28580573c347b190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:55 +0000
Subject: [PATCH 11/49] fix: parse versions with a single component

---
 desc/version.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/desc/version.go b/desc/version.go
index ec320ed..8aafa6f 100644
--- a/desc/version.go
+++ b/desc/version.go
@@ -10,7 +10,9 @@ func ParseVersion(v string) Version {
 	ver := Version{String: v}
 	parts := regexp.MustCompile(`[\.-]`).Split(v, 5)
 	ver.Major, _ = strconv.Atoi(parts[0])
-	ver.Minor, _ = strconv.Atoi(parts[1])
+	if len(parts) > 1 {
+		ver.Minor, _ = strconv.Atoi(parts[1])
+	}
 	if len(parts) > 2 {
 		ver.Patch, _ = strconv.Atoi(parts[2])
 	}
-- 
2.43.0


From 98aa9d5ee89a3ef5275e744765cf74361af99901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:56 +0000
Subject: [PATCH 12/49] fix: accept packages that depend on R without a version

---
 cran/repodb.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cran/repodb.go b/cran/repodb.go
index 07014ee..9ea3595 100644
--- a/cran/repodb.go
+++ b/cran/repodb.go
@@ -292,6 +292,8 @@ func checkRVersionCompatibility(rVersion RVersion, pkgRConstraint desc.Dep) bool
 	// v2 for R >= 3.5
 	packageValid := false
 	switch pkgRConstraint.Constraint {
+	case desc.None:
+		packageValid = true
 	case desc.GT:
 		packageValid = desc.CompareVersions(installationVersion, pkgRConstraint.Version) > 0
 	case desc.GTE:
-- 
2.43.0


From 74d6d2b6341bf1f53d3dee8e524b203d3331cc4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:06 +0000
Subject: [PATCH 13/49] fix: report a bad server response as a failed download

---
 cran/download-package.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cran/download-package.go b/cran/download-package.go
index 538efbc..3a091e9 100644
--- a/cran/download-package.go
+++ b/cran/download-package.go
@@ -216,7 +216,7 @@ func DownloadPackage(fs afero.Fs, d PkgDl, dest string, rv RVersion, noSecure bo
 			}).Warn("bad server response")
 			b, _ := ioutil.ReadAll(resp.Body)
 			log.WithField("package", d.Package.Package).Println("body: ", string(b))
-			return Download{Metadata: d}, err
+			return Download{Metadata: d}, fmt.Errorf("bad server response for %s: %s", pkgdl, resp.Status)
 		}
 		from = resp.Body
 		// not sure if we need to close both from and resp.Body but shouldn't be problematic to call twice just in case
-- 
2.43.0


From 4c816b8505d5b907098b75887cd29bd37ae3ab19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:06 +0000
Subject: [PATCH 14/49] fix: never leave a partial download in the cache under
 the package's name

---
 cran/download-package.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/cran/download-package.go b/cran/download-package.go
index 3a091e9..81d8d45 100644
--- a/cran/download-package.go
+++ b/cran/download-package.go
@@ -232,7 +232,9 @@ func DownloadPackage(fs afero.Fs, d PkgDl, dest string, rv RVersion, noSecure bo
 		defer from.Close()
 	}
 
-	file, err := fs.Create(dest)
+	// Downloaded under another name, so that a partial file is never taken for the package.
+	partial := fmt.Sprintf("%s.%d.part", dest, os.Getpid())
+	file, err := fs.Create(partial)
 	if err != nil {
 		log.WithFields(log.Fields{
 			"package": d.Package,
@@ -240,9 +242,15 @@ func DownloadPackage(fs afero.Fs, d PkgDl, dest string, rv RVersion, noSecure bo
 		}).Warn("error downloading package, no tarball created")
 		return Download{}, err
 	}
-	defer file.Close()
 	size, err := io.Copy(file, from)
+	if errClose := file.Close(); err == nil {
+		err = errClose
+	}
+	if err == nil {
+		err = fs.Rename(partial, dest)
+	}
 	if err != nil {
+		fs.Remove(partial)
 		return Download{Metadata: d}, err
 	}
 
-- 
2.43.0


From 422ab640cdc21b3f04dc36eefc857e2368ae371c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:06 +0000
Subject: [PATCH 15/49] fix: never leave a partial package database in the
 cache

---
 cran/repodb.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/cran/repodb.go b/cran/repodb.go
index 9ea3595..05cfde1 100644
--- a/cran/repodb.go
+++ b/cran/repodb.go
@@ -69,7 +69,9 @@ func (repoDb *RepoDb) Encode(file string) error {
 	if err != nil {
 		return err
 	}
-	f, err := os.Create(file)
+	// Written under another name, so that a partial file is never taken for the database.
+	partial := fmt.Sprintf("%s.%d.part", file, os.Getpid())
+	f, err := os.Create(partial)
 	if err != nil {
 		return err
 	}
@@ -77,7 +79,14 @@ func (repoDb *RepoDb) Encode(file string) error {
 
 	// Encoding the map
 	err = e.Encode(repoDb.DescriptionsBySourceType)
+	if errClose := f.Close(); err == nil {
+		err = errClose
+	}
+	if err == nil {
+		err = os.Rename(partial, file)
+	}
 	if err != nil {
+		os.Remove(partial)
 		return err
 	}
 	return nil
-- 
2.43.0


From def9a4f54617ff3d06b9968da603aa9935184071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:06 +0000
Subject: [PATCH 16/49] fix: never leave a partial binary in the cache

---
 rcmd/install.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rcmd/install.go b/rcmd/install.go
index 05cf4ac..7f766b1 100644
--- a/rcmd/install.go
+++ b/rcmd/install.go
@@ -489,10 +489,16 @@ func InstallPackagePlan(
 						rs.Version.ToString(),
 						filepath.Base(iu.BinaryPath),
 					)
-					_, err := goutils.Copy(iu.BinaryPath, bpath)
+					// Copied under another name, so that a partial file is never taken for the binary.
+					partial := fmt.Sprintf("%s.%d.part", bpath, os.Getpid())
+					_, err := goutils.Copy(iu.BinaryPath, partial)
+					if err == nil {
+						err = os.Rename(partial, bpath)
+					}
 					log.WithFields(log.Fields{"from": iu.BinaryPath, "to": bpath}).Trace("copied binary")
 					if err != nil {
 						log.WithFields(log.Fields{"from": iu.BinaryPath, "to": bpath}).Error("error copying binary")
+						os.Remove(partial)
 						return
 					}
 					// want to delete binaries from the existing tmpdir
-- 
2.43.0


From 264e881f2cd4e74eed7aa04c9d8651fa87d24855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:30 +0000
Subject: [PATCH 17/49] fix: never leave a partial extraction in the cache
 under the tarball's name

---
 cmd/tarballOps.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cmd/tarballOps.go b/cmd/tarballOps.go
index 4bbd650..06bc56a 100644
--- a/cmd/tarballOps.go
+++ b/cmd/tarballOps.go
@@ -3,6 +3,7 @@ package cmd
 import (
 	"crypto/md5"
 	"encoding/hex"
+	"fmt"
 	"github.com/metrumresearchgroup/pkgr/desc"
 	"github.com/metrumresearchgroup/pkgr/gpsr"
 	"github.com/metrumresearchgroup/pkgr/internal/archive"
@@ -84,8 +85,14 @@ func untar(fs afero.Fs, path string, cacheDir string) string {
 			"source_tarball": path,
 		}).Debug("using cached tarball.")
 	} else {
-		err = archive.Extract(path, tarballDirectoryPath)
+		// Extracted under another name, so that a partial extraction is never taken for the package.
+		partial := fmt.Sprintf("%s.%d.part", tarballDirectoryPath, os.Getpid())
+		err = archive.Extract(path, partial)
+		if err == nil {
+			err = fs.Rename(partial, tarballDirectoryPath)
+		}
 		if err != nil {
+			fs.RemoveAll(partial)
 			logrus.WithFields(logrus.Fields{
 				"path": path,
 			}).Fatalf("error while unarchiving tarball: %s", err)
-- 
2.43.0


From 3b49fb401379ccc3f313274e2c2add76bff125d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:32 +0000
Subject: [PATCH 18/49] fix: report a local package list that cannot be read

---
 cran/repodb.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/cran/repodb.go b/cran/repodb.go
index 05cfde1..8c99826 100644
--- a/cran/repodb.go
+++ b/cran/repodb.go
@@ -204,11 +204,18 @@ func (repoDb *RepoDb) FetchPackages(rVersion RVersion, noSecure bool) error {
 			} else {
 				pkgdir, _ := homedir.Expand(pkgURL)
 				pkgdir, _ = filepath.Abs(pkgdir)
-				if fi, err := os.Open(pkgdir); !os.IsNotExist(err) {
-					body, err = ioutil.ReadAll(fi)
-					fi.Close()
-				} else {
-					err = fmt.Errorf("no package file found at: %s", pkgdir)
+				fi, err := os.Open(pkgdir)
+				if err != nil {
+					if os.IsNotExist(err) {
+						err = fmt.Errorf("no package file found at: %s", pkgdir)
+					}
+					downloadChannel <- downloadDatabase{St: st, AvailableDescriptions: descriptionMap, Err: err}
+					return
+				}
+				body, err = ioutil.ReadAll(fi)
+				fi.Close()
+				if err != nil {
+					err = fmt.Errorf("error reading %s: %s", pkgdir, err)
 					downloadChannel <- downloadDatabase{St: st, AvailableDescriptions: descriptionMap, Err: err}
 					return
 				}
-- 
2.43.0


From d343bfa8374257477e957ae7c31acf7578567325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:33 +0000
Subject: [PATCH 19/49] fix: fail, and cache nothing, when no package list of a
 repository could be read

---
 cran/repodb.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cran/repodb.go b/cran/repodb.go
index 8c99826..020d7f5 100644
--- a/cran/repodb.go
+++ b/cran/repodb.go
@@ -280,7 +280,7 @@ func (repoDb *RepoDb) FetchPackages(rVersion RVersion, noSecure bool) error {
 		}
 	}
 	// if only one source fails, this could be because it isn't present - eg if have binary/source but only source available
-	if len(repoDb.DescriptionsBySourceType) > 1 && errorCount == len(repoDb.DescriptionsBySourceType) {
+	if errorCount == len(repoDb.DescriptionsBySourceType) {
 		return lasterr
 	}
 
-- 
2.43.0


From c6f19251e311f1ef2981278ead99acb555db5aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:04 +0000
Subject: [PATCH 20/49] fix: keep package databases of different repository
 suffixes apart

---
 cran/repodb.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cran/repodb.go b/cran/repodb.go
index 020d7f5..99cb291 100644
--- a/cran/repodb.go
+++ b/cran/repodb.go
@@ -103,7 +103,7 @@ func (repoDb *RepoDb) Hash(rVersion string) string {
 		stsum += st + 1
 	}
 
-	io.WriteString(h, repoDb.Repo.Name+repoDb.Repo.URL+fmt.Sprint(stsum)+rVersion)
+	io.WriteString(h, repoDb.Repo.Name+repoDb.Repo.URL+fmt.Sprint(stsum)+rVersion+repoDb.RepoSuffix)
 	return fmt.Sprintf("%x", h.Sum(nil))
 }
 
-- 
2.43.0


From a7c532b72683edf463eb50f0082e2b71b21a5a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:05 +0000
Subject: [PATCH 21/49] fix: keep cached packages of different repository
 suffixes apart

---
 cran/utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cran/utils.go b/cran/utils.go
index a9cc0d2..cc96c1c 100644
--- a/cran/utils.go
+++ b/cran/utils.go
@@ -161,7 +161,7 @@ func cranBinaryURL(rv RVersion) string {
 func RepoURLHash(r RepoURL) string {
 	h := md5.New()
 	// don't hash everything as still want a reasonable identifier
-	io.WriteString(h, r.URL)
+	io.WriteString(h, r.URL+r.Suffix)
 	urlHash := fmt.Sprintf("%x", h.Sum(nil))
 	return r.Name + "-" + urlHash[:12]
 }
-- 
2.43.0


From 600cc17ba3eeba427990cd62f10353c44a189773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:53 +0000
Subject: [PATCH 22/49] fix: do not install the working directory in place of a
 package that was not downloaded

---
 rcmd/install.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/rcmd/install.go b/rcmd/install.go
index 7f766b1..9837ece 100644
--- a/rcmd/install.go
+++ b/rcmd/install.go
@@ -299,6 +299,15 @@ func InstallThroughBinary(
 		return res, "", err
 	}
 
+	if ir.Metadata.Path == "" {
+		// joined with the working directory below, it would name that directory
+		err := fmt.Errorf("package file of %s is not available", ir.Package)
+		return CmdResult{
+			Stderr:   err.Error(),
+			ExitCode: 1,
+		}, "", err
+	}
+
 	tmpdir := filepath.Join(
 		os.TempDir(),
 		randomString(12),
-- 
2.43.0


From 297360a5839b11b237b53042a33cd06fe608fc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:25 +0000
Subject: [PATCH 23/49] fix: use the whole major version of CentOS and Red Hat
 in binary addresses

Only its first digit was used, so that version 10 got the binaries of version 1,
and an empty version crashed.
---
 cran/utils.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/cran/utils.go b/cran/utils.go
index cc96c1c..9aa5fca 100644
--- a/cran/utils.go
+++ b/cran/utils.go
@@ -10,6 +10,7 @@ import (
 	"io/ioutil"
 	"regexp"
 	"runtime"
+	"strings"
 )
 
 type BinaryUriType int
@@ -129,9 +130,7 @@ func getLinuxBinaryUri() string {
 	// rstudio package manager seems confident just 7 vs 8 is sufficient as a default therefore will follow
 	// given the compat with redhat can normalize to centos
 	if osRelease.Id == "centos" || osRelease.Id == "rhel" {
-		// reminder that go indices on strings pull their byte representation, not the string value
-		// either coerce back to string or work with runes
-		version := string(osRelease.VersionId[0])
+		version := strings.Split(osRelease.VersionId, ".")[0]
 		return fmt.Sprintf("centos/%s", version)
 	}
 
-- 
2.43.0


From 6bd4602b5b58186fea392db34424b9127686f9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:44 +0000
Subject: [PATCH 24/49] fix: do not crash on a dependency with an unknown
 version operator

R also accepts !=, and one such package in a repository ended every run.
---
 desc/desc.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/desc/desc.go b/desc/desc.go
index 7203ead..3d5d799 100644
--- a/desc/desc.go
+++ b/desc/desc.go
@@ -38,8 +38,8 @@ func ParseDep(d string) Dep {
 			dep.Constraint = LT
 			dep.Version = ParseVersion(strings.TrimSpace(strings.Replace(pv, "<", " ", 1)))
 		} else {
-			fmt.Println(pv)
-			panic(pv)
+			// not an operator that pkgr knows, eg !=
+			fmt.Printf("ignoring version constraint of dependency: %s\n", d)
 		}
 	}
 	return dep
-- 
2.43.0


From 038f45cca17cee1a7ba98f0fdd18a3bb20c504fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:45 +0000
Subject: [PATCH 25/49] fix: do not crash when no package is required from a
 repository

For example with a tarball that has no dependencies.
---
 gpsr/solution.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gpsr/solution.go b/gpsr/solution.go
index 3816786..123083e 100644
--- a/gpsr/solution.go
+++ b/gpsr/solution.go
@@ -80,10 +80,15 @@ func ResolveInstallationReqs(
 		}
 	}
 
+	var startingPackages []string
+	if len(resolved) > 0 {
+		startingPackages = resolved[0]
+	}
+
 	outdatedPackages := pacman.GetOutdatedPackages(preinstalledPkgs, pkgNexus.GetPackages(extractNamesFromDesc(preinstalledPkgs)).Packages)
 
 	installPlan := InstallPlan{
-		StartingPackages:  resolved[0],
+		StartingPackages:  startingPackages,
 		DepDb:             depDb,
 		InstalledPackages: preinstalledPkgs,
 		OutdatedPackages:  outdatedPackages,
-- 
2.43.0


From 0e89013ad68a222f7ec977af09bf6b2bade7a143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:46 +0000
Subject: [PATCH 26/49] fix: do not crash when the version of R is reported
 without a platform

---
 rcmd/Rsettings.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rcmd/Rsettings.go b/rcmd/Rsettings.go
index d10f18a..58ba7fa 100644
--- a/rcmd/Rsettings.go
+++ b/rcmd/Rsettings.go
@@ -88,7 +88,7 @@ func parseVersionData(data []byte) (version cran.RVersion, platform string) {
 			}
 		} else if strings.HasPrefix(line, "Platform:") {
 			rsp := strings.Split(line, " ")
-			if len(rsp) > 0 {
+			if len(rsp) > 1 {
 				platform = strings.Trim(rsp[1], " ")
 			} else {
 				log.Fatal("error getting R platform")
-- 
2.43.0


From 00b78452854886f1717c9f988e3f3d99e6604959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:48 +0000
Subject: [PATCH 27/49] fix: do not crash when no repository is configured

---
 cmd/plan.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/plan.go b/cmd/plan.go
index 83490c7..64d74bd 100644
--- a/cmd/plan.go
+++ b/cmd/plan.go
@@ -172,7 +172,9 @@ func planInstall(rv cran.RVersion, exitOnMissing bool) (*cran.PkgNexus, gpsr.Ins
 		}
 	}
 	log.Infoln("Package installation cache directory: ", userCache(cfg.Cache))
-	log.Infoln("Database cache directory: ", filepath.Dir(pkgNexus.Db[0].GetRepoDbCacheFilePath(rv.ToFullString())))
+	if len(pkgNexus.Db) > 0 {
+		log.Infoln("Database cache directory: ", filepath.Dir(pkgNexus.Db[0].GetRepoDbCacheFilePath(rv.ToFullString())))
+	}
 
 	dependencyConfigurations := gpsr.NewDefaultInstallDeps()
 	dependencyConfigurations.Default.NoRecommended = cfg.NoRecommended
-- 
2.43.0


From c97c715161923979a85072f4a8bff8e402e3b98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:49 +0000
Subject: [PATCH 28/49] fix: keep the library of packages whose path contains
 an equals sign

R_LIBS_SITE was silently not set for it.
---
 rcmd/nvp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rcmd/nvp.go b/rcmd/nvp.go
index 76b3265..cc183f5 100644
--- a/rcmd/nvp.go
+++ b/rcmd/nvp.go
@@ -12,7 +12,7 @@ func (list *NvpList) Append(name, value string) {
 
 // AppendNvp append a string of name=value pair to the list as an Nvp object
 func (list *NvpList) AppendNvp(nvp string) {
-	b := strings.Split(nvp, "=")
+	b := strings.SplitN(nvp, "=", 2)
 	if len(b) == 2 {
 		list.Append(b[0], b[1])
 	}
-- 
2.43.0


From 1d3b6c391a51bd08b6c0c574d0a3b829be43d6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:55 +0000
Subject: [PATCH 29/49] fix: do not crash on a package customization that is
 empty or not in a list

---
 configlib/config.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/configlib/config.go b/configlib/config.go
index 72a20fe..f4c8d77 100644
--- a/configlib/config.go
+++ b/configlib/config.go
@@ -222,9 +222,11 @@ func loadDefaultSettings() {
 // IsCustomizationSet ...
 func IsCustomizationSet(key string, elems []interface{}, elem string) bool {
 	for _, v := range elems {
-		for k, iv := range v.(map[interface{}]interface{}) {
+		settings, _ := v.(map[interface{}]interface{})
+		for k, iv := range settings {
 			if k == elem {
-				for k2 := range iv.(map[interface{}]interface{}) {
+				set, _ := iv.(map[interface{}]interface{})
+				for k2 := range set {
 					if k2 == key {
 						return true
 					}
@@ -297,7 +299,10 @@ func SetPlanCustomizations(cfg PkgrConfig, dependencyConfigurations gpsr.Install
 
 	//if viper.Sub("Customizations") != nil && viper.Sub("Customizations").AllSettings()["packages"] != nil {
 	if len(cfg.Customizations.Packages) > 0 {
-		pkgSettings := viper.Sub("Customizations").AllSettings()["packages"].([]interface{})
+		pkgSettings, ok := viper.Sub("Customizations").AllSettings()["packages"].([]interface{})
+		if !ok {
+			log.Fatal("the Packages section of Customizations must be a list")
+		}
 		setViperCustomizations(cfg, pkgSettings, dependencyConfigurations, pkgNexus)
 	}
 }
-- 
2.43.0


From 622e653fe9346334eff13f930699690d9a8ebb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:05 +0000
Subject: [PATCH 30/49] fix: clear unpacked tarballs from the cache that is
 used when none is configured

---
 cmd/cleanCache.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/cleanCache.go b/cmd/cleanCache.go
index 923c19c..77d2136 100644
--- a/cmd/cleanCache.go
+++ b/cmd/cleanCache.go
@@ -113,7 +113,7 @@ func cleanCacheFolders() error {
 			continue
 		}
 		openedTgz.Close()
-		err = fs.RemoveAll(filepath.Join(cfg.Cache, hashedDirectoryName))
+		err = fs.RemoveAll(filepath.Join(cachePath, hashedDirectoryName))
 		if err != nil {
 			log.WithFields(log.Fields{
 				"file":  tgzFile,
-- 
2.43.0


From 103281922bf4c29bf2672475d9cbc2569e81f368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:05 +0000
Subject: [PATCH 31/49] fix: do not crash when cleaning a cache that does not
 exist

---
 cmd/cleanCache.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/cleanCache.go b/cmd/cleanCache.go
index 77d2136..1c554dd 100644
--- a/cmd/cleanCache.go
+++ b/cmd/cleanCache.go
@@ -136,10 +136,10 @@ func deleteCacheSubfolders(fs afero.Fs, repos []string, subfolder string, cacheD
 
 	//Filesystem object for the cache directory
 	cacheDirFsObject, err := fs.Open(cacheDirectory)
-	defer cacheDirFsObject.Close()
 	if err != nil {
 		return err
 	}
+	defer cacheDirFsObject.Close()
 
 	//File info object, I guess I needed this
 	cacheDirObject, _ := cacheDirFsObject.Readdir(0)
-- 
2.43.0


From 7013f5309d09fc25f79791aa21dfcfd661c9a77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:05 +0000
Subject: [PATCH 32/49] fix: fail when the cache is to be cleaned with
 contradictory options

---
 cmd/cleanCache.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cmd/cleanCache.go b/cmd/cleanCache.go
index 1c554dd..fbf57b6 100644
--- a/cmd/cleanCache.go
+++ b/cmd/cleanCache.go
@@ -61,8 +61,7 @@ func init() {
 }
 
 func cache(cmd *cobra.Command, args []string) error {
-	cleanCacheFolders()
-	return nil
+	return cleanCacheFolders()
 }
 
 func cleanCacheFolders() error {
-- 
2.43.0


From ad13a5b218ee15e0061e7414ee0287548226899d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:55 +0000
Subject: [PATCH 33/49] fix: do not crash when a cached package database cannot
 be examined

---
 cran/repodb.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cran/repodb.go b/cran/repodb.go
index 99cb291..8a3c4d2 100644
--- a/cran/repodb.go
+++ b/cran/repodb.go
@@ -129,7 +129,7 @@ func (repoDb *RepoDb) FetchPackages(rVersion RVersion, noSecure bool) error {
 	var err error
 	pkgdbFile := repoDb.GetRepoDbCacheFilePath(rVersion.ToFullString())
 
-	if fi, err := os.Stat(pkgdbFile); !os.IsNotExist(err) {
+	if fi, err := os.Stat(pkgdbFile); err == nil {
 		maxSecs := 3600
 		maxAge, ok := os.LookupEnv("R_AVAILABLE_PACKAGES_CACHE_CONTROL_MAX_AGE")
 		if ok {
-- 
2.43.0


From 79900cff0590a19049a6629b923053300045cfab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:00 +0000
Subject: [PATCH 34/49] fix: install the Depends packages of tarballs and
 DESCRIPTION files

---
 desc/structs.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/desc/structs.go b/desc/structs.go
index 01806d7..1672e65 100644
--- a/desc/structs.go
+++ b/desc/structs.go
@@ -81,6 +81,12 @@ type Desc struct {
 func (d *Desc) GetCombinedDependencies(suggests bool) map[string]Dep {
 	combined := map[string]Dep{}
 
+	for key, value := range d.Depends {
+		// R itself is not a package
+		if key != "R" {
+			combined[key] = value
+		}
+	}
 	for key, value := range d.Imports {
 		combined[key] = value
 	}
-- 
2.43.0


From e27413d707e2fa471056496b50e68a72f7897917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:00 +0000
Subject: [PATCH 35/49] fix: leave out excluded packages that are only
 suggested

---
 gpsr/helpers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpsr/helpers.go b/gpsr/helpers.go
index 9258516..21f9066 100644
--- a/gpsr/helpers.go
+++ b/gpsr/helpers.go
@@ -62,7 +62,7 @@ func appendToGraph(m Graph, d desc.Desc, dependencyConfigs InstallDeps, pkgNexus
 			if r != "R" && !ok {
 				//fmt.Println(d.Package, "-->", r)
 				pkg, _, exists := pkgNexus.GetPackage(r)
-				if exists {
+				if exists && !isExcludedPackage(r, dependencyConfig.NoRecommended) {
 					appendToGraph(m, pkg, dependencyConfigs, pkgNexus)
 				}
 			}
-- 
2.43.0


From cf3a341acffc7fa817c2cff0534e87de122cac94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:02 +0000
Subject: [PATCH 36/49] fix: leave out ignored packages that tarballs or
 DESCRIPTION files depend on

---
 cmd/plan.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/cmd/plan.go b/cmd/plan.go
index 64d74bd..80a6ac5 100644
--- a/cmd/plan.go
+++ b/cmd/plan.go
@@ -189,7 +189,7 @@ func planInstall(rv cran.RVersion, exitOnMissing bool) (*cran.PkgNexus, gpsr.Ins
 		for _, tarballDesc := range tarballDescriptions {
 			tarballDeps := tarballDesc.GetCombinedDependencies(false)
 			for _, d := range tarballDeps {
-				if !funk.Contains(cfg.Packages, d.Name) {
+				if !funk.Contains(cfg.Packages, d.Name) && !isIgnoredDependency(d.Name) {
 					cfg.Packages = append(cfg.Packages, d.Name)
 				}
 			}
@@ -205,7 +205,7 @@ func planInstall(rv cran.RVersion, exitOnMissing bool) (*cran.PkgNexus, gpsr.Ins
 		for _, desc := range descDescriptions {
 			descDeps := desc.GetCombinedDependencies(true)
 			for _, d := range descDeps {
-				if !funk.Contains(cfg.Packages, d.Name) {
+				if !funk.Contains(cfg.Packages, d.Name) && !isIgnoredDependency(d.Name) {
 					cfg.Packages = append(cfg.Packages, d.Name)
 				}
 			}
@@ -327,6 +327,14 @@ func planInstall(rv cran.RVersion, exitOnMissing bool) (*cran.PkgNexus, gpsr.Ins
 	return pkgNexus, installPlan, rollbackPlan
 }
 
+// isIgnoredDependency reports whether pkg is to be left out unless the user lists it.
+func isIgnoredDependency(pkg string) bool {
+	if cfg.NoRecommended && gpsr.DefaultPackages[pkg] == "recommended" {
+		return true
+	}
+	return stringInSlice(pkg, cfg.IgnorePackages)
+}
+
 // Removes any "base" packages from the given list.
 func removeBasePackages(pkgList []string) []string {
 	var nonbasePkgList []string
-- 
2.43.0


From 6b872cb635e1be9e7a04b042f67c74b66eca55a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:49 +0000
Subject: [PATCH 37/49] fix: ignore R_LIBS of the environment like the other
 library paths

---
 rcmd/configure.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rcmd/configure.go b/rcmd/configure.go
index 4a73e6b..edbc3f9 100644
--- a/rcmd/configure.go
+++ b/rcmd/configure.go
@@ -54,6 +54,11 @@ func configureEnv(sysEnvVars []string, rs RSettings, pkg string) []string {
 				log.WithField("path", evs[1]).Debug("overriding system R_LIBS_SITE")
 				continue
 			}
+			// R_LIBS takes precedence over both
+			if evs[0] == "R_LIBS" {
+				log.WithField("path", evs[1]).Debug("overriding system R_LIBS")
+				continue
+			}
 			if evs[0] == "PATH" {
 				rDir := filepath.Dir(rs.Rpath)
 				if rDir != "" && rDir != "." && !strings.HasPrefix(evs[1], rDir) {
-- 
2.43.0


From 7e078b24860efb2ac37ad24e83096954cfa18261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:54 +0000
Subject: [PATCH 38/49] fix: update packages although an interrupted run left
 their backups behind

---
 rollback/operations.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rollback/operations.go b/rollback/operations.go
index d72f72b..bbf918f 100644
--- a/rollback/operations.go
+++ b/rollback/operations.go
@@ -145,6 +145,13 @@ func tagOldInstallation(fileSystem afero.Fs, libraryPath string, outdatedPackage
 	packageDir := filepath.Join(libraryPath, outdatedPackage.Package)
 	taggedPackageDir := filepath.Join(libraryPath, "__OLD__"+outdatedPackage.Package)
 
+	// An interrupted run may have left its backup behind, which nothing can be renamed over.
+	if exists, _ := afero.Exists(fileSystem, packageDir); exists {
+		if err := fileSystem.RemoveAll(taggedPackageDir); err != nil {
+			logrus.WithField("package dir", taggedPackageDir).Warn("error when removing a leftover backup: ", err)
+		}
+	}
+
 	err := fileSystem.Rename(packageDir, taggedPackageDir)
 	//err := RenameDirRecursive(fileSystem, packageDir, taggedPackageDir)
 
-- 
2.43.0


From 254513ebd2571708a1549754847793c752617ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:56 +0000
Subject: [PATCH 39/49] fix: do not take the backup of an interrupted update
 for an installed package

---
 pacman/utils.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pacman/utils.go b/pacman/utils.go
index d6db434..75a18f0 100644
--- a/pacman/utils.go
+++ b/pacman/utils.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"fmt"
 	"path/filepath"
+	"strings"
 
 	"github.com/dpastoor/goutils"
 	"github.com/metrumresearchgroup/pkgr/cran"
@@ -27,6 +28,10 @@ func GetPriorInstalledPackages(fileSystem afero.Fs, libraryPath string) map[stri
 	installedPackageFolders := goutils.ListDirNames(fileInfo)
 
 	for _, pkgFolder := range installedPackageFolders {
+		if strings.HasPrefix(pkgFolder, "__OLD__") {
+			// the backup of an update that was interrupted
+			continue
+		}
 		descriptionFilePath := filepath.Join(libraryPath, pkgFolder, "DESCRIPTION")
 		installedPackage, err := scanInstalledPackage(descriptionFilePath, fileSystem)
 
-- 
2.43.0


From 96602a75af8a062efee90ac2e1842525c95ec75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:04 +0000
Subject: [PATCH 40/49] fix: read the operating system's release only once

The package databases are fetched by several goroutines, each of which read
/etc/os-release into the same variable at the same time.
---
 cran/utils.go | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/cran/utils.go b/cran/utils.go
index 9aa5fca..b981330 100644
--- a/cran/utils.go
+++ b/cran/utils.go
@@ -11,6 +11,7 @@ import (
 	"regexp"
 	"runtime"
 	"strings"
+	"sync"
 )
 
 type BinaryUriType int
@@ -21,6 +22,8 @@ const (
 )
 
 var osRelease OsRelease
+var osReleaseOnce sync.Once
+var osReleaseErr error
 
 var supportedDistros = map[string]bool{
 	"focal": true,
@@ -37,6 +40,7 @@ func binaryName(pkg, version string) string {
 	case "darwin":
 		return fmt.Sprintf("%s_%s.tgz", pkg, version)
 	case "linux":
+		ReadOsRelease()
 		if osRelease.Id == "rhel" {
 			return fmt.Sprintf("%s_%s_R_x86_64-redhat-linux-gnu.tar.gz", pkg, version)
 		}
@@ -110,12 +114,10 @@ func getLinuxCodename() string {
 
 
 func getLinuxBinaryUri() string {
-	if !osRelease.checked {
-		err := ReadOsRelease()
-		if err != nil {
-			log.Warnf("could not get derive linux information with error: %s\n", err)
-			return ""
-		}
+	err := ReadOsRelease()
+	if err != nil {
+		log.Warnf("could not get derive linux information with error: %s\n", err)
+		return ""
 	}
 	if osRelease.Id == "" {
 		return ""
@@ -165,12 +167,15 @@ func RepoURLHash(r RepoURL) string {
 	return r.Name + "-" + urlHash[:12]
 }
 
+// ReadOsRelease reads /etc/os-release once, however many goroutines ask for it
 func ReadOsRelease() error {
+	osReleaseOnce.Do(func() {
+		osReleaseErr = readOsRelease()
+	})
+	return osReleaseErr
+}
 
-	if osRelease.checked {
-		// Already checked
-		return nil
-	}
+func readOsRelease() error {
 	//os-release doesn't consistently quote variables, so we need to manipulate it a little bit
 	configData, err := ioutil.ReadFile("/etc/os-release")
 	if err != nil {
-- 
2.43.0


From e6360af77a567aa50d8ce712485a2868508fe2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:24 +0000
Subject: [PATCH 41/49] fix: do not empty a configuration file that could not
 be read

---
 configlib/config.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/configlib/config.go b/configlib/config.go
index f4c8d77..58e4caf 100644
--- a/configlib/config.go
+++ b/configlib/config.go
@@ -250,7 +250,10 @@ func RemovePackage(name string) error {
 // remove remove a package from the Package section of the yml config file
 func remove(ymlfile string, packageName string) error {
 	appFS := afero.NewOsFs()
-	yf, _ := afero.ReadFile(appFS, ymlfile)
+	yf, err := afero.ReadFile(appFS, ymlfile)
+	if err != nil {
+		return err
+	}
 	fi, err := os.Stat(ymlfile)
 	if err != nil {
 		return err
-- 
2.43.0


From c233da5bcf3e12a0495c4f6109b6f7ded141ef81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:27 +0000
Subject: [PATCH 42/49] fix: remove the named package only, not those whose
 name starts with it

---
 configlib/config.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/configlib/config.go b/configlib/config.go
index 58e4caf..c246069 100644
--- a/configlib/config.go
+++ b/configlib/config.go
@@ -266,8 +266,11 @@ func remove(ymlfile string, packageName string) error {
 		// trim the line to detect the start of the list of packages
 		// but do not write the trimmed string as it may cause an
 		// unneeded file diff to the yml file
-		sline := bytes.TrimLeft(line, " ")
-		if bytes.HasPrefix(sline, []byte("- "+packageName)) {
+		sline := bytes.TrimSpace(line)
+		if c := bytes.Index(sline, []byte(" #")); c >= 0 {
+			sline = bytes.TrimSpace(sline[:c])
+		}
+		if bytes.Equal(sline, []byte("- "+packageName)) {
 			continue
 		}
 		out = append(out, line...)
-- 
2.43.0


From 5477b2a3938c20592156e433dcf67888493823c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:29 +0000
Subject: [PATCH 43/49] fix: remove packages from the Packages section only

---
 configlib/config.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/configlib/config.go b/configlib/config.go
index c246069..4a779a3 100644
--- a/configlib/config.go
+++ b/configlib/config.go
@@ -259,6 +259,7 @@ func remove(ymlfile string, packageName string) error {
 		return err
 	}
 	var out []byte
+	inPackages := false
 	i := 0
 	lines := bytes.Split(yf, []byte("\n"))
 	for _, line := range lines {
@@ -267,10 +268,14 @@ func remove(ymlfile string, packageName string) error {
 		// but do not write the trimmed string as it may cause an
 		// unneeded file diff to the yml file
 		sline := bytes.TrimSpace(line)
+		if len(line) > 0 && !bytes.ContainsAny(line[:1], " \t\r-#") {
+			// a key of the configuration itself, which ends the section before it
+			inPackages = bytes.HasPrefix(bytes.ToLower(line), []byte("packages:"))
+		}
 		if c := bytes.Index(sline, []byte(" #")); c >= 0 {
 			sline = bytes.TrimSpace(sline[:c])
 		}
-		if bytes.Equal(sline, []byte("- "+packageName)) {
+		if inPackages && bytes.Equal(sline, []byte("- "+packageName)) {
 			continue
 		}
 		out = append(out, line...)
-- 
2.43.0


From b5452fe2e523f1784f42a5e99f6cd2613c4505e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:31 +0000
Subject: [PATCH 44/49] fix: add packages to a Packages section that lists none

---
 configlib/add_package.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/configlib/add_package.go b/configlib/add_package.go
index 75a816c..3501c5d 100644
--- a/configlib/add_package.go
+++ b/configlib/add_package.go
@@ -89,6 +89,10 @@ func insertPackages(lines []string, pkgs ...string) []string {
 			}
 		}
 		numPadding := strings.Index(lines[packageStartIndex+firstPackageIndex], "-")
+		if numPadding < 0 {
+			// nothing is listed yet
+			numPadding = 0
+		}
 
 		padding := strings.Repeat(" ", numPadding)
 		for _, pkg := range pkgs {
-- 
2.43.0


From db3ef790c4562698e85c2e66fea761f843520d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:33 +0000
Subject: [PATCH 45/49] fix: do not drop the lines after one too long to be
 read

---
 configlib/add_package.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/configlib/add_package.go b/configlib/add_package.go
index 3501c5d..b742e21 100644
--- a/configlib/add_package.go
+++ b/configlib/add_package.go
@@ -27,6 +27,9 @@ func AddPackages(pkgs []string) error {
 	for scanner.Scan() {
 		lines = append(lines, scanner.Text())
 	}
+	if err = scanner.Err(); err != nil {
+		return err
+	}
 
 	var pc PkgrConfig
 	err = yaml.Unmarshal(yf, &pc)
-- 
2.43.0


From 6f2127772e6f8962904db69d8da4fd94848edf66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:17 +0000
Subject: [PATCH 46/49] fix: add a package once that is named more than once

---
 configlib/add_package.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/configlib/add_package.go b/configlib/add_package.go
index b742e21..6006dfb 100644
--- a/configlib/add_package.go
+++ b/configlib/add_package.go
@@ -38,7 +38,7 @@ func AddPackages(pkgs []string) error {
 	}
 
 	for _, p := range pkgs {
-		if funk.ContainsString(pc.Packages, p) {
+		if funk.ContainsString(pc.Packages, p) || funk.ContainsString(pkgsToInstall, p) {
 			log.Debug(fmt.Sprintf("Package <%s> already found in <%s>", p, ymlfile))
 			continue
 		}
-- 
2.43.0


From 55b4f1846fab49fd6c34c1f870398d5bbe865fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:26 +0000
Subject: [PATCH 47/49] fix: do not take the packages of a library that cannot
 be read for new ones

---
 pacman/utils.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pacman/utils.go b/pacman/utils.go
index 75a18f0..aaa5a4a 100644
--- a/pacman/utils.go
+++ b/pacman/utils.go
@@ -3,6 +3,7 @@ package pacman
 import (
 	"errors"
 	"fmt"
+	"os"
 	"path/filepath"
 	"strings"
 
@@ -18,13 +19,20 @@ func GetPriorInstalledPackages(fileSystem afero.Fs, libraryPath string) map[stri
 	installed := make(map[string]desc.Desc)
 	installedLibrary, err := fileSystem.Open(libraryPath)
 
+	if err != nil && !os.IsNotExist(err) {
+		// Its packages would be taken for new ones, and a rollback would remove them.
+		log.WithField("libraryPath", libraryPath).WithField("error", err).Fatal("package library could not be read")
+	}
 	if err != nil {
 		log.WithField("libraryPath", libraryPath).Warn("package library not found at given library path")
 		return installed
 	}
 	defer installedLibrary.Close()
 
-	fileInfo, _ := installedLibrary.Readdir(0)
+	fileInfo, err := installedLibrary.Readdir(0)
+	if err != nil {
+		log.WithField("libraryPath", libraryPath).WithField("error", err).Fatal("package library could not be read")
+	}
 	installedPackageFolders := goutils.ListDirNames(fileInfo)
 
 	for _, pkgFolder := range installedPackageFolders {
-- 
2.43.0


From cc11309518170dad90d1576916d57c1eeb06851a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:43 +0000
Subject: [PATCH 48/49] fix: halt when it cannot be determined whether the
 library exists

---
 cmd/plan.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/plan.go b/cmd/plan.go
index 80a6ac5..50e0111 100644
--- a/cmd/plan.go
+++ b/cmd/plan.go
@@ -87,10 +87,11 @@ func planInstall(rv cran.RVersion, exitOnMissing bool) (*cran.PkgNexus, gpsr.Ins
 	libraryExists, err := afero.DirExists(fs, cfg.Library)
 
 	if err != nil {
+		// Taken for one to be created, it would be removed by a rollback.
 		log.WithFields(log.Fields{
 			"library": cfg.Library,
 			"error":   err,
-		}).Error("unexpected error when checking existence of library")
+		}).Fatal("unexpected error when checking existence of library")
 	}
 
 	if !libraryExists && cfg.Strict {
-- 
2.43.0


From d02b21b4a5ce40978a474b3f5b19100f98d4dff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:13 +0000
Subject: [PATCH 49/49] fix: put the folder of the chosen R first in PATH
 although another folder's name starts with its name

---
 rcmd/configure.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rcmd/configure.go b/rcmd/configure.go
index edbc3f9..23251c2 100644
--- a/rcmd/configure.go
+++ b/rcmd/configure.go
@@ -61,7 +61,7 @@ func configureEnv(sysEnvVars []string, rs RSettings, pkg string) []string {
 			}
 			if evs[0] == "PATH" {
 				rDir := filepath.Dir(rs.Rpath)
-				if rDir != "" && rDir != "." && !strings.HasPrefix(evs[1], rDir) {
+				if rDir != "" && rDir != "." && !strings.HasPrefix(evs[1]+":", rDir+":") {
 					evs[1] = fmt.Sprintf("%s:%s", rDir, evs[1])
 					log.WithField("path", evs[1]).Debug("adding Rpath to front of system PATH")
 				}
-- 
2.43.0

